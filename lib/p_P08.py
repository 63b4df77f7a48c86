"""P08: Fourier, cosine and their inverses; engines."""
import vk, spectral

KINDS = ["e_cdft", "e_cidft", "e_dft", "e_idft", "e_dht", "e_dct", "e_idct"]
OPS = ["cdft", "cidft", "dft", "idft", "dct", "idct"]
LIBS = ["-lfftw3", "-lfftw3f"]


def check(c):
    q = c.quick
    g = c.gen("SpectralModel", "CONSTANTS MaxN = %d Values = {0, 1, 3} Tour = TRUE" % (5 if q else 7), spec="", more="INIT Init\nNEXT Next\n",
              invs=["Inverse", "Hermitian", "HalfSuffices", "Parseval", "HartleyTwice", "CosineInverse", "Emit"], label="theorems of the transforms on small vectors")
    h = c.gen("EngineModel", "CONSTANTS MaxLen = %d Tour = TRUE Kinds = {%s}" % (2 if q else 3, ", ".join('"%s"' % k for k in KINDS)), spec="",
              more="INIT Init\nNEXT Next\n", invs=["Right"], label="every history of one engine")
    exe = c.build("spectral.cpp", libs=LIBS)
    sc = []
    for v in g:
        v = [float(a) for a in v]
        z = [0.0] * len(v)
        sc.append(vk.script([{"op": "dft", "x": v}, {"op": "dct", "x": v, "inplace": c.rng.randint(0, 1)}, {"op": "idct", "x": v},
                             {"op": "cdft", "x": v, "y": v[::-1], "inplace": c.rng.randint(0, 1)}, {"op": "cidft", "x": v, "y": v[1:] + v[:1]}]
                            + ([{"op": "idft", "x": v, "y": [0.0] + v[1:-1] + [0.0]}] if len(v) > 1 else [])))
    if len(h) > 8000:
        h = c.rng.sample(h, 8000)
    for b in h:
        n = c.rng.choice([4, 5, 8, 6, 16])
        t = "f" if c.rng.random() < .2 else "d"
        sc.append(vk.script([{"op": "engine", "n": n, "t": t}] + [spectral.engine_op(c.rng, n, r["k"], r["inplace"], r["off"], 0, t) for r in b]))
    for _ in range(80 if q else 1500):
        n = c.rng.choice([1, 2, 3, 4, 7, 8, 12, 16, 32, 33])
        t = "f" if c.rng.random() < .2 else "d"
        b = [{"op": "engine", "n": n, "t": t}]
        two = 0
        for _ in range(8):
            if c.rng.random() < .15:
                b.append({"op": "copy", "t": t})
                two = 1
            b.append(spectral.engine_op(c.rng, n, c.rng.choice(KINDS), c.rng.randint(0, 1), c.rng.randint(0, 1), c.rng.randint(0, two), t))
        sc.append(vk.script(b))
    sc += [vk.script([spectral.rnd(c.rng, OPS, True)]) for _ in range(300 if q else 6000)]
    c.conform(exe, "SpectralTrace", sc, label="transforms", workers=8)
    c.assumptions = ["lengths 1..256; double within 1e-10 and float within 1e-5 of the sum of magnitudes", "half spectra given to the real inverse have real end points",
                     "FFTW backend (the one the build uses)"]


def probe(c, name):
    return c.build("spectral.cpp", libs=LIBS), "SpectralTrace"
