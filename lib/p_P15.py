"""P15: unit converters, auditory scales, companding."""
import vk
from arrays import vec, f32

SC = ["mel", "erb", "bark", "cent"]


def num(rng, lo, hi):
    return rng.choice([lo, hi, rng.uniform(lo, hi), lo * (hi / lo) ** rng.random() if lo > 0 else rng.uniform(lo, hi)])


def freq(rng, s):
    lo = 16.5 if s == "cent" else 0.0
    f = rng.choice([lo, rng.uniform(lo, 22050), lo + rng.expovariate(1 / 500), 440.0, 1000.0, 200.0, 300.0, 6000.0, 7000.0])
    return -f if s == "cent" and rng.random() < .1 else f


def one(rng):
    k = rng.choice(["unit", "unit", "scale", "unscale", "space", "mulaw", "mulaw", "peak", "complex"])
    if k == "unit":
        o = rng.choice(["mag2db", "pow2db", "db2mag", "db2pow", "deg2rad", "rad2deg"])
        v = num(rng, 1e-6, 1e6) if o in ("mag2db", "pow2db") else num(rng, -120.0, 120.0) if o.startswith("db") else num(rng, -720.0, 720.0)
        r = {"op": o, "v": v}
        if rng.random() < .3:                                        # the whole range of the number type
            single = rng.random() < .5
            e = rng.uniform(-36, 37) if single else rng.uniform(-290, 300)
            if o.startswith("db"):
                top = (700 if single else 5800) / (1 if o == "db2mag" else 2)
                r["v"] = rng.uniform(-top, top)
            else:
                r["v"] = 10 ** e
            if single:
                r["t"], r["v"] = "f", f32([r["v"]])[0]
            return r
    elif k == "scale":
        s = rng.choice(SC)
        r = {"op": "scale", "s": s, "v": freq(rng, s)}
    elif k == "unscale":
        s = rng.choice(SC)
        hi = {"mel": 3900.0, "erb": 43.0, "bark": 24.5, "cent": 12500.0}[s]
        r = {"op": "unscale", "s": s, "v": rng.choice([num(rng, 0.0, hi), rng.uniform(0, 3), rng.uniform(.8 * hi, hi), 2.0])}
        if s == "cent" and rng.random() < .1:
            r["v"] = -r["v"]
    elif k == "space":
        s = rng.choice(SC)
        a, b = sorted(abs(freq(rng, s)) for _ in range(2))
        r = {"op": "space", "s": s, "lo": a, "hi": b, "n": rng.randint(1, 40), "c": rng.randint(0, 1)}
    elif k == "mulaw":
        m = rng.choice([1.0, 2.0, 32768.0, 0.5])
        r = {"op": rng.choice(["mulaw", "mulaw_inverse"]), "x": [m * a for a in [rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1), rng.uniform(-.01, .01)]) for _ in range(rng.randint(1, 20))]],
             "m": m, "mu": rng.choice([1, 15, 100, 255, 255]), "c": rng.randint(0, 1)}
    elif k == "peak":
        r = {"op": rng.choice(["peak2peak", "peak2rms"]), "x": vec(rng), "c": rng.randint(0, 1)}
        if not any(r["x"]):
            r["op"] = "peak2peak"
    else:
        x = vec(rng)
        r = {"op": rng.choice(["real2complex", "real2complex", "complex2real"]), "x": x}
        if r["op"] == "complex2real" or rng.random() < .5:
            r["y"] = vec(rng, n=len(x))
    if rng.random() < .25:
        r["t"] = "f"
        for key in r:
            if isinstance(r[key], float):
                r[key] = f32([r[key]])[0]
            elif isinstance(r[key], list):
                r[key] = f32(r[key])
    return r


def probe(c, name):
    return c.build("conversions.cpp"), "ConversionsTrace"


def check(c):
    q = c.quick
    grid = sorted(set(list(range(0, 60)) + [100, 150, 200, 400, 440, 880, 1000, 2000, 4000, 7000, 8000, 16000, 22050] + ([] if q else list(range(60, 4000, 7)))))
    g = c.gen("ConversionsModel", "CONSTANTS Grid = {%s} Tour = TRUE" % ", ".join(map(str, grid)), spec="", more="INIT Init\nNEXT Next\n",
              invs=["Inverse", "Increasing", "Levels", "References", "Octaves", "Companding", "Emit"], label="inverse pairs and reference points on a grid")
    exe = c.build("conversions.cpp")
    sc = []
    for (v,) in g:
        a = v / 8
        rs = [{"op": "db2mag", "v": a}, {"op": "db2pow", "v": -a}, {"op": "deg2rad", "v": a}, {"op": "rad2deg", "v": -a}]
        if v:
            rs += [{"op": "mag2db", "v": a}, {"op": "pow2db", "v": a}]
        for s in SC:
            if s != "cent" or v >= 17:
                rs.append({"op": "scale", "s": s, "v": float(v)})
        rs += [{"op": "unscale", "s": "mel", "v": a}, {"op": "unscale", "s": "erb", "v": v / 512}, {"op": "unscale", "s": "bark", "v": v / 1000}, {"op": "unscale", "s": "cent", "v": v / 2}]
        sc.append(vk.script(rs))
    sc += [vk.script([one(c.rng) for _ in range(4)]) for _ in range(800 if q else 15000)]
    c.conform(exe, "ConversionsTrace", sc, label="conversions", workers=8)
    c.assumptions = ["positive magnitudes and powers; frequencies of 0..22050 Hz; cents: frequencies of at least 16.5 Hz (below, the cent is negative and its sign denotes negative frequencies)"]
