"""P22: the C library."""
import os
import vk, spectral, p_P10, p_P13, p_P14, p_P15
from arrays import vec, f32

LIBS = ["-lfftw3", "-lfftw3f", "-lpthread"]
SRC = vk.REPO + "/bindings/c/src/"
FILES = ["algorithm.c", "statistics.c", "spectral.c", "windowing.c", "core.c", "converter.cpp"]
WIN = ["hamming", "hanning", "blackman", "blackman_harris", "blackman_nuttall", "flattop", "boxcar", "rectangular", "bartlett", "triangular", "welch"]
SP = ["dft", "idft", "cdft", "cidft", "dct", "idct", "hartley", "hilbert", "spectrum", "cepstrum", "conv", "xcorr"]


def library(c, single=False):
    inc = ["-I" + vk.REPO + "/bindings/c/include"] + (["-DENABLE_SINGLE"] if single else [])
    return c.build("capi.cpp", libs=LIBS, extra=inc + ["-x", "c++"] + [SRC + f for f in FILES] + ["-x", "none"], name="capi_f" if single else "capi")


def probe(c, name):
    return library(c, name == "capi_f"), "BindingsTrace"


def fam(name, r):
    r = dict(r)
    r["fam"] = name
    return r


def calls(rng, big=True):
    """Some calls of every family."""
    v = vec(rng, hi=40)
    out = []
    out += [fam("arrays", r) for r in p_P13.ops_for(rng, v, False) if r["op"] not in ("normalize_rms", "derivative", "silence")]
    out += [fam("arrays", r) for r in p_P14.ops_for(rng, [float(round(a)) for a in v]) if r["op"] not in ("alike", "equal")]
    w = v[:]
    if rng.random() < .5:
        w[rng.randrange(len(w))] += .25
    out.append(fam("arrays", {"op": "equal", "x": v, "y": w}))
    out.append(fam("arrays", {"op": "contains", "x": rng.choice([v, v, []]), "v": rng.choice([v[-1], v[0], max(v) + 1])}))
    a, b = rng.choice([(0.0, 1.0), (rng.uniform(-5, 5), rng.uniform(-5, 5)), (1.0, 0.0)])
    out.append(fam("arrays", {"op": rng.choice(["linspace", "logspace"]), "a": a, "b": b, "n": rng.randint(1, 40)}))
    for r in p_P10.ops_for(rng, v):
        if r["op"] == "moment":
            r.pop("m", None)
            r["n"] = rng.randint(1, 5)
        out.append(fam("statistics", r))
    out.append(fam("statistics", {"op": "moment", "x": [rng.uniform(-1.5, 1.5) for _ in range(rng.randint(1, 12))], "n": rng.randint(5, 8)}))
    for _ in range(3):
        out.append(fam("spectral", spectral.rnd(rng, SP, big)))
    out.append(fam("spectral", {"op": "sizes", "n": rng.randint(1, 5000)}))
    out.append(fam("windows", {"op": "window", "w": rng.choice(WIN), "n": rng.randint(1, 200)}))
    for _ in range(3):
        r = p_P15.one(rng)
        if r["op"] in ("mag2db", "pow2db", "db2mag", "db2pow", "deg2rad", "rad2deg", "peak2peak", "peak2rms", "real2complex", "complex2real"):
            out.append(fam("conversions", r))
    rng.shuffle(out)
    for r in out:
        r.pop("t", None)
        if r["op"] == "xcorr":
            r["scale"] = "none"
        r.setdefault("c", rng.randint(0, 3))
    return out


def to_float(r):
    r = dict(r)
    r["t"] = "f"
    if r["op"] in ("db2mag", "db2pow"):
        r["v"] = max(-300.0, min(300.0, r["v"]))                  # within the range of single precision
    elif r["op"] in ("mag2db", "pow2db", "deg2rad", "rad2deg") and r["v"]:
        r["v"] = (1 if r["v"] > 0 else -1) * max(1e-30, min(1e30, abs(r["v"])))
    for k in r:
        if isinstance(r[k], float):
            r[k] = f32([r[k]])[0]
        elif isinstance(r[k], list) and r[k] and isinstance(r[k][0], float):
            r[k] = f32(r[k])
    return r


def single_ok(r):
    """What single precision can be asked for."""
    if r["op"] in ("skewness", "kurtosis"):
        return p_P10.spread(r["x"], .05)
    x = [abs(a) for k in ("x", "y", "g") for a in (r.get(k, []) if isinstance(r.get(k, []), list) else [r[k]]) if a]
    return r["fam"] in ("system",) or not x or (max(x) < 1e9 and min(x) > 1e-9)


def environment(rng, n):
    names = [[65], [66, 95], [200, 65], [], [65, 61]]
    out = []
    for _ in range(n):
        o = rng.choice(["set", "set", "get", "get", "exist"])
        e = {"fam": "system", "op": o, "name": rng.choice(names), "c": rng.randint(0, 1)}
        if o == "set":
            e.update(value=[rng.randint(1, 255) for _ in range(rng.randint(0, 12))], over=1)
        out.append(e)
    return out


def check(c):
    q = c.quick
    g = c.gen("BindingsModel", "CONSTANTS MaxLen = 2 Tour = TRUE", invs=["Accepts", "Rejects"] if not q else [], label="sessions of two calls")
    c.model("BindingsModel", "CONSTANTS MaxLen = 1 Tour = FALSE", ["Accepts", "Rejects"], ["Memory"], label="the definitions accept their own answers and no others")
    c.rng.shuffle(g)
    d, f = library(c), library(c, True)
    real = lambda r: {k: ([float(a) for a in v] if k in ("x", "g") else float(v) if k == "v" else v) for k, v in r.items()}
    small = [vk.script([{"fam": "system", "op": "clear"}] + [real(r) for r in b]) for b in (g[:1500] if q else g)]
    sc = small + [vk.script([{"fam": "system", "op": "clear"}] + calls(c.rng)) for _ in range(60 if q else 1500)]
    sc += [vk.script([{"fam": "system", "op": "clear"}] + environment(c.rng, 30)) for _ in range(40 if q else 400)]
    sc.append(vk.script([{"fam": "system", "op": "version", "d": [0], "t": [0]}, {"fam": "system", "op": "libraries"}]))
    sc += [vk.script([fam("windows", {"op": "window", "w": w, "n": n})]) for w in WIN for n in range(1, 12)]
    c.conform(d, "BindingsTrace", sc, label="C library, double precision", workers=8)
    sf = []
    for _ in range(50 if q else 1200):
        rs = [to_float(r) for r in calls(c.rng) if single_ok(r)]
        sf.append(vk.script(rs))
    sf += [vk.script([fam("windows", {"op": "window", "w": w, "n": n, "t": "f"})]) for w in WIN for n in range(1, 8)]
    c.conform(f, "BindingsTrace", sf, label="C library, single precision", workers=8)
    # the headers are C
    p = os.path.join(c.work, "headers.c")
    with open(p, "w") as o:
        o.write("".join('#include "cedsp/%s.h"\n' % h for h in ("algorithm", "converter", "core", "spectral", "statistics", "types", "windowing")) + "int main(void){struct Peak p = {0, 0}; return p.index;}\n")
    for dbl in ([], ["-DENABLE_SINGLE"]):
        r = vk.sh(["gcc", "-std=c99", "-fsyntax-only", "-I" + vk.REPO + "/bindings/c/include"] + dbl + [p])
        if r.returncode:
            raise vk.MachineryError("the C headers are not C:\n" + r.stderr.decode())
    c.assumptions = ["finite inputs of the sizes the header asks for; outputs apart from their inputs or equal to them where the types agree"]
