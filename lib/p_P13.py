"""P13: element-wise and reshaping operations."""
import vk
from arrays import vec, typed, f32

EL = ["floor", "ceil", "round", "fix", "rectify", "clip", "amplify", "amplify_clip", "normalize", "normalize_rms", "derivative"]


def edgy(rng, n):
    return [rng.choice([0.5, -0.5, 1.5, -1.5, 2.5, 0.49999999999999994, -0.49999999999999994, 0.0, -0.0, 1.0, -1.0, 1e300, -1e300, 4503599627370495.5, 1e-310, 3.0000000001, rng.uniform(-9, 9)])
            for _ in range(n)]


def ops_for(rng, v, tt=True):
    rs = []
    zero = not any(v)
    for o in EL:
        r = {"op": o, "x": v, "c": rng.randint(0, 3)}
        if o in ("normalize", "normalize_rms") and (zero or max(map(abs, v)) > 1e100 or max(map(abs, v)) < 1e-100):
            continue
        if o in ("clip", "amplify_clip"):
            lo, hi = sorted([rng.choice([-2.0, -1.0, 0.0, v[0], -0.25]), rng.choice([1.0, 2.0, v[-1], 0.25, 0.0])])
            r["lo"], r["hi"] = lo, hi
        if o.startswith("amplify"):
            r["g"] = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 0.3, -3.7])
        rs.append(typed(rng, r, ("x",)) if tt and max(map(abs, v)) < 1e30 and min([abs(a) for a in v if a] or [1]) > 1e-30 else r)
        if rs[-1].get("t") == "f":
            for k in ("lo", "hi", "g"):
                if k in r:
                    r[k] = f32([r[k]])[0]
    y = vec(rng, kind="int")
    rs.append(typed(rng, {"op": "concatenate", "x": rng.choice([v, v, []]), "y": rng.choice([y, y, []])}))
    if rs[-1].get("t") == "f":
        rs[-1]["x"] = f32(rs[-1]["x"]) if max(map(abs, v)) < 1e30 else []
    if max(map(abs, v)) < 1e30:
        rs.append({"op": "pad", "x": v, "n": len(v) + rng.choice([0, 1, 2, rng.randint(0, 30)])})
        e = sum(a * a for a in v) / len(v)
        rs.append({"op": "silence", "x": v, "thr": rng.choice([e * 2 + 1e-9, e / 2 if e > 1e-200 else 0.0, 0.0, 1e9])})
    return rs


def probe(c, name):
    return c.build("arrays.cpp"), "ArraysTrace"


def model(c, names):
    return c.gen("ArraysModel", "CONSTANTS MaxN = %d Values = {0, 2, 3, 6, 7, 9, 12} Shift = 6 Tour = TRUE" % (3 if c.quick else 5), spec="", more="INIT Init\nNEXT Next\n",
                 invs=names + ["Emit"], label="laws on small vectors of quarters")


def check(c):
    q = c.quick
    g = model(c, ["Roundings", "Primitive"])
    exe = c.build("arrays.cpp")
    sc = [vk.script(ops_for(c.rng, [a / 4 for a in v])) for v in g]
    for _ in range(400 if q else 6000):
        v = vec(c.rng, hi=60) if c.rng.random() < .7 else edgy(c.rng, c.rng.randint(1, 12))
        sc.append(vk.script(ops_for(c.rng, v)))
    c.conform(exe, "ArraysTrace", sc, label="element-wise operations", workers=8)
    c.assumptions = ["finite inputs; normalisation of signals that are not silent; output ranges of the right size"]
