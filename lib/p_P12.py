"""P12: descriptors of spectra."""
import vk
from arrays import f32

ONE = ["centroid", "spread", "crest", "s_crest", "decrease", "s_decrease", "s_entropy", "flatness", "s_flatness", "rolloff", "s_rolloff", "irregularity", "entropy"]
WITH_F = ["weighted_centroid", "s_centroid", "weighted_spread", "s_spread", "slope", "s_slope"]
WITH_Y = ["flux", "s_flux", "variation", "s_variation"]
SHAPE = ["s_skewness", "s_kurtosis"]


def spectrum(rng, n):
    k = rng.choice(["pos", "int", "peak", "sparse", "down", "up", "flat"])
    if k == "pos":
        return [rng.uniform(0.01, 4) for _ in range(n)]
    if k == "int":
        return [float(rng.randint(1, 9)) for _ in range(n)]
    if k == "peak":
        p = rng.randrange(n)
        return [1 / (1 + (i - p) ** 2) for i in range(n)]
    if k == "sparse":
        v = [float(rng.choice([0, 0, 1, 2])) for _ in range(n)]
        v[rng.randrange(n)] = 3.0
        return v
    if k == "flat":
        return [0.5] * n
    s = sorted(rng.uniform(0.1, 3) for _ in range(n))
    return s if k == "up" else s[::-1]


def ops_for(rng, v):
    n = len(v)
    m = sum(v) / n
    rs = []
    for o in ONE + WITH_F + WITH_Y + SHAPE:
        r = {"op": o, "x": v, "c": rng.randint(0, 3)}
        if o in ("decrease", "s_decrease") and sum(v[1:]) < .05 * sum(v) or o == "irregularity" and sum(v[:-1]) < .05 * sum(v):
            continue
        if o in SHAPE and (sum((a - m) ** 2 for a in v) / n) ** .5 < .05 * max(v):
            continue
        if o == "entropy":
            s = sum(v)
            r["x"] = [a / s for a in v]
        if o in WITH_F:
            w = rng.choice([10.0, 100.0, 44100.0 / (2 * n)])
            r["f"] = [w * (i + rng.choice([0, 1]) * .5) for i in range(n)] if "slope" not in o else [w * (i + .5) for i in range(n)]
        if o in WITH_Y:
            r["y"] = rng.choice([v, v[::-1], spectrum(rng, n)])
            r["m"] = rng.choice(["manhattan", "euclidean", "logarithmic"] if min(v) > 0 and min(r["y"]) > 0 else ["manhattan", "euclidean"])
        if "rolloff" in o:
            r["p"] = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0])
            if all(a == int(a) for a in v):
                r["exact"] = 1
            else:
                r["p"] = rng.choice([r["p"], rng.random()])
        if rng.random() < .25 and all(k not in r for k in ("exact", "p")):
            r["t"] = "f"
            for k in ("x", "y", "f"):
                if k in r:
                    r[k] = f32(r[k])
        rs.append(r)
    return rs


def probe(c, name):
    return c.build("features.cpp"), "FeaturesTrace"


def check(c):
    q = c.quick
    g = c.gen("FeaturesModel", "CONSTANTS MaxN = %d Values = {0, 1, 2, 5} Tour = TRUE" % (4 if q else 6), spec="", more="INIT Init\nNEXT Next\n",
              invs=["Ranges", "Scaleless", "Mirror", "Line", "Rolls", "Emit"], label="ranges and invariances on small spectra")
    exe = c.build("features.cpp")
    sc = [vk.script(ops_for(c.rng, [float(a) for a in v])) for v in g]
    for _ in range(300 if q else 5000):
        n = c.rng.choice([2, 3, 4, 5, c.rng.randint(2, 60)] + ([] if q else [c.rng.randint(60, 300)]))
        sc.append(vk.script(ops_for(c.rng, spectrum(c.rng, n))))
    for _ in range(40 if q else 400):       # signs: only the plain centroid and the crest are meant for them
        v = [c.rng.uniform(-1, 1) for _ in range(c.rng.randint(2, 30))]
        sc.append(vk.script([{"op": "crest", "x": v, "c": c.rng.randint(0, 3)}] + ([{"op": "centroid", "x": v}] if abs(sum(v)) > .05 * sum(map(abs, v)) else [])))
    c.conform(exe, "FeaturesTrace", sc, label="descriptors", workers=8)
    c.assumptions = ["spectra of at least two non-negative values that are not all zero (positive ones for the logarithmic flux)"]
