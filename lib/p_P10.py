"""P10: descriptive statistics."""
import vk
from arrays import vec, typed

PLAIN = ["mean", "max", "min", "maxabs", "minabs", "peak", "peakabs", "median", "variance", "deviation", "moment", "norm"]
SHAPE = ["skewness", "kurtosis"]
POS = ["power_mean", "harmonic", "geometric"]


def spread(v, limit=1e-4):
    m = sum(v) / len(v)
    return (sum((a - m) ** 2 for a in v) / len(v)) ** .5 > limit * max(abs(a) for a in v)


def ops_for(rng, v):
    out = [{"op": o} for o in PLAIN]
    if any(v) and spread(v):
        out += [{"op": o} for o in SHAPE]
    if min(v) > 0:
        out += [{"op": o} for o in POS]
    rs = []
    for r in out:
        if r["op"] == "power_mean":
            r["b"] = rng.choice([-3, -2, -1, 1, 2, 3, 4])
        if r["op"] == "moment":
            r["n"] = rng.randint(0, 5)
            if rng.random() < .5:
                r["m"] = rng.choice([0.0, 1.0, v[0], -0.5])
        r["x"] = v
        r["c"] = rng.randint(0, 3)
        rs.append(r)
    return rs


def probe(c, name):
    return c.build("statistics.cpp"), "StatisticsTrace"


def check(c):
    q = c.quick
    inv = ["Between", "Koenig", "Symmetric", "Centred", "Least", "Hotelling", "Pearson", "Norms", "Means", "Emit"]
    g = c.gen("StatisticsModel", "CONSTANTS MaxN = %d Values = {0, 1, 2, 4, 6} Shift = 3 Tour = TRUE" % (4 if q else 5), spec="", more="INIT Init\nNEXT Next\n", invs=inv,
              label="identities and inequalities on small vectors")
    g += c.gen("StatisticsModel", "CONSTANTS MaxN = %d Values = {1, 2, 3, 7} Shift = 0 Tour = TRUE" % (4 if q else 6), spec="", more="INIT Init\nNEXT Next\n", invs=inv,
               label="identities and inequalities on small positive vectors")
    exe = c.build("statistics.cpp")
    sc = []
    for v in g:
        v = [float(a) for a in v]
        sc.append(vk.script(ops_for(c.rng, v)))
    for _ in range(400 if q else 6000):
        v = vec(c.rng, hi=60 if q else 200)
        if c.rng.random() < .3:      # a mean far from zero
            m = c.rng.choice([-1, 1]) * 10 ** c.rng.uniform(1, 8)
            v = [m + a for a in v]
        rs = []
        for r in ops_for(c.rng, v):
            r = dict(r)
            if "m" not in r:
                typed(c.rng, r, p=0 if r["op"] in SHAPE and not spread(v, .05) else .25)
            rs.append(r)
        sc.append(vk.script(rs))
    c.conform(exe, "StatisticsTrace", sc, label="statistics", workers=8)
    c.assumptions = ["finite non-empty inputs; skewness and kurtosis of data whose deviation is at least 1e-4 of its magnitude (float: 5%); power, harmonic and geometric means of positive data",
                     "double within 1e-14 and float within 2e-6, per term, of the scale of the deviations and of the rounding of the mean; order statistics exact"]
