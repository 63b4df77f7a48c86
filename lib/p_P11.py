"""P11: features of a signal in time."""
import vk
from arrays import vec, typed, f32

OPS = ["energy", "power", "rssq", "rms", "loudness", "leq", "azcr", "duration", "effective", "amdf", "asdf", "snr"]


def ops_for(rng, v, tt=True):
    rs = []
    loud = max(abs(a) for a in v) > 1e-12
    for o in OPS:
        r = {"op": o, "x": v, "c": rng.randint(0, 3)}
        if o == "leq" and not loud or o == "azcr" and len(v) < 2:
            continue
        if o in ("duration", "effective"):
            r["sr"] = float(rng.choice([8000, 44100, 48000, 1, 96]))
        if o == "effective":
            r["thr"] = rng.choice([0.0, 0.25, 0.5, 0.75, 0.125, 0.4, 1.0])
        if o == "snr":
            if len(v) < 2 or max(v) - min(v) < .1 * max(abs(a) for a in v) or not loud:
                continue
            m = max(abs(a) for a in v)
            r["y"] = [a + m * rng.uniform(-.3, .3) for a in v]
            d = [a - b for a, b in zip(v, r["y"])]
            if max(d) - min(d) < .02 * m:
                continue
        rs.append(typed(rng, r, ("x", "y", "thr") if False else ("x", "y")) if tt else r)
        if rs[-1].get("t") == "f" and "thr" in r:
            r["thr"] = f32([r["thr"]])[0]
    return rs


def probe(c, name):
    return c.build("temporal.cpp"), "TemporalTrace"


def check(c):
    q = c.quick
    g = c.gen("TemporalModel", "CONSTANTS MaxN = %d Values = {0, 1, 2, 4, 6} Shift = 3 Tour = TRUE" % (4 if q else 5), spec="", more="INIT Init\nNEXT Next\n",
              invs=["Energies", "Steiner", "Lags", "Disguise", "Rates", "Durations", "Emit"], label="identities on small vectors")
    g += c.gen("TemporalModel", "CONSTANTS MaxN = %d Values = {0, 1, 2} Shift = 1 Tour = TRUE" % (4 if q else 6), spec="", more="INIT Init\nNEXT Next\n",
               invs=["Energies", "Steiner", "Lags", "Disguise", "Rates", "Durations", "Emit"], label="identities on small sign patterns")
    exe = c.build("temporal.cpp")
    sc = [vk.script(ops_for(c.rng, [float(a) for a in v])) for v in g]
    sc += [vk.script(ops_for(c.rng, vec(c.rng, hi=60 if q else 200))) for _ in range(300 if q else 5000)]
    for _ in range(40 if q else 600):          # running level over frames of any length
        t = c.rng.choice(["d", "d", "f"])
        rs = [{"op": "leq_new", "n": c.rng.randint(1, 6), "t": t}]
        for _ in range(c.rng.randint(1, 20)):
            if c.rng.random() < .05:
                rs.append({"op": "leq_new", "n": c.rng.randint(1, 6), "t": t})
            v = vec(c.rng, kind=c.rng.choice(["gauss", "pos", "offset", "neg", "big"]))
            rs.append({"op": "leq_next", "x": f32(v) if t == "f" else v, "c": c.rng.randint(0, 3), "t": t})
        sc.append(vk.script(rs))
    c.conform(exe, "TemporalTrace", sc, label="temporal features", workers=8)
    c.assumptions = ["finite non-empty inputs (two samples for the zero-crossing rate); levels and ratios of signals that are not silent"]
