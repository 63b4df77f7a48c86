"""P02: moving-window filters."""
import vk

KINDS = ["average", "rms", "median"]


def sample(rng, style):
    if style == "int":
        return float(rng.randint(-5, 5))
    if style == "tiny":
        return rng.choice([0.0, rng.uniform(-1, 1), rng.uniform(-1e-6, 1e-6)])
    if style == "burst":                       # loud passages followed by silence: what is left must be silence
        return rng.choice([0.0, 0.0, 0.0, 0.1, 0.7, rng.uniform(-1, 1), rng.gauss(0, 1000)])
    if style == "ramp":
        return rng.random() * 10 + 5
    return rng.gauss(0, 10)


def random_script(rng, kind, length):
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33])
    style = rng.choice(["int", "tiny", "burst", "ramp", "gauss"])
    out = [{"op": "new", "s": "a", "kind": kind, "n": n}]
    live = {"a"}
    for _ in range(length):
        s = rng.choice(sorted(live))
        p = rng.random()
        if p < .62:
            out.append({"op": "tick", "s": s, "x": sample(rng, style)})
        elif p < .87:
            k = rng.choice([0, 1, 2, 3, n - 1, n, n + 1, 2 * n])
            out.append({"op": "filter", "s": s, "x": [sample(rng, style) for _ in range(k)], "inplace": rng.randint(0, 1)})
        elif p < .92:
            out.append({"op": "reset", "s": s})
        elif p < .96:
            out.append({"op": "resize", "s": s, "n": rng.choice([1, 2, 3, 4, 5, 9, 16])})
        else:
            t = "b" if s == "a" else "a"
            live.add(t)
            out.append({"op": "copy", "s": t})
    return out


def check(c):
    invs = ["WindowIsLastSamples", "AccumulatorIsSum"]
    c.model("MovingWindowImpl", 'CONSTANTS MaxN = 3 MaxLen = %d Values = {0, 2, 5} Kinds = {"average"} Tour = FALSE' % (6 if c.quick else 8),
            invs, label="incremental mean")
    g = c.gen("MovingWindowImpl", 'CONSTANTS MaxN = 3 MaxLen = %d Values = {0, 5} Kinds = {"average", "rms", "median"} Tour = TRUE' % (5 if c.quick else 7),
              invs=invs, label="all short behaviours")
    exe = c.build("moving.cpp", std="c++14")
    c.conform(exe, "MovingWindowTrace", [vk.script(b) for b in g], label="all short behaviours")
    n, length = (60, 60) if c.quick else (600, 200)
    c.conform(exe, "MovingWindowTrace", [vk.script(random_script(c.rng, k, length)) for k in KINDS for _ in range(n)], label="random behaviours")
    c.assumptions = ["window length at least 1, finite samples",
                     "rounding: an output may differ from the exact value by 1e-9 of the largest magnitude fed since the last reset (energy for the rms)"]


def probe(c, name):
    return c.build("moving.cpp", std="c++14"), "MovingWindowTrace"
