"""P14: searches, comparisons, rows of points."""
import vk
from arrays import vec, typed, f32
from p_P13 import probe, model


def ops_for(rng, v):
    rs = []
    for o in ["linear_search", "index_of", "binary_search", "binary_search"]:
        x = sorted(v) if o == "binary_search" else v
        if rng.random() < .1:
            x = []
        r = {"op": o, "x": x, "v": rng.choice(v + [v[0] + .125, max(v) + 1, min(v) - 1, v[-1], 0.0]), "c": rng.randint(0, 3)}
        if rng.random() < .2:
            r.update(t="f", x=f32(x), v=f32([r["v"]])[0])
        rs.append(r)
    w = v[:]
    k = rng.random()
    if k < .3:
        w[rng.randrange(len(w))] += .25
    elif k < .4:
        w = w[:-1]
    elif k < .5:
        w = w + [0.0]
    elif k < .55:
        w = w[::-1]
    rs.append({"op": "equal", "x": v, "y": w, "c": rng.randint(0, 1)})
    rs.append({"op": "alike", "x": v, "y": [a + rng.choice([0, .25, -.25]) for a in w], "tol": rng.choice([0.3, 0.0, 0.6]), "c": rng.randint(0, 1)})
    return rs


def check(c):
    q = c.quick
    g = model(c, ["Finds", "Rows"])
    exe = c.build("arrays.cpp")
    sc = [vk.script(ops_for(c.rng, [a / 4 for a in v])) for v in g]
    sc += [vk.script(ops_for(c.rng, [float(round(4 * a)) / 4 for a in vec(c.rng, kind=c.rng.choice(["int", "ties", "gauss", "offset", "up", "down"]), hi=40)])) for _ in range(300 if q else 4000)]
    for _ in range(300 if q else 4000):
        a, b = c.rng.choice([(0.0, 1.0), (c.rng.uniform(-5, 5), c.rng.uniform(-5, 5)), (1.0, 0.0), (2.0, 2.0), (-3.0, 3.0), (20.0, 20000.0)])
        o = c.rng.choice(["linspace", "logspace"])
        if o == "logspace" and b > 100:
            a, b = 1.0, 4.0
        r = {"op": o, "a": a, "b": b, "n": c.rng.choice([1, 2, 3, 4, 5, 10, c.rng.randint(1, 100 if q else 1000)])}
        if c.rng.random() < .25:
            r.update(t="f", a=f32([a])[0], b=f32([b])[0])
        sc.append(vk.script([r]))
    c.conform(exe, "ArraysTrace", sc, label="searches and rows of points", workers=8)
    c.assumptions = ["finite inputs; binary search on ascending ranges; at least one point in a row"]
