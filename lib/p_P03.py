"""P03: second-order sections."""
import vk

NAMES = ["a0", "a1", "a2", "b0", "b1", "b2"]


def coef(rng):
    return rng.choice([0.0, 1.0, -1.0, 0.5, -0.25, rng.uniform(-2, 2), rng.uniform(-1, 1)])


def stable_pair(rng):
    import math
    if rng.random() < .6:
        r, w = rng.uniform(0, .98), rng.uniform(0, math.pi)
        return -2 * r * math.cos(w), r * r
    p, q = rng.uniform(-.98, .98), rng.uniform(-.98, .98)
    return -(p + q), p * q


def coefs(rng, any_=False):
    a0 = rng.choice([1.0, 2.0, 0.5, -1.0, rng.uniform(.3, 3)])
    if any_:
        a1, a2 = rng.choice([(2.0, 1.0), (0.0, 1.0), (1.5, .5), (-1.5, .5), (0.0, -1.0), (1.0, 0.0), (-1.0, 0.0), (1.9, .9), (0.5, -.5), (-.5, -.5),
                             (rng.uniform(-2.2, 2.2), rng.uniform(-1.2, 1.2)), (.3, 1.1), (-2.5, 1.2), (0.25, 1.5), (3.0, 1.0), (1.25, .25)])
        a0 = rng.choice([1.0, 2.0, 0.5, -4.0])
    else:
        a1, a2 = stable_pair(rng)
    return dict(a0=a0, a1=a1 * a0, a2=a2 * a0, b0=coef(rng), b1=coef(rng), b2=coef(rng))


def new(rng, s):
    p = rng.random()
    if p < .08:
        return {"op": "new_default", "s": s}
    if p < .55:
        return dict({"op": "new_coefs", "s": s}, **coefs(rng, rng.random() < .35))
    if p < .75:
        return {"op": "new_pz", "s": s, "p": rng.choice([0.0, .5, -.75, rng.uniform(-.95, .95)]), "z": rng.choice([0.0, 1.0, -1.0, .5, 2.0, rng.uniform(-2, 2)])}

    def pair(lim):
        if rng.random() < .6:
            return [rng.uniform(-.7, .7) * lim, rng.uniform(-.7, .7) * lim, 0.0]
        return [rng.uniform(-.95, .95) * lim, 0.0, rng.uniform(-.95, .95) * lim]
    return {"op": "new_pz2", "s": s, "p": pair(1), "z": pair(rng.choice([1, 2]))}


def xs(rng, n):
    k = rng.choice(["imp", "gauss", "int"])
    if k == "imp":
        return [1.0 if i == 0 else 0.0 for i in range(n)]
    return [rng.gauss(0, 1) if k == "gauss" else float(rng.randint(-3, 3)) for _ in range(n)]


def random_script(rng, length):
    out = [new(rng, "a")]
    live = ["a"]
    for _ in range(length):
        s = rng.choice(live)
        p = rng.random()
        if p < .5:
            out.append({"op": "tick", "s": s, "x": xs(rng, 1)[0]})
        elif p < .72:
            out.append({"op": "filter", "s": s, "x": xs(rng, rng.choice([0, 1, 2, 3, 5, 16, 40])), "inplace": rng.randint(0, 1)})
        elif p < .79:
            out.append({"op": "reset", "s": s})
        elif p < .88:
            c = rng.choice(NAMES)
            v = rng.choice([1.0, 2.0, -1.0, .5]) if c == "a0" else rng.choice([rng.uniform(-.45, .45), .5, -.25, 0.0])
            out.append({"op": "set", "s": s, "c": c, "v": v})
        elif p < .94:
            t = "b" if s == "a" else "a"
            if t not in live:
                live.append(t)
            out.append({"op": "copy", "s": t, "assign": rng.randint(0, 1)})
        else:
            out.append(new(rng, s))
    return out


def check(c):
    c.model("BiquadModel", "CONSTANTS MaxLen = %d Inputs = {0, 2, 4} CoefVals = {0, 1, 3} Grid = 1 Tour = FALSE" % (5 if c.quick else 6),
            ["DirectForm"], spec="", more="INIT FormsInit\nNEXT FormsNext\n", label="transposed form against difference equation")
    c.model("BiquadModel", "CONSTANTS MaxLen = 1 Inputs = {0} CoefVals = {0} Grid = %d Tour = FALSE" % (32 if c.quick else 128),
            ["TriangleIsPolesInside"], spec="", more="INIT PolesInit\nNEXT PolesNext\n", label="stability triangle against poles")
    g = c.gen("BiquadModel", "CONSTANTS MaxLen = 4 Inputs = {0, 3} CoefVals = {0, 3} Grid = 1 Tour = TRUE", spec="",
              more="INIT FormsInit\nNEXT FormsNext\n", invs=["DirectForm"], label="all short behaviours")
    base = c.build("biquad.cpp", std="c++17")
    exe = vk.Exe(base.argv + ["section"], base.env, "biquad-section")
    sc = [vk.script(b) for b in g]
    n, length = (250, 60) if c.quick else (3000, 120)
    sc += [vk.script(random_script(c.rng, length)) for _ in range(n)]
    c.conform(exe, "BiquadTrace", sc, label="section")
    c.assumptions = ["finite coefficients and samples; outputs compared within 1e-8 of the largest magnitude met since the section was last at rest"]


def probe(c, name):
    base = c.build("biquad.cpp", std="c++17")
    return vk.Exe(base.argv + [name.split("-")[1]], base.env, name), "BiquadTrace" if name.endswith("section") else "CascadeTrace"
