"""P26: random numbers and noise."""
import math
import sys
import vk
from arrays import f32

REAL = ["uniform", "bernoulli", "exponential", "gamma", "weibull", "extreme", "normal", "lognormal", "chi_squared", "cauchy", "fisher", "student", "steps", "lines", "constant"]
INT = ["binomial", "geometric", "poisson", "discrete", "whole", "constant"]


def probe(c, name):
    return c.build("random.cpp"), "RandomTrace"


def params(rng, d):
    u = rng.uniform
    x = []
    if d == "uniform":
        a = u(-100, 100) if rng.random() < .7 else 0.0
        p, q = [a, a + rng.choice([1.0, u(.1, 50)])], None
        w = p[1] - p[0]
        q = [p[0] - .01 * w, p[0] + .01 * w, p[0] + .25 * w, p[0] + .5 * w, p[0] + u(.05, .95) * w, p[0] + .99 * w, p[1] + .01 * w]
    elif d == "whole":
        a = float(rng.randint(-50, 50))
        p = [a, a + rng.choice([0, 1, 2, 3, rng.randint(0, 20)])]
        q = [a - 1, a, a + 1, p[1] - 1, p[1], math.floor((p[0] + p[1]) / 2) + .5]
    elif d == "constant":
        p = [float(rng.randint(-50, 50))]
        q = [p[0] - 1, p[0], p[0] + 1]
    elif d == "bernoulli":
        p = [rng.choice([0.0, 1.0, .5, .25, u(0, 1), .01, .99])]
        q = [-.5, 0.0, .5, 1.0]
    elif d == "binomial":
        p = [float(rng.randint(1, 20)), rng.choice([0.0, 1.0, .5, u(.05, .95)])]
        q = [-1.0] + [float(rng.randint(0, int(p[0]))) for _ in "abc"] + [p[0]]
    elif d == "geometric":
        p = [rng.choice([.5, .25, u(.1, .9)])]
        q = [-1.0, 0.0, 1.0, 3.0, 6.0]
    elif d == "poisson":
        p = [rng.choice([1.0, u(.1, 6), u(5, 30)])]
        m = math.floor(p[0])
        q = [-1.0, 0.0, float(m), float(m + 2), float(2 * m)]
    elif d == "exponential":
        p = [u(.1, 10)]
        q = [-.1] + [z / p[0] for z in (.1, .5, 1, 2, 3)]
    elif d == "gamma":
        p = [float(rng.randint(1, 6)), u(.2, 5)]
        q = [-.1] + [p[0] * p[1] * z for z in (.3, .7, 1, 1.5)]
    elif d == "weibull":
        p = [u(.5, 4), u(.2, 5)]
        q = [-.1] + [p[1] * z for z in (.2, .6, 1, 1.4)]
    elif d in ("extreme", "normal", "cauchy"):
        p = [u(-10, 10), u(.2, 5)]
        q = [p[0] + p[1] * z for z in (-2.5, -1, 0, 1, 2.5)]
    elif d == "lognormal":
        p = [u(-1, 1), u(.2, 2)]
        q = [-.1] + [math.exp(p[0] + p[1] * z) for z in (-2, -1, 0, 1, 2)]
    elif d == "chi_squared":
        p = [float(rng.choice([1, 2, 4, 6, 10]))]
        q = [-.1] + [p[0] * z for z in (.2, .7, 1, 1.6)]
    elif d == "fisher":
        p = [2.0, float(rng.randint(1, 9))]
        if rng.random() < .5:
            p.reverse()
        q = [-.1, .2, .7, 1.0, 2.0, 5.0]
    elif d == "student":
        p = [float(rng.randint(1, 3))]
        q = [-3.0, -1.0, 0.0, .5, 2.0]
    elif d == "discrete":
        p = [float(rng.randint(0, 9)) for _ in range(rng.randint(2, 7))]
        p[rng.randrange(len(p))] = 5.0
        q = [-1.0] + [float(k) for k in range(len(p))]
    else:
        x = [u(-5, 5)]
        for _ in range(rng.randint(2, 5)):
            x.append(x[-1] + u(.2, 3))
        p = [u(.1, 5) for _ in range(len(x) - (d == "steps"))]
        q = [x[0] - .01, x[-1] + .01] + [u(x[0], x[-1]) for _ in "abcd"]
    return p, x, q


def draws(rng, d=None, src=None):
    d = d or rng.choice(REAL + INT)
    p, x, q = params(rng, d)
    ints = d in INT and (d != "constant" or rng.random() < .5)
    t = rng.choice("ils") if ints else rng.choice("fd")
    if d in ("binomial", "geometric", "poisson", "discrete"):
        t = rng.choice("ils")
    if d == "bernoulli" and rng.random() < .3:
        t = "b"
    if t == "f":
        p, x, q = f32(p), f32(x), f32(q)
    r = {"op": "draws", "d": d, "t": t, "p": p, "x": x, "q": q, "n": rng.choice([3000, 20000, 100000]), "int": int(ints or d == "bernoulli"), "copy": rng.randint(0, 1),
         "seed": rng.randint(1, 10 ** 9)}
    if src == "any":
        # rand() without limits: any value of an integral type, any positive one of a real type
        lo, hi = {"f": (0.0, 2.0 ** 128 - 2.0 ** 104), "d": (0.0, sys.float_info.max), "i": (-2.0 ** 31, 2.0 ** 31 - 1), "l": (-2.0 ** 63, 2.0 ** 63 - 1024), "s": (-32768.0, 32767.0)}[t]
        f = lambda z: lo * (1 - z) + hi * z
        q = [f(z) for z in (.01, .25, .5, rng.uniform(.05, .95), .99)]
        r.update(p=[lo, hi], q=f32(q) if t == "f" else q, src=src)
    elif d == "whole":
        r["src"] = src or rng.choice(["white", "white_clock", "rand"])
    elif d == "uniform":
        r["src"] = src or rng.choice(["white", "white_clock", "rand", "generator"])
    elif d == "bernoulli" and t != "b":
        r["src"] = src or rng.choice(["binary", "generator"])
    if r.get("src") in ("rand", "any"):
        r["n"] = 500
    return r


def noise(rng, length):
    out, made, kind = [], {}, {}
    while len(out) < length:
        s = rng.choice("ab")
        k = rng.choice(["noise", "run", "run", "run", "copy"])
        o = "b" if s == "a" else "a"
        if k == "noise" or s not in made and (k == "run" or o not in made):
            a = rng.choice([-1.0, 0.0, rng.uniform(-5, 5)])
            made[s] = rng.choice("fd")
            b = a + rng.choice([1.0, 2.0, rng.uniform(.1, 10)])
            if made[s] == "f":
                a, b = f32([a, b])
            out.append({"op": "noise", "s": s, "kind": rng.choice(["brown", "pink", "perlin"]), "t": made[s], "a": a, "b": b, "seed": rng.randint(1, 10 ** 9)})
        elif k == "copy":
            if o in made:
                out.append({"op": "copy", "s": s})
                made[s] = made[o]
        elif s in made:
            out.append({"op": "run", "s": s, "t": made[s], "n": rng.choice([1, 2, 5, 30, 100])})
    return out


def check(c):
    q = c.quick
    c.model("RandomModel", "CONSTANTS MaxLen = %d Tour = FALSE" % (5 if q else 7), ["Monotone", "Ends", "NormalLaw", "Same", "Biting", "Whole", "Linear", "Bounded", "PerlinLaws"],
            label="distribution functions, noise filters")
    exe = c.build("random.cpp")
    sc = []
    for d in REAL + INT:
        for _ in range(4 if q else 40):
            sc.append(vk.script([draws(c.rng, d) for _ in range(3)]))
    for d, srcs in (("uniform", ["white", "white_clock", "rand", "any", "generator"]), ("whole", ["white", "white_clock", "rand", "any"]), ("bernoulli", ["binary", "generator"])):
        for s in srcs:
            sc.append(vk.script([draws(c.rng, d, s) for _ in range(4 if q else 40)]))
    sc += [vk.script(noise(c.rng, 25)) for _ in range(60 if q else 1000)]
    c.conform(exe, "RandomTrace", sc, label="random")
    c.assumptions = ["a correct generator never strays eight standard deviations from its distribution", "two generators are not made with the same seed"]
