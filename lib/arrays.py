"""Random sequences for the functions of an array."""
import math


def vec(rng, n=None, kind=None, lo=1, hi=40):
    n = n or rng.choice([lo, lo + 1, lo + 2, lo + 3, lo + 4, rng.randint(lo, hi)])
    k = kind or rng.choice(["gauss", "int", "ties", "big", "small", "offset", "pos", "neg", "sine", "up", "down"])
    if k == "gauss":
        return [rng.gauss(0, 1) for _ in range(n)]
    if k == "int":
        return [float(rng.randint(-9, 9)) for _ in range(n)]
    if k == "ties":
        return [float(rng.choice([-1, 0, 1, 2])) for _ in range(n)]
    if k == "big":
        return [rng.uniform(-1, 1) * 1e6 for _ in range(n)]
    if k == "small":
        return [rng.uniform(-1, 1) * 1e-6 for _ in range(n)]
    if k == "offset":
        return [5 + rng.uniform(-1, 1) for _ in range(n)]
    if k == "pos":
        return [rng.uniform(0.01, 4) for _ in range(n)]
    if k == "neg":
        return [-rng.uniform(0.01, 4) for _ in range(n)]
    if k == "sine":
        return [math.sin(0.3 * i + 0.1) for i in range(n)]
    s = sorted(rng.uniform(-3, 3) for _ in range(n))
    return s if k == "up" else s[::-1]


def f32(v):
    """Exactly representable in single precision, so that the code and the specification start from the same numbers."""
    import struct
    return [struct.unpack("f", struct.pack("f", a))[0] for a in v]


def typed(rng, r, keys=("x",), p=.25):
    if rng.random() < p:
        r["t"] = "f"
        for k in keys:
            if k in r:
                r[k] = f32(r[k])
    return r
