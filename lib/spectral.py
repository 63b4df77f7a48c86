"""Inputs for the transforms."""
import vk

REAL = ["dft", "dct", "idct", "hartley", "hilbert", "spectrum", "cepstrum", "conv", "autocorr", "xcorr"]


def vec(rng, n):
    k = rng.choice(["gauss", "gauss", "int", "impulse", "dc", "sine", "alt"])
    if k == "impulse":
        p = rng.randrange(n)
        return [1.0 if i == p else 0.0 for i in range(n)]
    if k == "dc":
        return [2.0] * n
    if k == "alt":
        return [float((-1) ** i) for i in range(n)]
    if k == "sine":
        import math
        f = rng.randint(0, max(1, n // 2))
        return [math.cos(2 * math.pi * f * i / n + .3) for i in range(n)]
    return [rng.gauss(0, 1) if k == "gauss" else float(rng.randint(-4, 4)) for _ in range(n)]


def size(rng, big=False):
    return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, rng.randint(1, 48)] + ([64, 100, 127, 128, 255, 256] if big else []))


def rnd(rng, ops, big=False):
    op = rng.choice(ops)
    n = size(rng, big)
    r = {"op": op, "x": vec(rng, n), "so": rng.randint(0, 2), "do": rng.randint(0, 2), "inplace": rng.randint(0, 1)}
    if op in ("cdft", "cidft", "idft"):
        if op == "idft":
            n = max(n, 2)
            r["x"] = vec(rng, n)
        r["y"] = vec(rng, n)
    if op == "idft":      # half spectrum of a real signal
        r["y"][0] = r["y"][-1] = 0.0
    if op in ("conv", "xcorr"):
        r["g"] = vec(rng, n)
    if op in ("xcorr", "autocorr"):
        r["scale"] = rng.choice(["none", "biased", "unbiased"])
    if op == "cepstrum":      # no zero in the spectrum
        r["x"] = [3.0 + n] + [rng.uniform(-1, 1) for _ in range(n - 1)]
    if rng.random() < .25:
        r["t"] = "f"
    return r


def engine_op(rng, n, k, inplace, off, o=0, t="d"):
    if k == "e_idft":
        m = n // 2 + 1
        x, y = vec(rng, m), vec(rng, m)
        y[0] = 0.0
        if n % 2 == 0:
            y[-1] = 0.0
        r = {"op": k, "x": x, "y": y, "scale": rng.randint(0, 1)}
    elif k in ("e_cdft", "e_cidft"):
        r = {"op": k, "x": vec(rng, n), "y": vec(rng, n)}
        if k == "e_cidft":
            r["scale"] = rng.randint(0, 1)
    else:
        r = {"op": k, "x": vec(rng, n)}
        if k == "e_idct":
            r["scale"] = rng.randint(0, 1)
    r.update(so=off, do=rng.choice([0, off, 1]), inplace=inplace, o=o, t=t)
    return r
