"""P18: streaming resampler."""
import math
import vk
from arrays import f32, vec

BAND = {"best": .94, "medium": .85, "fastest": .68}      # of the narrower Nyquist band
RATIOS = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (7, 4), (4, 7), (11, 3)]


def probe(c, name):
    return c.build("resample.cpp", libs=["-lsamplerate"]), "ResampleTrace"


def gains(rng):
    return [rng.choice([1.0, -1.0, 2.0, 0.5, 3.0]) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]


def source(rng, q, ratio, total):
    """The signal of a new stream, for a quality and a ratio."""
    if q in ("hold", "linear"):
        return {"x": f32([rng.uniform(-1, 1) for _ in range(total)])}
    t = []
    edge = BAND[q] * math.pi * min(1, ratio)
    for _ in range(rng.randint(1, 3)):
        t += [rng.uniform(.1, .4), edge * rng.choice([1, 1, rng.random()]), rng.uniform(0, 6)]
    return {"tone": t}


def random_script(rng):
    q = rng.choice(["best", "medium", "fastest", "hold", "hold", "linear", "linear"])
    ratio = rng.choice([rng.uniform(.3, 1), rng.uniform(1, 4), 44100 / 48000, 48000 / 44100, 1.0, 2.0, .5, 8000 / 44100])
    if rng.random() < .08:
        ratio = rng.choice([0.001, 300.0, 0.0, -1.0])
    sinc = q not in ("hold", "linear")
    if sinc and rng.random() < .1:      # no such converter: every call says so
        g = [1.0] * rng.choice([129, 200])
        return [dict({"op": "new", "q": q, "ratio": ratio, "gain": g}, **source(rng, q, abs(ratio) or 1, 400))] + [
            rng.choice([{"op": "process", "n": rng.randint(1, 5), "it": rng.randint(0, 1)}, {"op": "reset"}]) for _ in range(4)]
    out = [{"op": "valid", "ratio": rng.choice([ratio, 1 / 256, 256.0, 256.1, 1 / 257, rng.uniform(0, 300), 0.0, -2.0])},
           dict({"op": "new", "q": q, "ratio": ratio, "gain": gains(rng)}, **source(rng, q, abs(ratio) or 1, 400))]
    left = 400
    room = 2500 if sinc else 400
    while room > 0:
        n = rng.choice([1, 2, 5, 17, 64, rng.randint(1, 90)] if not sinc else [1, 64, 300, 500, rng.randint(1, 700)])
        if q == "linear":
            n = max(n, 2)       # libsamplerate itself reads before a block of one frame
        out.append({"op": "process", "n": n, "it": rng.randint(0, 1)})
        room -= n
        if rng.random() < .03:
            out.append({"op": "reset"})
            room = 2000 if sinc else 400
    return out


def check(c):
    q = c.quick
    d = 6 if q else 8
    inv = ["OnTime", "Count", "Busy"]
    g = c.gen("ResampleModel", "CONSTANTS Ratios <- AllRatios Blocks = {1, 2, 3, 5} MaxLen = %d Tour = TRUE" % d, invs=inv, label="every partition into blocks")
    exe = c.build("resample.cpp", libs=["-lsamplerate"])
    sc = []
    for b in g:
        p, k = b[0], b[1]
        kind = "hold" if 1 in b[2:] else c.rng.choice(["hold", "linear"])
        sc.append(vk.script([dict({"op": "new", "q": kind, "ratio": p / k, "gain": gains(c.rng)}, **source(c.rng, kind, 1, 5 * d))]
                            + [{"op": "process", "n": n} for n in b[2:]]))
    sc += [vk.script(random_script(c.rng)) for _ in range(60 if q else 800)]
    c.conform(exe, "ResampleTrace", sc, label="resampler")
    c.assumptions = ["band-limited interpolation within 1% on tones in the pass band of the converter (0.94, 0.85, 0.68 of the narrower Nyquist band), once the filter is full",
                     "unused frames are offered again; ratios outside [1/256, 256] are refused; linear: blocks of two frames or more (libsamplerate)"]
