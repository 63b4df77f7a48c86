"""P21: text utilities."""
import vk

WHITE = [9, 10, 11, 12, 13, 32]
WIDE = [0x20AC, 0x3B1, 0x4E2D, 0x1F600, 300, 1000, 0xFFFF]


def probe(c, name):
    return c.build("strings.cpp"), "StringsTrace"


def ops_for(rng, s, delims, wide=0):
    out = []
    for o in ["trim", "ltrim", "rtrim", "lower", "upper", "split"]:
        r = {"op": o, "x": s, "c": rng.randint(0, 3)}
        if o == "split":
            r["d"] = rng.choice(delims)
        out.append(r)
    n = []
    left = len(s)
    while left and len(n) < 6:
        k = rng.choice([0, 1, rng.randint(0, left), left])
        n.append(k)
        left -= k
    if rng.random() < .3:
        n += [0] * rng.randint(1, 2)
    out.append({"op": "join", "x": s, "n": n, "d": rng.choice(delims), "c": rng.randint(0, 3)})
    if wide:
        for r in out:
            r["wide"] = 1
    return out


def text(rng, hi, wide):
    k = rng.choice(["any", "ascii", "white", "words", "high"])
    n = rng.choice([0, 1, 2, rng.randint(0, hi)])
    pool = {"any": list(range(256)), "ascii": list(range(32, 127)), "white": WHITE + [0, 97], "words": [32, 44, 97, 66, 122, 90, 91, 64, 96, 123], "high": list(range(128, 256)) + [32]}[k]
    if wide:
        pool = [c for c in pool if c < 128] + WIDE
    return [rng.choice(pool) for _ in range(n)]


def check(c):
    q = c.quick
    inv = ["Idempotent", "Ends", "SplitJoin", "JoinAll"]
    g = c.gen("StringsModel", "CONSTANTS MaxLen = %d Alphabet = {0, 32, 44, 97, 90} Delimiters = {32, 44} Tour = TRUE" % (4 if q else 6), invs=inv + ["Emit"], label="every short text")
    c.model("StringsModel", "CONSTANTS MaxLen = %d Alphabet = {9, 32, 65, 255} Delimiters = {32, 65, 255} Tour = FALSE" % (6 if q else 8), inv, [], label="laws of longer texts")
    exe = c.build("strings.cpp")
    sc = []
    for i, (s,) in enumerate(g):
        sc.append(vk.script(ops_for(c.rng, s, [32, 44, 0, 97], i % 2)))
    # every byte, alone and between others
    for b in range(256):
        sc.append(vk.script(sum((ops_for(c.rng, s, [b, 32]) for s in ([b], [b, 97, b], [97, b, 97])), [])))
    for _ in range(600 if q else 8000):
        w = c.rng.randint(0, 1)
        s = text(c.rng, 40, w)
        sc.append(vk.script(ops_for(c.rng, s, [32, 44, 10, 0] + s[:2] + ([0x20AC] if w else [255]), w)))
    c.conform(exe, "StringsTrace", sc, label="strings")
    c.assumptions = ["the C locale; narrow texts of any bytes, wide texts of any characters"]
