"""P30: views of text and of elements."""
import vk

FINDS = ["find", "rfind", "first_of", "first_not", "last_of", "last_not"]


def harness(c, std):
    e = c.build("views.cpp", std=std, name="views" + std[-2:])
    return vk.Exe(e.argv, e.env, "views-" + std)


def probe(c, name):
    return harness(c, name.split("-")[1]), "ViewsTrace"


def fit(rng, e):
    """adds how an operation is written, which does not matter to its meaning"""
    if e["op"] in FINDS:
        how = ["view", "counted"] + ([] if 0 in e["x"] else ["ended"] * 2) + (["char"] * 2 if len(e["x"]) == 1 else [])
        e["how"] = rng.choice(how)
    if e["op"] == "write":
        e["how"] = rng.randint(0, 1)
    return e


def start(rng, kind, x, typ=None):
    t = typ or rng.choice(["char", "char", "wide", "char16"] if kind == "text" else ["int", "short", "double"])
    e = {"op": "text", "x": x}
    if kind == "span":
        e["from"] = rng.choice(["vector", "counted", "pointers"] + (["array"] * 3 if len(x) == 4 else ["raw"] * 3 if len(x) == 3 else []))
    return [{"op": "kind", "kind": kind, "type": t}, e]


def longer(rng, length):
    kind = rng.choice(["text", "text", "span"])
    n = rng.choice([0, 1, 2, 3, 4, 4, 5, 8, rng.randint(0, 40)])
    typ = rng.choice(["char", "char", "wide", "char16"]) if kind == "text" else rng.choice(["int", "short", "double"])
    pool = rng.choice([[97, 98], [97, 98, 99, 32], [0, 97, 255], list(range(256)), [127, 128, 1]])
    if typ == "wide":
        pool = pool + rng.choice([[], [0x1F600, 0x20AC, 300, 65536 + 97]])
    if typ == "char16":
        pool = pool + rng.choice([[], [0x20AC, 300, 0xFFFF, 256 + 97]])
    if kind == "span":
        pool = rng.choice([[1, 2], [-3, 0, 5], list(range(-100, 100))])
    mem = [rng.choice(pool) for _ in range(n)]
    out = start(rng, kind, mem, typ)
    off, m, ko, km = 0, n, 0, n

    def piece():
        r = rng.random()
        v = mem[off:off + m] if off >= 0 else []
        if v and r < .6:
            i = rng.randint(0, len(v) - 1)
            p = v[i:i + rng.randint(1, 4)]
            if r < .1:
                p[-1] = rng.choice(pool)
            return p
        if r < .7:
            return v[:] + ([rng.choice(pool)] if r < .65 else [])
        return [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))]

    while len(out) < length:
        if kind == "text":
            op = rng.choice(FINDS * 2 + ["view"] * 4 + ["nothing", "keep", "swap", "remove_prefix", "remove_suffix", "substr", "at", "copy", "compare", "compare", "compare_part", "compare_part", "stream", "text"])
        else:
            op = rng.choice(["view"] * 3 + ["nothing", "first", "last", "sub", "fixed", "four", "write", "write", "get", "get", "relate", "relate", "text"])
        e = {"op": op}
        if op == "text":
            if rng.random() < .7:
                continue
            mem = [rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 4, rng.randint(0, 40)]))]
            e = start(rng, kind, mem, typ)[1]
            off, m, ko, km = 0, len(mem), 0, len(mem)
        elif op == "view":
            k = rng.choice([0, len(mem), rng.randint(0, len(mem))])
            e.update(k=k, n=rng.choice([0, len(mem) - k, len(mem) - k, rng.randint(0, len(mem) - k)]))
            off, m = e["k"], e["n"]
        elif op == "nothing":
            off, m = -1, 0
        elif op == "keep":
            ko, km = off, m
        elif op == "swap":
            off, m, ko, km = ko, km, off, m
        elif op in ("remove_prefix", "remove_suffix", "first", "last"):
            n = e["n"] = rng.choice([0, m, rng.randint(0, m)])
            off, m = (off + n, m - n) if op == "remove_prefix" else (off, m - n) if op == "remove_suffix" else (off, n) if op == "first" else (off + m - n, n)
        elif op in ("substr", "sub"):
            p = e["p"] = rng.randint(0, m + (1 if op == "substr" and rng.random() < .2 else 0))
            n = e["n"] = rng.choice([-1, max(0, m - p), rng.randint(0, max(0, m - p))] + ([m + 5] if op == "substr" else []))
            if p <= m:
                off, m = off + p, min(n, m - p) if n >= 0 else m - p
        elif op == "at":
            e["k"] = rng.choice([0, m, max(0, m - 1), rng.randint(0, m + 2)])
        elif op == "copy":
            e.update(p=rng.choice([0, m, m + 1, rng.randint(0, m)]), n=rng.choice([0, 1, m, m + 3]))
        elif op in FINDS:
            e.update(x=piece(), p=rng.choice([-1, 0, 0, m, m + 1, max(0, m - 1), rng.randint(0, m + 2)]))
        elif op in ("compare", "compare_part"):
            e["x"] = piece()
            if op == "compare_part":
                k = len(e["x"])
                e.update(p=rng.choice([0, rng.randint(0, m), rng.randint(0, m + 1)]), n=rng.choice([-1, 0, 1, k, rng.randint(0, m + 2)]), p2=rng.choice([0, 0, rng.randint(0, k), k + 1]), n2=rng.choice([-1, k, 1, 0]))
            if 0 in e["x"]:
                continue
        elif op == "stream":
            if typ == "char16":
                continue
            e.update(width=rng.choice([0, 1, m, m + 1, m + 7, max(0, m - 1)]), adjust=rng.choice(["left", "right", "none"]))
        elif op in ("fixed", "four"):
            if m < (2 if op == "fixed" else 4):
                continue
        elif op == "get":
            e.update(k=rng.randint(0, m - 1) if m else 0, n=m + rng.choice([0, 0, 1, 40]))
        elif op == "write":
            if not m:
                continue
            e.update(k=rng.choice([0, m - 1, rng.randint(0, m - 1)]), x=rng.choice(pool))
            mem[off + e["k"]] = e["x"]
        elif op == "relate":
            e["x"] = piece()
        out.append(fit(rng, e))
    return out


def check(c):
    q = c.quick
    inv = ["Inside", "Owned", "Narrows", "Asks"]
    g = c.gen("ViewsModel", 'CONSTANTS MaxText = %d MaxLen = 2 Alphabet = {97, 98} Kinds = {"text"} Tour = TRUE' % (3 if q else 4), invs=inv + ["Emit"], label="every view of every short text")
    h = c.gen("ViewsModel", 'CONSTANTS MaxText = %d MaxLen = %d Alphabet = {1, 2} Kinds = {"span"} Tour = TRUE' % ((4, 2) if q else (5, 2)), invs=inv + ["Emit"], label="every span of few elements")
    c.model("ViewsModel", 'CONSTANTS MaxText = %d MaxLen = 1 Alphabet = {97, 98, 99} Kinds = {"text", "span"} Tour = FALSE' % (3 if q else 4), inv + ["Found", "Sorted"], label="longer texts")
    c.rng.shuffle(g)
    g = g[:8000 if q else 80000]
    sc = [vk.script(start(c.rng, b[0]["kind"], b[1]["x"], "char" if any(e["op"] == "stream" for e in b) else None) + [fit(c.rng, dict(e)) for e in b[2:]]) for b in g + h]
    sc += [vk.script(longer(c.rng, 60)) for _ in range(700 if q else 8000)]
    for std in ("c++14", "c++17"):
        c.conform(harness(c, std), "ViewsTrace", sc, label="views, " + std)
    c.assumptions = ["positions and lengths within what an operation asks for; the elements outlive their views"]
