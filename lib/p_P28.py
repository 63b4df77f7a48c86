"""P28: uniform access to containers, traits, checked conditions."""
import vk

WRITABLE = ["vector", "array", "stdarray", "pointer"]
KINDS = WRITABLE + ["cvector", "carray", "il", "list", "cpointer", "string"]
TYPES = "pointer vector_it const_vector_it deque_it list_it map_it forward_list_it unordered_it istream_it ostream_it back_inserter reverse_it vector string record bool int long short schar double float unsigned size_t uchar char wchar".split()
LEVELS = ["trace", "debug", "info", "warning", "error", "critical", "off"]


def asks(rng, kind, n, values):
    out = []
    if kind not in ("pointer", "cpointer"):
        out += [{"op": "size"}, {"op": "empty"}]
    if kind in ("array", "carray", "il", "pointer", "cpointer"):
        out.append({"op": "null"})
    if n and kind != "list":
        out.append({"op": "get", "i": rng.randrange(n)})
    i = rng.randint(0, n)
    j = rng.randint(i, n)
    out.append({"op": "contains", "i": i, "j": j, "v": rng.choice(values)})
    k = rng.randint(0, n)
    out.append({"op": "advance", "i": k, "n": rng.randint(-k, n - k)})
    return out


def near(rng, t):
    e = 2.0 ** (-23 if t == "float" else -52)
    a = rng.choice([0.0, 1.0, -1.0, .5, 3.0, 1e-3, 1e6, 1e30, -1e30, rng.uniform(-2, 2), e, e / 2])
    d = rng.choice([0.0, e / 2, -e / 2, e, -e, 2 * e, 4 * e, 1e-7, 1e-3, abs(a) * e, 1.0])
    return a, a + d


ARITHMETIC = ["char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "ldouble"]


def traits(c):
    """Type transformations: every program of up to two steps."""
    g = c.gen("TypeTraitsModel", "CONSTANTS MaxLen = 2 Tour = TRUE", invs=["Formed", "Again", "Undone", "Collapse", "Values", "Signs", "CommonLaws", "Emit"], label="programs of type transformations")
    if not c.quick:
        c.model("TypeTraitsModel", "CONSTANTS MaxLen = 4 Tour = FALSE", ["Formed", "Again", "Undone", "Collapse", "Values", "Signs", "CommonLaws"], label="longer programs of type transformations")
    sc = [vk.script([{"op": "begin", "t": h[0]}] + [{"op": "apply", "f": f} for f in h[1:]]) for (h,) in g if len(h) == 3]
    starts = sorted({h[0] for (h,) in g})
    sc += [vk.script([{"op": "enabled", "a": a, "cond": k} for k in (0, 1)]) for a in starts]
    sc += [vk.script([{"op": "common", "a": a, "b": b}] + [{"op": "either", "a": a, "b": b, "cond": k} for k in (0, 1)]) for a in ARITHMETIC for b in ARITHMETIC]
    sc += [vk.script([{"op": "underlying", "a": a} for a in ("short", "uchar", "long")] + [{"op": "result", "a": a} for a in ("twice", "name", "object")])]
    c.conform(c.build("types.cpp"), "TypeTraitsTrace", sc, label="type transformations")


def probe(c, name):
    if name == "types":
        return c.build("types.cpp"), "TypeTraitsTrace"
    return (c.build("meta.cpp") if name != "meta-ndebug" else c.build("meta.cpp", libs=["-lpthread"], defs=["NDEBUG"], name="meta-ndebug")), "MetaTrace"


def check(c):
    q, rng = c.quick, c.rng
    g = c.gen("MetaModel", "CONSTANTS MaxLen = %d Depth = %d Values = {1, 2} Tour = TRUE" % ((3, 3) if q else (4, 4)), invs=["Shape", "Latest", "Whole", "Parts", "Traits", "Conditions", "Emit"], label="short histories on every kind of object")
    exes = [c.build("meta.cpp"), c.build("meta.cpp", defs=["NDEBUG"], name="meta-ndebug")]
    sc = []
    for (h,) in g:
        s = []
        for r in h:
            s.append(dict(r))
            s += asks(rng, h[0]["kind"], len(h[0]["x"]), [1, 2, 3])
        sc.append(vk.script(s))
    for _ in range(300 if q else 4000):
        kind = rng.choice(KINDS)
        fixed = kind in ("array", "carray", "stdarray", "il")
        n = rng.randint(1, 4) if fixed else rng.choice([0, 1, rng.randint(2, 40)])
        vals = [rng.randint(0, 127) if kind == "string" else rng.randint(-5, 5) for _ in range(n)]
        s = [{"op": "new", "kind": kind, "x": vals}]
        for _ in range(8):
            if n and kind in WRITABLE and rng.random() < .5:
                s.append({"op": "put", "i": rng.randrange(n), "v": rng.randint(-5, 5)})
            s += asks(rng, kind, n, vals + [7])
        sc.append(vk.script(s))
    for _ in range(150 if q else 3000):
        s = []
        for _ in range(6):
            t = rng.choice(["double", "float", "int"])
            if t == "int":
                a = rng.randint(-3, 3)
                s.append({"op": "equal", "t": t, "a": a, "b": a + rng.choice([0, 0, 1, -1])})
            else:
                a, b = near(rng, t)
                if t == "float":
                    a, b = vk_f32(a), vk_f32(b)
                if rng.random() < .5:
                    a, b = b, a
                s.append({"op": "equal", "t": t, "a": a, "b": b})
            s.append({"op": "cast", "v": rng.choice([rng.uniform(-1e9, 1e9), rng.uniform(-2, 2), .5, -.5, 1e-9, 7.0])})
            s.append({"op": "isnull", "how": rng.choice(["pointer", "cpointer", "text", "unique", "shared"]), "what": rng.choice(["nothing", "blank", "some"])})
        sc.append(vk.script(s))
    for t in TYPES:
        sc.append(vk.script([{"op": "type", "t": t}]))
    conds = []
    for lv in LEVELS:
        for cond in (0, 1):
            for op in ("expects", "ensure"):
                for msg in (None, [], [rng.randint(97, 122) for _ in range(rng.randint(5, 30))]):
                    r = {"op": op, "cond": cond}
                    if msg is not None:
                        r["msg"] = msg
                    conds.append(vk.script([{"op": "level", "v": lv}, r, dict(r, op="ensure")]))
    for exe in exes:
        c.conform(exe, "MetaTrace", (sc if exe is exes[0] else sc[::4]) + conds, label="uniform access" + (" without assertions" if exe is exes[1] else ""))
    traits(c)
    c.assumptions = ["messages which are not null; contents are numbers or ASCII characters"]


def vk_f32(v):
    import struct
    return struct.unpack("f", struct.pack("f", v))[0]
