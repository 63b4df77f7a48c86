"""P29: types that hold one value of one type."""
import vk

TAGS = {"optional": ["A"], "expected": ["A", "B"], "any": ["A", "B", "I"], "variant": ["A", "B", "I"], "small": ["U", "S", "H"]}
HOWS = ["assign", "assign_lvalue", "assign_move", "build", "build_lvalue", "build_move", "emplace", "in_place"]


def harness(c, std):
    e = c.build("holders.cpp", std=std, name="holders" + std[-2:])
    return vk.Exe(e.argv, e.env, "holders-" + std)


def probe(c, name):
    return harness(c, name.split("-")[1]), "HoldersTrace"


def script(rng, length):
    k = rng.choice(list(TAGS))
    out = [{"op": "kind", "kind": k}, {"op": "new", "s": "a"}, {"op": "new", "s": "b"}]
    here = {"a": True, "b": True}
    while len(out) < length:
        s = rng.choice("ab")
        o = "b" if s == "a" else "a"
        x = rng.choice([0, 1, 2, 13, 99] if k == "small" else [0, 1, 2, 3, 13, 13, 7, -5, 100000])
        tag = rng.choice(TAGS[k])
        op = rng.choice(["put"] * 6 + ["get", "set", "copy", "copy", "copy", "move", "move", "swap", "swap", "self", "cmp", "cmp", "or", "visit", "clear", "drop", "new"])
        e = {"op": op, "s": s}
        if op == "new":
            if here[s]:
                continue
            here[s] = True
        elif op == "drop":
            if not here[s] or rng.random() < .5:
                continue
            here[s] = False
        elif op == "put":
            e.update(tag=tag, x=x, how=rng.choice(HOWS))
            if not here[s]:
                e["how"] = rng.choice(["build_move", "in_place"])
                here[s] = True
        elif op in ("copy", "move", "swap"):
            e["build"] = rng.randint(0, 1)
            if not here[o] or (not here[s] and (op != "move" or not e["build"])):
                continue
            here[s] = True
        else:
            if not here[s] or (op in ("cmp", "visit") and not here[o]):
                continue
            if (op == "cmp" and k == "any") or (op == "visit" and k != "variant") or (op == "clear" and k in ("expected", "variant", "small")) or (op == "or" and k in ("any", "variant", "small")):
                continue
            if op in ("get", "set"):
                e.update(tag=tag)
            if op in ("get", "or"):
                e["const"] = rng.randint(0, 1)
            if op in ("set", "or", "cmp"):
                e["x"] = x
            if op == "clear":
                e["how"] = rng.randint(0, 1)
        out.append(e)
    return out


def check(c):
    q = c.quick
    inv = ["TypeOK", "Filled", "Quiet", "Unique"]
    every = "{" + ", ".join('"%s"' % h for h in HOWS) + "}"
    g = c.gen("HoldersModel", "CONSTANTS MaxLen = 2 Tour = TRUE Hows = %s" % every, invs=inv + ["Emit"], label="all histories of two operations")
    few = '{"assign", "build_move", "emplace"}'
    h = c.gen("HoldersModel", "CONSTANTS MaxLen = 3 Tour = TRUE Hows = %s" % few, invs=inv + ["Emit"], label="all histories of three operations")
    c.model("HoldersModel", "CONSTANTS MaxLen = %d Tour = FALSE Hows = {\"assign\", \"emplace\"}" % (3 if q else 4), inv, label="longer histories")
    c.rng.shuffle(h)
    h = h[:6000 if q else 60000]
    sc = [vk.script(b) for b in g + h] + [vk.script(script(c.rng, 60)) for _ in range(600 if q else 6000)]
    for std in ("c++14", "c++17"):
        c.conform(harness(c, std), "HoldersTrace", sc, label="holders, " + std)
    c.assumptions = ["every type that is held can be moved without failing"]
