"""P01: bounded double-ended queues."""
import vk


def kinds(c):
    return [("ring", "int"), ("ring", "string"), ("ring", "double"), ("fixed", "int"), ("fixed", "string"), ("span", "int"), ("span", "string"),
            ("spancopy", "int"), ("spancopy", "string"), ("spankeep", "int"), ("spankeep", "string")]


def exe_for(c, base, kind, typ):
    return vk.Exe(base.argv + [kind, typ], base.env, "ring-%s-%s" % (kind, typ))


def adapt(b, kind, rng):
    """A generated behaviour in the vocabulary of one class."""
    out = []
    for r in b:
        r = dict(r)
        if kind.startswith("span"):
            if r["op"] == "at":
                return None
            if r["op"] == "emplace_front" and rng.random() < .5:
                r["op"] = "push_front"
        out.append(r)
    return out


def random_script(rng, kind, length):
    caps = {"fixed": [1, 2, 3, 4, 7], "ring": [1, 2, 3, 4, 5, 8, 13, 64], "span": [1, 2, 3, 5, 8, 17]}[kind[:4] if kind[0] == "s" else kind]
    cap = rng.choice(caps)
    r = {"op": "new", "s": "a", "cap": cap}
    n = 0
    if rng.random() < .3:
        r["fill"] = 5
        n = cap
        if kind.startswith("span"):
            r["head"] = rng.randrange(cap)
    out = [r]
    obj = {"a": [cap, n], "b": None}
    val = 10
    heavy = rng.choice(["push", "mixed", "front", "pop"])
    for _ in range(length):
        s = "b" if obj["b"] and rng.random() < .4 else "a"
        if obj[s] is None:
            s = "b" if s == "a" else "a"
        other = "b" if s == "a" else "a"
        cp, n = obj[s]
        w = {"push_back": 4, "emplace_back": 2, "emplace_front": 2, "pop_front": 2, "pop_back": 1.5, "clear": .15, "set_index": .5,
             "set_at": .5, "set_iter": .5, "set_front": .4, "set_back": .4, "at": .7, "set_rev": .4, "walk": 1.5, "emplace_back2": .5, "emplace_front2": .5,
             "move": .15, "move_assign": .15, "swap": .15}
        if kind != "fixed":
            w["make"] = .15
        if heavy == "push":
            w["push_back"] = 12
        if heavy == "front":
            w["emplace_front"] = 8
        if heavy == "pop":
            w["pop_front"] = 4
            w["pop_back"] = 4
        if kind.startswith("span"):
            del w["at"]
            w["push_front"] = w["emplace_front"]
        else:
            w["self_assign"] = .1
            w["copy"] = w["copy_assign"] = .3
            if kind == "ring":
                w["resize"] = .25
        op = rng.choices(list(w), list(w.values()))[0]
        if op in ("pop_front", "pop_back", "set_index", "set_at", "set_iter", "set_front", "set_back", "set_rev") and n == 0:
            op = "push_back"
        val += 1
        if op in ("copy", "copy_assign", "move", "move_assign"):
            # from s into the other object
            out.append({"op": op, "s": other})
            obj[other] = list(obj[s])
            if op.startswith("move"):
                obj[s] = None
            continue
        if op == "make":
            e = {"op": "make", "s": other, "cap": rng.choice(caps)}
            obj[other] = [e["cap"], 0]
            if rng.random() < .4:
                e["fill"] = 6
                obj[other][1] = e["cap"]
            out.append(e)
            continue
        if op == "swap":
            if obj["a"] is None or obj["b"] is None:
                continue
            out.append({"op": "swap", "s": "a", "m": rng.randint(0, 1)})
            obj["a"], obj["b"] = obj["b"], obj["a"]
            continue
        e = {"op": op, "s": s}
        if op == "resize":
            e["n"] = rng.randint(1, 9)
            obj[s] = [e["n"], 0]
        if op in ("set_index", "set_at", "set_iter", "set_rev"):
            e["k"] = rng.randrange(n)
        if op == "walk":
            e.update(w=rng.choice(["fwd", "const", "mixed", "rev", "crev"]), i=rng.randint(0, n), j=rng.randint(0, n))
        if op == "at":
            e["k"] = rng.choice([n, n + 1, rng.randrange(n + 1), cp, cp + 3, 1000000])
        if op.startswith(("push", "emplace", "set_")):
            e["x"] = val
        if op.startswith(("push", "emplace")):
            obj[s][1] = min(cp, n + 1)
        if op.startswith("pop"):
            obj[s][1] = n - 1
        if op == "clear":
            obj[s][1] = 0
        out.append(e)
    return out


INVS = ["TypeOK", "Refines", "Bounded"]


def check(c):
    d = 5 if c.quick else 6
    c.model("RingImpl", "CONSTANTS MaxCap = 3 MaxHist = %d Tour = FALSE" % d, INVS, workers=6, label="RingImpl, all behaviours")
    tour = c.gen("RingImpl", "CONSTANTS MaxCap = 4 MaxHist = 40 Tour = TRUE", more="VIEW Shape\n", invs=INVS, label="RingImpl, every transition")
    tour = vk.prefixes_removed(tour)
    short = c.gen("RingImpl", "CONSTANTS MaxCap = 2 MaxHist = %d Tour = TRUE" % (4 if c.quick else 5), invs=INVS, label="RingImpl, all short behaviours")
    short = vk.prefixes_removed(short)
    base = c.build("ring.cpp", std="c++14")
    for kind, typ in kinds(c):
        exe = exe_for(c, base, kind, typ)
        t = [adapt(b, kind, c.rng) for b in tour + (short if typ == "int" else [])]
        n, length = (60, 80) if c.quick else (600, 300)
        sc = [vk.script(b) for b in t if b] if typ != "double" else []
        sc += [vk.script(random_script(c.rng, kind, length)) for _ in range(n)]
        c.conform(exe, "RingTrace", sc, label="%s<%s>" % (kind, typ))
    c.assumptions = ["capacity at least 1; indices given to unchecked element access are within the size",
                     "capacities explored: 1..4 exhaustively over (head, size, operation), up to 64 at random"]


def probe(c, name):
    base = c.build("ring.cpp", std="c++14")
    _, kind, typ = name.split("-")
    return exe_for(c, base, kind, typ), "RingTrace"
