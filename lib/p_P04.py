"""P04: cascades of second-order sections."""
import vk
from p_P03 import coefs, xs, NAMES, probe


def random_script(rng, length):
    cap = rng.choice([1, 2, 3, 4, 7])
    out = [{"op": "new", "cap": cap}]
    n, spare = 0, 0
    pool = [coefs(rng) for _ in range(2)]
    for _ in range(length):
        p = rng.random()
        if (p < .25 or n == 0 and p < .7) and n < cap:
            e = dict({"op": rng.choice(["push_back", "emplace_back"])}, **(rng.choice(pool) if rng.random() < .6 else coefs(rng)))
            e["warm"] = xs(rng, rng.choice([0, 0, 1, 3])) if e["op"] == "push_back" else []
            out.append(e)
            n += 1
        elif p < .55:
            out.append({"op": "tick", "x": xs(rng, 1)[0]})
        elif p < .75:
            out.append({"op": "filter", "x": xs(rng, rng.choice([0, 1, 2, 7, 30])), "inplace": rng.randint(0, 1)})
        elif p < .80:
            out.append({"op": "reset"})
        elif p < .84:
            out.append({"op": "clear"})
            n = 0
        elif p < .90 and n:
            c = rng.choice(NAMES)
            out.append({"op": "set", "k": rng.randrange(n), "c": c, "v": rng.choice([1.0, 2.0]) if c == "a0" else rng.uniform(-.45, .45)})
        elif p < .94 and n:
            out.append({"op": "reset_stage", "k": rng.randrange(n)})
        elif p < .97:
            out.append({"op": "save"})
            spare = n
        else:
            out.append({"op": "restore"})
            n = spare
    return out


def check(c):
    d = 6 if c.quick else 8
    g = c.gen("CascadeModel", "CONSTANTS MaxCap = 3 MaxLen = %d Tour = TRUE" % (6 if c.quick else 7), invs=["Contents", "Order"], label="all short behaviours")
    c.model("CascadeModel", "CONSTANTS MaxCap = 3 MaxLen = %d Tour = FALSE" % d, ["Contents", "Order"], label="cascade as a list of sections")
    base = c.build("biquad.cpp", std="c++17")
    exe = vk.Exe(base.argv + ["cascade"], base.env, "biquad-cascade")
    c.rng.shuffle(g)
    sc = [vk.script(b) for b in g[:25000 if c.quick else 400000]]
    n, length = (250, 50) if c.quick else (3000, 100)
    sc += [vk.script(random_script(c.rng, length)) for _ in range(n)]
    c.conform(exe, "CascadeTrace", sc, label="cascade")
    c.assumptions = ["no section is appended to a full cascade (documented precondition)",
                     "outputs compared within 1e-7 of the sum of the largest magnitudes met in the sections since they were last at rest"]
