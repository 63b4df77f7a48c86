"""P20: loggers."""
import os
import vk

LEVELS = ["trace", "debug", "info", "warning", "error", "critical", "off"]
MANIP = ["red", "green", "yellow", "blue", "magenta", "cyan", "white", "grey", "bold", "endc", "reset", "tab", "endl"]
RANGE = {"u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1)}


def harness(c):
    base = c.build("logger.cpp")
    d = os.path.join(c.work, "files")
    os.makedirs(d, exist_ok=True)
    return vk.Exe(base.argv, dict(base.env, VH_DIR=d), "logger")


def probe(c, name):
    return harness(c), "LoggerTrace"


def b(s):
    return list(s.encode())


def random_script(rng, length):
    out = [{"op": "start"}]
    alive = False
    path = [[], b("console"), b("f"), b("g")]
    for _ in range(length):
        k = rng.choice(["def", "new", "new", "end", "text", "text", "number", "quarters", "manip", "manip", "level", "space"])
        if k == "def":
            o = rng.choice(["default_level", "default_name", "default_path"])
            out.append({"op": o, "v": rng.choice(LEVELS) if o == "default_level" else rng.choice(path) if o == "default_path" else rng.choice([b("x"), b("console"), [], b("some name")])})
        elif k == "new" or not alive:
            e = {"op": "new", "level": rng.choice(LEVELS)}
            if rng.random() < .5:
                e["name"] = rng.choice([b("n"), b("abc"), []])
                if rng.random() < .6:
                    e["file"] = rng.choice(path)
            out.append(e)
            alive = True
        elif k == "end":
            out.append({"op": "end"})
            alive = False
        elif k == "text":
            how = rng.choice(["string", "view", "chars"])
            lo = 1 if how == "chars" else 0
            out.append({"op": "text", "x": [rng.randint(lo, 255) for _ in range(rng.randint(0, 12))], "as": how})
        elif k == "number":
            t = rng.choice(list(RANGE))
            lo, hi = RANGE[t]
            out.append({"op": "number", "t": t, "x": b(str(rng.choice([lo, hi, 0, rng.randint(lo, hi), min(hi, 9), min(hi, 10)])))})
        elif k == "quarters":
            out.append({"op": "quarters", "k": rng.choice([0, 1, -1, rng.randint(-30000, 30000)]), "f": rng.randint(0, 1)})
        elif k == "manip":
            out.append({"op": "manip", "m": rng.choice(MANIP)})
        elif k == "level":
            out.append({"op": "level", "v": rng.choice(LEVELS)})
        else:
            out.append({"op": "space"})
    return out


def check(c):
    q = c.quick
    inv, prop = ["Delivered"], ["AppendOnly", "Quiet"]
    g = c.gen("LoggerModel", "CONSTANTS MaxLen = %d Tour = TRUE" % (5 if q else 6), invs=inv, label="all short histories")
    c.model("LoggerModel", "CONSTANTS MaxLen = %d Tour = FALSE" % (6 if q else 7), inv, prop, label="messages and defaults")
    if q:
        c.rng.shuffle(g)
        g = g[:6000]
    exe = harness(c)
    sc = [vk.script(x) for x in g] + [vk.script(random_script(c.rng, 40)) for _ in range(300 if q else 4000)]
    c.conform(exe, "LoggerTrace", sc, label="logger")
    c.assumptions = ["numbers of 16 bits and more; 8-bit integers are logged as characters; reals with short decimal expansions"]
