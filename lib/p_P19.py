"""P19: process environment, library and platform information."""
from concurrent.futures import ThreadPoolExecutor
import vk

PLATFORMS = ["", "AS_ARM64", "AS_ARM32", "AS_X86", "AS_WINDOWS", "AS_MACOS", "AS_IOS", "AS_FREEBSD", "AS_ANDROID", "AS_CLANG", "AS_MSVC"]
LIBS = [["-UUSE_LIBFFTW", "-DUSE_LIBPFFFT", '-DWFFT="pffft"', "-UUSE_LIBSNDFILE", "-DUSE_LIBAUDIOFILE", '-DWCODEC="audiofile"', "-UUSE_LIBSAMPLERATE", "-DUSE_LIBRESAMPLE", '-DWRES="resample"'],
        ["-UUSE_LIBFFTW", "-DUSE_LIBACCELERATE", '-DWFFT="accelerate"', "-UUSE_LIBSNDFILE", '-DWCODEC="unknown"', "-UUSE_LIBSAMPLERATE", '-DWRES="unknown"'],
        ["-UUSE_LIBFFTW", '-DWFFT="unknown"']]


def probe(c, name):
    if name.startswith("race"):
        return c.build("race.cpp", libs=["-lpthread"]), "SystemRaceTrace"
    return c.build("system.cpp"), "SystemTrace"


def text(rng, alphabet, lo, hi):
    return [rng.choice(alphabet) for _ in range(rng.randint(lo, hi))]


def random_script(rng, length):
    al = [65, 66, 95, 48, 97, 200]
    names = [text(rng, al, 1, 6) for _ in range(5)] + [[], [65, 61], [61], [61, 66]]
    names += [n[:-1] for n in names[:3] if len(n) > 1]
    out = [{"op": "clear"}]
    for _ in range(length):
        o = rng.choice(["set", "set", "set", "get", "get", "exist"])
        e = {"op": o, "name": rng.choice(names)}
        if o == "set":
            e["value"] = text(rng, list(range(1, 256)), 0, 20)
            e["over"] = rng.choice([0, 1, 1])
            if e["over"] and rng.random() < .4:
                e["dflt"] = 1
        out.append(e)
    return out


def crowd(rng, n, length):
    """More threads, nobody held."""
    names = [[65], [66], [67, 68]]
    out = [{"op": "clear"}]
    for _ in range(2):
        for t in range(1, n + 1):
            for _ in range(rng.randint(1, length)):
                e = {"op": "put", "by": t, "what": rng.choice(["set", "set", "get", "exist"]), "name": rng.choice(names)}
                if e["what"] == "set":
                    e["value"] = text(rng, [120, 121, 122], 0, 5)
                    e["over"] = rng.choice([0, 1])
                out.append(e)
        out.append({"op": "go", "who": 0, "stop": -1, "before": 0})
    return out


def threads(c):
    q = c.quick
    c.model("SystemRaceModel", "CONSTANTS Long = FALSE Unlocked = FALSE Tour = FALSE", ["Explained", "Exclusive", "OneHolder"], ["Finished"], label="threads terminate")
    g = c.gen("SystemRaceModel", "CONSTANTS Long = TRUE Unlocked = FALSE Tour = TRUE", invs=["Explained", "Exclusive", "OneHolder"], workers=4, label="threads")
    c.rng.shuffle(g)
    g = g[:300 if q else 6000]
    exe = c.build("race.cpp", libs=["-lpthread"])
    c.conform(exe, "SystemRaceTrace", [vk.script(b) for b in g], label="two threads")
    c.conform(exe, "SystemRaceTrace", [vk.script(crowd(c.rng, 3, 5)) for _ in range(100 if q else 2000)], label="three threads")


def check(c):
    q = c.quick
    g = c.gen("SystemModel", "CONSTANTS MaxLen = 4 Tour = TRUE", invs=["InForce", "NoBadName"], label="all short histories")
    if not q:
        c.model("SystemModel", "CONSTANTS MaxLen = %d Tour = FALSE" % 5, ["InForce", "NoBadName"], label="environment")
    if q:
        c.rng.shuffle(g)
        g = g[:9000]
    exe = c.build("system.cpp")
    sc = [vk.script(b) for b in g] + [vk.script(random_script(c.rng, 60)) for _ in range(200 if q else 3000)]
    sc.append(vk.script([{"op": "version"}, {"op": "libraries"}, {"op": "platform"}]))
    c.conform(exe, "SystemTrace", sc, label="environment")
    threads(c)
    facts = vk.script([{"op": "libraries"}, {"op": "platform"}, {"op": "version"}])
    with ThreadPoolExecutor(8) as pool:
        v = list(pool.map(lambda d: c.build("system.cpp", defs=[d], san=False, opt="-O0", name="system_" + d), PLATFORMS[1:]))
        v += list(pool.map(lambda k: c.build("system.cpp", extra=LIBS[k], san=False, opt="-O0", name="system_l%d" % k), range(len(LIBS))))
    for x in v:
        c.conform(x, "SystemTrace", [facts], label=x.name)
    c.assumptions = ["texts without NUL; other platforms and back ends are pretended by their predefined macros"]
