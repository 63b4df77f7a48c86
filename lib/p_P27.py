"""P27: headers stand on their own."""
import os
import vk

DIALECTS = [("g++", "14"), ("g++", "17"), ("clang++", "14"), ("clang++", "17")]


def public():
    out = []
    for d, _, fs in sorted(os.walk(vk.REPO + "/include/edsp")):
        if "/internal" in d or "/thirdparty" in d:
            continue
        out += [os.path.relpath(os.path.join(d, f), vk.REPO + "/include") for f in sorted(fs) if f.endswith(".hpp")]
    return out


def c_headers():
    d = vk.REPO + "/bindings/c/include/cedsp"
    return ["cedsp/" + f for f in sorted(os.listdir(d)) if f.endswith(".h")]


def driver():
    return vk.Exe(["python3", os.path.join(vk.HARN, "headers.py")], {"VH_REPO": vk.REPO}, "headers")


def probe(c, name):
    return driver(), "HeadersTrace"


def unit(h, cc="g++", std="14"):
    return {"op": "unit", "cc": cc, "std": std, "h": ",".join(h)}


def name(h, n, cc, std):
    return {"op": "name", "cc": cc, "std": std, "h": h, "n": n}


def check(c):
    q, rng = c.quick, c.rng
    c.model("HeadersModel", "CONSTANTS N = 2 Tour = FALSE" if q else "CONSTANTS N = 3 Tour = FALSE", ["Sound", "SameNames", "Once", "Hidden", "Table"], label="include systems")
    known = c.gen("HeadersModel", "CONSTANTS N = 1 Tour = TRUE", spec="", more="INIT Init\nNEXT Next\n", invs=["Emit"], label="names of headers")
    exe = driver()
    hs, cs = public(), c_headers()
    sc = []
    for h in hs:
        for cc, std in (rng.sample(DIALECTS, 1) + [("g++", "14")] if q else DIALECTS):
            sc.append(vk.script([unit([h], cc, std)]))
    for h in cs:
        for cc, std in (("gcc", "11"), ("clang", "99"), ("g++", "14")):
            sc.append(vk.script([unit([h], cc, std)]))
    # all of them, in any order
    for k in range(8 if q else 120):
        o = hs[:]
        rng.shuffle(o)
        if k % 2:
            o = o[:rng.randint(2, 40)]
        sc.append(vk.script([unit(o, *rng.choice(DIALECTS))]))
    # the C headers next to each other
    for k in range(4 if q else 30):
        o = cs[:]
        rng.shuffle(o)
        sc.append(vk.script([unit(o, *rng.choice([("gcc", "11"), ("clang", "11"), ("g++", "17")]))]))
    # programs of several units
    for k in range(2 if q else 24):
        cc, std = rng.choice(DIALECTS)
        p = []
        for _ in range(rng.randint(2, 4)):
            o = hs[:]
            rng.shuffle(o)
            p.append(unit(o[:rng.randint(20, len(o))], cc, std))
        sc.append(vk.script(p + [{"op": "link"}]))
    # what is declared, and what is not
    everything = sorted({n for r in known for n in r[1:]})
    for r in known:
        c_lang = r[0].startswith("cedsp/")
        if q and c_lang or rng.random() < (.35 if q else 1):
            for n in r[1:] if not q else rng.sample(r[1:], min(len(r) - 1, 2 if not r[0].count("/") == 1 else 8)):
                cc, std = ("gcc", "11") if c_lang else ("g++", "14") if q else rng.choice(DIALECTS)
                sc.append(vk.script([name(r[0], n, cc, std)]))
    for k in range(4 if q else 20):
        sc.append(vk.script([name(rng.choice(hs), rng.choice(["edsp::missing_name", "edsp::filter::nothing", "edsp_missing"]), "g++", "14")]))
    c.conform(exe, "HeadersTrace", sc, label="includes", timeout=840)
    c.assumptions = ["GCC 13 and Clang 18, C++14 and C++17, C99 and C11", "headers of libraries which are not installed (pffft, audiofile, libresample) are not included"]
