"""P24: the tags of audio files."""
import os
import vk

FMT = ["wav", "flac", "aiff", "ogg", "mp3"]
FIELDS = ["title", "artist", "album", "genre", "year", "track"]


def harness(c):
    base = c.build("metadata.cpp", libs=["-ltag", "-lsndfile"])
    d = os.path.join(c.work, "files")
    os.makedirs(d, exist_ok=True)
    return vk.Exe(base.argv, dict(base.env, VH_DIR=d), "metadata")


def probe(c, name):
    return harness(c), "MetadataTrace"


def reads(rng):
    f = list(FIELDS)
    rng.shuffle(f)
    return [{"op": k} for k in f[:rng.randint(1, 6)]]


def text(rng):
    n = rng.choice([0, 1, 2, rng.randint(3, 30), rng.randint(30, 300)])
    pool = rng.choice([[97, 98, 32, 65, 122], [0xE9, 0xF1, 97, 0xFF, 0xA1], [0x416, 0x3B1, 0x20AC, 97], [0x4E2D, 0x6587, 0xFFFD, 0x800, 0xFFEE],
                       [0x1F600, 0x10000, 0x10FFFF, 97], None])
    s = []
    for _ in range(n):
        c = rng.choice(pool) if pool else rng.choice([rng.randint(33, 126), rng.randint(0xA1, 0x7FF), rng.randint(0x800, 0xD7FF), rng.randint(0x10000, 0x10FFFF)])
        s.append(c)
    return [c for c in s if c != 0xAD] if not s else [83] + s + [69]  # no white space at the ends


def tag(rng, p, i=0):
    r = {"op": "tag", "p": p, "raw": rng.randint(0, 1)}
    for k in ["title", "artist", "album", "genre"]:
        r[k] = text(rng)
    r["year"] = rng.choice([0, 1, 1999, 2019, 9999, rng.randint(1000, 9999)])
    r["track"] = rng.choice([0, 1, 7, 99, 100, rng.randint(0, 9999), rng.choice([255, 256, 65535, 65536, 65537, 10 ** 6, 2 ** 31 - 1])])
    return r


def script(rng, length):
    out = []
    kind = {}
    while len(out) < length:
        k = rng.choice(["make", "junk", "remove", "tag", "tag", "tag", "open", "open", "open"])
        p = rng.choice("ab")
        if k == "make":
            out.append({"op": "make", "p": p, "fmt": rng.choice(FMT)})
            kind[p] = 1
        elif k == "junk":
            out.append({"op": "junk", "p": p, "fmt": rng.choice(FMT + ["txt", "dat"]), "n": rng.choice([0, 1, 10, 200, 5000])})
            kind[p] = 0
        elif k == "remove":
            out.append({"op": "remove", "p": p})
            kind[p] = 0
        elif k == "tag":
            if kind.get(p):
                out.append(tag(rng, p))
        else:
            out.append({"op": "open", "p": p, "copy": rng.randint(0, 1)})
            out += reads(rng)
        if rng.random() < .3:
            out += reads(rng)
    return out


def check(c):
    q = c.quick
    inv = ["Meaning", "NoTagNoText", "Encoded", "Ranged"]
    g = c.gen("MetadataModel", "CONSTANTS MaxLen = %d Paths = {\"a\", \"b\"} Texts <- MCTexts Numbers = {0, 1987} Tour = TRUE" % (3 if q else 4), invs=inv + ["Emit"], label="all short histories")
    c.model("MetadataModel", "CONSTANTS MaxLen = %d Paths = {\"a\"} Texts <- MCTexts Numbers = {0, 1987} Tour = FALSE" % (5 if q else 6), inv, label="longer histories of one file")
    exe = harness(c)
    sc = []
    if len(g) > (2500 if q else 20000):
        c.rng.shuffle(g)
        g = g[:2500 if q else 20000]
    for b in g:
        if not b:
            continue
        s = []
        for o in b:
            o = dict(o)
            if "t" in o:
                o.update(o.pop("t"))
                o["raw"] = c.rng.randint(0, 1)
            if o["op"] == "make":
                o["fmt"] = c.rng.choice(FMT)
            if o["op"] == "junk":
                o["fmt"], o["n"] = c.rng.choice(FMT + ["txt"]), c.rng.choice([0, 3, 300])
            s.append(o)
            if o["op"] == "open":
                s += [{"op": f} for f in FIELDS]
        sc.append(vk.script(s))
    # every format with texts of every width
    for f in FMT:
        for k in range(6 if q else 40):
            sc.append(vk.script([{"op": "make", "p": "a", "fmt": f}, dict(tag(c.rng, "a"), raw=k % 2), {"op": "open", "p": "a"}] + [{"op": x} for x in FIELDS]))
    sc += [vk.script(script(c.rng, 40)) for _ in range(100 if q else 1500)]
    c.conform(exe, "MetadataTrace", sc, label="metadata")
    c.assumptions = ["WAV, FLAC, AIFF, Ogg Vorbis and MP3 files; tags written with the local TagLib or by hand (ID3v2.3); texts of printable characters without white space at the ends, genres that do not begin with a digit or bracket; years up to 9999"]
