"""P17: audio files through encoder and decoder."""
import os
import vk
from arrays import f32

TYPES = ["f", "d", "i16", "i32"]
CAN = {"f": ["f", "d"], "d": ["f", "d"], "i16": TYPES, "i32": TYPES}


def harness(c):
    base = c.build("audio.cpp", libs=["-lsndfile"], extra=["-include", "sys/stat.h"])
    d = os.path.join(c.work, "files")
    os.makedirs(d, exist_ok=True)
    return vk.Exe(base.argv, dict(base.env, VH_DIR=d), "audio")


def probe(c, name):
    return harness(c), "AudioTrace"


def samples(rng, t, n):
    if t == "i16":
        return [rng.choice([rng.randint(-32768, 32767), 0, 1, -1, 32767, -32768]) for _ in range(n)]
    if t == "i32":
        return [rng.choice([rng.randint(-2 ** 31, 2 ** 31 - 1), 0, 1, -1, 65535, -65536]) for _ in range(n)]
    x = [rng.uniform(-1, 1) for _ in range(n)]
    return f32(x) if t == "f" else x


def random_script(rng, length):
    out = []
    files = {}
    enc = dec = None
    big = rng.random() < .15

    def finish():
        if enc and enc["p"]:
            files[enc["p"]] = (enc["t"], enc["n"] // enc["ch"], enc["ch"])
            enc["p"], enc["n"] = "", 0
    while len(out) < length:
        k = rng.choice(["encoder", "eopen", "eopen", "eclose", "write", "write", "write", "decoder", "dopen", "dopen", "dclose", "seek", "seek", "read", "read", "read"])
        if k == "encoder" or not enc:
            finish()
            enc = {"t": rng.choice(TYPES), "ch": rng.choice([1, 1, 2, 2, 3, 4]), "p": "", "n": 0}
            out.append({"op": "encoder", "type": enc["t"], "ch": enc["ch"], "rate": rng.choice([8000, 11025, 22050, 44100, 48000, 96000, 1])})
        elif k == "eopen":
            p = rng.choice(["a", "b", "a", "b", "bad"])
            if dec and dec["p"] == p:
                continue
            finish()
            if p != "bad":
                files.pop(p, None)
                enc["p"], enc["n"] = p, 0
            out.append({"op": "eopen", "p": p})
        elif k == "eclose":
            finish()
            out.append({"op": "eclose"})
        elif k == "write":
            n = enc["ch"] * (rng.randint(0, 40) if not big else rng.choice([1, 600, 1024, 1025, 1500]))
            out.append({"op": "write", "x": samples(rng, enc["t"], n), "it": rng.randint(0, 1)})
            if enc["p"]:
                enc["n"] += n
        elif k == "decoder" or not dec:
            dec = {"t": rng.choice(TYPES), "p": "", "pos": 0}
            out.append({"op": "decoder", "type": dec["t"], "block": rng.choice([4, 7, 64, 1024])})
        elif k == "dopen":
            p = rng.choice(list(files) * 4 + ["a", "b", "bad"])
            if enc["p"] == p:
                continue
            if p in files and dec["t"] not in CAN[files[p][0]]:
                out.append({"op": "decoder", "type": rng.choice(CAN[files[p][0]]), "block": rng.choice([4, 7, 64, 1024])})
                dec["t"] = out[-1]["type"]
            dec["p"], dec["pos"] = (p if p in files else ""), 0
            out.append({"op": "dopen", "p": p})
        elif k == "dclose":
            dec["p"] = ""
            out.append({"op": "dclose"})
        elif k == "seek":
            f = files[dec["p"]][1] if dec["p"] else 5
            out.append({"op": "seek", "k": rng.choice([0, f, rng.randint(0, f), rng.randint(0, f), f + 1, -1, f + 100])})
        else:
            out.append({"op": "read", "n": rng.choice([0, 1, 2, 3, 5, 8, 16, 33, 64, 100]) if not big else rng.choice([5, 1024, 1025, 2048, 3001]), "it": rng.randint(0, 1)})
    return out


def check(c):
    q = c.quick
    inv = ["RoundTrip", "Pieces", "Whole", "Exclusive"]
    g = c.gen("AudioModel", "CONSTANTS MaxLen = %d Tour = TRUE" % (7 if q else 8), invs=inv, label="all short histories")
    c.model("AudioModel", "CONSTANTS MaxLen = %d Tour = FALSE" % (8 if q else 9), inv, label="encoder and decoder over two files")
    exe = harness(c)
    if q:
        c.rng.shuffle(g)
        g = g[:6000]
    sc = [vk.script(b) for b in g]
    sc += [vk.script(random_script(c.rng, 60)) for _ in range(250 if q else 3000)]
    c.conform(exe, "AudioTrace", sc, label="audio")
    c.assumptions = ["whole frames are written; a file being read is not rewritten; WAV files of the local libsndfile"]
