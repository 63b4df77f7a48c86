# A session with the Python module: reads a script and writes a log like the other harnesses (see common.hpp).
# The module's directory is given by VH_MODULE, a scratch directory for files by VH_DIR.
import ctypes, os, random, struct, sys, json, math
sys.path.insert(0, os.environ["VH_MODULE"])
import numpy as np
import pedsp
import pedsp.algorithm as alg, pedsp.auditory as aud, pedsp.converter as con, pedsp.core as core, pedsp.filter as fil, pedsp.io as pio
import pedsp.oscillator as osc, pedsp.spectral as spe, pedsp.statistics as sta, pedsp.string as text, pedsp.temporal as tem, pedsp.windowing as win

libc = ctypes.CDLL(None)


def real(x):
    x = float(x)
    if x == 0:
        x = 0.0
    lo, hi = struct.unpack("<ii", struct.pack("<d", x))
    return [hi, lo]


def reals(a):
    return [real(x) for x in a]


def looks_real(s):
    if s in ("nan", "inf", "-inf"):
        return True
    t = s.lstrip("-")
    return t[:1].isdigit() and ("." in t or "e" in t)


def parse(s):
    if s.startswith("["):
        toks = [t for t in s[1:-1].split(",") if t]
        if any(looks_real(t) for t in toks):
            return [float(t) for t in toks]
        return [int(t) for t in toks]
    if s.lstrip("-").isdigit():
        return int(s)
    return float(s) if looks_real(s) else s


def echo(v):
    if isinstance(v, float):
        return real(v)
    if isinstance(v, list):
        return [real(x) if isinstance(x, float) else x for x in v]
    if isinstance(v, int) and not -2 ** 31 <= v < 2 ** 31:
        return real(v)
    return v


POISON = 777.25


def layout(kind, values, dtype=np.float64):
    """An array with these elements, laid out in memory in some way."""
    a = np.array(values, dtype=dtype)
    n = len(a)
    if kind == "strided":
        b = np.full(3 * n + 2, POISON, dtype=dtype)
        b[1:1 + 3 * n:3] = a
        return b[1:1 + 3 * n:3]
    if kind == "reversed":
        return a[::-1].copy()[::-1]
    if kind == "column":
        b = np.full((n, 4), POISON, dtype=dtype)
        b[:, 2] = a
        return b[:, 2]
    if kind == "swapped":
        return a.astype(a.dtype.newbyteorder(">"))
    if kind == "unaligned":
        b = np.zeros(n * a.itemsize + 1, dtype=np.uint8)
        v = b[1:].view(dtype)
        v[:] = a
        return v
    if kind == "frozen":
        a.flags.writeable = False
        return a
    if kind in ("i8", "i4", "i2") and dtype == np.float64 and all(float(v).is_integer() and abs(v) < 30000 for v in values):
        return np.array(values).astype(kind)
    if kind == "f4" and dtype == np.float64 and all(float(np.float32(v)) == v or v != v for v in values):
        return np.array(values, dtype=np.float32)
    if kind == "f8" and dtype == np.float32:
        return np.array(values, dtype=np.float64)
    if kind == "c8" and dtype == np.complex128 and all(complex(np.complex64(v)) == v for v in values):
        return np.array(values, dtype=np.complex64)
    return a


class Op:
    def __init__(self, name, first, args):
        self.name, self.first, self.args, self.outs, self.held, self.k = name, first, args, {}, [], 0

    def __getitem__(self, k):
        return self.args[k]

    def get(self, k, d=None):
        return self.args.get(k, d)

    def num(self, k):
        v = self.args[k]
        return v if self.k % 2 else np.float64(v)

    def array(self, k, dtype=np.float64, values=None):
        a = layout(self.get("lay" if k != "y" and k != "g" and k != "f" else "lay2", "plain"), self[k] if values is None else values, dtype)
        d = self.get("dims" if k == "x" else "dims2", 1)
        if d == 0:
            a = np.array(1.5, dtype=a.dtype)
        elif d == 2:
            a = np.vstack([a, a])
        if self.get("imaginary", 0) and k == "x":
            a = a.astype(np.complex128) + 1j
        self.held.append((a, a.copy()))
        return a

    def complexes(self):
        return self.array("x", np.complex128, [complex(a, b) for a, b in zip(self["x"], self["y"])])

    def intact(self, *results):
        for a, b in self.held:
            if not (a.dtype == b.dtype and np.array_equal(a, b, equal_nan=not np.issubdtype(a.dtype, np.integer))):
                return False
            for r in results:
                if isinstance(r, np.ndarray) and np.shares_memory(a, r):
                    return False
        return True

    def out(self, k, v):
        self.outs[k] = v

    def vector(self, y, dtype=np.float64):
        if not (isinstance(y, np.ndarray) and y.ndim == 1 and y.dtype == dtype):
            raise RuntimeError("not a one-dimensional array of %s" % dtype)
        self.out("r", reals(y))
        self.out("intact", self.intact(y))

    def complex_vector(self, y):
        if not (isinstance(y, np.ndarray) and y.ndim == 1 and y.dtype == np.complex128):
            raise RuntimeError("not a one-dimensional array of complex numbers")
        self.out("cre", reals(y.real))
        self.out("cim", reals(y.imag))
        self.out("intact", self.intact(y))

    def number(self, y):
        self.out("ret", real(y))
        self.out("intact", self.intact())


def unknown(op):
    sys.stderr.write("harness: unknown operation %s\n" % op.name)
    sys.exit(97)


SAME = {"floor": alg.floor, "ceil": alg.ceil, "round": alg.round, "fix": alg.trunc, "rectify": alg.abs, "normalize": alg.normalize}


def arrays(op):
    n = op.name
    if n in SAME:
        op.vector(SAME[n](op.array("x")))
    elif n == "clip":
        op.vector(alg.clip(op.array("x"), op.num("lo"), op.num("hi")))
    elif n == "amplify":
        op.vector(alg.scale(op.array("x"), op.num("g")))
    elif n == "amplify_clip":
        op.vector(alg.scale_clip(op.array("x"), op.num("g"), op.num("lo"), op.num("hi")))
    elif n == "concatenate":
        op.vector(alg.concatenate(op.array("x"), op.array("y")))
    elif n == "pad":
        op.vector(alg.pad(op.array("x"), op["n"]))
    elif n == "linspace":
        op.vector(alg.linspace(op.num("a"), op.num("b"), op["n"]))
    elif n == "logspace":
        op.vector(alg.logspace(op.num("a"), op.num("b"), op["n"]))
    elif n == "equal":
        r = alg.equal(op.array("x"), op.array("y"))
        if not isinstance(r, bool):
            raise RuntimeError("not a bool")
        op.out("ret", r)
        op.out("intact", op.intact())
    elif n in ("linear_search", "binary_search", "index_of"):
        op.out("place", int(getattr(alg, n)(op.array("x"), op.num("v"))))
        op.out("intact", op.intact())
    else:
        unknown(op)


STAT = {"mean": sta.mean, "max": sta.max, "min": sta.min, "maxabs": sta.max_abs, "minabs": sta.min_abs, "median": sta.median,
        "variance": sta.variance, "deviation": sta.standard_deviation, "skewness": sta.skewness, "kurtosis": sta.kurtosis, "norm": sta.norm,
        "harmonic": sta.harmonic_mean, "geometric": sta.geometric_mean}


def statistics(op):
    n = op.name
    if n in STAT:
        op.number(STAT[n](op.array("x")))
    elif n in ("peak", "peakabs"):
        at, v = (sta.peak if n == "peak" else sta.peak_abs)(op.array("x"))
        op.out("at", int(at))
        op.number(v)
    elif n == "power_mean":
        op.number(sta.generalized_mean(op.array("x"), op["b"]))
    elif n == "moment":
        op.number(sta.moment(op.array("x"), op["n"]))
    else:
        unknown(op)


def spectral(op):
    n = op.name
    if n in ("dct", "idct", "hartley", "cepstrum", "spectrum"):
        op.vector(getattr(spe, n)(op.array("x")))
    elif n in ("conv", "xcorr"):
        op.vector(getattr(spe, n)(op.array("x"), op.array("g")))
        op.out("kept", op.outs["intact"])
    elif n == "dft":
        op.complex_vector(spe.rfft(op.array("x")))
    elif n == "hilbert":
        op.complex_vector(spe.hilbert(op.array("x")))
    elif n == "idft":
        op.vector(spe.irfft(op.complexes()))
    elif n == "cdft":
        op.complex_vector(spe.fft(op.complexes()))
    elif n == "cidft":
        op.complex_vector(spe.ifft(op.complexes()))
    else:
        unknown(op)


def windows(op):
    w = op["w"]
    op.vector(getattr(win, "blackman_nutall" if w == "blackman_nuttall" else w)(op["n"]))


def conversions(op):
    n = op.name
    if n in ("mag2db", "pow2db", "db2mag", "db2pow", "deg2rad", "rad2deg"):
        op.number(getattr(con, n)(op.num("v")))
    elif n in ("peak2peak", "peak2rms"):
        op.number(getattr(con, n)(op.array("x")))
    elif n == "real2complex":
        op.complex_vector(con.ri2complex(op.array("x"), op.array("y")) if op.get("y") is not None else con.real2complex(op.array("x")))
    elif n == "complex2real":
        re, im = con.complex2real(op.complexes())
        op.out("re", reals(re))
        op.out("im", reals(im))
        op.out("intact", op.intact(re, im))
    elif n == "scale":
        op.number(getattr(aud, "hertz2" + op["s"])(op.num("v")))
    elif n == "unscale":
        op.number(getattr(aud, op["s"] + "2hertz")(op.num("v")))
    elif n == "space":
        op.vector(getattr(aud, op["s"] + "space")(op.num("lo"), op.num("hi"), op["n"]))
    else:
        unknown(op)


def chars(v):
    return "".join(map(chr, v))


def codes(s):
    return [ord(c) for c in s]


def strings(op):
    n = op.name
    x = chars(op["x"])
    if n in ("trim", "ltrim", "rtrim"):
        op.out("ret", codes(getattr(text, n)(x)))
    elif n in ("lower", "upper"):
        op.out("ret", codes(getattr(text, "to_" + n)(x)))
    elif n == "join":
        parts, at = [], 0
        for k in op["n"]:
            parts.append(x[at:at + k])
            at += k
        op.out("ret", codes(text.join(parts, chr(op["d"]))))
    elif n == "split":
        op.out("ret", [codes(s) for s in text.split(x, chr(op["d"]))])
    else:
        unknown(op)
    op.out("kept", x == chars(op["x"]))


TEMP = {"energy": tem.energy, "power": tem.power, "rms": tem.rms, "rssq": tem.rssq, "leq": tem.leq, "azcr": tem.azcr}


def temporal(op):
    n = op.name
    if n in TEMP:
        op.number(TEMP[n](op.array("x")))
    elif n == "duration":
        op.number(tem.duration(op.array("x"), op.num("sr")))
    elif n == "effective":
        op.number(tem.effective_duration(op.array("x"), op.num("sr"), op.num("thr")))
    elif n in ("amdf", "asdf"):
        op.vector(getattr(tem, n)(op.array("x")))
    else:
        unknown(op)


def features(op):
    n = op.name
    f = getattr(spe, "spectral_" + n[2:]) if n.startswith("s_") else spe.spectral_irregularity if n == "irregularity" else spe.spectral_variation if n == "variation" else getattr(sta, n)
    x = op.array("x")
    if "rolloff" in n:
        op.number(f(x, op.num("p")))
    elif op.get("f") is not None:
        op.number(f(x, op.array("f")))
    elif op.get("y") is not None:
        op.number(f(x, op.array("y")))
    else:
        op.number(f(x))


world = {}
KINDS = {"average": fil.MovingAverageFilter, "median": fil.MovingMedianFilter, "rms": fil.MovingRmsFilter}


def filters(op):
    n = op.name
    if n == "new":
        world[op["s"]] = KINDS[op["kind"]](op["n"])
    f = world[op["s"]]
    if n == "reset":
        f.reset()
    elif n == "resize":
        f.resize(op["n"])
    elif n == "tick":
        op.out("ret", real(f(op.num("x"))))
    elif n == "filter":
        y = f.filter(op.array("x"))
        op.out("ret", reals(y))
        op.out("intact", op.intact(y) and y.dtype == np.float64 and y.ndim == 1)
    elif n != "new":
        unknown(op)
    op.out("size", int(f.size()))


def oscillator(op):
    n = op.name
    if n == "new":
        k = op["kind"]
        a = {"amp": op["amp"], "sr": op["sr"], "f": op["f"]}
        if k == "sine":
            o = osc.Sinusoidal(p=op["p"], **a)
        elif k == "square":
            o = osc.Square(duty=op["p"], **a)
        elif k == "sawtooth":
            o = osc.Sawtooth(width=op["p"], **a)
        else:
            o = osc.Triangular(**a)
        world["osc"] = (k, o)
    k, o = world["osc"]
    if n == "run":
        y = o.generate(N=op["n"]) if op["n"] % 2 else o.generate(op["n"])
        op.out("ret", reals(y))
        op.out("intact", y.dtype == np.float64 and y.ndim == 1)
    elif n == "set_par":
        if k == "square":
            o.set_duty(op.num("v"))
        elif k != "sine":
            o.set_width(op.num("v"))
    elif n.startswith("set_"):
        getattr(o, n)(op.num("v"))
    elif n == "reset":
        o.reset()
    elif n != "new":
        unknown(op)
    for g in ("frequency", "sample_rate", "amplitude", "phase", "timestamp"):
        op.out(g, real(getattr(o, g)()))
    op.out("par", real(o.duty() if k == "square" else 0 if k == "sine" else o.width()))


FILES = os.environ["VH_DIR"]


def path(p):
    return os.path.join(FILES, "missing" if p == "bad" else "", p + ".wav")


def held():
    """How many of the sound files are open in this process."""
    n = 0
    for k in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + k).split(" ")[0] in (path("a"), path("b"))
        except OSError:
            pass
    return n


def audio(op):
    n = op.name
    if n == "encoder":
        world.pop("enc", None)
        world["enc"] = (pio.Encoder(op["rate"], op["ch"]))
    elif n == "eopen":
        op.out("ret", bool(world["enc"].open(path(op["p"]))))
    elif n == "eclose":
        world["enc"].close()
    elif n == "write":
        op.out("ret", int(world["enc"].write(op.array("x", np.float32))))
        if not op.intact():
            raise RuntimeError("the samples were changed")
    elif n == "decoder":
        world["dec"] = pio.Decoder()
    elif n == "dopen":
        op.out("ret", bool(world["dec"].open(path(op["p"]))))
    elif n == "dclose":
        world["dec"].close()
    elif n == "seek":
        op.out("ret", int(world["dec"].seek(op["k"])))
    elif n == "read":
        y = world["dec"].read(op["n"])
        op.out("ret", len(y))
        op.out("r", reals(y))
        op.out("intact", y.dtype == np.float32 and y.ndim == 1)
    else:
        unknown(op)
    e, d = world.get("enc"), world.get("dec")
    op.out("eopened", bool(e and e.is_open()))
    op.out("ech", int(e.channels()) if e else 0)
    op.out("erate", real(e.samplerate()) if e else real(0))
    op.out("dopened", bool(d and d.is_open()))
    op.out("held", held())
    if d:
        op.out("frames", int(d.frames()))
        op.out("dch", int(d.channels()))
        op.out("drate", real(d.samplerate()))
        op.out("seekable", bool(d.seekable()))


Q = {"best": pio.ResampleQuality.BestQuality, "medium": pio.ResampleQuality.MediumQuality, "fastest": pio.ResampleQuality.Fastest,
     "hold": pio.ResampleQuality.ZeroOrderHold, "linear": pio.ResampleQuality.Linear}
CODE = {v: k for k, v in enumerate([Q["best"], Q["medium"], Q["fastest"], Q["hold"], Q["linear"]])}


def frame(i):
    x, tone = world["x"], world["tone"]
    if x:
        return x[min(i, len(x) - 1)]
    return sum(tone[j] * math.sin(tone[j + 1] * i + tone[j + 2]) for j in range(0, len(tone) - 2, 3))


def resampler(op):
    n = op.name
    if n == "new":
        world.update(x=op.get("x") or [], tone=op.get("tone") or [], gain=op["gain"], used=0)
        r = world["rs"] = pio.Resampler(len(op["gain"]), Q[op["q"]], op["ratio"])
        op.out("quality", CODE[r.quality()])
        op.out("r", real(r.ratio()))
    elif n == "valid":
        op.out("ret", bool(pio.Resampler.valid_ratio(op.num("ratio"))))
    elif n == "reset":
        op.out("ret", int(world["rs"].reset()))
        world["used"] = 0
    elif n == "process":
        g, ch = world["gain"], len(world["gain"])
        a = op.array("x", np.float32, [np.float32(k * frame(world["used"] + i)) for i in range(op["n"]) for k in g])
        y, used = world["rs"].process(a)
        op.out("used", int(used))
        op.out("made", len(y) // ch)
        op.out("y", reals(y))
        op.out("intact", op.intact(y) and y.dtype == np.float32 and y.ndim == 1 and len(y) % ch == 0)
        world["used"] += used
    else:
        unknown(op)
    if "rs" in world:
        op.out("err", int(world["rs"].error()))


REASON = {0: "none", 1: "empty", 2: "not_found", 22: "invalid", 12: "no_memory"}


def system(op):
    n = op.name
    if n == "clear":
        libc.clearenv()
    elif n == "set":
        op.out("error", REASON.get(core.set_environment(chars(op["name"]), chars(op["value"])), "unknown"))
    elif n == "get":
        v, e = core.get_environment(chars(op["name"]))
        op.out("found", e == 0)
        op.out("value", codes(v))
        op.out("error", REASON.get(e, "unknown"))
    elif n == "exist":
        op.out("ret", bool(core.exist_environment(chars(op["name"]))))
    elif n == "version":
        op.out("major", core.get_major_version())
        op.out("minor", core.get_minor_version())
        op.out("patch", core.get_patch_version())
        op.out("text", codes(core.get_version()))
        op.out("wmajor", op["wmaj"])
        op.out("wminor", op["wmin"])
        op.out("wpatch", op["wpat"])
        op.out("date", codes(core.get_build_date()))
        op.out("time", codes(core.get_build_time()))
    elif n == "libraries":
        op.out("fft", core.get_fft_library())
        op.out("codec", core.get_codec_library())
        op.out("resample", core.get_resample_library())
        op.out("wfft", "fftw")
        op.out("wcodec", "sndfile")
        op.out("wresample", "samplerate")
    else:
        unknown(op)


def tag_frame(name, s):
    b = b"\x01" + s.encode("utf-16") if s else b""
    return name + struct.pack(">I", len(b)) + b"\0\0" + b if s else b""


def tags(op):
    n = op.name
    f = os.path.join(FILES, "tagged_%s.mp3" % op.get("p", ""))
    if n == "make":
        with open(f, "wb") as h:
            h.write((b"\xff\xfb\x90\x64" + b"\0" * 413) * 8)
        op.out("done", True)
    elif n == "junk":
        with open(f, "wb") as h:
            h.write(b"abc" * op["n"])
        op.out("done", True)
    elif n == "remove":
        if os.path.exists(f):
            os.unlink(f)
    elif n == "tag":
        b = open(f, "rb").read() if os.path.exists(f) else b""
        at = b.find(b"\xff\xfb\x90\x64\0\0")
        if at >= 0:
            t = b"".join(tag_frame(a, chars(op[k])) for a, k in ((b"TIT2", "title"), (b"TPE1", "artist"), (b"TALB", "album"), (b"TCON", "genre")))
            t += b"".join(tag_frame(a, str(op[k]) if op[k] else "") for a, k in ((b"TYER", "year"), (b"TRCK", "track")))
            with open(f, "wb") as h:
                h.write(b"ID3\x03\0\0" + bytes(len(t) >> 7 * k & 127 for k in (3, 2, 1, 0)) + t + b[at:])
        op.out("done", at >= 0)
    elif n == "open":
        b = open(f, "rb").read() if os.path.exists(f) else b""
        world["tags"] = pio.MetaDataReader(f)
        op.out("kept", b == (open(f, "rb").read() if os.path.exists(f) else b""))
    elif n in ("title", "artist", "album", "genre"):
        if "tags" not in world:
            world["tags"] = pio.MetaDataReader("/nowhere")
        op.out("ret", list(getattr(world["tags"], n)().encode()))
    elif n in ("year", "track"):
        if "tags" not in world:
            world["tags"] = pio.MetaDataReader("/nowhere")
        op.out("ret", int(getattr(world["tags"], n)()))
    else:
        unknown(op)


FAMILIES = {"tags": tags, "arrays": arrays, "statistics": statistics, "spectral": spectral, "windows": windows, "conversions": conversions, "text": strings,
            "temporal": temporal, "features": features, "filter": filters, "oscillator": oscillator, "audio": audio, "resampler": resampler, "system": system}


def forget():
    world.clear()
    for p in ("a", "b"):
        for f in (path(p), os.path.join(FILES, "tagged_%s.mp3" % p)):
            if os.path.exists(f):
                os.unlink(f)


def main():
    log = open(os.environ["VH_LOG"], "w") if "VH_LOG" in os.environ else sys.stdout
    k = 0
    for l in sys.stdin:
        t = l.split()
        if not t or t[0].startswith("#"):
            continue
        first = t[0] == "*"
        if first:
            t = t[1:]
            forget()
        op = Op(t[0], first, {a.split("=", 1)[0]: parse(a.split("=", 1)[1]) for a in t[1:]})
        op.k = k
        k += 1
        raised = False
        try:
            FAMILIES[op["fam"]](op)
        except (ValueError, TypeError) as e:        # includes Boost.Python's ArgumentError
            raised = True
            op.outs = {"intact": op.intact(), "why": type(e).__name__}
        except Exception as e:
            op.out("exc", type(e).__name__)
        r = {"op": op.name, "first": first}
        r.update((a, echo(v)) for a, v in op.args.items())
        r.update(op.outs)
        r["raised"] = raised
        log.write(json.dumps(r) + "\n")
        log.flush()
    forget()


main()
