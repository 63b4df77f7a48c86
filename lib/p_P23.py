"""P23: the Python module."""
import os
import struct
import subprocess
import vk, spectral, p_P02, p_P06, p_P10, p_P11, p_P12, p_P13, p_P14, p_P15, p_P17, p_P18, p_P21, p_P22, p_P24
from arrays import vec, f32

PY = "/opt/vp/venv/bin/python3"
LIBS = ["-lboost_python312", "-lboost_numpy312", "-lpython3.12", "-lfftw3", "-lfftw3f", "-lsndfile", "-lsamplerate", "-ltag", "-lpthread"]
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,return", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def module(c):
    """Builds the Python module of the working tree, and a Python that runs the driver on it."""
    d = os.path.join(c.work, "module")
    os.makedirs(os.path.join(c.work, "files"), exist_ok=True)
    os.makedirs(d, exist_ok=True)
    b = vk.REPO + "/bindings/"
    src = [os.path.join(b, p, f) for p in ("python/src", "c/src") for f in sorted(os.listdir(os.path.join(b, p))) if f.endswith((".c", ".cpp"))]
    flags = ["-std=c++14", "-fPIC", "-O1", "-g0", "-w", "-include", "cstdint", "-DBOOST_NUMPY_DYN_LINK", "-DBOOST_PYTHON_DYN_LINK", "-DMODULE_NAME=pedsp",
             "-DUSE_LIBFFTW", "-DUSE_LIBSAMPLERATE", "-DUSE_LIBSNDFILE", "-DUSE_TAGLIB", "-DNDEBUG", "-I/usr/include/python3.12",
             "-I" + b + "python/include", "-I" + vk.REPO + "/include", "-I" + b + "c/include"] + SAN
    running, objs = [], []

    def reap(k):
        while len(running) > k:
            f, p = running.pop(0)
            err = p.communicate()[1]
            if p.returncode:
                raise vk.MachineryError("%s does not compile:\n%s" % (f, err.decode(errors="replace")[-4000:]))
    for k, f in enumerate(src):
        o = os.path.join(d, "%d.o" % k)
        objs.append(o)
        reap(7)
        running.append((f, subprocess.Popen(["g++"] + flags + ["-x", "c++", "-c", f, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    reap(0)
    r = vk.sh(["g++", "-shared"] + SAN[:1] + ["-o", os.path.join(d, "pedsp.so")] + objs + LIBS)
    if r.returncode:
        raise vk.MachineryError("the Python module does not link:\n" + r.stderr.decode(errors="replace")[-4000:])
    for o in objs:
        os.unlink(o)
    lib = lambda n: subprocess.check_output(["gcc", "-print-file-name=" + n]).decode().strip()
    env = {"LD_PRELOAD": lib("libasan.so") + " " + lib("libstdc++.so"), "PYTHONMALLOC": "malloc", "VH_MODULE": d, "VH_DIR": os.path.join(c.work, "files"),
           "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66:handle_segv=1", "UBSAN_OPTIONS": "exitcode=66:print_stacktrace=0",
           "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "PYTHONHASHSEED": "0"}
    return vk.Exe([PY, "-W", "error", os.path.join(vk.HARN, "pyapi.py")], env, "pyapi")


def probe(c, name):
    return module(c), "PythonTrace"


LAY = ["plain", "strided", "reversed", "column", "swapped", "unaligned", "frozen", "i8", "i4", "i2", "f4", "c8"]
ARRAYS = {"floor", "ceil", "round", "fix", "rectify", "normalize", "clip", "amplify", "amplify_clip", "concatenate", "pad", "linspace", "logspace", "equal",
          "linear_search", "binary_search", "index_of"}


def functions(rng):
    """Calls of the functions of every family."""
    out = [r for r in p_P22.calls(rng) if not (r["fam"] == "arrays" and r["op"] not in ARRAYS) and r["op"] != "sizes"]
    for _ in range(4):
        r = p_P15.one(rng)
        if r["op"] in ("scale", "unscale", "space"):
            out.append(p_P22.fam("conversions", r))
    for r in p_P11.ops_for(rng, vec(rng), False):
        if r["op"] not in ("loudness", "snr"):
            out.append(p_P22.fam("temporal", r))
    for r in p_P12.ops_for(rng, p_P12.spectrum(rng, rng.choice([2, 3, rng.randint(2, 50)]))):
        if r["op"] == "variation" or r["op"] == "flux" and r["m"] != "euclidean":
            continue
        r.pop("t", None)
        out.append(p_P22.fam("features", r))
    s = [c if c < 128 else c + 900 for c in p_P21.text(rng, 30, 1)] if rng.random() < .5 else p_P21.text(rng, 30, rng.randint(0, 1))
    for r in p_P21.ops_for(rng, s, [32, 44, 10] + [c for c in s[:2] if 0 < c < 128], 0):
        out.append(p_P22.fam("text", r))
    if rng.random() < .2:
        out += p_P22.environment(rng, 4)
    rng.shuffle(out)
    for r in out:
        r.pop("t", None)
        r.pop("c", None)
        if r["fam"] == "system" and r["op"] == "set":
            r["value"] = [rng.choice([rng.randint(1, 255), 0x20AC, 0x1F600]) for _ in r["value"]]
        if "x" in r and r["fam"] != "text":
            r["lay"] = rng.choice(LAY)
            if "y" in r or "g" in r or "f" in r:
                r["lay2"] = rng.choice(LAY)
    return out


def refused(rng, rs):
    """Some of the calls, turned into ones that are refused."""
    out = []
    for r in rs:
        r = dict(r)
        if "x" not in r and "n" in r and r["fam"] in ("windows", "arrays", "conversions"):
            r["n"] = -r["n"] if r["n"] else -1
        elif isinstance(r.get("x"), list) and r["fam"] != "text":
            two = [k for k in ("y", "g", "f") if isinstance(r.get(k), list) and not (r["op"] in ("idft", "cdft", "cidft", "complex2real"))]
            how = rng.choice(["dims", "dims", "imaginary"] + ["size", "dims2", "size"] * bool(two and r["op"] not in ("equal", "concatenate")))
            if how == "imaginary" and r["op"] in ("idft", "cdft", "cidft", "complex2real"):
                how = "dims"
            if how == "size":
                k = two[0]
                r[k] = rng.choice([r[k] + [1.0], r[k][:-1], r[k] * 2 + [0.5], []])
            else:
                r[how] = 1 if how == "imaginary" else rng.choice([0, 2])
        else:
            continue
        out.append(r)
    return out


def unpair(x):
    """A real of the model (two halves) as a number."""
    return struct.unpack("<d", struct.pack("<ii", x[1], x[0]))[0]


def concrete(b):
    out = []
    for r in b:
        r = dict(r)
        for k, v in r.items():
            if k in ("x", "g", "gain") and v and isinstance(v[0], list):
                r[k] = [unpair(a) for a in v]
            elif k in ("x", "v", "amp", "sr", "f", "p", "ratio") and isinstance(v, list) and len(v) == 2 and isinstance(v[0], int):
                r[k] = unpair(v)
        out.append(r)
    return out


def objects(rng, length):
    """Interleaved histories of the objects of a session."""
    streams = []
    for s in ("a", "b"):
        h = [dict(r, s=s) for r in p_P02.random_script(rng, rng.choice(p_P02.KINDS), length) if r["s"] == "a" and r["op"] != "copy"]
        for r in h:
            r.pop("inplace", None)
        streams.append(("filter", h))
    o = [r for r in p_P06.rnd(rng, length) if r["op"] not in ("tick", "save", "restore")]
    streams.append(("oscillator", o))
    w = []
    for r in p_P17.random_script(rng, length):
        r = dict(r)
        r.pop("it", None)
        r.pop("block", None)
        if "type" in r:
            r["type"] = "f"
        if r["op"] == "write":
            r["x"] = f32([rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)]) for _ in r["x"]])
        w.append(r)
    streams.append(("audio", w))
    rs = []
    for r in p_P18.random_script(rng)[:length]:
        r = dict(r)
        r.pop("it", None)
        rs.append(r)
    if not any("x" not in r for r in rs if r["op"] == "new") or rng.random() < .2:
        streams.append(("resampler", rs))
    streams.append(("tags", p_P24.script(rng, length // 2)))
    at = [0] * len(streams)
    out = []
    while any(a < len(h) for a, (_, h) in zip(at, streams)):
        k = rng.choice([k for k in range(len(streams)) if at[k] < len(streams[k][1])])
        for _ in range(rng.choice([1, 1, 3, 8])):
            if at[k] < len(streams[k][1]):
                r = p_P22.fam(streams[k][0], streams[k][1][at[k]])
                at[k] += 1
                if r["op"] in ("filter", "write", "process"):
                    r["lay"] = rng.choice(LAY[:7] + ["f8"])
                    if rng.random() < .04:
                        r["dims"] = rng.choice([0, 2])
                if r["fam"] == "oscillator" and r["op"] == "run" and rng.random() < .05:
                    r["n"] = -3
                out.append(r)
    return out


def check(c):
    q = c.quick
    exe = module(c)
    inv, prop = ["Independent"], ["RefusalIsNothing", "OnlyItsOwn"]
    g = c.gen("PythonModel", "CONSTANTS MaxLen = %d Tour = TRUE" % (3 if q else 4), invs=inv, label="every short session")
    c.model("PythonModel", "CONSTANTS MaxLen = %d Tour = FALSE" % (3 if q else 4), inv, prop, label="objects of a session")
    c.rng.shuffle(g)
    clear = {"fam": "system", "op": "clear"}
    sc = [vk.script([clear] + concrete(b)) for b in g[:2500 if q else 40000]]
    sc += [vk.script([clear] + objects(c.rng, 25 if q else 60)) for _ in range(25 if q else 400)]
    c.conform(exe, "PythonTrace", sc, label="objects", workers=8)
    sc = []
    for _ in range(70 if q else 1500):
        rs = functions(c.rng)
        bad = refused(c.rng, c.rng.sample(rs, min(len(rs), 12)))
        for r in bad:
            rs.insert(c.rng.randint(0, len(rs)), r)
        sc.append(vk.script([clear] + rs))
    v = version()
    sc.append(vk.script([dict({"fam": "system", "op": "version"}, **v), {"fam": "system", "op": "libraries"}]))
    c.conform(exe, "PythonTrace", sc, label="functions", workers=8)
    c.assumptions = ["numpy arrays of real or complex numbers that are finite; texts without surrogates; delimiters that are ASCII characters",
                     "resampling as in P18, files as in P17 (single precision), windows of at least one sample"]


def version():
    """The version the sources state."""
    import re
    t = open(vk.REPO + "/include/edsp/core/internal/config.hpp").read()
    n = lambda k: int(re.search(r"#\s*define\s+E_VERSION_%s\s+(\d+)" % k, t).group(1))
    return {"wmaj": n("MAJOR"), "wmin": n("MINOR"), "wpat": n("PATCH")}
