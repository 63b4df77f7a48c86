# Includes headers the way a user would and asks the compiler.  Reads a script and writes a log like the other harnesses (see common.hpp).
#   unit  cc=g++ std=14 h=edsp/a.hpp,edsp/b.hpp   one more unit of the program, which includes these headers in this order
#   link                                         the program made of the units so far
#   name  cc=g++ std=14 h=edsp/a.hpp n=edsp::f    does a unit that includes h know this name
# Headers named *.h are those of the C library; cc=gcc reads them as C.
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

REPO = os.environ["VH_REPO"]
FLAGS = ["-w", "-DUSE_LIBFFTW", "-DUSE_LIBSNDFILE", "-DUSE_LIBSAMPLERATE", "-DUSE_TAGLIB", "-I" + REPO + "/include", "-I" + REPO + "/bindings/c/include"]
LIBS = ["-lfftw3", "-lfftw3f", "-lsndfile", "-lsamplerate", "-ltag", "-lpthread"]


def compilers(a):
    c = a["cc"] in ("gcc", "clang")
    return [a["cc"], "-std=%s%s" % ("c" if c else "c++", a["std"]), "-x", "c" if c else "c++"] + FLAGS


def text(a, body=""):
    return "".join("#include <%s>\n" % h for h in a["h"].split(",")) + body


def accepted(cmd, source=None):
    r = subprocess.run(cmd, input=source, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    if r.returncode < 0 or r.returncode > 1:
        raise RuntimeError("compiler: " + r.stderr[-200:])
    why = [l for l in r.stderr.splitlines() if "error" in l or "multiple definition" in l or "undefined reference" in l]
    return r.returncode == 0, (why or [""])[0].replace(REPO, "")[:200]


def unit(a):
    return accepted(compilers(a) + ["-fsyntax-only", "-"], text(a))


def name(a):
    use = "namespace used { using ::%s; }\n" % a["n"] if a["cc"] not in ("gcc", "clang") else "void* used(void) { return (void*) &%s; }\n" % a["n"]
    if a["cc"] in ("gcc", "clang") and (a["n"][:1].isupper() or a["n"].endswith("_t")):
        use = "typedef %s used;\n" % a["n"]
    return accepted(compilers(a) + ["-fsyntax-only", "-"], text(a, use))


def link(units):
    d = tempfile.mkdtemp(prefix="edsp-link-")
    try:
        objs = []
        for k, a in enumerate(units):
            o = os.path.join(d, "%d.o" % k)
            ok, why = accepted(compilers(a) + ["-O0", "-c", "-o", o, "-"], text(a, "int main() { return 0; }\n" if k == 0 else ""))
            if not ok:
                return ok, why
            objs.append(o)
        return accepted(["clang++" if "clang" in units[0]["cc"] else "g++", "-o", os.path.join(d, "program")] + objs + LIBS)
    finally:
        shutil.rmtree(d)


def main():
    log = open(os.environ["VH_LOG"], "w") if "VH_LOG" in os.environ else sys.stdout
    ops, program = [], []
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for l in sys.stdin:
            t = l.split()
            if not t or t[0].startswith("#"):
                continue
            first = t[0] == "*"
            if first:
                t = t[1:]
                program = []
            a = dict(x.split("=", 1) for x in t[1:])
            if t[0] == "unit":
                program = program + [a]
                f = pool.submit(unit, a)
            elif t[0] == "link":
                f = pool.submit(link, program)
            else:
                f = pool.submit(name, a)
            ops.append((t[0], first, a, f))
        for op, first, a, f in ops:
            r = {"op": op, "first": first}
            r.update(a)
            if "h" in a:
                r["h"] = a["h"].split(",")
            try:
                r["ok"], r["why"] = f.result()
            except Exception as e:
                r["exc"] = str(e)
            log.write(json.dumps(r) + "\n")
        log.flush()


main()
