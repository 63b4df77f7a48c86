"""P31: objects and calls do not influence each other."""
import os, subprocess
import vk

LIBS = ["-lfftw3", "-lfftw3f", "-lsndfile", "-lsamplerate", "-lpthread", "-ldl"]


def harness(c, name="independent", **kw):
    base = c.build("independent.cpp", libs=LIBS, name=name, **kw)
    d = os.path.join(c.work, "files")
    os.makedirs(d, exist_ok=True)
    return vk.Exe(base.argv, dict(base.env, VH_DIR=d), name)


def threads_harness(c):
    """The same with the race detector, where it runs at all."""
    x = harness(c, "independent_threads", san=False, extra=["-fsanitize=thread"])
    x.env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1"
    try:
        r = subprocess.run(x.argv + ["list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, **x.env))
        if r.returncode == 0:
            return x
    except (OSError, subprocess.TimeoutExpired):
        pass
    return None


def probe(c, name):
    if name == "independent_threads":
        return threads_harness(c) or harness(c), "IndependenceTrace"
    return harness(c), "IndependenceTrace"


def kinds(exe):
    r = subprocess.run(exe.argv + ["list"], stdout=subprocess.PIPE, timeout=60, env=dict(os.environ, **exe.env))
    k = r.stdout.decode().split()
    if len(k) < 50:
        raise vk.MachineryError("no kinds")
    return k


def cast(g, p, q):
    """A behaviour of the model with its two machines played by p and q."""
    who = {"p": p, "q": q}
    out = [{"op": "alone", "kind": k, "f": f} for k, f in sorted({p, q})]
    for e in g:
        if e["op"] == "new":
            k, f = who[e["kind"]]
            e = dict(e, kind=k, f=f)
        out.append(e)
    return out


def useful(g):
    """Two objects at least, and steps of both, the machines taking turns."""
    s = [e["id"] for e in g if e["op"] == "step"]
    return len(set(s)) > 1 or any(e["op"] in ("copy", "drop") for e in g) and s


def check(c):
    q = c.quick
    inv = ["Answers", "States"]
    c.model("IndependenceModel", "CONSTANTS MaxLen = %d Shared = FALSE Overlap = TRUE Tour = FALSE" % (5 if q else 6), inv, label="own working memory, overlapping steps")
    c.model("IndependenceModel", "CONSTANTS MaxLen = %d Shared = TRUE Overlap = FALSE Tour = FALSE" % (5 if q else 6), inv, label="shared working memory, one step at a time")
    g = c.gen("IndependenceModel", "CONSTANTS MaxLen = 6 Shared = FALSE Overlap = FALSE Tour = TRUE", invs=inv, label="histories of three objects")
    g = [b for b in g if useful(b)]
    exe = harness(c)
    ks = kinds(exe)
    sc = []
    fixed = {"resampler", "file", "logger"}          # cannot be copied
    turns = [b for b in g if len([e for e in b if e["op"] == "step"]) >= 3]
    still = [b for b in turns if all(e["op"] != "copy" for e in b)]

    def fit(*k):
        return still if fixed & set(k) else turns
    for k in ks:
        for f, h in [(0, 1), (1, 2), (2, 0), (0, 0), (1, 0)]:
            for b in c.rng.sample(fit(k), 8 if q else 60):
                sc.append(vk.script(cast(b, (k, f), (k, h))))
    for _ in range(3000 if q else 60000):
        p, r = c.rng.sample(ks, 2)
        sc.append(vk.script(cast(c.rng.choice(fit(p, r)), (p, c.rng.randrange(3)), (r, c.rng.randrange(3)))))
    c.conform(exe, "IndependenceTrace", sc, label="side by side", workers=8)

    def crowd(n, pick, rounds):
        m = [(pick(), c.rng.randrange(3)) for _ in range(n)]
        return vk.script([{"op": "alone", "kind": ks[k], "f": f} for k, f in sorted(set(m))] +
                         [{"op": "together", "kinds": [k for k, _ in m], "fs": [f for _, f in m], "rounds": rounds}])

    def same(k):
        return lambda: k

    def anyone():
        return c.rng.randrange(len(ks))
    crowds = [crowd(4, same(k), 6) for k in range(len(ks))] + [crowd(6, anyone, 6) for _ in range(40 if q else 600)]
    c.conform(exe, "IndependenceTrace", crowds, label="threads", workers=8)
    x = threads_harness(c)
    if x is not None:
        c.conform(x, "IndependenceTrace", crowds, label="threads under the race detector", workers=8)
    c.assumptions = ["objects are not shared between threads", "answers compared within 1e-9", "random generators, which are seeded from the clock, are left to P26",
                     "race detection: " + ("on" if x is not None else "not available here")]
