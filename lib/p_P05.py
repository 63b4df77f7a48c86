"""P05: filter designers."""
import vk


def rnd(rng):
    by = rng.choice(["rbj", "zolzer", "butterworth", "butterworth", "cheb1", "cheb1", "cheb2", "cheb2"])
    fs = rng.choice([1.0, 8000.0, 44100.0, 48000.0, rng.uniform(10, 1e5)])
    fc = fs * rng.uniform(.03, .46)
    r = {"op": "design", "by": by}
    if by in ("rbj", "zolzer"):
        r.update(type=rng.choice(["lp", "hp", "bp", "ls", "hs"] + (["ap"] if by == "rbj" else [])), fs=fs, fc=fc, q=rng.choice([.5, .7071, 1.0, 2.0, 10.0, rng.uniform(.1, 20)]))
        if rng.random() < .8:
            r["gain"] = rng.choice([0.0, 6.0, -6.0, rng.uniform(-24, 24)])
        return r
    t = rng.choice(["lp", "hp", "bp", "bs", "ls", "hs", "bsh"])
    band = t in ("bp", "bs", "bsh")
    n = rng.randint(1, 8)
    r.update(type=t, n=n, fs=fs, fc=fc)
    if band:
        r["bw"] = fs * rng.uniform(.3, .95) * min(2 * fc / fs, 1 - 2 * fc / fs)
    if t in ("ls", "hs", "bsh"):
        r["gain"] = rng.choice([-1, 1]) * rng.uniform(3, 18)
    if by != "butterworth":
        r["ripple"] = rng.uniform(20, 60) if by == "cheb2" and "gain" not in r else rng.uniform(.2, 2)
    return r


def floats(r):
    return {k: float(v) if k in ("fs", "fc", "bw", "gain", "ripple", "q") else v for k, v in r.items()}


def clean(r):
    r = floats(r)
    if r["by"] in ("rbj", "zolzer"):
        return r
    if r["type"] not in ("bp", "bs", "bsh"):
        r.pop("bw")
    if r["type"] not in ("ls", "hs", "bsh"):
        r.pop("gain")
    if r["by"] == "butterworth":
        r.pop("ripple")
    return r


def freqs(rng):
    b = [rng.gauss(0, 1) for _ in range(rng.randint(1, 6))]
    a = [1.0] + [rng.uniform(-.9, .9) / 6 for _ in range(rng.randint(0, 5))]
    return {"op": "freq", "b": b, "a": a, "k": rng.choice([1, 2, 3, 8, 17])}


def check(c):
    if c.quick:
        consts = "CONSTANTS Orders = {1,2,3,4,5,6,7,8} Corners = {50, 210} Widths = {40, 90} Gains = {4, 16} Ripples = {1, 40} Qs = {1, 4} Tour = TRUE"
    else:
        consts = "CONSTANTS Orders = {1,2,3,4,5,6,7,8} Corners = {30, 60, 110, 190, 250, 333, 420, 470} Widths = {40, 90, 20} Gains = {4, 16, 7, 22} Ripples = {1, 3, 20, 40, 60} Qs = {1, 2, 8} Tour = TRUE"
    g = c.gen("DesignModel", consts, spec="", more="INIT Init\nNEXT Next\n", invs=["Shape", "Emit"], label="grid of designs")
    exe = c.build("design.cpp", extra=["-O0"])
    sc = [vk.script([clean(r) for r in b]) for b in g]
    n = 250 if c.quick else 6000
    sc += [vk.script([rnd(c.rng)]) for _ in range(n)] + [vk.script([freqs(c.rng)]) for _ in range(n // 5)]
    c.conform(exe, "DesignTrace", sc, label="design", workers=8)
    c.assumptions = ["orders 1..8, corner between 0.03 and 0.47 of the sampling frequency; power compared at 28-30 frequencies within 1e-4 relative plus 1e-8",
                     "the response between those frequencies is fixed by them: the number of stages is checked and a rational function of that degree is determined by more points than twice its order for orders up to 6 or so"]


def probe(c, name):
    return c.build("design.cpp", extra=["-O0"]), "DesignTrace"
