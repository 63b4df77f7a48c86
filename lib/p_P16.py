"""P16: windows."""
import vk

NAMES = ["hamming", "hanning", "blackman", "blackman_harris", "blackman_nuttall", "flattop", "boxcar", "rectangular", "bartlett", "triangular", "welch"]


def probe(c, name):
    return c.build("windows.cpp"), "WindowsTrace"


def check(c):
    q = c.quick
    g = c.gen("WindowsModel", "CONSTANTS MaxN = %d Tour = TRUE" % (40 if q else 130), spec="", more="INIT Init\nNEXT Next\n",
              invs=["Symmetric", "Range", "Ends", "Centre", "Rising", "Overlap", "Emit"], label="every window of every length")
    exe = c.build("windows.cpp")
    sc = [vk.script([{"op": "window", "w": w, "n": n}, {"op": "window", "w": w, "n": n, "t": "f"}, {"op": "window", "w": w, "n": n, "c": 1}]) for w, n in g]
    for w in NAMES:
        for _ in range(8 if q else 40):
            sc.append(vk.script([{"op": "window", "w": w, "n": c.rng.randint(41, 1200 if q else 4000), "t": c.rng.choice(["d", "d", "f"]), "c": c.rng.randint(0, 1)}]))
    c.conform(exe, "WindowsTrace", sc, label="windows", workers=8)
    c.assumptions = ["lengths from 1; float within 2e-5"]
