"""P09: convolution, correlation, Hartley, Hilbert, spectrum, cepstrum."""
import vk, spectral
from p_P08 import LIBS, probe

OPS = ["conv", "conv", "xcorr", "xcorr", "autocorr", "hartley", "hilbert", "spectrum", "cepstrum"]


def check(c):
    q = c.quick
    g = c.gen("SpectralModel", "CONSTANTS MaxN = %d Values = {0, 1, 3} Tour = TRUE" % (5 if q else 7), spec="", more="INIT Init\nNEXT Next\n",
              invs=["HartleyTwice", "Convolution", "Correlation", "Analytic", "Emit"], label="convolution, correlation and analytic signal on small vectors")
    exe = c.build("spectral.cpp", libs=LIBS)
    sc = []
    for v in g:
        v = [float(a) for a in v]
        w = v[:]
        c.rng.shuffle(w)
        s = c.rng.choice(["none", "biased", "unbiased"])
        sc.append(vk.script([{"op": "conv", "x": v, "g": w, "inplace": 0}, {"op": "xcorr", "x": v, "g": w, "scale": s}, {"op": "autocorr", "x": v, "scale": s, "inplace": 1},
                             {"op": "hartley", "x": v}, {"op": "hilbert", "x": v}, {"op": "spectrum", "x": v}]))
    sc += [vk.script([spectral.rnd(c.rng, OPS, True)]) for _ in range(500 if q else 9000)]
    c.conform(exe, "SpectralTrace", sc, label="spectral functions", workers=8)
    c.assumptions = ["lengths 1..256; double within 1e-10 and float within 1e-5 of the natural scale", "cepstrum: signals whose spectrum has no zero; it is the real cepstrum of the signal padded to twice its length"]
