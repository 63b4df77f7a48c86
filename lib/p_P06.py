"""P06: oscillators."""
import vk

KINDS = ["sine", "square", "sawtooth", "triangular"]


def par(rng, kind):
    if kind == "sine":
        return rng.uniform(0, 6.3)
    return rng.choice([0.0, 1.0, .5, .25, rng.uniform(.05, .95)])


def rnd(rng, length):
    k = rng.choice(KINDS)
    f = rng.choice([1.0, 10.0, 440.0, rng.uniform(1, 3000)])
    out = [{"op": "new", "kind": k, "amp": rng.choice([1.0, 0.0, -2.0, rng.uniform(.1, 50)]), "sr": rng.choice([8.0 * f, 8000.0, rng.uniform(2 * f, 96000)]), "f": f, "p": par(rng, k)}]
    saved = False
    for _ in range(length):
        p = rng.random()
        if p < .4:
            out.append({"op": "tick"})
        elif p < .6:
            out.append({"op": "run", "n": rng.choice([0, 1, 7, 33])})
        elif p < .67:
            out.append({"op": "set_frequency", "v": rng.choice([1.0, 2 * f, rng.uniform(1, 3000)])})
        elif p < .72:
            out.append({"op": "set_sample_rate", "v": rng.uniform(8000, 96000)})
        elif p < .77:
            out.append({"op": "set_amplitude", "v": rng.choice([0.0, 1.0, rng.uniform(-9, 9)])})
        elif p < .80:
            if k == "sine":
                out.append({"op": "set_phase", "v": rng.uniform(-7, 7)})
        elif p < .86:
            if k != "sine" and k != "triangular":
                out.append({"op": "set_par", "v": par(rng, k)})
        elif p < .92:
            out.append({"op": "set_timestamp", "v": rng.choice([0.0, 1.0, rng.uniform(0, 10)])})
        elif p < .96:
            out.append({"op": "reset"})
        else:
            out.append({"op": "restore" if saved and rng.random() < .5 else "save"})
            saved = True
    return out


def quarter(b):
    out = []
    for r in b:
        r = dict(r)
        for k in ("amp", "sr", "f", "v"):
            if k in r:
                r[k] = float(r[k])
        if r["op"] == "new":
            r["p"] = r["p"] / 4
        if r["op"] == "set_par":
            r["v"] = r["v"] / 4
        out.append(r)
    return out


def check(c):
    g = c.gen("OscillatorModel", "CONSTANTS MaxLen = %d Tour = TRUE" % (4 if c.quick else 6), spec="", more="INIT Init\nNEXT Next\n",
              invs=["Amplitude", "Periodic", "Count", "Peaks"], label="short histories at 8 Hz", timeout=850)
    base = c.build("source.cpp")
    exe = vk.Exe(base.argv + ["osc"], base.env, "source-osc")
    sc = [vk.script(quarter(b)) for b in g]
    if len(sc) > 60000:
        sc = c.rng.sample(sc, 60000)
    n = 300 if c.quick else 5000
    sc += [vk.script(rnd(c.rng, 40)) for _ in range(n)]
    c.conform(exe, "OscillatorTrace", sc, label="oscillators", workers=8)
    c.assumptions = ["non-negative times; at a jump of the waveform (within 1e-7 of a period) either side of the jump is accepted; samples within 1e-5 of the amplitude",
                     "width of a sawtooth 0, 1 or in [0.05, 0.95]"]


def probe(c, name):
    base = c.build("source.cpp")
    return vk.Exe(base.argv + ["osc"], base.env, "source-osc"), "OscillatorTrace"
