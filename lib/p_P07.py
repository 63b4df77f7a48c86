"""P07: ADSR and AR envelopes."""
import vk


def adsr(rng, length):
    out = [{"op": "adsr"}]
    conf = ["set_attack_rate", "set_decay_rate", "set_release_rate", "set_attack_time", "set_decay_time", "set_release_time", "set_sustain_level",
            "set_attack_target", "set_target", "set_sample_rate"]

    def setting(k):
        if k.endswith("_rate") and k != "set_sample_rate":
            return rng.choice([.01, .1, .25, rng.uniform(.005, .5)])
        if k.endswith("time"):
            return rng.choice([1e-4, 5e-4, rng.uniform(5e-5, 2e-3)])
        if k == "set_sustain_level":
            return rng.choice([0.0, .5, .25, 1.0, rng.uniform(0, 1.2)])
        if k == "set_sample_rate":
            return rng.choice([8000.0, 44100.0, 22050.0])
        return rng.choice([0.0, 1.0, .5, rng.uniform(0, 1.5)])
    for k in rng.sample(conf, rng.randint(0, 5)):
        if k != "set_target":
            out.append({"op": k, "v": setting(k)})
    for _ in range(length):
        p = rng.random()
        if p < .15:
            out.append({"op": "key_on"})
        elif p < .27:
            out.append({"op": "key_off"})
        elif p < .37:
            k = rng.choice(conf)
            out.append({"op": k, "v": setting(k)})
        elif p < .6:
            out.append({"op": "tick", "x": rng.choice([1.0, 1.0, rng.uniform(-2, 2)])})
        else:
            out.append({"op": "apply", "x": [rng.choice([1.0, 2.0, -1.0]) for _ in range(rng.choice([0, 1, 5, 30, 80]))], "inplace": rng.randint(0, 1)})
    return out


def ar(rng, length):
    out = [{"op": "ar", "sr": rng.choice([8000.0, 44100.0]), "attack": rng.choice([0.0, 1.0, rng.uniform(.1, 20)]), "release": rng.choice([0.0, 5.0, rng.uniform(.1, 200)])}]
    if rng.random() < .7:
        out[0]["rect"] = rng.randint(0, 1)
    for _ in range(length):
        p = rng.random()
        if p < .3:
            out.append({"op": "tick", "x": rng.gauss(0, 1)})
        elif p < .65:
            out.append({"op": "apply", "x": [rng.choice([rng.gauss(0, 1), 0.0, 1.0]) for _ in range(rng.choice([0, 1, 5, 40]))], "inplace": rng.randint(0, 1)})
        elif p < .74:
            out.append({"op": "set_attack_time", "v": rng.choice([0.0, rng.uniform(.1, 20)])})
        elif p < .83:
            out.append({"op": "set_release_time", "v": rng.choice([0.0, rng.uniform(.1, 200)])})
        elif p < .88:
            out.append({"op": "set_sample_rate", "v": rng.choice([8000.0, 48000.0])})
        elif p < .95:
            out.append({"op": "set_rectification", "v": rng.randint(0, 1)})
        else:
            out.append({"op": "reset"})
    return out


def check(c):
    inv, prop = ["InRange", "Settled", "Silent"], ["Order", "Ends"]
    for s, a, d, r in ((2, 1, 1, 1), (4, 3, 2, 3), (0, 2, 1, 2), (9, 2, 2, 4)) if c.quick else [(s, a, d, r) for s in (0, 1, 3, 6, 9) for a in (1, 2, 5) for d in (1, 3) for r in (1, 4)]:
        c.model("EnvelopeModel", "CONSTANTS Peak = 6 Attack = %d Decay = %d Release = %d Sustain = %d MaxLen = 1 Tour = FALSE" % (a, d, r, s), inv, prop,
                label="ADSR on integer levels")
    g = c.gen("EnvelopeModel", "CONSTANTS Peak = 4 Attack = 2 Decay = 1 Release = 1 Sustain = 2 MaxLen = %d Tour = TRUE" % (7 if c.quick else 9), invs=inv, label="all short histories")
    base = c.build("source.cpp")
    exe = vk.Exe(base.argv + ["env"], base.env, "source-env")
    sc = []
    for b in g:
        b = [dict(r, x=1.0) if r["op"] == "tick" else r for r in b]
        pre = [{"op": "adsr"}, {"op": "set_attack_rate", "v": .5}, {"op": "set_decay_rate", "v": .25}, {"op": "set_release_rate", "v": .25}]
        if c.rng.random() < .3:
            pre.append({"op": "set_release_time", "v": 4 / 44100.0})
        sc.append(vk.script(pre + b))
    n = 250 if c.quick else 4000
    sc += [vk.script(adsr(c.rng, 40)) for _ in range(n)] + [vk.script(ar(c.rng, 40)) for _ in range(n)]
    c.conform(exe, "EnvelopeTrace", sc, label="envelopes", workers=8)
    c.assumptions = ["rates, times and levels as their documentation requires (non-negative, times positive); when a level meets a boundary within rounding, both successors are accepted",
                     "the follower's times are milliseconds, as documented; values within 1e-7"]


def probe(c, name):
    base = c.build("source.cpp")
    return vk.Exe(base.argv + ["env"], base.env, "source-env"), "EnvelopeTrace"
