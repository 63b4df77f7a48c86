#!/usr/bin/env python3
"""run.py check <ID> [--tier quick|thorough]     decide a property on /repo's working tree
   run.py replay <file>                          run one recorded violation again
   run.py setup                                  check the tools and the specifications"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vk

KNOWN = os.path.join(vk.VERIF, "known-findings.txt")


def known(prop):
    """Lines 'finding: property=<id> probe=<name> <what fails>' of the known-findings file."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % prop):
                rest = l.strip().split(" ", 2)[2]
                probe, what = rest.split(" ", 1)
                out.append((probe.split("=", 1)[1], what))
    return out


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vk.Check(prop, tier, seed)
    mod = importlib.import_module("p_" + prop)
    level = getattr(mod, "LEVEL", "model_checking")
    try:
        mod.check(c)
    except vk.Violation as v:
        d = os.path.join(vk.VERIF, ".build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".json")
        seg = getattr(v, "segment", v.script)
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "harness": v.harness, "why": v.why, "script": seg,
                       "event": v.event, "state_before": v.model, "confirmed": getattr(v, "confirmed", None)}, f, indent=1)
        print("%s: %s" % (prop, v.why))
        for l in seg[-6:]:
            print("   ", l[:400])
        if v.event:
            print("  event:", v.event[:1500])
        if v.model:
            print("  state:", v.model[:600])
        c.samples.append({"violating_behaviour": seg[-12:]})
        c.evidence(1, level)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for probe, what in known(prop):
        script = [l.rstrip("\n") for l in open(os.path.join(vk.VERIF, "probes", probe + ".script")) if l.strip()]
        exe, module = mod.probe(c, probe)
        cfg_ops = (module.replace("Trace", "Eval"), module.replace("Trace", "Start"))
        try:
            keep = (c.traces, c.events, list(c.parts), list(c.samples), c.states, c.transitions)
            c.conform(exe, module, [script], label="probe-" + probe)
        except vk.Violation as v:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        finally:
            c.traces, c.events, c.parts, c.samples, c.states, c.transitions = keep
    c.evidence(0, level)
    print("%s: held on %d behaviours (%d events), %d states; %.1f s" % (prop, c.traces, c.events, c.states, vk.time.time() - c.t0))
    return 0


def main():
    if sys.argv[1] == "setup":
        c = vk.Check("setup", "quick", 1)
        c.classes()
        vk.shutil.rmtree(c.work)
        return 0
    if sys.argv[1] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        return check(sys.argv[2], tier)
    if sys.argv[1] == "replay":
        rec = json.load(open(sys.argv[2]))
        c = vk.Check(rec["property"], "quick", rec["seed"])
        c.work += "-replay"
        os.makedirs(c.work, exist_ok=True)
        mod = importlib.import_module("p_" + rec["property"])
        exe, module = mod.probe(c, rec["harness"])
        try:
            s = [l[2:] if i == 0 and l.startswith("* ") else l for i, l in enumerate(rec["script"])]
            parts, cur = [], []
            for l in s:
                if l.startswith("* "):
                    parts.append(cur)
                    cur = []
                    l = l[2:]
                cur.append(l)
            parts.append(cur)
            c.conform(exe, module, parts, label="replay")
        except vk.Violation as v:
            print("rejected: %s\n  %s\n  event: %s\n  state: %s" % (v.why, v.script[v.index], v.event, v.model))
            return 1
        print("accepted")
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vk.MachineryError as e:
        print("ERROR:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
