"""Driver library: builds harnesses from /repo's working tree, runs TLC, replays scripts, validates logs."""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TLA = "/opt/veriftools/tla"
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")


class MachineryError(Exception):
    pass


class Violation(Exception):
    def __init__(self, why, script, index, event=None, model=None, harness=None):
        super().__init__(why)
        self.why, self.script, self.index, self.event, self.model, self.harness = why, script, index, event, model, harness


def sh(cmd, timeout=600, env=None, cwd=None, input=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, input=input)


class Exe:
    """A way to run a script against the implementation."""
    def __init__(self, argv, env=None, name="", cwd=None):
        self.argv, self.env, self.name, self.cwd = argv, env or {}, name, cwd


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.models = []
        self.parts = []
        self.assumptions = []
        self.kinds = {}
        self._cls = None
        self.n = 0

    # ---- building -------------------------------------------------------------------------------------------
    def classes(self):
        if self._cls is None:
            d = os.path.join(self.work, "cls")
            os.makedirs(d)
            r = sh(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d, os.path.join(VERIF, "java", "FReal.java")])
            if r.returncode:
                raise MachineryError("javac: " + r.stderr.decode())
            self._cls = d
        return self._cls

    def build(self, src, libs=(), std="c++17", san=True, defs=(), opt="-O1", extra=(), name=None, asserts=True):
        """Compiles a harness against the headers of /repo's working tree."""
        name = name or os.path.splitext(src)[0]
        out = os.path.join(self.work, name)
        cmd = ["g++", "-std=" + std, opt, "-g0", "-w", "-include", "cstdint", "-I" + REPO + "/include", "-I" + HARN]
        cmd += ["-DUSE_LIBFFTW", "-DUSE_LIBSNDFILE", "-DUSE_LIBSAMPLERATE", "-DUSE_TAGLIB"] + ([] if asserts else ["-DNDEBUG"])
        if san:
            cmd += ["-fsanitize=address,bounds,integer-divide-by-zero,return", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        cmd += ["-D" + d for d in defs] + list(extra) + [os.path.join(HARN, src), "-o", out] + list(libs)
        r = sh(cmd, timeout=600)
        if r.returncode:
            raise MachineryError("harness %s does not compile:\n%s" % (src, r.stderr.decode(errors="replace")[-6000:]))
        return Exe([out], {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=66",
                           "UBSAN_OPTIONS": "exitcode=66:print_stacktrace=0"}, name)

    # ---- TLC ------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=None, extra=(), timeout=800, heap="4g"):
        self.n += 1
        cfgf = os.path.join(self.work, "%s_%d.cfg" % (module, self.n))
        with open(cfgf, "w") as f:
            f.write(cfg)
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC,
               "-cp", self.classes() + ":" + TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
               "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-metadir", meta, "-workers", str(workers or 4),
               "-config", cfgf] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = sh(cmd, timeout=timeout, env=env, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC on %s ran out of %d s" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode(errors="replace")
        m = re.findall(r"(\d+) states generated(?: \(.*?\))?, (\d+) distinct states found", out)
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return {"rc": r.returncode, "out": out, "err": r.stderr.decode(errors="replace"), "generated": gen, "distinct": dis}

    def model(self, module, consts="", invs=(), props=(), spec="Spec", extra=(), more="", workers=4, timeout=800, label=None):
        """Exhaustive check of a specification: any violation here is a defect of the specification."""
        cfg = ("SPECIFICATION %s\n" % spec if spec else "") + "CHECK_DEADLOCK FALSE\n%s\n" % consts
        cfg += "".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % p for p in props) + more
        r = self.tlc(module, cfg, extra=extra, workers=workers, timeout=timeout)
        if r["rc"] != 0:
            raise MachineryError("model %s: %s\n%s" % (module, "\n".join(l for l in r["out"].splitlines() if "GEN [" not in l)[-3000:], r["err"][-500:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": label or module, "constants": " ".join(consts.split()), "distinct_states": r["distinct"],
                            "states_generated": r["generated"], "checked": list(invs) + list(props)})
        return r

    def gen(self, module, consts="", spec="Spec", more="", extra=(), workers=1, timeout=800, invs=(), label=None):
        """Behaviours (lists of operation records) printed by a generating specification."""
        r = self.model(module, consts, invs, (), spec, extra, more, workers, timeout, label)
        out = []
        for line in r["out"].splitlines():
            p = line.find("GEN [")
            if p >= 0:
                s = line[p + 4:].rstrip()
                if s.endswith('"'):
                    s = s[:-1]
                if '\\"' in s:
                    s = s.replace('\\"', '"')
                out.append(json.loads(s))
        if not out:
            raise MachineryError("%s printed no behaviour" % module)
        return out

    # ---- running and validating -----------------------------------------------------------------------------
    def run(self, exe, lines, timeout=300, tag="log"):
        """Runs a script; returns the events.  A crash or hang is a violation at the operation in progress."""
        log = os.path.join(self.work, "%s_%s.ndjson" % (exe.name, tag))
        if os.path.exists(log):
            os.unlink(log)
        data = ("\n".join(lines) + "\n").encode()
        env = dict(exe.env)
        env["VH_LOG"] = log
        how = None
        try:
            r = sh(exe.argv, timeout=timeout, env=env, input=data, cwd=exe.cwd or self.work)
            rc = r.returncode
            err = r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err, how = None, "", "no answer within %d s" % timeout
        done = 0
        if os.path.exists(log):
            with open(log, "rb") as f:
                done = sum(1 for _ in f)
        ops = [l for l in lines if l and not l.startswith("#")]
        if rc == 0 and done == len(ops):
            return log, done
        if rc == 97:
            raise MachineryError("harness: " + err[-2000:])
        if how is None:
            how = "the process ended with status %s: %s" % (rc, summary(err))
        if done >= len(ops):
            raise Violation("crash after the last operation (" + how + ")", ops, len(ops) - 1, harness=exe.name)
        raise Violation("crash: " + how, ops, done, harness=exe.name)

    def validate(self, module, cfg, log, n, lines, workers=4, timeout=800, exe=None, heap="6g", depth=0):
        r = self.tlc(module, cfg, env={"TRACE": log}, workers=workers, timeout=timeout, heap=heap)
        out = r["out"]
        if r["rc"] == 0:
            if r["distinct"] != n:
                raise MachineryError("%s: %d events, but %d states" % (module, n, r["distinct"]))
            self.traces_states = r["distinct"]
            self.states += r["distinct"]
            self.transitions += r["generated"]
            return None
        if "Invariant Conforms is violated" in out:
            tail = out[out.index("Invariant Conforms is violated"):]
            idx = [int(x) for x in re.findall(r"^/\\ i = (\d+)", tail, re.M)]
            if not idx:
                idx = [int(x) for x in re.findall(r"\bi = (\d+)", tail)]
            if not idx:
                raise MachineryError("cannot read TLC's trace:\n" + tail[:3000])
            k = idx[-1]
            with open(log) as f:
                ev = f.readlines()[k - 1].strip()
            st = re.findall(r"^/\\ st = (.*?)(?=^/\\ |^\s*$|\Z)", tail, re.M | re.S)
            raise Violation("the recorded event is not a behaviour of specification " + module, lines, k - 1, ev,
                            (st[-2] if len(st) > 1 else (st[-1] if st else "")).strip()[:2000], exe.name if exe else None)
        # An evaluation error of TLC: a recorded event does not even have the shape the specification gives it.  Find it.
        if depth == 0:
            bad = self._bisect(module, cfg, log, workers)
            if bad is not None:
                with open(log) as f:
                    ev = f.readlines()[bad].strip()
                raise Violation("the recorded event has no meaning in specification " + module, lines, bad, ev, None,
                                exe.name if exe else None)
        raise MachineryError("TLC on %s: exit %d\n%s\n%s" % (module, r["rc"], out[-4000:], r["err"][-500:]))

    def _bisect(self, module, cfg, log, workers):
        """The index of the first event on which TLC itself fails, or None."""
        with open(log) as f:
            evs = f.readlines()
        starts = [k for k, e in enumerate(evs) if '"first":true' in e] + [len(evs)]
        tmp = log + ".part"

        def fails(a, b):
            with open(tmp, "w") as f:
                f.writelines(evs[a:b])
            return self.tlc(module, cfg, env={"TRACE": tmp}, workers=workers)["rc"] != 0
        lo, hi = 0, len(starts) - 1
        if not fails(0, len(evs)):
            return None
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if fails(starts[lo], starts[mid]):
                hi = mid
            else:
                lo = mid
        a, b = starts[lo], starts[hi]
        lo, hi = a, b                       # events a..hi fail, a..lo do not
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if fails(a, mid):
                hi = mid
            else:
                lo = mid
        return hi - 1

    def conform(self, exe, module, scripts, cfg=None, label="", invariant="Conforms", workers=4, chunk=60000, eval_op=None,
                start_op=None, timeout=300):
        """Replays scripts (lists of lines) on exe and validates the log against module.  Confirms before reporting."""
        ev = eval_op or module.replace("Trace", "Eval")
        stt = start_op or module.replace("Trace", "Start")
        cfg = cfg or "INIT TCInit\nNEXT TCNext\nCHECK_DEADLOCK FALSE\nINVARIANT %s\nCONSTANT Eval <- %s\nCONSTANT Start <- %s\n" % (invariant, ev, stt)
        batch, total = [], 0
        batches = []
        for s in scripts:
            batch.append(s)
            total += len(s)
            if total >= chunk:
                batches.append(batch)
                batch, total = [], 0
        if batch:
            batches.append(batch)
        for bi, b in enumerate(batches):
            lines = []
            for s in b:
                lines.append("* " + s[0])
                lines.extend(s[1:])
            try:
                log, n = self.run(exe, lines, tag="%s%d" % (label, bi), timeout=timeout)
                self.validate(module, cfg, log, n, lines, workers=workers, exe=exe)
                os.unlink(log)
            except Violation as v:
                self._confirm(exe, module, cfg, v, timeout)
                raise v
            self.traces += len(b)
            self.events += n
            for s in b:
                for l in s:
                    k = l.split(" ", 1)[0]
                    self.kinds[k] = self.kinds.get(k, 0) + 1
        if scripts:
            self.samples.append({"harness": exe.name, "behaviour": scripts[self.rng.randrange(len(scripts))][:12]})
        self.parts.append({"part": label, "harness": exe.name, "specification": module, "behaviours": len(scripts),
                           "events": sum(len(s) for s in scripts)})

    def segment(self, lines, index):
        a = index
        while a > 0 and not lines[a].startswith("* "):
            a -= 1
        return lines[a:index + 1]

    def _confirm(self, exe, module, cfg, v, timeout):
        """Runs the failing behaviour alone; if it passes alone, the whole script is run once more."""
        seg = self.segment(v.script, v.index)
        v.segment = seg
        try:
            log, n = self.run(exe, seg, tag="confirm", timeout=timeout)
            self.validate(module, cfg, log, n, seg, exe=exe)
        except Violation as w:
            v.confirmed = "alone"
            if w.event:
                v.event, v.model = w.event, w.model
            return
        try:
            log, n = self.run(exe, v.script, tag="confirm", timeout=timeout)
            self.validate(module, cfg, log, n, v.script, exe=exe)
        except Violation:
            v.confirmed = "with the preceding behaviours"
            v.segment = v.script[:v.index + 1]
            return
        raise MachineryError("a rejection could not be reproduced: %s at %r" % (v.why, v.script[v.index]))

    # ---- reporting ------------------------------------------------------------------------------------------
    def evidence(self, violations, level):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:12], "models": self.models, "conformance": self.parts,
               "operations": self.kinds}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def summary(err):
    for l in err.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l or "terminate called" in l:
            return l.strip()[:300]
    return err.strip()[-300:]


def line(rec):
    """One operation record as a script line."""
    def val(x):
        if isinstance(x, bool):
            return "true" if x else "false"
        if isinstance(x, (list, tuple)):
            return "[" + ",".join(val(y) for y in x) + "]"
        if isinstance(x, float):
            return real(x)
        return str(x)
    return " ".join([rec["op"]] + ["%s=%s" % (k, val(v)) for k, v in rec.items() if k != "op"])


def real(x):
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    s = repr(float(x))
    return s if "." in s or "e" in s else s + ".0"


def script(recs):
    return [line(r) for r in recs]


def prefixes_removed(behaviours):
    """Drops behaviours which are a proper prefix of another one."""
    keys = {}
    for b in behaviours:
        keys[json.dumps(b)[:-1]] = b
    out = []
    ks = sorted(keys)
    for a, k in enumerate(ks):
        if a + 1 < len(ks) and ks[a + 1].startswith(k + ","):
            continue
        out.append(keys[k])
    return out
