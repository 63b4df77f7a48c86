#!/usr/bin/env python3
"""Mutation testing of the checks: small syntactic changes to the library, each judged by the checks of the properties anchored in the file.
usage: mutate.py OUT.jsonl WORKERS PER_FILE SEED [file-substring ...]     works on copies below /tmp/mut; survivors are for a human to judge."""
import json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
OPS = [(r"(?<=\s)<(?=\s)", "<="), (r"<=", "<"), (r"(?<=\s)>(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s)", "/"), (r"(?<=\s)/(?=\s)", "*"), (r"\+=", "-="), (r"-=", "+="), (r"(?<=\s)&&", "||"), (r"\|\|", "&&"),
       (r"(?<![\w.])(\d+)(?![\w.]|\.\d)", lambda m: str(int(m[1]) + 1)), (r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m[1]) - 1)), (r"(?<![\w])(\d*\.\d+)", lambda m: m[1] + "1" if float(m[1]) else "0.1"),
       (r"std::max\b", "std::min"), (r"std::min\b", "std::max"), (r"\bcos\(", "sin("), (r"\bsin\(", "cos("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[( ])!(?=\w)", ""),
       (r"\.first\b", ".second"), (r"\bcbegin\b", "cend"), (r"std::abs\(", "("), (r"std::floor\(", "std::ceil("), (r"\(N - 1\)", "N"), (r"\bif \((.*)\) \{", r"if (!(\1)) {"), (r"\? ([^:?]+) : ([^;]+);", r"? \2 : \1;")]


def mutants(path):
    s = open(path).read()
    blank = lambda m: re.sub(r"[^\n]", " ", m[0])
    code = re.sub(r"/\*.*?\*/", blank, s, flags=re.S)
    code = re.sub(r"//[^\n]*", blank, code)
    out, pos = [], 0
    for l in code.split("\n"):
        raw = s[pos:pos + len(l)]
        t = l.strip()
        if t and not t.startswith(("#", "using", "template", "namespace", "typedef", "class ", "struct ", "explicit", "friend")) and "static_assert" not in t:
            for pat, to in OPS:
                for m in re.finditer(pat, l):
                    if re.search(r"operator\W*$", l[:m.start()]) or l[:m.start()].count('"') % 2:
                        continue
                    new = l[:m.start()] + m.expand(to) if isinstance(to, str) and "\\" in to else l[:m.start()] + (to(m) if callable(to) else to)
                    out.append((pos, raw, new + l[m.end():]))
            if re.match(r"^[\w.\->()\[\]*+]+(\s*[-+*/]?=|\(|\+\+|--).*;$", t) and not t.startswith("return"):
                out.append((pos, raw, " " * (len(l) - len(l.lstrip())) + ";"))                   # statement removed
            if re.match(r"^return .*;$", t) and "(" not in t:
                pass
        pos += len(l) + 1
    return s, [m for m in out if m[1] != m[2]]


def main():
    outf, workers, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    want = sys.argv[5:]
    anchors = {}
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        if p["id"] == "P27":
            continue
        for f in p["anchors"]["files"]:
            anchors.setdefault(f, []).append(p["id"])
    rng = random.Random(seed)
    jobs = []
    for f, ps in sorted(anchors.items()):
        if want and not any(w in f for w in want) or not os.path.isfile(R + "/" + f) or "termcolor" in f or "thirdparty" in f and not want:
            continue
        s, ms = mutants(R + "/" + f)
        k = min(len(ms), per)
        for pos, old, new in rng.sample(ms, k):
            jobs.append((f, ps, pos, old, new))
    rng.shuffle(jobs)
    print(len(jobs), "mutants of", len(anchors), "files", flush=True)
    lock = threading.Lock()

    def work(k):
        d = "/tmp/mut/w%d" % k
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        subprocess.run("cp -a %s %s/repo && mkdir %s/verif && cp -a %s/run.py %s/lib %s/spec %s/harness %s/java %s/known-findings.txt %s/MANIFEST.json %s/properties.jsonl %s/verif/; mkdir -p %s/verif/.build %s/verif/evidence; cp -a %s/.build/*.jar %s/.build/classes %s/verif/.build/ 2>/dev/null" % (R, d, d, V, V, V, V, V, V, V, V, d, d, d, V, V, d), shell=True)
        p = d + "/verif/lib/vk.py"
        t = re.sub(r'(?m)^REPO = .*', 'REPO = "%s/repo"' % d, open(p).read())
        t = t.replace("    def model(", "    def skip(self, *a, **k):\n        return {}\n\n    def model(", 1)     # the models do not depend on the code
        open(p, "w").write(t)
        subprocess.run("sed -i 's/c\\.model(/c.skip(/' %s/verif/lib/p_P*.py" % d, shell=True)
        subprocess.run("cd %s/verif && python3 run.py setup" % d, shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        while True:
            with lock:
                if not jobs:
                    return
                f, ps, pos, old, new = jobs.pop()
            path = d + "/repo/" + f
            s = open(path).read()
            assert s[pos:pos + len(old)] == old
            open(path, "w").write(s[:pos] + new + s[pos + len(old):])
            res = {"file": f, "line": s.count("\n", 0, pos) + 1, "old": old.strip(), "new": new.strip(), "by": {}}
            t0 = time.time()
            for prop in ps:
                try:
                    r = subprocess.run(["timeout", "-k", "5", "400", "python3", "run.py", "check", prop, "--tier", "quick"], cwd=d + "/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    rc, o = r.returncode, r.stdout
                except Exception as e:
                    rc, o = 99, str(e)
                res["by"][prop] = rc
                if rc not in (0, 1):
                    res["note"] = o[-300:]
                if rc != 0:
                    break
            res["t"] = round(time.time() - t0)
            open(path, "w").write(s)
            with lock:
                with open(outf, "a") as g:
                    g.write(json.dumps(res) + "\n")

    th = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in th]
    [t.join() for t in th]


main()
