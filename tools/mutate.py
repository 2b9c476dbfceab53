#!/usr/bin/env python3
"""mutate.py N SEED FILE=PROP[,PROP..] ...: development aid (not a check). Plants N random small mutations per header of /repo (relations, signs, operators,
constants, dropped statements, negated conditions) in scratch copies and reports which of them the checks of the properties named do not notice."""
import sys, os, re, random, shutil, subprocess, concurrent.futures as cf, threading, queue, difflib, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); ROOT = "/tmp/mut"; INC = "include/ode_num_int/"
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>=!\-])<(?![<=])(?= )", ["<="]), (r"(?<![\-<>])>(?![>=])(?= )", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\*", ["+"]), (r" / ", [" * "]), (r"\+=", ["=", "-="]), (r"-=", ["+="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["3"]), (r"\bmax\b", ["min"]), (r"\bmin\b", ["max"]), (r"\+\+", ["--"]), (r"!(?=[a-z(])", [""]), (r"-(?=[a-z(])", [""]), (r"\bbegin\(\)", ["begin() + 1"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]), (r"\breturn;", [";"]), (r"\b1\b", ["1."])]
def mutants(path):
    L = open(path).read().split("\n"); out = []; com = False
    for i, l in enumerate(L):
        t = l.strip()
        if com:
            com = "*/" not in t; continue
        if t.startswith("/*"): com = "*/" not in t; continue
        if not t or t.startswith(("//", "#", "template", "typedef", "using", "class", "struct", "namespace", "public", "private", "friend", "CTM_", "ASSERT", "throw")) or "result[\"" in t or "helpOn" in t or "TimingStats" in t or "Timer" in t: continue
        code = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group()), l.split("//")[0])
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if "<" in pat and ("template" in code or "static_cast" in code or "shared_ptr" in code): continue
                for r in reps: out.append((i, l[:m.start()] + r + l[m.end():]))
        if t.endswith(";") and not re.match(r"^(return|auto|const|unsigned|int|bool|real_type|double|V |std::vector|size_type|break|continue|case|virtual|explicit|friend|typename|}|\)|typedef|[A-Za-z_:<>]+ [a-z]\w*( =|;|\())", t) and t.count("(") == t.count(")"): out.append((i, re.match(r"\s*", l).group() + ";"))
        m = re.search(r"\bif\( (.*) \)", code)
        if m and m.group(1).count("(") == m.group(1).count(")"): out.append((i, l[:m.start(1)] + "!( " + l[m.start(1):m.end(1)] + " )" + l[m.end(1):]))
    return L, out
def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2]); jobs = []
    for a in sys.argv[3:]:
        f, ps = a.split("="); rnd = random.Random("%d%s" % (seed, f)); L, ms = mutants("/repo/" + INC + f); rnd.shuffle(ms)
        for i, new in ms[:n]: jobs.append((f, ps.split(","), i, L[i], new))
    random.Random(seed).shuffle(jobs); W = int(os.environ.get("MUT_WORKERS", "3")); q = queue.Queue(); lock = threading.Lock(); log = open("/tmp/mutate.log", "a")
    for k in range(W):
        r = "%s/r%d" % (ROOT, k); shutil.rmtree(r, ignore_errors=True); os.makedirs(r)
        for d in ("include", "src"): shutil.copytree("/repo/" + d, r + "/" + d)
        q.put(k)
    def one(j):
        f, ps, i, old, new = j; k = q.get(); r = "%s/r%d" % (ROOT, k); p = r + "/" + INC + f; src = open("/repo/" + INC + f).read(); t0 = time.time()
        try:
            L = src.split("\n"); L[i] = new; open(p, "w").write("\n".join(L)); res = []
            for c in ps:
                env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD="%s/b%d" % (ROOT, k), VERIF_OUT="%s/o%d" % (ROOT, k), VERIF_JOBS="4", VERIF_FAILFAST="1")
                try: x = subprocess.run([sys.executable, HERE + "/check.py", c, "--no-validate"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, errors="replace"); rc, out = x.returncode, x.stdout
                except subprocess.TimeoutExpired: rc, out = 124, ""
                if rc == 2 and ("error:" in out): res.append(c + ":nocompile"); break
                res.append(c + ":" + {0: "SURVIVED", 1: "killed", 2: "INCONCLUSIVE", 124: "TIMEOUT"}.get(rc, str(rc)) + ("" if rc != 2 else " " + " ".join(re.findall(r"INCONCLUSIVE (.*)", out))[:300]))
                if rc == 1: break
            with lock: log.write("%-60s %s:%d  [%s]\n      - %s\n      + %s   (%.0fs)\n" % ("; ".join(res), f, i + 1, "" , old.strip(), new.strip(), time.time() - t0)); log.flush()
        finally:
            open(p, "w").write(src); q.put(k)
    with cf.ThreadPoolExecutor(W) as ex: list(ex.map(one, jobs))
    log.write("--- campaign done\n"); log.flush()
main()
