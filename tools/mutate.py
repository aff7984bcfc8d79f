#!/usr/bin/env python3
"""Mutation campaign (development tool, no check uses it): small random edits of
/repo's sources in scratch copies under /tmp/mut, each run against the quick
checks of the properties anchored in that file.  Survivors are listed for a human.
usage: mutate.py OUT.jsonl SEED N [file-substring ...]"""
import json, os, random, re, subprocess, sys, shutil, threading, queue, time
OUT, SEED, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); ONLY = sys.argv[4:]
W = int(os.environ.get("MUT_WORKERS", "7"))
PROPS = [("pcu/reel", ["E02"]), ("pcu/pcu_io", ["E04", "E01", "E02"]), ("pcu/", ["A01", "A02", "A03", "B02", "E04", "H02"]),
    ("agi/agiIO", ["E01", "E02"]), ("agi/agiVTK", ["E03"]), ("agi/agiTag", ["B04", "B02", "H02"]), ("agi/agiWeightMig", ["C03", "H02"]), ("agi/agiMigrationTimers", ["G03"]),
    ("agi/agiMigrat", ["B02", "B03", "B05", "C01", "H02"]), ("agi/agiValid", ["B01", "H02"]), ("agi/", ["B01", "B05", "B06", "B02", "B04", "G02", "E01", "D01", "H01", "H02"]),
    ("partition/Multilevel", ["D01", "D02", "G02", "H02"]), ("partition/Metrics", ["G01", "C02"]), ("partition/Diffusive/src/engpar_weightB", ["C03", "G01", "H01"]),
    ("partition/Diffusive/src/engpar_weightS", ["C03", "H01"]),
    ("partition/Diffusive", ["C01", "C05", "C04", "C02", "C03", "H01", "H02"]), ("partition/engpar", ["D01", "G01", "G02", "H01", "C01", "C04"]),
    ("partition/", ["C01", "D01", "H01"]), ("interfaces/cengpar", ["G02"]), ("interfaces/bin", ["F01"]), ("interfaces/", ["F02"]), ("support/", ["G03", "H01", "G01", "A03", "H02"])]
SKIPF = re.compile(r"kokkos|Coloring|version|stub", re.I)
SKIPL = re.compile(r"EnGPar_Log_Function|sprintf\(message|^\s*(assert|//|\*|/\*|#|throw|delete|template|class|struct|typedef|namespace|using|friend|public|private)|Error_Message|Warning_Message|PCU_Time|[Tt]imer|reserve\(|EnGPar_Status|Debug")
REPL = [(r"(?<![<>=!-])<(?![<=])(?=[^>]*(?:;|\)))", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
    (r"\+1\b", ""), (r"-1\b", ""), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"=\s*0;", "=1;"), (r"=\s*1;", "=0;"), (r"=\s*true;", "=false;"), (r"=\s*false;", "=true;"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=[\w)\]]) ?\+ ?(?=[\w(])", "-"), (r"(?<=[\w)\]]) ?- ?(?=[\w(])", "+"), (r"\*(?=[a-z0-9_]+[;)*])", "+"), (r"\[t\]", "[0]"), (r",\s*t\)", ")"),
    (r"\bif ?\((.*)\)\s*(\{?)\s*$", r"if (!(\1)) \2"), (r"\bif ?\((.*)\)\s*(\{?)\s*$", r"if (true) \2"), (r"\bif ?\((.*)\)\s*(\{?)\s*$", r"if (false) \2"),
    (r"PCU_Max_", "PCU_Min_"), (r"PCU_Min_", "PCU_Max_"), (r"PCU_Add_", "PCU_Max_"), (r"Self\(\)", "Peers()"), (r"\bcontinue;", ";"), (r"\bbreak;", ";"), (r"owner\(", "originalOwner("),
    (r"^(\s*)([\w\[\]>.\-]+(\(.*\)|\s*[-+*]?=.*|\+\+));\s*$", r"\1;")]

if os.environ.get("MUT_RARE"):  # errors that show only the K-th time a place is reached
    REPL = []
    for K in (3, 20, 120):
        nth = "({ static int mk_; ++mk_ == %d; })" % K
        REPL += [(r"\bif ?\((.*)\)\s*(\{?)\s*$", r"if (!!(\1) != %s) \2" % nth), (r"(?<![<>=!-])<(?![<=]) ?([\w()>.\-]+);", r"<\1-%s;" % nth),
                 (r"^(\s*)([\w\[\]>.\-]+(\(.*\)|\s*[-+*]?=.*|\+\+));\s*$", r"\1if (!%s) \2;" % nth)]

if os.environ.get("MUT_TYPE"):  # values kept in too small a type
    REPL = [(r"\b(agi::)?%s\b(?=\*? \w+(\[\w*\])? ?[;=,)(])" % a, b) for a, b in (("double", "float"), ("wgt_t", "float"), ("gid_t", "int"), ("long", "int"), ("int64_t", "int32_t"), ("uint64_t", "uint32_t"),
        ("size_t", "unsigned char"), ("unsigned int", "unsigned char"), ("lid_t", "signed char"), ("int", "signed char"), ("wgt_t", "int"), ("double", "int"))]
if os.environ.get("MUT_COND"):  # errors on one process or in one size of job only
    REPL = []
    for c in ("PCU_Comm_Self()==3", "PCU_Comm_Peers()==7", "PCU_Comm_Self()==PCU_Comm_Peers()-1"):
        REPL += [(r"\bif ?\((.*)\)\s*(\{?)\s*$", r"if (!!(\1) != (%s)) \2" % c), (r"(?<![<>=!-])<(?![<=]) ?([\w()>.\-]+);", r"<\1-(%s);" % c),
                 (r"^(\s*)([\w\[\]>.\-]+(\(.*\)|\s*[-+*]?=.*|\+\+));\s*$", r"\1if (!(%s)) \2;" % c)]

def props(f):
    for k, v in PROPS:
        if f.startswith(k): return v
    return []

def mutants():
    r = []
    for d in ("agi", "pcu", "partition", "interfaces", "support"):
        for base, _, fs in os.walk("/repo/" + d):
            for f in fs:
                p = os.path.relpath(os.path.join(base, f), "/repo")
                if not f.endswith((".cpp", ".c", ".h")) or SKIPF.search(p) or (ONLY and not any(o in p for o in ONLY)): continue
                com = False
                for i, l in enumerate(open("/repo/" + p)):
                    if "/*" in l: com = True
                    c = com
                    if "*/" in l: com = False
                    if c or SKIPL.search(l): continue
                    code = l.split("//")[0]
                    for k, (a, b) in enumerate(REPL):
                        for m in re.finditer(a, code):
                            if code[:m.start()].count('"') % 2: continue
                            n = code[:m.start()] + m.expand(b) + code[m.end():]
                            if n != code: r.append((p, i, l, n.rstrip("\n") + "\n"))
    return r

def work(w, q, out, lock):
    root = "/tmp/mut/w%d" % w
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root + "/v/evidence"); os.makedirs(root + "/v/replays")
    subprocess.run(["cp", "-a", "/repo", root + "/repo"], check=True)
    env = dict(os.environ, SIM_REPO=root + "/repo", SIM_BUILD=root + "/b", SIM_VERIF=root + "/v", SIM_WORKERS="1", SIM_NOPIN="1", VERIF_SEED="3")
    while True:
        try: n, (p, i, old, new) = q.get_nowait()
        except queue.Empty: break
        f = root + "/repo/" + p; src = open(f).read(); L = src.splitlines(True); L[i] = new
        open(f, "w").write("".join(L))
        b = subprocess.run(["python3", "/verif/build.py"], env=env, capture_output=True, text=True)
        res = {"n": n, "file": p, "line": i + 1, "old": old.strip(), "new": new.strip()}
        if b.returncode: res["r"] = "nobuild"
        else:
            drv = b.stdout.strip().split("\n")[-1]; res["r"] = "SURVIVED"; t = time.time()
            for stage, (runs, cap) in enumerate(((150, 5), (2500, 15))):
                for pr in props(p):
                    try:
                        c = subprocess.run([drv, "check", pr, "quick", str(runs), str(cap)], env=env, capture_output=True, text=True, timeout=300)
                        if c.returncode: res["r"] = "killed"; res["by"] = pr; res["why"] = [l for l in c.stdout.split("\n") if "violates" in l or "minimised" in l][-1:] or c.stdout[-200:]; break
                    except subprocess.TimeoutExpired: res["r"] = "timeout"; res["by"] = pr; break
                if res["r"] != "SURVIVED": break
            res["s"] = round(time.time() - t, 1)
        open(f, "w").write(src)
        with lock:
            out.write(json.dumps(res) + "\n"); out.flush()
    shutil.rmtree(root, ignore_errors=True)

ms = mutants(); random.seed(SEED)
byf = {}
for m in ms: byf.setdefault(m[0], []).append(m)
pick = []
for f in byf: random.shuffle(byf[f])
# round robin weighted by the square root of the number of candidates
tot = sum(len(v) ** .7 for v in byf.values())
for f, v in byf.items(): pick += v[:max(2, round(N * len(v) ** .7 / tot))]
random.shuffle(pick)
if os.environ.get("MUT_RERUN"):  # a former output: its mutants again, by their numbers "n" in MUT_NS if given
    ns = set(map(int, os.environ.get("MUT_NS", "").split())); pick = []
    for l in open(os.environ["MUT_RERUN"]):
        j = json.loads(l)
        if ns and j["n"] not in ns or not ns and j["r"] != "SURVIVED": continue
        pick.append((j["file"], j["line"] - 1, j["old"], j["new"] + "\n"))
if os.environ.get("MUT_LIST"):
    for x in pick: print(x[0], x[1] + 1, x[3].strip()[:100])
    sys.exit()
print(len(ms), "candidates,", len(pick), "picked")
q = queue.Queue()
for x in enumerate(pick): q.put(x)
with open(OUT, "a") as out:
    lock = threading.Lock(); th = [threading.Thread(target=work, args=(w, q, out, lock)) for w in range(W)]
    for t in th: t.start()
    for t in th: t.join()
