#!/usr/bin/env python3
"""Mutation campaign: how many small source changes the simulated runs notice.
   tools/mutate.py COV.json OUT.jsonl [--workers N] [--count N] [--seed S] [--files a,b]
Mutates lines of the library near an access site that COV.json (tools/cov.py with COV_JSON set) lists as
reached, builds the simulator from a scratch copy of the mutated tree and runs the properties on it; a
mutant is killed by the first violation.  /repo itself is only read."""
import json, os, random, re, shutil, subprocess, sys, threading, time, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("cov"); ap.add_argument("out")
ap.add_argument("--workers", type=int, default=3)
ap.add_argument("--count", type=int, default=200)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files", default="")
ap.add_argument("--secs", type=float, default=6)
ap.add_argument("--ops", type=int, default=1, help="1: operators, constants, statements; 2: conditions, order, names, storage")
a = ap.parse_args()
SC = "/tmp/mut"
FILES = {
    "src/lbc_csc.cpp": ["C01", "C02", "C26"], "src/lbc_csc_dag.cpp": ["C03", "C01", "C26"], "src/lbc_tree.cpp": ["C02", "C26"],
    "src/lbc_blocked.cpp": ["C19", "C26"], "src/lbc_utils.cpp": ["C01", "C02", "C19", "C03", "C26"],
    "src/hdagg/hdagg.cpp": ["C04", "C07", "C06", "C16", "C08", "C10", "C05", "C26"], "src/group.cpp": ["C07"], "src/group_utils.cpp": ["C07"],
    "utils/sparse_inspector.cpp": ["C05", "C02", "C01", "C19"],
    "utils/sparse_io.cpp": ["C11", "C12"], "utils/external/mmio.cpp": ["C11", "C12"],
    "utils/sparse_utilities.cpp": ["C20", "C21", "C23"], "utils/BCSCMatrix.cpp": ["C20", "C23"], "utils/utils.cpp": ["C20", "C02", "C10"],
    "utils/etree.cpp": ["C21", "C02", "C23"], "utils/lfactor_creation.cpp": ["C21", "C23"], "utils/metis_interface.cpp": ["C22", "C23"],
    "utils/external/amd_1.c": ["C22"], "utils/external/amd_2.c": ["C22"], "utils/external/amd_aat.c": ["C22"], "utils/external/amd_order.c": ["C22", "C23"],
    "utils/external/amd_preprocess.c": ["C22"], "utils/external/amd_valid.c": ["C22"], "utils/external/amd_postorder.c": ["C22"], "utils/external/amd_post_tree.c": ["C22"],
    "utils/FusionDemo.cpp": ["C24", "C23"], "include/aggregation/csv_utils.h": ["C25"], "include/aggregation/utils.h": ["C24", "C20", "C02"],
    "include/aggregation/def.h": ["C20", "C23"], "include/aggregation/group.h": ["C07"],
    "example/sptrsv_src/sptrsv.cpp": ["C09"], "example/sptrsv_src/executor.cpp": ["C09", "C10"],
}
ALL = ["C17", "C15", "C14", "C13", "C18", "C23"]
UTIL = ("utils/sparse_utilities.cpp", "utils/BCSC", "utils/utils", "utils/etree", "utils/lfactor", "utils/metis", "utils/external/amd", "utils/Fusion", "include/")
cov = json.load(open(a.cov))
REPL = [(r"<=", "<"), (r"(?<![<\-])<(?![<=])(?=[^>]*$|[^>]*;)", "<="), (r">=", ">"), (r"(?<![\->])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="),
        (r"\+ ?1\b", ""), (r"- ?1\b", ""), (r"\+\+", ""), (r"&&", "||"), (r"\|\|", "&&"), (r"\+=", "="), (r"= 0\b", "= 1"), (r"\b0\)", "1)"),
        (r"(?<![+\w])\b1\b(?!\))", "2"), (r" \+ ", " - "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::max", "std::min"), (r"std::min\b", "std::max"),
        (r"num_threads\([^)]*\)", ""), (r"\bnowait\b", ""), (r"\(\)(?=;)", "NOINIT")]
STMT = re.compile(r"^\s*[^\s#{}/][^{}]*;\s*$")
KEYW = set("int double bool void char float long size_t const static return if else for while new delete std vector auto unsigned short true false nullptr NULL break continue sizeof this".split())
def second(src, i, l, code, s):
    out = []
    m = re.match(r"^(.*\b(?:if|while) ?\()(.*)(\)\s*(?:\{|continue;|break;|return.*;)?\s*)$", code)
    if m and m.group(2).count("(") == m.group(2).count(")"):
        out.append((i, l, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
        if "while" not in m.group(1): out.append((i, l, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3)))
        out.append((i, l, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
    if STMT.match(code) and i + 1 < len(src) and STMT.match(src[i + 1].split("//")[0]) and "return" not in code + src[i + 1]:
        out.append((i, l, src[i + 1].split("//")[0] + " " + code.strip() + " //SWAP"))
    if re.match(r"^\s*(std::vector<.*> |int |double |bool )\s*\w+(\(.*\))?( = [^;]*)?;\s*$", code) and "for" not in code:
        out.append((i, l, re.sub(r"^(\s*)", r"\1static ", code, count=1)))
    for a_, b_ in (("double", "float"), ("int", "short"), ("size_t", "short"), ("double", "int")):
        for m in re.finditer(r"\b%s(?= \w+( =|;|\())" % a_, code): out.append((i, l, code[:m.start()] + b_ + code[m.end():]))
    if re.match(r"^\s*(delete|free)", code): out.append((i, l, ";"))
    ids = [m for m in re.finditer(r"(?<![\w.>:])[A-Za-z_]\w*(?!\w*\()", code) if m.group(0) not in KEYW]
    near = set()
    for k in range(max(0, i - 3), min(len(src), i + 4)):
        near |= set(m.group(0) for m in re.finditer(r"(?<![\w.>:])[A-Za-z_]\w*(?!\w*\()", src[k].split("//")[0]) if m.group(0) not in KEYW)
    rnd = random.Random(hash_(code))
    for m in ids:
        c = sorted(x for x in near if x != m.group(0))
        for x in rnd.sample(c, min(2, len(c))): out.append((i, l, code[:m.start()] + x + code[m.end():]))
    return out
def hash_(t):
    h = 7
    for ch in t: h = (h * 131 + ord(ch)) & 0xffffffff
    return h
def mutants(f):
    src = open(os.path.join("/repo", f)).read().split("\n")
    reach = set(cov.get(f, []))
    out, skip, comment = [], 0, False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("#if 0"): skip += 1
        elif skip and s.startswith("#if"): skip += 1
        if skip:
            if s.startswith("#endif"): skip -= 1
            continue
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if not s or s.startswith("//") or s.startswith("*") or "cout" in s or "assert" in s or "include" in s: continue
        if not any(k in reach for k in range(i - 2, i + 5)): continue
        code = l.split("//")[0]
        if s.startswith("#pragma omp"):
            out.append((i, l, "")); 
            if "schedule" in s: out.append((i, l, l + " nowait" if "parallel" not in s else l.replace("parallel ", "parallel ")))
            continue
        if s.startswith("#") or s.startswith("using") or s.startswith("template"): continue
        if a.ops == 2:
            out += second(src, i, l, code, s)
            continue
        for rx, to in REPL:
            for m in re.finditer(rx, code):
                if to == "NOINIT":
                    if "new " not in code: continue
                    n = code[:m.start()] + code[m.end():]
                else: n = code[:m.start()] + to + code[m.end():]
                if n.strip() != code.strip(): out.append((i, l, n))
        if re.match(r"^\s*[\w\[\]\.\->\(\)\*\+ :,&]+(=|\+\+|--|\+=|-=|\().*;\s*$", code) and not re.match(r"^\s*(const |static |int |double |bool |size_t |float |auto |std::\w+<|return|delete|char |timing|CSC |CSR |for|\w+ \w+(\[[^\]]*\])? ?(=|;|\())", code):
            out.append((i, l, ";"))
        if s in ("break;", "continue;"): out.append((i, l, ";"))
        if re.match(r"^\s*(delete|free)", code): pass
    return [(f, i, o, n) for i, o, n in out if o != n]
ms = []
for f in (a.files.split(",") if a.files else FILES):
    ms += mutants(f)
random.Random(a.seed).shuffle(ms)
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
ms = [m for m in ms if (m[0], m[1] + 1, m[3]) not in done]
print(len(ms), "mutants,", len(done), "done", flush=True)
ms = ms[:a.count]
lock = threading.Lock()
def sh(cmd, env=None, timeout=400):
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def worker(w):
    d = "%s/w%d" % (SC, w)
    repo, bld, tmp = d + "/repo", d + "/build", d + "/t"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(repo); os.makedirs(bld); os.makedirs(tmp)
    for x in ("src", "include", "utils", "example"): shutil.copytree("/repo/" + x, repo + "/" + x)
    env = dict(os.environ, SIM_REPO=repo, SIM_BUILD=bld)
    r = sh(["python3", V + "/sim/build.py"], env)
    base = set(os.listdir(bld + "/cache")); bb = set(os.listdir(bld))
    while True:
        with lock:
            if not ms: return
            f, i, o, n = ms.pop()
        p = os.path.join(repo, f)
        txt = open(p).read(); L = txt.split("\n"); L[i] = n
        if n.endswith("//SWAP"): L[i + 1] = ""
        open(p, "w").write("\n".join(L))
        res = {"file": f, "line": i + 1, "old": o.strip(), "new": n}
        t0 = time.time()
        try:
            r = sh(["python3", V + "/sim/build.py"], env)
            try: b = json.loads(r.stdout.strip().split("\n")[-1])
            except Exception: b = None
            if b is None: res["r"] = "nobuild"
            else:
                # same object code as the original?
                new = [x for x in os.listdir(bld + "/cache") if x not in base]
                res["r"] = "SURVIVED"
                for prop in FILES[f] + [x for x in ALL if x not in FILES[f]]:
                    if f.endswith(("io.cpp",)) and prop in ALL and prop != "C23": continue
                    if f.startswith(UTIL) and prop in ALL and prop not in FILES[f] and prop != "C23": continue
                    ps = []
                    for c in ("omp", "seq"):
                        ps.append((c, subprocess.Popen([b[c], "search", "--prop", prop, "--seed", "5", "--start", "0", "--stride", "1", "--seconds",
                                                        str(a.secs), "--out", tmp + "/" + c, "--maxviol", "4" if prop in ("C17", "C20", "C23") else "1", "--max", "100000000"],
                                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
                    kill = None
                    end = time.time() + a.secs + 60
                    live = list(ps)
                    while live:
                        for c, q in list(live):
                            if q.poll() is not None:
                                live.remove((c, q))
                                jf = tmp + "/" + c + ".json"
                                if not os.path.exists(jf): kill = kill or (prop, c, "died %s" % q.returncode)
                                else:
                                    j = json.load(open(jf))
                                    ks = [k for k in j["found"] if "nan-equal" not in k and "leak:stat_levelset" not in k and ("stat_" not in k or c != "seq" or prop != "C17")]
                                    if ks: kill = kill or (prop, c, ks[0])
                        if kill or time.time() > end:
                            if live and not kill: kill = (prop, live[0][0], "hang")
                            for c, q in live: q.kill(); q.wait()
                            live = []
                        else: time.sleep(0.05)
                    for x in os.listdir(tmp): os.unlink(tmp + "/" + x)
                    if kill:
                        res["r"] = "killed"; res["by"] = kill; break
        except Exception as e:
            res["r"] = "error " + repr(e)[:200]
        res["s"] = round(time.time() - t0, 1)
        open(p, "w").write(txt)
        for x in os.listdir(bld + "/cache"):
            if x not in base: os.unlink(bld + "/cache/" + x)
        for x in os.listdir(bld):
            if x not in bb and os.path.isdir(bld + "/" + x): shutil.rmtree(bld + "/" + x, ignore_errors=True)
        with lock:
            open(a.out, "a").write(json.dumps(res) + "\n")
ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.workers)]
for t in ts: t.start()
for t in ts: t.join()
for w in range(a.workers): shutil.rmtree("%s/w%d" % (SC, w), ignore_errors=True)
