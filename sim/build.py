#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree.

Two shared objects hold the library under test (real code, compiled with memory-access callbacks):
librepo_omp.so (OpenMP on) and librepo_seq.so (the shipped configuration); sim_omp and sim_seq are the
simulator linked to each.  Objects are cached by content in /verif/build (ignored by git)."""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")

REDEF = {}
for f in ("malloc free calloc realloc memset memcpy memmove exit abort rand time gettimeofday "
          "clock_gettime getenv").split():
    REDEF[f] = "sim_" + f
REDEF.update({
    "__memset_chk": "sim_memset_chk", "__memcpy_chk": "sim_memcpy_chk", "__memmove_chk": "sim_memmove_chk",
    "clock": "sim_clock_c", "fopen": "sim_fopen", "fopen64": "sim_fopen64", "_exit": "sim_exit2",
    "_ZNSt6chrono3_V212system_clock3nowEv": "sim_clock_now", "_ZNSt6chrono3_V212steady_clock3nowEv": "sim_clock_now2",
    "printf": "sim_nop", "__printf_chk": "sim_nop2", "puts": "sim_nop3", "putchar": "sim_nop4",
    "fclose": "sim_fclose", "fscanf": "sim_fscanf", "__isoc99_fscanf": "sim_fscanf_a", "__isoc23_fscanf": "sim_fscanf_b",
    "sscanf": "sim_sscanf", "__isoc99_sscanf": "sim_sscanf_a", "__isoc23_sscanf": "sim_sscanf_b", "fgets": "sim_fgets",
    "getc": "sim_getc", "fgetc": "sim_getc_a", "fprintf": "sim_fprintf", "fwrite": "sim_fwrite", "fread": "sim_fread",
    "dprintf": "sim_dprintf", "fileno": "sim_fileno", "fsync": "sim_fsync", "fdatasync": "sim_fsync_a", "rename": "sim_rename",
    "remove": "sim_remove", "unlink": "sim_unlink",
    "usleep": "sim_yield", "sleep": "sim_yield2", "nanosleep": "sim_yield3", "sched_yield": "sim_yield4",
    "METIS_NodeND": "sim_METIS_NodeND", "METIS_PartGraphKway": "sim_METIS_PartGraphKway",
    "pthread_mutex_lock": "sim_mutex_lock", "pthread_mutex_unlock": "sim_mutex_unlock",
})
INLINE_REDEF = ["time", "gettimeofday", "clock_gettime", "clock", "remove", "unlink", "rename", "fopen", "fclose", "fsync"]
BASE = ["-O1", "-g", "-DNDEBUG", "-DMETIS", "-DSYM_SIM_HOOKS", "-fPIC", "-fno-semantic-interposition", "-fsanitize=thread", "-w",
        "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-Wno-write-strings"]
INC = ["-I", REPO + "/include", "-I", REPO + "/example/sptrsv_src/include"]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    s = []
    for pat in ("src/*.cpp", "src/hdagg/*.cpp", "utils/*.cpp", "utils/external/**/*.cpp", "utils/external/**/*.c",
                "example/sptrsv_src/*.cpp"):
        s += glob.glob(os.path.join(REPO, pat), recursive=True)
    # SuperNodalTools.cpp is not part of the shipped build (it needs MKL)
    return sorted(x for x in s if not x.endswith("/SuperNodalTools.cpp"))


def cached(key, ext, make):
    out = os.path.join(BUILD, "cache", key + ext)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid() + ext
        make(tmp)
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out


def build():
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    redef = os.path.join(BUILD, "redef.%d.txt" % os.getpid())
    with open(redef, "w") as f:
        for a, b in sorted(REDEF.items()):
            f.write("%s %s\n" % (a, b))
    rtxt = rd(redef)
    hdrs = []
    for d in ("include", "example/sptrsv_src/include", "src", "utils"):
        for dp, _, fn in sorted(os.walk(os.path.join(REPO, d))):
            hdrs += [os.path.join(dp, x) for x in sorted(fn) if x.endswith((".h", ".hpp", ".inc", ".def"))]
    hh = sha(*[h + "\n" for h in hdrs], *[rd(h) for h in hdrs])
    srcs = sources()
    jobs = []
    for cfg in ("omp", "seq"):
        flags = list(BASE)
        if cfg == "omp":
            flags += ["-fopenmp", "-DENABLE_OPENMP", "-D__OPENMP__"]
        for s in srcs:
            cxx = s.endswith(".cpp")
            fl = flags + INC + (["-std=c++11"] if cxx else [])
            key = sha(hh, rd(s), s, " ".join(fl), rtxt)

            def mk(tmp, s=s, fl=fl, cxx=cxx):
                run((["g++"] if cxx else ["gcc"]) + fl + ["-c", s, "-o", tmp])
                run(["objcopy", "--redefine-syms=" + redef, tmp])
            jobs.append((cfg, key, mk, os.path.getsize(s)))
    hsrc = sorted(glob.glob(SIM + "/*.cpp"))
    hh2 = sha(*[rd(h) for h in sorted(glob.glob(SIM + "/*.h"))], hh)
    for s in hsrc:
        fl = ["-std=c++17", "-O2", "-g", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-omit-frame-pointer",
              "-DMETIS"] + INC
        key = sha(hh2, rd(s), " ".join(fl))

        def mk(tmp, s=s, fl=fl):
            run(["g++"] + fl + ["-c", s, "-o", tmp])
            if s.endswith("/bench.cpp"):  # inline code of headers under test
                run(["objcopy"] + ["--redefine-sym=%s=%s" % (k, REDEF[k]) for k in INLINE_REDEF] + [tmp])
        jobs.append(("sim", key, mk, 10 * os.path.getsize(s)))
    jobs.sort(key=lambda j: -j[3])
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        outs = list(ex.map(lambda j: (j[0], cached(j[1], ".o", j[2])), jobs))
    res = {}
    sim_o = sorted(o for c, o in outs if c == "sim")

    def link(cfg):
        lo = sorted(o for c, o in outs if c == cfg)
        lib = "librepo_%s.so" % cfg
        d = os.path.join(BUILD, "bin-" + sha(cfg, *lo, *sim_o))
        if not os.path.exists(d):
            t = d + ".tmp%d" % os.getpid()
            os.makedirs(t, exist_ok=True)
            run(["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-soname," + lib, "-o", os.path.join(t, lib)] + lo + ["-lmetis"])
            run(["g++", "-rdynamic", "-o", os.path.join(t, "sim_" + cfg)] + sim_o +
                ["-L" + t, "-lrepo_" + cfg, "-Wl,-rpath,$ORIGIN", "-Wl,--unresolved-symbols=ignore-in-shared-libs",
                 "-Wl,--no-as-needed", "-lmetis"])
            os.replace(t, d)
        else:
            os.utime(d)
        return cfg, os.path.join(d, "sim_" + cfg)
    with ThreadPoolExecutor(2) as ex:
        res = dict(ex.map(link, ("omp", "seq")))
    os.unlink(redef)
    # keep the cache bounded
    ents = sorted(glob.glob(os.path.join(BUILD, "cache", "*.o")), key=os.path.getmtime, reverse=True)
    for e in ents[600:]:
        os.unlink(e)
    bins = sorted(glob.glob(os.path.join(BUILD, "bin-*")), key=os.path.getmtime, reverse=True)
    for b in bins[12:]:
        for f in glob.glob(b + "/*"):
            os.unlink(f)
        os.rmdir(b)
    fcntl.flock(lock, fcntl.LOCK_UN)
    res["source_hash"] = sha(hh, *[rd(s) for s in srcs])
    return res


if __name__ == "__main__":
    import json
    print(json.dumps(build()))
