#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   search simulated executions for a violation of one property
   check.py --replay FILE                 run one replay file again, exactly

Builds the simulator from /repo's working tree, runs seeded simulated executions on all cores, minimises
whatever fails, replays it in a fresh process, and writes evidence/<property>.json."""
import glob, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as simbuild  # noqa: E402

LEVEL = "exploration"
HANG_S = 90          # wall seconds one simulated run may take before it is treated as stuck
RULE = ("One evaluation is one simulated execution: a generated input, parameters, a seeded schedule of all "
        "simulated threads and a fault plan, all derived from (VERIF_SEED, index). It is non-trivial when the input "
        "has more than one vertex and the run had a dependence to keep, an actual thread switch, a failed allocation "
        "or disk traffic. Distinct executions are counted by a 64-bit hash over the executed sequence of scheduling "
        "decisions, loop hand-outs, faults and results (the union over all workers).")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def known_findings():
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("known:"):
            head, _, what = line[6:].partition(" :: ")
            d = dict(x.split("=", 1) for x in head.split())
            known.append((d, what.strip()))
        elif line.startswith("fixed:"):
            fixed.append(line)
    return known, fixed


def replay_fields(path):
    d = {"params": {}}
    for line in open(path, errors="replace"):
        k, _, v = line.rstrip("\n").partition(" ")
        if k == "param":
            a, _, b = v.partition(" ")
            d["params"][a] = b
        elif k in ("scn", "bin", "n", "prop", "expect-kind", "expect-msg", "scenario", "binary"):
            d[k] = v
    return d


def match_known(known, prop, f):
    for d, what in known:
        ok = d.get("property") == prop
        for k, v in d.items():
            if k == "property":
                continue
            if k == "scenario":
                ok = ok and re.fullmatch(v, f.get("scn") or f.get("scenario") or "") is not None
            elif k == "kind":
                ok = ok and f.get("expect-kind") == v
            elif k == "bin":
                ok = ok and f.get("binary", f.get("bin")) == v
            elif k == "msg":
                ok = ok and re.search(v.replace("_", " "), f.get("expect-msg", "")) is not None
            else:
                ok = ok and f["params"].get(k) == v
        if ok:
            return what
    return None


def run_replay(binp, path, timeout):
    """(bad, exact, info) of one replay in a fresh process"""
    try:
        p = subprocess.run([binp, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, False, {"kind": "hang", "msg": "a run did not end within %d s of real time" % timeout}
    out = p.stdout.decode(errors="replace").strip().split("\n")
    try:
        j = json.loads(out[-1])
        return bool(j["bad"]), bool(j["exact"]), j
    except (ValueError, KeyError):
        if p.returncode in (0, 2):
            return False, False, {"kind": "none", "msg": p.stderr.decode(errors="replace")[-300:]}
        return True, False, {"kind": "process-died", "msg": "the simulated process died with status %d" % p.returncode}


class Worker:
    def __init__(self, binp, cfg, prop, seed, start, stride, out, tend, stop):
        self.binp, self.cfg, self.prop, self.seed = binp, cfg, prop, seed
        self.start, self.stride, self.out, self.tend, self.stop = start, stride, out, tend, stop
        self.part = 0
        self.parts = []
        self.deaths = []
        self.proc = None
        self.launch(start)

    def launch(self, start):
        left = self.tend - time.monotonic()
        self.cur = "%s.%d" % (self.out, self.part)
        self.parts.append(self.cur)
        self.part += 1
        self.last = None
        self.last_t = time.monotonic()
        self.proc = subprocess.Popen([self.binp, "search", "--prop", self.prop, "--seed", str(self.seed), "--start", str(start),
                                      "--stride", str(self.stride), "--seconds", "%.2f" % max(0.2, left), "--out", self.cur,
                                      "--stop", self.stop], stdout=subprocess.DEVNULL,
                                     stderr=open(self.cur + ".err", "wb"), start_new_session=True)

    def progress(self):
        try:
            return struct.unpack("<QQ", open(self.cur + ".progress", "rb").read(16))
        except (OSError, struct.error):
            return None

    def poll(self):
        """True when finished"""
        if self.proc is None:
            return True
        rc = self.proc.poll()
        if rc is None:
            pr = self.progress()
            now = time.monotonic()
            if pr != self.last:
                self.last, self.last_t = pr, now
            elif pr and pr[1] == 1 and now - self.last_t > HANG_S:
                self.proc.kill()
                self.proc.wait()
                self.deaths.append((pr[0], "hang"))
                self.next(pr[0])
            return False
        if rc == 0 and os.path.exists(self.cur + ".json"):
            self.proc = None
            return True
        pr = self.progress()
        idx = pr[0] if pr else None
        self.deaths.append((idx, "status %d: %s" % (rc, open(self.cur + ".err", errors="replace").read()[-200:])))
        self.next(idx)
        return self.proc is None

    def next(self, idx):
        if idx is None or len(self.deaths) >= 3 or self.tend - time.monotonic() < 1:
            self.proc = None
            return
        self.launch(idx + self.stride)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        b = simbuild.build()
        f = replay_fields(sys.argv[2])
        bad, exact, j = run_replay(b[f["binary"]], os.path.abspath(sys.argv[2]), 600)
        print(json.dumps({"bad": bad, "exact": exact, "result": j}))
        sys.exit(1 if bad else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = float(os.environ.get("SIM_SECONDS", "60" if tier == "quick" else "700"))
    t0 = time.monotonic()
    b = simbuild.build()
    t_build = time.monotonic() - t0
    weights = {}
    for c in ("omp", "seq"):
        out = subprocess.run([b[c], "table"], stdout=subprocess.PIPE, check=True).stdout.decode()
        weights[c] = {l.split()[1]: int(l.split()[2]) for l in out.splitlines() if l.split()[0] == prop}
    if not any(weights.values()):
        log("no scenarios for", prop)
        sys.exit(2)
    ncpu = max(2, min(16, os.cpu_count() or 2))
    wo, ws = sum(weights["omp"].values()), sum(weights["seq"].values())
    n = {"omp": 0, "seq": 0}
    if not ws:
        n["omp"] = ncpu
    elif not wo:
        n["seq"] = ncpu
    else:
        n["seq"] = max(1, min(ncpu - 1, int(ncpu * ws / (wo + ws) + 0.5)))
        n["omp"] = ncpu - n["seq"]
    tmp = os.path.join(VERIF, "build", "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known, fixed = known_findings()
    stop = os.path.join(tmp, "stop")
    tend = time.monotonic() + secs
    workers = []
    try:
        for c in ("omp", "seq"):
            for i in range(n[c]):
                workers.append(Worker(b[c], c, prop, seed, i, n[c], os.path.join(tmp, "%s%d" % (c, i)), tend, stop))
        seen_at, known_only = None, {}
        while not all([w.poll() for w in workers]):
            time.sleep(0.1)
            if seen_at is None:
                for f in glob.glob(os.path.join(tmp, "*.v*.replay")):
                    if f not in known_only:
                        try:
                            known_only[f] = match_known(known, prop, replay_fields(f)) is not None
                        except OSError:
                            continue
                    if not known_only[f]:
                        seen_at = time.monotonic()
            elif time.monotonic() - seen_at > 4 and not os.path.exists(stop):
                open(stop, "w").close()
        rc = report(prop, tier, seed, secs, b, weights, workers, tmp, rdir, known, t0, t_build)
    finally:
        for w in workers:
            if w.proc is not None and w.proc.poll() is None:
                os.killpg(w.proc.pid, signal.SIGKILL)
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def add(d, s):
    for k, v in s.items():
        if isinstance(v, (int, float)):
            d[k] = max(d.get(k, 0), v) if k in ("max_live", "wall") else d.get(k, 0) + v
        elif isinstance(v, dict) and k != "found":
            add(d.setdefault(k, {}), v)


def report(prop, tier, seed, secs, b, weights, workers, tmp, rdir, known, t0, t_build):
    tot, found, samples, nondet, deaths = {}, {}, [], 0, []
    hashes, graphs = [set(), set()], None
    for w in workers:
        for part in w.parts:
            if not os.path.exists(part + ".json"):
                # a worker that died: its replay files are still there
                for f in glob.glob(part + ".v*.replay"):
                    fr = replay_fields(f)
                    found.setdefault((w.cfg, fr.get("scn", "?") + "|" + fr.get("expect-kind", "?")), f)
                continue
            j = json.load(open(part + ".json"))
            add(tot, j)
            for k, v in j["found"].items():
                found.setdefault((w.cfg, k), v)
            samples += j["samples"][:2]
            blob = open(part + ".hash", "rb").read()
            at = 0
            for s in hashes:
                (cnt,) = struct.unpack_from("<Q", blob, at)
                s.update(struct.unpack_from("<%dQ" % cnt, blob, at + 8))
                at += 8 + 8 * cnt
        nondet += len(glob.glob(w.out + ".*.nondet"))
        deaths += [(w, i, why) for i, why in w.deaths]
    # runs that took the simulated process down with them
    for w, idx, why in deaths:
        if idx is None:
            continue
        f = os.path.join(tmp, "death-%s-%d.replay" % (w.cfg, idx))
        txt = subprocess.run([w.binp, "plan", "--prop", prop, "--seed", str(seed), "--index", str(idx)], stdout=subprocess.PIPE).stdout
        open(f, "wb").write(txt)
        bad, _, j = run_replay(w.binp, f, 2 * HANG_S)
        if bad:
            found.setdefault((w.cfg, "death|" + j["kind"]), f)
    viol, kf = [], []
    for k, ((cfg, key), path) in enumerate(sorted(found.items(), key=lambda x: x[0])):
        fr = replay_fields(path)
        binp = b[cfg]
        dst = os.path.join(rdir, "%s-%s-%d.replay" % (prop, cfg, k))
        what = match_known(known, prop, fr)
        if what is not None:
            kf.append((what, key))
            continue
        shutil.copy(path, dst)
        note = {"kind": fr.get("expect-kind", key), "msg": fr.get("expect-msg", "")}
        if len(viol) < 6 and not key.startswith("death|"):
            mn = dst + ".min"
            try:
                r = subprocess.run([binp, "minimise", path, mn, "--seconds", "12" if tier == "quick" else "45"], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=150)
                if r.returncode == 0 and os.path.exists(mn):
                    bad, exact, j = run_replay(binp, mn, 150)
                    if bad and exact:
                        # a listed finding must not stand in for the failure that was found
                        if match_known(known, prop, replay_fields(mn)) is None:
                            os.replace(mn, dst)
                            note.update(kind=j["kind"], msg=j["msg"], minimised=True)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(mn):
                os.unlink(mn)
        bad, exact, j = run_replay(binp, dst, 200)
        note["replay"] = "exact" if exact else "fails again" if bad else "NOT REPRODUCED"
        viol.append((dst, key, note, bad))
    for what in sorted(set(x for x, _ in kf)):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    reported = 0
    for dst, key, note, bad in viol:
        if not bad:
            log("not reproduced in a fresh process, not reported:", key, note)
            continue
        reported += 1
        log("  %s: %s: %s (%s)" % (key, note["kind"], note["msg"], note["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    wall = time.monotonic() - t0
    runs = tot.get("runs", 0)
    sw = max(1e-9, tot.get("wall", secs))
    disk = tot.get("disk", {})
    faults = {"stalled threads": tot.get("f_stall", 0), "teams smaller than requested": tot.get("f_short_team", 0),
              "failed allocations": tot.get("f_alloc", 0), "clock jumps": tot.get("f_clock", 0),
              "loops handed out in a shuffled order": tot.get("f_nonmono", 0)}
    faults.update({k.replace("_", " "): v for k, v in disk.items() if k not in ("reads", "writes")})
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes[0]),
        "rule": RULE,
        "samples": samples[:10] or ["none"],
        "distinct_inputs": len(hashes[1]),
        "runs_with_thread_switches": tot.get("interleaved", 0),
        "runs_per_hour": int(runs / sw * 3600),
        "seeds": "root seed %d; run i of a binary derives its own seed from (root seed, i, binary)" % seed,
        "simulated_steps": tot.get("steps", 0),
        "simulated_seconds": round(tot.get("sim_ns", 0) / 1e9, 3),
        "thread_switches": tot.get("switches", 0),
        "parallel_regions": tot.get("regions", 0), "barriers": tot.get("barriers", 0), "loop_chunks_handed_out": tot.get("chunks", 0),
        "largest_team": tot.get("max_live", 0),
        "faults_injected": faults,
        "disk_operations": {k: disk.get(k, 0) for k in ("reads", "writes")},
        "runs_per_scenario": tot.get("per_scn", {}), "outcomes": tot.get("outcomes", {}), "probes": tot.get("probes", {}),
        "schedulers": {{"0": "random preemption", "1": "PCT priorities", "2": "random with stalls", "3": "run to completion", "4": "round robin"}.get(k, k): v
                       for k, v in tot.get("strategies", {}).items()},
        "determinism_reruns": tot.get("reruns", 0), "determinism_failures": nondet,
        "workers": {c: sum(1 for w in workers if w.cfg == c) for c in ("omp", "seq")},
        "worker_deaths": len(deaths), "build_s": round(t_build, 1), "source_hash": b["source_hash"],
        "scenarios_enabled": {c: weights[c] for c in weights},
        "real_code": "all of /repo's src, utils and example/sptrsv_src sources, compiled with OpenMP (omp) and without (seq)",
        "stubbed": "OpenMP runtime, heap, clocks, process exit, console output, stdio files; METIS runs as installed",
    }
    if kf:
        cov["known_findings_seen"] = sorted(set(x for x, _ in kf))
    if viol:
        cov["violations_found"] = [{"scenario": k, "replay": d, **nt} for d, k, nt, bad in viol]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": [
              "scheduling points are the library's memory accesses, OpenMP calls, allocations and file operations; the memory model is sequentially consistent",
              "loops the compiler partitions statically keep that partition; the simulator decides every dynamic hand-out and every interleaving",
              "a clean run is evidence from sampled executions, not proof"],
          "wall_s": round(wall, 2), "violations": reported}
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    print("%s %s: %d runs, %d distinct, %d violations, %d known findings, %.0f s" % (prop, tier, runs, len(hashes[0]), reported, len(set(x for x, _ in kf)), wall))
    if runs == 0 and not reported:
        log("no run completed")
        return 2
    return 1 if reported else 0


if __name__ == "__main__":
    main()
