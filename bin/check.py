#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay SUITE:CASE]

Rebuilds the instrumented library and the harness from /repo, runs the workload of
PROPERTY on all cores with its monitors, writes evidence/PROPERTY.json and prints
the verdict.  Exit 0: held on what was observed; 1: VIOLATION; 3: build error;
4: inconclusive (time out, too few observations)."""
import fnmatch, json, os, re, subprocess, sys, time, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

VERIF = vbuild.VERIF
CFG = json.load(open(os.path.join(VERIF, "bin", "checks.json")))

def known():
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: res.append(m.groups())
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    a = sys.argv[2:]
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--replay" in a: only = a[a.index("--replay") + 1].rsplit(":", 1)
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    scale = a[a.index("--scale") + 1] if "--scale" in a else ""
    conf = CFG[prop]
    scale = scale or str(conf.get("scale_" + tier, 1))
    t0 = time.time()
    flav = conf.get("flavour", "asan")
    H = vbuild.build(flav, conf["programs"])
    tb = time.time() - t0
    outdir = os.path.join(VERIF, "build", "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    env = dict(os.environ)
    env.update(conf.get("env", {}))
    env["OMP_NUM_THREADS"] = "1"
    env["LD_LIBRARY_PATH"] = vbuild.PREFIX + "/lib"
    env["ROS_PACKAGE_PATH"] = "%s/share:%s/share/example-robot-data/robots" % (vbuild.PREFIX, vbuild.PREFIX)
    n = int(conf.get("shards", 8))
    budget = conf.get("budget_" + tier, 420 if tier == "quick" else 3000)
    procs = []
    def launch(p, s, rnd=0, after=None):
            tag = "%s.%d.%d" % (p, s, rnd)
            o = os.path.join(outdir, tag)
            cmd = [os.path.join(H, p), "--prop", prop, "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (s, n),
                   "--out", o + ".json", "--progress", o + ".progress", "--budget", str(budget), "--scale", scale]
            cmd += conf.get("args_" + tier, [])
            if only: cmd += ["--suite", only[0]] + ([] if only[1] == "all" else ["--case", only[1]])
            if after: cmd += ["--after", after]
            e = dict(env)
            if flav == "asan": e["ASAN_OPTIONS"] = "log_path=%s.san" % o + (":" + conf["asan"] if "asan" in conf else "")
            if flav == "asan": e["LSAN_OPTIONS"] = "suppressions=%s:print_suppressions=0" % os.path.join(VERIF, "bin", "lsan.supp")
            if flav == "asan": e["UBSAN_OPTIONS"] = "log_path=%s.san" % o
            if flav == "tsan": e["TSAN_OPTIONS"] = "log_path=%s.san:exitcode=0:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0:suppressions=%s" % (o, os.path.join(VERIF, "bin", "tsan.supp"))
            log = open(o + ".log", "w")
            procs.append((p, tag, o, s, rnd, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=e, cwd=outdir)))
    for p in conf["programs"]:
        for s in range(1 if only and only[1] != "all" else n): launch(p, s)
    deadline = time.time() + budget + (240 if tier == "quick" else 1200)
    tot = {"evals": 0, "suites": {}, "counters": {}, "skipped": {}, "violCount": {}}
    distinct, samples, viols, crashes = set(), [], [], []
    truncated = inconcl = False
    for p, tag, o, sh, rnd, pr in procs:   # grows when a crashed shard is resumed
        try:
            rc = pr.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            pr.kill(); pr.wait(); rc = None
        d = None
        if os.path.exists(o + ".json"):
            try: d = json.load(open(o + ".json"))
            except Exception: d = None
        if rc != 0 or d is None:
            prog = open(o + ".progress").read().split(" ")[0] if os.path.exists(o + ".progress") else "start"
            tail = open(o + ".log").read()[-3000:]
            san = "".join(open(os.path.join(outdir, f)).read()[:6000] for f in sorted(os.listdir(outdir)) if f.startswith(tag + ".san"))
            if rc is None: inconcl = True; crashes.append((tag, "timeout", prog, tail))
            elif rc == -9: inconcl = True; crashes.append((tag, "killed", prog, tail))
            else:
                crashes.append((tag, "crash rc=%s" % rc, prog, san + tail))
                if not only and rnd < 5 and "#" in prog and time.time() < deadline - 60: launch(p, sh, rnd + 1, prog)
        if d:
            tot["evals"] += d["evals"]
            truncated |= d["truncated"]
            for k, v in d["suites"].items():
                c = tot["suites"].setdefault(k, [0, 0, 0.0]); c[0] += v[0]; c[1] += v[1]; c[2] = max(c[2], v[2])
            for q in ("counters", "skipped", "violCount"):
                for k, v in d[q].items(): tot[q][k] = tot[q].get(k, 0) + v
            distinct.update(d["distinct"])
            samples += d["samples"]
            for v in d["violations"]:
                if v["key"].startswith("leak/"):
                    # found by a scan after the last case of a suite
                    v["case"] = "all"
                    v["detail"] += "\n" + "".join(open(os.path.join(outdir, f)).read()[:6000] for f in sorted(os.listdir(outdir)) if f.startswith(tag + ".san"))
            viols += d["violations"]
    # race reports
    if flav == "tsan":
        import tsanparse
        for key, txt in tsanparse.reports(outdir):
            viols.append({"suite": "tsan", "case": 0, "key": "race/" + key, "detail": txt})
            tot["violCount"]["race/" + key] = tot["violCount"].get("race/" + key, 0) + 1
    for tag, what, prog, txt in crashes:
        if what.startswith("crash"):
            m = re.search(r"(SUMMARY: .*|Assertion .*|.*runtime error: .*|.*terminate called.*|.*Error: attempt.*)", txt)
            s, _, c = prog.partition("#")
            viols.append({"suite": s, "case": int(c) if c.isdigit() else 0, "key": "crash/" + s, "detail": what + "\n" + (m.group(1) if m else "") + "\n" + txt})
            tot["violCount"]["crash/" + s] = tot["violCount"].get("crash/" + s, 0) + 1
    kn = [k for k in known() if k[0] == prop]
    new, hit = [], {}
    for v in viols:
        m = [k for k in kn if k[1] == v["key"]]
        if m: hit.setdefault(m[0], []).append(v)
        else: new.append(v)
    wall = time.time() - t0
    if not only:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": tot["evals"], "distinct_nontrivial": len(distinct), "rule": conf["rule"],
                           "samples": samples[:12] or ["none"],
                           "suites": {k: {"cases_run": v[0], "cases_planned": v[1], "seconds_max": round(v[2], 2)} for k, v in tot["suites"].items()},
                           "monitor_counters": tot["counters"], "cases_outside_oracle_domain": tot["skipped"],
                           "instrumentation": vbuild.FLAVOURS[flav], "truncated_by_time": truncated,
                           "known_findings_observed": sorted("%s" % k[1] for k in hit)},
              "assumptions": conf.get("assumptions", ["pinocchio, hpp-pinocchio, coal, qpOASES and Eigen behave as documented"]),
              "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d observations judged, %d distinct non-trivial cases, build %.0fs, total %.0fs" % (prop, tot["evals"], len(distinct), tb, wall))
    for k, v in sorted(tot["suites"].items()): print("   suite %-28s %d/%d cases, %.1fs" % (k, v[0], v[1], v[2]))
    if tot["counters"]: print("   counters", json.dumps(tot["counters"], sort_keys=True))
    if tot["skipped"]: print("   skipped", json.dumps(tot["skipped"], sort_keys=True))
    for k in kn:
        # a known finding is listed whether or not this run's workload met it
        print("KNOWN-FINDING: property=%s %s [%s]%s" % (prop, k[2], k[1], "" if k in hit else " (not met in this run)"))
    if new:
        shown = set()
        rep = os.path.join(outdir, "replay.txt")
        with open(rep, "w") as f:
            for v in new:
                f.write("VIOLATION key=%s count=%d\nreplay: VERIF_SEED=%d python3 bin/check.py %s --tier %s --replay %s:%s\n%s\n\n" % (
                    v["key"], tot["violCount"].get(v["key"], 1), seed, prop, tier, v["suite"], v["case"], v["detail"]))
        for v in new:
            if v["key"] in shown: continue
            shown.add(v["key"])
            print("  violated: key=%s x%d (%s:%s)\n    %s" % (v["key"], tot["violCount"].get(v["key"], 1), v["suite"], v["case"], v["detail"][:int(os.environ.get("VP_DETAIL", "700"))].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    for c in crashes: print("INCONCLUSIVE:", c[0], c[1], c[2], c[3][-500:])
    if inconcl: return 4
    if not only and (tot["evals"] == 0 or len(distinct) < conf.get("min_distinct", 1)):
        print("INCONCLUSIVE: too few observations"); return 4
    return 0

if __name__ == "__main__":
    sys.exit(main())
