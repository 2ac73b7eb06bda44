#!/usr/bin/env python3
"""check.py <property>: builds what the property needs from /repo's working tree,
runs the monitored workloads, judges what the monitors saw, writes the evidence.
Exit 0 held / 1 VIOLATION / 2 no verdict (build or harness failure)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import vbuild
import jobs as J

REPO = vbuild.REPO
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def sanitize_key(kind, text):
    """a stable name for a sanitizer report or crash: kind and innermost frame in QDP++"""
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", text):
        if m.group(2).startswith(REPO + "/"):
            fn = re.sub(r"<.*", "", m.group(1))
            fn = re.sub(r"\(.*", "", fn)
            fn = fn.split()[-1] + "@" + os.path.relpath(m.group(2), REPO)
            break
    if not fn:
        m = re.search(re.escape(REPO) + r"/(\S+?):\d+:\d+: runtime error", text)
        if m:
            fn = "@" + m.group(1)
    return kind + ":" + (fn or "?")


def classify(rc, err, label):
    """violation keys of an abnormal end; None: nothing abnormal"""
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        return sanitize_key("asan-" + m.group(1), err), err[m.start():m.start() + 1500]
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60]
        return sanitize_key("ubsan-" + what, err), err[max(0, m.start() - 200):m.start() + 1200]
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
    if m:
        return sanitize_key("tsan-" + m.group(1).strip(), err), err[m.start():m.start() + 3000]
    m = re.search(r"==\d+== (Invalid \w+ of size|Conditional jump|Use of uninit|Syscall param)[^\n]*", err)
    if m:
        return "valgrind-" + m.group(1), err[m.start():m.start() + 1500]
    if rc is not None and rc < 0:
        return "signal-%d:%s" % (-rc, label), err[-1200:]
    if rc not in (0, 1) or "terminate called" in err:
        return "exit-%s:%s" % (rc, label), err[-1200:]
    return None


def run_job(job, exe, scratch):
    jid = hashlib.sha256(repr(job).encode()).hexdigest()[:12]
    wd = tempfile.mkdtemp(prefix="job-", dir=scratch)
    out = os.path.join(wd, "report")
    files = os.path.join(wd, "files")
    os.mkdir(files)
    cmd = [exe, "--seed=%d" % job["seed"], "--out=" + out, "--dir=" + files] + job["args"]
    if TIER == "thorough":
        cmd.append("--thorough")
    if job.get("wrap"):
        cmd = job["wrap"] + cmd
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=67108864:malloc_fill_byte=165:strict_string_checks=1:check_initialization_order=1",
        "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78",
        "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4",
        "OMP_NUM_THREADS": "4",
    })
    env.update(job.get("env", {}))
    env["ASAN_OPTIONS"] += job.get("asan", "")
    res = {"job": job, "viol": [], "counts": {}, "distinct": set(), "samples": [], "begins": 0, "error": None, "cmd": cmd}
    t0 = time.time()
    for attempt in (1, 2):
        for f in os.listdir(wd):
            if f.startswith("report"):
                os.unlink(os.path.join(wd, f))
        shutil.rmtree(files, ignore_errors=True)
        os.mkdir(files)
        with open(os.path.join(wd, "stdout"), "wb") as so, open(os.path.join(wd, "stderr"), "wb") as se:
            p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, cwd=files, env=env, start_new_session=True)
            try:
                rc = p.wait(timeout=job["timeout"])
                hung = False
            except subprocess.TimeoutExpired:
                hung, rc = True, None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        if (hung or rc == -9) and attempt == 1:
            continue
        break
    with open(os.path.join(wd, "stderr"), errors="replace") as f:
        err = f.read()[-200000:]
    last = ""
    ended = True
    reports = sorted(f for f in os.listdir(wd) if f.startswith("report"))
    # nodes/children write report.* beside the supervisor's own file
    subs = [f for f in reports if f != "report"]
    for f in (subs or reports):
        end = False
        for line in open(os.path.join(wd, f), errors="replace"):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "begin" in r:
                res["begins"] += 1
                last = r["d"]
            elif "viol" in r:
                res["viol"].append((r["viol"], r["d"], r.get("in", ""), r.get("case", -1)))
            elif "counts" in r:
                for k, v in r["counts"].items():
                    res["counts"][k] = res["counts"].get(k, 0) + v
            elif "distinct" in r:
                res["distinct"].update(r["distinct"])
            elif "sample" in r:
                res["samples"].append(r["sample"])
            elif "end" in r:
                end = True
        ended = ended and end
    if hung:
        res["viol"].append(("hang:" + job["driver"], "no end after %ss, twice; last case: %s" % (job["timeout"], last), last, -1))
    elif rc == -9:
        res["error"] = "killed twice (memory?)"
    else:
        c = classify(rc, err, job["driver"])
        if c:
            res["viol"].append((c[0], c[1], last, -1))
        elif not ended or not reports:
            res["viol"].append(("ended-early:" + job["driver"], "exit %s before the end of the workload; last case: %s; stderr: %s" % (rc, last, err[-600:]), last, -1))
    res["wall"] = time.time() - t0
    shutil.rmtree(wd, ignore_errors=True)
    return res


def main():
    pid = sys.argv[1]
    t0 = time.time()
    spec = J.PROPS[pid]
    jobs = spec["jobs"](TIER, SEED)
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        known = [k for k in json.load(f)["findings"] if k["status"] == "known" and k["property"] == pid]
    if len(sys.argv) > 2:  # replay file
        with open(sys.argv[2]) as f:
            jobs = [json.load(f)["job"]]
    print("%s: %d workloads, seed %d, tier %s" % (pid, len(jobs), SEED, TIER), flush=True)
    try:
        exes = vbuild.build([(j["driver"], j["cfg"], j["instr"]) for j in jobs])
    except vbuild.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    tb = time.time() - t0
    print("built in %.1fs" % tb, flush=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    results = []
    try:
        with cf.ThreadPoolExecutor(max(1, vbuild.NPROC // max(1, spec.get("width", 1)))) as ex:
            futs = [ex.submit(run_job, j, exes[(j["driver"], j["cfg"], j["instr"])], scratch) for j in jobs]
            results = [f.result() for f in futs]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    counts, distinct, samples, evals, errors = {}, set(), [], 0, []
    viols, knownhit = [], {}
    for r in results:
        if r["error"]:
            errors.append("%s %s: %s" % (r["job"]["driver"], r["job"]["args"], r["error"]))
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        distinct |= {(r["job"]["cfg"], tuple(a for a in r["job"]["args"] if a.startswith(("--latt", "--geom", "--np"))), d) for d in r["distinct"]}
        evals += r["begins"]
        if r["samples"] and len(samples) < 12:
            samples.append("[%s/%s %s] %s" % (r["job"]["cfg"], r["job"]["instr"], " ".join(r["job"]["args"]), r["samples"][0]))
        if not r["viol"] and not r["error"] and r["begins"] == 0:
            errors.append("%s observed nothing" % r["job"]["driver"])
        for v in r["viol"]:
            k = next((k for k in known if re.fullmatch(k["key"], v[0])), None)
            if k:
                knownhit.setdefault(k["key"], (k, v))
            else:
                viols.append((r, v))
    for c in spec.get("require", []):
        if not viols and counts.get(c, 0) == 0:
            errors.append("monitor saw no " + c)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": spec["rule"],
            "samples": samples,
            "events": dict(sorted(counts.items())),
            "workloads": len(jobs),
            "configurations": sorted({"%s/%s" % (j["cfg"], j["instr"]) for j in jobs}),
            "geometries": sorted({a for j in jobs for a in j["args"] if a.startswith("--latt")}),
            "build_s": round(tb, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viols),
    }
    if len(sys.argv) <= 2:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, v in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%d cases, %d distinct, events %s, %.1fs" % (evals, len(distinct), json.dumps(ev["coverage"]["events"]), time.time() - t0))
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for r, v in viols:
            if v[0] in seen:
                continue
            seen.add(v[0])
            if len(seen) > 12:
                break
            h = hashlib.sha256(repr((v[0], r["job"])).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
            with open(path, "w") as f:
                json.dump({"property": pid, "key": v[0], "detail": v[1], "case": v[2], "job": r["job"],
                           "how": "python3 check.py %s %s   (reruns this workload)" % (pid, path)}, f, indent=1)
            print("  key: %s\n  case: %s\n  %s" % (v[0], v[2], v[1][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        print("NO VERDICT: " + "; ".join(errors[:5]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
