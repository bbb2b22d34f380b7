#!/usr/bin/env python3
"""Builds and runs the check of one property.   check.py ID   (VERIF_SEED, VERIF_TIER from the environment)
   check.py --replay FILE   repeats the case a VIOLATION line points to.

Exit 0: held on everything explored (or only known findings); 1: VIOLATION; 2: the check could not decide."""
import fcntl, json, os, re, shutil, struct, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


class BuildFailed(Exception):
    pass


def build(san, target, extra=(), fatal=True):
    """Configure and build one target against REPO's working tree; incremental if a build directory is left."""
    name = san + "".join("-" + hashlib.sha1(e.encode()).hexdigest()[:6] for e in extra)
    bdir = os.path.join(VERIF, "build", name)
    os.makedirs(bdir, exist_ok=True)
    log = os.path.join(bdir, "log-%s.txt" % target)
    with open(os.path.join(bdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(log, "w") as f:
            cc = ["-DCMAKE_CXX_COMPILER=/usr/bin/clang++"]
            r = subprocess.run(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bdir, "-G", "Ninja", "-Wno-dev",
                                "-Wno-deprecated", "-DCMAKE_BUILD_TYPE=None", "-DREPO=" + REPO, "-DSAN=" + san] + cc + list(extra),
                               stdout=f, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                r = subprocess.run(["ninja", "-C", bdir, target], stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        tail = open(log, errors="replace").read()[-4000:]
        if not fatal:
            raise BuildFailed("\n".join(l for l in tail.split("\n") if "error" in l) or tail)
        die("build of %s (%s) failed:\n%s" % (target, san, tail))
    return os.path.join(bdir, target)


def sanitizer_key(pid, text):
    """Key of a crash: kind of the report and the first function of libjnivm or the harness in its stack."""
    kind = None
    for pat, k in ((r"ERROR: AddressSanitizer: ([\w-]+)", "asan-"), (r"WARNING: ThreadSanitizer: ([\w -]+?)(?: \(|$)", "tsan-"),
                   (r"runtime error: ([^\n]{0,60})", "ubsan-"), (r"ERROR: AddressSanitizer ([\w-]+)", "asan-"),
                   (r"(Assertion '[^\n]{0,80})", "assert-"), (r"(terminate called[^\n]{0,80})", "terminate-"),
                   (r"ThreadSanitizer:([\w-]+)", "tsan-")):
        m = re.search(pat, text, re.M)
        if m:
            kind = k + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1)).strip().replace(" ", "-")
            break
    if not kind:
        return None
    fn = ""
    for m in re.finditer(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+?)(?::\d+)*(?: |$)", text, re.M):
        if "/src/jnivm" in m.group(2) or "/src/fake-jni" in m.group(2) or "/src/baron" in m.group(2) or "/include/jnivm" in m.group(2) \
                or "/include/fake-jni" in m.group(2) or m.group(2).startswith(os.path.join(VERIF, "harness")):
            fn = re.sub(r"[(<].*", "", m.group(1))
            break
    return "%s:%s@%s" % (pid, kind, fn)


def run_once(exe, pid, cfg, seed, tier, outdir, shards, only=None, timeout=200, reuse=False):
    procs = []
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:max_allocation_size_mb=8000" + cfg.get("asan", "")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=67"
    env["TSAN_OPTIONS"] = "halt_on_error=%d:exitcode=68:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:suppressions=%s" % (
        0, os.path.join(VERIF, "harness", "tsan.supp"))
    env["VERIF_REPO"] = REPO
    for i in range(shards):
        d = os.path.join(outdir, "s%d" % i)
        os.makedirs(d, exist_ok=True)
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", d, "--shard", "%d/%d" % (i, shards)]
        if only is not None:
            cmd += ["--case", str(only)]
        out = open(os.path.join(d, "stdout"), "wb")
        err = open(os.path.join(d, "stderr"), "wb")
        e = env
        if reuse or (only is None and i % 4 == 3):
            # freed addresses are used again at once, so that anything kept under a dead address meets its successor
            e = dict(env, ASAN_OPTIONS=env["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
        procs.append((d, subprocess.Popen(cmd, stdout=out, stderr=err, env=e, cwd=d, start_new_session=True)))
    end = time.time() + timeout
    results = []
    for d, p in procs:
        try:
            rc = p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            rc = "timeout"
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        results.append((d, rc))
    return results


def tail(path, n=200000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            sz = f.tell()
            f.seek(max(0, sz - n))
            return f.read().decode("utf8", "replace")
    except OSError:
        return ""


def current_case(d):
    t = tail(os.path.join(d, "current.txt"), 1 << 19).split("\0", 1)[0]
    m = re.match(r"case=(-?\d+)", t)
    return (int(m.group(1)) if m else None), t


def collect(pid, results):
    """-> violations [(key, msg, case, ops)], merged stats, hung shards"""
    viol, hung = [], []
    ev, hashes, samples, evals, complete = {}, set(), [], 0, True
    for d, rc in results:
        case, ops = current_case(d)
        err = tail(os.path.join(d, "stderr"))
        res = None
        try:
            res = json.load(open(os.path.join(d, "result.json")))
        except (OSError, ValueError):
            pass
        if rc == "timeout":
            hung.append((d, case, ops))
            complete = False
            continue
        if res:
            evals += res["evaluations"]
            for k, v in res["events"].items():
                ev[k] = ev.get(k, 0) + v
            samples += res["samples"]
            for v in res["violations"]:
                viol.append((v["key"], v["msg"], v["case"], v["ops"]))
            data = open(os.path.join(d, "distinct.bin"), "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        # ThreadSanitizer reports do not end the process: every report block counts
        if "WARNING: ThreadSanitizer" in err:
            for blk in re.split(r"={10,}", err):
                if "WARNING: ThreadSanitizer" in blk:
                    viol.append((sanitizer_key(pid, blk) or pid + ":tsan", blk.strip()[:3000], case, ops))
        elif rc != 0 or not res:
            key = sanitizer_key(pid, err) or "%s:crash-%s" % (pid, rc)
            i = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error"), 0)
            viol.append((key, err[i:i + 4000] or "process ended with status %s" % rc, case, ops))
            complete = False
            # violations recorded before the crash
            for m in re.finditer(r"^VH-VIOLATION key=(\S+) case=(\d+) (.*)$", err, re.M):
                viol.append((m.group(1), m.group(3), int(m.group(2)), ops))
    return viol, dict(events=ev, distinct=len(hashes), samples=samples, evaluations=evals, complete=complete), hung


def read_transcripts(out):
    got = {}
    for d in sorted(os.listdir(out)):
        try:
            for line in open(os.path.join(out, d, "transcripts.txt")):
                k, h = line.split()
                got[int(k)] = h
        except OSError:
            pass
    return got


def compare(pid, spec, root, ran, seed, tier, timeout):
    """Cases whose observations differ between the first build and another one -> violations, number compared"""
    viol, n = [], 0
    (ref, refexe), others = ran[0], ran[1:]
    want = read_transcripts(os.path.join(root, ref["name"] + "-0"))
    for cfg, exe in others:
        got = read_transcripts(os.path.join(root, cfg["name"] + "-0"))
        n += len(set(want) & set(got))
        for case in [c for c in sorted(set(want) & set(got)) if want[c] != got[c]][:2]:
            text, ops = [], ""
            for c, x in ((ref, refexe), (cfg, exe)):
                out = os.path.join(root, "diff-%s-%s-%d" % (cfg["name"], c["name"], case))
                run_once(x, pid, c, seed, tier, out, 1, case, timeout, True)
                text.append(tail(os.path.join(out, "s0", "transcript.txt"), 1 << 22).split("\n"))
                ops = current_case(os.path.join(out, "s0"))[1]
            i = next((i for i, (a, b) in enumerate(zip(*text)) if a != b), min(map(len, text)))
            line = lambda t: t[i].strip() if i < len(t) else "(nothing)"
            viol.append(("%s:differs-%s" % (pid, cfg["name"]), "case %d, observation %d after \"%s\": \"%s\" with the options '%s', but \"%s\" with '%s'" % (
                case, i, text[0][i - 1].strip() if i else "", line(text[0]), " ".join(ref.get("cmake", ())) or "default", line(text[1]), " ".join(cfg.get("cmake", ()))),
                case, "\n".join(text[0][max(0, i - 40):i + 1]), cfg["name"], seed))
    return viol, n


def known_findings():
    known = []
    try:
        for line in open(os.path.join(VERIF, "known-findings")):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    except OSError:
        pass
    return known


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        pid, seed, tier, only, part = rep["property"], rep["seed"], rep["tier"], rep["case"], rep["part"]
    else:
        pid, only, part = sys.argv[1], None, None
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[pid]
    t0 = time.time()
    cores = os.cpu_count() or 4
    root = os.path.join(VERIF, "run", pid)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    allviol, stats, ran = [], [], []
    for cfg in spec["runs"]:
        if part and cfg["name"] != part and not spec.get("compare"):
            continue
        if cfg.get("tier") and cfg["tier"] != tier:
            continue
        try:
            exe = build(cfg["san"], cfg["target"], cfg.get("cmake", ()), not (spec.get("compare") and ran))
        except BuildFailed as e:
            # other options compile: these have to as well
            allviol.append(("%s:does-not-compile-%s" % (pid, cfg["name"]), "with %s: %s" % (" ".join(cfg["cmake"]), e), None, str(e), cfg["name"], seed))
            continue
        shards = min(cfg.get("shards", cores), cores) if only is None else 1
        timeout = cfg.get("timeout", 240) if tier == "quick" else cfg.get("timeout_thorough", 3600)
        repeat = cfg.get("repeat", 1) if only is None else 1
        ran.append((cfg, exe))
        for n in range(repeat):
            out = os.path.join(root, cfg["name"] + "-%d" % n)
            res = run_once(exe, pid, cfg, seed + 7919 * n, tier, out, shards, only, timeout)
            viol, st, hung = collect(pid, res)
            if only is not None and not viol and not hung:
                # the case may have been in a shard which reuses addresses
                res = run_once(exe, pid, cfg, seed + 7919 * n, tier, out, shards, only, timeout, True)
                viol, st, hung = collect(pid, res)
            if hung:
                # a watchdog alone decides nothing: repeat the case it stopped in, alone
                for d, case, ops in hung[:2]:
                    o2 = os.path.join(root, "rehang-%s" % case)
                    r2 = run_once(exe, pid, cfg, seed + 7919 * n, tier, o2, 1, case, cfg.get("hang_timeout", 90)) if case is not None else res
                    v2, _, h2 = collect(pid, r2)
                    viol += v2
                    if h2:
                        viol.append(("%s:no-progress" % pid, "the case does not end, alone neither (watchdog fired twice)", case, ops))
                    elif not v2:
                        # did not hang alone: interleaving or load; repeat the whole run once
                        o3 = os.path.join(root, "rerun")
                        r3 = run_once(exe, pid, cfg, seed + 7919 * n, tier, o3, shards, only, timeout)
                        v3, st, h3 = collect(pid, r3)
                        viol += v3
                        if h3:
                            viol.append(("%s:no-progress" % pid, "the run does not end (watchdog fired in two runs)", h3[0][1], h3[0][2]))
                    break
            stats.append((cfg["name"], st))
            allviol += [(k, m, c, o, cfg["name"], seed + 7919 * n) for k, m, c, o in viol]
            if any(True for v in viol):
                break
    if spec.get("compare") and ran:
        v, n = compare(pid, spec, root, [r for r in ran if r[0]["target"] == ran[0][0]["target"]], seed, tier, 120)
        allviol += v
        if stats:
            stats[0][1]["events"]["transcripts compared"] = n
    # verdict
    known = known_findings()
    seen_known, fresh = {}, {}
    for v in allviol:
        hit = next((k for k in known if k[0] == pid and k[1] == v[0]), None)
        if hit:
            seen_known[hit[1]] = hit[2]
        else:
            fresh.setdefault(v[0], v)
    for key, what in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    rule = spec["rule"]
    events = {}
    for name, st in stats:
        for k, v in st["events"].items():
            events[k] = events.get(k, 0) + v
    evals = sum(st["evaluations"] for _, st in stats)
    distinct = sum(st["distinct"] for _, st in stats)
    evidence = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": rule,
            "samples": [s for _, st in stats for s in st["samples"]][:6] or ["none"],
            "events": events, "builds": sorted({c["san"] for c in spec["runs"]}),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(evidence, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if fresh:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (key, v) in enumerate(sorted(fresh.items())):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            json.dump({"property": pid, "key": key, "message": v[1], "case": v[2], "trace": v[3], "part": v[4], "seed": v[5], "tier": tier},
                      open(path, "w"), indent=1)
            print("# %s: %s" % (key, v[1].split("\n")[0][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if only is None:
        if not all(st["complete"] for _, st in stats):
            die("%s: a run did not complete" % pid)
        for need in spec.get("needs", []):
            if not events.get(need):
                die("%s: inconclusive, the workload observed no '%s'" % (pid, need))
        if evals == 0 or distinct < spec.get("min_distinct", 2):
            die("%s: inconclusive, nothing observed" % pid)
    print("OK %s: %d cases, %d distinct, %s, %.1fs" % (pid, evals, distinct, ", ".join("%s=%d" % e for e in sorted(events.items())[:12]), time.time() - t0))
    sys.exit(0)


main()
