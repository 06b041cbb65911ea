#!/usr/bin/env python3
"""Run the check of one property:  check.py C08

Exit 0: the property held on everything observed; exit 1 (with a VIOLATION line): it was broken;
exit 2: the check itself could not decide."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from harnesses import CHECKS, NOTES

VERIF = B.VERIF
UID = 64999

ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096:handle_abort=0:strict_string_checks=0:check_initialization_order=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(VERIF, "tools", "tsan.supp"),
    "LC_ALL": "C.UTF-8", "TZ": "UTC", "MALLOC_ARENA_MAX": "4",
}


def exhausted(j):
    """true if a job died for lack of memory"""
    return j["code"] not in (None, 0, 3) and re.search(r"AddressSanitizer: out.of.memory|failed to allocate 0x|internal allocator is out of memory", j["stderr"]) is not None or bool(j.get("greedy"))


def resident(pid):
    """memory that a process has, in MB; a sanitizer's own limit is not used as its thread opens files of its own"""
    try:
        with open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20
    except (OSError, ValueError, IndexError):
        return 0


def known_findings():
    """known-findings.txt lines: known: property=<id> key=<regex> :: what fails"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) case=(.*?) :: (.*)$", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


RESIDENT_LIMIT = 5000
MEMCHECK_EXIT = 88
# a job of this kind looks at one case in so many
MEMCHECK_SHARE = 40
LEAK_SHARE = 4


def crash_key(stderr, code):
    """Name a crash by what happened and in which function."""
    def frame_fn():
        # first frame that is in the library, else first frame at all
        first = None
        for m in re.finditer(r"^\s+#\d+ (?:0x[0-9a-f]+ (?:in )?)?(.+?) (\S+?)(?::\d+)*(?: \(\S*\))?(?: \(BuildId.*\))?$", stderr, re.M):
            fn = re.sub(r"\(.*", "", m.group(1))
            if first is None:
                first = fn
            if "/build/src/" in m.group(2):
                return fn
        return first or "?"
    if "detected memory leaks" in stderr:
        return "leak:" + frame_fn().replace(" ", "_")
    m = re.search(r"runtime error: (.*)", stderr)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:80].replace(" ", "_")
        return "ubsan:%s:%s" % (what, frame_fn().replace(" ", "_"))
    m = re.search(r"SUMMARY: (\w+)Sanitizer: ([\w-]+)(?: (.*))?", stderr)
    if m:
        return "%ssan:%s:%s" % (m.group(1)[0].lower(), m.group(2), frame_fn().replace(" ", "_"))
    m = re.search(r"terminate called after throwing an instance of '(.*)'", stderr)
    if m:
        return "terminate:" + m.group(1)
    m = re.search(r"Assertion '?(.*?)'? failed", stderr)
    if m:
        return "assert:" + m.group(1)[:80].replace(" ", "_")
    if code == MEMCHECK_EXIT:
        kind = re.search(r"==\d+== (Conditional jump or move depends on uninitialised|Use of uninitialised value|Invalid (?:read|write|free)|Syscall param \S+ (?:points to|contains) uninitialised|Source and destination overlap|Mismatched free|Jump to the invalid)", stderr)
        frames = re.findall(r"==\d+==    (?:at|by) 0x[0-9A-F]+: (.*?) \(([^)]*)\)", stderr)
        mine = [re.sub(r"\(.*", "", f) for f, where in frames if f.startswith("dcp::")]
        return "memcheck:%s:%s" % (kind.group(1).replace(" ", "_") if kind else "?", (mine[0] if mine else frames[0][0] if frames else "?").replace(" ", "_"))
    return "crash:exit%d" % code


def run_job(exe, prop, seed, tier, shard, shards, outdir, timeout, memcheck=False, work=None):
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
    out = os.path.join(outdir, "%s-%s-%d.json" % (prop + (work or ""), os.path.basename(exe) + "-" + os.path.basename(os.path.dirname(exe)), shard))
    for f in (out, out + ".hashes"):
        if os.path.exists(f):
            os.unlink(f)
    if os.geteuid() == 0:
        os.chown(scratch, UID, UID)
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--scratch", scratch, "--repo", B.REPO, "--verif", VERIF, "--shard", str(shard), "--shards", str(shards), "--out", out]
    if memcheck:
        cmd[cmd.index("--shards") + 1] = str(shards * MEMCHECK_SHARE)
        cmd = ["valgrind", "-q", "--error-exitcode=%d" % MEMCHECK_EXIT, "--exit-on-first-error=yes", "--num-callers=30", "--max-stackframe=16000000"] + cmd
    env = dict(os.environ)
    env.update(ENV)
    env["HOME"] = scratch
    if work:
        # do another property's work, on some of its cases, while looking for things not given back
        cmd[cmd.index("--shards") + 1] = str(shards * LEAK_SHARE)
        cmd += ["--work", work]
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
        env["LSAN_OPTIONS"] = "suppressions=%s:print_suppressions=0" % os.path.join(VERIF, "tools", "lsan.supp")
        env["TMPDIR"] = os.path.join(scratch, "tmp")
        os.mkdir(env["TMPDIR"])
        if os.geteuid() == 0:
            os.chown(env["TMPDIR"], UID, UID)
    err = open(os.path.join(outdir, os.path.basename(out)[:-5] + ".stderr"), "w+", errors="replace")
    p = subprocess.Popen(cmd, stdout=err, stderr=err, env=env, cwd=scratch, start_new_session=True)
    return {"p": p, "cmd": cmd, "out": out, "err": err, "scratch": scratch, "deadline": time.time() + timeout}


def reap(j):
    try:
        code = j["p"].wait(timeout=max(1, j["deadline"] - time.time()))
    except subprocess.TimeoutExpired:
        code = None
    try:
        os.killpg(j["p"].pid, 9)
    except OSError:
        pass
    if code is None:
        j["p"].wait()
    j["err"].flush()
    j["err"].seek(0)
    j["stderr"] = j["err"].read()
    j["err"].close()
    j["code"] = code
    subprocess.run(["chmod", "-R", "u+rwx", j["scratch"]], stderr=subprocess.DEVNULL)
    shutil.rmtree(j["scratch"], ignore_errors=True)
    try:
        j["result"] = json.load(open(j["out"]))
    except (OSError, ValueError):
        j["result"] = None
    return j


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    outdir = os.path.join(B.BUILD, "run")
    replaydir = os.path.join(evdir, "replay")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(outdir, exist_ok=True)
    jobs = spec["jobs"]
    try:
        wanted = sorted({(j[0], j[1]) for j in jobs})
        exes = B.build([(h, "plain" if v == "memcheck" else v) for h, v in wanted])
    except RuntimeError as e:
        print(e)
        print("ERROR property=%s could not build" % prop)
        return 2
    exe = dict(zip(wanted, exes))
    t1 = time.time()
    limit = spec.get("timeout", 240 if tier == "quick" else 3000)

    def launch(todo):
        done = []
        todo = list(todo)
        running = []
        bad = False
        while todo or running:
            while todo and len(running) < 8:
                h, v, s, n, w = todo.pop(0)
                j = run_job(exe[(h, v)], prop, seed, tier, s, n, outdir, limit, v == "memcheck", w)
                j["id"] = (h, v, s, n, w)
                running.append(j)
            for j in list(running):
                if resident(j["p"].pid) > RESIDENT_LIMIT:
                    j["greedy"] = True
                    os.killpg(j["p"].pid, 9)
                    j["p"].wait()
                if j["p"].poll() is not None or time.time() > j["deadline"]:
                    running.remove(j)
                    done.append(reap(j))
                    if not bad and not exhausted(j) and (j["code"] not in (None, 0, 3) or (j["result"] or {}).get("violations")):
                        # decided already; do not wait long for the others
                        bad = True
                        for k in running:
                            k["deadline"] = min(k["deadline"], time.time() + 60)
                            k["hurried"] = True
            time.sleep(0.02)
        return done

    todo = []
    for h, v, q, t, *work in jobs:
        n = q if tier == "quick" else t
        todo += [(h, v, s, n, work[0] if work else None) for s in range(n)]
    done = launch(todo)
    done = [j for j in done if j["code"] is not None or not j.get("hurried") or "KIT violation" in j["stderr"]]
    hung = [j for j in done if j["code"] is None and "KIT violation" not in j["stderr"]]
    if hung:
        # a timeout decides nothing by itself: try once more
        done = [j for j in done if j not in hung] + launch([j["id"] for j in hung])
    for j in [j for j in done if exhausted(j)][:2]:
        # nor does a lack of memory, unless one job needs too much when it is alone
        done.remove(j)
        again = launch([j["id"]])
        for k in again:
            k["alone"] = True
        done += again

    violations = []
    errors = []
    ev = {"evaluations": 0, "observations": 0}
    counters, maxima, samples, rules, assumptions, hashes = {}, {}, [], [], [], set()
    per = {}
    for j in done:
        r = j["result"]
        if j["code"] is None:
            if "KIT violation" not in j["stderr"]:
                violations.append({"key": "hang", "detail": "no end after %d s, twice" % limit, "case": "", "job": j})
            for m in re.finditer(r"KIT violation key=(\S+) case=\[(.*?)\] (.*)", j["stderr"]):
                violations.append({"key": m.group(1), "case": m.group(2), "detail": m.group(3), "job": j})
            continue
        if j["code"] == 3:
            errors.append(j["stderr"][-3000:])
            continue
        if j["code"] != 0:
            m = re.findall(r"KIT (?:signal )?death in case \[(.*)\]", j["stderr"])
            if exhausted(j):
                if j.get("alone"):
                    violations.append({"key": "out-of-memory", "detail": j["stderr"][-3000:], "case": m[0] if m else "", "job": j})
                else:
                    errors.append("out of memory\n" + j["stderr"][-3000:])
                continue
            if j["id"][4] and "detected memory leaks" not in j["stderr"]:
                # some other property is broken; this one cannot be decided
                errors.append("died while watching for leaks\n" + j["stderr"][-3000:])
                continue
            i = max(j["stderr"].find("ERROR: "), 0) or max(j["stderr"].find("runtime error"), 0) or max(j["stderr"].find("WARNING: Thread"), 0)
            violations.append({"key": crash_key(j["stderr"], j["code"]), "detail": j["stderr"][max(0, i - 300):i + 5000], "case": m[0] if m else "", "job": j})
            for m in re.finditer(r"KIT violation key=(\S+) case=\[(.*?)\] (.*)", j["stderr"]):
                violations.append({"key": m.group(1), "case": m.group(2), "detail": m.group(3), "job": j})
            continue
        if not r or not r["complete"]:
            errors.append("no result from %s\n%s" % (j["cmd"], j["stderr"][-3000:]))
            continue
        ev["evaluations"] += r["evaluations"]
        ev["observations"] += r["observations"]
        for k, n in r["counters"].items():
            counters[k] = counters.get(k, 0) + n
        for k, n in r["maxima"].items():
            maxima[k] = max(maxima.get(k, n), n)
        for s in r["samples"]:
            if len(samples) < 12 and s not in samples:
                samples.append(s)
        for s in r["rules"]:
            if s not in rules:
                rules.append(s)
        for s in r["assumptions"]:
            if s not in assumptions:
                assumptions.append(s)
        data = open(j["out"] + ".hashes", "rb").read()
        hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        h, v, s, n, w = j["id"]
        k = h + "/" + v + (" doing " + w if w else "")
        per[k] = per.get(k, 0) + r["evaluations"]
        for x in r["violations"]:
            violations.append({"key": x["key"], "detail": x["detail"], "case": x["case"], "job": j})

    if not done and not errors:
        errors.append("nothing ran")
    if not violations and not errors and (ev["evaluations"] == 0 or ev["observations"] == 0 or len(hashes) < 2):
        errors.append("the run observed nothing")

    known = known_findings()
    fresh = []
    seen_known = []
    for x in violations:
        for p, rx, cx, what in known:
            if p == prop and rx.fullmatch(x["key"]) and cx.search(x["case"]):
                if what not in seen_known:
                    seen_known.append(what)
                break
        else:
            fresh.append(x)
    for w in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))

    coverage = {"evaluations": ev["evaluations"], "distinct_nontrivial": len(hashes),
                "rule": " ".join(rules) or "see DESIGN.md", "samples": samples,
                "oracle_observations": ev["observations"], "cases_per_program": per, "counters": counters}
    if maxima:
        coverage["maxima"] = maxima
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": NOTES[prop][1], "coverage": coverage,
                "assumptions": assumptions, "wall_s": round(time.time() - t0, 3), "build_s": round(t1 - t0, 3), "violations": len({x["key"] for x in fresh})}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if fresh:
        os.makedirs(replaydir, exist_ok=True)
        by_key = {}
        for x in fresh:
            by_key.setdefault(x["key"], x)
        for n, (key, x) in enumerate(sorted(by_key.items())):
            path = os.path.join(replaydir, "%s-%d.txt" % (prop, n))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\ncase: %s\nseed: %d tier: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s\ncommand: %s\n\n%s\n" % (
                    prop, key, x["case"], seed, tier, seed, tier, prop, " ".join(x["job"]["cmd"]), x["detail"]))
            print("  %s: %s | case: %s" % (key, x["detail"][:300].replace("\n", " "), x["case"][:200]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR property=%s" % prop)
        for e in errors:
            print(e)
        return 2
    print("OK property=%s evaluations=%d distinct=%d observations=%d build=%.1fs run=%.1fs" % (prop, ev["evaluations"], len(hashes), ev["observations"], t1 - t0, time.time() - t1))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        # nothing was decided
        traceback.print_exc()
        code = 2
    sys.exit(code)
