"""Runs a C++ harness built on engine/pbt.h: sharded search, shrinking, threefold replay, evidence."""
import json, os, shutil, struct, subprocess, sys, tempfile, time
from common import *

STALL_WALL = 180      # no new case for this long ...
STALL_CPU = 2.0       # ... while using less CPU than this: the case is blocked (a busy case ends by its own CPU limit)
SEARCH_WALL = 560


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


def read_cur(path):
    """(evaluations, case index, status, tape, message) from the mapped file a shard leaves behind."""
    with open(path, "rb") as f:
        head = f.read(32)
        ev, idx, status, n = struct.unpack("<QQQQ", head)
        n = min(n, 1 << 16)
        tape = struct.unpack("<%dQ" % n, f.read(8 * n))
        f.seek(32 + 8 * (1 << 16))
        msg = f.read(8192).split(b"\0")[0].decode("utf-8", "replace")
    return ev, idx, status, tape, msg


def save_tape(path, tape):
    with open(path, "w") as f:
        f.write("".join("%d\n" % v for v in tape))


def replay(binary, tape, timeout=240, symbolize=0):
    """(fails, description)"""
    log = tape + ".log"
    if os.path.exists(log):
        os.unlink(log)
    try:
        p = subprocess.run([binary, "replay", "--tape", tape, "--log", log], env=sanitizer_env(symbolize),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout,
                           cwd=os.path.dirname(tape))
    except subprocess.TimeoutExpired:
        return True, "the case does not come to an end (blocked)"
    text = open(log, errors="replace").read() if os.path.exists(log) else ""
    if p.returncode == 0:
        return False, text
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode == 3:
        return True, text
    if p.returncode == 7:
        return True, text + "\nFAILS: the case does not terminate or needs unbounded memory\n"
    return True, text + "\nFAILS: the process ended with %s\n%s" % (p.returncode, out[-6000:])


class Harness:
    def __init__(self, prop, src, quick, thorough, rule, flags=(), san="asan", std="c++14", cxx="clang++", nondet=False,
                 shards=JOBS, fuzz=0, assumptions=None, shrink_budget=1500, name=None):
        self.__dict__.update(locals())
        self.src = os.path.join(VERIF, "harness", src)
        self.name = name or os.path.splitext(os.path.basename(src))[0]


def uses_fences(binary):
    """engine/fence.h leaves a function of this name in the binary exactly if the code has a fence"""
    out = subprocess.run(["nm", binary], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
    return b"fence_used" in out


def build_harness(h):
    binary, log = build(h.prop, h.src, h.cxx, h.std, h.san, h.flags)
    if binary is not None and h.san == "tsan" and uses_fences(binary):
        print("NOTE %s: fences are used; the thread sanitizer judges with stronger memory orders" % h.prop)
        binary, log = build(h.prop, h.src, h.cxx, h.std, h.san, list(h.flags) + ["-DPBT_FENCES"])
    return binary, log


def run_shards(h, binary, work, sd, cases, shards):
    procs = []
    for k in range(shards):
        d = os.path.join(work, "s%d" % k)
        os.makedirs(d, exist_ok=True)
        cmd = [binary, "run", "--seed", str(sd), "--shard", str(k), "--shards", str(shards), "--cases", str(cases), "--out", d]
        err = open(os.path.join(d, "stderr"), "wb")
        procs.append([k, d, subprocess.Popen(cmd, env=sanitizer_env(), stdout=err, stderr=err, stdin=subprocess.DEVNULL,
                                             cwd=d), None, time.time(), 0.0, -1])
    start = time.time()
    failed = None
    truncated = False
    while any(p[3] is None for p in procs):
        time.sleep(0.05)
        for p in procs:
            if p[3] is not None:
                continue
            rc = p[2].poll()
            if rc is not None:
                p[3] = rc
                if rc != 0 and failed is None:
                    failed = p
                continue
            now = time.time()
            cur = os.path.join(p[1], "cur")
            try:
                with open(cur, "rb") as f:
                    ev = struct.unpack("<Q", f.read(8))[0]
            except (OSError, struct.error):
                ev = -1
            cpu = _cpu(p[2].pid) or 0.0
            if ev != p[6]:
                p[6], p[4], p[5] = ev, now, cpu
            elif now - p[4] > STALL_WALL and cpu - p[5] < STALL_CPU:
                p[2].kill()
                p[2].wait()
                p[3] = "blocked"
                if failed is None:
                    failed = p
        if failed is not None:
            break
        if time.time() - start > SEARCH_WALL and os.environ.get("VERIF_TIER") != "thorough":
            truncated = True
            break
    for p in procs:
        if p[2].poll() is None:
            p[2].kill()
            p[2].wait()
    return procs, failed, truncated


def merge(procs):
    total = dict(evaluations=0, discards=0, nontrivial=0)
    classes, samples, distinct = {}, [], set()
    for p in procs:
        st = os.path.join(p[1], "stats.json")
        if os.path.exists(st):
            s = json.load(open(st))
            for k in total:
                total[k] += s[k]
            for c, n in s["classes"].items():
                classes[c] = classes.get(c, 0) + n
            samples += s["samples"]
            data = open(os.path.join(p[1], "distinct"), "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        else:
            try:
                total["evaluations"] += read_cur(os.path.join(p[1], "cur"))[0]
            except (OSError, struct.error):
                pass
    return total, classes, samples, distinct


def fuzz_campaign(h, work, sd, runs, binary):
    """Coverage-guided search over the same cases. Returns a failing tape path or None, and the number of executions."""
    fb, log = build(h.prop, h.src, "clang++", h.std, h.san, h.flags, fuzz=True)
    if fb is None:
        return None, 0
    procs = []
    for k in range(h.shards):
        d = os.path.join(work, "f%d" % k)
        os.makedirs(os.path.join(d, "corpus"), exist_ok=True)
        cmd = [fb, os.path.join(d, "corpus"), "-seed=%d" % (1 + (sd * 64 + k) % 2000000000), "-runs=%d" % runs, "-max_len=1024",
               "-timeout=60", "-rss_limit_mb=3500", "-use_value_profile=1", "-artifact_prefix=" + d + "/", "-print_final_stats=1",
               "-len_control=30"]
        err = open(os.path.join(d, "stderr"), "wb")
        procs.append((k, d, subprocess.Popen(cmd, env=sanitizer_env(), stdout=err, stderr=err, stdin=subprocess.DEVNULL, cwd=d)))
    stop = time.time() + 1500
    bad = None
    while any(p.poll() is None for _, _, p in procs) and bad is None and time.time() < stop:
        time.sleep(0.2)
        for k, d, p in procs:
            if p.poll() not in (None, 0):
                arts = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-"))]
                if arts:
                    bad = os.path.join(d, arts[0])
                    break
    execs = 0
    for k, d, p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
        for line in open(os.path.join(d, "stderr"), errors="replace"):
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
    if bad is None:
        return None, execs
    tape = os.path.join(work, "fuzz.tape")
    subprocess.run([binary, "bytes", "--in", bad, "--out", tape], env=sanitizer_env(), stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, timeout=300)
    if not os.path.exists(tape):
        return None, execs
    ok, _ = replay(binary, tape)
    return (tape if ok else None), execs


def judge_failure(h, binary, work, sd, cases, shards, proc):
    """A failing shard: shrink, replay three times. Returns the text of the replay file, or None if nothing is reproducible."""
    tape = os.path.join(work, "failing.tape")
    shard_msg = ""
    ft = os.path.join(proc[1], "fail.tape")
    if os.path.exists(ft):
        shutil.copy(ft, tape)
        shard_msg = open(os.path.join(proc[1], "fail.txt"), errors="replace").read()
    else:
        ev, idx, status, t, msg = read_cur(os.path.join(proc[1], "cur"))
        save_tape(tape, t)
        err = open(os.path.join(proc[1], "stderr"), errors="replace").read()
        shard_msg = msg + "\n" + err[-4000:] + "\nexit: %s" % proc[3]
    return judge_tape(h, binary, work, tape, shard_msg,
                      rerun=lambda: rerun_shard(h, binary, work, sd, cases, shards, proc[0]))


def rerun_shard(h, binary, work, sd, cases, shards, k):
    d = os.path.join(work, "again")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        p = subprocess.run([binary, "run", "--seed", str(sd), "--shard", str(k), "--shards", str(shards), "--cases", str(cases),
                            "--out", d], env=sanitizer_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           stdin=subprocess.DEVNULL, timeout=400, cwd=d)
        return p.returncode != 0
    except subprocess.TimeoutExpired:
        return True


def judge_tape(h, binary, work, tape, shard_msg, rerun=None):
    blocked = "exit: blocked" in shard_msg
    tmo = 100 if blocked else 240
    began = time.time()
    first = [replay(binary, tape, tmo)]
    slow = time.time() - began > 10        # a case that takes this long is neither shrunk nor replayed often
    first += [replay(binary, tape, tmo) for _ in range(0 if h.nondet or (slow and not first[0][0]) else 1 if slow else 2)]
    head = "property %s\nharness %s\n" % (h.prop, os.path.relpath(h.src, VERIF))
    if all(f for f, _ in first) and not blocked and not slow:
        small = os.path.join(work, "small.tape")
        try:
            subprocess.run([binary, "shrink", "--tape", tape, "--out", small, "--budget", str(h.shrink_budget)],
                           env=sanitizer_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           stdin=subprocess.DEVNULL, timeout=200, cwd=work)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(small) and all(replay(binary, small)[0] for _ in range(3)):
            tape = small
    ok, desc = replay(binary, tape, tmo, symbolize=1)
    if ok:
        with open(tape) as f:
            t = f.read()
        return head + "replay: python3 check.py --replay <this file>\n\n" + desc + "\nfirst seen as: " + shard_msg[:1500] + \
            "\n--- tape ---\n" + t
    if h.nondet and shard_msg:
        return head + "(schedule or clock dependent: the recorded run is the evidence)\n\n" + shard_msg + "\n--- tape ---\n" + open(tape).read()
    if rerun is not None and rerun() and rerun():
        return head + "(depends on the cases before it: reproduced by repeating the whole shard)\n\n" + shard_msg
    return None


def run(h, tier):
    t0 = time.time()
    sd = seed()
    binary, log = build_harness(h)
    if binary is None:
        report_violation(h.prop, "the public interface no longer compiles:\n" + open(log).read())
        write_evidence(h.prop, tier, dict(evaluations=1, distinct_nontrivial=0, rule=h.rule, samples=["compile failure"]),
                       time.time() - t0, 1)
        return 1
    work = tempfile.mkdtemp(prefix="w-", dir=os.path.join(BUILD, h.prop))
    try:
        cases = h.quick if tier == "quick" else h.thorough
        procs, failed, truncated = run_shards(h, binary, work, sd, cases, h.shards)
        total, classes, samples, distinct = merge(procs)
        text = judge_failure(h, binary, work, sd, cases, h.shards, failed) if failed else None
        if failed and text is None:
            print("NOTE %s: a shard ended with %s but nothing reproduces" % (h.prop, failed[3]))
        execs = 0
        if text is None and h.fuzz and tier == "thorough":
            tape, execs = fuzz_campaign(h, work, sd, h.fuzz, binary)
            if tape:
                text = judge_tape(h, binary, work, tape, "found by the coverage-guided campaign")
        cov = dict(evaluations=total["evaluations"] + execs, distinct_nontrivial=len(distinct), rule=h.rule,
                   samples=samples[:8] or ["(none recorded)"], discarded=total["discards"], nontrivial=total["nontrivial"],
                   classes=classes)
        if execs:
            cov["coverage_guided_executions"] = execs
        if truncated:
            cov["truncated"] = "search stopped after %d s wall time" % SEARCH_WALL
        code = 0
        if text is not None:
            import hashlib
            case = hashlib.sha256(text.split("--- tape ---")[-1].encode()).hexdigest()[:16]
            for prop, k, line in known_findings():
                if prop == h.prop and k == case:
                    print("KNOWN-FINDING: " + line)
                    break
            else:
                report_violation(h.prop, text)
                code = 1
        write_evidence(h.prop, tier, cov, time.time() - t0, code, assumptions=h.assumptions)
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)
