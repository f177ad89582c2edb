#!/usr/bin/env python3
"""Runs the monitor of one property:  check.py PROP [--tier quick|thorough] [--seed N] [--cases N] | check.py PROP --replay FILE

exit 0: held on everything observed (KNOWN-FINDING lines possible); exit 1 + VIOLATION line: violated;
exit 3: no verdict (build failure, harness failure, nothing observed).
"""
import argparse, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import plan as P

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")
MAX_CRASHES_PER_SHARD = 12


def known_keys(prop):
    """lines 'known: property=<id> key=<key> <what fails>'"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:report_thread_leaks=0:history_size=4"
    e["LC_ALL"] = "C.UTF-8"
    return e


def crash_key(rc, err):
    """A stable name for a crash: what kind, in which function of the project."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
    m = re.search(r"(?:WARNING|ERROR): ThreadSanitizer: ([A-Za-z -]+)", err)
    if m and not kind:
        kind = "tsan:" + re.sub(r"\s+", "-", re.sub(r" on.*", "", m.group(1)).strip())
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if not kind and m2:
        kind = "ubsan:" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d+", "", m2.group(1)))[:48].strip("-")
    if not kind:
        m3 = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
        if m3:
            kind = "terminate:" + m3.group(1).replace(" ", "")
        elif rc < 0:
            kind = "signal:%d" % -rc
        else:
            kind = "exit:%d" % rc
    fn = "?"
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+|\()", err):
        if B.REPO + "/" in m.group(2) or "/TameParse/" in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1)).strip()
            fn = re.sub(r"<.*", "", fn)
            break
    return (kind + "@" + fn).replace(" ", "")


class Shard:
    def __init__(self, k):
        self.k = k
        self.viol = []      # (index, key, text)
        self.samples, self.hashes, self.counters = [], set(), {}
        self.evals = 0
        self.inconclusive = []
        self.crashes = 0
        self.error = None


def parse_out(path, sh):
    last = None
    done = False
    cur = 0
    with open(path, encoding="utf-8", errors="replace", newline="\n") as f:
        for line in f:
            t = line[:2]
            if t == "C ":
                last = int(line[2:])
                cur += 1
            elif t == "V ":
                head, _, text = line[2:].rstrip("\n").partition("\t")
                i, _, key = head.partition(" ")
                sh.viol.append((int(i), key, text))
            elif t == "S ":
                sh.samples.append(line[2:].rstrip("\n"))
            elif t == "D ":
                sh.hashes.add(line[2:].strip())
            elif t == "K ":
                a = line[2:].split()
                sh.counters[a[0]] = sh.counters.get(a[0], 0) + int(a[1])
            elif line.startswith("E"):
                done = True
    sh.evals += cur
    return last, done


def run_once(exe, prop, seed, a, b, step, budget, out, wall):
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, prop, "--seed", str(seed), "--from", str(a), "--to", str(b), "--step", str(step), "--budget", str(budget), "--out", out]
    errp = out + ".err"
    with open(errp, "wb") as ef:
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env(), timeout=wall,
                               cwd=os.path.dirname(out), stdin=subprocess.DEVNULL)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = None
    with open(errp, "rb") as ef:
        ef.seek(0, 2)
        n = ef.tell()
        ef.seek(max(0, n - 60000))
        err = ef.read().decode("utf-8", "replace")
    return rc, err


def run_shard(exe, prop, seed, n, k, step, budget, wdir, deadline):
    sh = Shard(k)
    out = os.path.join(wdir, "shard%d.out" % k)
    a = k
    soft = time.time() + 240
    while a < n:
        left = deadline - time.time()
        if left < 5:
            sh.inconclusive.append("time limit reached at case %d" % a)
            break
        rc, err = run_once(exe, prop, seed, a, n, step, budget, out, left)
        if not os.path.exists(out):
            sh.error = "driver did not start: rc=%s %s" % (rc, err[-500:])
            break
        last, done = parse_out(out, sh)
        if rc == 0 and done:
            break
        if rc is None:
            sh.inconclusive.append("time limit reached in case %s" % last)
            break
        if last is None:
            sh.error = "driver failed: rc=%s %s" % (rc, err[-500:])
            break
        # the case `last` ended the process: run it again on its own, with a larger budget when it was the CPU limit
        rc2, err2 = run_once(exe, prop, seed, last, last + 1, 1, budget * (3 if rc == 97 else 1), out + ".again", max(10, deadline - time.time()))
        if rc2 == 0:
            if rc == 97:
                sh.inconclusive.append("case %d exceeded its CPU budget once" % last)
            else:
                sh.viol.append((last, crash_key(rc, err), "case ended the process (rc %s), only after the cases before it:\\n%s" % (rc, B_esc(err[-3000:]))))
        elif rc2 is None:
            sh.inconclusive.append("case %d: time limit" % last)
        elif rc2 == 97:
            sh.viol.append((last, "hang", "case %d does not finish within %d s of CPU time" % (last, budget * 3)))
        else:
            sh.viol.append((last, crash_key(rc2, err2), "case %d ended the process (rc %s):\\n%s" % (last, rc2, B_esc(head_tail(err2)))))
        sh.crashes += 1
        if sh.crashes >= MAX_CRASHES_PER_SHARD:
            sh.inconclusive.append("stopped after %d crashes at case %d" % (sh.crashes, last))
            break
        if time.time() > soft and sh.viol:
            sh.inconclusive.append("stopped at case %d: violations were found" % last)
            break
        a = last + step
    return sh


def head_tail(s):
    m = re.search(r"(ERROR: AddressSanitizer|(?:WARNING|ERROR): ThreadSanitizer|runtime error)", s)
    return s[max(0, m.start() - 200):m.start() + 3000] if m else s[-3000:]


def B_esc(s):
    return s.replace("\n", "\\n").replace("\t", " ")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    pl = P.PLAN[prop]
    try:
        drivers = pl["driver"] if isinstance(pl["driver"], list) else [pl["driver"]]
        exes = [B.build(d, *pl.get("config", ())) for d in drivers]
        if "prepare" in pl:
            os.environ.update(pl["prepare"](B))
    except B.BuildError as e:
        print("no verdict: the monitored build of /repo failed\n%s" % e, file=sys.stderr)
        return 3
    if a.replay:
        r = json.load(open(a.replay))
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        return subprocess.run([exes[r["case"] % len(exes)], prop, "--seed", str(r["seed"]), "--from", str(r["case"]), "--to", str(r["case"] + 1), "--show"], env=env()).returncode
    n = a.cases or pl[a.tier]
    jobs = 8
    wdir = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(wdir, exist_ok=True)
    budget = pl.get("budget", 20)
    deadline = t0 + (750 if a.tier == "quick" else 6 * 3600)
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        shards = list(ex.map(lambda k: run_shard(exes[k % len(exes)], prop, a.seed, n, k, jobs, budget, wdir, deadline), range(jobs)))
    subprocess.run(["rm", "-rf", wdir])
    errors = [s.error for s in shards if s.error]
    viol = sorted(v for s in shards for v in s.viol)
    counters = {}
    for s in shards:
        for k, v in s.counters.items():
            counters[k] = counters.get(k, 0) + v
    hashes = set().union(*[s.hashes for s in shards])
    evals = sum(s.evals for s in shards)
    incon = [x for s in shards for x in s.inconclusive]
    known = known_keys(prop)
    new = [v for v in viol if v[1] not in known]
    old = {}
    for v in viol:
        if v[1] in known:
            old[v[1]] = old.get(v[1], 0) + 1
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": pl["rule"],
            "samples": [x.replace("\\n", "\n") for s in shards for x in s.samples[:1]][:6],
            "observed_events": counters,
            "inconclusive": incon[:20],
            "known_findings_seen": old,
        },
        "assumptions": P.ASSUMPTIONS + pl.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.0f s; observed %s" % (prop, a.tier, a.seed, evals, len(hashes), wall,
          ", ".join("%s=%d" % x for x in sorted(counters.items()))))
    for x in incon[:10]:
        print("inconclusive: " + x)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s (key %s, seen %d times)" % (prop, known[k], k, old[k]))
    if new:
        rdir = os.path.join(VERIF, "work", "replay")
        os.makedirs(rdir, exist_ok=True)
        by = {}
        for v in new:
            by.setdefault(v[1], []).append(v)
        for key, vs in sorted(by.items())[:8]:
            v = vs[0]
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", key)[:60], v[0]))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": a.seed, "case": v[0], "key": key, "times": len(vs),
                           "observation": v[2].replace("\\n", "\n"),
                           "replay": "python3 tools/check.py %s --replay %s" % (prop, path)}, f, indent=1, ensure_ascii=False)
            print("violation (%d cases) %s: %s" % (len(vs), key, v[2].split("\\n")[0][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("no verdict: " + errors[0], file=sys.stderr)
        return 3
    if not hashes or evals < n // 2 or any(counters.get(x, 0) == 0 for x in pl.get("must_observe", [])):
        print("no verdict: too little was observed", file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
