#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property.

1. TLC explores the specification (exhaustive block alphabets, random behaviours) and checks its invariants; every complete
   behaviour is written as a record.
2. The harness (rebuilt from /repo's working tree) replays every record on the real crate.
3. A discrepancy that concerns PROPERTY is a violation, unless known-findings.txt lists it.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
from jobs import jobs_for

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
P = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
WORK = os.path.join(ROOT, ".work", P)
START = time.time()


class Tokens:
    """Cores."""

    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


CORES = Tokens(max(8, os.cpu_count() or 8))


def fail(msg):
    print(f"check error: {msg}", flush=True)
    sys.exit(2)


def build():
    cmd = ". /opt/vp/env.sh >/dev/null 2>&1; cd %s && exec cargo build --offline" % os.path.join(ROOT, "harness")
    CORES.take(3)
    try:
        r = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        CORES.give(3)
    if r.returncode != 0:
        raise RuntimeError("the harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(ROOT, "harness", "target", "debug", "conform")


def tlc(i, job):
    """Runs one TLC job; the records of several workers may be mixed up when they are long (see CSVWrite)."""
    r = tlc_once(i, job)
    if job.get("workers", 1) > 1 and not all(l[:1] == '"' and l[-1:] == '"' and len(l) < 8000 for l in open(r[0], newline="\n").read().split("\n") if l):
        return tlc_once(i, dict(job, workers=1))
    return r


def tlc_once(i, job):
    """Runs one TLC job; returns (file of records, states, transitions, description)."""
    d = os.path.join(WORK, f"j{i}")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "records.nd")
    open(out, "w").close()
    env = dict(os.environ, OUT=out)
    env.update({k: str(v) for k, v in job["env"].items()})
    w = job.get("workers", 1)
    cmd = ["java", "-Xss64m", "-Xmx%dm" % job.get("mem", 2500), "-XX:+UseSerialGC" if w == 1 else "-XX:+UseParallelGC",
           "-XX:ActiveProcessorCount=%d" % max(w, 2), "-cp", TLA, "tlc2.TLC", "-workers", str(w), "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "states"), "-config", job["module"] + ".cfg"]
    if "num" in job:
        cmd += ["-simulate", "num=%d" % job["num"], "-depth", "2000", "-seed", str(job["seed"])]
    cmd += [job["module"] + ".tla"]
    CORES.take(w)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=840 if TIER == "quick" else 6 * 3600)
    finally:
        CORES.give(w)
    log = r.stdout
    with open(os.path.join(d, "log"), "w") as f:
        f.write(log)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    ok = r.returncode == 0 and "Error:" not in log and ("num" in job or "No error has been found" in log)
    if not ok:
        raise RuntimeError(f"TLC on {job}:\n" + log[-3000:])
    if "num" in job:
        states = int(re.findall(r"The number of states generated: ([\d,]+)", log)[-1].replace(",", ""))
        init = job["num"]
    else:
        states = int(re.findall(r"([\d,]+) distinct states found", log)[-1].replace(",", ""))
        init = 1
    return out, states, max(states - init, 0), job["name"]


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def conform(binary, files):
    r = subprocess.run([binary] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
    if r.returncode == 0:
        lines = [json.loads(l) for l in r.stdout.split("\n") if l]
        return lines[:-1], lines[-1]
    if r.returncode == 3 or r.returncode > 0:
        raise RuntimeError("harness: " + (r.stdout + r.stderr)[-3000:])
    # the process was killed by one of the behaviours: find it
    r = subprocess.run([binary, "--one"] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
    at = re.findall(r"^AT (\d+)$", r.stderr, re.M)
    if r.returncode == 0 or not at:
        raise RuntimeError("the harness died, but not when run again: " + r.stderr[-2000:])
    return ([{"line": int(at[-1]), "classes": ["*"], "known": None,
              "what": f"the process dies with signal {-r.returncode} while this behaviour is replayed"}],
            {"records": int(at[-1]), "counts": {}})


def known_findings():
    out = {}
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l)
        if m:
            out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


def main():
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    jobs = jobs_for(P, TIER, SEED)
    with ThreadPoolExecutor(len(jobs) + 1) as ex:
        b = ex.submit(build)
        time.sleep(0.1)
        fs = [ex.submit(tlc, i, j) for i, j in enumerate(jobs)]
        done, errors = [], []
        for f in [b] + fs:
            try:
                done.append(f.result())
            except Exception as e:  # noqa
                errors.append(str(e))
        if errors:
            fail("\n".join(errors))
    binary, runs = done[0], done[1:]
    files = [r[0] for r in runs]
    try:
        found, summary = conform(binary, files)
    except RuntimeError as e:
        fail(str(e))
    known = known_findings()
    violations, seen = [], {}
    for d in found:
        k = d.get("known")
        if k and k in known:
            seen[k] = seen.get(k, 0) + 1
        elif P in d["classes"] or "*" in d["classes"]:
            violations.append(d)
    other = {}
    for d in found:
        if not d.get("known") and P not in d["classes"] and "*" not in d["classes"]:
            for c in d["classes"]:
                other[c] = other.get(c, 0) + 1
    lines = []
    for f in files:
        lines += [l for l in open(f, newline="\n").read().split("\n") if l.strip()]
    if not lines:
        fail("no behaviour was generated")

    def rec(i):
        r = json.loads(lines[i])
        return json.loads(r) if isinstance(r, str) else r

    def short(i):
        s = json.dumps(rec(i), separators=(",", ":"))
        return s if len(s) < 3000 else s[:3000] + "..."

    step = max(1, len(lines) // 4)
    evidence = {
        "property": P, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": sum(r[1] for r in runs),
            "transitions": sum(r[2] for r in runs),
            "traces_validated_against_impl": summary["records"],
            "samples": [short(i) for i in range(0, len(lines), step)][:4],
            "jobs": [{"job": r[3], "states": r[1], "records": sum(1 for _ in open(r[0]))} for r in runs],
            "observations": summary["counts"],
            "known_findings_seen": seen,
            "discrepancies_of_other_properties": other,
        },
        "assumptions": ["the specification's vocabulary tables state the intended behaviour", "TLC and the JSON reader of the harness are correct"],
        "violations": len(violations),
        "wall_s": round(time.time() - START, 1),
    }
    with open(os.path.join(ROOT, "evidence", P + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k, (prop, what) in known.items():
        if prop == P:
            print(f"KNOWN-FINDING: property={P} {what} ({k})")
    if violations:
        d = violations[0]
        replay = os.path.join(ROOT, "evidence", f"replay-{P}.nd")
        with open(replay, "w") as f:
            f.write(json.dumps(rec(d["line"])) + "\n")
        for d in violations[:5]:
            print("  " + d["what"][:600])
        print(f"VIOLATION property={P} replay={replay}")
        sys.exit(1)
    print(f"ok: property={P} {evidence['coverage']['states']} states, {summary['records']} behaviours replayed, {evidence['wall_s']} s")


try:
    main()
except Exception:
    import traceback
    traceback.print_exc()
    fail("unexpected exception")
finally:
    if os.environ.get("VERIF_KEEP") is None:
        shutil.rmtree(WORK, ignore_errors=True)
