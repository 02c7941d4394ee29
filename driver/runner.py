"""Runs shards of the monitor binaries, merges what they observed, decides the verdict, writes the evidence."""
import json, os, resource, signal, subprocess, sys, time, threading, concurrent.futures as cf
import build

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
SCRATCH = os.path.join(build.BUILD, "scratch")
NPROC = 8
STUCK_SECS = 60          # a single case normally takes milliseconds
REPLAY_CPU = 150         # CPU seconds a single replayed case may use before it counts as not terminating


class Res:
    """Everything observed for one property in this run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = 0
        self.distinct = 0
        self.labels = {}
        self.size_classes = {}
        self.samples = []
        self.violations = []      # (signature text, replay dict)
        self.errors = []
        self.configs = {}
        self.extra = {}
        self.notes = []
        self.expected_panics = 0
        self.max_bits = 0
        self.offline = 0
        self.lock = threading.Lock()

    def violate(self, what, replay):
        with self.lock:
            self.violations.append((what, replay))

    def error(self, what):
        with self.lock:
            self.errors.append(what)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def add(self, label, n=1):
        with self.lock:
            self.labels[label] = self.labels.get(label, 0) + n


def run_env(config):
    env = build.base_env()
    env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66"
    return env


def limits(config, cpu=None):
    def f():
        if config not in ("asan", "tsan", "oom"):
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def run_cmd(cmd, config, timeout, cpu=None):
    p = subprocess.Popen(cmd, env=run_env(config), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limits(config, cpu), cwd=SCRATCH)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return None, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def replay_cmd(config, binary, prop, seed, shard, case):
    return [build.exe(config, binary), "replay", prop, "--seed", str(seed), "--shard", str(shard), "--case", str(case)]


def run_shard(res, job):
    config, binary, prop, seed, shard, cases, max_secs, log_every = job
    base = os.path.join(SCRATCH, f"{prop}-{binary}-{config}-{shard}")
    out, log = base + ".json", base + ".log"
    for f in (out, log):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [build.exe(config, binary), "run", prop, "--seed", str(seed), "--shard", str(shard), "--cases", str(cases),
           "--max-secs", str(max_secs), "--out", out, "--stuck-secs", str(STUCK_SECS)]
    if log_every:
        cmd += ["--log", log, "--log-every", str(log_every)]
    rc, so, se = run_cmd(cmd, config, max_secs + STUCK_SECS + 120)
    info = {"config": config, "binary": binary, "property": prop, "seed": seed, "shard": shard}
    if rc in (0, 1, 2) and os.path.exists(out):
        with open(out) as f:
            d = json.load(f)
        with res.lock:
            res.evaluations += d["evaluations"]
            res.distinct += d["distinct"]
            res.expected_panics += d["expected_panics"]
            res.max_bits = max(res.max_bits, d["max_bits"])
            for k, v in d["labels"].items():
                res.labels[k] = res.labels.get(k, 0) + v
            for k, v in d["size_classes"].items():
                res.size_classes[k] = res.size_classes.get(k, 0) + v
            c = res.configs.setdefault(config, dict(cases=0, evaluations=0, capped_shards=0))
            c["cases"] += d["cases"]
            c["evaluations"] += d["evaluations"]
            c["capped_shards"] += 1 if d["capped"] else 0
        if config == "native" or not res.samples:
            for s in d["samples"][:2]:
                res.sample(f"[{config}] {s}")
        for v in d["violations"]:
            res.violate(f"[{config}] {v['what']}", dict(info, case=v["case"], cmd=replay_cmd(config, binary, prop, seed, shard, v["case"])))
        for e in d["errors"]:
            res.error(f"[{config}] shard {shard}: {e}")
        if log_every and os.path.exists(log):
            try:
                o = subprocess.run([sys.executable, os.path.join(VERIF, "driver", "oracle.py"), log], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, timeout=300)
                n, bad = json.loads(o.stdout)
                with res.lock:
                    res.offline += n
                for case, msg in bad[:3]:
                    res.violate(f"[{config}] offline oracle: {msg}",
                                dict(info, case=case, cmd=replay_cmd(config, binary, prop, seed, shard, case)))
            except Exception as e:
                res.error(f"[{config}] offline oracle failed on shard {shard}: {e!r}")
            os.unlink(log)
        if os.path.exists(out):
            os.unlink(out)
        if config in ("asan", "oom") and rc not in (0, 1, 2):
            res.violate(f"[{config}] sanitizer report: {se[-3000:]}", info)
        return
    if rc == 77 or rc == 66 or "Sanitizer" in se:
        i = max(se.find("ERROR: AddressSanitizer"), se.find("WARNING: ThreadSanitizer"), se.find("ERROR: LeakSanitizer"), 0)
        res.violate(f"[{config}] sanitizer report: {se[i:i + 2500]}", dict(info, cmd=cmd))
        return
    if rc == 3 and os.path.exists(out):
        with open(out) as f:
            case = json.load(f)["stuck"]
        cmd = replay_cmd(config, binary, prop, seed, shard, case)
        rc, so, se = run_cmd(cmd, config, 600, cpu=REPLAY_CPU)
        if rc is not None and rc in (-signal.SIGXCPU, -signal.SIGKILL):
            res.violate(f"[{config}] does not terminate: case {case} of shard {shard} used {REPLAY_CPU} s of CPU without finishing",
                        dict(info, case=case, cmd=cmd))
        elif rc == 1:
            res.violate(f"[{config}] case {case}: {so[-2000:]}", dict(info, case=case, cmd=cmd))
        else:
            res.error(f"[{config}] shard {shard} case {case} was slow (replay ended with {rc})")
        return
    if rc is None:
        res.error(f"[{config}] shard {shard}: time limit")
        return
    if rc == -signal.SIGKILL:
        res.error(f"[{config}] shard {shard}: killed (memory?)")
        return
    # Death by signal: locate the case, and believe it only if it dies again on its own.
    rc2, so2, se2 = run_cmd(cmd + ["--trace"], config, max_secs + STUCK_SECS + 120)
    cases_seen = [l.split()[1] for l in se2.splitlines() if l.startswith("case ")]
    if cases_seen:
        case = int(cases_seen[-1])
        cmd = replay_cmd(config, binary, prop, seed, shard, case)
        rc3, so3, se3 = run_cmd(cmd, config, 600, cpu=REPLAY_CPU)
        if rc3 is not None and rc3 < 0 and rc3 != -signal.SIGKILL:
            res.violate(f"[{config}] process died with signal {-rc3} in case {case}: {se3[-1500:]}", dict(info, case=case, cmd=cmd))
            return
        if rc2 is not None and rc2 < 0 and rc2 == rc:
            res.violate(f"[{config}] process died with signal {-rc2} at case {case} (in sequence): {se2[-600:]}",
                        dict(info, case=case, cmd=cmd))
            return
    res.error(f"[{config}] shard {shard}: ended with {rc}: {se[-1500:]}")


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith(f"known: property={prop} "):
                    # known: property=C99 match=<exact substring of the report> :: <what fails>
                    body = l.split(" ", 2)[2]
                    sig, _, what = body.partition(" :: ")
                    out.append((sig[len("match="):], what))
    return out


def finish(res, rule, level="exploration", assumptions=(), started=None):
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(res.prop)
    hit, fresh = {}, []
    for what, rep in res.violations:
        k = next((w for s, w in known if s in what), None)
        if k is not None:
            hit[k] = hit.get(k, 0) + 1
        else:
            fresh.append((what, rep))
    for s, w in known:
        print(f"KNOWN-FINDING: property={res.prop} {w}")
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": res.distinct,
        "rule": rule,
        "samples": res.samples or ["(none)"],
        "checks_by_kind": dict(sorted(res.labels.items())),
        "configurations": res.configs,
    }
    if res.size_classes:
        cov["operand_sizes"] = {f"{2 ** int(k)}..{2 ** (int(k) + 1) - 1} words": v
                               for k, v in sorted(res.size_classes.items(), key=lambda x: int(x[0]))}
        cov["largest_operand_bits"] = res.max_bits
    if res.expected_panics:
        cov["documented_panics_observed"] = res.expected_panics
    if res.offline:
        cov["events_rechecked_offline"] = res.offline
    if res.notes:
        cov["notes"] = res.notes[:10]
    cov.update(res.extra)
    if res.errors:
        cov["errors"] = res.errors[:10]
    ev = {"property": res.prop, "tier": res.tier, "seed": res.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - started, 2), "violations": len(fresh)}
    tmp = os.path.join(EVID, res.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, res.prop + ".json"))
    if fresh:
        for n, (what, rep) in enumerate(fresh[:5]):
            path = os.path.join(rdir, f"{res.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": res.prop, "what": what, **rep}, f, indent=1)
            print(f"VIOLATION property={res.prop} replay={path}")
            print("  " + what[:1500].replace("\n", "\n  "))
        for e in res.errors[:3]:
            print("  (also: " + e[:500] + ")")
        return 1
    if res.errors:
        for e in res.errors[:10]:
            print("ERROR: " + e[:2000])
        return 2
    if res.evaluations == 0:
        print("ERROR: nothing was observed")
        return 2
    print(f"{res.prop}: held on {res.evaluations} observations ({res.distinct} distinct non-trivial), "
          f"{res.offline} rechecked offline, {ev['wall_s']} s")
    return 0
