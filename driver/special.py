"""Monitors other than the sharded reference-model runs: interpreters, race detectors, memory checkers, cross-build comparison,
generated programs, instruction counts."""
import concurrent.futures as cf, os, re, signal, subprocess, time
import build, runner
from build import VERIF, BUILD, HARNESS


class Part:
    """Something a plan runs besides its shards. jobs() gives callables; the plan runs all of them in one pool."""

    def builds(self):
        return {}

    def jobs(self, res):
        return []


def cmd_run(cmd, env, timeout, cwd=None):
    """(exit status or None, stdout, stderr)"""
    os.makedirs(runner.SCRATCH, exist_ok=True)
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd or runner.SCRATCH,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace"), err.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def last_case(err):
    m = re.findall(r"^case (\d+)", err, re.M)
    return int(m[-1]) if m else None


def plain_env(env):
    """The part of an environment worth recording with a violation."""
    keep = ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "XDG_CACHE_HOME", "MIRIFLAGS", "RUSTFLAGS", "CARGO_NET_OFFLINE",
            "ASAN_OPTIONS", "TSAN_OPTIONS")
    return {k: env[k] for k in keep if k in env}


class Miri(Part):
    """Processes of the interpreter, each on its own share of the cases of a light program."""

    def __init__(self, binary, runs, secs, args=(), races=False):
        # runs: list of (config, extra Miri flags, extra arguments)
        self.binary, self.runs, self.secs, self.args, self.races = binary, runs, secs, list(args), races

    def builds(self):
        return {c: [self.binary] for c, _, _ in self.runs}

    def jobs(self, res):
        return [lambda k=k, r=r: self.one(res, k, *r) for k, r in enumerate(self.runs)]

    def one(self, res, k, config, flags, more):
        secs = self.secs[1 if res.tier == "thorough" else 0]
        env = build.miri_env(config, flags)
        args = ["--seed", str(res.seed), "--first", str(1000 * k), "--cases", "1000000", "--max-secs", str(secs)] + self.args + list(more)
        cmd = build.miri_cmd(config, self.binary, args)
        rc, out, err = cmd_run(cmd, env, secs + 200, cwd=HARNESS)
        name = config + "".join(" " + f.replace("-Zmiri-", "") for f in flags)
        done = len(re.findall(r"^\d+ ", out, re.M))
        ev = sum(int(x) for x in re.findall(r"^events (\d+)", out, re.M))
        if not ev:
            ev = sum(int(x) for x in re.findall(r"^\d+ \w+ [0-9a-f]{16} (\d+)", out, re.M))
        over = sum(int(x) for x in re.findall(r"overlapping (\d+)", out))
        with res.lock:
            res.evaluations += ev
            res.distinct += done
            c = res.configs.setdefault("interpreter " + name, dict(cases=0, evaluations=0))
            c["cases"] += done
            c["evaluations"] += ev
            if self.races:
                res.labels["interpreted tasks that ran while another thread was running"] = \
                    res.labels.get("interpreted tasks that ran while another thread was running", 0) + over
        if done and k < 4:
            res.sample(f"[{name}] " + out.splitlines()[0])
        i = err.find("error: Undefined Behavior")
        if i < 0 and "error: abnormal termination" in err:
            i = err.find("error: abnormal termination")
        c = last_case(err)
        rep = dict(config=config, cmd=cmd, cwd=HARNESS, env=plain_env(env), case=c)
        if i >= 0:
            race = "Data race" in err[i:i + 300]
            if race or not self.races:
                res.violate(f"[interpreter {name}] case {c}: {err[i:i + 2500]}", rep)
            else:
                res.error(f"[interpreter {name}] (not a race) {err[i:i + 800]}")
            return
        bad = [l for l in out.splitlines() if " FAIL " in l]
        for l in bad:
            if self.races or "INVALID UTF-8" in l or "unsafe precondition" in l:
                res.violate(f"[interpreter {name}] {l}", rep)
            else:
                with res.lock:
                    res.notes.append(f"[interpreter {name}] {l[:300]}")
        if rc is None:
            # one case must not take longer than the margin: but the interpreter is slow, so this is no verdict
            res.error(f"[interpreter {name}] time limit, in case {c}")
        elif rc not in (0, 1) or (rc == 1 and not bad):
            res.error(f"[interpreter {name}] ended with {rc}: {err[-1500:]}")


class Valgrind(Part):
    """The light program under memcheck, which knows which bytes are initialised."""

    def __init__(self, runs, cases, args):
        self.runs, self.cases, self.args = runs, cases, args

    def builds(self):
        return {c: ["trace"] for c in self.runs}

    def jobs(self, res):
        n = self.cases * (12 if res.tier == "thorough" else 1)
        return [lambda c=c, s=s: self.one(res, c, s, n) for c in self.runs for s in range(2)]

    def one(self, res, config, s, n):
        cmd = ["valgrind", "-q", "--error-exitcode=55", "--num-callers=25", "--max-stackframe=4000000", build.exe(config, "trace"), "--seed", str(res.seed), "--first", str(500000 + s),
               "--step", "2", "--cases", str(n), "--max-secs", "500" if res.tier == "thorough" else "60"] + self.args
        env = build.base_env()
        rc, out, err = cmd_run(cmd, env, 800)
        done = len(re.findall(r"^\d+ ", out, re.M))
        ev = sum(int(x) for x in re.findall(r"^events (\d+)", out, re.M))
        with res.lock:
            res.evaluations += ev
            res.distinct += done
            c = res.configs.setdefault("memcheck " + config, dict(cases=0, evaluations=0))
            c["cases"] += done
            c["evaluations"] += ev
        i = err.find("==")
        if rc == 55 or re.search(r"^==\d+== (Invalid|Conditional|Use of|Mismatched|Source and dest)", err, re.M):
            m = re.search(r"^==\d+== (Invalid|Conditional|Use of|Mismatched|Source and dest)", err, re.M)
            at = m.start() if m else max(i, 0)
            res.violate(f"[memcheck {config}] case {last_case(err[:at])}: {err[at:at + 2500]}", dict(config=config, cmd=cmd))
        elif any("INVALID UTF-8" in l for l in out.splitlines()):
            res.violate(f"[{config}] " + next(l for l in out.splitlines() if "INVALID UTF-8" in l), dict(config=config, cmd=cmd))
        elif rc is None or rc not in (0, 1):
            if rc is not None and rc < 0 and rc != -signal.SIGKILL:
                res.violate(f"[memcheck {config}] died with signal {-rc}: {err[-1500:]}", dict(config=config, cmd=cmd))
            else:
                res.error(f"[memcheck {config}] ended with {rc}: {err[-800:]}")


class Sanitized(Part):
    """Shards of other monitors' programs under a sanitizer: only what the sanitizer says (or a crash) counts here."""
    FATAL = ("sanitizer report", "process died with signal", "unsafe precondition", "INVALID UTF-8", "not UTF-8")

    def __init__(self, config, items):
        self.config, self.items = config, items      # items: (binary, property, cases)

    def builds(self):
        return {self.config: sorted({b for b, _, _ in self.items})}

    def jobs(self, res):
        return [lambda i=i: self.one(res, *i) for i in self.items]

    def one(self, res, binary, prop, cases):
        thorough = res.tier == "thorough"
        sub = runner.Res(res.prop, res.tier, res.seed)
        job = (self.config, binary, prop, res.seed, 90, cases * (10 if thorough else 1), 600 if thorough else 60, 0)
        runner.run_shard(sub, job)
        with res.lock:
            res.evaluations += sub.evaluations
            res.distinct += sub.distinct
            c = res.configs.setdefault(f"{self.config}", dict(cases=0, evaluations=0))
            for v in sub.configs.values():
                c["cases"] += v["cases"]
                c["evaluations"] += v["evaluations"]
            res.labels[f"{self.config}: results seen in {binary} {prop}"] = sub.evaluations
            res.max_bits = max(res.max_bits, sub.max_bits)
        for what, rep in sub.violations:
            if any(f in what for f in self.FATAL):
                res.violate(what, rep)
            else:
                with res.lock:
                    res.notes.append("not undefined behaviour: " + what[:300])
        for e in sub.errors:
            res.error(e)


class Compare(Part):
    """The same program in every build, compared event digest by event digest."""

    def __init__(self, configs, cases, args, miri=(), miri_cases=60, miri_args=()):
        self.configs, self.cases, self.args = configs, cases, args
        self.miri, self.miri_cases, self.miri_args = list(miri), miri_cases, list(miri_args)

    def builds(self):
        w = {c: ["trace"] for c in self.configs}
        for c in self.miri:
            w[c] = ["trace"]
        return w

    SH = 4

    def jobs(self, res):
        self.got = {}
        n = self.cases * (20 if res.tier == "thorough" else 1)
        mn = self.miri_cases * (8 if res.tier == "thorough" else 1)
        out = []
        for c in self.miri:
            for s in range(2):
                out.append(lambda c=c, s=s: self.interp(res, c, s, mn))
        for c in self.configs:
            for s in range(self.SH):
                out.append(lambda c=c, s=s: self.native(res, c, s, n))
        # what the interpreted builds are compared with
        for s in range(2):
            out.append(lambda s=s: self.base(res, s, mn))
        return out

    def cmd(self, config, first, step, cases, secs, args):
        return [build.exe(config, "trace"), "--seed", str(SEED_OF(self)), "--first", str(first), "--step", str(step),
                "--cases", str(cases), "--max-secs", str(secs)] + args

    def native(self, res, config, s, n):
        self.seed = res.seed
        cmd = self.cmd(config, s, self.SH, n // self.SH, 600 if res.tier == "thorough" else 120, self.args)
        rc, out, err = cmd_run(cmd, runner.run_env(config), 800)
        self.store(res, config, "a", cmd, rc, out, err)

    def base(self, res, s, mn):
        self.seed = res.seed
        cmd = self.cmd("native", 10_000_000 + s, 2, mn, 100, self.miri_args)
        rc, out, err = cmd_run(cmd, runner.run_env("native"), 800)
        self.store(res, "native", "b", cmd, rc, out, err)

    def interp(self, res, config, s, mn):
        self.seed = res.seed
        secs = 400 if res.tier == "thorough" else 45
        env = build.miri_env(config)
        cmd = build.miri_cmd(config, "trace", ["--seed", str(res.seed), "--first", str(10_000_000 + s), "--step", "2", "--cases", str(mn),
                                               "--max-secs", str(secs)] + self.miri_args)
        rc, out, err = cmd_run(cmd, env, secs + 200, cwd=HARNESS)
        self.store(res, config, "b", cmd, rc, out, err, env)

    def store(self, res, config, group, cmd, rc, out, err, env=None):
        lines = {}
        for l in out.splitlines():
            f = l.split(" ", 2)
            if f[0].isdigit():
                # where a panic came from is not part of the behaviour
                lines[int(f[0])] = re.sub(r" at \S+$", "", l)
        ev = sum(int(x) for x in re.findall(r"^events (\d+)", out, re.M))
        with res.lock:
            self.got.setdefault(group, {}).setdefault(config, {}).update(lines)
            self.cmds = getattr(self, "cmds", {})
            for k in lines:
                self.cmds[(group, config, k)] = (cmd, env)
            c = res.configs.setdefault(config, dict(cases=0, events=0))
            c["cases"] += len(lines)
            c["events"] += ev
        if rc is None:
            res.error(f"[{config}] time limit")
        elif rc not in (0, 1):
            c = last_case(err)
            if rc < 0 and rc not in (-signal.SIGKILL, -signal.SIGTERM):
                with res.lock:
                    self.got[group][config][c] = f"{c} died with signal {-rc}"
                    self.cmds[(group, config, c)] = (cmd, env)
            else:
                res.error(f"[{config}] ended with {rc} in case {c}: {err[-1200:]}")

    def finish(self, res):
        """Compares what all builds printed."""
        for group, by in self.got.items():
            cases = sorted({k for m in by.values() for k in m if k is not None})
            for k in cases:
                seen = {c: m[k] for c, m in by.items() if k in m}
                if len(seen) < 2:
                    continue
                with res.lock:
                    res.evaluations += len(seen)
                    res.distinct += 1
                vals = {}
                for c, l in seen.items():
                    vals.setdefault(l, []).append(c)
                if len(vals) > 1:
                    odd = min(vals.values(), key=len)[0]
                    cmd, env = self.cmds[(group, odd, k)]
                    full = full_case(cmd, k)
                    detail = "; ".join(f"{'/'.join(v)}: {l[:300]}" for l, v in vals.items())
                    rep = dict(config=odd, binary="trace", case=k, cmd=full)
                    if env:
                        rep.update(cwd=HARNESS, env=plain_env(env))
                    res.violate(f"builds differ in case {k}: {detail}" + self.difference(group, k, vals), rep)
                    if len(res.violations) > 5:
                        return
        some = self.got.get("a", {}).get("native", {})
        for k in sorted(some)[:6]:
            res.sample("native " + some[k])

    def difference(self, group, k, vals):
        """The first event that differs, by running the case again in full."""
        if group != "a":
            return ""
        outs = []
        for l, cs in list(vals.items())[:2]:
            cmd, _ = self.cmds[(group, cs[0], k)]
            _, out, _ = cmd_run(full_case(cmd, k), runner.run_env(cs[0]), 100)
            outs.append((cs[0], out.splitlines()))
        (c1, a), (c2, b) = outs
        for x, y in zip(a, b):
            if x != y:
                return f"\n{c1}: {x[:600]}\n{c2}: {y[:600]}"
        return ""


def SEED_OF(part):
    return part.seed


def full_case(cmd, k):
    cmd = list(cmd)
    for flag, v in (("--first", k), ("--cases", 1)):
        cmd[cmd.index(flag) + 1] = str(v)
    return cmd + ["--full"]


class Cost(Part):
    """Instructions executed by each operation on operands of n and 8n words."""
    SUB, LIN = (1500, 12000), (2000, 16000)
    # eight times the length: quadratic work grows 64 times, Karatsuba 27 times, linear 8 times
    LIMIT = {"S": 36.0, "L": 12.0}

    def builds(self):
        return {"native": ["cost"]}

    def jobs(self, res):
        self.table = {}
        out = []
        scales = [1] if res.tier == "quick" else [1, 1.37, 2.2]
        for sc in scales:
            for part in range(5):
                for style in range(3):
                    for which in (1, 0):
                        n = int((self.SUB if part < 4 else self.LIN)[0] * sc) * (8 if which else 1)
                        out.append(lambda a=(sc, part, style, which, n): self.one(res, *a))
        return out

    def one(self, res, sc, part, style, which, n):
        d = os.path.join(runner.SCRATCH, f"cost-{part}-{style}-{which}-{n}")
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        cmd = ["valgrind", "--tool=callgrind", "--collect-atstart=no", f"--callgrind-out-file={d}/o", build.exe("native", "cost"),
               str(n), str(res.seed), str(style), str(part)]
        rc, out, err = cmd_run(cmd, build.base_env(), 170)
        got = {}
        for f in os.listdir(d):
            with open(os.path.join(d, f)) as fh:
                s = fh.read()
            m = re.search(r"Trigger: Client Request: (.*)", s)
            t = re.search(r"^totals: (\d+)", s, re.M)
            if m and t:
                got[m[1]] = int(t[1])
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
        done = re.findall(r"^op (.*)$", err, re.M)
        with res.lock:
            self.table[sc, part, style, which] = (n, got, rc, done, err)
        if rc is not None and rc != 0:
            res.error(f"cost of {n} words, style {style}, part {part}: ended with {rc}: {err[-800:]}")

    def finish(self, res):
        for (sc, part, style, which), (n, big, rc, done, err) in sorted(self.table.items()):
            if which != 1:
                continue
            n0, small, rc0, _, _ = self.table[sc, part, style, 0]
            st = ("random", "all ones", "sparse")[style]
            if rc is None and rc0 == 0:
                # the operation in progress when time ran out: the normal time for a whole part is well under 20 s
                left = [k for k in small if k not in big]
                what = min(left, key=lambda k: k) if left else "?"
                res.violate(f"{st} operands of {n} words: after {len(done)} of {len(small)} operations the time limit of 170 s was reached "
                            f"(unfinished: {', '.join(left)[:300]})", dict(config="native", cmd=[build.exe("native", "cost"), str(n), str(res.seed), str(style), str(part)]))
                continue
            if rc is None or rc0 is None:
                res.error(f"time limit, {n} words, style {style}, part {part}")
                continue
            if rc or rc0:
                continue
            for k in sorted(small):
                if k not in big:
                    res.error(f"no count for {k} at {n} words")
                    continue
                ratio = big[k] / max(small[k], 1)
                lim = self.LIMIT[k[0]]
                with res.lock:
                    res.evaluations += 1
                    res.distinct += 1
                    res.labels[k[2:]] = res.labels.get(k[2:], 0) + 1
                    self.worst = getattr(self, "worst", {})
                    if ratio > self.worst.get(k, (0,))[0]:
                        self.worst[k] = (round(ratio, 2), f"{st}, {n0} to {n} words: {small[k]} to {big[k]} instructions")
                # a floor, so that operations of constant cost never count
                if ratio > lim and big[k] > 40 * n:
                    res.violate(f"{k[2:]} of {st} operands: {small[k]} instructions at {n0} words, {big[k]} at {n} words: {ratio:.1f} times "
                                f"the work for 8 times the length ({'linear is 8' if k[0] == 'L' else 'quadratic is 64'}, limit {lim})",
                                dict(config="native", cmd=["valgrind", "--tool=callgrind", "--collect-atstart=no", "--callgrind-out-file=/dev/null",
                                                           build.exe("native", "cost"), str(n), str(res.seed), str(style), str(part)]))
        with res.lock:
            res.extra["largest_growth_for_8_times_the_length"] = {k[2:]: v for k, v in sorted(getattr(self, "worst", {}).items())}
        for k, v in sorted(getattr(self, "worst", {}).items(), key=lambda x: x[0][0] != "S")[:6]:
            res.sample(f"{k[2:]}: {v[0]} times ({v[1]})")


class Literals(Part):
    """Programs full of macro invocations, compiled against the library and run."""

    def __init__(self, count):
        self.count = count

    def jobs(self, res):
        import literals
        progs = [("2021", ""), ("2018", ""), ("2024", ""), ("2021", '--cfg force_bits="16"'), ("2021", '--cfg force_bits="32"')]
        if res.tier == "thorough":
            progs = progs * 6
        return [lambda k=k, p=p: literals.one(res, k, p[0], p[1], self.count) for k, p in enumerate(progs)]
