"""Builds of the monitor harness against /repo's current working tree."""
import hashlib, os, re, subprocess, shutil, glob, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
STABLE = "1.99.1-x86_64-unknown-linux-gnu"
HARNESS = os.path.join(VERIF, "harness")

# name -> (profile, target, rustflags, cargo args)
CONFIGS = {
    "native": dict(profile="release"),
    "bits64": dict(profile="chk", flags='--cfg force_bits="64"'),
    "bits32": dict(profile="chk", flags='--cfg force_bits="32"'),
    "bits16": dict(profile="chk", flags='--cfg force_bits="16"'),
    "i686": dict(profile="release", target="i686-unknown-linux-gnu"),
    "nostd": dict(profile="release", args=["--no-default-features"]),
    "asan": dict(profile="asan", target="x86_64-unknown-linux-gnu", toolchain="nightly", flags="-Zsanitizer=address"),
    "tsan": dict(profile="asan", target="x86_64-unknown-linux-gnu", toolchain="nightly", flags="-Zsanitizer=thread",
                 args=["-Zbuild-std"]),
    # A refused allocation unwinds, under AddressSanitizer.
    "oom": dict(profile="asan", target="x86_64-unknown-linux-gnu", toolchain="nightly", flags="-Zsanitizer=address --cfg oom_hook"),
    # The interpreter. Each names the arguments that make the program build and do nothing.
    "m64": dict(miri="x86_64-unknown-linux-gnu"),
    "m32": dict(miri="x86_64-unknown-linux-gnu", flags='--cfg force_bits="32"'),
    "m16": dict(miri="x86_64-unknown-linux-gnu", flags='--cfg force_bits="16"'),
    "mi686": dict(miri="i686-unknown-linux-gnu"),
    "ms390x": dict(miri="s390x-unknown-linux-gnu"),
    "ms390x16": dict(miri="s390x-unknown-linux-gnu", flags='--cfg force_bits="16"'),
}


class BuildError(Exception):
    """full: the compiler's whole output; how: (command, environment) which gives it."""
    full, how = "", None


def failed(what, output, cmd, env):
    i = max(output.find("\nerror"), 0)
    e = BuildError(f"{what} failed:\n" + output[i:i + 3000])
    e.full, e.how = output, (cmd, {k: v for k, v in env.items() if os.environ.get(k) != v})
    return e


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for root, ds, fs in os.walk(d):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(root, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def source_hash():
    dirs = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "src"),
            os.path.join(HARNESS, "Cargo.toml"), os.path.join(VERIF, "refmodel", "src")]
    b = os.path.join(REPO, "build.rs")
    if os.path.exists(b):
        dirs.append(b)
    return tree_hash(dirs)


def target_dir(name):
    return os.path.join(BUILD, name)


def out_dir(name):
    c = CONFIGS[name]
    d = target_dir(name)
    if c.get("target"):
        d = os.path.join(d, c["target"])
    return os.path.join(d, c["profile"])


def exe(name, binary):
    return os.path.join(out_dir(name), binary)


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUST_BACKTRACE"] = "0"
    return env


def freshen(tdir, digest):
    """Cargo decides by modification times; make it rebuild whenever contents differ from the last build."""
    stamp = os.path.join(tdir, "verif-stamp")
    old = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read().strip()
    if old != digest and os.path.isdir(tdir):
        for pat in ("ibig-*", "mon-*", "refmodel-*"):
            for root in (tdir + "/*/.fingerprint/", tdir + "/*/*/.fingerprint/", tdir + "/*/*/*/.fingerprint/"):
                for p in glob.glob(root + pat):
                    shutil.rmtree(p, ignore_errors=True)
    return stamp


def build_one(name, bins, digest):
    c = CONFIGS[name]
    tdir = target_dir(name)
    stamp = freshen(tdir, digest)
    if c.get("miri"):
        for b in bins:
            p = subprocess.run(miri_cmd(name, b, ["--cases", "0"]), cwd=HARNESS, env=miri_env(name), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError(f"build of {b} for {name} failed:\n" + p.stdout[max(p.stdout.find("\nerror"), 0):][:3000])
        with open(stamp, "w") as f:
            f.write(digest)
        return
    env = base_env()
    env["RUSTUP_TOOLCHAIN"] = STABLE if c.get("toolchain") != "nightly" else nightly()
    env["CARGO_TARGET_DIR"] = tdir
    if c.get("flags"):
        env["RUSTFLAGS"] = c["flags"]
    cmd = ["cargo", "build", "--locked", "--profile", c["profile"]]
    for b in bins:
        cmd += ["--bin", b]
    if c.get("target"):
        cmd += ["--target", c["target"]]
    cmd += c.get("args", [])
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise failed(f"build of {name}", p.stdout, cmd, env)
    os.makedirs(tdir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(digest)


def lost_interface(err, prop):
    """The library builds, but the part of a monitor that uses it for this very property does not: whatever it calls there
    (an operator form, a trait, Send...) is gone.  Returns the compiler's first complaint of this kind."""
    found = None
    for m in re.finditer(r"^error(?:\[(E\d+)\])?: (.*)\n +--> (\S+?):(\d+):", err.full, re.M):
        code, text, path, line = m.group(1), m.group(2), m.group(3), int(m.group(4))
        m2 = re.fullmatch(r"src/bin/(\w+)\.rs", path)
        if code not in ("E0277", "E0369", "E0599", "E0368", "E0600", "E0432", "E0433", "E0425", "E0308", "E0271") or not m2:
            return None
        with open(os.path.join(HARNESS, path)) as f:
            src = f.read().split("\n")
        owners = dict((fn, p) for p, fn in re.findall(r'"(C\d\d)",? (\w+)', "\n".join(src)))
        fn = next((m3.group(1) for l in reversed(src[:line]) for m3 in [re.match(r"fn (\w+)", l)] if m3), None)
        owner = owners[fn] if fn in owners else next(iter(owners.values())) if len(set(owners.values())) == 1 else None
        if owner == prop and found is None:
            found = f"{text} [{code}] at {m2.group(1)}.rs:{line}"
    return found


def miri_cmd(name, binary, args):
    return ["cargo", "miri", "run", "--locked", "-q", "--target", CONFIGS[name]["miri"], "--bin", binary, "--"] + args


def miri_env(name, extra=()):
    env = base_env()
    env["RUSTUP_TOOLCHAIN"] = nightly()
    env["CARGO_TARGET_DIR"] = target_dir(name)
    env["XDG_CACHE_HOME"] = os.path.join(BUILD, "cache")   # Miri's own standard library
    env["MIRIFLAGS"] = " ".join(["-Zmiri-disable-isolation", "-Zmiri-permissive-provenance"] + list(extra))
    env["RUSTFLAGS"] = "-Awarnings " + CONFIGS[name].get("flags", "")
    return env


def miri_sysroots():
    """The interpreter's standard libraries, one per target, one after the other."""
    for t in sorted({c["miri"] for c in CONFIGS.values() if c.get("miri")}):
        name = next(n for n, c in CONFIGS.items() if c.get("miri") == t)
        p = subprocess.run(["cargo", "miri", "setup", "--target", t], env=miri_env(name), cwd=HARNESS, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError("miri setup: " + p.stdout[-2000:])


_nightly = None


def nightly():
    global _nightly
    if _nightly is None:
        out = subprocess.run(["rustup", "toolchain", "list"], stdout=subprocess.PIPE, text=True).stdout
        _nightly = next((l.split()[0] for l in out.splitlines() if l.startswith("nightly")), "nightly")
    return _nightly


def build(wants):
    """wants: {config: [bins]}; builds in parallel; returns seconds."""
    t = time.time()
    digest = source_hash()
    os.makedirs(BUILD, exist_ok=True)
    if any(CONFIGS[n].get("miri") for n in wants):
        miri_sysroots()
    with cf.ThreadPoolExecutor(8) as ex:
        # the interpreters and the standard library builds take longest
        order = sorted(wants.items(), key=lambda x: (x[0] != "tsan", not CONFIGS[x[0]].get("miri")))
        futs = [ex.submit(build_one, n, b, digest) for n, b in order]
        for f in futs:
            f.result()
    return time.time() - t
