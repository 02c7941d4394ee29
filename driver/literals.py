"""C29: writes programs whose literals are known, compiles them against the library, and reads back what they denote."""
import os, random, re, subprocess
import build, runner
from oracle import to_radix

KEYWORDS = ["as", "if", "in", "do", "fn", "let", "mut", "for", "loop", "true", "false", "self", "super", "move", "dyn", "type", "where",
            "box", "try", "abstract", "become", "final", "override", "priv", "typeof", "unsized", "virtual", "yield", "async", "await",
            "match", "impl", "enum", "const", "static", "struct", "trait", "union", "use", "while", "return", "ref", "pub", "mod",
            "break", "continue", "crate", "extern", "unsafe", "else", "Self", "gen", "raw", "macro_rules", "auto", "default", "str",
            "u128", "UBig", "s", "val", "core", "ibig", "base"]


def interesting(r, top=None):
    k = r.randrange(7)
    if k == 0:
        return r.randrange(0, 40)
    if k == 1:
        e = r.choice([8, 16, 31, 32, 63, 64, 127, 128])
        v = (1 << e) + r.choice([-2, -1, 0, 1])
    elif k == 2:
        v = r.choice([10, 36, 7, 3]) ** r.randrange(1, 38) + r.choice([-1, 0, 0, 1])
    elif k == 3:
        v = r.getrandbits(r.randrange(1, 129))
    elif k == 4 and top is None:
        v = r.getrandbits(r.randrange(1, 3000))
    elif k == 5 and top is None:
        v = (1 << r.choice([129, 192, 256, 512, 1024, 2048])) + r.choice([-1, 0, 1])
    else:
        v = r.getrandbits(r.choice([16, 32, 64, 128]))
    if top is not None:
        v %= top
    return v


def case_mix(r, s):
    k = r.randrange(3)
    if k == 0:
        return s
    if k == 1:
        return s.upper()
    return "".join(c.upper() if r.random() < .5 else c for c in s)


def underscores(r, s):
    """As Rust allows inside a literal; not first."""
    out = s[0]
    for c in s[1:]:
        if r.random() < .15:
            out += "_" * r.choice([1, 1, 2])
        out += c
    return out


def numeral(r):
    """(tokens, value, kind)"""
    k = r.randrange(12)
    U = 1 << 128
    if k == 0:
        v = interesting(r, U)
        s = "0" * r.choice([0, 0, 0, 1, 3]) + str(v)
        return (underscores(r, s) if r.random() < .3 else s), v, "decimal literal"
    if k == 1:
        v = interesting(r, U)
        p, b = r.choice([("0b", 2), ("0o", 8), ("0x", 16)])
        s = "0" * r.choice([0, 0, 2]) + to_radix(v, b)
        if b == 16:
            s = case_mix(r, s)
        if r.random() < .3:
            s = underscores(r, s)
        return p + s, v, p + " literal"
    if k == 2:
        v = interesting(r)
        return "_" + "0" * r.choice([0, 0, 0, 1, 5]) + str(v), v, "_decimal"
    if k == 3:
        v = interesting(r)
        p, b = r.choice([("0b", 2), ("0o", 8), ("0x", 16)])
        s = "0" * r.choice([0, 0, 2]) + to_radix(v, b)
        return "_" + p + (case_mix(r, s) if b == 16 else s), v, "_" + p
    b = r.choice([2, 8, 10, 16, 36, r.randrange(2, 37), r.randrange(2, 37)])
    if k in (4, 5):
        # an identifier: the first digit is a letter
        b = max(b, 11)
        v = interesting(r)
        s = r.choice("abcdefghijklmnopqrstuvwxyz"[:b - 10]) + to_radix(v, b)
        s = case_mix(r, s)
        return f"{s} base {b}", int(s, b), "identifier base N"
    if k == 6:
        v = interesting(r)
        s = "0" * r.choice([0, 0, 0, 2]) + to_radix(v, b)
        return f"_{case_mix(r, s)} base {b}", v, "_digits base N"
    if k == 7:
        # a decimal literal, all digits below N
        v = interesting(r, 1 << 100)
        s = to_radix(v, min(b, 10))
        if int(s) >= U:
            s = s[:38]
        s = "0" * r.choice([0, 0, 1]) + s
        return f"{s} base {b}", int(s, b), "decimal literal base N"
    if k == 8:
        # literals of other shapes whose text is a numeral
        b = r.randrange(34, 37)
        s = r.choice(["0b1101", "0x7fAb", "0o17", "1e5", "12E3", "0xffu8" if b > 30 else "0xff", "12u8", "1f32", "3i64", "7usize", "0x1u128",
                      "9e0", "0b0", "0xe", "1u16"])
        b = max(b, 1 + max("0123456789abcdefghijklmnopqrstuvwxyz".index(c) for c in s.lower()))
        return f"{s} base {b}", int(s, b), "prefixed or suffixed literal base N"
    if k == 9:
        s = r.choice(["1e5", "12E3", "0b1", "0b1011", "7e1"])
        return f"{s} base 16", int(s, 16), "float-like literal base 16"
    if k == 10:
        s = r.choice([w for w in KEYWORDS if w.isalnum()])
        return f"{s} base 36", int(s, 36), "keyword base 36"
    # a digit string that also starts like a radix prefix
    s = r.choice(["0b102", "0o9", "0xg", "0b", "0x", "0o", "b1", "x1", "o7", "0B11", "0XFF"])
    b = r.randrange(34, 37)
    return f"_{s} base {b}", int(s, b), "_prefix-like digits base N"


def scopes(edition, extern):
    """Scope name -> (head, foot) around a list of statements."""
    L = extern
    sc = {
        "plain function": (f"pub fn NAME(o: &mut crate::Out) {{ use {L}::{{ibig, ubig}};\n", "}\n"),
        "by path": (f"pub fn NAME(o: &mut crate::Out) {{ use {L} as q;\n", "}\n"),
        "no prelude": (f"#[allow(unused_imports)] pub mod NAME {{ #![no_implicit_prelude]\n use ::{L}::{{ibig, ubig}};\n pub fn go(o: &mut crate::Out) {{\n", "} }\n"),
        "shadowed names": (
            f"#[allow(non_camel_case_types, dead_code, unused)] pub mod NAME {{ use ::{L}::{{ibig, ubig}};\n"
            "mod alloc {} pub struct UBig; pub struct IBig; pub struct Option; pub struct Result; pub struct From; pub struct String;\n"
            "pub struct str; pub struct u128; pub mod std {} pub mod result {} pub mod option {} pub mod convert {}\n"
            "pub trait Evil { fn expect(&self, _: &::core::primitive::str) -> u128 { u128 } fn unwrap_or<T>(&self, _: T) -> u128 { u128 }\n"
            " fn strip_prefix<T>(&self, _: T) -> u128 { u128 } fn from<T>(_: T) -> u128 { u128 } fn neg(&self) -> u128 { u128 }\n"
            " fn from_str_radix<T>(_: T, _: ::core::primitive::u32) -> u128 { u128 } fn unwrap(&self) -> u128 { u128 } }\n"
            "impl<T> Evil for T {}\n"
            "macro_rules! stringify { ($($t:tt)*) => { \"9\" } }\n macro_rules! concat { ($($t:tt)*) => { \"9\" } }\n"
            "macro_rules! panic { ($($t:tt)*) => { compile_error!(\"no\") } }\n"
            "pub fn go(o: &mut crate::Out) { let (s, val, src, radix, n, x) = ((), (), (), (), (), ());\n",
            "} }\n"),
        "through a macro": (
            f"pub fn NAME(o: &mut crate::Out) {{\n"
            f"macro_rules! ubig {{ ($($t:tt)*) => {{ ::{L}::ubig!($($t)*) }} }}\n"
            f"macro_rules! ibig {{ ($($t:tt)*) => {{ ::{L}::ibig!($($t)*) }} }}\n", "}\n"),
        "fragments through a macro": (
            f"pub fn NAME(o: &mut crate::Out) {{\n"
            f"macro_rules! ubig {{ ($i:ident) => {{ ::{L}::ubig!($i) }}; ($i:ident base $b:literal) => {{ ::{L}::ubig!($i base $b) }};\n"
            f" ($i:literal) => {{ ::{L}::ubig!($i) }}; ($i:literal base $b:literal) => {{ ::{L}::ubig!($i base $b) }} }}\n"
            f"macro_rules! ibig {{ (- $i:ident) => {{ ::{L}::ibig!(- $i) }}; (- $i:ident base $b:literal) => {{ ::{L}::ibig!(- $i base $b) }};\n"
            f" (- $i:literal base $b:literal) => {{ ::{L}::ibig!(- $i base $b) }}; (- $i:literal) => {{ ::{L}::ibig!(- $i) }};\n"
            f" ($i:ident) => {{ ::{L}::ibig!($i) }}; ($i:ident base $b:literal) => {{ ::{L}::ibig!($i base $b) }};\n"
            f" ($i:literal) => {{ ::{L}::ibig!($i) }}; ($i:literal base $b:literal) => {{ ::{L}::ibig!($i base $b) }} }}\n", "}\n"),
        "method of a generic type": (
            f"pub struct NAME<T>(T); impl<T: Default> NAME<T> {{ pub fn go(o: &mut crate::Out) {{ use {L}::*; let _ = T::default();\n", "} }\n"),
        "closure": (f"pub fn NAME(o: &mut crate::Out) {{ use ::{L}::{{ibig, ubig}}; let mut f = move || {{\n", "}; f() }\n"),
    }
    return sc


def program(r, edition, extern, count):
    sc = scopes(edition, extern)
    body, calls, want = [], [], []
    names = list(sc)
    per = 40
    nid = 0
    for f in range(max(1, count // per)):
        scope = names[f % len(names)]
        head, foot = sc[scope]
        name = f"F{f}" if "struct NAME" in head else f"f{f}"
        lines = []
        for _ in range(per):
            tok, v, kind = numeral(r)
            if (nid + r.randrange(2)) % 2:
                neg = r.random() < .5
                sp = r.choice(["", " "])
                t = ("-" + sp if neg else "") + tok
                v = -v if neg else v
                mac, fn = "ibig", "i"
                kind = ("-" if neg else "") + kind
            else:
                t, mac, fn = tok, "ubig", "u"
            br = r.choice(["()", "()", "[]", "{}"])
            pre = f"q::" if scope == "by path" else ""
            lines.append(f"  o.{fn}({nid}, {pre}{mac}!{br[0]}{t}{br[1]});\n")
            want.append((nid, f"{mac}!({t})", v, kind, scope))
            nid += 1
        body.append(head.replace("NAME", name) + "".join(lines) + foot)
        if "pub mod NAME" in head:
            calls.append(f"{name}::go(&mut o);")
        elif "struct NAME" in head:
            calls.append(f"{name}::<u8>::go(&mut o);")
        else:
            calls.append(f"{name}(&mut o);")
    src = "#![allow(warnings)]\n"
    src += f"pub struct Out;\nimpl Out {{\n pub fn u(&mut self, n: usize, x: {extern}::UBig) {{ let mut b = x.to_le_bytes(); b.reverse(); self.p(n, \"\", b) }}\n"
    src += f" pub fn i(&mut self, n: usize, x: {extern}::IBig) {{ let s = if x < {extern}::IBig::default() {{ \"-\" }} else {{ \"\" }};\n"
    src += f"  let mut b = {extern}::ops::UnsignedAbs::unsigned_abs(x).to_le_bytes(); b.reverse(); self.p(n, s, b) }}\n"
    src += " fn p(&self, n: usize, s: &str, b: Vec<u8>) { let mut t = String::new(); for x in b { t += &format!(\"{:02x}\", x) } println!(\"{} {}{}\", n, s, if t.is_empty() { \"0\" } else { &t }) }\n}\n"
    src += "".join(body)
    # A numeral that cannot be read is a wrong result of that function, not the end of the program.
    src += "fn main() { let mut o = Out;\n std::panic::set_hook(Box::new(|i| eprintln!(\"PANIC {}\", i)));\n"
    src += "".join(f" if std::panic::catch_unwind(|| {{ let mut o = Out; {c} }}).is_err() {{ println!(\"P {k}\") }}\n" for k, c in enumerate(calls))
    src += " println!(\"end\"); }\n"
    return src, want


def one(res, k, edition, flags, count):
    r = random.Random(f"{res.seed}-lit-{k}")
    extern = "ibig" if k % 2 == 0 else "big_numbers"
    d = os.path.join(build.BUILD, f"lit{k}")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    dep = 'ibig = { path = "/repo" }' if extern == "ibig" else 'big_numbers = { package = "ibig", path = "/repo", default-features = false }'
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "lit"\nversion = "0.1.0"\nedition = "{edition}"\n\n[workspace]\n\n[dependencies]\n{dep}\n\n[profile.dev]\ndebug = 0\n')
    src, want = program(r, edition, extern, count)
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(src)
    lock = os.path.join(build.VERIF, "driver", "lit.lock")
    if os.path.exists(lock):
        with open(lock) as f, open(os.path.join(d, "Cargo.lock"), "w") as g:
            g.write(f.read())
    env = build.base_env()
    env["RUSTUP_TOOLCHAIN"] = build.STABLE
    env["CARGO_TARGET_DIR"] = os.path.join(d, "target")
    if flags:
        env["RUSTFLAGS"] = flags
    build.freshen(os.path.join(d, "target"), build.source_hash())
    cmd = ["cargo", "build", "--offline", "-q"]
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    name = f"edition {edition}" + (" " + flags.split('"')[1] + " bits" if flags else "") + (" renamed" if extern != "ibig" else "")
    rep = dict(config="literals", cmd=cmd, cwd=d, source=os.path.join(d, "src", "main.rs"))
    if p.returncode != 0:
        if "could not compile `lit`" in p.stdout:
            i = max(p.stdout.find("error"), 0)
            res.violate(f"[{name}] a documented literal is not accepted: {p.stdout[i:i + 1800]}", rep)
        else:
            res.error(f"[{name}] build failed: {p.stdout[-1500:]}")
        return
    with open(os.path.join(d, "target", "verif-stamp"), "w") as f:
        f.write(build.source_hash())
    q = subprocess.run([os.path.join(d, "target", "debug", "lit")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    got = {}
    for l in q.stdout.splitlines():
        f = l.split()
        if len(f) == 2 and f[0].isdigit():
            got[int(f[0])] = int(f[1], 16)
    panics = re.findall(r"PANIC ([^\n]*)\n?([^\n]*)", q.stderr)
    if "end" not in q.stdout:
        res.violate(f"[{name}] the program died ({q.returncode}): {q.stderr[-800:]}", rep)
        return
    bad = 0
    with res.lock:
        c = res.configs.setdefault(name, dict(literals=0))
        c["literals"] += len(want)
    prev_missing = False
    for n, text, v, kind, scope in want:
        with res.lock:
            res.evaluations += 1
            res.labels[f"{kind}"] = res.labels.get(kind, 0) + 1
            res.distinct += 1
        if n % 171 == 0:
            res.sample(f"[{name}] {scope}: {text[:120]} = {v:x}"[:300])
        if got.get(n) != v and bad < 3:
            if n not in got:
                # the first one missing in a function is the one that panicked
                if prev_missing:
                    continue
                prev_missing = True
            bad += 1
            g = got.get(n)
            res.violate(f"[{name}] {scope}: {text[:400]} denotes {'nothing (panic: ' + str(panics[:1]) + ')' if g is None else hex(g)} instead of {hex(v)}"[:1800], rep)
        elif n in got:
            prev_missing = False
