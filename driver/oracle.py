"""Offline oracle: re-evaluates recorded events with Python integers, independently of the Rust reference model.

An event is one line: <case> <op> <args...> <results...>, numbers in hexadecimal with a sign."""
import math, struct
from fractions import Fraction


def h(s):
    return int(s, 16)


def tdiv(a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q, a - q * b


def ediv(a, b):
    r = a % abs(b)
    return (a - r) // b, r


DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def to_radix(n, r):
    if n == 0:
        return "0"
    s, m, out = ("-", -n) if n < 0 else ("", n), 0, []
    sign, m = s
    while m:
        m, d = divmod(m, r)
        out.append(DIG[d])
    return sign + "".join(reversed(out))


def f32_bits(n):
    """Nearest binary32 to the integer n, ties to even, as bits."""
    a = abs(n)
    if a == 0:
        return 0
    bl = a.bit_length()
    if bl > 24:
        sh = bl - 24
        q, rem = a >> sh, a & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if rem > half or (rem == half and q & 1):
            q += 1
        if q == 1 << 24:
            q >>= 1
            sh += 1
        e = sh + 23
    else:
        q = a << (24 - bl)
        e = bl - 1
    bits = 0x7F800000 if e > 127 else ((e + 127) << 23) | (q & 0x7FFFFF)
    return bits | (0x80000000 if n < 0 else 0)


def f64_bits(n):
    try:
        x = float(n)
    except OverflowError:
        x = math.inf if n > 0 else -math.inf
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def tz(a):
    return "none" if a == 0 else str((a & -a).bit_length() - 1)


def xgcd_ok(a, b, g, x, y):
    return g > 0 and g == math.gcd(a, b) and a * x + b * y == g and abs(x) <= max(abs(b), 1) and abs(y) <= max(abs(a), 1)


def modpow(b, e, m):
    return pow(b, e, m)


def inv(a, m):
    if m == 1:
        return 0
    if math.gcd(a, m) != 1:
        return None
    return pow(a, -1, m)


def check(op, f):
    """f: fields after the op. True when the event is right."""
    if op == "add":
        return h(f[0]) + h(f[1]) == h(f[2])
    if op == "sub":
        return h(f[0]) - h(f[1]) == h(f[2])
    if op == "mul":
        return h(f[0]) * h(f[1]) == h(f[2])
    if op == "pow":
        return h(f[0]) ** int(f[1]) == h(f[2])
    if op == "divrem":
        return tdiv(h(f[0]), h(f[1])) == (h(f[2]), h(f[3]))
    if op == "ediv":
        return ediv(h(f[0]), h(f[1])) == (h(f[2]), h(f[3]))
    if op == "and":
        return h(f[0]) & h(f[1]) == h(f[2])
    if op == "or":
        return h(f[0]) | h(f[1]) == h(f[2])
    if op == "xor":
        return h(f[0]) ^ h(f[1]) == h(f[2])
    if op == "andnot":
        return h(f[0]) & ~h(f[1]) == h(f[2])
    if op == "not":
        return ~h(f[0]) == h(f[1])
    if op == "shl":
        return h(f[0]) << int(f[1]) == h(f[2])
    if op == "shr":
        return h(f[0]) >> int(f[1]) == h(f[2])
    if op == "bits":  # value bit_len trailing_zeros is_pow2 next_pow2
        a = h(f[0])
        np = 1 if a == 0 else 1 << (a - 1).bit_length()
        return (a.bit_length() == int(f[1]) and tz(a) == f[2] and (a != 0 and a & (a - 1) == 0) == (f[3] == "true") and np == h(f[4]))
    if op == "text":  # value radix text
        return to_radix(h(f[0]), int(f[1])) == f[2]
    if op == "parse":  # radix text value
        return int(f[1], int(f[0])) == h(f[2])
    if op == "le":
        return h(f[0]) == int.from_bytes(bytes.fromhex(f[1][1:]), "little") and not f[1].endswith("00")
    if op == "be":
        return h(f[0]) == int.from_bytes(bytes.fromhex(f[1][1:]), "big") and not f[1].startswith("x00")
    if op == "f32":
        return f32_bits(h(f[0])) == int(f[1], 16)
    if op == "f64":
        return f64_bits(h(f[0])) == int(f[1], 16)
    if op == "gcd":
        return math.gcd(h(f[0]), h(f[1])) == h(f[2])
    if op == "xgcd":
        return xgcd_ok(*[h(x) for x in f[:5]])
    if op == "cmp":
        a, b = h(f[0]), h(f[1])
        return (a > b) - (a < b) == int(f[2])
    if op == "modadd":  # n a b result
        return (h(f[1]) + h(f[2])) % h(f[0]) == h(f[3])
    if op == "modsub":
        return (h(f[1]) - h(f[2])) % h(f[0]) == h(f[3])
    if op == "modmul":
        return (h(f[1]) * h(f[2])) % h(f[0]) == h(f[3])
    if op == "modpow":
        return pow(h(f[1]), h(f[2]), h(f[0])) == h(f[3])
    if op == "modinv":
        n, a = h(f[0]), h(f[1])
        w = inv(a % n, n)
        return (f[2] == "none") if w is None else (f[2] != "none" and h(f[2]) == w)
    raise ValueError("unknown event " + op)


def check_log(path):
    n, bad = 0, []
    with open(path) as fh:
        for line in fh:
            f = line.split()
            if len(f) < 3:
                continue
            n += 1
            if not check(f[1], f[2:]):
                bad.append((int(f[0]), line.strip()[:1200]))
                if len(bad) > 5:
                    break
    return n, bad


if __name__ == "__main__":
    import json, sys
    print(json.dumps(check_log(sys.argv[1])))
