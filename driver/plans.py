"""What each check runs."""
import concurrent.futures as cf
import os
import build, runner, special


class Plan:
    """Shards of a monitor binary in several builds of the library."""
    level = "exploration"

    def __init__(self, prop, binary, cases, rule, log=0, thorough=25, assumptions=None, shards=8, max_secs=(100, 700), extra=(),
                 level="exploration", technique=None, note=None):
        self.prop, self.binary, self.cases, self.rule = prop, binary, cases, rule
        self.log, self.thorough = log, thorough
        self.assumptions = BASE_ASSUMPTIONS if assumptions is None else list(assumptions)
        self.shards, self.max_secs, self.extra = shards, max_secs, extra
        self.level = level
        self.technique = technique or TECHNIQUE
        self.note = note or NOTE

    def builds(self):
        w = {c: [self.binary] for c in self.cases}
        for e in self.extra:
            for c, b in e.builds().items():
                w[c] = sorted(set(w.get(c, []) + b))
        return w

    def jobs(self, res):
        thorough = res.tier == "thorough"
        jobs = []
        # the parts with interpreters take longest: first
        for e in self.extra:
            jobs += e.jobs(res)
        shards = []
        for config, n in self.cases.items():
            n = n * (self.thorough if thorough else 1)
            per = max(1, n // self.shards)
            for s in range(self.shards):
                log_every = self.log * (self.thorough if thorough else 1)
                shards.append((config, self.binary, self.prop, res.seed, s, per, self.max_secs[1 if thorough else 0], log_every))
        shards.sort(key=lambda j: j[4])     # interleave the configurations
        return jobs + [lambda j=j: runner.run_shard(res, j) for j in shards]

    def run(self, res):
        os.makedirs(runner.SCRATCH, exist_ok=True)
        with cf.ThreadPoolExecutor(runner.NPROC) as ex:
            futs = [ex.submit(j) for j in self.jobs(res)]
            for f in futs:
                f.result()
        for e in self.extra:
            if hasattr(e, "finish"):
                e.finish(res)


TECHNIQUE = "runtime monitoring of the real code: generated hostile workloads, online reference-model oracle"
NOTE = "Held on every execution explored (counts in the evidence), in builds with 64-, 32- and 16-bit words, optimised and with " \
       "overflow checks, on 64- and 32-bit targets. Trusts the reference model; says nothing about inputs not generated."

BASE_ASSUMPTIONS = [
    "the reference model (schoolbook arithmetic on 32-bit limbs, self-tested and cross-checked offline with Python integers) is right",
    "only the executions produced by the generated workload are judged",
]

ALL = ("native", "bits64", "bits32", "bits16", "i686")


def every(n, **kw):
    d = {c: n for c in ALL}
    d.update(kw)
    return d


ARITH = "one case = one operand tuple (or operation chain) drawn by the structured generator; an observation is one comparison of a library " \
        "result with the reference model; non-trivial = some operand is longer than one machine word; distinct = distinct (check, operands) pairs"

PLANS = {}


def add(p):
    PLANS[p.prop] = p


add(Plan("C01", "arith", every(150000), "random a, b with structured carries/borrows; " + ARITH, log=50))
add(Plan("C02", "arith", every(24000), "random a, b around every algorithm threshold; " + ARITH, log=12))
add(Plan("C03", "arith", every(120000), "random bases and exponents; " + ARITH, log=40))
add(Plan("C04", "arith", every(40000), "dividends built as q*b+r with extreme q, r and leading words; " + ARITH, log=16))
add(Plan("C30", "arith", every(120000), "signed operands reached by different histories; " + ARITH))
add(Plan("C32", "arith", every(120000), "generic code instantiated with UBig and IBig; " + ARITH))
add(Plan("C05", "forms", every(64000), "each operator in every owned, borrowed, in-place and primitive-operand form against the reference; " + ARITH))
add(Plan("C06", "cmp", every(96000), "pairs of values reached by different histories; " + ARITH))
add(Plan("C07", "cmp", every(160000), "pairs and small sets of values, sorted; " + ARITH))
add(Plan("C08", "bits", every(240000), "two's complement operands; " + ARITH, log=80))
add(Plan("C09", "bits", every(240000), "values and shift amounts around word boundaries and up to usize::MAX; " + ARITH, log=80))
add(Plan("C10", "bits", every(120000), "bit queries, and sequences of set_bit/clear_bit against a model; " + ARITH))
add(Plan("C11", "text", every(48000), "numbers x radices x format specs against positional digits rendered as std renders primitives; " + ARITH, log=40))
add(Plan("C12", "text", every(48000), "valid and near-valid numerals and arbitrary strings; " + ARITH, log=40))
add(Plan("C13", "conv", every(80000), "numbers and byte strings of every length, padded; " + ARITH, log=40))
add(Plan("C14", "conv", every(80000), "values at and around the bounds of every primitive type, both directions; " + ARITH))
add(Plan("C15", "conv", every(80000), "values built around float ties, sticky bits and overflow thresholds; " + ARITH, log=40))
add(Plan("C16", "gcd", every(16000), "pairs with common factors, consecutive convergents, powers of two, zero; " + ARITH, log=8))
add(Plan("C17", "modular", every(24000), "moduli of every shift and length x random operation chains; " + ARITH, log=8))
add(Plan("C18", "modular", every(12000), "moduli x units and non-units x exponents of every window shape; " + ARITH, log=8))
add(Plan("C19", "modular", every(12000), "pairs of rings x every binary operation form; clone_from chains over a pool of values of several rings; " + ARITH))
add(Plan("C20", "rnd", every(24000), "ranges x fair, scripted and extreme random sources; chi-squared statistics of samples; " + ARITH))
add(Plan("C21", "ser", every(24000), "values and hostile encodings through serde_json, bincode, serde_cbor, token streams and hand-written (de)serializers; " + ARITH))
add(Plan("C22", "cap", dict(bits16=2400, native=800), "with 16-bit words the limit is 65536 bits: operands and results at and around it for every operation family; "
         "on i686 the real limit, with numbers of 512 MB; " + ARITH,
         extra=[Plan("C22", "cap", dict(i686=8), "", shards=1, thorough=4)]))


# Numbers of more than 2^32 bits: sparse, so that the reference keeps up.
for _p, _n in dict(C01=2, C02=4, C03=3, C04=4, C05=2, C06=2, C07=3, C08=2, C09=3, C10=3, C11=3, C12=3, C13=2, C14=2, C15=2, C16=3,
                   C17=2, C20=2, C21=2, C30=2).items():
    PLANS[_p].extra = tuple(PLANS[_p].extra) + (Plan(_p, "colossal", dict(native=_n, bits64=2), "", shards=1, thorough=6),)


add(Plan("C23", "fail", every(32000), "arguments on both sides of every documented failure, in every operator form; " + ARITH))
add(Plan("C24", "fail", every(12000, oom=2000),
         "operations interrupted by documented panics, failing writers, sources, hashers, (de)serializers and refused allocations at every "
         "point, the surviving values used afterwards; heap balance; under AddressSanitizer with allocation failures that unwind; " + ARITH,
         technique="fault injection (callbacks and allocator) with monitors on the surviving values and the heap, AddressSanitizer",
         level="fault_enumeration"))
add(Plan("C26", "mem", every(32000),
         "live and peak heap bytes and blocks, as the global allocator sees them, around operations and histories; " + ARITH,
         technique="runtime monitoring: counting global allocator, bounds checked online"))

TRACE = ["--small", "300", "--big", "1500", "--big-every", "5"]
add(Plan("C25", None, {}, "one case = one scenario of calls over the whole public interface with random operands, watched by an "
         "undefined-behaviour interpreter (both aliasing models, 64/32/16-bit words, 32-bit pointers, big endian), memcheck, or "
         "AddressSanitizer; an observation is one result of the library seen to come out of a watched execution; distinct = cases",
         assumptions=["Miri, valgrind and AddressSanitizer report what they are documented to report",
                      "only the executions produced by the generated workload are judged"],
         technique="undefined-behaviour interpreter (Miri), memcheck and AddressSanitizer over generated API histories",
         note="No undefined behaviour in the executions watched (counts in the evidence). The interpreter sees aliasing, alignment, "
              "initialisation and bounds at operand sizes up to about 4000 bits; memcheck and AddressSanitizer the large sizes.",
         extra=[
             special.Miri("trace", [
                 ("m64", [], []),
                 ("m64", ["-Zmiri-tree-borrows"], []),
                 ("m16", [], ["--big", "3500"]),
                 ("m16", ["-Zmiri-tree-borrows"], []),
                 ("m32", [], []),
                 ("mi686", [], []),
                 ("ms390x", [], []),
                 ("ms390x16", ["-Zmiri-symbolic-alignment-check"], ["--small", "200", "--big", "900"]),
             ], (45, 420), TRACE),
             special.Valgrind(["native", "bits16", "bits32"], 700, ["--big", "40000", "--big-every", "10"]),
             special.Sanitized("asan", [
                 ("arith", "C01", 4000), ("arith", "C02", 2000), ("arith", "C03", 3000), ("arith", "C04", 3000), ("forms", "C05", 3000),
                 ("cmp", "C06", 3000), ("bits", "C08", 8000), ("bits", "C09", 8000), ("bits", "C10", 4000), ("text", "C11", 3000),
                 ("text", "C12", 3000), ("conv", "C13", 4000), ("conv", "C14", 4000), ("gcd", "C16", 1000), ("modular", "C17", 1500),
                 ("modular", "C18", 600), ("modular", "C19", 1000), ("rnd", "C20", 1000), ("ser", "C21", 2000), ("fail", "C23", 1500),
                 ("mem", "C26", 2000)]),
         ]))
add(Plan("C27", "thr", {"native": 6000, "bits16": 2400, "i686": 2400},
         "one case = a set of shared values and a schedule of tasks on them for several threads; an observation is one task result "
         "compared with sequential execution; race detectors watch the accesses; " + ARITH,
         assumptions=["ThreadSanitizer and Miri report the data races of the executions they see",
                      "only the schedules met are judged; Miri's are random with preemption, the native ones those of the machine"],
         technique="race detectors (ThreadSanitizer, Miri with random schedules) and result monitors over concurrent workloads",
         note="No data race and no result different from sequential execution in the schedules met (counts in the evidence); Send and "
              "Sync of the public types decided by the compiler.",
         extra=[
             special.Miri("mthr", [
                 ("m64", ["-Zmiri-seed=1"], []),
                 ("m64", ["-Zmiri-seed=2", "-Zmiri-preemption-rate=0.1"], []),
                 ("m16", ["-Zmiri-seed=3", "-Zmiri-preemption-rate=0.2"], []),
                 ("ms390x", ["-Zmiri-seed=4", "-Zmiri-preemption-rate=0.05"], []),
             ], (35, 420), [], races=True),
             Plan("C27", "thr", {"tsan": 400}, "", shards=4),
         ]))
add(Plan("C28", None, {}, "one case = one scenario of calls over the whole public interface; its digest covers every value, text, byte string, "
         "error and panic it saw; an observation is one digest of one build compared with the others; distinct = cases",
         assumptions=["the program generates the same calls in every build (its generator does not depend on the word size)",
                      "only the executions produced by the generated workload are judged"],
         technique="offline comparison of event digests recorded from the same program in different builds and on an interpreted big-endian machine",
         note="Same digests in every build on everything explored: 64-, 32-, 16-bit words, generic and intrinsics code, 32- and 64-bit "
              "pointers, with and without std, optimised and with debug assertions, and interpreted big-endian s390x.",
         extra=[special.Compare(["native", "bits64", "bits32", "bits16", "i686", "nostd"], 60000, ["--big", "20000", "--big-every", "40"],
                                ["ms390x", "ms390x16"], 150, ["--small", "300", "--big", "1500", "--big-every", "8"])]))
add(Plan("C29", None, {}, "one case = one macro invocation in a generated program, compiled and run; an observation is its value compared with "
         "the number written; distinct = invocations",
         assumptions=["to_le_bytes of the value is right (C13)", "only the literals generated are judged"],
         technique="runtime monitoring of generated programs against the numbers they were generated from",
         note="Every literal generated denoted its number, in three editions, several word sizes and hostile scopes.",
         extra=[special.Literals(3200)]))
add(Plan("C31", None, {}, "one case = one operation at two lengths, the second eight times the first; an observation is the growth of the number of "
         "executed instructions; distinct = (operation, kind of operands)",
         assumptions=["executed instructions measure work", "the lengths measured (1500 to 16000 words) are representative"],
         technique="runtime monitoring: instruction counts of the real code under callgrind",
         note="The work of every operation measured grows within its class between 1500 and 16000 words, for three kinds of operands.",
         extra=[special.Cost()]))

def all_builds():
    w = {}
    for p in PLANS.values():
        for c, b in p.builds().items():
            w[c] = sorted(set(w.get(c, []) + b))
    return w


def setup_extra():
    import literals
    res = runner.Res("C29", "quick", 1)
    with cf.ThreadPoolExecutor(runner.NPROC) as ex:
        list(ex.map(lambda j: j(), special.Literals(40).jobs(res)))
