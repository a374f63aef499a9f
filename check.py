#!/usr/bin/env python3
"""check.py <property id>: run one check. VERIF_SEED and VERIF_TIER as described in MANIFEST.json."""
import os, signal, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
from driver import Run, Inconclusive, build, log

TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def secs(q, t):
    return q if TIER == "quick" else t


def plain(run, q=60, t=600, **kw):
    """The native harness, all shards."""
    run.mon = build("mon")
    run.builds.append("native opt-level 2, debug assertions and overflow checks on")
    run.shards(run.mon, secs=secs(q, t), **kw)


SPECS = {}


def spec(pid, rule, need, level="exploration", **kw):
    def reg(f):
        SPECS[pid] = dict(rule=rule, need=need, level=level, run=f, **kw)
        return f
    return reg


@spec("C01",
      "exhaustive short texts over five alphabets, every cut/insertion/replacement at every position of 34 templates with "
      "every ASCII and selected other characters, deep and large documents, random documents and corruptions of them; each "
      "text is judged by the reference reader and given to from_str. Non-trivial: every text is (invalid ones too); distinct "
      "by content.",
      {"evaluations": 300000, "accepted_valid": 20000},
      technique="runtime monitoring: reference-reader oracle over observed accept/reject outcomes",
      note="Every observed from_str verdict agreed with an independent RFC 8259 pushdown reader; bounded-exhaustive for short "
           "texts, sampled beyond. Trusts the reference reader and std's f64 parser; literals within 1e-14 of f64::MAX may go "
           "either way.")
def c01(run):
    plain(run)


@spec("C02",
      "every tree shape of up to 8 (thorough 9) nodes with numbered leaves, arrays/objects/strings of every size up to 70 and "
      "around powers of two with distinguishable items, deep documents with siblings, random documents with repeated keys; "
      "the parsed Value/Array/Object/Number is walked through the public API and compared item by item with the reference "
      "reader's tree. Distinct by document text; a document is non-trivial when the reader accepts it.",
      {"evaluations": 100000, "items compared": 1000000},
      technique="runtime monitoring: structural diff of parsed values against an independent document model",
      note="Every item of every parsed value agreed with the model on the documents run. Trusts the reference reader; floats "
           "are compared within the 5 ulp that C04 allows.")
def c02(run):
    plain(run)


@spec("C03",
      "exhaustive: every \\uXXXX in lower/upper/mixed case, every surrogate pair, every scalar value written raw, every "
      "character after a backslash and in each hex digit, unpaired surrogates with eleven continuations, a special item at "
      "every offset of every length up to 70; then long strings and random mixes and corruptions. A recording visitor keeps "
      "the bytes of every text it is handed; they are validated as UTF-8 and compared with the reference reader's text. "
      "Distinct by document; each holds at least one string literal or is refused for one.",
      {"evaluations": 100000, "texts compared": 1000000, "owned texts compared": 100000},
      technique="runtime monitoring: recording visitor, texts compared with an independent decoder",
      note="All escapes, pairs and scalars were observed exhaustively in isolation and sampled in combination. Trusts the "
           "reference decoder.")
def c03(run):
    plain(run)


@spec("C04",
      "every integer within +-70000 (thorough 10^6), all integers near powers of 2 and 10 and near the types' limits with "
      "and without fraction/exponent tails, 32 significands x all exponents in +-700 (thorough +-1500), the same magnitudes "
      "written out in digits, exponents at the i32/u64 limits, literals of up to 100k digits, random literals; each literal "
      "is parsed into all ten integer types, f32, f64, Number and Value in up to seven syntactic contexts and compared with "
      "exact integer arithmetic and std's correctly rounded parser. Distinct by literal; all are number literals.",
      {"evaluations": 100000, "integers accepted": 200000, "floats compared": 50000, "too large, refused": 5000},
      technique="runtime monitoring: exact-arithmetic oracle over parsed numbers in all numeric types",
      note="8- and 16-bit ranges and the neighbourhoods of all limits observed exhaustively, floats sampled; the observed "
           "error in ulps is in the evidence. Trusts std's float parser; bound 5 ulp.")
def c04(run):
    plain(run)


@spec("C05",
      "every scalar value and ASCII pair as text and key, special characters at every offset, every 8/16-bit integer and all "
      "types near their limits, every f64/f32 exponent with several mantissas, sizes and depths around powers of two, random "
      "values of random compositions of all supported types (references, boxes, cows, options, slices, tuples, maps with "
      "custom hashers, derived types, hand-written streams, Values); the text is read by the reference reader and compared "
      "item by item with what the value holds. Distinct by value; all are non-trivial.",
      {"evaluations": 100000, "items compared": 1000000},
      technique="runtime monitoring: output judged by an independent reader against a shadow model of the value",
      note="Every output observed was compact, valid and denoted its value. Trusts the reference reader and std's float "
           "parser.")
def c05(run):
    plain(run)


@spec("C06",
      "every character, every 16-bit integer, a sample (thorough: all) of the f32, 31 f64 of every exponent and those next to "
      "infinity (alone and in a Value), and values of about 140 types (all supported impls nested in each other, derived, generic "
      "and recursive types, Values with floats) generated at random, written by to_string, parsed back and compared by content; "
      "texts of float-free documents (random, deep, wide) rewritten twice. Distinct by text; a case is non-trivial when it went both ways.",
      {"evaluations": 50000, "round trips": 50000, "fixpoints": 10000},
      technique="runtime monitoring: round-trip equality over a zoo of modeled types",
      note="Every round trip observed gave the value back. Equality is judged on a structural dump; f64 within 5 ulp.")
def c06(run):
    plain(run)


@spec("C07",
      "about 140 target types; 75 probe documents in nine wrappings against every type, large and deep fitting documents, for every "
      "type that holds a list or map documents with up to 65,537 different items in it, "
      "documents generated from the type's schema (members reordered, repeated, left out, unknown ones added, one node "
      "broken), corrupted ones and unrelated ones; success and content are compared with a schema interpreter over the "
      "reference tree. Distinct by type and document; all are non-trivial.",
      {"evaluations": 200000, "accepted and equal": 100000, "refused: kind of value": 20000, "refused: missing member": 500,
       "refused: wrong number of elements": 500, "refused: bad key": 500},
      technique="runtime monitoring: schema-interpreter oracle over observed typed parses",
      note="Every observed parse of every zoo type agreed with the schema interpreter in outcome and content. Trusts the "
           "interpreter (independent of the crate), std's FromStr for keys and the reference reader; -0 for unsigned types "
           "may go either way.")
def c07(run):
    plain(run)


@spec("C08",
      "random programs: structs of 0 to 300 (thorough 2000) fields and enums, names and renames of every kind, generics with bounds, defaults "
      "and where clauses, lifetimes, const parameters, Self and recursion, associated types, macro-made and function-local definitions, "
      "modules that shadow the prelude or go without it, three editions; each type writes values (read back by Python's json) and reads "
      "texts with members shuffled, repeated, unknown, near-miss and left out. Definitions that have to be refused, each of which compiles "
      "with derives that do nothing. Distinct by module; all are non-trivial.",
      {"supported modules compiled and run": 1500, "observations of generated code": 50000, "texts written by generated code and read back": 8000,
       "definitions refused": 700},
      technique="runtime monitoring: generated programs compiled with the real derives, their observed output and results judged against a model",
      note="Every generated definition compiled and behaved as modeled, every unsupported one was refused. The set of definitions is open; "
           "trusts rustc and the generator's model.")
def c08(run):
    import c08
    c08.check(run, TIER, SEED)


@spec("C09",
      "77 operations (parsing into containers of Values, failing, ignoring, dropping, clearing, draining, partly consumed "
      "iterators, unwinding, writing) on 14 fixed and many random nesting shapes and (where no text is parsed) on values built "
      "through the Array and Object interfaces in 30 further ways, failing parses cut or broken at random "
      "places, 12 recursive user types parsed, cut and written, streams that make their children lazily; each runs at depth "
      "300 and at depth 40000 (thorough up to 10^6; lazy streams five times that) on a thread whose stack is a fresh mapping, and the "
      "lowest page touched is compared. Distinct by operation, shape and depth.",
      {"evaluations": 1000, "deep operations measured": 1000, "failing parses measured": 100, "meter self-test": 1,
       "operations on values built by hand": 500},
      technique="runtime monitoring: stack high-water mark measured by page residency on a private stack mapping",
      note="No operation observed used more than 16 KiB more stack at the large depth than at depth 300. Value's Clone and "
           "Debug are recursive and not covered; std's drop glue of user types is left out.")
def c09(run):
    plain(run, q=60)


CRASHES = tuple(-int(x) for x in driver.CRASH)
NOT_UB = ("has overflowed its stack", "AddressSanitizer: stack-overflow", "MemorySanitizer: stack-overflow", "panic in a destructor during cleanup",
          "panic in a function that cannot unwind", "memory allocation of", "AddressSanitizer: out of memory",
          "AddressSanitizer: requested allocation size")


def ub(text, rc, state):
    """What a sanitizer, Miri or a check in std said about undefined behaviour; "" if the run ended for another reason."""
    if "unsafe precondition(s) violated" in text:
        return "std: unsafe precondition violated"
    if any(m in text for m in NOT_UB) or rc in (97, 98):
        return ""
    for m, what in (("error: Undefined Behavior", "Miri: undefined behaviour"), ("ERROR: AddressSanitizer", "AddressSanitizer report"),
                    ("MemorySanitizer: use-of-uninitialized", "MemorySanitizer report"), ("WARNING: ThreadSanitizer", "ThreadSanitizer report"),
                    ("ERROR: ThreadSanitizer", "ThreadSanitizer report"), ("ERROR: MemorySanitizer", "MemorySanitizer report")):
        if m in text:
            return what
    if rc == 77:
        return "memcheck report"
    if rc in CRASHES and state == 1:
        return "process died by signal %d inside a call" % -rc
    return None


def not_text(v):
    return v["what"] == "a str that is not UTF-8"


SAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66",
           "ASAN_OPTIONS": "detect_leaks=0 exitcode=66 detect_stack_use_after_return=1 allocator_may_return_null=1",
           "MSAN_OPTIONS": "exitcode=66"}


def build_asan(run):
    run.builds.append("nightly, AddressSanitizer")
    return build("asan", toolchain=driver.NIGHTLY, target_triple=driver.HOST, env={"RUSTFLAGS": "-Zsanitizer=address"})


def build_tsan(run):
    run.builds.append("nightly, std rebuilt, ThreadSanitizer")
    return build("tsan", toolchain=driver.NIGHTLY, args=["-Zbuild-std"], target_triple=driver.HOST,
                 env={"RUSTFLAGS": "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"})


def build_msan(run):
    run.builds.append("nightly, std rebuilt, MemorySanitizer")
    return build("msan", toolchain=driver.NIGHTLY, args=["-Zbuild-std"], target_triple=driver.HOST,
                 env={"RUSTFLAGS": "-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cunsafe-allow-abi-mismatch=sanitizer"})


def build_miri(run):
    """The words that start the harness under Miri, and their environment."""
    run.builds.append("nightly, Miri")
    target = os.path.join(driver.VERIF, "target", "miri")
    driver.fresh(target)
    env = driver.cargo_env()
    env["CARGO_TARGET_DIR"] = target
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    words = ["cargo", "+" + driver.NIGHTLY, "miri", "run", "--offline", "-q", "--bin", "mon", "--"]
    r = subprocess.run(words + ["merge"], cwd=os.path.join(driver.VERIF, "mon"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        raise Inconclusive("the monitors do not build for Miri")
    log("built for Miri")
    return words, env


def miri(run, words, env, flags, **kw):
    e = dict(env, MIRIFLAGS=env["MIRIFLAGS"] + " " + flags)
    return run.shards(words, env=e, cwd=os.path.join(driver.VERIF, "mon"), cursor=False, tier="mini", san=ub, only=not_text, run=False,
                      tag_obs=True, **kw)


@spec("C10",
      "thirteen workloads: visitors, builders and streams of about 140 types called directly in any order (finish twice, element after "
      "finish, builders leaked or dropped halfway), user builders that read and write what they borrow from the levels above in every call and "
      "drop, one object serving as visitor and builder of all levels, derived builders around them, lending streams, each with errors, panics "
      "and panics in drops injected; typed parses of fitting, broken and cut documents; histories of Value operations; hostile string "
      "escapes; run natively with std's checks, under AddressSanitizer together with the workloads of ten other checks, and under Miri with "
      "both aliasing models (thorough: MemorySanitizer and memcheck too). Distinct by input; all are non-trivial.",
      {"evaluations": 20000, "errors injected": 50000, "panics injected": 50000, "texts looked at": 1000000, "types driven directly": 1000,
       "Miri SB: callbacks and direct calls": 1000, "Miri TB: callbacks and direct calls": 1000, "ASan: callbacks and direct calls": 100000},
      level="fault_enumeration",
      technique="sanitizers: Miri (Stacked and Tree Borrows), AddressSanitizer, MemorySanitizer, memcheck and std's debug checks over hostile workloads",
      note="No report on the executions observed. Whether a text is UTF-8 is checked by the harness itself.")
def c10(run):
    mon = run.mon = build("mon")
    run.builds.append("native opt-level 2, debug assertions, overflow and unsafe-precondition checks on")
    words, menv = build_miri(run)
    asan = build_asan(run)
    t = TIER == "thorough"
    # Miri first: one shard per core
    jobs = []
    jobs += miri(run, words, menv, "", config="Miri SB", nshards=4 if not t else 16, secs=secs(70, 500))
    jobs += miri(run, words, menv, "-Zmiri-tree-borrows", config="Miri TB", nshards=4 if not t else 16, secs=secs(70, 500))
    if t:
        for c in ("C02", "C03", "C05", "C06", "C07", "C11", "C12", "C13", "C14", "C16", "C18"):
            jobs += miri(run, words, menv, "-Zmiri-tree-borrows" if c in ("C11", "C13", "C07") else "", check=c, config="Miri " + c, nshards=2, secs=240)
    run.go(jobs)
    kw = dict(san=ub, only=not_text, env=SAN_ENV, run=False, tag_obs=True)
    jobs = run.shards(mon, config="", nshards=8, secs=secs(12, 200), **dict(kw, tag_obs=False))
    jobs += run.shards(asan, config="ASan", nshards=8, secs=secs(15, 300), **kw)
    others = ("C02", "C03", "C05", "C06", "C07", "C11", "C12", "C13", "C16", "C18")
    for c in others:
        jobs += run.shards(asan, check=c, config="ASan " + c, nshards=1 if not t else 4, of=64, secs=secs(12, 120), **kw)
    jobs += run.shards(asan, check="C14", config="ASan C14", nshards=1, secs=secs(8, 60), extra=["threads"], **kw)
    if t:
        msan = build_msan(run)
        for c in ("C10",) + others:
            jobs += run.shards(msan, check=c, config="MSan " + c, nshards=4, of=64, secs=100, **kw)
        for c in ("C10", "C11", "C12", "C13", "C16"):
            jobs += run.shards(mon, check=c, config="memcheck " + c, nshards=2, secs=240, tier="mini",
                               prefix=["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--main-stacksize=8000000"], **kw)
    run.go(jobs)


@spec("C11",
      "about 100 target types holding objects on a ledger (ordinary, 64-aligned, large, zero-sized; keys, hashers, errors and "
      "user builders too) x documents generated from their schemas, well-formed, broken and cut at every byte; for each "
      "document a run per callback/key conversion/comparison/hash with an error and with a panic injected there, and a run per "
      "drop with a panic in it; lists and maps of up to 12,288 items in every type that holds some, with a sample of the faults. Ledger and heap are balanced after each run. Distinct by type, document and injected fault.",
      {"evaluations": 100000, "errors injected": 20000, "panics injected": 20000, "drop panics injected": 20000,
       "cut documents": 20000, "items in crowded containers": 1000000, "successful parses": 1000, "refused parses": 1000, "heap balances": 10000},
      level="fault_enumeration",
      technique="runtime monitoring: object ledger and heap balance under exhaustive fault injection",
      note="Every fault point of every document run was tried; documents are sampled. A panic inside a drop is only held to "
           "'no second drop'. Values in the ledger also detect use after drop.")
def c11(run):
    plain(run)


@spec("C12",
      "every text of six tokens (thorough seven) over ten tokens, random documents, corruptions, cuts, deep and wide ones; a "
      "recording visitor hands out identified places, boxed, optional and ignored ones by a seeded policy; the trace of "
      "callbacks and builder drops is compared entry by entry with the one computed from the reference reader's events, again with "
      "an error and with a panic injected at each (large documents: a sample) of the callbacks. Distinct by document; an "
      "evaluation is one parse.",
      {"evaluations": 300000, "complete traces": 20000, "prefixes of malformed documents": 100000, "errors injected": 20000,
       "panics injected": 20000},
      level="fault_enumeration",
      technique="runtime monitoring: offline trace checker over recorded visitor callbacks and drops, with fault injection",
      note="Every recorded trace was the one the document calls for. Identity of places is checked for user-made visitors; "
           "for boxed/optional places that the value arrived in the place handed out last.")
def c12(run):
    plain(run)


@spec("C13",
      "node trees of user-written Serialize values whose streams borrow, lend (each child is made on demand and destroyed at the "
      "next call) or go through the crate's own impls (slices, vectors, arrays, tuples, maps, derives, boxes, options, cows, "
      "dyn); every number of children up to 70 and sizes up to 12,288, keys and texts (lent and owned) of every length up to 140 and up to "
      "98,304, random and deep trees; the trace of begin/next/drop is compared with the one the "
      "tree calls for, the text with an independent writer's, the heap with its level before, again with a panic injected "
      "at each call and each drop (large trees: a sample). Distinct by tree.",
      {"evaluations": 100000, "complete traces": 20000, "panics injected": 100000},
      level="fault_enumeration",
      technique="runtime monitoring: offline trace checker over recorded begin/next/drop calls, with panic injection",
      note="Every recorded trace, text and heap balance was the one the tree calls for.")
def c13(run):
    plain(run)


@spec("C14",
      "histories: calls on about 140 types and operations on Values with results known from a fresh thread, repeated in random order "
      "after failing, panicking, deep and cut calls and thousands of failures of one kind, and after calls that leave 24 million layers, texts or "
      "members of one kind behind; the same calls made from inside the callbacks of an outer parse or write, up to three deep, and calls inside "
      "each other's callbacks up to 1100 deep or in up to 400 threads at once; threads: eight threads doing all of this at once on their own and on shared "
      "Values, handing Values over to be read and dropped elsewhere, natively and under ThreadSanitizer. Distinct by probe and "
      "round; all are non-trivial.",
      {"results compared after other calls": 10000, "calls inside callbacks": 10000, "calls in threads": 50000, "calls inside callbacks of each other": 8000, "calls under way at once": 900,
       "bytes of a great many calls": 300000000,
       "calls begun while another was running": 10000, "Values received from another thread": 1000,
       "types asked for Send and Sync": 8},
      technique="runtime monitoring: differential monitor of results across histories, re-entrancy and threads; ThreadSanitizer; Miri's race detector",
      note="Every result observed was the one of the call alone, and no data race was reported. Interleavings are those the "
           "scheduler gave.")
def c14(run):
    plain(run, q=25)
    tsan = build_tsan(run)
    run.shards(tsan, config="TSan", nshards=2 if TIER == "quick" else 8, secs=secs(15, 240), extra=["threads"],
               env=SAN_ENV, san=ub, tag_obs=True)


def growth(rows):
    """What grows faster than the data. rows: (units, bytes, cost) by size. The exponent of the last step and of the whole are judged."""
    rows = [r for r in rows if r[2] > 0]
    if len(rows) < 2:
        return None

    def exponent(a, b):
        import math
        if b[1] < 2 * a[1]:  # the value stays as it is: so should the cost
            return 9.0 if b[2] > 2 * a[2] else 0.0
        return math.log(b[2] / a[2]) / math.log(b[1] / a[1])
    last, whole = exponent(rows[-2], rows[-1]), exponent(rows[0], rows[-1])
    return (last, whole)


@spec("C15",
      "55 kinds of document (deep, wide, long texts and keys, escapes, long numbers, extreme exponents, repeated keys, white space, "
      "combs, tables, trees) under 13 operations (parse, write, drop, failing late, ignoring, typed containers, clear, overwrite), 46 "
      "typed parses and writes, and seed-chosen pairs of kinds beside or inside each other, each at sizes growing by 4; instructions "
      "counted by callgrind around the one call, bytes, peak and number of allocations by the allocator. A growth exponent (in document bytes) "
      "of the instructions over 1.3 in the last step or 1.25 over all of them is a violation, of the bytes, which doubling buffers make "
      "jump, over 1.65 and 1.35. 5,500 documents and values of a few bytes that name something large (exponents, escapes, openings) must "
      "stay under 100,000 instructions and 1 MiB. Distinct by family and size.",
      {"calls measured in instructions": 1500, "measured calls": 5000, "families": 1000},
      technique="runtime monitoring: instruction counts (callgrind) and allocator counters against document size, growth exponents judged",
      note="No family's cost was observed to grow superlinearly; sizes up to 10^5 units (10^6 bytes). A superlinear "
           "term too small to show at those sizes is not seen.",
      bounds={"exponent of instructions, last step": 1.3, "exponent of instructions, all steps": 1.25,
              "exponent of bytes, last step": 1.65, "exponent of bytes, all steps": 1.35})
def c15(run):
    mon = run.mon = build("mon")
    run.builds.append("native opt-level 2, debug assertions and overflow checks on")
    t = TIER == "thorough"
    tables = []
    jobs = []

    def add(config, nshards, args, **kw):
        for j in run.shards(mon, config=config, nshards=nshards, run=False, **kw):
            table = j["base"] + ".tsv"
            tables.append((config, table))
            j["cmd"] += ["table=" + table] + args
            if "valgrind" in j["cmd"][0]:
                j["cmd"][2:2] = ["--callgrind-out-file=" + j["base"] + ".cg"]
                j["cmd"].append("callgrind=" + j["base"] + ".cg")
            jobs.append(j)
    add("native, tiny", 1, ["tiny=1", "steps=1", "base=1"], secs=400, wall=6000)
    add("callgrind, tiny", 4, ["tiny=1", "steps=1", "base=1"], secs=400, wall=6000, prefix=["valgrind", "--tool=callgrind"], cursor=False)
    add("callgrind", 16, ["base=750", "steps=%d" % (3 if not t else 5), "stride=%d" % (40 if not t else 8)],
        secs=400 if not t else 1500, wall=6000, prefix=["valgrind", "--tool=callgrind"], cursor=False)
    add("native", 8, ["base=%d" % (2000 if not t else 1000), "steps=%d" % (4 if not t else 6),
                      "stride=%d" % (20 if not t else 2)], secs=400 if not t else 1500, wall=6000)
    run.go(jobs, lambda: c15_judge(tables, {}))
    run.violations += c15_judge(tables, run.obs)


def c15_judge(tables, obs):
    found = []
    by = {}
    for config, table in tables:
        if os.path.exists(table):
            with open(table) as fh:
                families = fh.read().split("\n\n")[:-1]  # a family ends with an empty line
            for line in "\n".join(families).splitlines():
                f = line.split("\t")
                by.setdefault((config, f[0]), []).append(tuple(map(int, f[1:])))
    costs = {"native": ((2, "bytes allocated", 1 << 16), (3, "bytes held at once", 1 << 16), (4, "allocations", 4096)),
             "callgrind": ((5, "instructions", 1 << 17),)}
    for (config, name), rows in by.items():
        rows.sort()
        config, tiny = config.split(",")[0], config.endswith("tiny")
        for col, what, _ in costs[config]:
            if what != "allocations":
                # whatever the growth: nothing a document or value says may cost out of all proportion to its size
                base, per = (1e5, 5000) if what == "instructions" else (1 << 20, 2000)
                over = [r for r in rows if r[col] > base + per * r[1]]
                key = "max %s of one call on a tiny document" % what if tiny else "max %s per byte of data" % what
                obs[key] = max([obs.get(key, 0)] + [r[col] if tiny else r[col] // r[1] for r in rows])
                if over:
                    found.append(dict(what="%s out of proportion to the data" % what, label=name, config=config, input=name,
                                      detail=", ".join("%d bytes of data: %d" % (r[1], r[col]) for r in over), input_len=over[0][1]))
        if tiny:
            obs["tiny documents judged by " + costs[config][0][1]] = obs.get("tiny documents judged by " + costs[config][0][1], 0) + 1
            continue
        for col, what, floor in costs[config]:
            if rows[-1][col] < floor:
                continue
            g = growth([(r[0], r[1], max(1, r[col])) for r in rows])
            if g is None:
                continue
            key = "max exponent x1000, %s" % what
            if rows[-1][1] > 2 * rows[0][1]:
                obs[key + ", last step"] = max(obs.get(key + ", last step", 0), int(1000 * g[0]))
                obs[key + ", all steps"] = max(obs.get(key + ", all steps", 0), int(1000 * g[1]))
            obs["families judged by " + what] = obs.get("families judged by " + what, 0) + 1
            wide = rows[-1][0] >= 10 * rows[-2][0]
            if (not wide and g[0] > (1.3 if what == "instructions" else 1.65)) or g[1] > (1.25 if what == "instructions" else 1.35):
                found.append(dict(what="%s grow faster than the data" % what, label=name, config=config, input=name,
                                           detail="exponent %.2f in the last step, %.2f in all: %s" % (g[0], g[1], ", ".join(
                                               "%d bytes of data: %d" % (r[1], r[col]) for r in rows)), input_len=rows[-1][1]))
    return found


@spec("C16",
      "random histories of 60 (thorough 120) of about 65 operations on a handful of Values side by side with plain Vec/BTreeMap "
      "counterparts (construction, mutation at any depth, iteration by value complete, partial, from both ends, by reference, "
      "cloning, clone_from, moving parts between trees, user closures that panic); after every operation contents, what was moved "
      "out, lengths and (sampled) Debug output are compared, after every history the heap level. The same for arrays and "
      "objects of every length up to 140 and around every power of two up to 8,192 (thorough 65,536): built three ways, printed "
      "whole, cloned and cloned into larger and smaller ones, consumed from both ends. Distinct by seed; all are non-trivial.",
      {"evaluations": 20000, "operations compared": 200000, "into_iter": 5000, "clone_from": 1000, "collect, panic": 1000,
       "numbers printed": 5000, "elements in large containers": 200000, "large array consumed in part": 500},
      technique="runtime monitoring: model-based differential monitor over API histories, with heap balance",
      note="Every history observed agreed with the plain collections. PartialEq does not exist on Value: contents are compared by "
           "walking.")
def c16(run):
    plain(run)


CONFIGS = [  # name, toolchain, profile, RUSTFLAGS, std, tier
    ("opt 2, checks", None, "mon", "", True, "quick"),
    ("release", None, "release", "", True, "quick"),
    ("debug", None, "dev", "", True, "quick"),
    ("debug, no std", None, "dev", "", False, "quick"),
    ("release, no std", None, "release", "", False, "quick"),
    ("nightly, checks, layout 1", driver.NIGHTLY, "mon", "-Zrandomize-layout -Zlayout-seed=1", True, "quick"),
    ("nightly, release, no std, layout 2", driver.NIGHTLY, "release", "-Zrandomize-layout -Zlayout-seed=2", False, "quick"),
    ("release with fat LTO", None, "fast", "", True, "thorough"),
    ("size", None, "small", "", True, "thorough"),
    ("size, checks, no std", None, "small", "-Cdebug-assertions=on -Coverflow-checks=on", False, "thorough"),
    ("opt 1", None, "dev", "-Copt-level=1", True, "thorough"),
    ("release for this CPU", None, "release", "-Ctarget-cpu=native", True, "thorough"),
] + [("nightly, release, layout %d" % k, driver.NIGHTLY, "release", "-Zrandomize-layout -Zlayout-seed=%d" % k, True, "thorough") for k in range(3, 11)]
MIRI_TARGETS = ("i686-unknown-linux-gnu", "s390x-unknown-linux-gnu")


@spec("C17",
      "one workload (typed documents fitting, broken and cut, for about 130 types; any documents; number literals at all limits into 14 "
      "types; escaped texts and keys; garbage; deep documents; generated values written; numbers, texts, keys, containers and nests of sizes "
      "around every power of two up to 2^19, crowded containers of every type) recorded result by result in seven builds "
      "(thorough 20): debug and release, checks on and off, with and without std, stable and nightly, randomized layouts, and under Miri "
      "for a 32-bit and a big-endian target; the records are compared. Distinct by case and build; all are non-trivial.",
      {"results recorded": 1000000, "builds compared": 7, "large documents in all": 5000, "results compared between builds": 1000000, "Miri i686-unknown-linux-gnu: results recorded": 200,
       "Miri s390x-unknown-linux-gnu: results recorded": 200},
      technique="runtime monitoring: differential comparison of result logs of one workload across build configurations and targets",
      note="Every recorded result was the same in all builds. Configurations beyond those listed were not run; usize and isize are left out "
           "on the 32-bit target.")
def c17(run):
    import json, struct
    from concurrent.futures import ThreadPoolExecutor
    t = TIER == "thorough"
    configs = [c for c in CONFIGS if t or c[5] == "quick"]

    def make(c):
        name, tool, profile, flags, std, _ = c
        args = ["--no-default-features"] + (["--features", "std"] if std else [])
        slug = "c17-" + "".join(ch if ch.isalnum() else "-" for ch in name)
        return build(slug, profile=profile, toolchain=tool, args=args, env={"RUSTFLAGS": flags} if flags else None)

    def make_miri(target):
        tdir = os.path.join(driver.VERIF, "target", "miri-" + target)
        driver.fresh(tdir)
        env = driver.cargo_env()
        env.update(CARGO_TARGET_DIR=tdir, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-deterministic-floats")
        words = ["cargo", "+" + driver.NIGHTLY, "miri", "run", "--offline", "-q", "--no-default-features", "--features", "std", "--target", target,
                 "--bin", "mon", "--"]
        r = subprocess.run(words + ["merge"], cwd=os.path.join(driver.VERIF, "mon"), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            raise Inconclusive("the monitors do not build for Miri on " + target)
        log("built for Miri on", target)
        return words, env
    with ThreadPoolExecutor(9) as pool:
        bins = [pool.submit(make, c) for c in configs]
        miris = [pool.submit(make_miri, m) for m in MIRI_TARGETS]
        bins = [b.result() for b in bins]
        miris = [m.result() for m in miris]
    run.mon = bins[0]
    run.builds += [c[0] for c in configs] + ["Miri for " + m for m in MIRI_TARGETS]
    jobs, outs = [], {}
    shards = 8
    n = 150000 if not t else 1500000
    cases = [os.path.join(run.dir, "cases-%d" % i) for i in range(shards)]
    with ThreadPoolExecutor(shards) as pool:
        for r in pool.map(lambda i: subprocess.run([bins[0], "C17", "--seed", str(SEED), "--shard", "%d/%d" % (i, shards), "--out",
                                                    os.path.join(run.dir, "o%d" % i), "make=" + cases[i], "cases=%d" % n], timeout=1000), range(shards)):
            r.check_returncode()

    def add(key, extra, secs=0, nshards=shards, **kw):
        for i, j in enumerate(run.shards(config=key, nshards=nshards, secs=secs, wall=3000, tag_obs=True, run=False, **kw)):
            out = j["base"] + ".log"
            j["cmd"] += ["run=" + cases[i], "out=" + out] + extra
            outs[key, i] = (out, j)
            jobs.append(j)
    for m, (words, env) in zip(MIRI_TARGETS, miris):
        add("Miri " + m, ["limit=%d" % (4000 if not t else 40000), "step=%d" % 7], secs=secs(50, 400), nshards=4 if not t else 8, binary=words, env=env, cwd=os.path.join(driver.VERIF, "mon"), cursor=False)
    for c, b in zip(configs, bins):
        add(c[0], [] if "debug" not in c[0] or t else ["limit=%d" % (n // 2)], binary=b)
    run.go(jobs)
    run.obs["results recorded"] = sum(v for k, v in run.obs.items() if k.endswith(": results recorded"))
    run.obs["large documents in all"] = sum(v for k, v in run.obs.items() if k.endswith("recorded for large documents"))
    run.obs["panics recorded in all"] = sum(v for k, v in run.obs.items() if k.endswith(": panics recorded"))
    ref = configs[0][0]
    seen = set()
    for (key, i), (out, j) in outs.items():
        if not os.path.exists(out) or not os.path.exists(outs[ref, i][0]):
            continue
        a, b = (open(p, "rb").read() for p in (outs[ref, i][0], out))
        k = min(len(a), len(b)) // 8
        A, B = struct.unpack("<%dQ" % k, a[:8 * k]), struct.unpack("<%dQ" % k, b[:8 * k])
        if key not in seen:
            seen.add(key)
            run.obs["builds compared"] = len(seen)
        for x in range(k):
            if not B[x]:
                continue
            if key != ref:
                run.obs["results compared between builds"] = run.obs.get("results compared between builds", 0) + 1
            if A[x] != B[x] and len(run.violations) < 40:
                def say(job):
                    words = job["cmd"][:job["cmd"].index("C17")]
                    r = subprocess.run(words + ["C17", "run=" + cases[i], "only=%d" % x, "limit=%d" % (x + 1)], capture_output=True, text=True, env=job["env"],
                                       cwd=job.get("cwd", run.dir), timeout=600)
                    try:
                        return json.loads(r.stdout.split("\n")[0])
                    except ValueError:
                        return dict(input="?", type="?", result=r.stdout[:500] + r.stderr[-500:])
                s, u = say(outs[ref, i][1]), say(j)
                run.violations.append(dict(what="results differ between builds", label=u["type"], input=u["input"], input_len=len(u["input"]),
                                           config="%s / %s" % (ref, key), detail="%s: %s\n%s: %s" % (ref, s["result"][:600], key, u["result"][:600])))


@spec("C18",
      "about 140 target types x 130 hostile texts in 11 wrappings, every prefix and random single edits at every position of "
      "documents that nearly fit, garbage, runs of 31 pieces up to 60k (thorough 3M, and three texts close to 2 GiB), values of "
      "every type; built with overflow checks and debug assertions. A panic, a signal, 20 s of CPU in one call or a heap of "
      "256 MiB + 4 KiB per input byte is a violation. Distinct by type and text.",
      {"evaluations": 500000, "returned Err": 200000, "returned Ok and written again": 50000, "values written": 5000,
       "deep or long texts": 200},
      technique="runtime monitoring: panic, crash, CPU-time and heap monitors over hostile inputs",
      note="Every call observed returned. Texts over 100 KB only for runs and nests (thorough: close to 2 GiB for three).")
def c18(run):
    plain(run)


def main():
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    pid = sys.argv[1]
    sp = SPECS[pid]
    run = Run(pid, TIER, SEED)
    try:
        sp["run"](run)
        if run.mon is None:
            run.mon = build("mon")
    except (Inconclusive, subprocess.TimeoutExpired, OSError) as e:
        run.problems.append("%s: %s" % (type(e).__name__, e))
    sys.exit(run.finish(sp))


if __name__ == "__main__":
    main()
