"""C08: compiles generated type definitions with the real derives, runs what they made, and judges what came out."""
import json, os, random, re, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import driver
from driver import Inconclusive, log
import c08gen as gen

ENOUGH = 6  # batches with violations after which the rest is skipped
EDITIONS = ("2018", "2021", "2024")
KINDS = ["plain"] * 8 + ["enum"] * 4 + ["generic"] * 7 + ["special"] * 8 + ["shadow"] * 8 + ["noprelude"] * 3 + ["macro"] * 4 + ["local"] * 3 + ["recursive"] * 4 + ["oneway"] * 2


class Tools:
    """The crate under test and the stand-in, compiled by cargo from the working tree."""

    def __init__(self, toolchain=None):
        name = "c08" + ("-" + toolchain.split("-")[0] if toolchain else "")
        target = os.path.join(driver.VERIF, "target", name)
        driver.fresh(target)
        env = driver.cargo_env()
        env["CARGO_TARGET_DIR"] = target
        r = subprocess.run(["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--message-format=json"], env=env,
                           cwd=os.path.join(driver.VERIF, "progs"), capture_output=True, text=True, timeout=600)
        self.real = self.stub = None
        for line in r.stdout.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("reason") == "compiler-artifact":
                f = [x for x in d["filenames"] if x.endswith(".rlib")]
                if d["target"]["name"] == "miniserde":
                    self.real = f[0]
                if d["target"]["name"] == "progs":
                    self.stub = f[0]
        if r.returncode != 0 or not self.real or not self.stub:
            sys.stderr.write(r.stderr[-4000:])
            raise Inconclusive("miniserde does not build")
        self.deps = os.path.join(target, "debug", "deps")
        self.rustc = ["rustc"] + (["+" + toolchain] if toolchain else [])

    def compile(self, src, out, edition, stub=False, lib=False, flags=()):
        cmd = self.rustc + ["--edition", edition, "--error-format=json", "-Cdebuginfo=0", "--extern", "miniserde=" + (self.stub if stub else self.real),
                            "-L", "dependency=" + self.deps, src, "-o", out] + (["--crate-type=lib", "--emit=metadata"] if lib else []) + list(flags)
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=400, env=driver.cargo_env())
        errs = []
        for line in p.stderr.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level", "").startswith("error"):
                errs.append(d)
        return p.returncode, errs, p.stderr


def said(errs, raw):
    return "\n".join((e.get("rendered") or e["message"]) for e in errs[:3])[:3000] or raw[-1500:]


def batch(run, tools, seed, first, kinds, edition, flags=()):
    """One program of many modules. Returns what was seen."""
    if len(run.bad) >= ENOUGH:
        return dict(tests=0, outs=0, modules=0, violations=[], problems=[], samples=[])
    parts, tests = gen.program(seed, first, kinds, edition)
    base = os.path.join(run.dir, "p%d" % first)
    seen = dict(tests=0, outs=0, modules=0, violations=[], problems=[], samples=[])

    def source(live):
        return gen.HEADER + gen.RT + "".join(parts[i][0] for i in live) + gen.main_text(live)

    def put(path, text):
        with open(path, "w", newline="") as f:
            f.write(text)
    live = list(range(len(parts)))
    put(base + ".rs", source(live))
    rc, errs, raw = tools.compile(base + ".rs", base, edition, flags=flags)
    if rc != 0:
        good = []
        for i in live:
            put(base + "s.rs", source([i]))
            rc1, e1, raw1 = tools.compile(base + "s.rs", base + "s", edition, lib=True, flags=flags)
            if rc1 == 0:
                good.append(i)
                continue
            # does the definition by itself compile?
            put(base + "s.rs", gen.HEADER + gen.RT + alone(parts[i]))
            rc2, e2, raw2 = tools.compile(base + "s.rs", base + "s", edition, stub=True, lib=True)
            if rc2 != 0:
                seen["problems"].append("generated module does not compile by itself: " + said(e2, raw2))
            else:
                seen["violations"].append(dict(what="a supported definition does not compile", detail=said(e1, raw1), label="%s, edition %s" % (kinds[i], edition), input=parts[i][1].shown))
        if len(good) == len(live):
            seen["problems"].append("a program of good modules does not compile: " + said(errs, raw))
            return seen
        live = good
        put(base + ".rs", source(live))
        rc, errs, raw = tools.compile(base + ".rs", base, edition, flags=flags)
        if rc != 0:
            seen["problems"].append("a program of good modules does not compile: " + said(errs, raw))
            return seen
    seen["modules"] = len(live)
    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([base], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400, cwd=run.dir, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        seen["problems"].append("a generated program was still running after 400 s of wall-clock time")
        return seen
    at, done = None, None
    for line in p.stdout.decode("utf8", "replace").split("\n"):
        w = line.split(" ")
        if w[0] == "START":
            at = int(w[1])
        elif w[0] == "DONE":
            done = int(w[1])
        elif w[0] == "PANIC":
            seen["violations"].append(dict(what="generated code panicked", detail=p.stderr.decode("utf8", "replace")[-1500:], label=kinds[at], input=parts[at][1].shown))
        elif w[0] in ("FAIL", "OUT"):
            i, kind, what, name, doc = tests[int(w[1])]
            if w[0] == "FAIL":
                seen["violations"].append(dict(what="%s: %s" % (what, " ".join(w[2:])), detail="text: %s" % doc, label="%s %s" % (kind, name), input=parts[i][1].shown))
                continue
            seen["outs"] += 1
            text = bytes.fromhex(w[2]).decode("utf8", "replace")
            try:
                diff = gen.same(doc, gen.read(text))
            except ValueError as e:
                diff = "not JSON: %s" % e
            if diff:
                seen["violations"].append(dict(what="write: wrong members", detail="%s\ntext: %s" % (diff, text[:1000]), label="%s %s" % (kind, name), input=parts[i][1].shown))
            elif len(seen["samples"]) < 2:
                seen["samples"].append("%s -> %s" % (re.sub(r"\s+", " ", parts[i][1].shown)[:160], text[:120]))
    want = sum(1 for t in tests if t[0] in live)
    if done is None:
        seen["violations"].append(dict(what="generated code brought the process down", detail="status %s\n%s" % (p.returncode, p.stderr.decode("utf8", "replace")[-1500:]),
                                       label=str(kinds[at]) if at is not None else "?", input=parts[at][1].shown if at is not None else ""))
    elif done != want and not seen["violations"]:
        seen["problems"].append("%d of %d tests reported" % (done, want))
    seen["tests"] = done or 0
    for f in (base, base + ".rs", base + "s", base + "s.rs"):
        if os.path.exists(f):
            os.unlink(f)
    return seen


def alone(part):
    return part[1].alone


def refuse(run, tools, rej, k, edition):
    """Definitions that have to be refused."""
    base = os.path.join(run.dir, "r%d" % k)
    seen = dict(refused=0, violations=[], problems=[], solo=0)
    head = gen.HEADER + "use miniserde as _;\n"

    def mod(i, d, s):
        return "mod r%d { use miniserde::%s; #[derive(%s)] pub %s }" % (i, d, d, s.replace("\n", " ")) if not s.startswith("#") else \
               "mod r%d { use miniserde::%s; #[derive(%s)] %s }" % (i, d, d, s.replace("\n", " "))

    def put(text):
        with open(base + ".rs", "w") as f:
            f.write(text)
    lines = [mod(i, d, s) for i, (d, s) in enumerate(rej)]
    put(head + "\n".join(lines) + "\n")
    rc, errs, raw = tools.compile(base + ".rs", base, edition, stub=True, lib=True)
    if rc != 0:
        seen["problems"].append("a definition to be refused does not compile by itself: " + said(errs, raw))
        return seen
    rc, errs, raw = tools.compile(base + ".rs", base, edition, lib=True)
    hit = set()
    for e in errs:
        for sp in e.get("spans", []):
            while sp.get("expansion") and sp["file_name"] != base + ".rs":
                sp = sp["expansion"]["span"]
            if sp["is_primary"] or sp["file_name"] == base + ".rs":
                hit.add(sp["line_start"] - 3)
    for i, (d, s) in enumerate(rej):
        if i not in hit:
            seen["solo"] += 1
            put(head + lines[i] + "\n")
            rc, errs, raw = tools.compile(base + ".rs", base, edition, lib=True)
            if rc == 0:
                seen["violations"].append(dict(what="derive(%s) accepts what it must refuse" % d, detail="compiled without an error", label="edition " + edition, input=lines[i]))
                continue
        seen["refused"] += 1
    return seen


def counted(f, run, *a):
    s = f(run, *a)
    if s["violations"]:
        run.bad.append(1)
    return s


def check(run, tier, seed):
    t = tier == "thorough"
    run.mon, run.bad = "", []
    chains = [("stable", Tools())] + ([("nightly", Tools(driver.NIGHTLY))] if t else [])
    run.builds += ["stable rustc, editions 2018, 2021 and 2024"] + (["nightly rustc", "opt-level 3"] if t else [])
    rng = random.Random("c08/%s" % seed)
    jobs = []
    n = 0
    sizes = ["many%d" % k for k in (64, 100, 128, 200, 255, 256, 257, 300, 64, 128, 255, 256, 257, 300)] + (["many%d" % k for k in (1000, 2000, 1000, 2000)] if t else [])
    nbatch = int(os.environ.get("C08_BATCHES", 96 if not t else 700))
    with ThreadPoolExecutor(driver.NPROC) as pool:
        for b in range(nbatch):
            kinds = list(KINDS)
            rng.shuffle(kinds)
            kinds = kinds[:30]
            if b < len(sizes):
                kinds = kinds[:10] + [sizes[b]]
            jobs.append(pool.submit(counted, batch, run, chains[b % len(chains)][1], seed, n, kinds, EDITIONS[b % 3], ("-Copt-level=3",) if t and b % 4 == 3 else ()))
            n += len(kinds)
        rej = gen.rejections(rng, t)
        step = 120
        for k in range(0, len(rej), step):
            jobs.append(pool.submit(counted, refuse, run, chains[k // step % len(chains)][1], rej[k:k + step], k, EDITIONS[k // step % 3]))
        for j in jobs:
            s = j.result()
            run.problems += s["problems"]
            for v in s["violations"]:
                run.violations.append(dict(v, input_len=len(v["input"]), config="", cmd="c08 seed %s" % seed))
            for k, o in (("tests", "observations of generated code"), ("outs", "texts written by generated code and read back"), ("modules", "supported modules compiled and run"), ("refused", "definitions refused"),
                         ("solo", "refused definitions compiled by themselves")):
                run.obs[o] = run.obs.get(o, 0) + s.get(k, 0)
            run.samples += s.get("samples", [])[:1]
    run.evals = run.obs["observations of generated code"] + run.obs["definitions refused"]
    run.enum = run.obs["supported modules compiled and run"] + run.obs["definitions refused"]
