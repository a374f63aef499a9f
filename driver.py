"""Builds the monitors from /repo's working tree, runs them, and turns what they saw into a verdict.

Exit 0: held on everything observed. Exit 1 + VIOLATION line: violated. Exit 2: inconclusive
(build failed, a monitor broke, too little was observed)."""
import hashlib, json, os, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"
NPROC = min(8, os.cpu_count() or 1)


# Seconds after which a check ends with what it has seen, so that it does give an answer.
DEADLINE = {"quick": 820, "thorough": 6 * 3600}


class Inconclusive(Exception):
    pass


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def repo_hash():
    h = hashlib.sha256()
    for top in ("src", "derive", "Cargo.toml", "build.rs"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if "/target/" not in d + "/")
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def cargo_env(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "-Awarnings"
    for k, v in (extra or {}).items():
        env[k] = env["RUSTFLAGS"] + " " + v if k == "RUSTFLAGS" else v
    return env


def fresh(target):
    """Cargo goes by modification times; a tree put back with old times must not be missed."""
    stamp = os.path.join(target, "repo.sha256")
    now = repo_hash()
    if os.path.exists(stamp) and open(stamp).read() != now:
        shutil.rmtree(target)
    os.makedirs(target, exist_ok=True)
    open(stamp, "w").write(now)


def build(name, crate="mon", profile="mon", toolchain=None, args=(), env=None, bin="mon", target_triple=None, timeout=800):
    target = os.path.join(VERIF, "target", name)
    fresh(target)
    e = cargo_env(env)
    e["CARGO_TARGET_DIR"] = target
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--profile", profile, "--bin", bin]
    if target_triple:
        cmd += ["--target", target_triple]
    cmd += list(args)
    t = time.time()
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise Inconclusive("the monitors do not build against the tree (%s)" % name)
    d = "debug" if profile == "dev" else profile
    path = os.path.join(target, *( [target_triple] if target_triple else [] ), d, bin)
    log("built", name, "in %.1fs" % (time.time() - t))
    return path


def read_cursor(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        l, n, full = struct.unpack_from("<III", b, 1)
        return b[0], b[16:16 + l].decode("utf8", "replace"), b[16 + l:16 + l + n].decode("utf8", "replace"), full
    except Exception:
        return 0, "", "", 0


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


class Run:
    """One check: collects shards' reports into a verdict and evidence."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = os.path.join(VERIF, "work", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.violations = []
        self.obs = {}
        self.samples = []
        self.evals = 0
        self.enum = 0
        self.hash_files = []
        self.problems = []
        self.builds = []
        self.mon = None

    def add_report(self, rep, config=""):
        self.evals += rep["evaluations"]
        self.enum += rep["distinct_enum"]
        for k, v in rep["obs"].items():
            key = k if not config else "%s: %s" % (config, k)
            if k.startswith("max "):
                self.obs[key] = max(self.obs.get(key, 0), v)
            else:
                self.obs[key] = self.obs.get(key, 0) + v
        self.samples += rep["samples"]
        for v in rep["violations"]:
            v["config"] = config
            self.violations.append(v)

    def procs(self, jobs, parallel=NPROC, poll=None):
        """jobs: dicts with cmd, env, config, plus how to judge them. Runs them, `parallel` at a time, and judges each when it
        ends. Once there is a violation, what still runs is stopped: it could not change the verdict. `poll` is asked from
        time to time whether there is one it knows of."""
        running, todo, n = [], list(jobs), 0
        asked = time.time()
        try:
            while todo or running:
                if poll and time.time() - asked > 3:
                    asked = time.time()
                    found = poll()
                else:
                    found = False
                if found or self.fresh_violations():
                    for j in running:
                        os.killpg(j["p"].pid, signal.SIGKILL)
                        j["p"].wait()
                    for j in running + todo:
                        j["rc"] = "stopped"
                    return jobs
                while todo and len(running) < parallel:
                    j = todo.pop(0)
                    n += 1
                    j["log"] = os.path.join(self.dir, "log-%s-%d" % (j["name"], n))
                    j["start"] = time.time()
                    with open(j["log"], "wb") as f:
                        j["p"] = subprocess.Popen(j["cmd"], stdout=f, stderr=subprocess.STDOUT, env=j.get("env"),
                                                  cwd=j.get("cwd", self.dir), start_new_session=True)
                    running.append(j)
                time.sleep(0.02)
                for j in list(running):
                    rc = j["p"].poll()
                    if rc is None:
                        if time.time() - j["start"] > j["wall"] or time.time() - T0 > DEADLINE[self.tier]:
                            os.killpg(j["p"].pid, signal.SIGKILL)
                            j["p"].wait()
                            j["rc"] = "wall"
                        else:
                            continue
                    else:
                        j["rc"] = rc
                    running.remove(j)
                    if os.environ.get("VERIF_VERBOSE"):
                        log("%s took %.1fs: %s" % (j["name"], time.time() - j["start"], j["rc"]))
                    self.judge(j)
            return jobs
        finally:
            for j in running:  # only when this check is being ended from outside, or is broken
                if j["p"].poll() is None:
                    os.killpg(j["p"].pid, signal.SIGKILL)

    def shards(self, binary, config="", nshards=NPROC, secs=30.0, extra=(), env=None, check=None, prefix=(), wall=None,
               tier=None, san=None, tag_obs=False, only=None, cwd=None, cursor=True, run=True, of=None):
        """`binary`: a path, or a list of words to start with. `san`: looks at the output of a shard that did not end well and
        returns what it found, "" to pass over it, None if it is not its business. `only`: which of the reported violations count."""
        check = check or self.pid
        jobs = []
        for i in range(nshards):
            base = os.path.join(self.dir, "%s-%s-%d" % (check, config.replace(" ", "_").replace("/", "_"), i))
            words = [binary] if isinstance(binary, str) else list(binary)
            cmd = list(prefix) + words + [check, "--tier", tier or self.tier, "--seed", str(self.seed), "--shard",
                                  "%d/%d" % (i, of or nshards), "--secs", str(secs), "--out", base + ".json", "--hashes",
                                  base + ".hash"] + (["--cursor", base + ".cur"] if cursor else []) + list(extra)
            jobs.append(dict(tag_obs=tag_obs, only=only, san=san, wall=wall or secs * 6 + 240, **(dict(cwd=cwd) if cwd else {}), cmd=cmd, env=dict(os.environ, **(env or {})), name="%s-%s-%d" % (check, config.replace(" ", "_").replace("/", "_"), i), base=base,
                             config=config))
        return self.go(jobs) if run else jobs

    def go(self, jobs, poll=None):
        return self.procs(jobs, NPROC, poll)

    def judge(self, j):
        rc, san = j["rc"], j["san"]
        text = open(j["log"], "rb").read().decode("utf8", "replace")
        j["text"] = text
        cmdline = " ".join(j["cmd"])
        state, label, inp, full = read_cursor(j["base"] + ".cur")

        def crash(what, detail):
            self.violations.append(dict(what=what, detail=detail, label=label, input=inp, input_len=full,
                                        config=j["config"], cmd=cmdline))

        if san and rc not in (0, "wall") and not os.path.exists(j["base"] + ".json"):
            found = san(text, rc, state)
            if found:
                at = text.find("ERROR: ")
                at = at if at >= 0 else text.find("error: ")
                crash(found, text[at:at + 6000] if at >= 0 else text[-6000:])
                return
            if found == "":
                self.obs["runs ended by something else"] = self.obs.get("runs ended by something else", 0) + 1
                return
        if rc in (0, 1) and os.path.exists(j["base"] + ".json"):
            with open(j["base"] + ".json") as f:
                rep = json.load(f)
            if j["only"]:
                rep["violations"] = [v for v in rep["violations"] if j["only"](v)]
            for v in rep["violations"]:
                v["cmd"] = cmdline
            self.add_report(rep, j["config"] if j.get("tag_obs") else "")
            if os.path.exists(j["base"] + ".hash"):
                self.hash_files.append(j["base"] + ".hash")
            if rc == 1 and not rep["violations"] and not j["only"]:
                self.problems.append("shard says violation without one")
        elif rc == 97:
            crash("one call used more CPU time than its budget (endless loop?)", text[-2000:])
        elif rc == 98:
            crash("one call went over its heap budget", text[-2000:])
        elif isinstance(rc, int) and rc < 0 and -rc in CRASH and state == 1:
            crash("process died by signal %d inside a call" % -rc, text[-4000:])
        elif rc == "wall":
            self.problems.append("watchdog: %s" % cmdline)
        else:
            self.problems.append("%s ended with %s: %s" % (cmdline, rc, text[-1500:]))

    def distinct(self):
        n = self.enum
        if self.hash_files and self.mon:
            n += int(subprocess.run([self.mon, "merge"] + self.hash_files, capture_output=True, text=True, check=True).stdout)
        return n

    def known(self):
        """Known findings: 'known: property=<id> what="..." input=<json string>' lines suppress exactly that."""
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("known: "):
                    d = json.loads(line[len("known: "):])
                    if d["property"] == self.pid:
                        out.append(d)
        return out

    def fresh_violations(self):
        known = self.known() if self.violations else []
        return [v for v in self.violations if not any(d["what"] == v["what"] and d["input"] == v["input"] for d in known)]

    def finish(self, spec):
        known = self.known()
        fresh_v = self.fresh_violations()
        for d in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, d["says"]))
        need = spec.get("need", {})
        for k, n in need.items():
            got = self.obs.get(k, 0) if k != "evaluations" else self.evals
            if got < n:
                self.problems.append("observed too little: %s = %d, expected at least %d" % (k, got, n))
        nd = 0
        try:
            nd = self.distinct()
        except Exception as e:
            self.problems.append("merge: %s" % e)
        self.samples = self.samples[:40]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=spec["level"],
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=nd, rule=spec["rule"],
                                samples=self.samples or ["-"], observed=self.obs, builds=self.builds),
                  wall_s=round(time.time() - T0, 2),
                  violations=len(fresh_v),
                  violation_list=[dict(what=v["what"], detail=v["detail"][:500], label=v["label"], input=v["input"][:500])
                                  for v in fresh_v],
                  problems=[p[:500] for p in self.problems],
                  assumptions=spec.get("assumptions", []), bounds=spec.get("bounds", {}))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        if fresh_v:
            rdir = os.path.join(VERIF, "work", "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, self.seed))
            with open(path, "w") as f:
                json.dump(fresh_v, f, indent=1)
            for v in fresh_v[:5]:
                print("  %s [%s %s]\n    input: %r\n    %s" % (v["what"], v["config"], v["label"], v["input"][:300], v["detail"][:1500].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            code = 1
        elif self.problems:
            for p in self.problems[:5]:
                print("INCONCLUSIVE: %s" % p)
            code = 2
        else:
            print("%s held on %d evaluations (%d distinct), %.1fs" % (self.pid, self.evals, nd, time.time() - T0))
            for k in sorted(self.obs):
                print("    %-50s %d" % (k, self.obs[k]))
            code = 0
        shutil.rmtree(self.dir, ignore_errors=True)
        return code
