#!/usr/bin/env python3
"""Builds MshIO from the working tree with sanitizers, runs the monitors of one property, writes evidence.

  run.py C01 [--thorough] [--seed N] [--cases N]     decide a property
  run.py --replay replays/C01-0.json                 run one recorded case again
  run.py --build-all                                 fill the build cache
"""
import argparse, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, LIBS, HARNESS_FLAGS  # noqa: E402

CACHE = os.path.join(HERE, ".build")
JOBS = max(2, min(8, os.cpu_count() or 2))


class BuildError(Exception):
    pass


# ------------------------------------------------------------------ building
def read(path):
    with open(path, "rb") as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def tree_digest(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def compile_one(src, flags, key, compiler="clang++"):
    """Object file for src, from the cache if nothing it depends on has changed."""
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    p = subprocess.run([compiler, *flags, "-c", src, "-o", tmp], cwd=REPO, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("%s: %s\n%s" % (compiler, src, p.stderr[-3000:]))
    os.rename(tmp, out)
    return out


def library_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


def build_jobs(cfg):
    """(source, flags, key) for every object of a binary."""
    jobs = []
    repo_hdr = tree_digest([os.path.join(REPO, "include"), os.path.join(REPO, "src")], (".h", ".hpp", ".inl", ".cpp"))
    pub_hdr = tree_digest([os.path.join(REPO, "include")], (".h", ".hpp", ".inl"))
    har_hdr = tree_digest([os.path.join(HERE, "harness")], (".h",))
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    for lib in cfg["libs"]:
        flags = LIBS[lib]["flags"] + inc
        cxx = LIBS[lib].get("compiler", "clang++")
        own = LIBS[lib].get("sources")
        srcs = [os.path.join(REPO, x) for x in own] if own else library_sources()
        srcs += [os.path.join(HERE, "harness", x) for x in LIBS[lib].get("extra", [])]
        for s in srcs:
            if not os.path.exists(s):
                raise BuildError("%s is missing" % s)
            jobs.append((s, flags, digest(s, read(s), flags, repo_hdr, har_hdr if own else "", cxx), cxx))
    hf = cfg.get("hflags", HARNESS_FLAGS) + cfg.get("xflags", [])
    for t in cfg["tus"]:
        s = os.path.join(HERE, "harness", t + ".cpp")
        jobs.append((s, hf + inc[:1], digest(s, read(s), hf, pub_hdr, har_hdr)))
    return jobs


def build(cfgs):
    """Builds all binaries, returns {name: path}."""
    if not library_sources():
        raise BuildError("no library sources under %s/src" % REPO)
    todo, per = {}, {}
    for name, cfg in cfgs.items():
        per[name] = build_jobs(cfg)
        for j in per[name]:
            todo[j[2]] = j
    order = sorted(todo.values(), key=lambda j: 0 if "/harness/" in j[0] else 1)
    with ThreadPoolExecutor(JOBS) as ex:
        objs = dict(zip([j[2] for j in order], ex.map(lambda j: compile_one(*j), order)))
    bins = {}
    for name, cfg in cfgs.items():
        key = digest(*[j[2] for j in per[name]], cfg.get("link", []))
        out = os.path.join(CACHE, key + ".bin")
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            p = subprocess.run(["clang++", *[objs[j[2]] for j in per[name]], *cfg.get("link", ["-fsanitize=address,undefined"]), "-o", tmp],
                               capture_output=True, text=True)
            if p.returncode:
                raise BuildError("link %s\n%s" % (name, p.stderr[-3000:]))
            os.rename(tmp, out)
        else:
            os.utime(out)
        bins[name] = out
    prune()
    return bins


def prune(limit=3 << 30):
    files = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(CACHE, "*.*")) if os.path.isfile(p)]
    total = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if total < limit or time.time() - m < 3600:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= s


# ------------------------------------------------------------------ running
SAN_ENV = {
    "ASAN_OPTIONS": "quarantine_size_mb=96:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2500:hard_rss_limit_mb=3200:detect_stack_use_after_return=1:strict_string_checks=1:alloc_dealloc_mismatch=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
    "LC_ALL": "C",
}


class Worker:
    """One process running cases from, from+step, ... of one property."""

    def __init__(self, run, binname, path, k, first, last, step, extra):
        self.run, self.binname, self.path = run, binname, path
        self.k, self.next, self.last, self.step, self.extra = k, first, last, step, extra
        self.dir = os.path.join(run.tmp, "%s-%d" % (binname, k))
        os.makedirs(self.dir)
        self.proc = None
        self.crashes = 0
        self.finished = False

    def args(self, first, last, step, tag):
        d = self.dir
        a = [self.path, "--prop", self.run.prop, "--seed", str(self.run.seed), "--from", str(first), "--to", str(last), "--step", str(step),
             "--out", os.path.join(d, tag + ".json"), "--progress", os.path.join(d, tag + ".prog"), "--tmp", os.path.join(d, "t"),
             "--build", self.binname, "--repo", REPO, *self.extra]
        if self.run.thorough:
            a.append("--thorough")
        return a

    def clean(self):
        t = os.path.join(self.dir, "t")
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)

    def start(self, deadline):
        self.clean()
        self.err = open(os.path.join(self.dir, "err"), "wb")
        a = self.args(self.next, self.last, self.step, "main") + ["--deadline", str(max(1, int(deadline - time.time())))]
        self.proc = subprocess.Popen(a, stdout=self.err, stderr=self.err, stdin=subprocess.DEVNULL,
                                     env={**os.environ, **SAN_ENV}, cwd=os.path.join(self.dir, "t"), start_new_session=True)
        self.seen, self.seen_at = None, time.time()

    def progress(self, tag="main"):
        try:
            b = read(os.path.join(self.dir, tag + ".prog"))
            return int.from_bytes(b[0:8], "little"), int.from_bytes(b[8:16], "little")
        except OSError:
            return None, 0

    def kill(self, proc):
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()

    def once(self, first, last, step, tag, limit):
        """Run cases again in a fresh process; returns (rc, stderr)."""
        self.clean()
        err = os.path.join(self.dir, tag + ".err")
        with open(err, "wb") as f:
            p = subprocess.Popen(self.args(first, last, step, tag), stdout=f, stderr=f, stdin=subprocess.DEVNULL, env={**os.environ, **SAN_ENV},
                                 cwd=os.path.join(self.dir, "t"), start_new_session=True)
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                self.kill(p)
                rc = "hang"
        return rc, read(err).decode("utf-8", "replace")


def crash_summary(rc, err):
    lines = err.splitlines()
    keys = ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "Assertion", "terminate called", "what():", "CPU-LIMIT", "SUMMARY:", "FATAL", "CHECK failed")
    hit = [x.strip() for x in lines if any(k in x for k in keys)]
    frames = [x.strip() for x in lines if "/src/" in x and x.strip().startswith("#")][:3]
    return ("exit %s: " % rc) + " | ".join((hit + frames)[:6])[:900] if hit or frames else "exit %s: %s" % (rc, err[-300:].strip())


class Run:
    def __init__(self, prop, thorough, seed, cases=None):
        self.prop, self.thorough, self.seed = prop, thorough, seed
        self.cfg = CHECKS[prop]
        self.cases = cases
        self.viols, self.counts, self.samples, self.notes = [], {}, [], []
        self.known = [k for k in known_findings() if k.get("property") == prop]
        self.seen_known = {}
        self.distinct, self.evals, self.done = set(), 0, 0
        self.planned = 0
        self.per_binary = {}
        self.outcomes = {}
        self.first_viol = None
        self.reruns = 0

    def add(self, binname, j):
        self.evals += j["evaluations"]
        self.done += j["done"]
        pb = self.per_binary.setdefault(binname, {"cases": 0, "evaluations": 0})
        pb["cases"] += j["done"]
        pb["evaluations"] += j["evaluations"]
        for k, v in j["counts"].items():
            if k.startswith("max "):
                self.counts[k] = max(self.counts.get(k, 0), v)
            else:
                self.counts[k] = self.counts.get(k, 0) + v
        self.distinct.update(j["distinct"])
        for s in j["samples"]:
            if len(self.samples) < 6 and s not in self.samples:
                self.samples.append(s)
        for v in j["violations"]:
            self.report(dict(key=v["key"], msg=v["msg"], case=v["case"], artifact=v["artifact"], binary=binname))

    def report(self, v):
        for k in self.known:
            if k.get("key") == v["key"] and k.get("match", "") in v["msg"]:
                self.seen_known[k["what"]] = v
                return
        self.viols.append(v)

    def collect(self, w):
        p = os.path.join(w.dir, "main.json")
        if os.path.exists(p):
            self.add(w.binname, json.loads(read(p).decode("latin-1")))
            os.unlink(p)

    def handle_end(self, w, rc, deadline):
        """A worker ended (or was killed as hung). Returns True if it has more to do."""
        w.err.close()
        if rc == 0:
            self.collect(w)
            w.finished = True
            return False
        case, state = w.progress()
        if rc == 3 or case is None or state == 2 and rc != 66:
            raise BuildError("worker %s failed with %s: %s" % (w.binname, rc, read(os.path.join(w.dir, "err")).decode("utf-8", "replace")[-1500:]))
        first_err = read(os.path.join(w.dir, "err")).decode("utf-8", "replace")
        if self.viols:  # one confirmed violation is enough; do not spend time on confirming more
            w.crashes = 3
            w.finished = True
            return False
        # Does it happen again? First the case alone, then the same history.
        limit = self.cfg.get("hang", 200) + 30
        rc2, err2 = w.once(case, case + 1, 1, "again", limit)
        how = "alone"
        if rc2 == 0:
            j = json.loads(read(os.path.join(w.dir, "again.json")).decode("latin-1"))
            if j["violations"]:
                self.add(w.binname, j)
            rc2, err2 = w.once(w.next, case + 1, w.step, "again", 900 if self.thorough else 200) if self.reruns < 2 else (0, "")
            self.reruns += rc2 == 0
            how = "after the cases before it"
        if rc2 not in (0, 3):
            kind = "hang" if rc2 == "hang" or rc2 == 77 else "race" if rc2 == 66 else "crash"
            self.report(dict(key=kind, msg="%s in case %d (%s): %s" % (kind, case, how, crash_summary(rc2, err2)), case=case, artifact=err2[-4000:], binary=w.binname,
                                   history=None if how == "alone" else w.next))
        else:
            definite = any(k in first_err for k in ("runtime error:", "overflow on address", "heap-use-after-free", "double-free", "SEGV on unknown", "use-after-poison", "stack-use-after"))
            if definite:
                self.report(dict(key="crash", msg="crash in case %d (seen once): %s" % (case, crash_summary(rc, first_err)), case=case, artifact=first_err[-4000:], binary=w.binname))
            elif rc == 66:  # a data race observed once is a data race
                self.report(dict(key="race", msg="race in case %d (seen once): %s" % (case, crash_summary(rc, first_err)), case=case, artifact=first_err[-4000:], binary=w.binname))
            else:
                self.notes.append("worker %s ended with %s in case %s, which did not happen again: %s" % (w.binname, rc, case, crash_summary(rc, first_err)[:300]))
        w.crashes += 1
        w.next = case + w.step
        if w.crashes >= 3 or w.next >= w.last or time.time() > deadline or len(self.viols) >= 10:
            w.finished = True
            return False
        w.start(deadline)
        return True

    def execute(self):
        cfg = self.cfg
        bins = build(cfg["binaries"])
        self.build_s = time.time() - self.t0
        deadline = time.time() + (cfg.get("thorough_s", 1200) if self.thorough else cfg.get("quick_s", 150))
        queue = []
        for name, b in cfg["binaries"].items():
            n = self.cases if self.cases else b["thorough" if self.thorough else "quick"]
            if not n:
                continue
            self.planned += n
            w = b.get("workers", JOBS)
            step = min(w[self.thorough] if isinstance(w, tuple) else w, n)
            # a second build goes on where the first one ends: other cases, no probes
            first = cfg["binaries"][b["after"]]["thorough" if self.thorough else "quick"] if "after" in b else 0
            for k in range(step):
                queue.append(Worker(self, name, bins[name], k, first + k, first + n, step, b.get("args", [])))
        # interleave the binaries so that a deadline cuts all of them
        queue.sort(key=lambda w: w.k)
        slots = cfg.get("slots", JOBS)
        share = deadline
        running = []
        while queue or running:
            while queue and len(running) < slots:
                w = queue.pop(0)
                # leave time for those still waiting
                waves = (len(queue) // slots) + 1
                w.deadline = time.time() + max(3, (share - time.time()) / waves)
                w.start(w.deadline)
                running.append(w)
            time.sleep(0.05)
            for w in list(running):
                rc = w.proc.poll()
                if rc is None:
                    cur = w.progress()
                    if cur != w.seen:
                        w.seen, w.seen_at = cur, time.time()
                        continue
                    elif time.time() - w.seen_at > cfg.get("hang", 200):
                        w.kill(w.proc)
                        rc = "hang"
                    else:
                        continue
                if not self.handle_end(w, rc, w.deadline):
                    running.remove(w)
            if self.viols and self.first_viol is None:
                self.first_viol = time.time()
            if len(self.viols) >= 20 or self.first_viol and time.time() - self.first_viol > (60 if self.thorough else 30):
                for w in running:
                    w.kill(w.proc)
                break


def known_findings():
    """known: property=C01 key=<key> match=<text> | description"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                head, _, desc = line[6:].partition("|")
                f = dict(x.split("=", 1) for x in head.split() if "=" in x)
                f["what"] = desc.strip()
                out.append(f)
    return out


def finish(prop, run, t0, tier, seed):
    fresh, seen_known = run.viols, run.seen_known
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    paths = []
    for i, v in enumerate(fresh[:5]):
        p = os.path.join(HERE, "replays", "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
        paths.append(p)
    cov = dict(evaluations=run.evals, distinct_nontrivial=len(run.distinct), rule=run.cfg["rule"], samples=run.samples or ["(none)"],
               observed=dict(sorted(run.counts.items())), cases_planned=run.planned, cases_run=run.done, binaries=run.per_binary)
    if run.cfg.get("exhaustive"):
        cov["exhaustive"] = bool(run.cfg["exhaustive"](run))
    if run.notes:
        cov["notes"] = run.notes[:10]
    ev = dict(property=prop, tier=tier, seed=seed, level=run.cfg["level"], coverage=cov, assumptions=run.cfg.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for what in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for v, p in zip(fresh, paths):
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  [%s] %s" % (v["key"], "".join(c if " " <= c <= "~" else "?" for c in v["msg"][:700])))
    print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, build %.1f s, total %.1f s"
          % (prop, tier, seed, run.evals, len(run.distinct), len(fresh), getattr(run, "build_s", 0), time.time() - t0))
    for n in run.notes[:5]:
        print("note: " + n)
    return 1 if fresh else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.build_all:
        cfgs = {}
        for p, c in CHECKS.items():
            for n, b in c.get("binaries", {}).items():
                cfgs[p + n] = b
        build(cfgs)
        print("built in %.1f s" % (time.time() - t0))
        return 0
    tier = "thorough" if a.thorough else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.prop, seed, tier = rep["property"], rep["seed"], rep["tier"]
    run = Run(a.prop, tier == "thorough", seed, a.cases)
    run.t0 = t0
    run.tmp = tempfile.mkdtemp(prefix="vf-%s-" % a.prop)
    try:
        if "python" in run.cfg:
            import importlib
            importlib.import_module(run.cfg["python"]).execute(run, sys.modules[__name__], rep)
        elif rep:
            name = rep["binary"]
            bins = build({name: run.cfg["binaries"][name]})
            b = run.cfg["binaries"][name]
            w = Worker(run, name, bins[name], 0, rep["case"], rep["case"] + 1, 1, b.get("args", []))
            step = min(b.get("workers", JOBS), b[tier])
            first = rep["case"] if rep.get("history") is None else rep["history"]
            rc, err = w.once(first, rep["case"] + 1, 1 if rep.get("history") is None else step, "main", 600)
            print("exit", rc, err[-3000:] if rc else "")
            ok = rc == 0
            if rc == 0:
                j = json.loads(read(os.path.join(w.dir, "main.json")).decode("latin-1"))
                for v in j["violations"]:
                    print("  [%s] %s" % (v["key"], "".join(c if " " <= c <= "~" or c == "\n" else "?" for c in v["msg"][:1500])))
                    ok = False
            print("violation reproduced" if not ok else "no violation")
            return 0 if ok else 1
        else:
            run.execute()
        return finish(a.prop, run, t0, tier, seed)
    except BuildError as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
