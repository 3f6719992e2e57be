#!/usr/bin/env python3
"""Build the monitors against /repo's working tree and run one property's check.

  run.py PROP [--tier quick|thorough] [--seed N]
  run.py --replay FILE            run the case named in a replay file again

Exit 0: the property held on everything explored. Exit 1: a violation, with a
line "VIOLATION property=<id> replay=<path>". Exit 3: the check itself failed.
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
AMT = "github.com/wdamron/amt"

# name: go build flags, uses the controlled hash, environment, shards
VARIANTS = {
    "ctl": dict(flags=[], ctl=True, env={"GOMAXPROCS": "2"}),
    "std": dict(flags=[], ctl=False, env={"GOMAXPROCS": "2"}),
    # GC stress: frequent collections, and freed memory is overwritten at once
    "gc": dict(build="ctl", flags=[], ctl=True,
               env={"GOMAXPROCS": "2", "VERIF_GCPERCENT": "5", "GODEBUG": "clobberfree=1"}),
    # race detector, and checkptr on every unsafe pointer conversion
    "race": dict(flags=["-race"], ctl=True,
                 env={"GOMAXPROCS": "4", "GORACE": "halt_on_error=1 exitcode=66"}),
    # every block of the package's code that is entered counts as a step of work
    "ticks": dict(flags=[], ctl=True, ticks=True, env={"GOMAXPROCS": "2"}),
    # bounds of every heap object, on every load and store
    "asan": dict(flags=["-asan"], ctl=True,
                 env={"GOMAXPROCS": "2", "ASAN_OPTIONS": "detect_leaks=0:exitcode=67"}),
}

# property: variants, share of the thorough time budget
PLAN = {
    "C01": ["ctl", "std"], "C02": ["ctl", "std"], "C03": ["ctl"], "C04": ["ctl"],
    "C05": ["ctl", "std"], "C06": ["ctl"], "C07": ["gc", "race", "asan"], "C08": ["race"],
    "C09": ["ctl"], "C10": ["ctl"], "C11": ["ctl"], "C12": ["ctl"], "C13": ["race"],
    "C14": ["ctl", "std"], "C15": ["std", "race"], "C16": ["ctl", "ticks"], "C17": ["ctl"], "C18": ["ctl"],
    "C19": ["std"], "C20": ["ticks"], "C21": ["ctl"],
}

HIST = ("A case is a seeded operation history over a pool of keys: container type and value type, key shape, "
        "digit profile of the (controlled or real) hash function, mix of phases (grow, shrink, churn, modify, "
        "delete-heavy, full fill/empty/round-robin). %s A container state counts as distinct by (case, set of "
        "present keys) and as non-trivial if some two present keys share a 4-bit hash digit, i.e. the trie has a "
        "branch below its root.")
RULES = {
    "C01": HIST % "The result of every lookup, modify and iteration is compared with a dictionary model.",
    "C02": HIST % "Every membership answer and iteration is compared with a set model.",
    "C03": HIST % "At points of the history, complete, repeated, stopped, panicking, nested and updating iterations are compared with the model.",
    "C04": HIST % "The reported length is compared with the model after every operation, including reads.",
    "C05": HIST % "The reported depth is compared with the mean recomputed from the hash digits of the present keys; with the real hash, with log16 of the size.",
    "C06": HIST % "Iteration order and depth are compared with containers freshly built from the same keys in sorted and in random order under the same seed.",
    "C07": HIST % "Runs under checkptr, AddressSanitizer, and a garbage collector that runs constantly (also inside callbacks) and overwrites freed memory; keys and values are compared with a model.",
    "C08": "A case is either groups of goroutines reading one frozen container (each answer compared with a model) or crowds of goroutines held inside read operations at the same time, or goroutines doing reads and writes under an RWMutex whose event log is replayed in lock order against a dictionary, all under the race detector. A state counts as distinct and non-trivial as for histories; locked histories count distinct_lock_orders.",
    "C09": HIST % "Weak pointers watch every key and value object handed to the container; after a forced collection, removed ones must be gone and present ones alive.",
    "C10": HIST % "Pointers from lookup, iteration and modify are kept and compared, read and written throughout the life of their key.",
    "C11": HIST % "Modify callbacks read the container, panic or exit the goroutine at random, and the container is compared with the model afterwards.",
    "C12": "A case calls every operation on zero values (and copies) of a container type in random order, then drives a constructed container through a history that empties it repeatedly. States count as for histories.",
    "C13": "A case drives one container through several copies of its handle, several containers over the same keys in one goroutine, nested containers, or one container per goroutine under the race detector, each compared with its own model. States count as for histories.",
    "C14": HIST % "Keys are chosen to differ in few bits, in length, by NULs or in the high half; byte-slice keys lie between guard bytes that must not change.",
    "C15": "A case hashes sets of neighbouring keys under several seeds and iteration counts up to 100000, checks determinism and distinctness, and runs a dictionary history with a provided key type as key of the generic containers; part of it concurrently under the race detector. States count as for histories.",
    "C16": HIST % "Profiles share 1 to 400 leading digits; results are compared with a model and hash computations and steps per operation are bounded.",
    "C17": HIST % "Keys have their own equality, junk representation and a Hash method that logs every call; the log is checked for seed, start and order of iteration counts.",
    "C18": HIST % "Memory freed by dropping the container is compared with that of one freshly built with the same contents; reads and overwrites must not grow the heap.",
    "C19": "A case fills six containers of one type with the same keys by the same history, with the real hash function; their iteration orders must be unrelated; other cases make tens of thousands of containers, whose layouts must not repeat. States count as for histories.",
    "C21": HIST % "Memory freed by dropping the container is compared with that of slot arrays and cells allocated by the check for the same keys, whose place follows from their hash digits.",
    "C20": HIST % "Every block of the package's code that is entered counts as a step of work; steps of each operation are compared with a bound that is affine in the digits its key shares with another present key.",
}


def go_env():
    e = dict(os.environ)
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", CGO_ENABLED="1")
    for k in ("GODEBUG", "GOGC", "GOMEMLIMIT", "GORACE", "GOEXPERIMENT"):
        e.pop(k, None)
    return e


class Broken(Exception):
    pass


class BuildFailed(Exception):
    pass


def sh(cmd, env, cwd, timeout=600):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


class Build:
    def __init__(self, tmp):
        self.tmp, self.env, self.bins = tmp, go_env(), {}
        self.src = os.path.join(tmp, "harness")
        shutil.copytree(os.path.join(HERE, "harness"), self.src)
        mod = os.path.join(self.src, "go.mod")
        s = open(mod).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(s)
        root = sh(["go", "env", "GOROOT"], self.env, self.src).stdout.strip()
        if not os.path.isdir(root):
            raise Broken("no Go toolchain: " + root)
        self.hash = {os.path.join(root, "src/hash/maphash/maphash.go"): os.path.join(HERE, "overlay/maphash.go")}

    def overlay(self, ticks):
        path = os.path.join(self.tmp, "overlay_%d.json" % bool(ticks))
        table = dict(self.hash)
        if ticks:
            d = os.path.join(self.tmp, "ticks")
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(["go", "run", "./tick", REPO, d], env=self.env, cwd=self.src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0:
                raise BuildFailed(r.stderr)
            table.update(json.loads(r.stdout))
        json.dump({"Replace": table}, open(path, "w"))
        return path

    def get(self, variant):
        v = VARIANTS[variant]
        name = v.get("build", variant)
        if name not in self.bins:
            v = VARIANTS[name]
            out = os.path.join(self.tmp, "h_" + name)
            cmd = ["go", "build", "-o", out] + v["flags"]
            if v["ctl"]:
                t = v.get("ticks")
                cmd += ["-tags", "ctlhash" + (",ticks" if t else ""), "-overlay", self.overlay(t)]
            r = sh(cmd + ["."], self.env, self.src)
            if r.returncode != 0:
                raise BuildFailed(r.stdout)
            self.bins[name] = out
        return self.bins[name]


PROBE = '''package main

import (
	"hash/maphash"

	"github.com/wdamron/amt"
)

type own string

func (k own) Equal(o own) bool { return k == o }
func (k own) Hash(s maphash.Seed, it uint) uint64 { return amt.HashBytes([]byte(k), s, it) }

func main() {
	%s
}
'''


def provided_keys_compile(b):
    """C15: the provided key types can be used as keys of the generic containers."""
    for t, k in (("amt.Int", "1"), ("amt.String", '"x"'), ("amt.Bytes", 'amt.Bytes("x")'), ("own", '"x"')):
        d = os.path.join(b.tmp, "probe")
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(b.src, "go.mod"), d)
        open(os.path.join(d, "main.go"), "w").write(
            PROBE % ("m := amt.NewMap[%s, int](); m.Set(%s, 1); s := amt.NewSet[%s](); s.Add(%s)" % (t, k, t, k)))
        r = sh(["go", "build", "-o", os.path.join(d, "p"), "."], b.env, d)
        if r.returncode != 0:
            return "%s cannot be used as a key of the generic Map and Set: %s" % (t, r.stdout.strip()[-600:])
    return None


def memory_damage(err):
    for pat in (r"checkptr: .*", r"ERROR: AddressSanitizer.*", r"WARNING: DATA RACE", r"found bad pointer in Go heap.*",
                r"fatal error: unexpected signal.*", r"unexpected fault address.*", r"fatal error: fault",
                r"fatal error: .*(span|mark|sweep|heap|malloc|gc|GC|pointer|unaligned|misaligned|invalid).*", r"SIGSEGV.*", r"SIGBUS.*",
                r"fatal error: stack overflow", r"goroutine stack exceeds.*", r"fatal error: all goroutines are asleep.*"):
        m = re.search(pat, err)
        if m:
            return m.group(0)
    return None


class Worker:
    def __init__(self, b, prop, tier, seed, variant, shard, shards, budget, only=None):
        self.variant, self.shard = variant, shard
        base = os.path.join(b.tmp, "%s_%s_%d" % (prop, variant, shard))
        self.out, self.prog, self.err = base + ".json", base + ".prog", base + ".err"
        self.cmd = [b.get(variant), "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", str(shard), "-shards", str(shards),
                    "-out", self.out, "-progress", self.prog, "-variant", VARIANTS[variant].get("build", variant), "-budget", str(budget)]
        if only is not None:
            self.cmd += ["-case", str(only)]
        self.env = dict(b.env)
        self.env.update(VARIANTS[variant]["env"])
        self.p, self.t0, self.tries = None, 0, 0

    def start(self):
        for f in (self.out, self.prog):
            if os.path.exists(f):
                os.remove(f)
        self.tries += 1
        self.t0 = time.time()
        self.p = subprocess.Popen(self.cmd, env=self.env, stdout=open(self.err, "w"), stderr=subprocess.STDOUT, cwd=os.path.dirname(self.out))

    def stop(self):
        if self.p and self.p.poll() is None:
            self.p.kill()
            self.p.wait()

    def case(self):
        try:
            return json.loads(open(self.prog).readline())
        except Exception:
            return None

    def stderr(self):
        try:
            with open(self.err, errors="replace") as f:
                return f.read(400000)
        except OSError:
            return ""


class Violation:
    def __init__(self, variant, msg, case, trace=None, step=None, stderr=""):
        self.variant, self.msg, self.case, self.trace, self.step, self.stderr = variant, msg, case, trace, step, stderr


def judge(w):
    """Returns (result or None, [violations]); raises Broken."""
    rc, err = w.p.returncode, w.stderr()
    if rc in (0, 1) and os.path.exists(w.out):
        res = json.load(open(w.out))
        if res["done"] or res["violations"]:
            vs = [Violation(w.variant, v["msg"], v["case"], v["trace"], v["step"]) for v in res["violations"] or []]
            if rc == 0 and vs or rc == 1 and not vs:
                raise Broken("worker exit code %d does not match its result" % rc)
            return res, vs
    if rc == 3 or "harness:" in err:
        raise Broken("worker failed: " + err[-3000:])
    mem = memory_damage(err)
    if rc == 66 or mem == "WARNING: DATA RACE":
        if AMT not in err.split("Goroutine")[0] and AMT not in err:
            raise Broken("race outside the code under test: " + err[-3000:])
        return None, [Violation(w.variant, "data race reported by the race detector", w.case(), stderr=err)]
    if mem:
        return None, [Violation(w.variant, mem.strip(), w.case(), stderr=err)]
    if AMT in err:
        return None, [Violation(w.variant, "the process crashed with exit code %s" % rc, w.case(), stderr=err)]
    raise Broken("worker ended with exit code %s: %s" % (rc, err[-3000:]))


def run_pool(workers, limit, hard):
    """Runs the workers, limit at a time. Returns results and violations, stopping at the first violation."""
    results, viols = [], []
    todo, live = list(workers), []
    t0 = time.time()
    try:
        while todo or live:
            while todo and len(live) < limit:
                w = todo.pop(0)
                w.start()
                live.append(w)
            time.sleep(0.02)
            for w in list(live):
                if w.p.poll() is None:
                    continue
                live.remove(w)
                if w.p.returncode == -signal.SIGKILL and w.tries < 2 and not viols:
                    todo.append(w)  # out of memory on a busy machine: once more
                    limit = max(1, limit // 2)
                    continue
                if w.p.returncode == -signal.SIGKILL:
                    raise Broken("worker was killed twice")
                res, vs = judge(w)
                if res is not None:
                    results.append((w, res))
                viols += vs
            if viols:
                return results, viols
            if time.time() - t0 > hard:
                raise Broken("workers did not finish within %d s" % hard)
        return results, viols
    finally:
        for w in live:
            w.stop()


def add(a, b):
    for k, v in (b or {}).items():
        a[k] = max(a.get(k, 0), v) if k.startswith("max_") else a.get(k, 0) + v


def evidence(prop, tier, seed, results, nviol, wall, note=None):
    tot = dict(cases=0, ops=0, distinct=0, nontrivial=0, depth=0, length=0, rnd=0, cut=False)
    kinds, checks, ops, profs, extra, samples, vcases = {}, {}, {}, {}, {}, [], {}
    for w, r in results:
        s = r["stats"]
        tot["cases"] += s["Cases"]
        tot["ops"] += s["Ops"]
        tot["distinct"] += s["Distinct"]
        tot["nontrivial"] += s["Nontrivial"]
        tot["depth"] = max(tot["depth"], s["MaxDepth"])
        tot["length"] = max(tot["length"], s["MaxLen"])
        tot["rnd"] = max(tot["rnd"], s["MaxRound"])
        tot["cut"] |= s["CutShort"]
        add(kinds, s["Kinds"])
        add(checks, s["Checks"])
        add(ops, s["OpKinds"])
        add(profs, s["Profiles"])
        add(extra, s["Extra"])
        add(vcases, {w.variant: s["Cases"]})
        if len(samples) < 8:
            samples += [w.variant + ": " + x for x in (s["Samples"] or [])[:2]]
    cov = dict(evaluations=tot["cases"], distinct_nontrivial=tot["nontrivial"], rule=RULES[prop], samples=samples[:8],
               operations=tot["ops"], distinct_states=tot["distinct"], oracle_evaluations=checks, operations_by_kind=ops,
               operations_by_container=kinds, cases_by_hash_profile=profs, cases_by_build_variant=vcases, deepest_shared_digits=tot["depth"],
               largest_container=tot["length"], highest_rehash_round_seen=tot["rnd"])
    cov.update(extra)
    if tot["cut"]:
        cov["time_budget_reached"] = True
    if note:
        cov["note"] = note
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 3), violations=nviol,
              assumptions=["sampled histories and schedules: absence of a violation is evidence, not proof",
                           "callers follow the package's contract (injective KeyBytes, Equal consistent with Hash, no writes from inside callbacks)"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


def known():
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS")):
            m = re.match(r"open: property=(\S+) match=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def check(prop, tier, seed, only=None, variants=None):
    t0 = time.time()
    quick = tier == "quick"
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        b = Build(tmp)
        results, viols, note = [], [], None
        ncpu = os.cpu_count() or 4
        try:
            for v in variants or PLAN[prop]:
                b.get(v)
        except BuildFailed as e:
            if prop == "C15":
                msg = provided_keys_compile(b)
                if msg:
                    viols, note = [Violation("std", msg, None)], "compile probe of the provided key types"
            if not viols:
                raise Broken("build failed:\n" + str(e)[-4000:])
        if not viols:
            vs = variants or PLAN[prop]
            workers = []
            budget = 240 if quick else 640
            share = budget / len(vs)
            for v in vs:
                multi = v == "race" or prop == "C07"  # workers that keep several processors busy
                shards = 1 if only is not None else max(1, min(8, ncpu)) // (2 if multi else 1)
                for i in range(max(1, shards)):
                    workers.append(Worker(b, prop, tier, seed, v, i, shards, share, only))
            results, viols = run_pool(workers, max(2, ncpu // 2) if prop == "C07" else ncpu, 760)
        opened = [k for k in known() if k[0] == prop]
        for k in opened:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        fresh = [v for v in viols if not any(re.search(k[1], v.msg) for k in opened)]
        if only is None:
            evidence(prop, tier, seed, results, len(fresh), time.time() - t0, note)
        if not fresh:
            n = sum(r["stats"]["Cases"] for _, r in results)
            print("ok property=%s tier=%s seed=%d cases=%d operations=%d wall=%.1fs" % (
                prop, tier, seed, n, sum(r["stats"]["Ops"] for _, r in results), time.time() - t0))
            return 0
        v = fresh[0]
        out = os.path.join(HERE, "out")
        os.makedirs(out, exist_ok=True)
        idx = v.case["Idx"] if v.case else -1
        path = os.path.join(out, "%s-%s-seed%d-case%d.json" % (prop, v.variant, seed, idx))
        json.dump(dict(property=prop, tier=tier, seed=seed, variant=v.variant, message=v.msg, step=v.step, case=v.case,
                       trace=v.trace, stderr=v.stderr[-20000:]), open(path, "w"), indent=1)
        print("violated: %s" % v.msg)
        if v.case:
            print("case: %s" % json.dumps(v.case))
        if v.stderr:
            print("\n".join(v.stderr.splitlines()[:60]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--variant", action="append")
    a = ap.parse_args()
    try:
        if a.replay:
            r = json.load(open(a.replay))
            sys.exit(check(r["property"], r["tier"], r["seed"], only=r["case"]["Idx"] if r["case"] else None, variants=[r["variant"]]))
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
        if a.prop not in PLAN:
            raise Broken("unknown property %s" % a.prop)
        sys.exit(check(a.prop, a.tier, seed, variants=a.variant))
    except Broken as e:
        print("check failed: %s" % e)
        sys.exit(3)


if __name__ == "__main__":
    main()
