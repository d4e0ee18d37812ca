"""Execution core: shard workers, monitors, verdicts, evidence.

A check module (checks/cNN.py) provides
  RULE      text for the evidence file
  REQUIRED  {event: minimum} - fewer observed events make the run inconclusive
  cases(rng, tier)      generator of JSON-able specs, deterministic in rng
  run_case(spec, mon)   drives the real code and reports to the monitor
and optionally LIMITS = {"cpu": seconds of CPU one case may take}.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))    # other shards stop at the first violation (used by tools)
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
BUDGET = {"quick": 240.0, "thorough": 630.0}   # wall seconds in which new cases start
HARD = {"quick": 780.0, "thorough": 880.0}     # wall seconds after which the run has no answer


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class CaseHang(BaseException):
    pass


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Monitor:
    """Receives what the workload observes; every check() is one oracle decision."""

    def __init__(self):
        self.events = collections.Counter()
        self.ops = 0
        self.distinct = set()
        self.samples = []
        self.hang = False
        self.known, self.known_seen = {}, {}

    def event(self, name, n=1):
        self.events[name] += n

    def seen(self, *key):
        """Count a distinct non-trivial observation (by the check's rule)."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        self.distinct.add(h)

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: short(v, 300) for k, v in kw.items()})

    def check(self, cond, kind, /, **detail):
        self.ops += 1
        if not cond:
            self.fail(kind, **detail)

    def equal(self, got, want, kind, /, **detail):
        self.ops += 1
        if not (type(got) is type(want) and got == want) and got != want:
            self.fail(kind, **{"got": got, "want": want, **detail})

    def fail(self, kind, /, **detail):
        raise Violation(kind, {k: short(v) for k, v in detail.items()})

    def note(self, cond, kind, /, **detail):
        """Like check, but the case goes on (for kinds listed as known findings)."""
        self.ops += 1
        if not cond:
            if kind not in self.known:
                self.fail(kind, **detail)
            self.known_seen.setdefault(kind, {k: short(v) for k, v in detail.items()})

    def raises(self, fn, kind, /, exc=Exception, **detail):
        """fn must raise (one of) exc; returning is a violation."""
        self.ops += 1
        try:
            r = fn()
        except exc as e:
            if self.hang:
                raise CaseHang()
            return e
        except Exception as e:
            self.fail(kind, **{"wrong_exception": repr(e), **detail})
        self.fail(kind, **{"returned": r, **detail})

    def rejects(self, fn, kind, /, **detail):
        """fn must raise or return a false value; returning a true one is a violation."""
        self.ops += 1
        try:
            r = fn()
        except Exception:
            if self.hang:
                raise CaseHang()
            return True
        if r:
            self.fail(kind, **{"returned": r, **detail})
        return True


def repo_frames(tb):
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(REPO + os.sep)]


def setup_imports():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vstarks-nopyc-%d" % os.getpid())
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import starks
    where = os.path.realpath(starks.__file__)
    if not where.startswith(REPO + os.sep):
        raise SystemExit("starks imported from %s" % where)


MISC = ["primality", "blum_blum_shub", "commitment", "zero_knowledge", "zkp_3_coloring", "blockchain"]


def load_misc(*names):
    """The misc scripts import each other as starks.X (as their tests do): give them those names."""
    import importlib.util
    import starks
    out = []
    for name in MISC + [n for n in names if n not in MISC]:
        full = "starks." + name
        if full not in sys.modules:
            if name not in names and name not in ("primality", "blum_blum_shub", "commitment", "zero_knowledge", "blockchain"):
                continue
            if name == "blockchain" and not ("blockchain" in names or "run_blockchain" in names):
                continue
            spec = importlib.util.spec_from_file_location(full, os.path.join(REPO, "misc", name + ".py"))
            mod = importlib.util.module_from_spec(spec)
            sys.modules[full] = mod
            sys.modules.setdefault(name, mod)
            setattr(starks, name, mod)
            spec.loader.exec_module(mod)
    return [sys.modules["starks." + n] for n in names]


def load_check(prop):
    return importlib.import_module("checks." + prop.lower())


def case_stream(mod, prop, tier, seed):
    rng = random.Random("%s:%s" % (prop, seed))
    for i, spec in enumerate(mod.cases(rng, tier)):
        spec.setdefault("seed", rng.getrandbits(48))
        twin = twin_field(spec)
        if twin: spec["twin"] = twin
        yield i, json.loads(json.dumps(spec))


def twin_field(spec):
    """For a third of the cases over an extension field: another field of the same size, to run the same case in next.

    Its elements have the same coefficients, and print the same, as those of the first field."""
    key = "field" if "field" in spec else "ring"
    f = spec.get(key)
    if spec["seed"] % 3 or not (isinstance(f, list) and f and f[0] == "F") or f[1] > 1000 or "twin" in spec:
        return None
    from vlib import ref
    rng = random.Random(spec["seed"])
    for _ in range(20):
        g = ref.find_irreducible(f[1], len(f[2]) - 1, rng)
        if list(g) != list(f[2]):
            return [key, ["F", f[1], list(g)]]


def run_one(mod, spec, mon, cpu):
    """Returns None or a violation record."""
    random.seed(spec["seed"])
    mon.hang = False

    def on_alarm(sig, frame):
        mon.hang = True
        signal.setitimer(signal.ITIMER_PROF, 5)
        raise CaseHang()

    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        mod.run_case(spec, mon)
        if spec.get("twin"):
            random.seed(spec["seed"])
            mod.run_case(dict(spec, **{spec["twin"][0]: spec["twin"][1]}), mon)
            mon.event("twin_field")
        if mon.hang:
            raise CaseHang()
    except Violation as v:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return {"kind": v.kind, "detail": v.detail}
    except CaseHang:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return {"kind": "hang", "detail": {"cpu_limit_s": cpu}}
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if mon.hang:
            return {"kind": "hang", "detail": {"cpu_limit_s": cpu}}
        fr = repo_frames(e.__traceback__)
        at = "%s:%s" % (os.path.relpath(os.path.realpath(fr[-1].filename), REPO), fr[-1].name) if fr else "harness"
        return {"kind": "exception", "detail": {"exception": short(repr(e)), "at": at,
                "trace": short("".join(traceback.format_exception(e)[-6:]), 2500)}}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return None


def worker(prop, tier, seed, shard, out):
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    mon = Monitor()
    mon.known = findings(prop)
    res = {"violations": [], "cases": 0, "specs": [], "cut": False, "slowest": 0}
    try:
        setup_imports()
        mod = load_check(prop)
    except Exception as e:
        fr = repo_frames(e.__traceback__)
        if not fr:
            raise
        res["violations"].append({"kind": "import", "detail": {"exception": repr(e), "trace": short(traceback.format_exc(), 2500)},
                                  "spec": None, "index": -1, "shard": shard})
        mod = None
    if mod is not None:
        cpu = getattr(mod, "LIMITS", {}).get("cpu", 150)
        for i, spec in case_stream(mod, prop, tier, seed):
            if i % SHARDS != shard:
                continue
            if FAILFAST and os.path.exists(os.path.join(os.path.dirname(out), "stop")):
                break
            if time.time() - t0 > BUDGET[tier]:
                res["cut"] = True
                break
            c0 = time.process_time()
            v = run_one(mod, spec, mon, cpu)
            res["slowest"] = max(res["slowest"], round(time.process_time() - c0, 1))
            res["cases"] += 1
            if len(res["specs"]) < 1:
                res["specs"].append(spec)
            if v:
                v.update(spec=spec, index=i, shard=shard)
                res["violations"].append(v)
                open(os.path.join(os.path.dirname(out), "stop"), "w").close()
                if len(res["violations"]) >= 3:
                    break
    res.update(known_seen=mon.known_seen, events=dict(mon.events), ops=mon.ops, samples=mon.samples,
               distinct=[h.hex() for h in mon.distinct], wall=time.time() - t0)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def findings(prop):
    """Open findings of this property, {kind: text}."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                parts = line.split(None, 3)
                out[parts[2].split("=", 1)[1]] = parts[3].strip()
    return out


def main(prop, tier, seed):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vstarks-")
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUNBUFFERED="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    procs = []
    try:
        for s in range(SHARDS):
            out = os.path.join(tmp, "r%d.json" % s)
            err = open(os.path.join(tmp, "e%d" % s), "w")
            procs.append((s, out, err, subprocess.Popen(
                [sys.executable, "-W", "ignore", os.path.join(VERIF, "run.py"), prop, "--tier", tier, "--seed", str(seed),
                 "--worker", str(s), "--out", out], env=env, stderr=err, cwd=VERIF)))
        results, errors = [], []
        for s, out, err, p in procs:
            try:
                p.wait(timeout=max(1, HARD[tier] - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errors.append("shard %d: no answer within %d s" % (s, HARD[tier]))
                continue
            finally:
                err.close()
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                errors.append("shard %d: exit %s: %s" % (s, p.returncode, open(os.path.join(tmp, "e%d" % s)).read()[-1500:]))
        return report(prop, tier, seed, results, errors, t0)
    finally:
        for _, _, _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, tier, seed, results, errors, t0):
    import ast
    events = collections.Counter()
    distinct, samples, specs = set(), [], []
    ops = cases = 0
    violations = []
    seen_known = {}
    cut = False
    for r in results:
        events.update(r["events"])
        distinct.update(r["distinct"])
        samples += r["samples"]
        specs += r["specs"]
        ops += r["ops"]
        cases += r["cases"]
        violations += r["violations"]
        for kind, detail in r["known_seen"].items():
            seen_known.setdefault(kind, {"detail": detail})
        cut = cut or r["cut"]
    # RULE and REQUIRED are read without importing the check (which imports the repository)
    src = open(os.path.join(VERIF, "checks", prop.lower() + ".py")).read()
    consts = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id in ("RULE", "REQUIRED", "ASSUMPTIONS"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    known = findings(prop)
    new = []
    for v in violations:
        if v["kind"] in known:
            seen_known[v["kind"]] = v
        else:
            new.append(v)
    starved = {k: (events.get(k, 0), n) for k, n in consts.get("REQUIRED", {}).items() if events.get(k, 0) < n}
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ops, "distinct_nontrivial": len(distinct), "rule": consts.get("RULE", ""),
            "samples": samples[:10] + [{"spec": short(s, 300)} for s in specs[:4]],
            "cases_run": cases, "events": dict(sorted(events.items())), "shards": len(results),
            "stopped_at_budget": cut, "slowest_case_cpu_s": max([r.get("slowest", 0) for r in results] or [0]),
        },
        "assumptions": consts.get("ASSUMPTIONS", []) + ["Python %s of /opt/venv; reference results computed by vlib/ref.py with plain ints" % sys.version.split()[0]],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)
    for k, text in known.items():
        print("KNOWN-FINDING: property=%s %s%s" % (prop, text, "" if k in seen_known else " (not reached in this run)"))
    if new:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        printed = set()
        for n, v in enumerate(new):
            rp = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, n))
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, f, indent=1)
            sig = (v["kind"], v["detail"].get("at"))
            if sig in printed:
                continue
            printed.add(sig)
            print("  kind=%s case=%s detail=%s" % (v["kind"], short(v["spec"], 300), short(v["detail"], 1500)))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    if starved:
        print("INCONCLUSIVE property=%s monitors starved (event: observed, required): %s" % (prop, starved))
        return 3
    print("HELD property=%s tier=%s seed=%s cases=%d oracle_decisions=%d distinct=%d wall=%.1fs" % (prop, tier, seed, cases, ops, len(distinct), time.time() - t0))
    return 0


def replay(path):
    rec = json.load(open(path))
    setup_imports()
    mod = load_check(rec["property"])
    mon = Monitor()
    mon.known = findings(rec["property"])
    cpu = getattr(mod, "LIMITS", {}).get("cpu", 150)
    save = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    v = run_one(mod, rec["spec"], mon, cpu) if rec["spec"] else None
    how = "alone"
    if v is None:   # history dependent: run the same shard up to the same case
        how = "after the cases before it"
        for i, spec in case_stream(mod, rec["property"], rec["tier"], rec["seed"]):
            if i % SHARDS != rec["shard"]:
                continue
            v = run_one(mod, spec, mon, cpu)
            if v or i >= rec["index"]:
                break
    sys.stdout.flush()
    os.dup2(save, 1)
    if v:
        print(json.dumps({"reproduced": how, **v}, indent=1))
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("not reproduced")
    return 0
