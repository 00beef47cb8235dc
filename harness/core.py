"""Common machinery of the checks: running TLC, recording traces of the real
code, collecting total verdicts, writing evidence, matching known findings.

A property module (harness/cNN.py) provides

  ID, LEVEL                property id and evidence level
  MODELS                   list of (module, cfg) design models to check with TLC
  TRACE                    name of the trace-validation module in /verif/spec
  cases(ctx)               list of JSON-able cases; may call ctx.generate(...)
  execute(case)            runs the *real code* on one case and returns one
                           trace record (dict); never raises on purpose

Every record is judged by TLC against the TLA+ module TRACE: the module computes
the set of names of the clauses of the property that the record violates.
"""

import concurrent.futures as cf
import concurrent.futures.process
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
REPO = os.environ.get("WULFRIC_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


# ----------------------------------------------------------------------------
# real code
# ----------------------------------------------------------------------------
_W = None


def wulfric():
    """Import the code under test from /repo's working tree."""
    global _W
    if _W is None:
        src = os.path.join(REPO, "src")
        if src not in sys.path:
            sys.path.insert(0, src)
        import warnings

        warnings.simplefilter("ignore")
        import wulfric as w

        got = os.path.realpath(w.__file__)
        if not got.startswith(os.path.realpath(src) + os.sep):
            raise MachineryError(f"wulfric imported from {got}, not from {src}")
        _W = w
    return _W


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout("call did not return")


def call(f, *a, **k):
    """(value, exception) of a call of the code under test."""
    try:
        return f(*a, **k), None
    except CaseTimeout:
        raise
    except BaseException as e:  # noqa: B902  (SystemExit of code under test is an outcome)
        if isinstance(e, KeyboardInterrupt):
            raise
        return None, e


def exc_name(e):
    return "" if e is None else type(e).__name__


# ----------------------------------------------------------------------------
# exact numbers
# ----------------------------------------------------------------------------
BIG = 2**31 - 1


def q(x, den=1, tol=1e-4):
    """Nearest integer of x*den and whether it is one within tol."""
    try:
        y = float(x) * den
    except (TypeError, ValueError):
        return 0, False
    if not math.isfinite(y) or abs(y) > 1e9:
        return 0, False
    n = int(round(y))
    return n, abs(y - n) <= tol


def qmat(M, den=1, tol=1e-4):
    """Integer matrix nearest to M*den, and whether all entries are integer."""
    ok = True
    out = []
    for row in M:
        r = []
        for x in row:
            n, o = q(x, den, tol)
            ok = ok and o
            r.append(n)
        out.append(r)
    return out, ok


def codes(s):
    """Text as a sequence of code points (what the specs work on)."""
    return [ord(c) for c in s]


# ----------------------------------------------------------------------------
# TLC
# ----------------------------------------------------------------------------
class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            m = re.findall(
                r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out
            )
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            g = re.findall(r"The number of states generated: ([\d,]+)", out)
            self.generated = int(g[-1].replace(",", "")) if g else 0

    @property
    def ok(self):
        return self.rc == 0 and not re.search(r"^Error:", self.out, re.M)


def tlc(
    scratch,
    module,
    cfg,
    env=None,
    workers=None,
    extra=(),
    timeout=800,
    heap="6g",
    deadlock=False,
):
    """Run TLC on spec/<module>.tla with spec/<cfg> (in a scratch metadir)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    cmd = [
        "java",
        "-XX:+UseParallelGC",
        f"-Xmx{heap}",
        "-Xss64m",
        "-Dtlc2.TLC.stopAfter=%d" % max(60, timeout - 20),
        "-cp",
        JARS,
        f"-DTLA-Library={SPEC}",
        "tlc2.TLC",
        "-metadir",
        meta,
        "-noGenerateSpecTE",
        "-workers",
        str(workers or NCPU),
        "-config",
        os.path.join(SPEC, cfg),
    ]
    if not deadlock:
        cmd.append("-deadlock")  # do not check deadlock
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    try:
        p = subprocess.run(
            cmd,
            cwd=meta,
            env=e,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timed out on {module}/{cfg} after {timeout}s") from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.returncode, p.stdout)


# ----------------------------------------------------------------------------
# context of one run
# ----------------------------------------------------------------------------
class Ctx:
    def __init__(self, pid, mod):
        self.pid = pid
        self.mod = mod
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.scratch = tempfile.mkdtemp(prefix=f"wv_{pid}_")
        self.states = 0
        self.transitions = 0
        self.models = []
        self.t0 = time.time()
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def nrng(self):
        import numpy as np

        return np.random.default_rng(self.rng.randrange(2**31))

    # -- design models ------------------------------------------------------
    def model(self, module, cfg, timeout=800, **k):
        r = tlc(self.scratch, module, cfg, timeout=timeout, **k)
        if not r.ok:
            raise MachineryError(
                f"design model {module}/{cfg} does not check:\n{r.out[-4000:]}"
            )
        if r.distinct == 0 and r.generated == 0:
            raise MachineryError(f"design model {module}/{cfg} explored nothing")
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(
            dict(
                module=module,
                cfg=cfg,
                distinct_states=r.distinct,
                states_generated=r.generated,
            )
        )
        return r

    # -- cases generated by TLC -------------------------------------------
    def generate(self, module, cfg, simulate=None, depth=None, env=None, timeout=600):
        """Run TLC; every line the spec prints as  "GEN <json>"  is a case."""
        extra = []
        workers = 1
        if simulate:
            extra += [
                "-simulate",
                f"num={simulate}",
                "-seed",
                str(self.rng.randrange(2**31)),
                "-depth",
                str(depth or 20),
            ]
        r = tlc(
            self.scratch,
            module,
            cfg,
            extra=extra,
            workers=workers,
            env=env,
            timeout=timeout,
        )
        if not r.ok:
            raise MachineryError(
                f"generator {module}/{cfg} failed:\n{r.out[-4000:]}"
            )
        out = []
        for line in r.out.splitlines():
            if line.startswith('"GEN '):
                # TLC prints the string with TLA+ escapes
                s = json.loads(line)
                out.append(json.loads(s[4:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(
            dict(
                module=module,
                cfg=cfg,
                generated_behaviours=len(out),
                distinct_states=r.distinct,
                states_generated=r.generated,
            )
        )
        return out


# ----------------------------------------------------------------------------
# executing the real code
# ----------------------------------------------------------------------------
_MOD = None
CASE_TIMEOUT = 60


def _init_worker(modname):
    global _MOD
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    signal.signal(signal.SIGALRM, _alarm)
    import importlib

    _MOD = importlib.import_module(modname)


def _exec_one(ic):
    i, case = ic
    t = getattr(_MOD, "CASE_TIMEOUT", CASE_TIMEOUT)
    signal.setitimer(signal.ITIMER_REAL, t)
    try:
        rec = _MOD.execute(case)
        err = None
    except CaseTimeout:
        rec, err = None, "timeout"
    except MachineryError:
        raise
    except BaseException:
        rec, err = None, traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return i, rec, err


def _exec_many(ics):
    return [_exec_one(ic) for ic in ics]


def execute_all(ctx, cases):
    modname = ctx.mod.__name__
    recs = [None] * len(cases)
    errs = [None] * len(cases)
    if len(cases) <= 2:
        _init_worker(modname)
        for ic in enumerate(cases):
            i, rec, err = _exec_one(ic)
            recs[i], errs[i] = rec, err
        return recs, errs
    mpctx = mp.get_context("fork")
    chunk = max(1, min(64, len(cases) // (NCPU * 8)))
    t_end = time.time() + (480 if not ctx.thorough else 6 * 3600)
    pending = [list(range(k, min(k + chunk, len(cases)))) for k in range(0, len(cases), chunk)]
    state = dict(hung=0, crashed=0, stop=False)

    def pool(chunks, workers):
        """Runs chunks; returns (chunks on which a process died, chunks not started)."""
        ex = cf.ProcessPoolExecutor(
            workers, mp_context=mpctx, initializer=_init_worker, initargs=(modname,)
        )
        queue, running, suspects, broken = list(reversed(chunks)), {}, [], False
        try:
            while (running or (queue and not broken)) and not state["stop"]:
                while queue and len(running) < 2 * workers and not broken:
                    c = queue.pop()
                    try:
                        running[ex.submit(_exec_many, [(i, cases[i]) for i in c])] = c
                    except cf.process.BrokenProcessPool:
                        broken = True
                        queue.append(c)
                done, _ = cf.wait(running, timeout=5, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    c = running.pop(f)
                    try:
                        out = f.result()
                    except cf.process.BrokenProcessPool:
                        broken = True
                        suspects.append(c)
                        continue
                    for i, rec, err in out:
                        recs[i], errs[i] = rec, err
                        state["hung"] += err == "timeout"
                if state["hung"] >= 6:  # enough: calls that do not return
                    state["stop"] = True
                if time.time() > t_end:
                    ctx.notes["stopped_early"] = True
                    state["stop"] = True
        finally:
            if state["stop"]:
                for p in list((ex._processes or {}).values()):
                    p.kill()
            ex.shutdown(wait=not state["stop"], cancel_futures=True)
        return suspects, list(reversed(queue))

    while pending and not state["stop"]:
        suspects, pending = pool(pending, NCPU)
        for i in [i for c in suspects for i in c]:
            if state["stop"]:
                break
            if pool([[i]], 1)[0]:  # a process of its own
                errs[i] = "crash"
                state["crashed"] += 1
                state["stop"] = state["crashed"] >= 6
    return recs, errs


# ----------------------------------------------------------------------------
# trace validation
# ----------------------------------------------------------------------------
def _validate_once(ctx, trace_module, recs, env, timeout):
    """One TLC run. Returns (verdicts, None) or (None, (index of the record TLC
    could not evaluate, output))."""
    path = os.path.join(ctx.scratch, f"{trace_module}.ndjson")
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    e = {"TRACE": path}
    if env:
        e.update(env)
    r = tlc(
        ctx.scratch,
        trace_module,
        "Trace.cfg",
        env=e,
        timeout=timeout,
        heap="16g",
    )
    bad = {}
    for line in r.out.splitlines():
        if line.startswith('"BAD '):
            d = json.loads(json.loads(line)[4:])
            bad.setdefault(d["at"] - 1, [])
            bad[d["at"] - 1] += d["clauses"]
    m = re.search(r'<<"JUDGED", (\d+)>>', r.out)
    if r.out.count("BAD ") != sum(1 for x in r.out.splitlines() if x.startswith('"BAD ')):
        raise MachineryError("unreadable verdicts:\n" + r.out[-2000:])
    if r.rc != 0 or re.search(r"^Error:", r.out, re.M) or not m:
        k = None
        if "The behavior up to this point is:" in r.out:
            t = r.out[r.out.rindex("The behavior up to this point is:"):]
            ww = re.findall(r"/\\ w = (\d+)", t)
            ll = re.findall(r"/\\ l = (\d+)", t)
            if ww and ll:
                k = int(ll[-1]) * 16 + int(ww[-1]) - 1
        if k is None or not 0 <= k < len(recs):
            raise MachineryError(
                f"trace validation {trace_module} failed:\n{r.out[-6000:]}"
            )
        return None, (k, r.out)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    if int(m.group(1)) < len(recs):
        raise MachineryError(
            f"trace validation {trace_module}: judged {m.group(1)} of {len(recs)} records"
        )
    return bad, None


def validate(ctx, trace_module, recs, env=None, timeout=840):
    """TLC judges every record. Returns {index: [clauses]}.

    A record on which the specification cannot even be evaluated (numbers beyond
    32 bits, missing parts) is not one the specification allows: it is reported
    with the clause InTheModelsRange and left out of the next attempt."""
    left = list(range(len(recs)))
    out = {}
    for _ in range(4):
        bad, err = _validate_once(ctx, trace_module, [recs[i] for i in left], env, timeout)
        if err is None:
            for k, cl in bad.items():
                out[left[k]] = cl
            return out
        k, text = err
        print("  the specification cannot be evaluated on a record: "
              + " ".join(re.findall(r"^Error: (.*)", text, re.M)[:2])[:300])
        out[left[k]] = ["InTheModelsRange"]
        del left[k]
        if not left:
            return out
    return out


# ----------------------------------------------------------------------------
# known findings
# ----------------------------------------------------------------------------
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def matches(finding, case, clauses):
    """A finding names the case family by exact fields and the failing clauses."""
    m = finding["match"]
    if not set(clauses) <= set(finding["clauses"]):
        return False
    for k, v in m.items():
        if case.get(k) != v:
            return False
    return True


# ----------------------------------------------------------------------------
# main
# ----------------------------------------------------------------------------
def _shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def main(mod, argv):
    ctx = Ctx(mod.ID, mod)
    try:
        rc = _main(ctx, mod, argv)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    return rc


def _main(ctx, mod, argv):
    pid = mod.ID
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)

    replay = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1]))

    violations = []  # (case, clauses, detail)
    cases, recs, errs = [], [], []
    judged = 0
    try:
        wulfric()
        importable = None
    except MachineryError:
        raise
    except BaseException:
        importable = traceback.format_exc()
        violations.append(({"import": "wulfric"}, ["Importable"], importable))

    if importable is None:
        if replay is None:
            for m in mod.MODELS if not ctx.thorough else getattr(
                mod, "MODELS_THOROUGH", mod.MODELS
            ):
                ctx.model(*m)
            cases = list(mod.cases(ctx))
        else:
            cases = [replay["case"]]
        recs, errs = execute_all(ctx, cases)
        idx = []
        good = []
        for i, (r, e) in enumerate(zip(recs, errs)):
            if r is None and e is None:
                continue  # not run
            if e is not None:
                if e == "timeout":
                    violations.append((cases[i], ["Terminates"], e))
                else:
                    violations.append((cases[i], ["NoUnexpectedException"], e))
            else:
                idx.append(i)
                good.append(r)
        if good:
            bad = validate(ctx, mod.TRACE, good)
            judged = len(good)
            for k, cl in sorted(bad.items()):
                violations.append((cases[idx[k]], sorted(set(cl)), good[k]))

    kf = known_findings(pid)
    seen = {}
    fresh = []
    for case, cl, det in violations:
        f = next((f for f in kf if matches(f, case, cl)), None)
        if f is not None:
            seen.setdefault(f["id"], f)
        else:
            fresh.append((case, cl, det))
    for f in kf:
        if f["id"] in seen:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")

    nontriv = sum(1 for r in recs if r is not None and mod.nontrivial(r)) if hasattr(
        mod, "nontrivial"
    ) else judged
    cov = dict(
        states=ctx.states,
        transitions=ctx.transitions,
        traces_validated_against_impl=judged,
        evaluations=sum(1 for r, e in zip(recs, errs) if r is not None or e is not None),
        distinct_nontrivial=min(
            nontriv, len({json.dumps(c, sort_keys=True) for c in cases})
        ),
        rule=getattr(mod, "RULE", "distinct cases"),
        samples=[_shorten(c) for c in cases[:2]]
        + [_shorten(r) for r in recs[:1] if r is not None],
        models=ctx.models,
    )
    cov.update(ctx.notes)
    if hasattr(mod, "stats"):
        cov["stats"] = mod.stats(cases, recs)
    ev = dict(
        property=pid,
        tier=ctx.tier,
        seed=ctx.seed,
        level=mod.LEVEL,
        coverage=cov,
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - ctx.t0, 2),
        violations=len(fresh),
    )
    if replay is None:
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    rc = 0
    if fresh:
        rc = 1
        shown = {}
        for n, (case, cl, det) in enumerate(fresh):
            key = tuple(cl)
            shown[key] = shown.get(key, 0) + 1
            if shown[key] > 2 or len(shown) > 6:
                continue
            rp = os.path.join(rdir, f"{pid}-{n}.json")
            with open(rp, "w") as f:
                json.dump(dict(property=pid, case=case, clauses=cl, detail=det), f)
            print(f"  failing clauses: {', '.join(cl)}")
            print(f"  case: {json.dumps(case)[:600]}")
            if isinstance(det, str):
                print("  " + det.strip().replace("\n", "\n  ")[-1500:])
            print(f"VIOLATION property={pid} replay={rp}")
        print(f"{len(fresh)} violating cases of {len(cases)}; clauses: {shown}")
    else:
        print(
            f"{pid}: held on {judged} traces of the real code; "
            f"{ctx.states} spec states; {ev['wall_s']} s ({ctx.tier}, seed {ctx.seed})"
        )
    sys.stdout.flush()
    return rc
