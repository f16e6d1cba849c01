"""
Shared engine of the bounded model checker.

A check module (mc/checks/cNN.py) exposes

    PROPERTY     id
    ASSUMPTIONS  list of strings
    families(tier) -> list of Family

A Family is a finite, completely enumerated set of cases: `cases` is a list (or a callable giving a list) of literal
python values (operation histories, programs, input tuples, ...) in simplest-first order, and `check(case, st)` executes one
case on the REAL salabim code, compares it with an independent reference model, and returns None or a text describing the
disagreement.  `st` collects coverage (distinct model states, transitions, outcomes).

All cases are executed, none are sampled; they are spread over worker processes only to use the cores.  A worker that dies or
hangs in a case reports that case as the violation.
"""

import ast
import collections
import gc
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 60  # seconds; an ordinary case takes milliseconds, so this only ever fires on a genuine hang
inf = math.inf
nan = math.nan


def load_salabim():
    """import salabim from the current working tree of /repo (never from a cached build)"""
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(3000)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import salabim as sim

    where = os.path.realpath(sim.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"salabim imported from {where}, not from {REPO}")
    return sim


def speed_up_inspect():
    """
    Memoise two pure standard-library functions salabim calls for every object it creates (they dominate the cost of tiny
    simulations).  The results are the same, only the source text of a frame (which salabim never uses) is not looked up.
    """
    import inspect

    if getattr(inspect, "_verif_patched", False):
        return
    inspect._verif_patched = True
    orig_sig = inspect.signature
    cache = {}

    def signature(obj, **kw):
        if kw:
            return orig_sig(obj, **kw)
        f = getattr(obj, "__func__", None)
        if f is None or not inspect.isfunction(f):
            return orig_sig(obj)
        if f not in cache:
            cache[f] = orig_sig(obj)
        return cache[f]

    def getframeinfo(frame, context=1):
        return inspect.Traceback(frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_name, None, None)

    inspect.signature = signature
    inspect.getframeinfo = getframeinfo


class Family:
    def __init__(self, name, cases, check, bounds="", setup=None):
        self.name = name
        self.cases = cases
        self.check = check
        self.bounds = bounds
        self.setup = setup
        self.model_states = 0
        self.model_transitions = 0


class Stats:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.outcomes = collections.Counter()
        self.cases = 0
        self.case_text = None

    def state(self, s):
        self.states.add(hash_state(s))

    def trans(self, n=1):
        self.transitions += n

    def outcome(self, s):
        self.outcomes[str(s)] += 1


def hash_state(s):
    return hashlib.blake2b(repr(s).encode("utf8", "replace"), digest_size=8).digest()


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def to_text(case):
    return repr(case)


def from_text(text):
    return eval(text, {"__builtins__": {}}, {"inf": inf, "nan": nan})


def run_case(family, case, st):
    """returns None or a message"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        msg = family.check(case, st)
    except CaseTimeout:
        msg = f"no answer within {CASE_TIMEOUT} s (normally milliseconds): the simulated history does not terminate"
    except HarnessError:
        raise
    except RecursionError as e:
        msg = f"unexpected {type(e).__name__} in the code under test: {e}"
    except MemoryError as e:
        msg = f"unexpected {type(e).__name__} in the code under test: {e}"
    except Exception as e:
        if _from_repo(e):
            msg = "unexpected exception in the code under test: " + "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        else:
            # the code under test gave something the oracle cannot even compare (a wrong type, a missing attribute, ...)
            msg = "what the code under test gave cannot be compared: " + "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return msg


class HarnessError(Exception):
    pass


def _from_repo(e):
    tb = e.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    repo = os.path.realpath(REPO)
    if not any(os.path.realpath(f).startswith(repo + os.sep) for f in files):
        return False
    return True


COVERAGE = os.environ.get("VERIF_COVERAGE")  # a folder: write the lines of salabim.py that were executed (development aid)
_lines = set()


def _cover():
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "verif")

    def line(code, n):
        if code.co_filename.endswith("salabim.py"):
            _lines.add(n)
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def _worker(wid, nworkers, family, cases, progress, queue, stop, start=0, known=()):
    try:
        sys.stdout = open(os.devnull, "w")
        soft = 3 * 1024**3
        resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
        load_salabim()
        if COVERAGE:
            _cover()
        speed_up_inspect()
        gc.collect()
        gc.freeze()
        gc.set_threshold(20000, 5, 5)
        if family.setup:
            family.setup()
        st = Stats()
        violation = None
        known_hit = []
        for i in range(max(wid, start), len(cases), nworkers):
            if stop.value >= 0 and stop.value < i:
                break
            progress[wid] = i
            msg = run_case(family, cases[i], st)
            st.cases += 1
            if msg is not None:
                # determinism: the same history must fail again
                msg2 = run_case(family, cases[i], Stats())
                if msg2 is None:
                    msg += "\n(not reproduced when the same case was executed a second time in the same process)"
                if known and to_text(cases[i]) in known:
                    known_hit.append(i)
                    continue
                violation = (i, msg)
                with stop.get_lock():
                    if stop.value < 0 or i < stop.value:
                        stop.value = i
                break
        progress[wid] = -1
        if COVERAGE:
            with open(os.path.join(COVERAGE, f"{os.getpid()}_{family.name}"), "w") as f:
                f.write(" ".join(map(str, sorted(_lines))))
        queue.put(("ok", wid, st.states, st.transitions, dict(st.outcomes), st.cases, violation, known_hit))
    except HarnessError as e:
        queue.put(("error", wid, str(e)))
    except BaseException as e:
        queue.put(("error", wid, "".join(traceback.format_exception(type(e), e, e.__traceback__))))


def run_family(family, nworkers, known=()):
    cases = family.cases() if callable(family.cases) else family.cases
    cases = list(cases)
    ctx = multiprocessing.get_context("fork")
    nworkers = max(1, min(nworkers, len(cases)))
    progress = ctx.Array("l", [-1] * nworkers)
    stop = ctx.Value("l", -1)
    queue = ctx.Queue()
    procs = []
    restarts = {}

    def launch(w, start=0):
        p = ctx.Process(target=_worker, args=(w, nworkers, family, cases, progress, queue, stop, start, known))
        p.start()
        return p

    for w in range(nworkers):
        procs.append(launch(w))
    done = {}
    known_hit = []
    total = Stats()
    violations = []
    errors = []
    import queue as q_mod

    while len(done) < nworkers:
        try:
            item = queue.get(timeout=0.5)
        except q_mod.Empty:
            for w, p in enumerate(procs):
                if w not in done and not p.is_alive():
                    try:
                        item = queue.get(timeout=1.0)
                        break
                    except q_mod.Empty:
                        pass
                    i = progress[w]
                    if i >= 0 and p.exitcode == -signal.SIGKILL and restarts.get(w, (None, 0))[1] < 3 and restarts.get(w, (None, 0))[0] != i:
                        # ended from outside (memory): not this case's fault unless it happens again there
                        restarts[w] = (i, restarts.get(w, (None, 0))[1] + 1)
                        total.cases += (i - w) // nworkers
                        procs[w] = launch(w, i)
                        continue
                    done[w] = True
                    if i >= 0:
                        violations.append((i, f"the interpreter died (exit code {p.exitcode}) while executing this case"))
                        with stop.get_lock():
                            if stop.value < 0 or i < stop.value:
                                stop.value = i
                    else:
                        errors.append(f"worker {w} died with exit code {p.exitcode}")
            else:
                continue
        kind, w = item[0], item[1]
        done[w] = True
        if kind == "error":
            errors.append(item[2])
            with stop.get_lock():
                stop.value = 0
        else:
            _, _, states, trans, outcomes, n, violation, kh = item
            known_hit += kh
            total.states |= states
            total.transitions += trans
            total.outcomes.update(outcomes)
            total.cases += n
            if violation:
                violations.append(violation)
    for p in procs:
        p.join()
    violations.sort()
    return cases, total, violations, errors, known_hit


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def main(argv):
    if len(argv) >= 2 and argv[0] == "replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    load_salabim()
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    from mc import bfs

    bfs.SLACK = 1 if tier == "thorough" else getattr(mod, "SLACK", 0)
    fams = mod.families(tier)
    nworkers = int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 1))
    known = load_known(prop)
    cov = collections.OrderedDict()
    all_states = 0
    all_trans = 0
    all_cases = 0
    samples = []
    fam_cov = []
    n_viol = 0
    err = False
    known_hit = []
    for fam in fams:
        if only and fam.name != only:
            continue
        tf = time.time()
        fam_known = {k["case"]: k for k in known if k.get("family") == fam.name}
        cases, total, violations, errors, hits = run_family(fam, nworkers, set(fam_known))
        known_hit += [fam_known[to_text(cases[i])] for i in hits]
        if errors:
            print(f"HARNESS-ERROR property={prop} family={fam.name}\n{errors[0]}", flush=True)
            err = True
        reported = None
        for i, msg in violations:
            reported = (i, msg)
            break
        all_states += len(total.states) + fam.model_states
        all_trans += total.transitions + fam.model_transitions
        all_cases += total.cases
        if cases:
            samples.append({"family": fam.name, "case": to_text(cases[len(cases) // 2])[:1500]})
        fam_cov.append(
            {
                "family": fam.name,
                "bounds": fam.bounds,
                "executions_on_real_code": total.cases,
                "enumerated": len(cases),
                "distinct_model_states": len(total.states) + fam.model_states,
                "transitions_checked": total.transitions + fam.model_transitions,
                "distinct_outcomes": len(total.outcomes),
                "outcomes": dict(total.outcomes.most_common(12)),
                "complete": total.cases == len(cases),
                "wall_s": round(time.time() - tf, 2),
            }
        )
        print(
            f"  {prop} {fam.name}: cases={total.cases}/{len(cases)} states={len(total.states)+fam.model_states} "
            f"transitions={total.transitions+fam.model_transitions} outcomes={len(total.outcomes)} {time.time()-tf:.1f}s",
            flush=True,
        )
        if reported:
            n_viol += 1
            i, msg = reported
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}_{fam.name}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "family": fam.name, "index": i, "case": to_text(cases[i]), "message": msg}, f, indent=1)
            print(f"case: {to_text(cases[i])[:3000]}")
            print(msg[:4000])
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            break
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    cov["states"] = all_states
    cov["transitions"] = all_trans
    cov["traces_validated_against_impl"] = all_cases
    cov["exhaustive"] = all(f["complete"] for f in fam_cov) and not err and n_viol == 0
    cov["samples"] = samples[:12]
    cov["families"] = fam_cov
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(
                {
                    "property": prop,
                    "tier": tier if tier in ("quick", "thorough") else "quick",
                    "seed": seed,
                    "level": "model_checking",
                    "coverage": cov,
                    "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
                    "wall_s": round(time.time() - t0, 2),
                    "violations": n_viol,
                },
                f,
                indent=1,
            )
    if n_viol:
        return 1
    if err:
        return 2
    print(f"OK property={prop} tier={tier} executions={all_cases} states={all_states} transitions={all_trans} wall={time.time()-t0:.1f}s")
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    load_salabim()
    mod = importlib.import_module(f"mc.checks.{d['property'].lower()}")
    for fam in mod.families(d["tier"]):
        if fam.name == d["family"]:
            if fam.setup:
                fam.setup()
            out = sys.stdout
            sys.stdout = open(os.devnull, "w")
            msg = run_case(fam, from_text(d["case"]), Stats())
            sys.stdout = out
            print("case:", d["case"])
            if msg is None:
                print("replay: the property holds on this case")
                return 0
            print(msg)
            print(f"VIOLATION property={d['property']} replay={path}")
            return 1
    print("unknown family")
    return 2
