"""Contracts: which functions are verified for which property, and the run that discharges them."""
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback

import build
import prove as pv
from mir import Unsupported
from term import *  # noqa: F401,F403

sys.setrecursionlimit(200000)

ASSUME = {
    "reals": "f64 arithmetic is treated as real arithmetic (no rounding, overflow, infinity or NaN)",
    "rhs": "user functions write every component of their output and have no other effect",
    "ndarray": "ndarray and core operations behave as specified in vc/lib.py (indexing, assign, elementwise "
               "arithmetic, views, slices, Vec, Option, Range)",
    "counters": "counters, vector lengths and integer options stay below 2^62",
    "extraction": "rustc's MIR is the program; unwind paths and drops are left out",
    "prover": "z3, cvc5 and the ring normaliser in vc/prove.py are correct",
}


class Task:
    """one obligation to discharge"""
    __slots__ = ("name", "hyps", "goal", "taint", "tags", "timeout", "internal")

    def __init__(self, name, hyps, goal, taint=(), tags=(), timeout=None, internal=False):
        self.name, self.hyps, self.goal, self.taint, self.tags, self.timeout = name, hyps, goal, taint, tags, timeout
        self.internal = internal    # a proof annotation: failing it is no verdict on the property


class Probe(Task):
    """an attempt to derive a contradiction from assumptions; succeeding makes what rests on them empty"""
    __slots__ = ()


class Module:
    """verification of a group of functions: run() fills tasks"""

    def __init__(self, world):
        self.w = world
        self.tasks = []
        self.functions = set()
        self.assume = []
        self.specs = set()

    def add(self, name, hyps, goal, tags, taint=(), timeout=None, internal=False):
        self.tasks.append(Task(name, list(hyps), goal, taint, tuple(tags), timeout, internal))

    def take(self, eng, tags_panic=("C18",), tags_inv=(), prefix=""):
        """obligations the executor collected"""
        for o in eng.obls:
            tags = tags_panic if o.kind in ("panic", "cast", "shape") else tags_inv
            if o.kind == "shape":
                tags = tuple(tags_panic) + ("C19",)
            self.tasks.append(Task(prefix + o.name, o.hyps, o.goal, o.taint, tuple(tags),
                                   internal=o.kind in ("invariant", "variant")))
        eng.obls = []
        self.functions |= eng.visited
        self.specs |= eng.used_specs


_TASKS = []
TASK_S = 90      # seconds before an obligation is given up


def _work(i):
    t = _TASKS[i]
    s0 = pv.SOLVER_S[0]
    if isinstance(t, Probe):
        pv.DEADLINE[0] = time.time() + 8
        r = pv.prove(t.hyps, t.goal, t.timeout)
        return i, r.status, r.backend, r.detail, pv.SOLVER_S[0] - s0
    pv.DEADLINE[0] = time.time() + TASK_S * 0.8
    r = pv.prove(t.hyps, t.goal, t.timeout)
    if r.status == "suspect" and not t.internal and not t.taint:
        # sums and quantifiers are exact in a small dimension
        for k in (1, 2):
            m = {var("n", "I"): ic(k)}
            hy = [subst(h, m) for h in t.hyps]
            if FALSE in hy:
                continue
            q = pv.prove(hy, subst(t.goal, m), t.timeout)
            if q.status == "refuted":
                r = q
                r.detail = "in dimension %d: %s" % (k, r.detail)
                break
    return i, r.status, r.backend, r.detail, pv.SOLVER_S[0] - s0


def _serve(chunk, pipe):
    for i in chunk:
        try:
            pipe.send(_work(i))
        except Exception as e:  # an internal failure leaves the obligation undecided
            pipe.send((i, "unknown", "", "prover failed: %r" % (e,), 0.0))


def discharge(tasks, limit, workers=max(4, (os.cpu_count() or 4) - 2)):
    """prove the tasks in parallel; returns [(task, status, backend, detail)] and the solver time"""
    global _TASKS
    out = [None] * len(tasks)
    todo = []
    for i, t in enumerate(tasks):
        if t.goal is TRUE:
            out[i] = ("proved", "trivial", "")
        else:
            todo.append(i)
    _TASKS = tasks
    solver = 0.0
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    live = []           # [process, pipe, indices left, time of the last answer]
    while todo or live:
        while todo and len(live) < workers:
            chunk, todo = todo[:2], todo[2:]
            here, there = ctx.Pipe(False)
            p = ctx.Process(target=_serve, args=(chunk, there), daemon=True)
            p.start()
            there.close()
            live.append([p, here, list(chunk), time.time()])
        now = time.time()
        over = now - t0 > limit
        ready = multiprocessing.connection.wait([w[1] for w in live], timeout=0.5)
        for w in list(live):
            p, pipe, left, last = w
            dead = over or now - last > TASK_S
            why = "time limit of the run" if over else "time limit of the obligation"
            if pipe in ready:
                try:
                    i, st, be, de, ss = pipe.recv()
                    out[i] = (st, be, de)
                    solver += ss
                    left.remove(i)
                    w[3] = time.time()
                    if left:
                        continue
                except (EOFError, OSError):
                    dead, why = True, "prover process ended"
            if dead or not left:
                p.kill()
                p.join()
                pipe.close()
                live.remove(w)
                if left:
                    out[left[0]] = ("unknown", "", why)
                    todo = left[1:] + todo
        if over:
            for i in todo:
                out[i] = ("unknown", "", "time limit of the run")
            todo = []
    return out, solver


def modules():
    import dp5
    import linalg
    import ode
    import radau
    return [dp5.Dp5Step, ode.Stepping, ode.Iterators, ode.Builder, ode.Jacobians, linalg.Lu, radau.RadauStep]


# parts of a property that carry no discharged obligation; the replay stands in for them
BOUNDED = {}


# contracts used at calls, and the check that discharges them
PROVED_IN = {"dec": "C01", "sol": "C01", "decc": "C02", "solc": "C02", "jacobian_u": "C13"}


def pieces(goal):
    """a conjunction, possibly under a quantifier and guards, as separate goals"""
    if goal.op == "and":
        return [p for g in goal.args for p in pieces(g)]
    if goal.op == "forall":
        names, body = goal.args
        return [forall(names, p) for p in pieces(body)]
    if goal.op == "or":
        for x in goal.args:
            if x.op == "and" and any(y.op == "eq0" and y.args[0].sort == "R" for y in x.args):
                rest = [y for y in goal.args if y is not x]
                return [lor(*(rest + [p])) for p in pieces(x)]
    return [goal]


def probes(tasks):
    """one probe for each set of assumptions; returns them with the probe of each task"""
    found, order, at = {}, [], []
    for t in tasks:
        key = frozenset(t.hyps)
        if key not in found:
            found[key] = len(order)
            order.append(Probe("assumptions of " + t.name, t.hyps, FALSE, timeout=1500))
        at.append(found[key])
    return order, at


def empty_contracts(tasks, at, contradictory):
    """contracts all of whose obligations rest on contradictory assumptions"""
    alive = {}
    for t, k in zip(tasks, at):
        contract = t.name.split(":")[0].split(",")[0]
        alive[contract] = alive.get(contract, False) or not contradictory[k]
    return [c for c in alive if not alive[c]]


def verify(prop, tier="quick", verbose=False):
    from world import World
    t0 = time.time()
    res = {"obligations": [], "trusted": [], "functions": [], "backends": {}, "solver_s": 0.0, "level": "proof",
           "assumptions": [], "extraction": {}}
    res["bounded"] = BOUNDED.get(prop, [])
    if res["bounded"]:
        res["level"] = "exploration"
    limit = 420 if tier == "quick" else 900
    try:
        text, secs = build.extract_mir()
        w = World(text, os.path.join(build.REPO, "src"))
    except Exception as e:
        res["obligations"].append({"name": "extraction", "status": "unknown", "detail": repr(e)[:500]})
        return res
    res["extraction"] = {
        "what": "rustc -Zunpretty=mir -Zmir-opt-level=0 of /repo's library crate, taken on this run",
        "functions_in_crate": len(w.prog.fns), "seconds": round(secs, 2),
        "dropped": "cleanup and unwind paths, drops, storage markers, lifetimes, debug scopes"}
    tasks, fns, specs, assume = [], set(), set(), []
    for M in modules():
        if prop not in M.PROPS:
            continue
        m = M(w)
        try:
            m.run(prop)
        except Unsupported as e:
            res["obligations"].append({"name": "%s: in the supported fragment" % M.NAME, "status": "unknown",
                                       "detail": "unsupported: %s" % e})
        except Exception as e:  # an internal failure is never an alarm
            if verbose:
                traceback.print_exc()
            res["obligations"].append({"name": "%s: contract applies" % M.NAME, "status": "unknown",
                                       "detail": "%s: %s" % (type(e).__name__, str(e)[:300])})
        tasks += [t for t in m.tasks if prop in t.tags]
        fns |= m.functions
        specs |= m.specs
        assume += m.assume
    # the same claim about the same state once
    seen, uniq = set(), []
    for t in tasks:
        key = (t.name, t.goal, tuple(t.hyps))
        if key not in seen:
            seen.add(key)
            for g in pieces(t.goal):
                uniq.append(Task(t.name, t.hyps, g, t.taint, t.tags, t.timeout, t.internal))
    order, at = probes(uniq)
    out, solver = discharge(uniq + order, limit)
    contradictory = [st == "proved" for st, _, _ in out[len(uniq):]]
    res["assumption_sets"] = {"tried": len(order), "contradictory": sum(contradictory)}
    for c in empty_contracts(uniq, at, contradictory):
        res["obligations"].append({"name": "%s: holds for some execution" % c, "status": "unknown",
                                   "detail": "every set of assumptions met is contradictory"})
    names = {}
    for t, (st, be, de) in zip(uniq, out):
        if st == "refuted" and t.internal:
            st = "suspect"
        if st in ("refuted", "suspect") and t.taint:
            st, de = "unknown", "rests on a loop without a contract (%s); %s" % (t.taint[0], de)
        k = names.get(t.name, 0)
        names[t.name] = k + 1
        res["obligations"].append({"name": t.name if k == 0 else "%s #%d" % (t.name, k + 1), "status": st,
                                   "backend": be, "detail": de})
        if st == "proved":
            res["backends"][be] = res["backends"].get(be, 0) + 1
    res["solver_s"] = solver
    res["functions"] = sorted(fns)
    res["trusted"] = [ASSUME["ndarray"], ASSUME["extraction"], ASSUME["prover"]] + sorted(
        "contract of %s, discharged by the check of %s" % (x, PROVED_IN.get(x, "the same property")) for x in specs)
    res["assumptions"] = [ASSUME["reals"], ASSUME["rhs"], ASSUME["counters"]] + assume
    res["seconds"] = time.time() - t0
    return res


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import contracts as me
    for p in sys.argv[1:]:
        r = me.verify(p, verbose=True)
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        print("%s: %d obligations, %d not proved, %.1f s (solver %.1f) %s" % (
            p, len(r["obligations"]), len(bad), r.get("seconds", 0), r["solver_s"], r["backends"]))
        for o in bad:
            print("   ", o["status"], o["name"], "|", o.get("backend", ""), o.get("detail", "")[:600])
