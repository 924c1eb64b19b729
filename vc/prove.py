"""Discharging obligations: ring normalisation with case splits, then z3 (cvc5 on z3's unknowns)."""
import time
from fractions import Fraction

import z3

from term import *  # noqa: F401,F403
import term as tm

STATS = {"ring": 0, "z3": 0, "cvc5": 0, "trivial": 0}
SOLVER_S = [0.0]
TIMEOUT = [8000]
DEADLINE = [float("inf")]


# ---------------------------------------------------------------- translation
PURE = {}      # translations that need no axioms, shared by all queries
_PURE = {}


def pure(t):
    r = _PURE.get(t)
    if r is None:
        r = t.op not in ("inv", "sqrt", "pow", "sum", "forall", "f", "lam") and all(
            pure(c) for c in children(t)) and not (t.op == "sel" and t.args[0].op != "av")
        _PURE[t] = r
    return r


class Tr:
    """terms to z3; sums, powers and inverses are symbols with instantiated axioms"""

    def __init__(self):
        self.memo = {}
        self.funs = {}
        self.axioms = []
        self.side = []          # conditions under which the translation is exact
        self.approx = False

    def fun(self, name, n, ret, isorts):
        key = (name, n, ret, tuple(isorts))
        f = self.funs.get(key)
        if f is None:
            f = z3.Function("%s/%d%s%s" % (name, n, ret, "".join(isorts)), *[self.sort(s) for s in isorts], self.sort(ret))
            self.funs[key] = f
        return f

    def sort(self, s):
        if s == "R":
            return z3.RealSort()
        if s == "I":
            return z3.IntSort()
        if s == "B":
            return z3.BoolSort()
        return z3.DeclareSort("U")

    def const(self, name, s):
        return z3.Const(name, self.sort(s))

    def num(self, v, s):
        if s == "R":
            return z3.RealVal("%d/%d" % (v.numerator, v.denominator)) if isinstance(v, Fraction) else z3.RealVal(v)
        return z3.IntVal(int(v))

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = PURE.get(t)
            if r is None:
                r = self._tr(t)
                if pure(t):
                    PURE[t] = r
                    return r
            else:
                return r
            self.memo[t] = r
        return r

    def _tr(self, t):
        op = t.op
        if op == "c":
            if t.sort == "B":
                return z3.BoolVal(t.args)
            return self.num(t.args, t.sort)
        if op == "v":
            return self.const(t.args, t.sort)
        if op == "f":
            if len(t.args) == 1:
                return self.const("f:" + t.args[0], t.sort)
            if any(isinstance(a.sort, tuple) for a in t.args[1:]):
                self.approx = True
                return self.const("F%d" % t.id, t.sort)
            a = [self(x) for x in t.args[1:]]
            return self.fun("f:" + t.args[0], len(a), t.sort, [x.sort for x in t.args[1:]])(*a)
        if op == "lin":
            c, its = t.args
            ts = []
            for x, k in its:
                e = self(x)
                ts.append(e if k == 1 else self.num(k, t.sort) * e)
            if c != 0:
                ts.append(self.num(c, t.sort))
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        if op == "prod":
            fs = []
            for x, e in t.args:
                fs += [self(x)] * e
            return z3.Product(fs)
        if op == "inv":
            x = self(t.args[0])
            self.side.append(x != 0)
            v = self.const("inv!%d" % t.args[0].id, "R")
            self.axioms.append(z3.Implies(x != 0, v * x == 1))
            self.axioms.append(z3.Implies(x > 0, v > 0))
            self.axioms.append(z3.Implies(x < 0, v < 0))
            self.axioms.append(z3.Implies(x >= 1, v <= 1))
            self.axioms.append(z3.Implies(z3.And(x > 0, x <= 1), v >= 1))
            return v
        if op == "i2r":
            return z3.ToReal(self(t.args[0]))
        if op == "abs":
            x = self(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op in ("min", "max"):
            a, b = self(t.args[0]), self(t.args[1])
            return z3.If(a <= b, a, b) if op == "min" else z3.If(a >= b, a, b)
        if op == "sqrt":
            x = self(t.args[0])
            self.side.append(x >= 0)
            v = self.const("sqrt!%d" % t.args[0].id, "R")
            self.axioms.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
            self.axioms.append(z3.Implies(x > 0, v > 0))
            return v
        if op == "pow":
            self.approx = True
            a, b = self(t.args[0]), self(t.args[1])
            v = self.fun("pow", 2, "R", ["R", "R"])(a, b)
            self.axioms.append(z3.Implies(a > 0, v > 0))
            self.axioms.append(z3.Implies(a >= 0, v >= 0))
            self.axioms.append(z3.Implies(z3.And(a >= 1, b >= 0), v >= 1))
            self.axioms.append(z3.Implies(z3.And(a >= 1, b <= 0), v <= 1))
            self.axioms.append(z3.Implies(z3.And(a > 0, a <= 1, b >= 0), v <= 1))
            self.axioms.append(z3.Implies(z3.And(a > 0, a <= 1, b <= 0), v >= 1))
            self.axioms.append(z3.Implies(z3.And(a > 1, b > 0), v > 1))
            return v
        if op == "idiv":
            return self(t.args[0]) / self(t.args[1])
        if op == "imod":
            return self(t.args[0]) % self(t.args[1])
        if op == "le0":
            return self(t.args[0]) <= 0
        if op == "lt0":
            return self(t.args[0]) < 0
        if op == "eq0":
            return self(t.args[0]) == 0
        if op in ("iff", "ueq"):
            return self(t.args[0]) == self(t.args[1])
        if op == "not":
            return z3.Not(self(t.args[0]))
        if op == "and":
            return z3.And([self(x) for x in t.args])
        if op == "or":
            return z3.Or([self(x) for x in t.args])
        if op == "ite":
            return z3.If(self(t.args[0]), self(t.args[1]), self(t.args[2]))
        if op == "sel":
            a = t.args[0]
            if a.op == "av":
                ps = a.args[1:] + t.args[1:]
                return self.fun("A:" + a.args[0], len(ps), t.sort, [p.sort for p in ps])(*[self(p) for p in ps])
            raise ValueError("sel of %s" % a.op)
        if op == "sum":
            self.approx = True
            return self.const("sum!%d" % t.id, "R")
        if op == "forall":
            names, body = t.args
            vs = [var(fresh("q"), "I") for _ in names]
            b = subst(body, {var(n, "I"): v for n, v in zip(names, vs)})
            return z3.ForAll([self.const(v.args, "I") for v in vs], self(b))
        raise ValueError("cannot translate %s" % op)


# ---------------------------------------------------------------- polynomials
class Poly:
    """polynomials with rational coefficients over atoms (terms)"""

    @staticmethod
    def const(c):
        return {(): Fraction(c)} if c else {}

    @staticmethod
    def add(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mul(a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))


class TooBig(Exception):
    pass


def poly(t, memo, ctx=None):
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "c":
        r = Poly.const(t.args)
    elif op == "lin":
        r = Poly.const(t.args[0])
        for x, k in t.args[1]:
            r = Poly.add(r, poly(x, memo, ctx), Fraction(k))
    elif op == "prod":
        r = Poly.const(1)
        for x, e in t.args:
            p = poly(x, memo, ctx)
            for _ in range(e):
                r = Poly.mul(r, p)
                if len(r) > 40000:
                    raise TooBig()
    elif op == "inv":
        p = poly(t.args[0], memo, ctx)
        if len(p) == 1:
            (m, c), = p.items()
            r = Poly.const(1 / c)
            for x, e in m:
                if x.op == "inv":
                    q = poly(x.args[0], memo, ctx)
                    for _ in range(e):
                        r = Poly.mul(r, q)
                else:
                    r = Poly.mul(r, {((inv(x), e),): Fraction(1)})
        else:
            q = from_poly(p)
            # scale out the leading coefficient
            lead = p[min(p, key=lambda m: [(x.id, e) for x, e in m])] if p else 0
            if not p:
                r = {((t, 1),): Fraction(1)}
            else:
                q = from_poly({m: c / lead for m, c in p.items()})
                r = {((tm._mk("inv", (q,), "R", q.fv, q.h), 1),): 1 / lead}
    elif op == "sum":
        r = poly_sum(t, memo, ctx)
    elif op == "i2r":
        r = {((t, 1),): Fraction(1)}
    else:
        # canonical arguments, so that equal arguments give equal atoms
        if op in ("sqrt", "abs") or op == "pow" or op in ("min", "max"):
            ch = [from_poly(poly(c, memo, ctx)) for c in children(t)]
            t2 = rebuild(t, ch)
            if t2.op != op:
                r = poly(t2, memo, ctx)
                memo[t] = r
                return r
            r = {((t2, 1),): Fraction(1)}
        else:
            r = {((t, 1),): Fraction(1)}
    if len(r) > 40000:
        raise TooBig()
    memo[t] = r
    return r


def from_poly(p):
    ts = []
    for m, c in sorted(p.items(), key=lambda mc: [(x.id, e) for x, e in mc[0]]):
        r = rc(c)
        for x, e in m:
            for _ in range(e):
                r = mul(r, x)
        ts.append(r)
    return addn(ts, "R") if ts else R0


def poly_sum(t, memo, ctx):
    lo, hi, b, body = t.args
    bv = (b, "I")
    p = poly(body, {}, ctx)
    r = {}
    for m, c in p.items():
        out = tuple((x, e) for x, e in m if bv not in x.fv)
        inn = tuple((x, e) for x, e in m if bv in x.fv)
        if not inn:
            s = i2r(ite(le(lo, hi), sub(hi, lo), I0))
            if ctx is not None:
                if ctx.entails(le(lo, hi)):
                    s = i2r(sub(hi, lo))
            q = poly(s, {}, ctx)
        else:
            it = from_poly({inn: Fraction(1)})
            q = {((tsum_raw(lo, hi, b, it), 1),): Fraction(1)}
        r = Poly.add(r, Poly.mul({out: Fraction(1)}, q), c)
    return r


def tsum_raw(lo, hi, b, body):
    s = tsum(lo, hi, b, body)
    return s


# ---------------------------------------------------------------- the prover
def conds_of(t, acc, seen, bound=EMPTY):
    """conditions controlling the value of t (ite tests, signs of abs, order of min/max)"""
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        free_tests(t.args[0], acc)
    elif t.op == "abs":
        if not any(x[0].startswith("#") for x in t.fv):
            acc.append(le0(neg(t.args[0])))
    elif t.op in ("min", "max"):
        if not any(x[0].startswith("#") for x in t.fv):
            acc.append(le(t.args[0], t.args[1]))
    for c in children(t):
        conds_of(c, acc, seen)


def free_tests(c, acc):
    if c.op == "not":
        free_tests(c.args[0], acc)
    elif c.op in ("and", "or"):
        for x in c.args:
            free_tests(x, acc)
    elif not any(x[0].startswith("#") for x in c.fv) and not isc(c):
        acc.append(c)


_INT = {}


def integral(t):
    """no real-valued part"""
    r = _INT.get(t)
    if r is None:
        r = t.sort in ("I", "B") and t.op not in ("sum", "forall", "lam") and t.op != "f" and \
            all(integral(c) or isinstance(c.sort, tuple) for c in children(t))
        _INT[t] = r
    return r


def simple(h):
    xs = subterms(h)
    return len(xs) <= 40 and not any(x.op in ("sum", "pow", "sqrt", "forall") for x in xs)


class Ctx:
    """a set of hypotheses with an incremental solver for linear entailment"""

    def __init__(self, hyps):
        self.hyps = []
        self.known = {}
        self.tr = Tr()
        self.cache = {}
        for h in hyps:
            self._add(h)
        self.solver = self.isolver = self.lsolver = None
        self.quick = False     # only the light solvers are asked

    def _add(self, h):
        if h.op == "and":
            for x in h.args:
                self._add(x)
            return
        if h is TRUE:
            return
        self.hyps.append(h)
        self.known[h] = TRUE
        self.known[lnot(h)] = FALSE
        if h.op == "lt0":
            self.known[le0(h.args[0])] = TRUE
            self.known[lnot(le0(h.args[0]))] = FALSE
        if h.op in ("lt0", "le0") and h.op == "lt0":
            e = eq(h.args[0], R0 if h.args[0].sort == "R" else I0)
            self.known[e] = FALSE
            self.known[lnot(e)] = TRUE

    def with_(self, *more):
        c = Ctx(self.hyps + list(more))
        c.tr.approx = self.tr.approx
        c.quick = self.quick
        return c

    def contradictory(self):
        return FALSE in self.known and self.known.get(FALSE) is TRUE or FALSE in self.hyps

    def _solver(self, timeout):
        if self.solver is None:
            self.solver = z3.Solver()
            for h in self.hyps:
                if h.op == "forall":
                    continue
                self.solver.add(self.tr(h))
            for a in self.tr.axioms:
                self.solver.add(a)
            self.nax = len(self.tr.axioms)
        self.solver.set("timeout", timeout)
        return self.solver

    def check(self, *extra, timeout=None):
        if time.time() > DEADLINE[0]:
            return z3.unknown, None
        s = self._solver(timeout or TIMEOUT[0])
        s.push()
        try:
            for e in extra:
                s.add(self.tr(e))
            for a in self.tr.axioms[self.nax:]:
                s.add(a)
            t0 = time.time()
            r = s.check()
            SOLVER_S[0] += time.time() - t0
            m = s.model() if r == z3.sat else None
        finally:
            s.pop()
            # axioms of new symbols stay available
            for a in self.tr.axioms[self.nax:]:
                s.add(a)
            self.nax = len(self.tr.axioms)
        return r, m

    def exact(self, m):
        """does a model of the translated query describe a real execution?"""
        if self.tr.approx or m is None or any(h.op == "forall" for h in self.hyps):
            return False
        try:
            return all(z3.is_true(m.eval(c, model_completion=True)) for c in self.tr.side)
        except z3.Z3Exception:
            return False

    def int_unsat(self, cs):
        """are the integral ones of cs incompatible with the integral hypotheses?"""
        if self.isolver is None:
            self.isolver = z3.Solver()
            self.isolver.set("timeout", 1000)
            for h in self.hyps:
                if integral(h):
                    self.isolver.add(self.tr(h))
        t0 = time.time()
        self.isolver.push()
        for c in cs:
            if integral(c):
                self.isolver.add(self.tr(c))
        r = self.isolver.check() == z3.unsat
        self.isolver.pop()
        SOLVER_S[0] += time.time() - t0
        return r

    def light_unsat(self, *cs):
        """are cs incompatible with the simple hypotheses (small, no sums, powers or roots)?"""
        if time.time() > DEADLINE[0]:
            return False
        if self.lsolver is None:
            self.lsolver = z3.Solver()
            self.lsolver.set("timeout", 60)
            for h in self.hyps:
                if simple(h):
                    self.lsolver.add(self.tr(h))
        t0 = time.time()
        self.lsolver.push()
        try:
            for c in cs:
                self.lsolver.add(self.tr(c))
            return self.lsolver.check() == z3.unsat
        except (ValueError, z3.Z3Exception):
            return False
        finally:
            self.lsolver.pop()
            SOLVER_S[0] += time.time() - t0

    def entails(self, c, timeout=2000):
        """quick entailment of a condition: True, False (not shown)"""
        k = self.known.get(c)
        if k is not None:
            return k is TRUE
        if isc(c):
            return c is TRUE
        r = self.cache.get(c)
        if r is None and integral(c):
            # linear integer facts alone settle most index conditions
            if self.int_unsat((lnot(c),)):
                r = self.cache[c] = True
            timeout = min(timeout, 300)
        if r is None and not (self.quick and integral(c)) and self.light_unsat(lnot(c)):
            r = self.cache[c] = True
        if r is None and self.quick:
            return False
        if r is None:
            try:
                r = self.check(lnot(c), timeout=timeout)[0] == z3.unsat
            except (ValueError, z3.Z3Exception):
                r = False
            self.cache[c] = r
        return r

    def decide(self, c):
        """TRUE, FALSE or None"""
        k = self.known.get(c)
        if k is not None:
            return k
        if isc(c):
            return c
        if c not in self.cache and integral(c) and self.int_unsat((c,)):
            self.cache[c], self.cache[lnot(c)] = False, True
            return FALSE
        if self.entails(c):
            return TRUE
        if self.entails(lnot(c)):
            return FALSE
        return None

    def simp(self, t, use_solver=True):
        """resolve ite / abs / min / max whose tests the hypotheses decide"""
        def dec(c):
            k = self.known.get(c)
            if k is not None:
                return k
            if not use_solver or any(x[0].startswith("#") for x in c.fv):
                return None
            return self.decide(c)

        def f(x):
            if x.sort == "B" and x in self.known:
                return self.known[x]
            if x.op == "ite":
                k = dec(x.args[0])
                if k is TRUE:
                    return x.args[1]
                if k is FALSE:
                    return x.args[2]
            elif x.op == "abs":
                k = dec(le0(neg(x.args[0])))
                if k is TRUE:
                    return x.args[0]
                if k is FALSE:
                    return neg(x.args[0])
            elif x.op in ("min", "max"):
                k = dec(le(x.args[0], x.args[1]))
                if k is TRUE:
                    return x.args[0] if x.op == "min" else x.args[1]
                if k is FALSE:
                    return x.args[1] if x.op == "min" else x.args[0]
            return None
        return self._topdown(t, dec, {})

    def _topdown(self, t, dec, memo):
        r = memo.get(t)
        if r is not None:
            return r
        if t.sort == "B" and t in self.known:
            r = self.known[t]
        elif t.op == "ite":
            c = self._topdown(t.args[0], dec, memo)
            k = c if isc(c) else dec(c)
            if k is TRUE:
                r = self._topdown(t.args[1], dec, memo)
            elif k is FALSE:
                r = self._topdown(t.args[2], dec, memo)
            else:
                r = ite(c, self._topdown(t.args[1], dec, memo), self._topdown(t.args[2], dec, memo))
        else:
            ch = children(t)
            new = [self._topdown(c, dec, memo) for c in ch]
            r = t if all(x is y for x, y in zip(ch, new)) else rebuild(t, new)
            if r.op == "abs":
                k = dec(le0(neg(r.args[0])))
                if k is TRUE:
                    r = r.args[0]
                elif k is FALSE:
                    r = neg(r.args[0])
            elif r.op in ("min", "max"):
                k = dec(le(r.args[0], r.args[1]))
                if k is TRUE:
                    r = r.args[0] if r.op == "min" else r.args[1]
                elif k is FALSE:
                    r = r.args[1] if r.op == "min" else r.args[0]
        memo[t] = r
        return r


class Result:
    def __init__(self, status, backend="", detail=""):
        self.status, self.backend, self.detail = status, backend, detail

    def __bool__(self):
        return self.status == "proved"

    def __repr__(self):
        return "%s[%s] %s" % (self.status, self.backend, self.detail[:300])


def refuted(ctx, m, backend, text):
    """a counterexample counts as such only when the query it satisfies is exact"""
    return Result("refuted" if ctx.exact(m) else "suspect", backend, text)


def instantiate(hyps, goal, rounds=2):
    """ground instances of universally quantified hypotheses, by matching array reads"""
    quants = [h for h in hyps if h.op == "forall"]
    if not quants:
        return list(hyps)
    ground = [h for h in hyps if h.op != "forall"]
    out = list(ground)
    seen = set(out)
    pool = set()
    for h in ground + [goal]:
        subterms(h, pool)
    for _ in range(rounds):
        reads = {}
        for t in pool:
            if t.op == "sel" and t.args[0].op == "av" and not any(x[0].startswith("#") for x in t.fv):
                reads.setdefault(t.args[0].args[0], []).append(t)
        new = []
        for q in quants:
            names, body = q.args
            pats = [t for t in subterms(body) if t.op == "sel" and t.args[0].op == "av"
                    and any((n, "I") in t.fv for n in names)]
            subs = [{}]
            found = set()
            for p in pats:
                for g in reads.get(p.args[0].args[0], []):
                    s = match_lin(p, g, names)
                    if s is not None and len(s) == len(names):
                        key = tuple(s[n] for n in names)
                        found.add(key)
            for key in found:
                inst = subst(body, {var(n, "I"): v for n, v in zip(names, key)})
                if inst not in seen and inst is not TRUE:
                    seen.add(inst)
                    new.append(inst)
        if not new:
            break
        out += new
        for x in new:
            subterms(x, pool)
    return out


def match_lin(p, g, names):
    """match the index arguments of read p (with bound names) against the read g"""
    s = {}
    pa = p.args[0].args[1:] + p.args[1:]
    ga = g.args[0].args[1:] + g.args[1:]
    if len(pa) != len(ga):
        return None
    for x, y in zip(pa, ga):
        bs = [n for n in names if (n, "I") in x.fv]
        if not bs:
            continue
        if len(bs) > 1:
            return None
        n = bs[0]
        v = var(n, "I")
        c, its = lin_parts(x)
        k = dict(its).get(v)
        if k not in (1, -1):
            continue
        rest = sub(x, scale(k, v))
        if (n, "I") in rest.fv:
            continue
        val = scale(k, sub(y, rest))
        if n in s and s[n] is not val:
            return None
        s[n] = val
    return s


def has_forall(t):
    return t.op == "forall" or t.op in ("and", "or") and any(has_forall(x) for x in t.args)


def cases(hyps, n=4):
    """joined paths whose quantified facts differ are taken one by one"""
    if n:
        for i, h in enumerate(hyps):
            if h.op == "or" and any(x.op == "and" and has_forall(x) for x in h.args):
                rest = hyps[:i] + hyps[i + 1:]
                out = []
                for j, x in enumerate(h.args):
                    out += cases(rest + [x] + [lnot(y) for y in h.args[:j] if not has_forall(y)], n - 1)
                return out
            if h.op == "and":
                return cases(hyps[:i] + list(h.args) + hyps[i + 1:], n)
    return [hyps]


def prove(hyps, goal, timeout=None):
    try:
        best = Result("proved", "trivial")
        cs = cases(list(hyps))
        for hy in cs:
            r = _prove(hy, goal, timeout or TIMEOUT[0], 0)
            if not r:
                return r
            if r.backend != "trivial":
                best = r
        return best
    except TooBig:
        return Result("unknown", "ring", "polynomial too large")
    except (ValueError, z3.Z3Exception, RecursionError) as e:
        return Result("unknown", "translate", repr(e)[:300])


def _prove(hyps, goal, timeout, depth, determined=False):
    if goal is TRUE:
        return Result("proved", "trivial")
    if goal.op == "and":
        best = Result("proved", "trivial")
        for g in goal.args:
            r = _prove(hyps, g, timeout, depth + 1)
            if not r:
                return r
            if r.backend != "trivial":
                best = r
        return best
    if goal.op == "forall":
        names, body = goal.args
        return _prove(hyps, subst(body, {var(n, "I"): var(fresh("sk"), "I") for n in names}), timeout, depth + 1)
    if goal.op == "or":
        # prefer an equality as the remaining goal, unless it is under quantifiers
        quant = [x for x in goal.args if x.op == "forall"]
        eqs = [x for x in goal.args if x.op == "eq0" and x.args[0].sort == "R"]
        pick = quant or eqs or [x for x in goal.args if x.op == "and" and any(y.op == "eq0" and y.args[0].sort == "R" for y in x.args)]
        if pick:
            g = pick[0]
            return _prove(hyps + [lnot(x) for x in goal.args if x is not g], g, timeout, depth + 1)
    if goal.op == "not" and goal.args[0].op == "and" and False:
        pass
    quant = any(h.op == "forall" for h in hyps)
    if quant and not determined and goal.op == "eq0" and goal.args[0].sort == "R":
        # instances are found by matching, so variables with a known value go first
        ctx = Ctx([h for h in hyps if h.op != "forall"])
        m, _ = tight(ctx)
        if m:
            r = _prove([subst(h, m) for h in hyps], subst(goal, m), timeout, depth + 1, True)
            if r:
                return r
    hyps = instantiate(hyps, goal)
    ctx = Ctx(hyps)
    ctx.tr.approx = quant
    if ctx.known.get(goal) is TRUE:
        return Result("proved", "trivial")
    if FALSE in ctx.hyps:
        return Result("proved", "trivial")
    if goal.op == "eq0" and goal.args[0].sort == "R":
        return prove_zero(ctx, goal.args[0], timeout)
    if goal.op == "iff" and False:
        pass
    g = goal
    r, m = ctx.check(lnot(g), timeout=timeout)
    if r == z3.unsat:
        return Result("proved", "z3")
    g2 = ctx.simp(g)
    if g2 is TRUE:
        return Result("proved", "z3")
    if g2 is not g:
        return _prove(hyps, g2, timeout, depth + 1) if depth < 6 else Result("unknown", "z3", "")
    if r == z3.sat:
        return refuted(ctx, m, "z3", "model: " + model_text(m))
    c = try_cvc5(ctx, g, timeout)
    if c is not None:
        return c
    return Result("unknown", "z3", "timeout on " + show(goal)[:200])


def try_cvc5(ctx, goal, timeout):
    """second back end: the same query as SMT-LIB text through cvc5"""
    try:
        import cvc5
    except ImportError:
        return None
    s = z3.Solver()
    for h in ctx.hyps:
        if h.op != "forall":
            s.add(ctx.tr(h))
    s.add(ctx.tr(lnot(goal)))
    for a in ctx.tr.axioms:
        s.add(a)
    t0 = time.time()
    try:
        text = "(set-logic ALL)\n" + s.to_smt2()
        sol = cvc5.Solver()
        sol.setOption("tlimit-per", str(timeout))
        parser = cvc5.InputParser(sol)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = parser.getSymbolManager()
        out = ""
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out += cmd.invoke(sol, sm) or ""
        if "unsat" in out:
            return Result("proved", "cvc5")
        if "sat" in out.split():
            return Result("suspect", "cvc5", "sat")
    except Exception:
        return None
    finally:
        SOLVER_S[0] += time.time() - t0
    return None


def model_text(m):
    try:
        return ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if not str(d.name()).startswith("k!"))[:1500]
    except Exception:
        return "?"


def tight(ctx):
    """integer variables that the hypotheses determine: inequalities that can only hold with equality"""
    out = {}
    for _ in range(8):
        hit = None
        for h in ctx.hyps:
            if h.op not in ("le0", "eq0") or h.args[0].sort != "I":
                continue
            c, its = lin_parts(h.args[0])
            vs = [x for x, k in its if x.op == "v" and k in (1, -1)]
            if not vs or not (h.op == "eq0" or ctx.int_unsat((lnot(eq(h.args[0], I0)),))):
                continue
            for x in sorted(vs, key=lambda v: (0 if v.args.startswith("sk!") else 1 if "!" in v.args else 2, v.id)):
                k = dict(its)[x]
                val = scale(-k, sub(h.args[0], scale(k, x)))
                if (x.args, "I") not in val.fv:
                    hit = (x, val)
                    break
            if hit:
                break
        if hit is None:
            break
        x, val = hit
        m = {x: val}
        out = {a: subst(b, m) for a, b in out.items()}
        out[x] = val
        ap = ctx.tr.approx
        q = ctx.quick
        ctx = Ctx([subst(h, m) for h in ctx.hyps])
        ctx.tr.approx = ap
        ctx.quick = q
    return out, ctx


def avs_in(t):
    return {x.args[0] for x in subterms(t) if x.op == "av"}


def rewrite(t, rules):
    return replace(t, rules.get)


def equations(ctx, d):
    q, ctx.quick = ctx.quick, True
    try:
        return _equations(ctx, d)
    finally:
        ctx.quick = q


def _equations(ctx, d):
    """equations among the hypotheses (guards resolved), as array read or variable -> value, in triangular form"""
    eqs = []
    for h in ctx.hyps:
        stack = [h]
        while stack:
            x = stack.pop()
            if x.op == "and":
                stack.extend(x.args)
            elif x.op == "or":
                # a guarded equation: the other disjuncts must be excluded
                e = [y for y in x.args if y.op in ("and", "eq0") and (y.op == "and" or y.args[0].sort == "R")]
                o = [y for y in x.args if y not in e]
                if len(e) == 1 and all(ctx.entails(lnot(y)) for y in o):
                    stack.append(e[0])
            elif x.op == "eq0" and x.args[0].sort == "R":
                eqs.append(x.args[0])
    rules = {}
    here = avs_in(d)
    todo = sorted(dict.fromkeys(eqs), key=lambda e: (len(avs_in(e) - here), e.id))
    ok = lambda x: x.op == "sel" or x.op == "v" and x.sort == "R"
    want = {x for x in subterms(d) if ok(x)}
    for _ in range(40):
        hit = None
        for e in todo:
            e2 = ctx.simp(rewrite(e, rules)) if rules else ctx.simp(e)
            c, its = lin_parts(e2)
            cand = [(x, k) for x, k in its if x in want and not any(x in subterms(y) for y, _ in its if y is not x)]
            if len(cand) > 1:
                # rather not one whose array is summed over in the same equation
                summed = set().union(*[avs_in(y) for y, _ in its if y.op != "sel"])
                cand.sort(key=lambda c: bool(avs_in(c[0].args[0]) & summed) if c[0].op == "sel" else False)
            if cand:
                x, k = cand[0]
                hit = (e, x, scale(Fraction(-1) / k, sub(e2, scale(k, x))))
            if hit:
                break
        if hit is None:
            break
        e, x, v = hit
        todo.remove(e)
        rules = {a: rewrite(b, {x: v}) for a, b in rules.items()}
        rules[x] = v
        want |= {y for y in subterms(v) if ok(y)}
    return rules


def prove_zero(ctx, d, timeout, splits=0, budget=None, rewritten=0):
    """d == 0 over the reals: case split on the tests inside d, then ring normalisation"""
    if budget is None:
        # the light solvers and case splits first, the full context only when they do not do
        ctx.quick = True
        try:
            r = prove_zero(ctx, d, timeout, splits, [60], rewritten)
        except TooBig:
            r = None
        finally:
            ctx.quick = False
        if r:
            return r
        budget = [400]
    d = ctx.simp(d)
    conds = []
    conds_of(d, conds, set())
    if conds and splits < 14 and budget[0] > 0:
        # innermost condition first: one without ite inside
        conds.sort(key=lambda c: (not integral(c), len(subterms(c)), c.id))
        c = conds[0]
        if not integral(c):
            d2 = merge_zero(d)
            if d2 is not d:
                return prove_zero(ctx, d2, timeout, splits + 1, budget, rewritten)
        backend = "ring"
        for b in (c, lnot(c)):
            budget[0] -= 1
            sub_ctx = ctx.with_(b)
            if sub_ctx.light_unsat() or not ctx.quick and sub_ctx.check(timeout=2000)[0] == z3.unsat:
                continue
            r = prove_zero(sub_ctx, d, timeout, splits + 1, budget, rewritten)
            if not r:
                return r
            backend = r.backend if r.backend != "trivial" else backend
        return Result("proved", backend)
    p = zero_poly(ctx, d)
    if not p:
        return Result("proved", "ring")
    if ctx.light_unsat():
        return Result("proved", "z3")
    m, ctx2 = tight(ctx)
    if m and splits < 30:
        return prove_zero(ctx2, subst(d, m), timeout, splits, budget, rewritten)
    if rewritten < 3:
        q = from_poly(p)
        rules = equations(ctx, q)
        if rules:
            q2 = ctx.simp(rewrite(q, rules))
            if q2 is not q:
                r = prove_zero(ctx, q2, timeout, splits, budget, rewritten + 1)
                if r or rewritten:
                    return r
    g = eq(from_poly(p), R0)
    if ctx.light_unsat(lnot(g)):
        return Result("proved", "z3")
    if ctx.quick:
        return Result("unknown", "z3")
    if ctx.check(timeout=3000)[0] == z3.unsat:
        return Result("proved", "z3")
    if g is FALSE:
        return Result("suspect", "ring", "difference is %s" % show(from_poly(p))[:600])
    r, m = ctx.check(lnot(g), timeout=timeout)
    if r == z3.unsat:
        return Result("proved", "z3")
    if r == z3.sat:
        return refuted(ctx, m, "ring+z3", "difference: %s; model: %s" % (show(from_poly(p))[:800], model_text(m)[:600]))
    c = try_cvc5(ctx, g, timeout)
    if c is not None:
        return c
    return Result("unknown", "z3", "difference: %s" % show(from_poly(p))[:800])


def zero_poly(ctx, d):
    """normal form of d with denominators cleared (when provably non-zero) and sums aligned"""
    p = poly(expand_sums(ctx, d), {}, ctx)
    p = align_sums(ctx, p)
    for _ in range(12):
        invs = {}
        for m in p:
            for x, e in m:
                if x.op == "inv":
                    invs[x] = max(invs.get(x, 0), e)
        done = True
        # denominators that contain no other inverse first
        for x in sorted(invs, key=lambda y: y.id):
            q = x.args[0]
            if not nonzero(ctx, q):
                continue
            k = invs[x]
            qp = poly(q, {}, ctx)
            pw = [Poly.const(1)]
            for _ in range(k):
                pw.append(Poly.mul(pw[-1], qp))
            r = {}
            for m, c in p.items():
                e = dict(m).get(x, 0)
                rest = tuple((y, f) for y, f in m if y is not x)
                r = Poly.add(r, Poly.mul({rest: c}, pw[k - e]))
                if len(r) > 60000:
                    raise TooBig()
            p = r
            done = False
            break
        if done:
            break
        p = align_sums(ctx, p)
    # squares of square roots
    for _ in range(4):
        r, ch = {}, False
        for m, c in p.items():
            hit = next(((x, e) for x, e in m if x.op == "sqrt" and e >= 2
                        and ctx.entails(ge(x.args[0], R0))), None)
            if hit is None:
                r = Poly.add(r, {m: c})
            else:
                x, e = hit
                rest = tuple((y, f if y is not x else f - 2) for y, f in m if y is not x or f > 2)
                r = Poly.add(r, Poly.mul({rest: c}, poly(x.args[0], {}, ctx)))
                ch = True
        p = r
        if not ch:
            break
    return p


def nonzero(ctx, q):
    if isc(q):
        return q.args != 0
    if ctx.entails(ne(q, R0)):
        return True
    if q.op == "prod":
        return all(nonzero(ctx, x) for x, _ in q.args)
    return False


def expand_sums(ctx, t):
    """sums whose body tests the bound variable are split at the tests"""
    def f(x):
        if x.op != "sum":
            return None
        return split_sum(ctx, x, 0)
    return replace(t, f)


def tests_of(c, bv, acc):
    if c.op == "not":
        tests_of(c.args[0], bv, acc)
    elif c.op in ("and", "or"):
        for x in c.args:
            tests_of(x, bv, acc)
    elif bv in c.fv:
        acc.add(c)


def zero_atoms(x):
    """atoms that vanish when the real term x does (x an atom or a sum of magnitudes)"""
    if x.op in ("sel", "v"):
        return [x]
    c, its = lin_parts(x)
    if c == 0 and its and all(k == its[0][1] or k > 0 and its[0][1] > 0 for _, k in its):
        if len(its) == 1 and its[0][0].op in ("sel", "v"):
            return [its[0][0]]
        if all(y.op == "abs" and y.args[0].op in ("sel", "v") for y, _ in its):
            return [y.args[0] for y, _ in its]
    return None


def zero_tests(t):
    """tests x == 0 over the reals that control ites of t, those of most atoms first"""
    acc = set()
    for x in subterms(t):
        if x.op == "ite":
            real_tests(x.args[0], acc)
    out = []
    for c in acc:
        zs = zero_atoms(c.args[0])
        if zs:
            out.append((c, zs))
    return sorted(out, key=lambda p: (-len(p[1]), p[0].id))


def real_tests(c, acc):
    if c.op == "not":
        real_tests(c.args[0], acc)
    elif c.op in ("and", "or"):
        for x in c.args:
            real_tests(x, acc)
    elif c.op == "eq0" and c.args[0].sort == "R":
        acc.add(c)


def same_val(x, y, depth=0):
    if x is y or not poly(sub(x, y), {}):
        return True
    if depth > 4:
        return False
    ts = zero_tests(x) or zero_tests(y)
    if not ts:
        return False
    c, zs = ts[0]
    z = {v: R0 for v in zs}
    at0 = lambda t: rewrite(assume_in(t, c, True), z)
    return same_val(at0(x), at0(y), depth + 1) and same_val(assume_in(x, c, False), assume_in(y, c, False), depth + 1)


def merge_zero(t):
    """a value with a special case for x == 0 that the general case covers is the general case"""
    for c, zs in zero_tests(t)[:6]:
        gen = assume_in(t, c, False)
        if inv_of(gen, zs):
            continue
        z = {v: R0 for v in zs}
        if same_val(rewrite(assume_in(t, c, True), z), rewrite(gen, z)):
            t = gen
    return t


def inv_of(t, zs):
    return any(x.op == "inv" and any(z in subterms(x) for z in zs) for x in subterms(t))


def split_sum(ctx, s, depth):
    if depth > 8 or s.op != "sum":
        return s
    lo, hi, b, body = s.args
    b2 = merge_zero(body)
    if b2 is not body:
        s = tsum(lo, hi, b, b2)
        if s.op != "sum":
            return s
        lo, hi, b, body = s.args
    v = var(b, "I")
    bv = (b, "I")
    ites = []
    acc, seen = [], set()
    stack = [body]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite" and bv in x.args[0].fv:
            ites.append(x.args[0])
        if x.op in ("lam", "sum", "forall"):
            continue
        stack.extend(children(x))
    atoms = set()
    for c in ites:
        tests_of(c, bv, atoms)
    for atom in sorted(atoms, key=lambda c: (len(subterms(c)), c.id)):
        if atom.op not in ("eq0", "le0") or atom.args[0].sort != "I":
            continue
        cst, its = lin_parts(atom.args[0])
        k = dict(its).get(v)
        if k not in (1, -1):
            continue
        rest = sub(atom.args[0], scale(k, v))
        if bv in rest.fv:
            continue
        e = scale(-k, rest)   # v == e  at equality
        bt = assume_in(body, atom, True)
        bf = assume_in(body, atom, False)
        if atom.op == "eq0":
            r = add(split_sum(ctx, tsum(lo, hi, b, bf), depth + 1),
                    ite(land(le(lo, e), lt(e, hi)), sub(subst(bt, {v: e}), subst(bf, {v: e})), R0))
            return ctx.simp(r)
        # le0: k*v + rest <= 0;  k=1: v <= e ; k=-1: v >= e
        if k == 1:
            cut = add(e, I1)
            first, second = bt, bf
        else:
            cut = e
            first, second = bf, bt
        cut = ctx.simp(ite(le(cut, lo), lo, ite(le(hi, cut), hi, cut)))
        r = add(split_sum(ctx, tsum(lo, cut, b, first), depth + 1), split_sum(ctx, tsum(cut, hi, b, second), depth + 1))
        return ctx.simp(r)
    return s


def assume_in(t, atom, val):
    nat = lnot(atom)

    def f(x):
        if x is atom:
            return bc(val)
        if x is nat:
            return bc(not val)
        return None
    return replace(t, f)


def align_sums(ctx, p):
    """rewrite sums over ranges that differ by a constant in one bound to a common range"""
    sums = {}
    for m in p:
        for x, e in m:
            if x.op == "sum":
                sums.setdefault(x.args[3], set()).add(x)
    rew = {}
    for body, ss in sums.items():
        if len(ss) < 2:
            continue
        ss = sorted(ss, key=lambda x: x.id)
        # empty sums
        live = []
        for x in ss:
            if ctx.entails(le(x.args[1], x.args[0])):
                rew[x] = R0
            else:
                live.append(x)
        base = None
        for x in live:
            if base is None:
                base = x
                continue
            r = shift_sum(ctx, x, base)
            if r is not None:
                rew[x] = r
    for body, ss in sums.items():
        for x in ss:
            if x not in rew and ctx.entails(le(x.args[1], x.args[0])):
                rew[x] = R0
    if not rew:
        return p
    out = {}
    for m, c in p.items():
        q = {(): c}
        for x, e in m:
            f = poly(rew[x], {}, ctx) if x in rew else {((x, 1),): Fraction(1)}
            for _ in range(e):
                q = Poly.mul(q, f)
        out = Poly.add(out, q)
    return out


def const_diff(ctx, d):
    for k in (0, 1, -1):
        if ctx.entails(eq(d, ic(k))):
            return ic(k)
    return d


def shift_sum(ctx, x, base):
    """x expressed through base (same body), or None"""
    lo, hi, b, body = x.args
    lo2, hi2, b2, _ = base.args
    v = var(b, "I")
    at = lambda j: subst(body, {v: j})
    dlo, dhi = sub(lo, lo2), sub(hi, hi2)
    r = base
    if not isc(dlo):
        dlo = const_diff(ctx, dlo)
    if not isc(dhi):
        dhi = const_diff(ctx, dhi)
    if not (isc(dlo) and isc(dhi)) or abs(dlo.args) > 3 or abs(dhi.args) > 3:
        # sums sharing one bound: x = base -+ the middle piece is left to the solver
        return None
    if dlo.args > 0:
        if not ctx.entails(le(lo, hi2)):
            return None
        for j in range(dlo.args):
            r = sub(r, at(add(lo2, ic(j))))
    elif dlo.args < 0:
        if not ctx.entails(le(lo2, hi2)):
            return None
        for j in range(-dlo.args):
            r = add(r, at(add(lo, ic(j))))
    if dhi.args > 0:
        if not ctx.entails(le(lo, hi2)):
            return None
        for j in range(dhi.args):
            r = add(r, at(add(hi2, ic(j))))
    elif dhi.args < 0:
        if not ctx.entails(le(lo, hi)):
            return None
        for j in range(-dhi.args):
            r = sub(r, at(add(hi, ic(j))))
    return r
