"""Contract of the explicit solver's step and of the functions it is made of."""
from fractions import Fraction as Q

import prove as pv
from contracts import Module
from mir import Unsupported
from term import *  # noqa: F401,F403
from ex import State, St, En, Ar, VA, Ref, View, Op, Fv, Call, leaves
from lib import EPS, Nan

ROOT = ("H", "I")
G = ("G", "dudt")
CONT, SUCC, MAXIT, DTMIN, STIFF, SINGULAR, FAIL = range(7)

# Dormand & Prince (1980), as published; independent of the constants in the code
C = [Q(0), Q(1, 5), Q(3, 10), Q(4, 5), Q(8, 9), Q(1), Q(1)]
A = [[],
     [Q(1, 5)],
     [Q(3, 40), Q(9, 40)],
     [Q(44, 45), Q(-56, 15), Q(32, 9)],
     [Q(19372, 6561), Q(-25360, 2187), Q(64448, 6561), Q(-212, 729)],
     [Q(9017, 3168), Q(-355, 33), Q(46732, 5247), Q(49, 176), Q(-5103, 18656)],
     [Q(35, 384), Q(0), Q(500, 1113), Q(125, 192), Q(-2187, 6784), Q(11, 84)]]
B = A[6] + [Q(0)]
BHAT = [Q(5179, 57600), Q(0), Q(7571, 16695), Q(393, 640), Q(-92097, 339200), Q(187, 2100), Q(1, 40)]
E = [b - bh for b, bh in zip(B, BHAT)]


class Integ:
    """named access to an integrator value"""

    def __init__(self, w, v):
        self.w, self.v = w, v

    def __getattr__(self, f):
        return self.get(f)

    def get(self, path):
        return self.w.field(self.v, path)

    def __getitem__(self, path):
        return self.get(path)


def opts_pre(I):
    """documented ranges of the options"""
    o = I.opts
    g = lambda f: I.get("opts." + f)
    return [gt(g("reltol"), R0), gt(g("abstol"), R0), gt(g("dtmax"), R0), gt(g("safe"), R0), lt(g("safe"), R1)]


def frame_state(w, alg, n, special=None):
    facts = []
    s = State()
    v = w.symbolic("OdeIntegrator", "I", n, alg, facts, special)
    s.mem[ROOT] = v
    s.mem[G] = I0
    s.mem[("G", "dfdu")] = I0
    s.mem[("G", "dfdt")] = I0
    s.facts = facts + [ge(n, I1), lt(n, ic(2 ** 30))]
    I = Integ(w, v)
    s.facts += [eq(I["sol.ts"].dims[0], I["sol.us"].n), ge(I["sol.ts"].dims[0], I1)]
    s.facts += [lor(eq(I.tdir, R1), eq(I.tdir, rc(-1)))]
    return s, v


class RetryHint:
    """invariant of the explicit solver's retry loop"""

    def __init__(self, mod, s0):
        self.mod, self.w, self.s0 = mod, mod.w, s0

    def inv(self, eng, entry, s, check, top=None):
        I0_, I = Integ(self.w, entry.mem[ROOT]), Integ(self.w, s.mem[ROOT])
        out = [
            ("step keeps the direction", gt(mul(I.dt, I.tdir), R0)),
            ("step never grows while retrying", le(absv(I.dt), absv(I0_.dt))),
            ("step ends before or at the final time", le(mul(sub(add(I.t, I.dt), I.tfinal), I.tdir), R0)),
            ("a step marked last ends at the final time", implies(I["cache.last"], eq(I.dt, sub(I.tfinal, I.t)))),
            ("a step not marked last ends before the final time",
             implies(lnot(I["cache.last"]), lt(mul(sub(add(I.t, I.dt), I.tfinal), I.tdir), R0))),
            ("evaluations are counted", eq(sub(I["stats.function_evals"], s.mem[G]),
                                           sub(I0_["stats.function_evals"], entry.mem[G]))),
            ("after a rejection the reject mark is set",
             lor(I["cache.reject"], land(eq(I.dt, I0_.dt), eq(I["cache.last"], I0_["cache.last"])))),
            ("counters do not go down", land(ge(I["stats.function_evals"], I0_["stats.function_evals"]),
                                             ge(I["stats.rejects"], I0_["stats.rejects"]))),
        ]
        return out

    def facts(self, eng, entry, st):
        I = Integ(self.w, st.mem[ROOT])
        return [lt(I["stats.function_evals"], ic(2 ** 62)), lt(I["stats.rejects"], ic(2 ** 62))]

    def variant(self, eng, top, back):
        self.mod.top, self.mod.backs = top, self.mod.backs + [back]
        return []


class Dp5Step(Module):
    NAME = "explicit step"
    PROPS = {"C05", "C06", "C07", "C08", "C09", "C10", "C12", "C15", "C16", "C17", "C18", "C19"}

    def run(self, prop):
        w = self.w
        eng = w.engine("DormandPrince5")
        n = var("n", "I")
        s, v = frame_state(w, "DormandPrince5", n)
        I = Integ(w, v)
        g = lambda f: I.get("opts." + f)
        s.facts += [gt(g("reltol"), R0), gt(g("abstol"), R0), gt(g("dtmax"), R0), gt(g("safe"), R0), lt(g("safe"), R1),
                    gt(g("facl"), R0), lt(g("facl"), R1), ge(g("facr"), R1), ge(g("beta"), R0), lt(g("beta"), rc(Q(4, 15))),
                    gt(mul(I.dt, I.tdir), R0), le(absv(I.dt), g("dtmax")),
                    lt(mul(sub(I.t, I.tfinal), I.tdir), R0),
                    gt(I["cache.facold"], R0), eq(I["sol.retcode"].d, ic(CONT)),
                    lnot(I["cache.last"]), lnot(I["cache.reject"])]
        self.assume.append("explicit solver: options in their documented ranges (tolerances, dtmax > 0; 0 < safe < 1; "
                           "0 < facl < 1 <= facr; 0 <= beta < 4/15); the final time is not yet reached")
        rets = self.execute(eng, s)
        inv_tags = ("C06", "C07", "C08", "C09", "C10", "C15", "C16", "C19")
        self.take(eng, tags_inv=inv_tags, prefix="explicit step: ")
        if self.top is None or len(self.heads) != 1:
            raise Unsupported("retry loop not found")
        self.before(s, self.heads[0], n)
        for x, _ in rets:
            self.post(eng, s, x, n)
        for x in self.backs:
            self.rejected(self.top, x, n)
        self.tableau()
        if prop in ("C07", "C08"):
            self.not_a_number(s, n)

    def execute(self, eng, s):
        fn = eng.find("DormandPrince5", "step", "OdeAlgorithm")
        self.top, self.backs, self.heads = None, [], []

        def hint(e, f, fr, h, st):
            if f.loop_depth[h] == 1 and e.range_header(f, fr, h, st) is None:
                self.heads.append(st)
                return RetryHint(self, s)
            return None
        eng.loop_hints[eng.fname(fn)] = hint
        return eng.call_fn(s, fn, [Ref(ROOT)], 0)

    def not_a_number(self, s, n):
        """one component of every stage evaluated in the attempt is infinite or not a number"""
        w = self.w
        eng = w.engine("DormandPrince5")
        j = var("jnan", "I")
        eng.nan = Nan(j, lambda st, kind: True)
        s = s.copy()
        s.facts = s.facts + [ge(j, I0), lt(j, n)]
        eng.nan.learn(s.facts)
        rets = self.execute(eng, s)
        P = "explicit step, estimate not finite: "
        self.take(eng, tags_panic=(), tags_inv=("C07", "C08"), prefix=P)
        self.assume.append("runs about values that are not finite: one component of the stages (explicit) or of the right-hand side's "
                           "values or the error estimate (implicit) is infinite or not a number, values from before the attempt are numbers")
        a = Integ(w, s.mem[ROOT])
        add_ = lambda name, x, goal: self.add(P + name, x.hyps(), goal, ("C07", "C08"), x.taint, internal=True)
        for x, _ in rets:
            b = Integ(w, x.mem[ROOT])
            add_("nothing is accepted", x, eq(b["sol.ts"].dims[0], a["sol.ts"].dims[0]))
            add_("ends as step too small", x, eq(b["sol.retcode"].d, ic(DTMIN)))
        A = Integ(w, self.top.mem[ROOT])
        for x in self.backs:
            b = Integ(w, x.mem[ROOT])
            add_("time and state are untouched", x,
                 land(eq(b.t, A.t), mkforall(1, lambda i: implies(land(ge(i, I0), lt(i, n)), eq(sel(b.u.c, i), sel(A.u.c, i))))))
            add_("retried with a step smaller by the smallest factor", x, eq(b.dt, mul(A.dt, g_(A, "facl"))))
            add_("no longer marked as the last step", x, lnot(b["cache.last"]))

    def post(self, eng, s, x, n):
        a, b = Integ(self.w, s.mem[ROOT]), Integ(self.w, x.mem[ROOT])
        hy = x.hyps()
        ts0, ts1, us0, us1 = a["sol.ts"], b["sol.ts"], a["sol.us"], b["sol.us"]
        grew = eq(ts1.dims[0], add(ts0.dims[0], I1))
        same = eq(ts1.dims[0], ts0.dims[0])
        acc = hy + [grew]
        rej = hy + [lnot(grew)]
        P = "explicit step: "
        add_ = lambda name, h, goal, *tags: self.add(P + name, h, goal, tags, x.taint)
        N0 = ts0.dims[0]
        q = lambda f: mkforall(1, f)
        # recorded trajectory
        add_("one state per time", hy, eq(ts1.dims[0], us1.n), "C05")
        add_("at most one point is added", hy, lor(grew, same), "C05", "C08", "C15")
        add_("earlier times are not altered", hy,
             q(lambda i: implies(land(ge(i, I0), lt(i, N0)), eq(sel(ts1.c, i), sel(ts0.c, i)))), "C05", "C08")
        add_("earlier states are not altered", hy,
             mkforall(2, lambda i, j: implies(land(ge(i, I0), lt(i, N0), ge(j, I0), lt(j, n)),
                                              eq(sel(us1.c, i, j), sel(us0.c, i, j)))), "C05", "C08")
        add_("earlier state lengths are not altered", hy,
             q(lambda i: implies(land(ge(i, I0), lt(i, N0)), eq(sel(us1.lens, i), sel(us0.lens, i)))), "C05")
        add_("the new point is the current time", acc, eq(sel(ts1.c, N0), b.t), "C05")
        inn = lambda i: land(ge(i, I0), lt(i, n))
        add_("the new point is the current state", acc,
             q(lambda i: implies(inn(i), eq(sel(us1.c, N0, i), sel(b.u.c, i)))), "C05")
        add_("the new point has the problem's dimension", acc, eq(sel(us1.lens, N0), n), "C05")
        add_("previous time is where the step started", acc, eq(b.tprev, a.t), "C05", "C10")
        add_("previous state is where the step started", acc,
             q(lambda i: implies(inn(i), eq(sel(b.uprev.c, i), sel(a.u.c, i)))), "C05", "C10")
        # a step that did not succeed
        add_("failed step leaves time alone", rej, eq(b.t, a.t), "C05", "C07", "C08", "C15")
        add_("failed step leaves the state alone", rej,
             q(lambda i: implies(inn(i), eq(sel(b.u.c, i), sel(a.u.c, i)))), "C05", "C07", "C08")
        add_("failed step reports step too small", rej, eq(b["sol.retcode"].d, ic(DTMIN)), "C07", "C06", "C15")
        add_("failed step counts no accepted step", rej,
             land(eq(b["stats.accepts"], a["stats.accepts"]), eq(b["stats.steps"], a["stats.steps"])), "C16")
        add_("step too small is only reported for a step within rounding of the time", rej,
             le(absv(b.dt), tmax(mul(absv(b.t), rc(EPS)), rc(Q(1, 2 ** 1022)))), "C07")
        # time
        h = b.dtprev
        add_("time advances by the step length", acc, eq(b.t, add(a.t, h)), "C06", "C10", "C15")
        add_("time moves toward the final time", acc, gt(mul(h, a.tdir), R0), "C06", "C15")
        add_("no step passes the final time", acc, le(mul(sub(b.t, a.tfinal), a.tdir), R0), "C06", "C19")
        succ = eq(b["sol.retcode"].d, ic(SUCC))
        add_("success means the final time is reached", hy, implies(succ, land(eq(b.t, a.tfinal))), "C06", "C07")
        add_("reaching the final time means success", hy, implies(eq(b.t, a.tfinal), succ), "C06", "C07")
        add_("direction and final time are not altered", hy, land(eq(b.tdir, a.tdir), eq(b.tfinal, a.tfinal)), "C06", "C17")
        # status
        budget = ge(b["stats.steps"], g_(a, "max_steps"))
        add_("status after a performed step", acc,
             eq(b["sol.retcode"].d, ite(eq(b.t, a.tfinal), ic(SUCC), ite(budget, ic(MAXIT), ic(CONT)))), "C07", "C15")
        add_("steps are counted", acc, eq(b["stats.steps"], add(a["stats.steps"], I1)), "C16", "C07", "C15")
        # what the loop relies on next time
        add_("invariant: step keeps the direction", acc,
             lor(eq(b.t, a.tfinal), gt(mul(b.dt, b.tdir), R0)), "C06", "C09", "C07")
        add_("invariant: step within the maximum", acc, le(absv(b.dt), g_(a, "dtmax")), "C09")
        add_("invariant: no reject or last mark while continuing", hy,
             implies(eq(b["sol.retcode"].d, ic(CONT)), land(lnot(b["cache.reject"]), lnot(b["cache.last"]))),
             "C06", "C09", "C10")
        add_("invariant: previous error is positive", acc, gt(b["cache.facold"], R0), "C09")
        add_("options are not altered", hy, same_opts(self.w, a, b), "C14", "C09", "C08", "C17", "C15")
        add_("parameters are not altered", hy, eq(b.params.t, a.params.t), "C19", "C17")
        add_("arrays keep the problem's dimension", hy,
             land(*[eq(t, n) for k_, t in leaves(x.mem[ROOT]) if len(k_) > 1 and k_[-2] == "dim" and k_[0] != 14]), "C18", "C19")
        # calls
        self.calls(s, x, a, b, n, acc, rej)
        self.counts(s, x, a, b, hy, acc)

    def attempt_calls(self, log, hyps):
        """calls certainly made on this path, in order; None when one cannot be decided"""
        ctx = pv.Ctx([h for h in hyps if h.op != "forall"])
        out = []
        for c in log:
            if c.loops:
                return None
            k = c.guard if isc(c.guard) else ctx.decide(c.guard)
            if k is TRUE:
                out.append(c)
            elif k is None:
                return None
        return out

    def calls(self, s, x, a, b, n, acc, rej):
        if pv.Ctx([f for f in acc if f.op != "forall"]).check(timeout=5000)[0] == pv.z3.unsat:
            return
        self.attempt("accepted attempt", self.top, x, acc, b.dtprev, b.u.c, b.tprev, n)
        P = "explicit step: "
        add_ = lambda name, h, goal, *tags: self.add(P + name, h, goal, tags, x.taint)
        inn = lambda i: land(ge(i, I0), lt(i, n))
        q = lambda f: mkforall(1, f)
        T = Integ(self.w, self.top.mem[ROOT])
        if self.cs is not None and len(self.cs) == 6:
            last = self.cs[5]
            add_("last stage is evaluated at the new time and state", acc,
                 land(eq(last.t, b.t), q(lambda i: implies(inn(i), eq(sel(last.u, i), sel(b.u.c, i))))), "C10")
            add_("last stage becomes the first stage of the next step", acc,
                 q(lambda i: implies(inn(i), eq(sel(b["cache.du"].c, i), sel(last.out, i)))), "C10")
        e = self.err(a, b["cache.uerr"].c, a.u.c, b.u.c, n)
        add_("an accepted step has scaled error within one", acc, le(e, R1), "C08")
        # controller
        h = b.dtprev
        o = lambda f: g_(a, f)
        expo = sub(rc(Q(1, 5)), scale(Q(3, 4), o("beta")))
        f11 = powf(e, expo)
        fac = tmax(inv(o("facr")), tmin(inv(o("facl")), div(div(f11, powf(a["cache.facold"], o("beta"))), o("safe"))))
        d0 = div(h, fac)
        d1 = ite(gt(absv(d0), o("dtmax")), mul(a.tdir, o("dtmax")), d0)
        d2 = ite(T["cache.reject"], mul(a.tdir, tmin(absv(d1), absv(h))), d1)
        add_("next step follows the documented law", acc, eq(b.dt, d2), "C09")
        add_("stored error is the step's error, floored", acc, eq(b["cache.facold"], tmax(e, rc(Q(1, 10000)))), "C09")
        add_("next step keeps the direction", acc, gt(mul(b.dt, a.tdir), R0), "C09", "C06")
        add_("next step is at most the maximum", acc, le(absv(b.dt), o("dtmax")), "C09")
        add_("next step grows at most by the largest factor", acc, le(absv(b.dt), mul(o("facr"), absv(h))), "C09")
        add_("next step shrinks at most by the smallest factor", acc,
             ge(absv(b.dt), tmin(o("dtmax"), mul(o("facl"), absv(h)))), "C09")
        add_("no growth right after a rejection", acc, implies(T["cache.reject"], le(absv(b.dt), absv(h))), "C09")
        add_("the step taken is the current step or what is left", acc,
             lor(T["cache.reject"], eq(h, a.dt), eq(h, sub(a.tfinal, a.t))), "C09", "C06")
        # monotone in the error: with a larger error the law gives no larger step
        e2, p2 = var("err2", "R"), None
        p2 = powf(e2, expo)
        fac2 = tmax(inv(o("facr")), tmin(inv(o("facl")), div(div(p2, powf(a["cache.facold"], o("beta"))), o("safe"))))
        mono = [ge(e2, e), ge(e, R0), ge(p2, f11)]
        add_("a larger error gives no larger step (power monotone)", acc + mono, ge(fac2, fac), "C09")
        self.dense(x, a, b, n, acc)

    def err(self, a, uerr, u0, u1, n):
        """root mean square of the scaled error, as the property states it"""
        return sqrt(div(mksum(I0, n, lambda i: self.sq(div(sel(uerr, i), add(g_(a, "abstol"), mul(
            g_(a, "reltol"), tmax(absv(sel(u0, i)), absv(sel(u1, i)))))))), i2r(n)))

    @staticmethod
    def sq(x):
        return mul(x, x)

    cs = None

    def attempt(self, what, top, x, hyps, h, unew, t0, n):
        """the stages of one attempt: from the state at the loop head to state x, with step h"""
        P = "explicit step, %s: " % what
        add_ = lambda name, hy, goal, *tags: self.add(P + name, hy, goal, tags, x.taint)
        T = Integ(self.w, top.mem[ROOT])
        X = Integ(self.w, x.mem[ROOT])
        inn = lambda i: land(ge(i, I0), lt(i, n))
        q = lambda f: mkforall(1, f)
        self.cs = None
        for c in x.log:
            hh = hyps + [c.guard] + [land(le(lo, var(i, "I")), lt(var(i, "I"), hi)) for i, lo, hi in c.loops]
            add_("calls use the user's parameters", hh, eq(c.params, T.params.t), "C19")
            add_("calls get vectors of the problem's dimension", hh, eq(c.n, n), "C19", "C18")
            add_("calls happen between the start and the end of the step", hh,
                 land(ge(mul(sub(c.t, T.t), T.tdir), R0), le(mul(sub(c.t, add(T.t, T.dt)), T.tdir), R0)), "C19")
        add_("attempt uses the step at the loop head", hyps, eq(h, T.dt), "C10", "C06", "C08")
        cs = self.attempt_calls(x.log, hyps)
        if cs is None:
            self.add(P + "calls are determined", hyps, FALSE, ("C10", "C16", "C19"), ("calls depend on data",))
            return
        cs = [c for c in cs if c.kind == "dudt"]
        add_("six evaluations, the first stage is kept", hyps, bc(len(cs) == 6), "C10")
        if len(cs) != 6:
            return
        self.cs = cs
        k = [T["cache.du"].c] + [c.out for c in cs]
        for m in range(1, 7):
            c = cs[m - 1]
            add_("stage %d is evaluated at its time" % (m + 1), hyps, eq(c.t, add(T.t, scale(C[m], h))), "C10", "C19")
            add_("stage %d is evaluated at its state" % (m + 1), hyps,
                 q(lambda i: implies(inn(i), eq(sel(c.u, i), add(sel(T.u.c, i), mul(h, addn(
                     [R0] + [scale(A[m][j], sel(k[j], i)) for j in range(m)], "R")))))), "C10")
        add_("new state is the fifth-order combination", hyps,
             q(lambda i: implies(inn(i), eq(sel(unew, i), add(sel(T.u.c, i), mul(h, addn(
                 [R0] + [scale(B[j], sel(k[j], i)) for j in range(7)], "R")))))), "C10")
        add_("error estimate is the published difference", hyps,
             q(lambda i: implies(inn(i), eq(sel(X["cache.uerr"].c, i), mul(h, addn(
                 [R0] + [scale(E[j], sel(k[j], i)) for j in range(7)], "R"))))), "C10", "C08")
        self.k = k

    def counts(self, s, x, a, b, hy, acc):
        P = "explicit step: "
        T = Integ(self.w, self.top.mem[ROOT])
        add_ = lambda name, h, goal, *tags: self.add(P + name, h, goal, tags, x.taint)
        add_("evaluations are counted", hy,
             eq(sub(b["stats.function_evals"], a["stats.function_evals"]), sub(x.mem[G], s.mem[G])), "C16")
        add_("accepted steps are counted", acc, eq(b["stats.accepts"], add(a["stats.accepts"], I1)), "C16")
        add_("an accepted attempt counts no rejection", hy, eq(b["stats.rejects"], T["stats.rejects"]), "C16")
        add_("no Jacobian is evaluated or counted", hy,
             land(eq(b["stats.jacobian_evals"], a["stats.jacobian_evals"]), eq(x.mem[("G", "dfdu")], I0),
                  eq(x.mem[("G", "dfdt")], I0)), "C16")
        add_("no factorization or linear solve is counted", hy,
             land(eq(b["stats.decompositions"], a["stats.decompositions"]),
                  eq(b["stats.linear_solves"], a["stats.linear_solves"])), "C16")

    def dense(self, x, a, b, n, acc):
        """continuous extension after the accepted step"""
        P = "explicit dense output: "
        eng = self.w.engine("DormandPrince5")
        fn = eng.find("DormandPrince5", "dense_output")
        th = var("theta", "R")
        h = b.dtprev
        st = x.copy()
        st.pc = list(acc) + [g_(a, "dense")]
        hy = st.hyps()
        out = None
        for st2, v in eng.call_fn(st, fn, [Ref(ROOT), add(a.t, mul(th, h)), h], 1):
            if out is not None:
                raise Unsupported("dense output branches")
            out = v
        self.take(eng, prefix=P)
        add_ = lambda name, goal, *tags: self.add(P + name, hy, goal, tags, x.taint)
        q = lambda f: mkforall(1, f)
        inn = lambda i: land(ge(i, I0), lt(i, n))
        at = lambda tv, i: subst(sel(out.c, i), {th: tv})
        add_("has the problem's dimension", eq(out.dims[0], n), "C12")
        add_("start of the step gives the old state", q(lambda i: implies(inn(i), eq(at(R0, i), sel(a.u.c, i)))), "C12")
        add_("end of the step gives the new state", q(lambda i: implies(inn(i), eq(at(R1, i), sel(b.u.c, i)))), "C12")
        # degree four in theta: equal to its interpolation polynomial, which has a derivative in closed form
        nodes = [Q(0), Q(1), Q(1, 2), Q(-1), Q(2)]

        def lag(tv, i):
            r = R0
            for m, xm in enumerate(nodes):
                w_ = R1
                for l, xl in enumerate(nodes):
                    if l != m:
                        w_ = mul(w_, scale(1 / (xm - xl), sub(tv, rc(xl))))
                r = add(r, mul(w_, at(rc(xm), i)))
            return r

        def dlag(t0, i):
            r = R0
            for m, xm in enumerate(nodes):
                d = Q(0)
                for l, xl in enumerate(nodes):
                    if l == m:
                        continue
                    pr = 1 / (xm - xl)
                    for k, xk in enumerate(nodes):
                        if k not in (m, l):
                            pr *= (t0 - xk) / (xm - xk)
                    d += pr
                r = add(r, scale(d, at(rc(xm), i)))
            return r
        add_("is a polynomial of degree four over the step", q(lambda i: implies(inn(i), eq(at(th, i), lag(th, i)))), "C12")
        if self.cs is None:
            return
        k1, k7 = self.k[0], self.k[6]
        add_("has the right derivative at the start", q(lambda i: implies(inn(i), eq(dlag(Q(0), i), mul(h, sel(k1, i))))), "C12")
        add_("has the right derivative at the end", q(lambda i: implies(inn(i), eq(dlag(Q(1), i), mul(h, sel(k7, i))))), "C12")
        # right-hand sides that are polynomials in time: every stage is the polynomial at its node
        pw = lambda y, d: muln(*[y] * d) if d else R1
        j0 = var("i0", "I")
        here = acc + [ne(h, R0), land(ge(j0, I0), lt(j0, n))]

        ctx = pv.Ctx([c for c in here + [g_(a, "dense")] if c.op != "forall"])
        dense_val, new_val = ctx.simp(at(th, j0)), pv.Ctx([c for c in here if c.op != "forall"]).simp(sel(b.u.c, j0))

        def stages(deg):
            ps = [var("p%d" % d, "R") for d in range(deg + 1)]
            f = lambda tv: addn([R0] + [mul(ps[d], pw(tv, d)) for d in range(deg + 1)], "R")
            F = lambda tv: addn([R0] + [scale(Q(1, d + 1), mul(ps[d], pw(tv, d + 1))) for d in range(deg + 1)], "R")
            m = {}
            for j, kk in enumerate(self.k):
                for v in free_avs(kk):
                    m[v] = mklam(1, lambda i, j=j: f(add(a.t, scale(C[j], h))))
            return m, F
        m, F = stages(3)
        self.add(P + "reproduces solutions of degree four", here + [g_(a, "dense")],
                 eq(subst_av(dense_val, m), add(sel(a.u.c, j0), sub(F(add(a.t, mul(th, h))), F(a.t)))), ("C12",), x.taint)
        m, F = stages(4)
        self.add("explicit step: right-hand sides of degree four in time are integrated exactly", here,
                 eq(subst_av(new_val, m), add(sel(a.u.c, j0), sub(F(b.t), F(a.t)))), ("C10",), x.taint)

    def rejected(self, top, x, n):
        """one pass through the retry loop that does not leave it"""
        P = "explicit step, rejected attempt: "
        T, X = Integ(self.w, top.mem[ROOT]), Integ(self.w, x.mem[ROOT])
        hy = x.hyps()
        self.attempt("rejected attempt", top, x, hy, X.dtprev, X["cache.unew"].c, X.t, n)
        add_ = lambda name, goal, *tags: self.add(P + name, hy, goal, tags, x.taint)
        e = self.err(T, X["cache.uerr"].c, T.u.c, X["cache.unew"].c, n)
        o = lambda f: g_(T, f)
        q = lambda f: mkforall(1, f)
        inn = lambda i: land(ge(i, I0), lt(i, n))
        add_("scaled error exceeds one", lnot(le(e, R1)), "C08")
        add_("time and state are untouched", land(eq(X.t, T.t), q(lambda i: implies(inn(i), eq(sel(X.u.c, i), sel(T.u.c, i))))),
             "C08", "C05")
        add_("recorded solution is untouched",
             land(eq(X["sol.ts"].dims[0], T["sol.ts"].dims[0]), eq(X["sol.us"].n, T["sol.us"].n),
                  q(lambda i: eq(sel(X["sol.ts"].c, i), sel(T["sol.ts"].c, i))),
                  mkforall(2, lambda i, j: eq(sel(X["sol.us"].c, i, j), sel(T["sol.us"].c, i, j)))), "C08", "C05")
        add_("first stage is kept", q(lambda i: implies(inn(i), eq(sel(X["cache.du"].c, i), sel(T["cache.du"].c, i)))), "C10")
        add_("previous time and state are kept",
             land(eq(X.tprev, T.tprev), q(lambda i: implies(inn(i), eq(sel(X.uprev.c, i), sel(T.uprev.c, i))))), "C05")
        add_("retried in the same direction", gt(mul(X.dt, X.tdir), R0), "C08", "C09")
        add_("retried with a strictly smaller step", lt(absv(X.dt), absv(T.dt)), "C08", "C07")
        add_("retried with a step smaller by at least the safety or smallest factor",
             le(absv(X.dt), mul(tmax(o("safe"), o("facl")), absv(T.dt))), "C07")
        expo = sub(rc(Q(1, 5)), scale(Q(3, 4), o("beta")))
        add_("retry step follows the documented law",
             eq(X.dt, div(T.dt, tmin(inv(o("facl")), div(powf(e, expo), o("safe"))))), "C09")
        add_("rejection is counted from the first accepted step on",
             eq(X["stats.rejects"], add(T["stats.rejects"], ite(ge(T["stats.accepts"], I1), I1, I0))), "C16")
        add_("no accepted step is counted", land(eq(X["stats.accepts"], T["stats.accepts"]),
                                                 eq(X["stats.steps"], T["stats.steps"])), "C16")
        add_("evaluations are counted", eq(sub(X["stats.function_evals"], T["stats.function_evals"]),
                                           sub(x.mem[G], top.mem[G])), "C16")
        add_("status is unchanged", eq(X["sol.retcode"].d, T["sol.retcode"].d), "C07")

    def before(self, s, e, n):
        """from the call of step to the first attempt"""
        P = "explicit step, before the first attempt: "
        a, b = Integ(self.w, s.mem[ROOT]), Integ(self.w, e.mem[ROOT])
        add_ = lambda name, h, goal, *tags: self.add(P + name, h, goal, tags, e.taint)
        hy = e.hyps()
        q = lambda f: mkforall(1, f)
        inn = lambda i: land(ge(i, I0), lt(i, n))
        some = eq(a.callback.d, I1)
        cs = self.attempt_calls(e.log, hy + [some])
        none = self.attempt_calls(e.log, hy + [lnot(some)])
        ok = cs is not None and len(cs) == 1
        add_("with a callback the first stage is evaluated afresh", hy + [some], bc(ok), "C17", "C10")
        if ok:
            c = cs[0]
            h1 = hy + [some]
            add_("the fresh first stage belongs to the current time and state", h1,
                 land(eq(c.t, a.t), q(lambda i: implies(inn(i), eq(sel(c.u, i), sel(a.u.c, i))))), "C17", "C10", "C19")
            add_("the fresh first stage is used", h1, q(lambda i: implies(inn(i), eq(sel(b["cache.du"].c, i), sel(c.out, i)))),
                 "C17", "C10")
            add_("calls use the user's parameters", h1, eq(c.params, a.params.t), "C19")
            add_("calls get vectors of the problem's dimension", h1, eq(c.n, n), "C19", "C18")
        add_("without a callback nothing is evaluated", hy + [lnot(some)], bc(none is not None and len(none) == 0), "C10", "C16")
        add_("without a callback the first stage is kept", hy + [lnot(some)],
             q(lambda i: implies(inn(i), eq(sel(b["cache.du"].c, i), sel(a["cache.du"].c, i)))), "C10")
        add_("time and state are untouched", hy,
             land(eq(b.t, a.t), q(lambda i: implies(inn(i), eq(sel(b.u.c, i), sel(a.u.c, i))))), "C05", "C17", "C10")
        add_("step is the current one, or what is left when close to the final time", hy,
             eq(b.dt, ite(gt(mul(sub(add(a.t, scale(Q(101, 100), a.dt)), a.tfinal), a.tdir), R0), sub(a.tfinal, a.t), a.dt)),
             "C06", "C17", "C09")

    def tableau(self):
        """the published coefficients are what the property says: order conditions for quadrature"""
        for d in range(5):
            got = sum(b * c ** d for b, c in zip(B, C))
            self.add("published tableau: quadrature order condition %d" % d, [], bc(got == Q(1, d + 1)), ("C10",))
        for m in range(7):
            self.add("published tableau: row %d sums to its node" % (m + 1), [], bc(sum(A[m]) == C[m]), ("C10",))
        got = [sum(e * c ** d for e, c in zip(E, C)) for d in range(4)]
        self.add("published tableau: the embedded estimate vanishes up to degree three", [], bc(all(x == 0 for x in got)), ("C10",))


def subst_av(t, m):
    """replace whole arrays by lambdas"""
    def f(x):
        if x.op == "sel" and x.args[0] in m:
            return sel(m[x.args[0]], *[replace(y, f) for y in x.args[1:]])
        return None
    return replace(t, f)


def g_(I, f):
    return I.get("opts." + f)


def same_opts(w, a, b):
    x, y = dict(leaves(a.opts)), dict(leaves(b.opts))
    return land(*[eq(x[k], y[k]) for k in x])
