"""Contracts of the code around the solvers: stepping, integrating, iterators, builder, Jacobians."""
from fractions import Fraction as Q

import prove as pv
from contracts import Module
from dp5 import Integ, ROOT, G, CONT, g_
from mir import Unsupported
from term import *  # noqa: F401,F403
from ex import State, St, En, Ar, VA, Ref, View, Op, Fv, UNIT, leaves, with_leaves
from lib import EPS, INF

ALGS = ("DormandPrince5", "Radau5")
STEPS, CALLBACKS = ("G", "algorithm step"), ("G", "callback")


def same(a, b, skip=()):
    """two values have equal leaves"""
    x, y = dict(leaves(a)), dict(leaves(b))
    out = []
    for k in x:
        if any(k[:len(p)] == p for p in skip):
            continue
        if k not in y or isinstance(x[k], tuple) != isinstance(y[k], tuple):
            return FALSE
        if isinstance(x[k], tuple):
            if repr(x[k][1]) != repr(y[k][1]):
                return FALSE
            continue
        out.append(same_term(x[k], y[k]))
    return land(*out)


def same_term(x, y):
    if isinstance(x.sort, tuple):
        if x is y:
            return TRUE
        return mkforall(x.sort[1], lambda *i: eq(sel(x, *i), sel(y, *i)))
    return eq(x, y)


def havoc(v, keep=()):
    """a value of the same shape with unknown contents"""
    def f(k, t):
        if any(k[:len(p)] == p for p in keep):
            return t
        name = fresh("hv")
        if isinstance(t.sort, tuple):
            return av(name, t.sort[1], t.sort[2])
        return var(name, t.sort)
    return with_leaves(v, f)


class Around(Module):
    def integrator(self, alg, special=None):
        facts = []
        s = State()
        n = var("n", "I")
        v = self.w.symbolic("OdeIntegrator", "I", n, alg, facts, special)
        s.mem[ROOT] = v
        s.mem[STEPS] = I0
        s.mem[CALLBACKS] = I0
        s.facts = facts + [ge(n, I1), lt(n, ic(2 ** 30))]
        return s, v, n

    def fpath(self, f):
        order = self.w.structs["OdeIntegrator"]
        return (order.index(f),)


class Stepping(Around):
    NAME = "stepping"
    PROPS = {"C05", "C07", "C15", "C17", "C18"}

    def run(self, prop):
        for alg in ALGS:
            self.one_step(alg)
            self.integrate(alg)

    # -- OdeIntegrator::step
    def one_step(self, alg):
        w = self.w
        eng = w.engine(alg)
        s, v, n = self.integrator(alg)
        shots = {}

        def alg_step(e, st, vals, f):
            st = st.copy()
            r = vals[0]
            st.mem[STEPS] = add(st.mem[STEPS], I1)
            shots.setdefault("before", []).append((st, e.read(st, r.root, r.path)))
            # the solver does not touch what identifies the problem
            new = havoc(e.read(st, r.root, r.path), [self.fpath(k) for k in ("callback", "dudt", "dfdt", "dfdu", "alg")])
            shots.setdefault("after", []).append(new)
            e.write(st, r.root, r.path, new)
            return [(st, UNIT)]
        eng.call_spec[alg + "::step"] = alg_step

        def on_callback(st, ref):
            st = st.copy()
            st.mem[CALLBACKS] = add(st.mem[CALLBACKS], I1)
            cur = eng.read(st, ref.root, ref.path)
            shots.setdefault("seen", []).append((st, cur))
            new = havoc(cur)
            shots.setdefault("left", []).append(new)
            eng.write(st, ref.root, ref.path, new)
            return [(st, UNIT)]
        eng.on_callback = on_callback
        fn = eng.find("OdeIntegrator", "step")
        rets = eng.call_fn(s, fn, [Ref(ROOT)], 0)
        P = "step (%s): " % alg
        self.take(eng, prefix=P)
        I = Integ(w, v)
        going = eq(I["sol.retcode"].d, ic(CONT))
        some = eq(I.callback.d, I1)
        if len(shots.get("after", [])) != 1 or len(shots.get("left", [])) > 1:
            raise Unsupported("solver's step is called on several paths")
        after = shots["after"][0]
        seen = shots.get("seen", [])
        for st, cur in shots["before"]:
            self.add(P + "the solver steps from the current state", st.hyps(), land(going, same(cur, v)), ("C17", "C07", "C15"))
        for st, cur in seen:
            self.add(P + "callback runs only when registered, after the solver's step", st.hyps(),
                     land(going, some, eq(st.mem[STEPS], I1)), ("C17",))
            self.add(P + "callback sees the recorded result of the step", st.hyps(), same(cur, after), ("C17", "C05"))
        for x, r in rets:
            hy = x.hyps()
            add_ = lambda name, h, goal, *tags: self.add(P + name, h, goal, tags, x.taint)
            end = x.mem[ROOT]
            fin = Integ(w, end)
            add_("a finished integration is not touched", hy + [lnot(going)],
                 land(same(end, v), eq(x.mem[STEPS], I0), eq(x.mem[CALLBACKS], I0)), "C07", "C15", "C17")
            add_("one solver step while the status says continue", hy + [going], eq(x.mem[STEPS], I1), "C07", "C15", "C17")
            add_("the callback runs exactly once when registered", hy + [going],
                 eq(x.mem[CALLBACKS], ite(some, I1, I0)), "C17")
            add_("nothing changes after the solver's step without a callback", hy + [going, lnot(some)], same(end, after),
                 "C05", "C15", "C17")
            if seen:
                add_("nothing changes after the callback", hy + [going, some], same(end, shots["left"][0]), "C17")
            else:
                add_("the callback is called", hy + [going], lnot(some), "C17")
            add_("asks for more work exactly while the status says continue", hy,
                 eq(r.d, ite(eq(fin["sol.retcode"].d, ic(CONT)), I1, I0)), "C07", "C15")
            if 1 in r.p and len(r.p[1]) == 1:
                add_("reports the number of steps", hy, implies(eq(r.d, I1), eq(r.p[1][0], fin["stats.steps"])), "C15")

    def step_spec(self, shots):
        """contract of OdeIntegrator::step as used by its callers"""
        w = self.w

        def spec(e, st, vals, f):
            st = st.copy()
            r = vals[0]
            while isinstance(e.read(st, r.root, r.path), Ref):
                r = e.read(st, r.root, r.path)
            old = e.read(st, r.root, r.path)
            a = Integ(w, old)
            going = eq(a["sol.retcode"].d, ic(CONT))
            new = with_leaves(old, lambda k, t: t)
            hv = havoc(old, [self.fpath(k) for k in ("callback", "dudt", "dfdt", "dfdu", "alg")])
            d1, d2 = dict(leaves(old)), dict(leaves(hv))
            new = with_leaves(old, lambda k, t: t if t is d2[k] else ite(going, d2[k], t))
            b = Integ(w, new)
            st.mem[STEPS] = add(st.mem[STEPS], I1)
            e.write(st, r.root, r.path, new)
            more = eq(b["sol.retcode"].d, ic(CONT))
            h = Integ(w, hv)
            # proved for both solvers: a step adds one point and moves time, or adds none, keeps time and ends
            grew = eq(h["sol.ts"].dims[0], add(a["sol.ts"].dims[0], I1))
            st.fact(implies(going, lor(land(grew, ne(h.t, a.t)),
                                       land(eq(h["sol.ts"].dims[0], a["sol.ts"].dims[0]), eq(h.t, a.t),
                                            ne(h["sol.retcode"].d, ic(CONT))))))
            # proved for both solvers: while continuing the step count goes up and stays below the budget
            st.fact(implies(land(going, eq(h["sol.retcode"].d, ic(CONT))),
                            land(gt(h["stats.steps"], a["stats.steps"]), lt(h["stats.steps"], g_(a, "max_steps")),
                                 eq(g_(h, "max_steps"), g_(a, "max_steps")))))
            st.fact(land(ge(h["sol.retcode"].d, I0), lt(h["sol.retcode"].d, ic(7))))
            shots.append((st, old, new, more))
            return [(st, En("Option", ite(more, I1, I0), {1: (b["stats.steps"],)}))]
        return spec

    # -- integrate
    def integrate(self, alg):
        w = self.w
        eng = w.engine(alg)
        s, v, n = self.integrator(alg)
        shots = []
        eng.call_spec["OdeIntegrator::step"] = self.step_spec(shots)
        P = "integrate (%s): " % alg
        tops, backs = [], []

        class Hint:
            def inv(self_, e, entry, st, check, top=None):
                return []

            def variant(self_, e, top, back):
                tops.append(top)
                backs.append(back)
                a, b = Integ(w, top.mem[ROOT]), Integ(w, back.mem[ROOT])
                return [("the step budget left goes down",
                         land(lt(sub(g_(b, "max_steps"), b["stats.steps"]), sub(g_(a, "max_steps"), a["stats.steps"])),
                              gt(sub(g_(b, "max_steps"), b["stats.steps"]), I0))),
                        ("one step per pass", eq(back.mem[STEPS], add(top.mem[STEPS], I1)))]
        fn = eng.find("OdeIntegrator", "integrate")
        eng.loop_hints[eng.fname(fn)] = lambda e, f, fr, h, st: Hint()
        rets = eng.call_fn(s, fn, [Ref(ROOT)], 0)
        self.take(eng, tags_inv=("C07",), prefix=P)
        for x, _ in rets:
            fin = Integ(w, x.mem[ROOT])
            self.add(P + "ends with a status other than continue", x.hyps(), ne(fin["sol.retcode"].d, ic(CONT)), ("C07",), x.taint)
            last = [st for st in shots if same(st[2], x.mem[ROOT]) is TRUE]
            self.add(P + "ends right after a step", x.hyps(), bc(bool(last)), ("C07", "C05"), x.taint)
        self.assume.append("callbacks do not reset the step counter, the step budget or the status (termination of integrate)")


class Iterators(Stepping):
    NAME = "iterators"
    PROPS = {"C15", "C18"}

    def run(self, prop):
        for alg in ALGS:
            for typ, byref in (("OdeIntegratorIterator", False), ("OdeIntegratorMutIterator", True)):
                self.next(alg, typ, byref)
            self.into(alg)
        self.solution()

    def next(self, alg, typ, byref):
        w = self.w
        eng = w.engine(alg)
        s, v, n = self.integrator(alg)
        it = ("H", "it")
        s.mem[it] = St(typ, (Ref(ROOT),)) if byref else St(typ, (v,))
        shots = []
        eng.call_spec["OdeIntegrator::step"] = self.step_spec(shots)
        fn = eng.find(typ, "next")
        rets = eng.call_fn(s, fn, [Ref(it)], 0)
        P = "%s::next (%s): " % (typ, alg)
        self.take(eng, prefix=P)
        I = Integ(w, v)
        for x, r in rets:
            end = x.mem[ROOT] if byref else x.mem[it].f[0]
            b = Integ(w, end)
            hy = x.hyps()
            add_ = lambda name, goal: self.add(P + name, hy, goal, ("C15",), x.taint)
            add_("performs exactly one step", eq(x.mem[STEPS], I1))
            grew = eq(b["sol.ts"].dims[0], add(I["sol.ts"].dims[0], I1))
            add_("yields an item exactly when the step recorded a point", eq(r.d, ite(grew, I1, I0)))
            if r.p.get(1):
                t, u = r.p[1][0].f
                got = land(eq(t, b.t), eq(u.dims[0], b.u.dims[0]),
                           mkforall(1, lambda i: implies(land(ge(i, I0), lt(i, u.dims[0])), eq(sel(u.c, i), sel(b.u.c, i)))))
                add_("the item is the time and state reached", implies(eq(r.d, I1), got))
            add_("the integrator is left as the step left it", bc(any(same(z[2], end) is TRUE for z in shots)))

    def into(self, alg):
        w = self.w
        for typ, key in (("OdeIntegratorIterator", "OdeIntegrator"), ("OdeIntegratorMutIterator", "&OdeIntegrator")):
            eng = w.engine(alg)
            s, v, n = self.integrator(alg)
            fn = eng.find(key, "into_iter", "IntoIterator")
            rets = eng.call_fn(s, fn, [v if key[0] != "&" else Ref(ROOT)], 0)
            for x, r in rets:
                ok = r.tag == typ and len(r.f) == 1
                if key[0] == "&":
                    ok = ok and isinstance(r.f[0], Ref) and r.f[0].key() == (ROOT, ())
                    goal = land(bc(ok), same(x.mem[ROOT], v))
                else:
                    goal = same(r.f[0], v) if ok else FALSE
                self.add("into_iter of %s (%s): takes the integrator over unchanged" % (key, alg), x.hyps(), goal, ("C15",))
            self.take(eng, prefix="into_iter: ")

    def solution(self):
        w = self.w
        facts = []
        for key, typ in (("OdeSolution", "OdeSolutionIterator"), ("&OdeSolution", "OdeSolutionMutIterator")):
            eng = w.engine(None)
            facts = []
            root = ("H", "sol")
            v = w.symbolic("OdeSolution", "sol", var("n", "I"), None, facts)
            S = Integ(w, v)
            N = S.ts.dims[0]
            facts.append(eq(N, S.us.n))
            s = State()
            s.mem[root] = v
            s.facts = facts
            P = "%s: " % typ
            byref = key[0] == "&"
            fn = eng.find(key, "into_iter", "IntoIterator")
            rets = eng.call_fn(s, fn, [Ref(root) if byref else v], 0)
            self.take(eng, prefix=P)
            order = w.structs[typ]
            for x, r in rets:
                self.add(P + "starts at the first point", x.hyps(), bc(r.tag == typ) if r.tag != typ else land(
                    *[eq(part.f[1], I0) for part in r.f]), ("C15",))
                if byref:
                    okd = [isinstance(p.f[0], Ref) and p.f[0].root == root for p in r.f]
                    paths = [p.f[0].path for p in r.f]
                    want = [w.path("OdeSolution", "ts"), w.path("OdeSolution", "us")]
                    idx = [order.index("iter_t"), order.index("iter_u")]
                    self.add(P + "walks the recorded times and states", x.hyps(),
                             bc(all(okd) and [paths[i] for i in idx] == want), ("C15",))
                    self.add(P + "leaves the solution unchanged", x.hyps(), same(x.mem[root], v), ("C15",))
                else:
                    it, iu = r.f[order.index("iter_t")].f[0], r.f[order.index("iter_u")].f[0]
                    self.add(P + "walks the recorded times and states", x.hyps(), land(same(it, S.ts), same(iu, S.us)), ("C15",))
                # one call of next at position p
                p = var("p", "I")
                pos = ("H", "iter")
                y = x.copy()
                y.facts = y.facts + [ge(p, I0), le(p, N)]
                y.mem[pos] = St(typ, [St(z.tag, (z.f[0], p)) for z in r.f])
                eng2 = w.engine(None)
                for z, it in eng2.call_fn(y, eng2.find(typ, "next", "Iterator"), [Ref(pos)], 0):
                    hy = z.hyps()
                    self.add(P + "next yields while points are left, and then ends", hy, eq(it.d, ite(lt(p, N), I1, I0)), ("C15",))
                    if it.p.get(1):
                        t, u = it.p[1][0].f
                        if byref:
                            t, u = eng2.read(z, t.root, t.path), eng2.read(z, u.root, u.path)
                        good = land(eq(t, sel(S.ts.c, p)), eq(u.dims[0], sel(S.us.lens, p)),
                                    mkforall(1, lambda i: eq(sel(u.c, i), sel(S.us.c, p, i))))
                        self.add(P + "next yields the point at its position", hy, implies(eq(it.d, I1), good), ("C15",))
                    self.add(P + "next moves on by one", hy + [lt(p, N)],
                             land(*[eq(q.f[1], add(p, I1)) for q in z.mem[pos].f]), ("C15",))
                self.take(eng2, prefix=P)


BROOT = ("H", "B")
FLOATS = ("reltol", "abstol", "dtstart", "dtmax", "safe", "facr", "facl", "quot1", "quot2", "beta", "fnewt")
COUNTS = ("max_steps", "max_newt_iter", "max_stiff")
FLAGS = ("dense", "modern_pred", "use_ext_col", "hess")
FUNCS = ("dfdu", "dfdt", "callback")

# documented defaults (dopri5 and radau5)
COMMON = {"reltol": Q(1, 1000), "abstol": Q(1, 10 ** 7), "dense": False, "dtstart": Q(1, 10 ** 6), "dtmax": None,
          "max_steps": 100000, "max_newt_iter": 7, "max_stiff": 1000, "modern_pred": True, "safe": Q(9, 10),
          "quot1": Q(0), "quot2": Q(0), "fnewt": Q(0), "use_ext_col": True, "hess": False, "theta": Q(0)}
DEFAULTS = {
    "DormandPrince5": dict(COMMON, facr=Q(10), facl=Q(1, 5), beta=Q(1, 25)),
    "Radau5": dict(COMMON, facr=Q(1, 8), facl=Q(5), beta=Q(0), quot1=Q(1), quot2=Q(6, 5), theta=Q(1, 1000)),
}


class Builder(Module):
    NAME = "builder"
    PROPS = {"C05", "C06", "C09", "C10", "C14", "C16", "C18", "C19"}

    def run(self, prop):
        for alg in ALGS:
            if prop in ("C14", "C18"):
                self.setters(alg)
            self.default(alg)
            self.build(alg)

    def builder(self, alg):
        facts = []
        s = State()
        n = var("n", "I")
        v = self.w.symbolic("OdeIntegratorBuilder", "B", n, alg, facts)
        s.mem[BROOT] = v
        s.mem[G] = I0
        s.mem[("G", "dfdu")] = I0
        s.mem[("G", "dfdt")] = I0
        s.facts = facts + [ge(n, I1), lt(n, ic(2 ** 30))]
        return s, v, n

    def opt_path(self, f):
        return (self.w.structs["OdeIntegratorBuilder"].index("opts"), self.w.structs["OdeIntegratorOpts"].index(f))

    def fld(self, f):
        return (self.w.structs["OdeIntegratorBuilder"].index(f),)

    def setters(self, alg):
        w = self.w
        for name in FLOATS + COUNTS + FLAGS + FUNCS:
            eng = w.engine(alg)
            s, v, n = self.builder(alg)
            val = Fv(name + "'") if name in FUNCS else var("val", "R" if name in FLOATS else "I" if name in COUNTS else "B")
            fn = eng.find("OdeIntegratorBuilder", name)
            P = "builder %s (%s): " % (name, alg)
            for x, r in eng.call_fn(s, fn, [v, val], 0):
                if not isinstance(r, St) or r.tag != "OdeIntegratorBuilder":
                    raise Unsupported("setter %s returns %r" % (name, r))
                b = Integ(w, r)
                if name in FUNCS:
                    o = b[name]
                    ok = isinstance(o, En) and o.d is I1 and o.p[1][0] is val
                    self.add(P + "the given function is stored", x.hyps(), bc(ok), ("C14",))
                    skip = [self.fld(name)]
                else:
                    self.add(P + "the given value is stored under its name", x.hyps(), eq(b["opts." + name], val), ("C14",))
                    skip = [self.opt_path(name)]
                    if name == "dtstart":
                        self.add(P + "the starting step is the given one", x.hyps(), eq(b.dt, val), ("C14", "C09"))
                        skip.append(self.fld("dt"))
                self.add(P + "nothing else changes", x.hyps(), same(r, v, skip), ("C14",))
            self.take(eng, prefix=P)

    def default(self, alg):
        w = self.w
        eng = w.engine(alg)
        n = var("n", "I")
        s = State()
        s.facts = [ge(n, I1), lt(n, ic(2 ** 30))]
        u = Ar((n,), av("u0", 1, "R"))
        t0, t1 = var("t0", "R"), var("t1", "R")
        f, p = Fv("dudt"), Op(var("P", "U"))
        fn = eng.find("OdeIntegratorBuilder", "default")
        P = "builder default (%s): " % alg
        for x, r in eng.call_fn(s, fn, [f, u, St("tuple", (t0, t1)), St(alg, ()), p], 0):
            b = Integ(w, r)
            hy = x.hyps()
            add_ = lambda name, goal, *tags: self.add(P + name, hy, goal, tags or ("C14",))
            add_("problem data are taken over",
                 land(bc(b.dudt is f and b.params.t is p.t), eq(b.t, t0), eq(b.tfinal, t1), same(b.u, u)), "C14", "C05")
            add_("no Jacobian or callback is set", land(eq(b.dfdu.d, I0), eq(b.dfdt.d, I0), eq(b.callback.d, I0)))
            for k, d in DEFAULTS[alg].items():
                have = b["opts." + k]
                want = INF if d is None else bc(d) if isinstance(d, bool) else ic(d) if isinstance(d, int) else rc(d)
                add_("default of %s" % k, eq(have, want))
            add_("starting step is the default one", eq(b.dt, b["opts.dtstart"]), "C14", "C09")
        self.take(eng, prefix=P)

    def build(self, alg):
        w = self.w
        eng = w.engine(alg)
        s, v, n = self.builder(alg)
        a = Integ(w, v)
        o = lambda f: a["opts." + f]
        s.facts += [gt(o("reltol"), R0), gt(o("abstol"), R0), gt(o("dtmax"), R0),
                    gt(powf(o("reltol"), rc(Q(2, 3))), R0),
                    lt(o("max_newt_iter"), ic(2 ** 31)), ne(a.t, a.tfinal)]
        self.assume.append("builder: tolerances and dtmax positive, the time span is not empty, max_newt_iter below 2^31; "
                           "a power of a positive number is positive")
        fn = eng.find("OdeIntegratorBuilder", "build")
        P = "build (%s): " % alg
        rets = eng.call_fn(s, fn, [v], 0)
        self.take(eng, prefix=P)
        inn = lambda i: land(ge(i, I0), lt(i, n))
        q = lambda f: mkforall(1, f)
        for x, r in rets:
            b = Integ(w, r)
            hy = x.hyps()
            add_ = lambda name, goal, *tags, h=hy: self.add(P + name, h, goal, tags, x.taint)
            special = ("reltol", "abstol", "fnewt") if alg == "Radau5" else ()
            for f in w.structs["OdeIntegratorOpts"]:
                if f not in special:
                    add_("option %s is taken over" % f, eq(b["opts." + f], o(f)), "C14")
            if special:
                rt = scale(Q(1, 10), powf(o("reltol"), rc(Q(2, 3))))
                add_("relative tolerance is mapped", eq(b["opts.reltol"], rt), "C14")
                add_("the ratio of the tolerances is kept",
                     eq(mul(b["opts.abstol"], o("reltol")), mul(b["opts.reltol"], o("abstol"))), "C14")
                add_("a given Newton tolerance is kept", implies(gt(o("fnewt"), R0), eq(b["opts.fnewt"], o("fnewt"))), "C14")
                add_("otherwise a Newton tolerance is picked from the relative tolerance",
                     implies(le(o("fnewt"), R0), eq(b["opts.fnewt"], tmax(div(rc(10 * EPS), rt), tmin(rc(Q(3, 100)), sqrt(rt))))),
                     "C14")
            add_("problem data are taken over",
                 land(bc(repr((b.dudt, b.dfdu.p, b.dfdt.p, b.callback.p, b.params)) ==
                         repr((a.dudt, a.dfdu.p, a.dfdt.p, a.callback.p, a.params))),
                      eq(b.dfdu.d, a.dfdu.d), eq(b.dfdt.d, a.dfdt.d), eq(b.callback.d, a.callback.d),
                      eq(b.t, a.t), eq(b.tfinal, a.tfinal), same(b.u, a.u)), "C14", "C05", "C19")
            add_("one point is recorded", land(eq(b["sol.ts"].dims[0], I1), eq(b["sol.us"].n, I1)), "C05")
            add_("the recorded point is the initial one",
                 land(eq(sel(b["sol.ts"].c, I0), a.t), eq(sel(b["sol.us"].lens, I0), n),
                      q(lambda i: implies(inn(i), eq(sel(b["sol.us"].c, I0, i), sel(a.u.c, i))))), "C05")
            add_("previous time and state are the initial ones", land(eq(b.tprev, a.t), same(b.uprev, a.u)), "C05")
            add_("direction points to the final time",
                 eq(b.tdir, ite(gt(a.tfinal, a.t), R1, rc(-1))), "C06")
            add_("first step is the requested one, capped by the maximum, toward the final time",
                 eq(b.dt, mul(b.tdir, tmin(absv(a.dt), o("dtmax")))), "C09", "C06")
            add_("status is continue", eq(b["sol.retcode"].d, ic(CONT)), "C05", "C06")
            done = {"function_evals": sub(x.mem[G], s.mem[G]), "jacobian_evals": ic(1)}
            add_("statistics start with what building did", land(*[
                lor(eq(b["stats." + f], I0), land(ge(b["stats." + f], I0), le(b["stats." + f], done[f]))) if f in done else
                eq(b["stats." + f], I0) for f in w.structs["OdeStatistics"]]), "C16")
            rank = {}
            if alg == "Radau5":
                rank = {w.structs["Radau5Cache"].index("cont"): scale(4, n)}
            ci = w.structs["OdeIntegrator"].index("cache")
            dims = []
            for k, t in leaves(r):
                if len(k) > 1 and k[-2] == "dim" and k[0] != w.structs["OdeIntegrator"].index("sol"):
                    dims.append(eq(t, rank.get(k[1], n) if k[0] == ci else n))
            add_("arrays have the problem's dimension", land(*dims), "C18", "C19")
            if alg == "DormandPrince5":
                add_("invariant: marks are clear and the previous error is positive",
                     land(lnot(b["cache.last"]), lnot(b["cache.reject"]), gt(b["cache.facold"], R0)), "C06", "C09", "C10")
            else:
                add_("invariant: first step, fresh factors, no reject or last mark",
                     land(b["cache.first"], b["cache.decompose"], lnot(b["cache.last"]), lnot(b["cache.reject"])),
                     "C06", "C09")
                add_("error scale belongs to the initial state",
                     q(lambda i: implies(inn(i), eq(sel(b["cache.scal"].c, i),
                                                    add(b["opts.abstol"], mul(b["opts.reltol"], absv(sel(a.u.c, i))))))), "C09", "C05")
            # calls
            first = None
            for c in x.log:
                rngs = [land(le(lo, var(i, "I")), lt(var(i, "I"), hi)) for i, lo, hi in c.loops]
                h2 = hy + [c.guard] + rngs
                add_("calls are made at the initial time", eq(c.t, a.t), "C19", h=h2)
                add_("calls use the user's parameters", eq(c.params, a.params.t), "C19", h=h2)
                add_("calls get vectors of the problem's dimension", eq(c.n, n), "C19", "C18", h=h2)
                if c.kind == "dudt" and first is None and not c.loops:
                    first = c
            slope = b["cache.du"] if alg == "DormandPrince5" else b["cache.u0"]
            ok = first is not None and first.guard is TRUE
            add_("the derivative at the initial state is evaluated", bc(ok), "C10", "C09")
            if ok:
                add_("the stored derivative is the one at the initial time and state",
                     land(eq(first.t, a.t), q(lambda i: implies(inn(i), land(eq(sel(first.u, i), sel(a.u.c, i)),
                                                                             eq(sel(slope.c, i), sel(first.out, i)))))),
                     "C10", "C09")


class Jacobians(Module):
    NAME = "Jacobians"
    PROPS = {"C13", "C18", "C19"}

    def run(self, prop):
        for user in (True, False):
            self.state(user)
            self.time(user)

    def setup(self, rank):
        n = var("n", "I")
        s = State()
        s.facts = [ge(n, I1), lt(n, ic(2 ** 30))]
        u, df, p = ("H", "u"), ("H", "df"), ("H", "p")
        s.mem[u] = Ar((n,), av("u", 1, "R"))
        s.mem[df] = Ar((n,) * rank, av("df", rank, "R"))
        s.mem[p] = Op(var("P", "U"))
        for k in ("dudt", "dfdu", "dfdt"):
            s.mem[("G", k)] = I0
        return s, n, u, df, p

    def state(self, user):
        w = self.w
        eng = w.engine(None)
        s, n, u, df, p = self.setup(2)
        t = var("t", "R")
        opt = En("Option", I1, {1: (Fv("dfdu"),)}) if user else En("Option", I0, {})
        fn = eng.find(None, "jacobian_u")
        U = s.mem[u]
        rets = eng.call_fn(s, fn, [Fv("dudt"), opt, View(df, (), (I0, I0), (n, n)), View(u, (), (I0,), (n,)), t, Ref(p)], 0)
        P = "jacobian_u (%s): " % ("given" if user else "finite differences")
        self.take(eng, prefix=P)
        inn = lambda *i: land(*[land(ge(x, I0), lt(x, n)) for x in i])
        for x, _ in rets:
            hy = x.hyps()
            add_ = lambda name, goal, h=hy: self.add(P + name, h, goal, ("C13",), x.taint)
            D = x.mem[df]
            add_("the state is left unchanged", same(x.mem[u], U))
            self.common(P, x, hy, n, t, p, s)
            if user:
                add_("one call of the given Jacobian, nothing else",
                     bc(len(x.log) == 1 and x.log[0].kind == "dfdu" and not x.log[0].loops and x.log[0].guard is TRUE))
                if len(x.log) == 1:
                    c = x.log[0]
                    add_("asked at the requested point", land(eq(c.t, t), mkforall(1, lambda i: implies(inn(i), eq(sel(c.u, i), sel(U.c, i))))))
                    add_("values are used verbatim", mkforall(2, lambda i, j: implies(inn(i, j), eq(sel(D.c, i, j), sel(c.out, i, j)))))
                continue
            base = [c for c in x.log if not c.loops]
            pert = [c for c in x.log if c.loops]
            ok = len(base) == 1 and len(pert) == 1 and len(pert[0].loops) == 1 and base[0].guard is TRUE and pert[0].guard is TRUE
            add_("one base evaluation and one per variable", bc(ok))
            if not ok:
                continue
            b, c = base[0], pert[0]
            (iv, lo, hi) = c.loops[0]
            add_("one per variable", land(eq(lo, I0), eq(hi, n)))
            add_("base evaluation at the state", land(eq(b.t, t), mkforall(1, lambda i: implies(inn(i), eq(sel(b.u, i), sel(U.c, i))))))
            j, k = var(iv, "I"), None
            at = lambda tm_, jj: subst(tm_, {j: jj})
            delta = lambda jj: sub(sel(at(c.u, jj), jj), sel(U.c, jj))
            h2 = hy + [inn(j)]
            add_("perturbed evaluations at the same time", eq(c.t, t), h2)
            add_("only the variable itself is perturbed",
                 mkforall(1, lambda i: implies(land(inn(i), ne(i, j)), eq(sel(c.u, i), sel(U.c, i)))), h2)
            add_("the perturbation is positive", gt(delta(j), R0), h2)
            add_("entry (i,j) is the difference quotient of component i in variable j",
                 mkforall(1, lambda i: implies(inn(i), eq(mul(sel(D.c, i, j), delta(j)), sub(sel(at(c.out, j), i), sel(b.out, i))))), h2)
            self.size(add_, delta(j), sel(U.c, j), h2)

    def size(self, add_, d, at, hy):
        """the increment is small against the variable yet far above its rounding unit"""
        m = tmax(absv(at), rc(Q(1, 10 ** 5)))
        add_("the increment is at most a square root of the rounding unit in scale",
             le(mul(d, d), mul(rc(EPS), tmax(m, mul(m, m)))), hy)
        add_("the increment is far above the rounding unit of the variable",
             ge(d, mul(rc(Q(1, 2 ** 27)), absv(at))), hy)

    def common(self, P, x, hy, n, t, p, s):
        for c in x.log:
            rngs = [land(le(lo, var(i, "I")), lt(var(i, "I"), hi)) for i, lo, hi in c.loops]
            h2 = hy + [c.guard] + rngs
            self.add(P + "calls use the user's parameters", h2, eq(c.params, s.mem[p].t), ("C19", "C13"))
            self.add(P + "calls get vectors of the problem's dimension", h2, eq(c.n, n), ("C19", "C18", "C13"))

    def time(self, user):
        w = self.w
        eng = w.engine(None)
        s, n, u, df, p = self.setup(1)
        t = var("t", "R")
        opt = En("Option", I1, {1: (Fv("dfdt"),)}) if user else En("Option", I0, {})
        fn = eng.find(None, "jacobian_t")
        U = s.mem[u]
        rets = eng.call_fn(s, fn, [Fv("dudt"), opt, View(df, (), (I0,), (n,)), View(u, (), (I0,), (n,)), t, Ref(p)], 0)
        P = "jacobian_t (%s): " % ("given" if user else "finite differences")
        self.take(eng, prefix=P)
        inn = lambda *i: land(*[land(ge(x, I0), lt(x, n)) for x in i])
        for x, _ in rets:
            hy = x.hyps()
            add_ = lambda name, goal, h=hy: self.add(P + name, h, goal, ("C13",), x.taint)
            D = x.mem[df]
            add_("the state is left unchanged", same(x.mem[u], U))
            self.common(P, x, hy, n, t, p, s)
            atu = lambda c: mkforall(1, lambda i: implies(inn(i), eq(sel(c.u, i), sel(U.c, i))))
            cs = x.log
            if any(c.loops or c.guard is not TRUE for c in cs):
                add_("calls are determined", FALSE)
                continue
            if user:
                add_("one call of the given derivative, nothing else", bc(len(cs) == 1 and cs[0].kind == "dfdt"))
                if len(cs) == 1:
                    c = cs[0]
                    add_("asked at the requested point", land(eq(c.t, t), atu(c)))
                    add_("values are used verbatim", mkforall(1, lambda i: implies(inn(i), eq(sel(D.c, i), sel(c.out, i)))))
                continue
            add_("two evaluations", bc(len(cs) == 2))
            if len(cs) != 2:
                continue
            # the one at t is the base
            for c, e in ((cs[0], cs[1]), (cs[1], cs[0])):
                if eq(c.t, t) is TRUE:
                    break
            d = sub(e.t, t)
            add_("both at the state", land(atu(c), atu(e)))
            add_("one at the time itself", eq(c.t, t))
            add_("the perturbation is positive", gt(d, R0))
            add_("entries are difference quotients in time",
                 mkforall(1, lambda i: implies(inn(i), eq(mul(sel(D.c, i), d), sub(sel(e.out, i), sel(c.out, i))))))
            self.size(add_, d, t, hy)
