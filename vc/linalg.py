"""Contracts of the factorizations and triangular solves.

Ghost state: X is any vector, Y[k] the vector A X after the first k elimination steps.
dec keeps  Y[k+1] = step(Y[k], ip[k], column k)  and  Y[k][i] = sum_{j >= min(i,k)} a[i,j] X[j];
sol replays the steps, so that it turns A X into X.
"""
import prove as pv
from contracts import Module
from mir import Unsupported
from ode import same
from term import *  # noqa: F401,F403
from ex import State, St, Ar, Ref, View

GY = ("G", "Y")


class Cx:
    """a number given by its parts: one (real) or two (complex)"""
    __slots__ = ("p",)

    def __init__(self, *p):
        self.p = p

    def __add__(self, o):
        return Cx(*[add(x, y) for x, y in zip(self.p, o.p)])

    def __mul__(self, o):
        if len(self.p) == 1:
            return Cx(mul(self.p[0], o.p[0]))
        (a, b), (c, d) = self.p, o.p
        return Cx(sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c)))

    def eq(self, o):
        return land(*[eq(x, y) for x, y in zip(self.p, o.p)])

    def zero(self):
        return land(*[eq(x, R0) for x in self.p])

    def ite(self, c, o):
        return Cx(*[ite(c, x, y) for x, y in zip(self.p, o.p)])


def csum(lo, hi, f, parts):
    return Cx(*[mksum(lo, hi, lambda j: f(j).p[k]) for k in range(parts)])


class Shape:
    """which of the four variants"""

    def __init__(self, name, cplx, hess):
        self.parts, self.hess = (2 if cplx else 1), hess
        self.dec, self.sol = {"": ("dec", "sol"), "h": ("dech", "solh"), "c": ("decc", "solc"), "hc": ("dechc", "solhc")}[name]


SHAPES = {"": Shape("", False, False), "h": Shape("h", False, True), "c": Shape("c", True, False), "hc": Shape("hc", True, True)}


def weaken(h, drop):
    """h without the conjuncts to be dropped"""
    if h.op in ("and", "or"):
        return (land if h.op == "and" else lor)(*[weaken(x, drop) for x in h.args])
    return TRUE if drop(h) else h


class Lu(Module):
    NAME = "linear algebra"
    PROPS = {"C01", "C02", "C03", "C04", "C18"}
    USES = {"C01": ("",), "C02": ("c",), "C03": ("h", "hc"), "C04": ("", "c", "h", "hc"), "C18": ("", "c", "h", "hc")}

    def run(self, prop):
        for k in self.USES[prop]:
            sh = SHAPES[k]
            tag = {"": "C01", "c": "C02", "h": "C03", "hc": "C03"}[k]
            self.dec(sh, tag)
            self.lemmas(sh, tag, "C04")
            if prop != "C04":
                self.sol(sh, tag)

    # -- helpers over array terms
    def arrays(self, st, sh):
        return [st.mem[("H", "a%d" % k)].c for k in range(sh.parts)]

    def at(self, arrs, *i):
        return Cx(*[sel(x, *i) for x in arrs])

    def step(self, Y, m, A, k, i, sh):
        """elimination step k applied to the vector Y(.)"""
        p = Y(i).ite(lnot(lor(eq(i, k), eq(i, m))), Y(m).ite(eq(i, k), Y(k)))
        pk = Y(m)
        return (p + self.at(A, i, k) * pk).ite(lt(k, i), p)

    def dec(self, sh, tag):
        w = self.w
        eng = w.engine(None)
        n = var("n", "I")
        s = State()
        s.facts = [ge(n, I1), lt(n, ic(2 ** 30))]
        P = sh.dec + ": "
        X = [av("X%d" % k, 1, "R") for k in range(sh.parts)]
        A0 = [av("A%d" % k, 2, "R") for k in range(sh.parts)]
        ip = ("H", "ip")
        args = [n]
        for k in range(sh.parts):
            s.mem[("H", "a%d" % k)] = Ar((n, n), A0[k])
            args.append(View(("H", "a%d" % k), (), (I0, I0), (n, n)))
        lb = None
        if sh.hess:
            lb = var("lb", "I")
            s.facts += [ge(lb, I1), le(lb, n)]
            s.facts.append(mkforall(2, lambda i, j: implies(
                land(ge(j, I0), lt(i, n), gt(i, add(j, lb))), self.at(A0, i, j).zero())))
            args.append(lb)
        s.mem[ip] = Ar((n,), av("ip", 1, "I"))
        args.append(View(ip, (), (I0,), (n,)))
        inn = lambda *i: land(*[land(ge(x, I0), lt(x, n)) for x in i])
        for q in range(sh.parts):
            ys = mklam(2, lambda k, i: csum(I0, n, lambda j: self.at(A0, i, j) * self.at(X, j), sh.parts).p[q])
            s.mem[GY + (q,)] = Ar((n, n), ys)
        mod = self

        class Hint:
            ghosts = [GY + (q,) for q in range(sh.parts)]

            def pos(self_, e, st):
                return e.range_header(self_.fn, self_.fr, self_.h, st)[1]

            def Y(self_, st, k):
                return lambda i: Cx(*[sel(st.mem[g].c, k, i) for g in self_.ghosts])

            def advance(self_, e, top, st):
                k = self_.pos(e, top)
                A = mod.arrays(st, sh)
                ipc = st.mem[ip].c
                new = []
                for q, g in enumerate(self_.ghosts):
                    old = top.mem[g].c
                    new.append(mklam(2, lambda kk, i: ite(eq(kk, add(k, I1)), mod.step(
                        self_.Y(top, k), sel(ipc, k), A, k, i, sh).p[q], sel(old, kk, i))))
                for g, c in zip(self_.ghosts, new):
                    st.mem[g] = Ar((n, n), c)

            def inv(self_, e, entry, st, check, top=None):
                k = self_.pos(e, st)
                A = mod.arrays(st, sh)
                ipc = st.mem[ip].c
                AX0 = lambda i: csum(I0, n, lambda j: mod.at(A0, i, j) * mod.at(X, j), sh.parts)
                out = [("stage number in range", land(ge(k, I0), le(k, sub(n, I1)))),
                       ("arrays keep their size", land(eq(st.mem[ip].dims[0], n), *[eq(d, n) for q in range(sh.parts)
                                                       for d in st.mem[("H", "a%d" % q)].dims])),
                       ("ghost start is the given matrix times X", mkforall(1, lambda i: implies(inn(i), self_.Y(st, I0)(i).eq(AX0(i))))),
                       ("earlier steps are recorded in the factors",
                        mkforall(2, lambda kk, i: implies(land(ge(kk, I0), lt(kk, k), inn(i)), self_.Y(st, add(kk, I1))(i).eq(
                            mod.step(self_.Y(st, kk), sel(ipc, kk), A, kk, i, sh))))),
                       ("the reduced system is equivalent",
                        mkforall(1, lambda i: implies(inn(i), self_.Y(st, k)(i).eq(
                            csum(ite(lt(i, k), i, k), n, lambda j: mod.at(A, i, j) * mod.at(X, j), sh.parts))))),
                       ("the sign entry is one or minus one",
                        lor(eq(sel(ipc, sub(n, I1)), I1), eq(sel(ipc, sub(n, I1)), ic(-1)))),
                       ("earlier pivots are non-zero",
                        mkforall(1, lambda kk: implies(land(ge(kk, I0), lt(kk, k)), lnot(mod.at(A, kk, kk).zero())))),
                       ("pivot rows are at or below the diagonal",
                        mkforall(1, lambda kk: implies(land(ge(kk, I0), lt(kk, k)), land(le(kk, sel(ipc, kk)), lt(sel(ipc, kk), n))))),
                       ]
                if sh.parts == 1:
                    out.append(("multipliers are at most one in magnitude",
                                mkforall(2, lambda i, kk: implies(land(ge(kk, I0), lt(kk, k), lt(kk, i), lt(i, n)),
                                                                  le(absv(sel(A[0], i, kk)), R1)))))
                if sh.hess:
                    out.append(("entries below the band are zero",
                                mkforall(2, lambda i, j: implies(land(ge(j, I0), lt(i, n), gt(i, add(j, lb))), mod.at(A, i, j).zero()))))
                return out
        tops = []

        def hint(e, f, fr, h, st):
            if f.loop_depth[h] != 1:
                return None
            x = Hint()
            x.fn, x.fr, x.h = f, fr, h
            tops.append(x)
            return x
        fn = eng.find(None, sh.dec)
        eng.loop_hints[eng.fname(fn)] = hint
        rets = eng.call_fn(s, fn, args, 0)
        self.take(eng, tags_inv=(tag, "C04"), prefix=P)
        ghosts = [GY + (q,) for q in range(sh.parts)]
        for x, r in rets:
            hy = x.hyps()
            A = self.arrays(x, sh)
            ipc = x.mem[ip].c
            Y = lambda k: (lambda i: Cx(*[sel(x.mem[g].c, k, i) for g in ghosts]))
            ok = hy + [eq(r, I0)]
            bad = hy + [ne(r, I0)]
            add_ = lambda name, h, goal, *tags: self.add(P + name, h, goal, tags, x.taint)
            last = sub(n, I1)
            add_("success means every pivot is non-zero", ok,
                 mkforall(1, lambda k: implies(inn(k), lnot(self.at(A, k, k).zero()))), tag, "C04")
            add_("success: the steps recorded in the factors reproduce the elimination", ok,
                 mkforall(2, lambda k, i: implies(land(ge(k, I0), lt(k, last), inn(i)), Y(add(k, I1))(i).eq(
                     self.step(Y(k), sel(ipc, k), A, k, i, sh)))), tag)
            add_("success: the upper factor times X is the reduced right-hand side", ok,
                 mkforall(1, lambda i: implies(inn(i), Y(last)(i).eq(
                     csum(i, n, lambda j: self.at(A, i, j) * self.at(X, j), sh.parts)))), tag)
            add_("success: pivot rows are at or below the diagonal", ok,
                 mkforall(1, lambda k: implies(land(ge(k, I0), lt(k, last)), land(le(k, sel(ipc, k)), lt(sel(ipc, k), n)))), tag)
            if sh.parts == 1:
                add_("success: no stored multiplier exceeds one", ok,
                     mkforall(2, lambda i, k: implies(land(ge(k, I0), lt(k, i), lt(i, n)), le(absv(sel(A[0], i, k)), R1))), tag)
            if sh.hess:
                add_("success: factors are zero below the band", ok,
                     mkforall(2, lambda i, j: implies(land(ge(j, I0), lt(i, n), gt(i, add(j, lb))), self.at(A, i, j).zero())), tag)
            add_("a failure report is a stage number", bad, land(ge(r, I1), le(r, n)), "C04")
            k = sub(r, I1)
            add_("failure: the whole pivot column is zero at the reported stage", bad,
                 mkforall(1, lambda i: implies(land(le(k, i), lt(i, n)), self.at(A, i, k).zero())), "C04")
            add_("failure: pivots of earlier stages are non-zero", bad,
                 mkforall(1, lambda q: implies(land(ge(q, I0), lt(q, k)), lnot(self.at(A, q, q).zero()))), "C04")
            add_("failure: the reduced system is equivalent", bad,
                 mkforall(1, lambda i: implies(inn(i), Y(k)(i).eq(
                     csum(ite(lt(i, k), i, k), n, lambda j: self.at(A, i, j) * self.at(X, j), sh.parts)))), "C04")
        self.dec_exits = len(rets)

    def sol(self, sh, tag):
        """with X given and b = A X it returns X; with any b it returns what the factors map to b"""
        for given in (True, False):
            self.solve(sh, tag, given)

    def solve(self, sh, tag, given):
        w = self.w
        eng = w.engine(None)
        n = var("n", "I")
        s = State()
        P = sh.sol + ": "
        X = [av("X%d" % k, 1, "R") for k in range(sh.parts)]
        A = [av("a%d" % k, 2, "R") for k in range(sh.parts)]
        Yg = [av("Y%d" % k, 2, "R") for k in range(sh.parts)]
        ip, ipc = ("H", "ip"), av("ip", 1, "I")
        inn = lambda *i: land(*[land(ge(x, I0), lt(x, n)) for x in i])
        last = sub(n, I1)
        Y = lambda k: (lambda i: self.at(Yg, k, i))
        # what the factorization guarantees
        s.facts = [ge(n, I1), lt(n, ic(2 ** 30)),
                   mkforall(1, lambda k: implies(inn(k), lnot(self.at(A, k, k).zero()))),
                   mkforall(1, lambda k: implies(land(ge(k, I0), lt(k, last)), land(le(k, sel(ipc, k)), lt(sel(ipc, k), n)))),
                   mkforall(2, lambda k, i: implies(land(ge(k, I0), lt(k, last), inn(i)), Y(add(k, I1))(i).eq(
                       self.step(Y(k), sel(ipc, k), A, k, i, sh))))]
        steps = s.facts[-1]
        if given:
            s.facts.append(mkforall(1, lambda i: implies(inn(i), Y(last)(i).eq(
                csum(i, n, lambda j: self.at(A, i, j) * self.at(X, j), sh.parts)))))
        else:
            P += "any right-hand side: "
        args = [n]
        for k in range(sh.parts):
            s.mem[("H", "a%d" % k)] = Ar((n, n), A[k])
            args.append(View(("H", "a%d" % k), (), (I0, I0), (n, n)))
        lb = None
        if sh.hess:
            lb = var("lb", "I")
            s.facts += [ge(lb, I1), le(lb, n),
                        mkforall(2, lambda i, j: implies(land(ge(j, I0), lt(i, n), gt(i, add(j, lb))), self.at(A, i, j).zero()))]
            args.append(lb)
        B0 = []
        for k in range(sh.parts):
            b = av("b%d" % k, 1, "R")
            B0.append(b)
            s.mem[("H", "b%d" % k)] = Ar((n,), b)
            args.append(View(("H", "b%d" % k), (), (I0,), (n,)))
        s.mem[ip] = Ar((n,), ipc)
        args.append(View(ip, (), (I0,), (n,)))
        # the right-hand side is the matrix times X, or any vector
        s.facts.append(mkforall(1, lambda i: implies(inn(i), self.at(B0, i).eq(Y(I0)(i)))))
        mod = self

        def cur(st):
            return [st.mem[("H", "b%d" % k)].c for k in range(sh.parts)]

        def forget(st, hs):
            """only the vector the steps led to matters from here on, not how it came about"""
            now = set().union(*[pv.avs_in(y) for y in cur(st)])
            return [weaken(h, lambda y: y is steps or any(z.startswith("hb") and z not in now for z in pv.avs_in(y))) for h in hs]

        class Fwd:
            def inv(self_, e, entry, st, check, top=None):
                k = e.range_header(self_.fn, self_.fr, self_.h, st)[1]
                return [("step number in range", land(ge(k, I0), le(k, last))),
                        ("right-hand side after k steps", mkforall(1, lambda i: implies(inn(i), mod.at(cur(st), i).eq(Y(k)(i)))))]

        class Bwd:
            def inv(self_, e, entry, st, check, top=None):
                k = e.range_header(self_.fn, self_.fr, self_.h, st)[1]
                kb = sub(last, k)
                if not given:
                    if not check:
                        st.facts, st.pc = forget(st, st.facts), forget(st, st.pc)
                    row = lambda lo, i: csum(lo, n, lambda j: mod.at(A, i, j) * mod.at(cur(st), j), sh.parts)
                    new, done = add(kb, I1), lambda f: mkforall(1, lambda i: implies(land(f(i), lt(i, n)), row(i, i).eq(Y(last)(i))))
                    # the same statement; to be shown row by row
                    solved = [("the newest row is solved", implies(lt(new, n), row(new, new).eq(Y(last)(new)))),
                              ("older rows stay solved", done(lambda i: lt(new, i)))] if check else \
                             [("rows already solved", done(lambda i: lt(kb, i)))]
                    return solved + [("step number in range", land(ge(k, I0), le(k, last))),
                            ("rows still to solve", mkforall(1, lambda i: implies(land(ge(i, I0), le(i, kb)), Y(last)(i).eq(
                                mod.at(cur(st), i) + row(add(kb, I1), i)))))]
                return [("step number in range", land(ge(k, I0), le(k, last))),
                        ("components already solved", mkforall(1, lambda i: implies(land(lt(kb, i), lt(i, n)),
                                                                                    mod.at(cur(st), i).eq(mod.at(X, i))))),
                        ("components still to solve", mkforall(1, lambda i: implies(land(ge(i, I0), le(i, kb)), mod.at(cur(st), i).eq(
                            csum(i, add(kb, I1), lambda j: mod.at(A, i, j) * mod.at(X, j), sh.parts)))))]
        seen = []

        def hint(e, f, fr, h, st):
            if f.loop_depth[h] != 1:
                return None
            if h not in [y[0] for y in seen]:
                seen.append((h, Fwd() if not seen else Bwd()))
            x = dict(seen)[h]
            x.fn, x.fr, x.h = f, fr, h
            return x
        fn = eng.find(None, sh.sol)
        eng.loop_hints[eng.fname(fn)] = hint
        rets = eng.call_fn(s, fn, args, 0)
        self.take(eng, tags_inv=(tag,), prefix=P)
        for x, r in rets:
            hy = x.hyps()
            b = cur(x)
            if not given:
                hy = forget(x, hy)
                row = lambda i: csum(i, n, lambda j: self.at(A, i, j) * self.at(b, j), sh.parts)
                self.add(P + "the upper factor maps the result to the reduced right-hand side", hy, land(
                    row(I0).eq(Y(last)(I0)), mkforall(1, lambda i: implies(land(lt(I0, i), lt(i, n)), row(i).eq(Y(last)(i))))), (tag,), x.taint)
                continue
            self.add(P + "returns the solution", hy, mkforall(1, lambda i: implies(inn(i), self.at(b, i).eq(self.at(X, i)))),
                     (tag,), x.taint)
            self.add(P + "factors are left unchanged", hy,
                     land(*[same(x.mem[("H", "a%d" % k)], s.mem[("H", "a%d" % k)]) for k in range(sh.parts)],
                          same(x.mem[ip], s.mem[ip])), (tag,), x.taint)

    def lemmas(self, sh, *tags):
        """what links the contracts to the statements: steps can be undone, so equal reduced vectors mean equal vectors; a zero
        pivot column under non-zero pivots gives a vector that is not zero and is mapped to zero"""
        n, k, m, q = var("n", "I"), var("k", "I"), var("m", "I"), var("q", "I")
        arrs = lambda name, d: [av("%s%d" % (name, x), d, "R") for x in range(sh.parts)]
        A, U, V, X = arrs("A", 2), arrs("U", 1), arrs("V", 1), arrs("X", 1)
        inn = lambda i: land(ge(i, I0), lt(i, n))
        P = "lemma (%s): " % sh.dec
        base = [ge(n, I1), ge(k, I0), lt(k, sub(n, I1)), le(k, m), lt(m, n)]
        vec = lambda W: (lambda i: self.at(W, i))
        same_after = mkforall(1, lambda i: implies(inn(i), self.step(vec(U), m, A, k, i, sh).eq(self.step(vec(V), m, A, k, i, sh))))
        self.add(P + "vectors that agree after an elimination step agree before it", base + [same_after],
                 mkforall(1, lambda i: implies(inn(i), self.at(U, i).eq(self.at(V, i)))), tags, internal=True)
        # back substitution: rows q .. k-1 are mapped to zero, row q-1 is made so by choosing component q-1
        row = lambda W, i: csum(i, add(k, I1), lambda j: self.at(A, i, j) * self.at(W, j), sh.parts)
        one = Cx(*([R1] + [R0] * (sh.parts - 1)))
        r = sub(q, I1)
        piv, rest = self.at(A, r, r), csum(q, add(k, I1), lambda j: self.at(A, r, j) * self.at(X, j), sh.parts)
        if sh.parts == 1:
            new = Cx(neg(div(rest.p[0], piv.p[0])))
        else:
            (a, b), (c, d) = rest.p, piv.p
            den = add(mul(c, c), mul(d, d))
            new = Cx(neg(div(add(mul(a, c), mul(b, d)), den)), neg(div(sub(mul(b, c), mul(a, d)), den)))
        W = [mklam(1, lambda i, x=x: ite(eq(i, r), new.p[x], sel(X[x], i))) for x in range(sh.parts)]
        hy = [ge(n, I1), ge(k, I0), lt(k, n), ge(r, I0), lt(r, k), lnot(piv.zero()), self.at(X, k).eq(one),
              mkforall(1, lambda i: implies(land(le(q, i), lt(i, k)), self.at(V, i).eq(row(X, i))))]
        self.add(P + "back substitution makes one more row vanish and keeps the values of the others", hy, land(
            self.at(W, k).eq(one), row(W, r).zero(), mkforall(1, lambda i: implies(land(le(q, i), lt(i, k)), self.at(V, i).eq(row(W, i))))),
            tags, internal=True)
