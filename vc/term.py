"""Hash-consed terms over reals, integers, booleans and arrays, with light normalisation.

Sums are kept as linear combinations of non-sum terms and products as sorted factor lists, so that
syntactic identity already decides most index arithmetic. Arrays are functions of integer tuples
(`av` symbol, `store`, `lam`); `sel` reduces. Bound variables are named by binder height, which
makes alpha-equivalent terms identical.
"""
from fractions import Fraction
import itertools


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "h", "memo")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        # not the address: sets are to be walked in the same order on every run
        return self.id


_table = {}
_ids = itertools.count()
_fresh = itertools.count()
EMPTY = frozenset()


def reset():
    pass


def _mk(op, args, sort, fv=None, h=0):
    key = (op, sort, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t.fv = fv if fv is not None else EMPTY
        t.h = h
        t.memo = None
        _table[key] = t
    return t


def _fvh(ts):
    fv, h = EMPTY, 0
    for t in ts:
        if t.fv and not t.fv <= fv:
            fv = fv | t.fv
        if t.h > h:
            h = t.h
    return fv, h


def fresh(prefix):
    return "%s!%d" % (prefix, next(_fresh))


# ---- constants and variables
def rc(x):
    return _mk("c", Fraction(x), "R")


def ic(x):
    return _mk("c", int(x), "I")


TRUE = _mk("c", True, "B")
FALSE = _mk("c", False, "B")


def bc(x):
    return TRUE if x else FALSE


R0, R1, I0, I1 = rc(0), rc(1), ic(0), ic(1)


def var(name, sort):
    return _mk("v", name, sort, frozenset([(name, sort)]))


def app(name, sort, *args):
    fv, h = _fvh(args)
    return _mk("f", (name,) + args, sort, fv, h)


def isc(t):
    return t.op == "c"


# ---- arithmetic
def lin_parts(t):
    if t.op == "c":
        return t.args, ()
    if t.op == "lin":
        return t.args
    return 0, ((t, 1),)


def mk_lin(const, items, sort):
    items = tuple((t, c) for t, c in items if c != 0)
    if not items:
        return rc(const) if sort == "R" else ic(const)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items = tuple(sorted(items, key=lambda p: p[0].id))
    fv, h = _fvh([t for t, _ in items])
    return _mk("lin", (const, items), sort, fv, h)


def addn(ts, sort):
    const, d = 0, {}
    for t in ts:
        c, its = lin_parts(t)
        const += c
        for x, k in its:
            d[x] = d.get(x, 0) + k
    return mk_lin(const, d.items(), sort)


def add(*ts):
    assert all(t.sort == ts[0].sort for t in ts), ts
    return addn(ts, ts[0].sort)


def scale(k, t):
    c, its = lin_parts(t)
    return mk_lin(c * k, [(x, y * k) for x, y in its], t.sort)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def prod_parts(t):
    """(constant, ((factor, exponent), ...))"""
    if t.op == "c":
        return t.args, ()
    if t.op == "prod":
        return 1, t.args
    if t.op == "lin" and t.args[0] == 0 and len(t.args[1]) == 1:
        x, c = t.args[1][0]
        return c, (x.args if x.op == "prod" else ((x, 1),))
    return 1, ((t, 1),)


def mul(a, b):
    assert a.sort == b.sort, (a, b)
    ca, fa = prod_parts(a)
    cb, fb = prod_parts(b)
    c = ca * cb
    if c == 0:
        return rc(0) if a.sort == "R" else ic(0)
    if not fa:
        return scale(ca, b)
    if not fb:
        return scale(cb, a)
    d = {}
    for x, e in fa + fb:
        d[x] = d.get(x, 0) + e
    items = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))
    if not items:
        p = R1 if a.sort == "R" else I1
    elif len(items) == 1 and items[0][1] == 1:
        p = items[0][0]
    else:
        fv, h = _fvh([x for x, _ in items])
        p = _mk("prod", items, a.sort, fv, h)
    return scale(c, p)


def muln(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = mul(r, t)
    return r


def inv(t):
    assert t.sort == "R"
    if t.op == "c":
        if t.args == 0:
            return app("inv0", "R")
        return rc(Fraction(1) / t.args)
    c, fs = prod_parts(t)
    if c != 1 or t.op == "prod":
        r = rc(Fraction(1) / c)
        for x, e in fs:
            ix = inv(x)
            for _ in range(e):
                r = mul(r, ix)
        return r
    if t.op == "inv":
        return t.args[0]
    return _mk("inv", (t,), "R", t.fv, t.h)


def div(a, b):
    return mul(a, inv(b))


def i2r(t):
    if t.op == "c":
        return rc(t.args)
    if t.op == "lin":
        c, its = t.args
        return addn([rc(c)] + [scale(k, i2r(x)) for x, k in its], "R")
    if t.op == "prod":
        r = R1
        for x, e in t.args:
            for _ in range(e):
                r = mul(r, i2r(x))
        return r
    if t.op == "ite":
        return ite(t.args[0], i2r(t.args[1]), i2r(t.args[2]))
    return _mk("i2r", (t,), "R", t.fv, t.h)


def _un(op, t, sort=None):
    return _mk(op, (t,), sort or t.sort, t.fv, t.h)


def absv(t):
    if t.op == "c":
        return rc(abs(t.args)) if t.sort == "R" else ic(abs(t.args))
    if t.op == "abs":
        return t
    n = neg(t)
    # choose the representative whose leading coefficient is positive
    c, its = lin_parts(t)
    if its and its[0][1] < 0:
        t = n
    if t.op == "lin" and t.args[0] == 0 and len(t.args[1]) == 1:
        x, k = t.args[1][0]
        return scale(abs(k), _un("abs", x))
    return _un("abs", t)


def minmax(op, a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        v = min(a.args, b.args) if op == "min" else max(a.args, b.args)
        return rc(v) if a.sort == "R" else ic(v)
    if a.id > b.id:
        a, b = b, a
    fv, h = _fvh((a, b))
    return _mk(op, (a, b), a.sort, fv, h)


def tmin(a, b):
    return minmax("min", a, b)


def tmax(a, b):
    return minmax("max", a, b)


def sqrt(t):
    if t.op == "c" and t.args >= 0:
        n, d = t.args.numerator, t.args.denominator
        import math
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return rc(Fraction(math.isqrt(n), math.isqrt(d)))
    return _un("sqrt", t)


def powf(x, y):
    if isc(y) and y.args.denominator == 1 and 0 <= y.args <= 6:
        r = R1
        for _ in range(int(y.args)):
            r = mul(r, x)
        return r
    if x is R1:
        return R1
    fv, h = _fvh((x, y))
    return _mk("pow", (x, y), "R", fv, h)


def idiv(a, b):
    if isc(a) and isc(b) and b.args > 0:
        return ic(a.args // b.args)
    if isc(b) and b.args == 1:
        return a
    fv, h = _fvh((a, b))
    return _mk("idiv", (a, b), "I", fv, h)


def imod(a, b):
    if isc(a) and isc(b) and b.args > 0:
        return ic(a.args % b.args)
    fv, h = _fvh((a, b))
    return _mk("imod", (a, b), "I", fv, h)


# ---- booleans
def _norm_sign(d, both):
    """scale so that the leading coefficient has absolute value one (and sign + when `both`)"""
    c, its = lin_parts(d)
    if not its:
        return d
    if d.sort == "I":
        from math import gcd
        g = 0
        for _, k in its:
            g = gcd(g, k)
        if g > 1 and (c % g == 0):
            d = mk_lin(c // g, [(x, k // g) for x, k in its], "I")
            c, its = lin_parts(d)
        if both and its[0][1] < 0:
            d = neg(d)
        return d
    k = its[0][1]
    if not both:
        k = abs(k)
    return scale(Fraction(1) / k, d) if k != 1 else d


def le0(d):
    if isc(d):
        return bc(d.args <= 0)
    d = _norm_sign(d, False)
    return _un("le0", d, "B")


def lt0(d):
    if isc(d):
        return bc(d.args < 0)
    if d.sort == "I":
        return le0(add(d, I1))
    d = _norm_sign(d, False)
    return _un("lt0", d, "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        if isc(a):
            return b if a.args else lnot(b)
        if isc(b):
            return a if b.args else lnot(a)
        if a is lnot(b):
            return FALSE
        if a.id > b.id:
            a, b = b, a
        fv, h = _fvh((a, b))
        return _mk("iff", (a, b), "B", fv, h)
    if a.sort == "U" or b.sort == "U":
        if a.id > b.id:
            a, b = b, a
        fv, h = _fvh((a, b))
        return _mk("ueq", (a, b), "B", fv, h)
    d = sub(a, b)
    if isc(d):
        return bc(d.args == 0)
    d = _norm_sign(d, True)
    if d.sort == "I":
        c, its = lin_parts(d)
        from math import gcd
        g = 0
        for _, k in its:
            g = gcd(g, k)
        if g > 1 and c % g:
            return FALSE
        if len(its) == 1 and its[0][0].op == "ite":
            # a test coded as a number
            x, k = its[0]
            t, a1, b1 = x.args
            if isc(a1) and isc(b1):
                ha, hb = c + k * a1.args == 0, c + k * b1.args == 0
                return TRUE if ha and hb else t if ha else lnot(t) if hb else FALSE
    return _un("eq0", d, "B")


def ne(a, b):
    return lnot(eq(a, b))


def lnot(t):
    if t.op == "c":
        return bc(not t.args)
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":
        return lt0(neg(t.args[0]))
    if t.op == "lt0":
        return le0(neg(t.args[0]))
    if t.op in ("and", "or"):
        if t.memo is None:
            t.memo = (lor if t.op == "and" else land)(*[lnot(x) for x in t.args])
            if t.memo.op in ("and", "or") and t.memo.memo is None:
                t.memo.memo = t
        return t.memo
    return _un("not", t)


def land(*ts):
    out, seen = [], set()
    for t in ts:
        for x in (t.args if t.op == "and" else (t,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x in seen:
                continue
            seen.add(x)
            out.append(x)
    for x in out:
        if x.op in ("not", "le0", "lt0", "eq0", "v", "f", "ueq", "iff") and lnot(x) in seen:
            return FALSE
    if any(x.op == "or" for x in out):
        out2 = []
        for x in out:
            if x.op == "or":
                if any(y in seen for y in x.args):
                    continue
                keep = [y for y in x.args if y.op == "and" or lnot(y) not in seen]
                if len(keep) < len(x.args):
                    return land(*(out2 + [lor(*keep)] + out[out.index(x) + 1:]))
            out2.append(x)
        out = out2
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    fv, h = _fvh(out)
    return _mk("and", tuple(out), "B", fv, h)


def lor(*ts):
    out, seen = [], set()
    for t in ts:
        for x in (t.args if t.op == "or" else (t,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x in seen:
                continue
            seen.add(x)
            out.append(x)
    for x in out:
        if x.op in ("not", "le0", "lt0", "eq0", "v", "f", "ueq", "iff") and lnot(x) in seen:
            return TRUE
    if any(x.op == "and" for x in out):
        out2 = []
        for x in out:
            if x.op == "and":
                if any(y in seen for y in x.args):
                    continue
                keep = [y for y in x.args if y.op == "or" or lnot(y) not in seen]
                if len(keep) < len(x.args):
                    return lor(*(out2 + [land(*keep)] + out[out.index(x) + 1:]))
            out2.append(x)
        out = out2
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    fv, h = _fvh(out)
    return _mk("or", tuple(out), "B", fv, h)


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op in ("le0", "lt0"):
        # one orientation per comparison
        n = lnot(c)
        if n.id < c.id:
            c, a, b = n, b, a
    assert a.sort == b.sort, (a.sort, b.sort)
    while a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    while b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE:
            return lor(c, b)
        if a is FALSE:
            return land(lnot(c), b)
        if b is TRUE:
            return lor(lnot(c), a)
        if b is FALSE:
            return land(c, a)
    if a.sort == "R" and c.op in ("le0", "lt0") and c.args[0].sort == "R":
        if c is le(a, b) or c is lt(a, b):
            return tmin(a, b)
        if c is le(b, a) or c is lt(b, a):
            return tmax(a, b)
    fv, h = _fvh((c, a, b))
    return _mk("ite", (c, a, b), a.sort, fv, h)


# ---- arrays; sort is ("A", k, elem)
def asort(k, elem):
    return ("A", k, elem)


def av(name, k, elem, *params):
    fv, h = _fvh(params)
    return _mk("av", (name,) + params, asort(k, elem), fv, h)


def store(a, idx, v):
    if a.op == "store" and a.args[1] == idx:
        a = a.args[0]
    fv, h = _fvh((a, v) + idx)
    return _mk("store", (a, idx, v), a.sort, fv, h)


def bname(h):
    return "#%d" % h


def lam(names, body, elem=None):
    """names: list of variable names (sort I) bound in body"""
    k = len(names)
    # eta
    if body.op == "sel" and len(body.args) == k + 1 and all(
            body.args[1 + i].op == "v" and body.args[1 + i].args == names[i] for i in range(k)) \
            and not any((n, "I") in body.args[0].fv for n in names):
        return body.args[0]
    h = body.h + 1
    new = ["#%d.%d" % (h, i) for i in range(k)]
    if list(names) != new:
        body = subst(body, {var(n, "I"): var(m, "I") for n, m in zip(names, new)})
        h2 = body.h + 1
        assert h2 == h
    fv = body.fv - frozenset((m, "I") for m in new)
    return _mk("lam", (tuple(new), body), asort(k, body.sort), fv, h)


def mklam(k, fn):
    """lam built from a python function of k index terms"""
    names = [fresh("b") for _ in range(k)]
    return lam(names, fn(*[var(n, "I") for n in names]))


def const_arr(k, v):
    return mklam(k, lambda *x: v)


def sel(a, *idx):
    k = a.sort[1]
    assert len(idx) == k, (a, idx)
    while True:
        if a.op == "lam":
            names, body = a.args
            return subst(body, {var(n, "I"): x for n, x in zip(names, idx)})
        if a.op == "store":
            base, j, v = a.args
            c = land(*[eq(p, q) for p, q in zip(idx, j)])
            if c is TRUE:
                return v
            if c is FALSE:
                a = base
                continue
            return ite(c, v, sel(base, *idx))
        if a.op == "ite":
            return ite(a.args[0], sel(a.args[1], *idx), sel(a.args[2], *idx))
        break
    fv, h = _fvh((a,) + idx)
    return _mk("sel", (a,) + idx, a.sort[2], fv, h)


def tsum(lo, hi, name, body):
    """sum of body over lo <= name < hi (0 when hi <= lo)"""
    if body is R0:
        return R0
    d = sub(hi, lo)
    if isc(d):
        if d.args <= 0:
            return R0
        if d.args <= 4:
            v = var(name, "I")
            return addn([subst(body, {v: add(lo, ic(j))}) for j in range(d.args)], "R")
    h = body.h + 1
    new = "#%d.0" % h
    if name != new:
        body = subst(body, {var(name, "I"): var(new, "I")})
    small = in_range(body, lo, hi, var(new, "I"))
    if small is not body:
        return tsum(lo, hi, new, small)
    fv = (body.fv - frozenset([(new, "I")])) | lo.fv | hi.fv
    hh = max(h, lo.h, hi.h)
    return _mk("sum", (lo, hi, new, body), "R", fv, hh)


def in_range(body, lo, hi, v):
    """body of a sum with the tests that hold throughout its range resolved"""
    if not any(x.op == "ite" for x in subterms(body)):
        return body
    yes = [le(lo, v), lt(v, hi)]
    no = [lnot(x) for x in yes]
    return replace(body, lambda x: TRUE if x in yes else FALSE if x in no else None)


def mksum(lo, hi, fn):
    n = fresh("b")
    return tsum(lo, hi, n, fn(var(n, "I")))


def forall(names, body):
    if isc(body):
        return body
    h = body.h + 1
    new = ["#%d.%d" % (h, i) for i in range(len(names))]
    if list(names) != new:
        body = subst(body, {var(n, "I"): var(m, "I") for n, m in zip(names, new)})
    fv = body.fv - frozenset((m, "I") for m in new)
    return _mk("forall", (tuple(new), body), "B", fv, h)


def mkforall(k, fn):
    names = [fresh("b") for _ in range(k)]
    return forall(names, fn(*[var(n, "I") for n in names]))


# ---- rebuilding
def children(t):
    op = t.op
    if op in ("c", "v"):
        return ()
    if op == "lin":
        return tuple(x for x, _ in t.args[1])
    if op == "prod":
        return tuple(x for x, _ in t.args)
    if op in ("f", "av"):
        return t.args[1:]
    if op == "store":
        return (t.args[0],) + t.args[1] + (t.args[2],)
    if op in ("lam", "forall"):
        return (t.args[1],)
    if op == "sum":
        return (t.args[0], t.args[1], t.args[3])
    return t.args


def rebuild(t, ch):
    op = t.op
    if op == "lin":
        return addn([rc(t.args[0]) if t.sort == "R" else ic(t.args[0])]
                    + [scale(c, x) for x, (_, c) in zip(ch, t.args[1])], t.sort)
    if op == "prod":
        r = R1 if t.sort == "R" else I1
        for x, (_, e) in zip(ch, t.args):
            for _ in range(e):
                r = mul(r, x)
        return r
    if op == "f":
        return app(t.args[0], t.sort, *ch)
    if op == "av":
        return av(t.args[0], t.sort[1], t.sort[2], *ch)
    if op == "store":
        return store(ch[0], tuple(ch[1:-1]), ch[-1])
    if op == "lam":
        return lam(list(t.args[0]), ch[0])
    if op == "forall":
        return forall(list(t.args[0]), ch[0])
    if op == "sum":
        return tsum(ch[0], ch[1], t.args[2], ch[2])
    if op == "sel":
        return sel(ch[0], *ch[1:])
    return _REB[op](*ch)


_REB = {"inv": inv, "i2r": i2r, "abs": absv, "min": tmin, "max": tmax, "sqrt": sqrt, "pow": powf,
        "idiv": idiv, "imod": imod, "le0": le0, "lt0": lt0, "eq0": lambda d: eq(d, rc(0) if d.sort == "R" else I0),
        "iff": eq, "ueq": eq, "not": lnot, "and": land, "or": lor, "ite": ite}


def subst(t, m):
    """simultaneous substitution of variables"""
    keys = frozenset(k.args if False else (k.args, k.sort) for k in m)
    return _subst(t, m, keys, {})


def _subst(t, m, keys, memo):
    if not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "v":
        r = m.get(t, t)
    elif t.op in ("lam", "forall", "sum"):
        bound = set(t.args[0]) if t.op != "sum" else {t.args[2]}
        # the bound names could be free in the substituted terms only while a binder is open
        clash = any((b, "I") in v.fv for v in m.values() for b in bound)
        if clash:
            ren = {var(b, "I"): var(fresh("r"), "I") for b in bound}
            if t.op == "sum":
                body = subst(t.args[3], ren)
                nb = ren[var(t.args[2], "I")].args
                r = tsum(_subst(t.args[0], m, keys, memo), _subst(t.args[1], m, keys, memo), nb, subst(body, m))
            else:
                body = subst(subst(t.args[1], ren), m)
                names = [ren[var(b, "I")].args for b in t.args[0]]
                r = lam(names, body) if t.op == "lam" else forall(names, body)
        else:
            inner = {k: v for k, v in m.items() if not (k.sort == "I" and k.args in bound)}
            if len(inner) == len(m):
                r = rebuild(t, [_subst(c, m, keys, memo) for c in children(t)])
            elif t.op == "sum":
                r = tsum(_subst(t.args[0], m, keys, memo), _subst(t.args[1], m, keys, memo), t.args[2],
                         subst(t.args[3], inner))
            else:
                r = rebuild(t, [subst(c, inner) for c in children(t)])
    else:
        r = rebuild(t, [_subst(c, m, keys, memo) for c in children(t)])
    memo[t] = r
    return r


def replace(t, fn, memo=None):
    """bottom-up rewriting: fn(original subterm, rebuilt subterm) -> term or None"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    ch = children(t)
    if ch:
        new = [replace(c, fn, memo) for c in ch]
        r = t if all(x is y for x, y in zip(ch, new)) else rebuild(t, new)
    else:
        r = t
    x = fn(r)
    if x is not None:
        r = x
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


def free_avs(t):
    """array symbols occurring in t"""
    return {x for x in subterms(t) if x.op == "av"}


def show(t, depth=0):
    op = t.op
    if op == "c":
        return str(t.args)
    if op == "v":
        return t.args
    if depth > 14:
        return "..."
    s = lambda x: show(x, depth + 1)
    if op == "lin":
        parts = []
        if t.args[0] != 0:
            parts.append(str(t.args[0]))
        for x, c in t.args[1]:
            parts.append(s(x) if c == 1 else "%s*%s" % (c, s(x)))
        return "(" + " + ".join(parts) + ")"
    if op == "prod":
        return "*".join(s(x) if e == 1 else "%s^%d" % (s(x), e) for x, e in t.args)
    if op in ("f", "av"):
        return t.args[0] + ("(" + ", ".join(map(s, t.args[1:])) + ")" if len(t.args) > 1 else "")
    if op == "sel":
        return s(t.args[0]) + "[" + ",".join(map(s, t.args[1:])) + "]"
    if op == "store":
        return "%s{%s:=%s}" % (s(t.args[0]), ",".join(map(s, t.args[1])), s(t.args[2]))
    if op == "lam":
        return "(\\%s. %s)" % (" ".join(t.args[0]), s(t.args[1]))
    if op == "forall":
        return "(forall %s. %s)" % (" ".join(t.args[0]), s(t.args[1]))
    if op == "sum":
        return "sum(%s in %s..%s: %s)" % (t.args[2], s(t.args[0]), s(t.args[1]), s(t.args[3]))
    if op == "le0":
        return s(t.args[0]) + "<=0"
    if op == "lt0":
        return s(t.args[0]) + "<0"
    if op == "eq0":
        return s(t.args[0]) + "==0"
    return "%s(%s)" % (op, ", ".join(map(s, t.args)))
