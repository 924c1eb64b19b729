"""Specifications of what the crate calls outside itself (core, ndarray) and of MIR operators."""
import re
from fractions import Fraction

from mir import Unsupported
from term import *  # noqa: F401,F403
from ex import St, En, Ar, VA, Ref, View, Op, Fv, UNIT, Call, base_type, strip_generics_tail
import mir

RANGES = {"usize": (0, 2 ** 64 - 1), "u64": (0, 2 ** 64 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "u32": (0, 2 ** 32 - 1),
          "i64": (-2 ** 63, 2 ** 63 - 1), "isize": (-2 ** 63, 2 ** 63 - 1), "u8": (0, 255)}
INF = var("INF", "R")
EPS = Fraction(1, 2 ** 52)


# ---------------------------------------------------------------- constants
def float_const(txt):
    x = float(txt)
    if x != x:
        raise Unsupported("NaN constant")
    if x == float("inf"):
        return INF
    if x == float("-inf"):
        return neg(INF)
    return rc(Fraction(repr(x)))


SPECIAL = {"EPSILON": rc(EPS), "MIN_POSITIVE": rc(Fraction(1, 2 ** 1022)), "INFINITY": INF,
           "NEG_INFINITY": neg(INF), "MAX": rc((2 - EPS) * 2 ** 1023)}


def constant(eng, s, text):
    text = text.strip()
    if text == "true":
        return TRUE
    if text == "false":
        return FALSE
    if text == "()":
        return UNIT
    if text.startswith('"') or text.startswith("b\""):
        return St("str", ())
    m = re.match(r"^(-?[\d.]+(?:[eE][-+]?\d+)?)_?f64$", text)
    if m:
        v = float_const(m.group(1))
        return eng.snap(v) if eng.snap else v
    if re.match(r"^[+-]?inf_?f64$", text):
        return neg(INF) if text.startswith("-") else INF
    m = re.match(r"^(-?\d+)_(usize|isize|i32|u32|i64|u64|u8)$", text)
    if m:
        return ic(int(m.group(1)))
    m = re.search(r"core::f64::<impl f64>::(\w+)$|\bf64::(?:consts::)?(\w+)$", text)
    if m:
        k = m.group(1) or m.group(2)
        if k in SPECIAL:
            return SPECIAL[k]
        raise Unsupported("constant " + text)
    m = re.search(r"(?:^|<impl |::)(usize|i32|u32|i64|u64)>?::(MAX|MIN)$", text)
    if m:
        return ic(RANGES[m.group(1)][1 if m.group(2) == "MAX" else 0])
    c = find_const(eng, text)
    if c is None:
        t = strip_generics_tail(text)
        nm = base_type(t)
        if nm in eng.structs and not eng.structs[nm]:
            return St(nm, ())
        if eng.resolve(t) is not None or re.match(r"^<?[\w:<>& ]+$", t):
            return St("fn:" + t, ())
        raise Unsupported("constant " + text)
    return c


def find_const(eng, text):
    cache = eng.__dict__.setdefault("const_cache", {})
    if text in cache:
        return cache[text]
    t = text
    m = re.search(r"promoted\[(\d+)\]$", t)
    if m:
        hit = None
        stem = strip_generics_tail(t[:m.start()].rstrip(":"))
        want = re.search(r"(\w+)$", stem).group(1)
        cands = [k for k in eng.prog.consts if k.endswith("promoted[%s]" % m.group(1))
                 and re.search(r"(\w+)$", strip_generics_tail(k[:k.rindex("promoted")].rstrip(":"))).group(1) == want]
        if len(cands) > 1:
            typ = re.search(r"(?:for )?([\w:]+)(?:<[^>]*>|::<[^>]*>)?>?::" + want, stem)
            owner = None
            mm = re.search(r"<impl (?:.* for )?([\w:]+)", stem)
            if mm:
                owner = mm.group(1).split("::")[-1]
            else:
                mm = re.search(r"(\w+)(?:::<.*>)?::" + want + "$", stem, re.S)
                owner = mm.group(1) if mm else None
            keep = []
            for k in cands:
                im = re.search(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(\w+)", k)
                if im and owner:
                    typ, _ = eng.impl_header(eng.impls, im)
                    if typ == owner:
                        keep.append(k)
            cands = keep or cands
        if len(cands) != 1:
            raise Unsupported("promoted constant %s: %d candidates" % (text, len(cands)))
        hit = cands[0]
    else:
        name = t.split("::")[-1]
        cands = [k for k in eng.prog.consts if k.split("::")[-1] == name and "promoted" not in k]
        if len(cands) > 1:
            mm = re.search(r"<impl (?:.* for )?([\w:]+)[^>]*>::\w+$|(\w+)::\w+$", t)
            owner = (mm.group(1) or mm.group(2)).split("::")[-1] if mm else None
            keep = []
            for k in cands:
                im = re.search(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(\w+)", k)
                if im and owner:
                    typ, _ = eng.impl_header(eng.impls, im)
                    if typ == owner:
                        keep.append(k)
            cands = keep
        if len(cands) != 1:
            return None
        hit = cands[0]
    kind, x = eng.prog.consts[hit]
    if kind == "lit":
        v = constant(eng, None, x)
    else:
        from ex import State
        st = State()
        # promoted constants are references into their own storage
        r = eng.call_fn(st, x, [], 0) if not hit.endswith("]") else None
        if r is None:
            v = promoted(eng, x, hit)
        else:
            v = r[0][1]
    cache[text] = v
    return v


def promoted(eng, fn, name):
    """value of a promoted constant: a reference to a constant value"""
    from ex import State
    eng.cfg(fn)
    fr = next(eng.frames)
    st = State()
    ex = eng.run(fn, fr, 0, [st], set(fn.rpo), None, 0)
    x = ex["ret"][0]
    v = x.mem[("L", fr, 0)]
    if isinstance(v, Ref):
        val = x.mem[v.root]
        eng.statics = getattr(eng, "statics", {})
        root = ("K", name)
        eng.statics[root] = val
        return Ref(root, v.path, False)
    return v


COMPARE = {"Eq": eq, "Ne": ne, "Lt": lt, "Le": le, "Gt": gt, "Ge": ge}


# ---------------------------------------------------------------- not a number
class Nan:
    """entry `at` of the given arrays is not a finite number (not a number or infinite); values from elsewhere are.

    poison(t) is a condition under which t is certainly not finite: sums and products with a finite number are
    then not finite either, quotients only through the numerator.  Ring normalisation only ever removes
    occurrences, so a condition found on the normal form holds of the computation as written.  Comparisons of
    such values are false where both infinity and not-a-number say so, and open otherwise."""

    def __init__(self, at, when):
        self.at, self.when, self.arrays, self.memo, self.pos = at, when, set(), {}, set()

    def learn(self, facts):
        """variables the facts bound away from below zero"""
        for f in facts:
            if f.op in ("lt0", "le0") and f.args[0].sort == "R":
                x = neg(f.args[0])
                if x.op == "v":
                    self.pos.add(x)

    def poison(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._poison(t)
        return r

    def _poison(self, t):
        if t.op in ("c", "v", "inv"):
            return FALSE
        if t.op == "sel":
            return eq(t.args[1], self.at) if t.args[0].op == "av" and t.args[0].args[0] in self.arrays else FALSE
        if t.op == "lin":
            return lor(*[self.poison(x) for x, _ in t.args[1]])
        if t.op == "prod":
            return lor(*[self.poison(x) for x, _ in t.args])
        if t.op in ("abs", "sqrt"):
            return self.poison(t.args[0])
        if t.op == "pow":
            p = self.poison(t.args[0])
            return p if p is FALSE else land(p, gt(t.args[1], R0))
        if t.op in ("min", "max"):
            return land(self.poison(t.args[0]), self.poison(t.args[1]))
        if t.op == "ite":
            return ite(t.args[0], self.poison(t.args[1]), self.poison(t.args[2]))
        if t.op == "sum":
            lo, hi, b, body = t.args
            return land(le(lo, self.at), lt(self.at, hi), self.poison(subst(body, {var(b, "I"): self.at})))
        return FALSE

    def up(self, t):
        """t is not below zero: if it is not finite it is not a number or plus infinity"""
        if t.op == "c":
            return t.args >= 0
        if t.op in ("abs", "sqrt", "i2r") or t in self.pos:
            return True
        if t.op in ("pow", "inv"):
            return self.up(t.args[0])
        if t.op == "sum":
            return self.up(t.args[3])
        if t.op == "lin":
            return t.args[0] >= 0 and all(k > 0 and self.up(x) for x, k in t.args[1])
        if t.op == "prod":
            return all(e % 2 == 0 or self.up(x) for x, e in t.args)
        if t.op == "min":
            return self.up(t.args[0]) and self.up(t.args[1])
        if t.op == "max":
            return self.up(t.args[0]) or self.up(t.args[1])
        if t.op == "ite":
            return self.up(t.args[1]) and self.up(t.args[2])
        return False


def compare(eng, op, a, b):
    r = COMPARE[op](a, b)
    if eng.nan is None or a.sort != "R":
        return r
    pa, pb = eng.nan.poison(a), eng.nan.poison(b)
    if pa is FALSE and pb is FALSE:
        return r
    maybe = eng.fresh_scalar("open", "B")
    if op in ("Lt", "Le") and eng.nan.up(a) and pb is FALSE:
        return land(lnot(pa), r)
    if op in ("Gt", "Ge") and eng.nan.up(b) and pa is FALSE:
        return land(lnot(pb), r)
    return ite(lor(pa, pb), maybe, r)


def extreme(eng, f, a, b):
    r = f(a, b)
    if eng.nan is None or a.sort != "R":
        return r
    pa, pb = eng.nan.poison(a), eng.nan.poison(b)
    if f is tmin:
        if pa is FALSE and eng.nan.up(b):
            return ite(pb, a, r)
        if pb is FALSE and eng.nan.up(a):
            return ite(pa, b, r)
    return r


# ---------------------------------------------------------------- operators
def binop(eng, s, op, a, b, typ):
    if not (isinstance(a, T) and isinstance(b, T)):
        raise Unsupported("operator %s on %r, %r" % (op, a, b))
    if op in ("Add", "AddUnchecked"):
        return add(a, b)
    if op in ("Sub", "SubUnchecked"):
        return sub(a, b)
    if op in ("Mul", "MulUnchecked"):
        return mul(a, b)
    if op == "Div":
        if a.sort == "R":
            return div(a, b)
        return idiv(a, b)
    if op == "Rem":
        if a.sort == "I":
            return imod(a, b)
        raise Unsupported("float remainder")
    if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
        r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
        lo, hi = RANGES.get(typ, (0, 2 ** 64 - 1))
        f = lor(lt(r, ic(lo)), gt(r, ic(hi)))
        if op[0] == "S" and lo == 0:
            f = lt(r, ic(0))
        elif lo == 0:
            f = gt(r, ic(hi))
        return St("tuple", (r, f))
    if op in COMPARE:
        return compare(eng, op, a, b)
    if a.sort == "B":
        if op == "BitAnd":
            return land(a, b)
        if op == "BitOr":
            return lor(a, b)
        if op == "BitXor":
            return lnot(eq(a, b))
    raise Unsupported("operator " + op)


def cast(eng, s, v, ty, kind, src):
    if kind == "IntToInt":
        lo, hi = RANGES.get(ty, (None, None))
        if lo is None:
            raise Unsupported("cast to " + ty)
        if v.sort == "B":
            return ite(v, I1, I0)
        if src in RANGES and RANGES[src][0] >= lo and RANGES[src][1] <= hi:
            return v
        g = []
        if not (src in RANGES and RANGES[src][0] >= lo):
            g.append(ge(v, ic(lo)))
        if not (src in RANGES and RANGES[src][1] <= hi):
            g.append(le(v, ic(hi)))
        eng.oblige(s, "cast", "conversion to %s keeps the value" % ty, land(*g))
        return v
    if kind == "IntToFloat":
        return i2r(v)
    if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute"):
        return v
    raise Unsupported("cast %s" % kind)


def aggregate(eng, s, kind, name, fields, desttype):
    if kind in ("tuple", "array"):
        return St(kind, [v for _, v in fields])
    nm = strip_generics_tail(name)
    if kind == "struct":
        b = base_type(nm)
        order = {"Range": ["start", "end"], "RangeTo": ["end"], "RangeFrom": ["start"]}.get(b) or eng.structs.get(b)
        if order is None:
            raise Unsupported("struct " + name)
        d = dict(fields)
        if set(order) != set(d):
            raise Unsupported("fields of " + name)
        return St(b, [d[f] for f in order])
    if nm.startswith("PhantomData"):
        return UNIT
    m = re.match(r"^(.*)::(\w+)$", nm, re.S)
    if m:
        e = base_type(m.group(1))
        if e == "Option":
            return En("Option", ic(1 if m.group(2) == "Some" else 0), {1: tuple(v for _, v in fields)} if fields else {})
        if e in eng.enums and m.group(2) in eng.enums[e]:
            k = eng.enums[e].index(m.group(2))
            return En(e, ic(k), {k: tuple(v for _, v in fields)} if fields else {})
    b = base_type(nm)
    if b in eng.structs:
        return St(b, [v for _, v in fields])
    if desttype:
        e = base_type(desttype)
        if e in eng.enums and b in eng.enums[e]:
            k = eng.enums[e].index(b)
            return En(e, ic(k), {k: tuple(v for _, v in fields)} if fields else {})
    raise Unsupported("aggregate " + name)


# ---------------------------------------------------------------- arrays
def deref(eng, s, v):
    while isinstance(v, Ref):
        v = mem_read(eng, s, v)
    return v


def mem_read(eng, s, r):
    if r.root[0] == "K":
        return eng.get(eng.statics[r.root], r.path)
    return eng.read(s, r.root, r.path)


def as_array(eng, s, v):
    """(dims, content) of an array-like value or of a reference to one"""
    v = deref(eng, s, v)
    if isinstance(v, Ar):
        return v.dims, v.c
    if isinstance(v, View):
        base = eng.read(s, v.root, v.path)
        if not isinstance(base, Ar):
            raise Unsupported("view of %r" % (base,))
        if all(o is I0 for o in v.off):
            return v.dims, base.c
        c = base.c
        return v.dims, mklam(len(v.dims), lambda *x: sel(c, *[add(i, o) for i, o in zip(x, v.off)]))
    raise Unsupported("array expected: %r" % (v,))


def is_arr(eng, s, v):
    try:
        v = deref(eng, s, v)
    except Unsupported:
        return False
    return isinstance(v, (Ar, View))


def place_of(eng, s, v):
    """(root, path, off, dims) of an array-like reference"""
    while isinstance(v, Ref):
        w = mem_read(eng, s, v)
        if isinstance(w, Ar):
            return v.root, v.path, tuple(I0 for _ in w.dims), w.dims, True
        v = w
    if isinstance(v, View):
        return v.root, v.path, v.off, v.dims, False
    raise Unsupported("array place expected: %r" % (v,))


def view_of(eng, s, v):
    root, path, off, dims, _ = place_of(eng, s, v)
    return View(root, path, off, dims)


def same_dims(eng, s, what, d1, d2):
    if len(d1) != len(d2):
        raise Unsupported("rank mismatch")
    eng.oblige(s, "panic", "%s: shapes agree" % what, land(*[eq(a, b) for a, b in zip(d1, d2)]))


def set_array(eng, s, v, content, what="assign"):
    """overwrite the elements of the array behind v"""
    root, path, off, dims, whole = place_of(eng, s, v)
    base = eng.read(s, root, path)
    if whole or (all(o is I0 for o in off) and dims == base.dims):
        eng.write(s, root, path, Ar(base.dims, content))
        return
    old = base.c
    new = mklam(len(dims), lambda *x: ite(land(*([le(o, i) for o, i in zip(off, x)] + [lt(i, add(o, d)) for o, i, d in zip(off, x, dims)])),
                                          sel(content, *[sub(i, o) for o, i in zip(off, x)]), sel(old, *x)))
    eng.write(s, root, path, Ar(base.dims, new))


def elementwise(eng, s, what, op, a, b):
    if isinstance(a, T) and isinstance(b, T):
        return op(a, b)
    if isinstance(a, T):
        d, c = as_array(eng, s, b)
        return Ar(d, mklam(len(d), lambda *x: op(a, sel(c, *x))))
    if isinstance(deref(eng, s, b), T):
        y = deref(eng, s, b)
        d, c = as_array(eng, s, a)
        return Ar(d, mklam(len(d), lambda *x: op(sel(c, *x), y)))
    d1, c1 = as_array(eng, s, a)
    d2, c2 = as_array(eng, s, b)
    same_dims(eng, s, what, d1, d2)
    return Ar(d1, mklam(len(d1), lambda *x: op(sel(c1, *x), sel(c2, *x))))


def index(eng, s, fn, vals):
    a, i = vals
    idx = tuple(i.f) if isinstance(i, St) else (i,)
    while isinstance(a, Ref):
        w = mem_read(eng, s, a)
        if isinstance(w, (Ar, VA)):
            dims = w.dims if isinstance(w, Ar) else (w.n,)
            root, path, off = a.root, a.path, tuple(I0 for _ in idx)
            break
        a = w
    else:
        if not isinstance(a, View):
            raise Unsupported("index of %r" % (a,))
        root, path, off, dims = a.root, a.path, a.off, a.dims
    if len(dims) != len(idx):
        raise Unsupported("index rank")
    eng.oblige(s, "panic", "%s: array index in bounds" % eng.where(fn),
               land(*[land(le(I0, x), lt(x, d)) for x, d in zip(idx, dims)]))
    return Ref(root, path + (("e", tuple(add(o, x) for o, x in zip(off, idx))),))


def dims_arg(v):
    if isinstance(v, St):
        return tuple(v.f)
    return (v,)


def option(c, *payload):
    return En("Option", ite(c, I1, I0), {1: tuple(payload)})


# ---------------------------------------------------------------- calls
ARITH = {"add": add, "sub": sub, "mul": mul, "div": div}


def call(eng, s, fn, callee, vals, depth):
    c = strip_generics_tail(callee)
    name = re.search(r"(\w+)$", c)
    if not name:
        return NotImplemented
    name = name.group(1)
    m = re.match(r"^<(.*) as ([\w:]+)(?:<(.*)>)?>::\w+$", c, re.S)
    trait = m.group(2).split("::")[-1] if m else None
    if m and trait in ("Fn", "FnMut", "FnOnce"):
        return user_call(eng, s, fn, vals)
    s = s.copy()
    # operators
    if trait in ("Add", "Sub", "Mul", "Div"):
        return [(s, elementwise(eng, s, eng.where(fn), ARITH[name], vals[0] if isinstance(vals[0], T) else vals[0], vals[1]))]
    if trait in ("AddAssign", "SubAssign", "MulAssign", "DivAssign"):
        op = ARITH[name[:3]]
        tgt = vals[0]
        w = deref(eng, s, tgt)
        if isinstance(w, T):
            r = tgt
            while isinstance(mem_read(eng, s, r), Ref):
                r = mem_read(eng, s, r)
            eng.write(s, r.root, r.path, op(w, deref(eng, s, vals[1])))
            return [(s, UNIT)]
        r = elementwise(eng, s, eng.where(fn), op, tgt, vals[1] if not isinstance(vals[1], T) else vals[1])
        set_array(eng, s, tgt, r.c)
        return [(s, UNIT)]
    if trait == "Neg":
        w = deref(eng, s, vals[0])
        if isinstance(w, T):
            return [(s, neg(w))]
        d, cc = as_array(eng, s, vals[0])
        return [(s, Ar(d, mklam(len(d), lambda *x: neg(sel(cc, *x)))))]
    if trait in ("Index", "IndexMut"):
        return [(s, index(eng, s, fn, vals))]
    if trait in ("Clone", "ToOwned"):
        w = deref(eng, s, vals[0])
        if isinstance(w, View):
            d, cc = as_array(eng, s, w)
            if "ViewRepr" in callee and name == "clone":
                return [(s, w)]
            return [(s, Ar(d, cc))]
        return [(s, w)]
    if trait == "PartialEq":
        a, b = deref(eng, s, vals[0]), deref(eng, s, vals[1])
        if isinstance(a, En) and isinstance(b, En) and not any(a.p.values()) and not any(b.p.values()):
            e = eq(a.d, b.d)
        elif isinstance(a, T) and isinstance(b, T):
            return [(s, compare(eng, "Eq" if name == "eq" else "Ne", a, b))]
        else:
            raise Unsupported("comparison of %r" % (a,))
        return [(s, e if name == "eq" else lnot(e))]
    if trait == "PartialOrd":
        a, b = deref(eng, s, vals[0]), deref(eng, s, vals[1])
        return [(s, compare(eng, name.capitalize(), a, b))]
    if trait == "Ord" or re.search(r"<impl f64>::(max|min)$", c):
        if name in ("max", "min"):
            return [(s, extreme(eng, tmax if name == "max" else tmin, vals[0], vals[1]))]
        if name == "clamp":
            return [(s, tmin(tmax(vals[0], vals[1]), vals[2]))]
    if trait in ("Deref", "DerefMut"):
        w = mem_read(eng, s, vals[0])
        return [(s, w if isinstance(w, Ref) else vals[0])]
    if trait == "From" and "SliceInfoElem" in c:
        return [(s, vals[0])]
    if trait == "SliceNextDim":
        return [(s, UNIT)]
    if trait == "IntoIterator":
        v = vals[0]
        if isinstance(v, St):
            return [(s, v)]
        if isinstance(v, (Ar, VA)):
            return [(s, St("VecIter", (v, I0)))]
        raise Unsupported("into_iter of %r" % (v,))
    if trait == "Iterator":
        if name == "next":
            return iter_next(eng, s, vals[0])
        if name == "rev" and isinstance(vals[0], St) and vals[0].tag == "Range":
            return [(s, St("Rev", (vals[0],)))]
        raise Unsupported("iterator " + name)
    if trait == "Default":
        return NotImplemented
    # floats
    if re.search(r"<impl f64>::\w+$", c):
        r = float_method(eng, name, vals)
        if r is not None:
            return [(s, r)]
    # options
    if re.match(r"^(std::option::)?Option::", c):
        v = deref(eng, s, vals[0])
        if name == "is_some":
            return [(s, eq(v.d, I1))]
        if name == "is_none":
            return [(s, eq(v.d, I0))]
        if name in ("unwrap", "expect"):
            eng.oblige(s, "panic", "%s: unwrap of None" % eng.where(fn), eq(v.d, I1))
            if 1 not in v.p:
                raise Unsupported("unwrap of None")
            return [(s, v.p[1][0])]
        if name == "unwrap_or":
            from ex import merge_val
            return [(s, merge_val(eq(v.d, I1), v.p[1][0], vals[1]) if 1 in v.p else vals[1])]
        if name in ("copied", "cloned"):
            return [(s, En("Option", v.d, {1: (deref(eng, s, v.p[1][0]),)} if 1 in v.p else {}))]
        raise Unsupported("Option::" + name)
    # vectors
    if re.match(r"^(std::vec::|alloc::vec::)?Vec::", c):
        return vec_method(eng, s, fn, callee, name, vals)
    # slices
    if re.search(r"slice::<impl \[.*\]>::iter$", c, re.S):
        return [(s, St("SliceIter", (vals[0], I0)))]
    if re.search(r"slice::<impl \[.*\]>::len$", c, re.S):
        w = deref(eng, s, vals[0])
        return [(s, w.n if isinstance(w, VA) else w.dims[0] if isinstance(w, Ar) else ic(len(w.f)))]
    # ndarray
    if "ArrayBase" in c or "ndarray" in c or "SliceInfo" in c:
        return array_method(eng, s, fn, c, name, vals)
    if name in ("swap", "replace", "take") and re.search(r"mem::\w+$", c):
        if name == "swap":
            a, b = mem_read(eng, s, vals[0]), mem_read(eng, s, vals[1])
            eng.write(s, vals[0].root, vals[0].path, b)
            eng.write(s, vals[1].root, vals[1].path, a)
            return [(s, UNIT)]
        if name == "replace":
            a = mem_read(eng, s, vals[0])
            eng.write(s, vals[0].root, vals[0].path, vals[1])
            return [(s, a)]
    if name.startswith("panic") or name in ("unreachable_display", "begin_panic", "assert_failed"):
        eng.oblige(s, "panic", "%s: explicit panic" % eng.where(fn), FALSE)
        return []
    return NotImplemented


def float_method(eng, name, v):
    if name == "abs":
        return absv(v[0])
    if name == "sqrt":
        return sqrt(v[0])
    if name == "powf":
        return powf(v[0], v[1])
    if name == "powi":
        if isc(v[1]):
            n = v[1].args
            if 0 <= n <= 6:
                return powf(v[0], rc(n))
            if -6 <= n < 0:
                return inv(powf(v[0], rc(-n)))
        return powf(v[0], i2r(v[1]))
    if name == "mul_add":
        return add(mul(v[0], v[1]), v[2])
    if name == "recip":
        return inv(v[0])
    if name == "copysign":
        return ite(ge(v[1], R0), absv(v[0]), neg(absv(v[0])))
    if name == "signum":
        return ite(ge(v[0], R0), R1, rc(-1))
    if name == "clamp":
        return tmin(tmax(v[0], v[1]), v[2])
    if name in ("is_nan", "is_infinite", "is_finite"):
        p = eng.nan.poison(v[0]) if eng.nan is not None else FALSE
        if p is FALSE:
            return bc(name == "is_finite")
        return lnot(p) if name == "is_finite" else land(p, eng.fresh_scalar("open", "B"))
    if name == "hypot":
        return sqrt(add(mul(v[0], v[0]), mul(v[1], v[1])))
    return None


def iter_next(eng, s, it):
    v = mem_read(eng, s, it)
    if isinstance(v, Ref):
        it = v
        v = mem_read(eng, s, it)
    if v.tag == "Range":
        lo, hi = v.f
        c = lt(lo, hi)
        eng.write(s, it.root, it.path, St("Range", (ite(c, add(lo, I1), lo), hi)))
        return [(s, option(c, lo))]
    if v.tag == "SliceIter":
        base, i = v.f
        w = mem_read(eng, s, base)
        n = w.n if isinstance(w, VA) else w.dims[0]
        c = lt(i, n)
        eng.write(s, it.root, it.path, St("SliceIter", (base, ite(c, add(i, I1), i))))
        return [(s, option(c, Ref(base.root, base.path + (("e", (i,)),), False)))]
    if v.tag == "VecIter":
        base, i = v.f
        n = base.n if isinstance(base, VA) else base.dims[0]
        c = lt(i, n)
        eng.write(s, it.root, it.path, St("VecIter", (base, ite(c, add(i, I1), i))))
        return [(s, option(c, eng.get(base, (("e", (i,)),))))]
    raise Unsupported("next on %s" % v.tag)


def vec_method(eng, s, fn, callee, name, vals):
    arr = "Vec::<ArrayBase" in callee or "Vec::<ndarray" in callee
    if name in ("new", "with_capacity"):
        if arr:
            return [(s, VA(I0, const_arr(2, R0), const_arr(1, I0)))]
        return [(s, Ar((I0,), const_arr(1, R0)))]
    if name == "push":
        r = vals[0]
        w = mem_read(eng, s, r)
        x = deref(eng, s, vals[1]) if not isinstance(vals[1], T) else vals[1]
        if isinstance(w, Ar) and isinstance(x, T):
            n = w.dims[0]
            eng.write(s, r.root, r.path, Ar((add(n, I1),), store(w.c, (n,), x)))
            return [(s, UNIT)]
        if isinstance(w, VA) and isinstance(x, Ar):
            n, c, lens = w.n, w.c, w.lens
            eng.write(s, r.root, r.path,
                      VA(add(n, I1), mklam(2, lambda a, b: ite(eq(a, n), sel(x.c, b), sel(c, a, b))),
                         store(lens, (n,), x.dims[0])))
            return [(s, UNIT)]
    if name == "len":
        w = deref(eng, s, vals[0])
        return [(s, w.n if isinstance(w, VA) else w.dims[0])]
    return NotImplemented


def array_method(eng, s, fn, c, name, vals):
    if name == "zeros":
        d = dims_arg(vals[0])
        return [(s, Ar(d, const_arr(len(d), I0 if "<i32>" in c else R0)))]
    if name == "ones":
        d = dims_arg(vals[0])
        return [(s, Ar(d, const_arr(len(d), R1)))]
    if name == "from_elem":
        d = dims_arg(vals[0])
        return [(s, Ar(d, const_arr(len(d), vals[1])))]
    if name == "eye":
        n = vals[0]
        return [(s, Ar((n, n), mklam(2, lambda i, j: ite(eq(i, j), R1, R0))))]
    if name in ("view", "view_mut", "reborrow"):
        return [(s, view_of(eng, s, vals[0]))]
    if name in ("to_owned", "into_owned"):
        d, cc = as_array(eng, s, vals[0])
        return [(s, Ar(d, cc))]
    if name == "len":
        d, _ = as_array(eng, s, vals[0])
        r = d[0]
        for x in d[1:]:
            r = mul(r, x)
        return [(s, r)]
    if name in ("nrows", "ncols"):
        d, _ = as_array(eng, s, vals[0])
        return [(s, d[0 if name == "nrows" else 1])]
    if name == "len_of":
        d, _ = as_array(eng, s, vals[0])
        raise Unsupported("len_of")
    if name == "shape":
        d, _ = as_array(eng, s, vals[0])
        root = ("T", next(eng.seq))
        s.mem[root] = St("array", d)
        return [(s, Ref(root, (), False))]
    if name in ("raw_dim", "dim"):
        d, _ = as_array(eng, s, vals[0])
        if name == "dim":
            return [(s, d[0] if len(d) == 1 else St("tuple", d))]
        return [(s, St("Dim", d))]
    if name == "assign":
        d1, _ = as_array(eng, s, vals[0])
        d2, c2 = as_array(eng, s, vals[1])
        same_dims(eng, s, eng.where(fn) + " assign", d1, d2)
        set_array(eng, s, vals[0], c2)
        return [(s, UNIT)]
    if name == "fill":
        d1, _ = as_array(eng, s, vals[0])
        set_array(eng, s, vals[0], const_arr(len(d1), vals[1]))
        return [(s, UNIT)]
    if name == "scaled_add":
        d1, c1 = as_array(eng, s, vals[0])
        d2, c2 = as_array(eng, s, vals[2])
        same_dims(eng, s, eng.where(fn) + " scaled_add", d1, d2)
        a = vals[1]
        set_array(eng, s, vals[0], mklam(len(d1), lambda *x: add(sel(c1, *x), mul(a, sel(c2, *x)))))
        return [(s, UNIT)]
    if name == "sum":
        d, cc = as_array(eng, s, vals[0])
        if len(d) == 1:
            return [(s, mksum(I0, d[0], lambda i: sel(cc, i)))]
    if name == "dot":
        d, c1 = as_array(eng, s, vals[0])
        d2, c2 = as_array(eng, s, vals[1])
        if len(d) == 1 and len(d2) == 1:
            same_dims(eng, s, eng.where(fn) + " dot", d, d2)
            return [(s, mksum(I0, d[0], lambda i: mul(sel(c1, i), sel(c2, i))))]
        if len(d) == 2 and len(d2) == 1:
            return [(s, Ar((d[0],), mklam(1, lambda i: mksum(I0, d[1], lambda j: mul(sel(c1, i, j), sel(c2, j))))))]
    if name == "new_unchecked":
        return [(s, St("SliceInfo", tuple(vals[0].f)))]
    if name in ("slice", "slice_mut"):
        root, path, off, dims, _ = place_of(eng, s, vals[0])
        info = vals[1]
        if len(info.f) != 1 or len(dims) != 1:
            raise Unsupported("slice rank")
        r = info.f[0]
        lo, hi = I0, dims[0]
        if r.tag in ("Range", "RangeFrom"):
            lo = r.f[0]
        if r.tag == "Range":
            hi = r.f[1]
        if r.tag == "RangeTo":
            hi = r.f[0]
        eng.oblige(s, "panic", "%s: slice in bounds" % eng.where(fn), land(le(I0, lo), le(lo, hi), le(hi, dims[0])))
        return [(s, View(root, path, (add(off[0], lo),), (sub(hi, lo),)))]
    return NotImplemented


# ---------------------------------------------------------------- user functions
def user_call(eng, s, fn, vals):
    f = deref(eng, s, vals[0])
    if isinstance(f, Fv):
        if f.kind == "callback":
            return eng.on_callback(s, vals[1].f[0])
        args = vals[1].f
        s = s.copy()
        return [(x, UNIT) for x in rhs_call(eng, s, f.kind, args, fn)]
    raise Unsupported("call of %r" % (f,))


def rhs_call(eng, s, kind, args, fn):
    du, u, t, p = args
    d1, _ = as_array(eng, s, du)
    d2, uc = as_array(eng, s, u)
    params = deref(eng, s, p)
    k = len(d1)
    out = eng.fresh_array({"dudt": "F", "dfdu": "J", "dfdt": "Ft"}[kind], k, "R")
    eng.oblige(s, "shape", "%s: right-hand side called with arrays of one size" % eng.where(fn),
               land(*[eq(x, d2[0]) for x in d1]))
    if eng.nan is not None and kind == "dudt":
        eng.nan_output(s, kind, out)
    s.log.append(Call(kind, TRUE, [], t, uc, d2[0], out, params.t if isinstance(params, Op) else TRUE, next(eng.seq)))
    g = ("G", kind)
    if g in s.mem:
        s.mem[g] = add(s.mem[g], I1)
    set_array(eng, s, du, out)
    return [s]
