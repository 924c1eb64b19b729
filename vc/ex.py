"""Symbolic execution of MIR: values, states, control flow, loops, calls."""
import os
import re
import itertools

from mir import Unsupported, parse_rvalue
import mir
import term as tm
from term import *  # noqa: F401,F403
import prove as pv

U64 = 2 ** 64


# ---------------------------------------------------------------- values
class St:
    """struct, tuple or fixed array: fields by position"""
    __slots__ = ("tag", "f")

    def __init__(self, tag, f):
        self.tag, self.f = tag, tuple(f)

    def __repr__(self):
        return "%s%r" % (self.tag, self.f)


class En:
    """enum: discriminant term and payload fields of the variants that can be present"""
    __slots__ = ("tag", "d", "p")

    def __init__(self, tag, d, p):
        self.tag, self.d, self.p = tag, d, p

    def __repr__(self):
        return "%s(%r,%r)" % (self.tag, self.d, self.p)


class Ar:
    """owned array or Vec of scalars"""
    __slots__ = ("dims", "c")

    def __init__(self, dims, c):
        self.dims, self.c = tuple(dims), c

    def __repr__(self):
        return "Ar(%r,%r)" % (self.dims, self.c)


class VA:
    """Vec of one-dimensional arrays: length, content(i,j), lengths(i)"""
    __slots__ = ("n", "c", "lens")

    def __init__(self, n, c, lens):
        self.n, self.c, self.lens = n, c, lens


class Ref:
    __slots__ = ("root", "path", "mut")

    def __init__(self, root, path=(), mut=True):
        self.root, self.path, self.mut = root, tuple(path), mut

    def key(self):
        return (self.root, self.path)

    def __repr__(self):
        return "&%r%r" % (self.root, self.path)


class View:
    """array view or slice: base array place, offsets, dims"""
    __slots__ = ("root", "path", "off", "dims")

    def __init__(self, root, path, off, dims):
        self.root, self.path, self.off, self.dims = root, tuple(path), tuple(off), tuple(dims)

    def key(self):
        return (self.root, self.path, self.off, self.dims)

    def __repr__(self):
        return "View(%r,%r,%r,%r)" % (self.root, self.path, self.off, self.dims)


class Op:
    """opaque value identified by a term of sort U"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Op(%r)" % (self.t,)


class Fv:
    """a user function: kind is dudt, dfdu, dfdt or callback"""
    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return "fn:" + self.kind


class Unit:
    def __repr__(self):
        return "()"


UNIT = Unit()


class NoMerge(Exception):
    pass


def leaves(v, key=()):
    """yield (key, term) for the term leaves and (key, ('x', obj)) for the others"""
    if isinstance(v, T):
        yield key, v
    elif isinstance(v, St):
        for i, x in enumerate(v.f):
            yield from leaves(x, key + (i,))
    elif isinstance(v, En):
        yield key + ("d",), v.d
        for k in sorted(v.p):
            for i, x in enumerate(v.p[k]):
                yield from leaves(x, key + ("p", k, i))
    elif isinstance(v, Ar):
        for i, d in enumerate(v.dims):
            yield key + ("dim", i), d
        yield key + ("c",), v.c
    elif isinstance(v, VA):
        yield key + ("n",), v.n
        yield key + ("c",), v.c
        yield key + ("lens",), v.lens
    else:
        yield key, ("x", v)


def with_leaves(v, fn, key=()):
    """rebuild v with term leaves mapped by fn(key, term)"""
    if isinstance(v, T):
        return fn(key, v)
    if isinstance(v, St):
        return St(v.tag, [with_leaves(x, fn, key + (i,)) for i, x in enumerate(v.f)])
    if isinstance(v, En):
        return En(v.tag, fn(key + ("d",), v.d),
                  {k: tuple(with_leaves(x, fn, key + ("p", k, i)) for i, x in enumerate(v.p[k])) for k in v.p})
    if isinstance(v, Ar):
        return Ar([fn(key + ("dim", i), d) for i, d in enumerate(v.dims)], fn(key + ("c",), v.c))
    if isinstance(v, VA):
        return VA(fn(key + ("n",), v.n), fn(key + ("c",), v.c), fn(key + ("lens",), v.lens))
    return v


def same_obj(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Ref, View)):
        return a.key() == b.key()
    if isinstance(a, Op):
        return a.t is b.t
    if isinstance(a, Fv):
        return a.kind == b.kind
    if isinstance(a, Unit):
        return True
    return a == b


def merge_val(c, a, b):
    """ite(c, a, b) on values"""
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            raise NoMerge()
        return ite(c, a, b)
    if type(a) is not type(b):
        raise NoMerge()
    if isinstance(a, St):
        if a.tag != b.tag or len(a.f) != len(b.f):
            raise NoMerge()
        return St(a.tag, [merge_val(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, En):
        p = {}
        for k in sorted(set(a.p) | set(b.p), key=repr):
            if k in a.p and k in b.p:
                p[k] = tuple(merge_val(c, x, y) for x, y in zip(a.p[k], b.p[k]))
            else:
                p[k] = a.p.get(k) or b.p.get(k)
        return En(a.tag, ite(c, a.d, b.d), p)
    if isinstance(a, Ar):
        if len(a.dims) != len(b.dims) or a.c.sort != b.c.sort:
            raise NoMerge()
        return Ar([ite(c, x, y) for x, y in zip(a.dims, b.dims)], ite(c, a.c, b.c))
    if isinstance(a, VA):
        return VA(ite(c, a.n, b.n), ite(c, a.c, b.c), ite(c, a.lens, b.lens))
    if isinstance(a, View):
        if (a.root, a.path) == (b.root, b.path) and len(a.dims) == len(b.dims):
            return View(a.root, a.path, [ite(c, x, y) for x, y in zip(a.off, b.off)],
                        [ite(c, x, y) for x, y in zip(a.dims, b.dims)])
        raise NoMerge()
    if isinstance(a, Op):
        return a if a.t is b.t else Op(ite(c, a.t, b.t))
    if isinstance(a, Ref):
        if a.root == b.root and len(a.path) == len(b.path):
            p = []
            for x, y in zip(a.path, b.path):
                if x == y:
                    p.append(x)
                elif x[0] == "e" and y[0] == "e" and len(x[1]) == len(y[1]):
                    p.append(("e", tuple(ite(c, s, t) for s, t in zip(x[1], y[1]))))
                else:
                    raise NoMerge()
            return Ref(a.root, p, a.mut)
        raise NoMerge()
    if same_obj(a, b):
        return a
    raise NoMerge()


# ---------------------------------------------------------------- states
class Call:
    """one entry of the ghost call log"""

    def __init__(self, kind, guard, loops, t, u, n, out, params, seq):
        self.kind, self.guard, self.loops = kind, guard, loops
        self.t, self.u, self.n, self.out, self.params, self.seq = t, u, n, out, params, seq

    def guarded(self, g):
        return Call(self.kind, land(g, self.guard), self.loops, self.t, self.u, self.n, self.out, self.params, self.seq)

    def mapped(self, fn, loops=None, guard=None):
        return Call(self.kind, guard if guard is not None else fn(self.guard), loops if loops is not None else self.loops,
                    fn(self.t), fn(self.u), fn(self.n), fn(self.out), fn(self.params), self.seq)

    def __repr__(self):
        return "Call(%s, g=%r, loops=%r, t=%r, u=%r, out=%r)" % (self.kind, self.guard, self.loops, self.t, self.u, self.out)


class State:
    __slots__ = ("mem", "pc", "facts", "log", "taint", "aux")

    def __init__(self):
        self.mem, self.pc, self.facts, self.log = {}, [], [], []
        self.taint = ()
        self.aux = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.log = list(self.log)
        s.taint = self.taint
        s.aux = dict(self.aux)
        return s

    def hyps(self):
        return self.pc + self.facts

    def assume(self, c):
        if c is not TRUE:
            self.pc.append(c)

    def fact(self, c):
        if c is not TRUE and c not in self.facts:
            self.facts.append(c)


def factor_or(a, b):
    """a or b, with the conjuncts shared by all disjuncts pulled out"""
    ds = []
    for t in (a, b):
        ds += list(t.args) if t.op == "or" else [t]
    for _ in range(4):
        hit = False
        for i in range(len(ds)):
            for j in range(i + 1, len(ds)):
                x = set(ds[i].args) if ds[i].op == "and" else {ds[i]}
                y = set(ds[j].args) if ds[j].op == "and" else {ds[j]}
                com = x & y
                if com:
                    byid = lambda q: sorted(q, key=lambda t: t.id)
                    rest = lor(land(*byid(x - com)), land(*byid(y - com)))
                    m = land(*byid(com), rest)
                    if rest is TRUE or rest.op != "or":
                        ds[i] = m
                        del ds[j]
                        hit = True
                        break
            if hit:
                break
        if not hit:
            break
    return lor(*ds)


def merge_states(a, b):
    k = 0
    while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]:
        k += 1
    ra, rb = land(*a.pc[k:]), land(*b.pc[k:])
    if ra is FALSE:
        return b
    if rb is FALSE:
        return a
    s = State()
    if ra is TRUE and rb is TRUE:
        raise NoMerge()
    # conjuncts shared by both sides stay in the path condition
    ca = list(ra.args) if ra.op == "and" else [ra]
    cb = list(rb.args) if rb.op == "and" else [rb]
    common = [h for h in ca if h in cb and h is not TRUE]
    ra = land(*[h for h in ca if h not in common])
    rb = land(*[h for h in cb if h not in common])
    x, y = a, b
    if ra is TRUE or (rb is not TRUE and len(subterms(rb)) < len(subterms(ra))):
        x, y = b, a
    c = ra if x is a else rb
    for r in x.mem:
        if r in y.mem:
            s.mem[r] = merge_val(c, x.mem[r], y.mem[r])
    s.pc = a.pc[:k] + common
    o = factor_or(ra, rb)
    if o is not TRUE:
        s.pc.append(o)
    s.facts = list(a.facts)
    fs = set(s.facts)
    for f in b.facts:
        if f not in fs:
            s.facts.append(f)
    j = 0
    while j < len(a.log) and j < len(b.log) and a.log[j] is b.log[j]:
        j += 1
    s.log = a.log[:j] + [e.guarded(ra) for e in a.log[j:]] + [e.guarded(rb) for e in b.log[j:]]
    s.taint = a.taint + tuple(t for t in b.taint if t not in a.taint)
    for key in x.aux:
        if key in y.aux:
            if x.aux[key] is y.aux[key]:
                s.aux[key] = x.aux[key]
            elif isinstance(x.aux[key], T) and isinstance(y.aux[key], T):
                s.aux[key] = ite(c, x.aux[key], y.aux[key])
    return s


SPLIT = [None]      # states with different keys are kept apart


def merge_all(states):
    """merge as far as possible; returns a list"""
    out = []
    key = SPLIT[0] or (lambda s: None)
    for s in states:
        for i, o in enumerate(out):
            if key(o) != key(s):
                continue
            try:
                out[i] = merge_states(o, s)
                break
            except NoMerge:
                continue
        else:
            out.append(s)
    return out


class Obl:
    """an obligation: name, hypotheses, goal"""

    def __init__(self, kind, name, hyps, goal, taint=(), where=""):
        self.kind, self.name, self.hyps, self.goal, self.taint, self.where = kind, name, hyps, goal, taint, where


class LoopFail(Exception):
    pass


# ---------------------------------------------------------------- engine
class Engine:
    def __init__(self, prog, structs, enums, impls, alg=None):
        self.prog, self.structs, self.enums = prog, structs, enums
        self.alg = alg
        self.frames = itertools.count()
        self.loopidx = []
        self.obls = []
        self.visited = set()
        self.inlined = {}
        self.used_specs = set()
        self.nan = None            # lib.Nan in runs about values that are not numbers
        self.call_spec = {}      # function key -> python specification replacing the call
        self.loop_hints = {}     # (function, ordinal) -> hint
        self.any_hint = None     # hint for loops of other functions
        self.trial = 0           # inside a pass that only looks for modified leaves
        self.snap = None         # canonical form of floating-point literals
        self.seq = itertools.count()
        self.steps = 0
        self.impls = impls
        self.index(impls)
        import lib
        self.lib = lib
        self.statics = {}

    # -- function lookup
    def index(self, impls):
        self.byname = {}
        self.keyof = {}
        for f in self.prog.fns:
            m = re.search(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(\w+)$", f.name)
            if m:
                typ, trait = self.impl_header(impls, m)
                key = (typ, m.group(6), trait)
            else:
                last = re.search(r"(\w+)$", f.name)
                key = (None, last.group(1) if last else f.name, None)
            self.keyof[f] = key
            self.byname.setdefault(key[1], []).append((key, f))

    def impl_header(self, impls, m):
        path, l0, c0, l1, c1 = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5))
        lines = impls.get(path)
        if not lines:
            return None, None
        if l0 == l1:
            txt = lines[l0 - 1][c0 - 1:c1 - 1]
        else:
            txt = " ".join([lines[l0 - 1][c0 - 1:]] + lines[l0:l1 - 1] + [lines[l1 - 1][:c1 - 1]])
        if not txt.startswith(("impl", "unsafe impl")):
            # a derive: the item that follows
            for ln in lines[l0 - 1:]:
                mm = re.search(r"\b(?:struct|enum)\s+(\w+)", ln)
                if mm:
                    return mm.group(1), txt.strip()
            return None, txt.strip()
        txt = txt.replace("unsafe impl", "impl")[4:].strip()
        if txt.startswith("<"):
            txt = txt[mir.match_close(txt, 0):].strip()
        txt = txt.split(" where ")[0]
        trait = None
        if " for " in txt:
            trait, txt = txt.split(" for ", 1)
            trait = re.sub(r"<.*", "", trait).strip().split("::")[-1]
        byref = txt.strip().startswith("&")
        typ = re.sub(r"^&('\w+ )?(mut )?", "", txt.strip())
        typ = re.sub(r"<.*", "", typ).strip().split("::")[-1]
        return ("&" if byref else "") + typ, trait

    def find(self, typ, name, trait=None):
        c = [f for (k, f) in self.byname.get(name, []) if (typ is None or k[0] == typ) and (trait is None or k[2] == trait)]
        if typ is None:
            c2 = [f for f in c if self.keyof[f][0] is None]
            c = c2 or c
        if len(c) != 1:
            raise Unsupported("function %s::%s: %d candidates" % (typ, name, len(c)))
        return c[0]

    def resolve(self, callee):
        """crate function of a call's callee text, or None"""
        s = strip_generics_tail(callee)
        m = re.match(r"^<(.*) as ([\w:]+)(?:<.*>)?>::(\w+)$", s, re.S)
        if m:
            typ, trait, name = m.group(1), m.group(2).split("::")[-1], m.group(3)
            t = base_type(typ)
            if t == "Alg" and self.alg:
                t = self.alg
            for k, f in self.byname.get(name, []):
                if k[2] == trait and k[0] == t:
                    return f
            return None
        m = re.match(r"^(?:[\w:]+::)?<impl (.*)>::(\w+)$", s, re.S)
        if m:
            t = base_type(m.group(1).split(" for ")[-1])
            for k, f in self.byname.get(m.group(2), []):
                if k[0] == t and k[2] is None or k[0] == t and " for " in m.group(1):
                    return f
            return None
        m = re.match(r"^(.*)::(\w+)$", s, re.S)
        if m:
            t = base_type(m.group(1))
            for k, f in self.byname.get(m.group(2), []):
                if k[0] == t and k[2] in (None, "Default", "Clone"):
                    return f
            for k, f in self.byname.get(m.group(2), []):
                if k[0] is None and (f.name == s or f.name.endswith("::" + s.split("::")[-1])) and \
                        not re.match(r"^[A-Z]", t or "x"):
                    return f
            return None
        for k, f in self.byname.get(s, []):
            if k[0] is None:
                return f
        return None

    # -- fresh symbols
    def fresh_scalar(self, prefix, sort):
        n = fresh(prefix)
        return app(n, sort, *self.loopidx) if self.loopidx else var(n, sort)

    def nan_output(self, s, kind, out):
        """an output array of a user function or linear solve in a run about values that are not numbers"""
        if self.nan is not None and self.nan.when(s, kind):
            self.nan.arrays.add(out.args[0])

    def fresh_array(self, prefix, k, elem):
        return av(fresh(prefix), k, elem, *self.loopidx)

    # -- obligations
    def oblige(self, s, kind, name, goal):
        goal_s = goal
        if goal_s is TRUE:
            self.trivial = getattr(self, "trivial", 0) + 1
            self.obls.append(Obl(kind, name, [], TRUE, s.taint))
            return
        self.obls.append(Obl(kind, name, s.hyps(), goal, s.taint))

    # -- memory
    def read(self, s, root, path):
        try:
            v = self.statics[root] if root[0] == "K" else s.mem[root]
        except KeyError:
            raise Unsupported("read of uninitialised %r" % (root,))
        return self.get(v, path)

    def get(self, v, path):
        for p in path:
            if p[0] == "f":
                if isinstance(v, St):
                    if p[1] >= len(v.f):
                        raise Unsupported("field %d of %s" % (p[1], v.tag))
                    v = v.f[p[1]]
                else:
                    raise Unsupported("field of %r" % (v,))
            elif p[0] == "p":
                if not isinstance(v, En) or p[1] not in v.p:
                    raise Unsupported("payload %r of %r" % (p, v))
                v = v.p[p[1]][p[2]]
            elif p[0] == "e":
                if isinstance(v, Ar):
                    v = sel(v.c, *p[1])
                elif isinstance(v, VA):
                    i = p[1][0]
                    c = v.c
                    v = Ar((sel(v.lens, i),), mklam(1, lambda j: sel(c, i, j)))
                elif isinstance(v, St) and isc(p[1][0]):
                    v = v.f[p[1][0].args]
                else:
                    raise Unsupported("element of %r" % (v,))
            else:
                raise Unsupported("path %r" % (p,))
        return v

    def put(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == "f":
            if not isinstance(v, St):
                raise Unsupported("field write into %r" % (v,))
            f = list(v.f)
            while len(f) <= p[1]:
                f.append(None)
            f[p[1]] = self.put(f[p[1]], path[1:], x)
            return St(v.tag, f)
        if p[0] == "p":
            q = dict(v.p)
            t = list(q.get(p[1], ()))
            while len(t) <= p[2]:
                t.append(None)
            t[p[2]] = self.put(t[p[2]], path[1:], x)
            q[p[1]] = tuple(t)
            return En(v.tag, v.d, q)
        if p[0] == "e":
            if isinstance(v, Ar):
                if len(path) != 1 or not isinstance(x, T):
                    raise Unsupported("element write")
                return Ar(v.dims, store(v.c, p[1], x))
            if isinstance(v, VA):
                i = p[1][0]
                row = self.put(Ar((sel(v.lens, i),), mklam(1, lambda j: sel(v.c, i, j))), path[1:], x)
                c, lens = v.c, v.lens
                return VA(v.n, mklam(2, lambda a, b: ite(eq(a, i), sel(row.c, b), sel(c, a, b))),
                          mklam(1, lambda a: ite(eq(a, i), row.dims[0], sel(lens, a))))
            if isinstance(v, St) and isc(p[1][0]):
                f = list(v.f)
                f[p[1][0].args] = self.put(f[p[1][0].args], path[1:], x)
                return St(v.tag, f)
        raise Unsupported("write path %r into %r" % (p, v))

    def write(self, s, root, path, x):
        if not path:
            s.mem[root] = x
            return
        if root not in s.mem:
            if path[0][0] == "f":
                s.mem[root] = self.put(St("?", ()), path, x)
                return
            raise Unsupported("write to uninitialised %r" % (root,))
        s.mem[root] = self.put(s.mem[root], path, x)

    def place(self, s, fr, pl):
        """(root, path) of a MIR place"""
        local, projs = pl
        root, path = ("L", fr, local), ()
        variant = None
        for p in projs:
            if p[0] == "*":
                v = self.read(s, root, path)
                if isinstance(v, Ref):
                    root, path = v.root, v.path
                elif isinstance(v, (Fv, Op)):
                    return ("V", v), ()
                elif isinstance(v, View):
                    return ("V", v), ()
                else:
                    raise Unsupported("deref of %r" % (v,))
            elif p[0] == ".":
                if variant is not None:
                    path = path + (("p", variant, p[1]),)
                    variant = None
                else:
                    path = path + (("f", p[1]),)
            elif p[0] == "as":
                v = self.read(s, root, path)
                variant = self.variant_index(v, p[1])
            elif p[0] in ("[", "c"):
                idx = self.read(s, ("L", fr, p[1]), ()) if p[0] == "[" else ic(p[1])
                if root[0] == "V":
                    v = root[1]
                    root, path = v.root, v.path + (("e", tuple(add(o, i) for o, i in zip(v.off, (idx,)))),)
                else:
                    path = path + (("e", (idx,)),)
            else:
                raise Unsupported("projection %r" % (p,))
        return root, path

    def variant_index(self, v, name):
        tag = v.tag if isinstance(v, En) else ""
        if tag == "Option":
            return {"None": 0, "Some": 1}[name]
        if tag in self.enums and name in self.enums[tag]:
            return self.enums[tag].index(name)
        raise Unsupported("variant %s of %r" % (name, v))

    def load(self, s, fr, pl):
        root, path = self.place(s, fr, pl)
        if root[0] == "V":
            return root[1]
        return self.read(s, root, path)

    def operand(self, s, fr, op):
        if op[0] == "const":
            return self.const(s, op[1])
        return self.load(s, fr, op[1])

    # -- constants
    def const(self, s, text):
        return self.lib.constant(self, s, text)

    # -- statements
    def assign(self, s, fr, fn, pl, rv):
        root, path = self.place(s, fr, pl)
        if root[0] == "V":
            raise Unsupported("assignment through %r" % (root[1],))
        v = self.rvalue(s, fr, fn, rv, pl)
        self.write(s, root, path, v)

    def rvalue(self, s, fr, fn, rv, pl=None):
        k = rv[0]
        if k == "use":
            return self.operand(s, fr, rv[1])
        if k == "ref":
            root, path = self.place(s, fr, rv[2])
            if root[0] == "V":
                return root[1]
            return Ref(root, path, rv[1])
        if k == "bin":
            return self.lib.binop(self, s, rv[1], self.operand(s, fr, rv[2]), self.operand(s, fr, rv[3]),
                                  self.optype(fn, rv[2]) or self.optype(fn, rv[3]))
        if k == "un":
            v = self.operand(s, fr, rv[2])
            if rv[1] == "Neg":
                return neg(v)
            if rv[1] == "Not":
                return lnot(v)
            if rv[1] == "PtrMetadata":
                if isinstance(v, View):
                    return v.dims[0]
                if isinstance(v, Ref):
                    w = self.read(s, v.root, v.path)
                    if isinstance(w, Ar):
                        return w.dims[0]
                    if isinstance(w, St):
                        return ic(len(w.f))
            raise Unsupported("unary %s on %r" % (rv[1], v))
        if k == "cast":
            return self.lib.cast(self, s, self.operand(s, fr, rv[1]), rv[2], rv[3], self.optype(fn, rv[1]))
        if k == "discr":
            v = self.load(s, fr, rv[1])
            if isinstance(v, En):
                return v.d
            raise Unsupported("discriminant of %r" % (v,))
        if k == "len":
            v = self.load(s, fr, rv[1])
            if isinstance(v, (Ar, View)):
                return v.dims[0]
            if isinstance(v, St):
                return ic(len(v.f))
            raise Unsupported("len")
        if k == "agg":
            return self.lib.aggregate(self, s, rv[1], rv[2], [(n, self.operand(s, fr, o)) for n, o in rv[3]],
                                      fn.locals.get(pl[0]) if pl and not pl[1] else None)
        if k == "repeat":
            n = rv[2]
            m = re.match(r"(?:const )?(\d+)", n)
            v = self.operand(s, fr, rv[1])
            if m:
                return St("array", [v] * int(m.group(1)))
        raise Unsupported("rvalue %r" % (rv[0],))

    def optype(self, fn, op):
        if op[0] == "const":
            m = re.search(r"_(usize|isize|i32|u32|i64|u64)$", op[1])
            return m.group(1) if m else ("f64" if op[1].endswith("f64") else None)
        local, projs = op[1]
        for p in reversed(projs):
            if p[0] == ".":
                return p[2]
            if p[0] in ("[", "c"):
                return None
        if not projs:
            return fn.locals.get(local)
        if all(p[0] == "*" for p in projs):
            t = fn.locals.get(local, "")
            return re.sub(r"^&(mut )?", "", t)
        return None

    # -- control flow
    def cfg(self, fn):
        if hasattr(fn, "rpo"):
            return
        code = self.prog.lower(fn)
        succ = {}
        for b, (_, t) in code.items():
            if t[0] == "goto":
                succ[b] = [t[1]]
            elif t[0] == "switch":
                succ[b] = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif t[0] == "assert":
                succ[b] = [t[4]]
            elif t[0] == "drop":
                succ[b] = [t[2]]
            elif t[0] == "call":
                succ[b] = [t[4]] if t[4] is not None else []
            else:
                succ[b] = []
            succ[b] = [x for x in succ[b] if x in code]
        order, seen = [], set()

        def dfs(b0):
            stack = [(b0, iter(succ[b0]))]
            seen.add(b0)
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        stack.append((x, iter(succ[x])))
                        break
                else:
                    order.append(b)
                    stack.pop()
        dfs(0)
        order.reverse()
        fn.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for x in succ[b]:
                preds[x].append(b)
        dom = {0: {0}}
        allb = set(order)
        for b in order[1:]:
            dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in preds[b]]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in order:
            for x in succ[b]:
                if x in dom[b]:
                    body = loops.setdefault(x, {x})
                    stack = [b]
                    while stack:
                        y = stack.pop()
                        if y not in body:
                            body.add(y)
                            stack.extend(preds[y])
        fn.loops = loops
        fn.succ = succ
        # loops in program order with nesting depth
        fn.loop_depth = {h: sum(1 for g, bd in loops.items() if h in bd) for h in loops}
        fn.loop_parent = {}
        for h in loops:
            outer = [g for g, bd in loops.items() if g != h and h in bd]
            fn.loop_parent[h] = min(outer, key=lambda g: len(loops[g])) if outer else None

    def call_fn(self, s, fn, args, depth):
        """inline fn; returns list of (state, value)"""
        if depth > 12:
            raise Unsupported("call depth")
        self.cfg(fn)
        self.visited.add(fn.name)
        fr = next(self.frames)
        s = s.copy()
        for (n, t), v in zip(fn.args, args):
            s.mem[("L", fr, n)] = v
        self._cur = fn
        exits = self.run(fn, fr, 0, [s], set(fn.rpo), None, depth)
        out = []
        rets = exits.get("ret", [])
        if depth > 0 or len(rets) > 8:
            rets = merge_all(rets)
        for x in rets:
            v = x.mem.get(("L", fr, 0), UNIT)
            x = x.copy()
            for r in [r for r in x.mem if r[0] == "L" and r[1] == fr]:
                del x.mem[r]
            if isinstance(v, Ref) and v.root[0] == "L" and v.root[1] == fr:
                raise Unsupported("reference to a dead local")
            out.append((x, v))
        return out

    def run(self, fn, fr, start, states, blocks, header, depth):
        """execute the region `blocks` from `start`; returns exits: 'ret', 'back' or outside block -> states"""
        pend = {start: list(states)}
        exits = {}
        first = True

        def emit(b, st):
            if b == header:
                exits.setdefault("back", []).append(st)
            elif b in blocks:
                pend.setdefault(b, []).append(st)
            else:
                exits.setdefault(b, []).append(st)

        while pend:
            b = min(pend, key=lambda x: fn.rpo[x])
            sts = pend.pop(b)
            if not (depth == 0 and header is None and b in self.tail(fn) and len(sts) <= 8):
                sts = merge_all(sts)
            for s in sts:
                self.steps += 1
                if self.steps > 200000:
                    raise Unsupported("step limit")
                if b in fn.loops and not (b == header and first):
                    for t, x in self.loop(fn, fr, b, s, depth):
                        if t == "ret":
                            exits.setdefault("ret", []).append(x)
                        else:
                            emit(t, x)
                    continue
                for t, x in self.block(fn, fr, b, s, depth):
                    if t == "ret":
                        exits.setdefault("ret", []).append(x)
                    else:
                        emit(t, x)
            first = False
        return exits

    def tail(self, fn):
        """blocks that run straight to the return"""
        if not hasattr(fn, "tailset"):
            code = self.prog.lower(fn)
            fn.tailset = set()
            for b in sorted(fn.rpo, key=lambda x: -fn.rpo[x]):
                t = code[b][1]
                if t[0] == "return" or (t[0] in ("goto", "drop") and fn.succ[b] and fn.succ[b][0] in fn.tailset):
                    fn.tailset.add(b)
        return fn.tailset

    def stmts(self, fn, fr, b, s):
        code = self.prog.lower(fn)
        for st in code[b][0]:
            if st[0] == "assign":
                rv = fn.__dict__.setdefault("rv", {}).get(st[2])
                if rv is None:
                    rv = parse_rvalue(st[2])
                    fn.rv[st[2]] = rv
                self.assign(s, fr, fn, st[1], rv)
            elif st[0] == "dead":
                s.mem.pop(("L", fr, st[1]), None)
            elif st[0] == "setdiscr":
                root, path = self.place(s, fr, st[1])
                v = self.read(s, root, path)
                self.write(s, root, path, En(v.tag, ic(st[2]), v.p))
        return code[b][1]

    def block(self, fn, fr, b, s, depth):
        s = s.copy()
        t = self.stmts(fn, fr, b, s)
        return self.terminator(fn, fr, b, s, t, depth)

    def where(self, fn):
        return self.fname(fn)

    def fname(self, fn):
        k = self.keyof.get(fn)
        if k is None:
            return fn.name
        return ("%s::%s" % (k[0], k[1])) if k[0] else k[1]

    def branch(self, s, c):
        """TRUE, FALSE or None for a condition under the path condition (syntactic)"""
        if isc(c):
            return c
        known = {}
        for h in s.pc:
            for x in (h.args if h.op == "and" else (h,)):
                known[x] = TRUE
                known[lnot(x)] = FALSE
        if c in known:
            return known[c]
        if c.op == "and" and all(known.get(x) is TRUE for x in c.args):
            return TRUE
        if c.op == "and" and any(known.get(x) is FALSE for x in c.args):
            return FALSE
        if c.op == "or" and all(known.get(x) is FALSE for x in c.args):
            return FALSE
        if c.op == "or" and any(known.get(x) is TRUE for x in c.args):
            return TRUE
        return None

    def terminator(self, fn, fr, b, s, t, depth):
        k = t[0]
        if k == "goto":
            return [(t[1], s)]
        if k == "return":
            return [("ret", s)]
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            return [(t[2], s)]
        if k == "switch":
            v = self.operand(s, fr, t[1])
            if not isinstance(v, T):
                raise Unsupported("switch on %r" % (v,))
            out = []
            conds = []
            for val, tgt in t[2]:
                c = (lnot(v) if val == 0 else v) if v.sort == "B" else eq(v, ic(val))
                conds.append((c, tgt))
            if t[3] is not None:
                conds.append((land(*[lnot(c) for c, _ in conds]), t[3]))
            for c, tgt in conds:
                r = self.branch(s, c)
                if r is FALSE:
                    continue
                x = s.copy()
                if r is None:
                    x.assume(c)
                out.append((tgt, x))
                if r is TRUE:
                    break
            return out
        if k == "assert":
            c = self.operand(s, fr, t[1])
            c = c if t[2] else lnot(c)
            self.oblige(s, "panic", "%s: %s" % (self.where(fn), t[3].strip('"')[:60]), c)
            return [(t[4], s)]
        if k == "call":
            dest, callee, args, tgt = t[1], t[2], t[3], t[4]
            vals = [self.operand(s, fr, a) for a in args]
            out = []
            for x, v in self.call(s, fn, callee, vals, depth):
                if tgt is None:
                    continue
                root, path = self.place(x, fr, dest)
                self.write(x, root, path, v)
                out.append((tgt, x))
            return out
        raise Unsupported("terminator %s" % k)

    def call(self, s, fn, callee, vals, depth):
        f = self.resolve(callee)
        if f is not None:
            key = self.fname(f)
            if key in self.call_spec:
                self.used_specs.add(key)
                return self.call_spec[key](self, s, vals, f)
            return self.call_fn(s, f, vals, depth + 1)
        r = self.lib.call(self, s, fn, callee, vals, depth)
        if r is NotImplemented:
            raise Unsupported("call " + callee[:150])
        return r

    # -- loops
    def loop(self, fn, fr, h, s, depth):
        """execute a loop from its header; returns list of (target, state)"""
        hint = None
        hk = self.loop_hints.get(self.fname(fn), self.any_hint)
        if hk is not None:
            hint = hk(self, fn, fr, h, s)
        mark = len(self.obls)
        rng = self.range_header(fn, fr, h, s)
        if hint is None or getattr(hint, "try_auto", False):
            if rng is not None:
                try:
                    return self.range_loop(fn, fr, h, s, rng, depth)
                except LoopFail as e:
                    del self.obls[mark:]
                    why = str(e)
            else:
                why = "not a counted loop"
                try:
                    wh = self.while_header(fn, fr, h, s, depth)
                    del self.obls[mark:]
                    if wh is not None:
                        return self.summarise(fn, fr, h, s, wh, depth)
                except LoopFail as e:
                    why = str(e)
                del self.obls[mark:]
            if hint is None:
                auto = self.generic_hint(fn, h)
                return self.inv_loop(fn, fr, h, s, auto, rng, depth, why)
        return self.inv_loop(fn, fr, h, s, hint, rng, depth, None)

    def generic_hint(self, fn, h):
        return None

    def range_header(self, fn, fr, h, s):
        """(place of the iterator, lo, hi, kind, block whose terminator calls next, its state) for counted loops"""
        code = self.prog.lower(fn)
        b, x = h, s.copy()
        for _ in range(4):
            t = code[b][1]
            if t[0] == "call" and re.search(r"Range<usize> as Iterator>::next$|Rev<std::ops::Range<usize>> as Iterator>::next$|Rev<Range<usize>> as Iterator>::next$|RangeInclusive<usize> as Iterator>::next$", t[2]):
                break
            if t[0] == "goto" and t[1] in fn.loops[h] and t[1] != h:
                self.stmts(fn, fr, b, x)
                b = t[1]
                continue
            return None
        else:
            return None
        t = self.stmts(fn, fr, b, x)
        it = self.operand(x, fr, t[3][0])
        if not isinstance(it, Ref):
            return None
        v = self.read(x, it.root, it.path)
        if isinstance(v, St) and v.tag == "Range":
            return it, v.f[0], v.f[1], "fwd", b, t
        if isinstance(v, St) and v.tag == "Rev" and v.f[0].tag == "Range":
            return it, v.f[0].f[0], v.f[0].f[1], "rev", b, t
        if isinstance(v, St) and v.tag == "RangeInclusive":
            return it, v.f[0], add(v.f[1], I1), "incl", b, t
        return None

    def while_header(self, fn, fr, h, s, depth):
        """a loop counting a local upward to a bound that does not change, tested at the top"""
        H = self.havoc_set(fn, fr, h, s, None, depth, lambda st: None)
        syms = {k: self.leaf_symbol(k, v) for k, v in H.items()}
        st = s.copy()
        self.set_leaves(st, syms)
        back, ex = self.one_pass(fn, fr, h, st, None, depth)
        if not back:
            return None
        fresh_ = set(syms.values())
        for k, sym in syms.items():
            if sym.sort != "I" or k[0][0] != "L" or k[1] != ():
                continue
            if not all(self.state_leaves(e).get(k) is add(sym, I1) for e in back):
                continue
            for c in back[0].pc[len(st.pc):]:
                for a in (c.args if c.op == "and" else (c,)):
                    hi = None
                    if a.op == "le0":
                        d = a.args[0]           # i - hi + 1 <= 0
                        if dict(lin_parts(d)[1]).get(sym) == 1:
                            hi = sub(I1, sub(d, sym))
                    elif a.op == "not" and a.args[0].op == "eq0":
                        d = a.args[0].args[0]
                        kf = dict(lin_parts(d)[1]).get(sym)
                        if kf in (1, -1):
                            hi = scale(-kf, sub(d, scale(kf, sym)))
                    if hi is None or (subterms(hi) & fresh_):
                        continue
                    if any(a not in (set(e.pc) | {y for p in e.pc if p.op == "and" for y in p.args}) for e in back):
                        continue
                    lo = H[k]
                    if a.op == "not" and not pv.Ctx([x for x in s.hyps() if x.op != "forall"]).entails(le(lo, hi)):
                        continue
                    return Ref(k[0], ()), lo, hi, "while", None, None
        return None

    def iter_states(self, fn, fr, h, s, rng, i, depth):
        """one iteration at index value i from start-of-iteration state s -> (back states, exits)"""
        it, lo, hi, kind, b, t = rng
        x = s.copy()
        if kind == "while":
            x.mem[it.root] = i
            ex = self.run(fn, fr, h, [x], fn.loops[h], h, depth)
            return ex.pop("back", []), ex
        # statements up to the call
        code = self.prog.lower(fn)
        bb = h
        while bb != b:
            self.stmts(fn, fr, bb, x)
            bb = code[bb][1][1]
        self.stmts(fn, fr, b, x)
        self.set_iter(x, it, kind, i, None)
        root, path = self.place(x, fr, t[1])
        self.write(x, root, path, En("Option", I1, {1: (i,)}))
        ex = self.run(fn, fr, t[4], [x], fn.loops[h], h, depth)
        back = ex.pop("back", [])
        return back, ex

    def set_iter(self, x, it, kind, i, hi):
        v = self.read(x, it.root, it.path)
        if kind == "fwd":
            nv = St("Range", (add(i, I1), v.f[1]))
        elif kind == "incl":
            nv = St("RangeInclusive", (add(i, I1), v.f[1]))
        else:
            nv = St("Rev", (St("Range", (v.f[0].f[0], i)),))
        self.write(x, it.root, it.path, nv)

    def exit_states(self, fn, fr, h, s, rng, depth):
        """the iterator is exhausted: run the None branch"""
        it, lo, hi, kind, b, t = rng
        x = s.copy()
        if kind == "while":
            x.mem[it.root] = pv.Ctx([y for y in s.hyps() if y.op != "forall"]).simp(ite(le(lo, hi), hi, lo))
            mark = len(self.obls)
            ex = self.run(fn, fr, h, [x], fn.loops[h], h, depth)
            out = []
            for k, v in ex.items():
                for st in v:
                    if pv.Ctx([y for y in st.hyps() if y.op != "forall"]).check(timeout=3000)[0] == pv.z3.unsat:
                        continue
                    if k == "back":
                        raise LoopFail("back edge after exhaustion")
                    out.append((k, st))
            return out
        code = self.prog.lower(fn)
        bb = h
        while bb != b:
            self.stmts(fn, fr, bb, x)
            bb = code[bb][1][1]
        self.stmts(fn, fr, b, x)
        v = self.read(x, it.root, it.path)
        if kind == "fwd":
            self.write(x, it.root, it.path, St("Range", (ite(le(lo, hi), hi, lo), v.f[1])))
        elif kind == "rev":
            self.write(x, it.root, it.path, St("Rev", (St("Range", (lo, ite(le(lo, hi), lo, hi))),)))
        root, path = self.place(x, fr, t[1])
        self.write(x, root, path, En("Option", I0, {}))
        ex = self.run(fn, fr, t[4], [x], fn.loops[h], h, depth)
        out = []
        for k, v in ex.items():
            if k == "back":
                raise LoopFail("back edge after exhaustion")
            out += [(k, st) for st in v]
        return out

    def range_loop(self, fn, fr, h, s, rng, depth):
        it, lo, hi, kind, b, t = rng
        n = sub(hi, lo)
        if isc(n) and n.args <= 6:
            return self.unroll(fn, fr, h, s, rng, n.args, depth)
        return self.summarise(fn, fr, h, s, rng, depth)

    def unroll(self, fn, fr, h, s, rng, n, depth):
        it, lo, hi, kind, b, t = rng
        cur, out = [s], []
        for k in range(max(n, 0)):
            i = add(lo, ic(k)) if kind != "rev" else sub(hi, ic(k + 1))
            nxt = []
            for x in cur:
                back, ex = self.iter_states(fn, fr, h, x, rng, i, depth)
                nxt += back
                for kk, v in ex.items():
                    out += [(kk, st) for st in v]
            cur = merge_all(nxt)
        for x in cur:
            out += self.exit_states(fn, fr, h, x, rng, depth)
        return out

    def state_leaves(self, s, skip=()):
        d = {}
        for r, v in s.mem.items():
            if r in skip:
                continue
            for k, t in leaves(v):
                d[(r, k)] = t
        return d

    def set_leaves(self, s, m):
        roots = {}
        for (r, k), t in m.items():
            roots.setdefault(r, {})[k] = t
        for r, d in roots.items():
            s.mem[r] = with_leaves(s.mem[r], lambda k, t: d.get(k, t))

    def leaf_symbol(self, key, t):
        name = fresh("h" + leaf_name(key))
        if isinstance(t.sort, tuple):
            return av(name, t.sort[1], t.sort[2], *self.loopidx)
        return app(name, t.sort, *self.loopidx) if self.loopidx else var(name, t.sort)

    def changed(self, base, s0, s1, skip):
        """leaves of s1 that differ from s0 under s1's path condition"""
        l0, l1 = self.state_leaves(s0, skip), self.state_leaves(s1, skip)
        out = []
        ctx = None
        for k, a in l0.items():
            if k not in l1:
                if k[0] in s1.mem:
                    # shape change of an enum payload
                    continue
                continue
            b = l1[k]
            if isinstance(a, tuple):
                if not isinstance(b, tuple) or not same_obj(a[1], b[1]):
                    raise LoopFail("reference changes in loop: %r" % (k,))
                continue
            if isinstance(b, tuple):
                raise LoopFail("shape change")
            if a is b:
                continue
            if ctx is None:
                ctx = pv.Ctx([x for x in s1.pc[len(base.pc):] if x.op != "forall"])
            bb = ctx.simp(b, use_solver=False)
            if a is bb:
                continue
            if same_array(a, bb):
                continue
            out.append(k)
        return out

    def summarise(self, fn, fr, h, s, rng, depth):
        it, lo, hi, kind, b, t = rng
        iname = fresh("i")
        i = var(iname, "I")
        skip = {it.root} if it.root[0] == "L" else set()
        H = {}
        self.loopidx.append(i)
        nlog = len(s.log)
        try:
            for _ in range(8):
                mark = len(self.obls)
                st = s.copy()
                # symbols of the leaves at the start of an iteration (not indexed: replaced below)
                self.loopidx.pop()
                syms = {k: self.leaf_symbol(k, v) for k, v in H.items()}
                self.loopidx.append(i)
                self.set_leaves(st, syms)
                rc_ = [le(lo, i), lt(i, hi)]
                for c in rc_:
                    st.assume(c)
                back, ex = self.iter_states(fn, fr, h, st, rng, i, depth)
                live = []
                for kk, v in ex.items():
                    for x in v:
                        if pv.Ctx([y for y in x.hyps()]).check(timeout=3000)[0] != pv.z3.unsat:
                            live.append(kk)
                if live:
                    raise LoopFail("loop has another exit")
                back = merge_all(back)
                if len(back) != 1:
                    raise LoopFail("paths of the body do not merge")
                e = back[0]
                M = self.changed(st, st, e, skip)
                cur = self.state_leaves(s, skip)
                new = {k: cur[k] for k in M if k not in H}
                if not new:
                    break
                H.update(new)
                del self.obls[mark:]
            else:
                raise LoopFail("modified set does not settle")
        finally:
            self.loopidx.pop()
        ends = {k: v for k, v in self.state_leaves(e, skip).items() if k in H}
        ctx = pv.Ctx([x for x in e.pc[len(st.pc):]])
        for k in ends:
            ends[k] = ctx.simp(ends[k], use_solver=False)
        hyps = s.hyps()
        summ = Summary(self, i, lo, hi, kind, H, syms, ends, hyps)
        summ.solve()
        out = s.copy()
        self.set_leaves(out, {k: summ.final(k) for k in H})
        for f in summ.extra:
            out.fact(f)
        # facts found in the body hold at every index
        for f in e.facts[len(s.facts):]:
            g = summ.resolve(f)
            out.fact(forall([iname], implies(land(le(lo, i), lt(i, hi)), g)) if (iname, "I") in g.fv else g)
        # log entries of the body, once per index
        for c in e.log[nlog:]:
            m = c.mapped(summ.resolve)
            out.log.append(Call(m.kind, m.guard, [(iname, lo, hi)] + m.loops, m.t, m.u, m.n, m.out, m.params, m.seq))
        out.taint = e.taint
        # obligations of the body speak about start-of-iteration symbols: make them known
        for o in self.obls[mark:]:
            if o.goal is not TRUE:
                o.hyps = [summ.resolve(x) for x in o.hyps] + summ.local
                o.goal = summ.resolve(o.goal)
        for a in e.aux:
            if a in s.aux and e.aux[a] is not s.aux[a]:
                raise LoopFail("auxiliary state changed in loop")
        return self.exit_states(fn, fr, h, out, rng, depth)

    def havoc_set(self, fn, fr, h, s, rng, depth, start, keep=()):
        """leaves that one pass through the loop can change, as a fixpoint"""
        H = {}
        skip = set()
        self.ups, down = set(), set()
        for _ in range(8):
            mark = len(self.obls)
            st = s.copy()
            syms = {k: self.leaf_symbol(k, v) for k, v in H.items()}
            self.set_leaves(st, syms)
            ups = self.stay_up(H, syms, down)
            start(st)
            self.trial += 1
            try:
                back, ex = self.one_pass(fn, fr, h, st, rng, depth)
            finally:
                self.trial -= 1
            del self.obls[mark:]
            new = {}
            cur = self.state_leaves(s, skip)
            for e in back:
                for k in self.changed(st, st, e, skip):
                    if k not in H and k in cur:
                        new[k] = cur[k]
            lost = self.not_up(back, ups)
            down |= lost
            if not new and not lost:
                self.ups = ups
                return H
            H.update(new)
        raise LoopFail("modified set does not settle")

    def stay_up(self, H, syms, down):
        """in runs about values that are not finite: changed scalars that may be taken as not below zero"""
        if self.nan is None:
            return set()
        ups = {k for k, v in H.items() if v.sort == "R" and k not in down and self.nan.up(v)}
        self.nan.pos |= {syms[k] for k in ups}
        return ups

    def not_up(self, back, ups):
        lost = set()
        for e in back if ups else ():
            cur = self.state_leaves(e, set())
            lost |= {k for k in ups if k not in cur or not self.nan.up(cur[k])}
        return lost

    def one_pass(self, fn, fr, h, st, rng, depth):
        ex = self.run(fn, fr, h, [st], fn.loops[h], h, depth)
        back = merge_all(ex.pop("back", []))
        return back, ex

    def inv_loop(self, fn, fr, h, s, hint, rng, depth, why):
        """loop cut at an invariant. hint.inv(engine, entry_state, state) -> [(name, goal)]"""
        name = "%s loop" % self.fname(fn)
        pre = getattr(hint, "prepare", None)
        if pre is not None:
            s = s.copy()
            pre(self, fn, fr, s)
        if hint is not None:
            for nm, g in hint.inv(self, s, s, True):
                self.oblige(s, "invariant", "%s: %s holds on entry" % (name, nm), g)

        def start(st):
            if hint is not None:
                for nm, g in hint.inv(self, s, st, False):
                    st.assume(g)
        H = self.havoc_set(fn, fr, h, s, rng, depth, start)
        ups = self.ups
        if hasattr(hint, "widen"):
            # known only through the invariant from here on
            H.update({k: v for k, v in self.state_leaves(s, set()).items() if hint.widen(k)})
        st = s.copy()
        syms = {k: self.leaf_symbol(k, v) for k, v in H.items()}
        self.set_leaves(st, syms)
        if ups:
            self.nan.pos |= {syms[k] for k in ups}
        nlog = len(st.log)
        if hint is None:
            st.taint = st.taint + ("%s: %s" % (name, why),)
        st.log = []
        st.aux["forgot"] = True
        for k in H:
            t = syms[k]
            if t.sort == "I" and k[1] and k[1][-1] in ("n",):
                st.fact(ge(t, I0))
            if t.sort == "I" and k[1] and len(k[1]) > 1 and k[1][-2] == "dim":
                st.fact(ge(t, I0))
        for g in getattr(hint, "ghosts", ()):
            v = st.mem[g]
            st.mem[g] = Ar(v.dims, self.fresh_array("g" + leaf_name((g, ())), v.c.sort[1], v.c.sort[2]))
        for ob in getattr(hint, "facts", lambda *a: [])(self, s, st):
            st.fact(ob)
        start(st)
        back, ex = self.one_pass(fn, fr, h, st, rng, depth)
        if self.not_up(back, ups):
            raise Unsupported("sign of a loop variable")
        for e in back:
            if hasattr(hint, "advance"):
                hint.advance(self, st, e)
            if hint is not None:
                for nm, g in hint.inv(self, s, e, True, st):
                    self.oblige(e, "invariant", "%s: %s is preserved" % (name, nm), g)
                var_ = getattr(hint, "variant", None)
                if var_ is not None:
                    for nm, g in var_(self, st, e):
                        self.oblige(e, "variant", "%s: %s" % (name, nm), g)
        out = []
        for k, v in ex.items():
            out += [(k, x) for x in v]
        return out


def leaf_name(key):
    r, k = key
    return "%s%s" % (r[-1], "".join("." + str(x) for x in k))


def same_array(a, b):
    if not isinstance(a.sort, tuple):
        return False
    names = [var(fresh("x"), "I") for _ in range(a.sort[1])]
    return sel(a, *names) is sel(b, *names)


def base_type(t):
    t = re.sub(r"^&('\w+ )?(mut )?", "", t.strip())
    t = re.sub(r"::<.*$", "", t, flags=re.S)
    t = re.sub(r"<.*$", "", t, flags=re.S)
    return t.strip().split("::")[-1]


def strip_generics_tail(s):
    """drop a trailing ::<...> instantiation"""
    s = s.strip()
    while s.endswith(">"):
        depth = 0
        j = len(s) - 1
        while j >= 0:
            if s[j] == ">" and s[j - 1] != "-":
                depth += 1
            elif s[j] == "<":
                depth -= 1
                if depth == 0:
                    break
            j -= 1
        if s[max(0, j - 2):j] == "::":
            s = s[:j - 2]
        else:
            break
    return s


def strip_acc(e, sym):
    """d with e == sym + d, or None"""
    if e is sym:
        return R0 if sym.sort == "R" else I0
    if e.op == "ite" and sym not in subterms(e.args[0]):
        a, b = strip_acc(e.args[1], sym), strip_acc(e.args[2], sym)
        return None if a is None or b is None else ite(e.args[0], a, b)
    d = sub(e, sym)
    return d if sym not in subterms(d) else None


class Summary:
    """closed forms of the leaves a counted loop changes"""

    def __init__(self, eng, i, lo, hi, kind, H, syms, ends, hyps):
        self.eng, self.i, self.lo, self.hi, self.kind = eng, i, lo, hi, kind
        self.H, self.syms, self.ends = H, syms, ends
        self.hyps = [x for x in hyps]
        self.start = {}     # key -> term at the start of iteration i
        self.fin = {}
        self.bysym = {v: k for k, v in syms.items()}
        self.rng = [le(lo, i), lt(i, hi)]
        self.extra = []
        self.local = []     # facts about the values at the start of iteration i
        self.ctx, self.unsats = None, {}

    def unsat(self, *cs):
        if self.ctx is None:
            self.ctx = pv.Ctx([h for h in self.hyps if h.op != "forall"])
        r = self.unsats.get(cs)
        if r is None:
            r = self.unsats[cs] = self.ctx.int_unsat(cs) or self.ctx.check(*cs, timeout=4000)[0] == pv.z3.unsat
        return r

    def writes(self, key):
        """[(guard literals, value)] of array leaf `key` at position X in iteration i"""
        sym, end = self.syms[key], self.ends[key]
        k = sym.sort[1]
        X = [var(fresh("X"), "I") for _ in range(k)]
        base = sel(sym, *X)
        out = []

        def walk(t, lits):
            if t is base:
                return
            if t.op == "ite":
                walk(t.args[1], lits + [t.args[0]])
                walk(t.args[2], lits + [lnot(t.args[0])])
                return
            out.append((lits, t))
        walk(sel(end, *X), [])
        return X, out

    def owner(self, lits, X):
        """solve an equation of the guard for the loop index"""
        for l in lits:
            for a in (l.args if l.op == "and" else (l,)):
                if a.op == "eq0" and a.args[0].sort == "I":
                    k = dict(lin_parts(a.args[0])[1]).get(self.i)
                    if k in (1, -1):
                        rest = sub(a.args[0], scale(k, self.i))
                        if (self.i.args, "I") not in rest.fv and any((x.args, "I") in rest.fv for x in X):
                            return scale(-k, rest)
        return None

    def solve(self):
        arrays = [k for k in self.H if isinstance(self.syms[k].sort, tuple)]
        scal = [k for k in self.H if k not in arrays]
        self.W = {}
        over = []
        for k in arrays:
            X, ws = self.writes(k)
            if len(ws) == 1 and not ws[0][0]:
                over.append(k)      # every element is overwritten in every iteration
                self.W[k] = None
                continue
            cases = []
            for lits, v in ws:
                o = self.owner(lits, X)
                if o is None:
                    raise LoopFail("no owner for write into %s: %r" % (leaf_name(k), lits))
                cases.append([lits, v, o])
            self.W[k] = (X, cases)
        arrays = [k for k in arrays if k not in over]
        scal += over
        # one owner per position
        for k in arrays:
            X, cases = self.W[k]
            for a in range(len(cases)):
                for b in range(a + 1, len(cases)):
                    ga, oa = land(*cases[a][0]), cases[a][2]
                    gb, ob = land(*cases[b][0]), cases[b][2]
                    if oa is ob:
                        continue
                    if not self.unsat(subst(ga, {self.i: oa}), subst(gb, {self.i: ob}), ne(oa, ob),
                                      le(self.lo, oa), lt(oa, self.hi), le(self.lo, ob), lt(ob, self.hi)):
                        raise LoopFail("position written in two iterations")
        self.done = {}
        pending = set(scal)
        # arrays first try: their reads hit entry values
        self.arr_state = {k: "open" for k in arrays}
        for k in arrays:
            X, cases = self.W[k]
            for c in cases:
                c[0] = [self.reads(l, [x for x in c[0] if x is not l] + self.rng) for l in c[0]]
                c[1] = self.reads(c[1], c[0] + self.rng)
        for k in scal:
            self.ends[k] = self.reads(self.ends[k], self.rng)
        # scalars in dependency order
        for _ in range(len(pending) + 1):
            for k in sorted(pending, key=repr):
                e = self.sub_start(self.ends[k])
                deps = {x for x in self.dep_syms(e)}
                sym = self.syms[k]
                if deps == set() or deps == {sym}:
                    f = self.scalar(k, sym, e, deps)
                    if f is None:
                        continue
                    self.start[k], self.fin[k] = f
                    pending.discard(k)
                    break
            else:
                break
        if pending:
            raise LoopFail("no closed form for %s" % ", ".join(leaf_name(k) for k in sorted(pending, key=repr)))
        for k in arrays:
            X, cases = self.W[k]
            for c in cases:
                c[0] = [self.sub_start(l) for l in c[0]]
                c[1] = self.sub_start(c[1])
                if self.dep_syms(c[1]) or any(self.dep_syms(l) for l in c[0]):
                    raise LoopFail("recurrence through array %s" % leaf_name(k))
            entry = self.H[k]
            names = [x.args for x in X]

            def build(hi):
                body = sel(entry, *X)
                for lits, v, o in reversed(cases):
                    m = {self.i: o}
                    if self.kind == "rev":
                        rngc = [le(self.lo, o), lt(o, self.hi)]
                        if hi is not self.hi:
                            rngc = [lt(hi, o), lt(o, self.hi)]
                    else:
                        rngc = [le(self.lo, o), lt(o, hi)]
                    g = land(*([subst(l, m) for l in lits] + rngc))
                    body = ite(g, subst(v, m), body)
                return lam(names, body)
            self.fin[k] = build(self.hi)
            self.start[k] = build(self.i)

    def dep_syms(self, t):
        return {x for x in subterms(t) if x in self.bysym and not (self.bysym[x] in self.start)}

    def sub_start(self, t):
        m = {self.syms[k]: v for k, v in self.start.items()}
        if not m:
            return t
        return replace(t, lambda x: m.get(x))

    def reads(self, t, lits):
        """replace reads of changing arrays that no earlier iteration can have written"""
        memo = {}

        def f(x):
            if x.op == "sel" and x.args[0] in self.bysym:
                k = self.bysym[x.args[0]]
                if self.untouched(k, x.args[1:], lits):
                    return sel(self.H[k], *x.args[1:])
            return None
        return replace(t, f, memo)

    def untouched(self, k, idx, lits):
        if self.W[k] is None:
            return False
        X, cases = self.W[k]
        j = var(fresh("j"), "I")
        for lits2, v, o in cases:
            m = {x: p for x, p in zip(X, idx)}
            g = land(*lits2)
            # any earlier iteration j writes position idx
            g = subst(subst(g, {self.i: j}), m)
            early = [le(self.lo, j), lt(j, self.i)] if self.kind != "rev" else [lt(self.i, j), lt(j, self.hi)]
            cs = [g] + early + self.rng + [l for l in lits if l.sort == "B"]
            try:
                if not self.unsat(*cs):
                    return False
            except ValueError:
                return False
        return True

    def scalar(self, k, sym, e, deps):
        entry = self.H[k]
        i, lo, hi = self.i, self.lo, self.hi
        if not deps:
            if self.kind == "rev":
                first = lambda x: subst(e, {i: add(x, I1)})
                return ite(lt(i, sub(hi, I1)), subst(e, {i: add(i, I1)}), entry), \
                    ite(lt(lo, hi), subst(e, {i: lo}), entry)
            prev = subst(e, {i: sub(i, I1)})
            return ite(lt(lo, i), prev, entry), ite(lt(lo, hi), subst(e, {i: sub(hi, I1)}), entry)
        if sym.sort == "R" or sym.sort == "I":
            d = strip_acc(e, sym)
            if d is not None and sym not in subterms(d):
                if sym.sort == "I":
                    if (i.args, "I") in d.fv:
                        return None
                    cnt = lambda h: ite(le(lo, h), sub(h, lo), I0)
                    if self.kind == "rev":
                        return add(entry, mul(d, sub(sub(hi, I1), i))), add(entry, mul(d, cnt(hi)))
                    return add(entry, mul(d, sub(i, lo))), add(entry, mul(d, cnt(hi)))
                if self.kind == "rev":
                    return add(entry, tsum(add(i, I1), hi, i.args, d)), add(entry, tsum(lo, hi, i.args, d))
                n2 = fresh("b")
                d2 = subst(d, {i: var(n2, "I")})
                return add(entry, tsum(lo, i, n2, d2)), add(entry, tsum(lo, hi, n2, d2))
        if sym.sort == "I":
            r = self.argmax(sym, e, entry)
            if r is not None:
                return r
        return None

    def argmax(self, m, e, entry):
        """m := i when f(i) > f(m)"""
        if e.op != "ite":
            return None
        c, a, b = e.args
        if a is m and b is self.i:
            c, a, b = lnot(c), b, a
        if not (a is self.i and b is m) or c.op not in ("lt0", "le0"):
            return None
        d = c.args[0]          # f(m) - f(i) < 0
        its = lin_parts(d)[1]
        fm = addn([scale(k, x) for x, k in its if m in subterms(x)], d.sort)
        fi = neg(sub(d, fm))
        # scaling may have flipped the order; require fm[m:=i] == fi
        def at(t, v):
            return replace(t, lambda x: v if x is m else None)
        if at(fm, self.i) is not fi:
            return None
        eng = self.eng
        r = eng.fresh_scalar("arg", "I")
        f = lambda v: at(fm, v)
        x = var(fresh("q"), "I")
        facts = [lor(eq(r, entry), land(le(self.lo, r), lt(r, self.hi))),
                 le(f(entry), f(r)),
                 forall([x.args], implies(land(le(self.lo, x), lt(x, self.hi)), le(f(x), f(r))))]
        self.extra += facts
        # start of iteration i: only membership is kept
        st = app(fresh("argst"), "I", self.i, *eng.loopidx)
        self.local.append(lor(eq(st, entry), land(le(self.lo, st), lt(st, self.i))))
        self.extra.append(forall([self.i.args], implies(land(*self.rng), self.local[-1])))
        return st, r

    def final(self, k):
        return self.fin[k]

    def resolve(self, t):
        """express a term over start-of-iteration symbols by closed forms"""
        m = {self.syms[k]: v for k, v in self.start.items()}
        return replace(t, lambda x: m.get(x))
