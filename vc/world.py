"""The program under verification and symbolic instances of its data types."""
import os
import re

import mir
from mir import Unsupported
from term import *  # noqa: F401,F403
from ex import Engine, State, St, En, Ar, VA, Ref, View, Op, Fv, UNIT


class World:
    def __init__(self, text, srcdir):
        self.prog = mir.Program(text)
        self.structs, self.enums, self.impls = mir.load_structs(srcdir)
        self.ftypes = dict(mir.FIELD_TYPES)

    def engine(self, alg=None):
        return Engine(self.prog, self.structs, self.enums, self.impls, alg)

    def symbolic(self, ty, name, n, alg, facts, special=None):
        """a symbolic value of a source type; arrays of rank one get length n unless named in `special`"""
        special = special or {}
        if name in special:
            return special[name]
        t = ty.strip()
        if t == "f64":
            return var(name, "R")
        if t in ("usize", "u64", "u32"):
            v = var(name, "I")
            facts.append(ge(v, I0))
            facts.append(lt(v, ic(2 ** 62)))
            return v
        if t in ("i32", "i64", "isize"):
            return var(name, "I")
        if t == "bool":
            return var(name, "B")
        if re.match(r"^(ndarray::)?Array1<f64>$", t):
            return Ar((n,), av(name, 1, "R"))
        if re.match(r"^(ndarray::)?Array1<i32>$", t):
            return Ar((n,), av(name, 1, "I"))
        if re.match(r"^(ndarray::)?Array2<f64>$", t):
            return Ar((n, n), av(name, 2, "R"))
        if t == "Vec<f64>":
            ln = var(name + ".len", "I")
            facts.append(ge(ln, I0))
            facts.append(lt(ln, ic(2 ** 62)))
            return Ar((ln,), av(name, 1, "R"))
        if re.match(r"^Vec<(ndarray::)?Array1<f64>>$", t):
            ln = var(name + ".len", "I")
            facts.append(ge(ln, I0))
            facts.append(lt(ln, ic(2 ** 62)))
            return VA(ln, av(name, 2, "R"), av(name + ".lens", 1, "I"))
        m = re.match(r"^Option<(.*)>$", t, re.S)
        if m:
            d = var(name + ".some", "I")
            facts.append(lor(eq(d, I0), eq(d, I1)))
            return En("Option", d, {1: (self.symbolic(m.group(1), name, n, alg, facts, special),)})
        if "dyn" in t and "Fn" in t:
            k = name.split(".")[-1]
            return Fv(k)
        if t == "Params" or t == "Alg":
            return Op(var(name, "U")) if t == "Params" else St(alg, ())
        if t == "Alg::Cache" or t.endswith("::Cache"):
            t = alg + "Cache"
        b = re.sub(r"<.*", "", t).split("::")[-1]
        if b in self.enums:
            d = var(name, "I")
            facts.append(land(ge(d, I0), lt(d, ic(len(self.enums[b])))))
            return En(b, d, {})
        if b in self.structs:
            return St(b, [self.symbolic(self.ftypes[(b, f)], name + "." + f if name else f, n, alg, facts, special)
                          for f in self.structs[b]])
        raise Unsupported("symbolic value of type " + ty)

    def field(self, v, path):
        """v.a.b by source names"""
        for f in path.split("."):
            order = self.structs.get(v.tag)
            if order is None or f not in order:
                raise Unsupported("no field %s in %s" % (f, v.tag))
            v = v.f[order.index(f)]
        return v

    def path(self, tag, path):
        out = []
        for f in path.split("."):
            order = self.structs.get(tag)
            if order is None or f not in order:
                raise Unsupported("no field %s in %s" % (f, tag))
            out.append(("f", order.index(f)))
            ty = self.ftypes[(tag, f)]
            tag = re.sub(r"<.*", "", ty).split("::")[-1]
        return tuple(out)
