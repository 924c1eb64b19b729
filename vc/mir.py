"""Parser of rustc's textual MIR (-Zunpretty=mir). Cleanup blocks and unwind edges are dropped."""
import re


class Unsupported(Exception):
    """A construct outside the supported fragment; never an alarm."""


class Fn:
    def __init__(self, name, args, ret, line):
        self.name, self.args, self.ret, self.line = name, args, ret, line
        self.locals = {}
        self.debug = {}
        self.blocks = {}

    def __repr__(self):
        return "Fn(%s)" % self.name


OPEN, CLOSE = "([{<", ")]}>"


def split_top(s, sep=","):
    out, depth, cur, i, instr = [], 0, "", 0, False
    while i < len(s):
        c = s[i]
        if instr:
            cur += c
            if c == "\\":
                cur += s[i + 1]
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur += c
        elif s.startswith("->", i):
            cur += "->"
            i += 1
        elif c in OPEN:
            depth += 1
            cur += c
        elif c in CLOSE:
            depth -= 1
            cur += c
        elif c == sep and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def match_close(s, i):
    """index just after the bracket that closes the one at i"""
    depth, instr = 0, False
    while i < len(s):
        c = s[i]
        if instr:
            if c == "\\":
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif s.startswith("->", i):
            i += 1
        elif c in OPEN:
            depth += 1
        elif c in CLOSE:
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise Unsupported("unbalanced: " + s)


def parse_place(s):
    p, i = _place(s, 0)
    if i != len(s):
        raise Unsupported("place: " + s)
    return p


def _place(s, i):
    """place = (local, projections); projections: ('*',) ('.',k,type) ('as',variant) ('[',local) ('c',k)"""
    if s[i] == "_":
        m = re.compile(r"_(\d+)").match(s, i)
        base = (int(m.group(1)), ())
        i = m.end()
    elif s[i] == "(":
        end = match_close(s, i)
        inner = s[i + 1:end - 1]
        if inner[0] == "*":
            b, j = _place(inner, 1)
            if j != len(inner):
                raise Unsupported("place: " + s)
            base = (b[0], b[1] + (("*",),))
        else:
            b, j = _place(inner, 0)
            rest = inner[j:]
            m = re.match(r"\.(\d+): (.*)$", rest, re.S)
            if m:
                base = (b[0], b[1] + ((".", int(m.group(1)), m.group(2)),))
            elif rest.startswith(" as "):
                base = (b[0], b[1] + (("as", rest[4:].strip()),))
            else:
                raise Unsupported("place: " + s)
        i = end
    else:
        raise Unsupported("place: " + s[i:])
    while i < len(s) and s[i] == "[":
        end = match_close(s, i)
        inner = s[i + 1:end - 1]
        m = re.match(r"_(\d+)$", inner)
        if m:
            base = (base[0], base[1] + (("[", int(m.group(1))),))
        else:
            m = re.match(r"(\d+) of \d+$", inner)
            if not m:
                raise Unsupported("place index: " + s)
            base = (base[0], base[1] + (("c", int(m.group(1))),))
        i = end
    return base, i


def parse_operand(s):
    s = s.strip()
    if s.startswith("no_retag "):
        s = s[9:]
    if s.startswith("copy "):
        return ("copy", parse_place(s[5:]))
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", s[6:])
    raise Unsupported("operand: " + s)


BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr", "BitXor",
          "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "Offset", "Cmp", "Shl", "Shr",
          "AddUnchecked", "SubUnchecked", "MulUnchecked"}
UNOPS = {"Neg", "Not", "PtrMetadata"}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith("no_retag "):
        s = s[9:]
    if s.startswith("&raw "):
        raise Unsupported("raw reference")
    if s.startswith("&mut "):
        return ("ref", True, parse_place(s[5:]))
    if s.startswith("&"):
        t = s[1:]
        if t.startswith("fake ") or t.startswith("shallow "):
            t = t.split(" ", 1)[1]
        return ("ref", False, parse_place(t))
    m = re.match(r"(\w+)\(", s)
    if m and m.group(1) in BINOPS and match_close(s, m.end() - 1) == len(s):
        a, b = split_top(s[m.end():-1])
        return ("bin", m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in UNOPS and match_close(s, m.end() - 1) == len(s):
        return ("un", m.group(1), parse_operand(s[m.end():-1]))
    if s.startswith("discriminant("):
        return ("discr", parse_place(s[13:-1]))
    if s.startswith("Len("):
        return ("len", parse_place(s[4:-1]))
    if s.startswith(("copy ", "move ", "const ")):
        # a cast or a plain use
        m = re.match(r"^(.*) as (.*) \((\w+(?:\(.*\))?)\)$", s, re.S)
        if m and not s.startswith("const \""):
            try:
                return ("cast", parse_operand(m.group(1)), m.group(2), m.group(3))
            except Unsupported:
                pass
        return ("use", parse_operand(s))
    if s.startswith("["):
        inner = s[1:-1]
        parts = split_top(inner, ";")
        if len(parts) == 2:
            return ("repeat", parse_operand(parts[0]), parts[1])
        return ("agg", "array", None, [(None, parse_operand(x)) for x in split_top(inner)])
    if s.startswith("("):
        return ("agg", "tuple", None, [(None, parse_operand(x)) for x in split_top(s[1:-1])])
    # struct / enum aggregates
    if s.endswith("}"):
        i = s.index(" {")
        body = s[i + 2:-1]
        fields = []
        for f in split_top(body):
            k, v = f.split(": ", 1)
            fields.append((k, parse_operand(v)))
        return ("agg", "struct", s[:i], fields)
    if s.endswith(")"):
        # tuple struct or variant: find the opening bracket of the last group
        depth = 0
        for j in range(len(s) - 1, -1, -1):
            if s[j] == ")":
                depth += 1
            elif s[j] == "(":
                depth -= 1
                if depth == 0:
                    break
        return ("agg", "ctor", s[:j], [(None, parse_operand(x)) for x in split_top(s[j + 1:-1])])
    return ("agg", "ctor", s, [])


def parse_targets(s):
    out = {}
    for part in split_top(s.strip()[1:-1]):
        if ": " in part:
            k, v = part.split(": ", 1)
            out[k] = v
        else:
            k, v = part.split(" ", 1)
            out[k] = v
    return out


def bbnum(s):
    return int(re.match(r"bb(\d+)$", s.strip()).group(1))


def parse_terminator(s):
    s = s.rstrip(";")
    if s == "return":
        return ("return",)
    if s == "unreachable":
        return ("unreachable",)
    if s.startswith("resume") or s.startswith("terminate"):
        return ("resume",)
    if s.startswith("goto -> "):
        return ("goto", bbnum(s[8:]))
    if s.startswith("switchInt("):
        e = match_close(s, 9)
        op = parse_operand(s[10:e - 1])
        arms, other = [], None
        for k, v in parse_targets(s[e:].replace("->", "", 1).strip()).items():
            if k == "otherwise":
                other = bbnum(v)
            else:
                arms.append((int(k), bbnum(v)))
        return ("switch", op, arms, other)
    if s.startswith("assert("):
        e = match_close(s, 6)
        parts = split_top(s[7:e - 1])
        c = parts[0]
        exp = True
        if c.startswith("!"):
            exp, c = False, c[1:]
        tg = parse_targets(s[e:].replace("->", "", 1).strip())
        return ("assert", parse_operand(c), exp, parts[1], bbnum(tg["success"]))
    if s.startswith("drop("):
        e = match_close(s, 4)
        tg = parse_targets(s[e:].replace("->", "", 1).strip())
        return ("drop", parse_place(s[5:e - 1]), bbnum(tg["return"]))
    if s.startswith("falseEdge") or s.startswith("falseUnwind"):
        m = re.search(r"real: bb(\d+)", s)
        return ("goto", int(m.group(1)))
    # call: dest = func(args) -> targets
    i = s.index(" = ")
    dest = parse_place(s[:i])
    rest = s[i + 3:]
    k = rest.rindex(" -> ")
    call, tgt = rest[:k], rest[k + 4:]
    target = None
    if tgt.startswith("["):
        d = parse_targets(tgt)
        if "return" in d:
            target = bbnum(d["return"])
    depth = 0
    for j in range(len(call) - 1, -1, -1):
        if call[j] == ")":
            depth += 1
        elif call[j] == "(":
            depth -= 1
            if depth == 0:
                break
    args = [parse_operand(x) for x in split_top(call[j + 1:-1])]
    return ("call", dest, call[:j].strip(), args, target)


def parse_stmt(s):
    s = s.rstrip(";")
    if s.startswith("StorageLive("):
        return None
    if s.startswith("StorageDead("):
        return ("dead", int(s[13:-1]))
    if s.startswith(("FakeRead", "PlaceMention", "AscribeUserType", "nop", "Retag", "ConstEvalCounter", "Coverage",
                     "BackwardIncompatibleDropHint")):
        return None
    if s.startswith("discriminant("):
        i = s.index(") = ")
        return ("setdiscr", parse_place(s[13:i]), int(s[i + 4:]))
    i = s.index(" = ")
    return ("assign", parse_place(s[:i]), s[i + 3:])


class Program:
    """All function bodies and constants of the crate."""

    def __init__(self, text):
        self.fns = []
        self.consts = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("fn ") or (ln.startswith(("const ", "static ")) and " = {" in ln):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._body(lines[i], lines[i + 1:j], i + 1)
                i = j
            elif ln.startswith("const "):
                m = re.match(r"const (.*?): ([^:=]+) = const (.*);$", ln)
                if m:
                    self.consts[m.group(1)] = ("lit", m.group(3))
            i += 1

    def _body(self, head, body, line):
        if head.startswith("fn "):
            i = 3
            # the argument list starts at the first '(' outside <...>
            depth = 0
            while True:
                if head.startswith("->", i):
                    i += 2
                    continue
                c = head[i]
                if c == "<":
                    depth += 1
                elif c == ">":
                    depth -= 1
                elif c == "(" and depth == 0:
                    break
                i += 1
            e = match_close(head, i)
            args = []
            for a in split_top(head[i + 1:e - 1]):
                k, t = a.split(": ", 1)
                args.append((int(k[1:]), t))
            ret = head[e:].strip()
            ret = ret[3:-2] if ret.startswith("->") else "()"
            f = Fn(head[3:i], args, ret.strip(), line)
            self.fns.append(f)
        else:
            m = re.match(r"(?:const|static) (.*): (.*?) = \{$", head)
            f = Fn(m.group(1), [], m.group(2), line)
            self.consts[f.name] = ("fn", f)
        for n, t in f.args:
            f.locals[n] = t
        cur, cleanup = None, False
        for ln in body:
            t = ln.strip()
            if not t or t == "}":
                continue
            m = re.match(r"bb(\d+)( \(cleanup\))?: \{$", t)
            if m:
                cleanup = bool(m.group(2))
                cur = []
                if not cleanup:
                    f.blocks[int(m.group(1))] = cur
                continue
            if cur is not None:
                cur.append(t)
                continue
            m = re.match(r"let (?:mut )?_(\d+): (.*);$", t)
            if m:
                f.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r"debug (.*?) => (.*);$", t)
            if m:
                f.debug.setdefault(m.group(2), m.group(1))

    def lower(self, f):
        """statements and terminators of f, parsed on first use"""
        if not hasattr(f, "code"):
            f.code = {}
            for b, lns in f.blocks.items():
                joined, cur = [], ""
                for ln in lns:
                    cur = (cur + " " + ln).strip()
                    if cur.endswith(";"):
                        joined.append(cur)
                        cur = ""
                st = []
                for ln in joined[:-1]:
                    x = parse_stmt(ln)
                    if x is not None:
                        st.append(x)
                f.code[b] = (st, parse_terminator(joined[-1]))
        return f.code


FIELD_TYPES = {}


def load_structs(srcdir):
    """field order of the crate's structs and variants of its enums, from the source text"""
    import os
    FIELD_TYPES.clear()
    structs, enums, impls = {}, {}, {}
    todo, seen = [(os.path.join(srcdir, "lib.rs"), srcdir)], set()
    while todo:
        path, moddir = todo.pop()
        if path in seen or not os.path.exists(path):
            continue
        seen.add(path)
        if True:
            raw = open(path).read()
            rel = os.path.relpath(path, os.path.dirname(srcdir))
            impls[rel] = raw.split("\n")
            for m in re.finditer(r"^\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;", raw, re.M):
                todo.append((os.path.join(moddir, m.group(1) + ".rs"), os.path.join(moddir, m.group(1))))
                todo.append((os.path.join(moddir, m.group(1), "mod.rs"), os.path.join(moddir, m.group(1))))
            txt = re.sub(r"//[^\n]*", "", raw)
            txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
            for m in re.finditer(r"\bstruct\s+(\w+)\s*(<[^{;(]*?>)?\s*(?:where[^{;]*)?\{", txt):
                e = match_close(txt, m.end() - 1)
                fields = []
                for part in split_top(txt[m.end():e - 1]):
                    part = re.sub(r"#\[[^\]]*\]", "", part).strip()
                    mm = re.match(r"(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:(.*)$", part, re.S)
                    if mm:
                        fields.append(mm.group(1))
                        FIELD_TYPES[(m.group(1), mm.group(1))] = " ".join(mm.group(2).split())
                structs[m.group(1)] = fields
            for m in re.finditer(r"\bstruct\s+(\w+)\s*(<[^{;(]*?>)?\s*;", txt):
                structs[m.group(1)] = []
            for m in re.finditer(r"\benum\s+(\w+)\s*(<[^{;(]*?>)?\s*\{", txt):
                e = match_close(txt, m.end() - 1)
                vs = []
                for part in split_top(txt[m.end():e - 1]):
                    part = re.sub(r"#\[[^\]]*\]", "", part).strip()
                    mm = re.match(r"(\w+)", part)
                    if mm:
                        vs.append(mm.group(1))
                enums[m.group(1)] = vs
    return structs, enums, impls
