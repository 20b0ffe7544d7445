"""Reader for the textual LLVM IR that rustc emits, and a path-forking symbolic
executor for it.  Unknown constructs raise Unsupported (an error of the check, never
a silent pass)."""
import re
from dag import (Node, C, FC, FCx, build, bnot, band, bor, is_c, TRUE, FALSE, sgn, topo)


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
|(?P<meta>![-a-zA-Z$._0-9\\]*)
|(?P<attr>\#\d+)
|(?P<num>[-+]?(?:f0x[0-9A-Fa-f]+|0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d*(?:e[-+]?\d+)?|\d+|nan|inf|qnan|snan\(0x[0-9a-f]+\)|nan\(0x[0-9a-f]+\))(?![a-zA-Z_0-9]))
|(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
|(?P<dots>\.\.\.)
|(?P<p>[()\[\]{}<>,=*:|]) )''', re.X)


def tokenize(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("lex: " + s[i:i + 40])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class Fn:
    pass


class Module:
    def __init__(self, text):
        self.fn_text, self.aliases, self.noreturn_attrs, self.decl_noreturn = {}, {}, set(), set()
        self.globals = {}
        cur, buf = None, None
        for line in text.split("\n"):
            if cur is not None:
                if line == "}":
                    self.fn_text[cur] = buf
                    cur = None
                else:
                    buf.append(line)
                continue
            if line.startswith("define "):
                m = re.search(r'@("(?:[^"]|\\.)*"|[-a-zA-Z$._0-9]+)\(', line)
                cur = m.group(1).strip('"')
                buf = [line]
            elif line.startswith("declare "):
                m = re.search(r'@("(?:[^"]|\\.)*"|[-a-zA-Z$._0-9]+)\(', line)
                a = re.search(r'#(\d+)', line)
                self.decl_noreturn.add((m.group(1).strip('"'), a and a.group(1)))
            elif line.startswith("attributes #"):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', line)
                if re.search(r'\bnoreturn\b', m.group(2)):
                    self.noreturn_attrs.add(m.group(1))
            elif line.startswith("@"):
                m = re.match(r'@("(?:[^"]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)', line)
                name, rest = m.group(1).strip('"'), m.group(2)
                m2 = re.search(r'\balias\b.*@("(?:[^"]|\\.)*"|[-a-zA-Z$._0-9]+)\s*$', rest)
                if m2:
                    self.aliases[name] = m2.group(1).strip('"')
                else:
                    self.globals[name] = rest
        self.fns = {}

    def resolve(self, name):
        while name in self.aliases:
            name = self.aliases[name]
        return name

    def is_noreturn(self, name, attrs):
        if any(a in self.noreturn_attrs for a in attrs):
            return True
        for n, a in self.decl_noreturn:
            if n == name and a in self.noreturn_attrs:
                return True
        if name in self.fn_text:
            m = re.findall(r'#(\d+)', self.fn_text[name][0])
            return any(a in self.noreturn_attrs for a in m)
        return False

    def fn(self, name):
        name = self.resolve(name)
        if name not in self.fns:
            if name not in self.fn_text:
                raise Unsupported("no definition of @" + name)
            self.fns[name] = parse_fn(name, self.fn_text[name])
        return self.fns[name]


# ---------------------------------------------------------------- types
# int n | 'f' | 'd' | 'ptr' | 'void' | ('arr', n, t) | ('struct', [t]) | ('vec', n, t)
class P:
    """token cursor"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported(f"expected {x} at {self.t[self.i:self.i+6]} in {' '.join(self.t)[:200]}")

    def type(self):
        t = self.next()
        if t == "void":
            r = "void"
        elif t == "ptr":
            r = "ptr"
        elif t == "float":
            r = "f"
        elif t == "double":
            r = "d"
        elif re.fullmatch(r"i\d+", t):
            r = int(t[1:])
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = ("arr", n, e)
        elif t == "{":
            fs = []
            if not self.eat("}"):
                while True:
                    fs.append(self.type())
                    if self.eat("}"):
                        break
                    self.expect(",")
            r = ("struct", tuple(fs))
        elif t == "<" and self.peek() == "{":
            self.next()
            fs = []
            while not self.eat("}"):
                fs.append(self.type())
                self.eat(",")
            self.expect(">")
            r = ("struct", tuple(fs))
        elif t == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            r = ("vec", n, e)
        elif t in ("metadata", "label", "token"):
            r = t
        else:
            raise Unsupported("type " + str(t))
        return r

    def attrs(self):
        """skip parameter attributes before a value; returns them"""
        out = []
        while True:
            t = self.peek()
            if t is None:
                return out
            if re.fullmatch(r"[a-z_][a-z_0-9]*", t) and not t.startswith("f0x") and t not in VALWORDS:
                self.next()
                out.append(t)
                if self.peek() == "(":
                    d = 0
                    while True:
                        x = self.next()
                        if x in "([":
                            d += 1
                        if x in ")]":
                            d -= 1
                        if d == 0:
                            break
                elif t == "align" and self.peek() and self.peek().isdigit():
                    self.next()
            else:
                return out

    def value(self, ty):
        """operand descriptor: ('id',name) | ('k',const)"""
        t = self.next()
        if t[0] == "%":
            return ("id", t[1:].strip('"'))
        if t[0] == "@":
            return ("glob", t[1:].strip('"'))
        if t in ("undef", "poison"):
            return ("poison",)
        if t == "zeroinitializer":
            return ("zero",)
        if t == "null":
            return ("null",)
        if t in ("true", "false"):
            return ("k", C(int(t == "true"), 1))
        if t == "splat":
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect(")")
            return ("agg", [v] * ty[1], et)
        if t in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[t]
            vs = []
            while not self.eat(close):
                et = self.type()
                vs.append((et, self.value(et)))
                self.eat(",")
            return ("aggt", vs)
        if t == "getelementptr":
            while self.peek() != "(":
                self.next()
            raise Unsupported("constant gep")
        if ty == "f":
            return ("k", FC(parse_f32(t)))
        if isinstance(ty, int):
            return ("k", C(int(t), ty))
        raise Unsupported(f"value {t} of type {ty}")

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


VALWORDS = {"undef", "poison", "zeroinitializer", "null", "true", "false", "splat", "nan", "inf", "qnan", "getelementptr"}


def parse_f32(t):
    s = t.lstrip("+")
    neg = False
    if t[0] in "+-" and not t[1:2].isdigit():
        neg = t[0] == "-"
        s = t[1:]
    if s.startswith("f0x"):
        b = int(s[3:], 16)
    elif s.startswith("0x"):
        import struct
        d = struct.unpack("<d", struct.pack("<Q", int(s[2:], 16)))[0]
        from dag import f2b, isnan_b
        b = f2b(d)
    elif s == "inf":
        b = 0x7F800000
    elif s in ("qnan", "nan"):
        b = 0x7FC00000
    elif s.startswith("nan(") or s.startswith("snan("):
        b = 0x7F800000 | int(s[s.index("0x") + 2:-1], 16) | (0x400000 if s.startswith("nan(") else 0)
    else:
        from dag import f2b
        return f2b(float(s))
    return b | (0x80000000 if neg else 0)


FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}
BINI = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
BINF = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast", "fpext", "fptrunc", "ptrtoint", "inttoptr"}
IFLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw"}


def parse_fn(name, lines):
    f = Fn()
    f.name = name
    head = lines[0]
    toks = tokenize(head)
    i = next(k for k, t in enumerate(toks) if t[0] == "@")
    p = P(toks)
    p.i = i + 1
    p.expect("(")
    f.params = []
    unnamed = 0
    while not p.eat(")"):
        ty = p.type()
        p.attrs()
        if p.peek() and p.peek()[0] == "%":
            nm = p.next()[1:].strip('"')
        else:
            nm = str(unnamed)
        if nm.isdigit():
            unnamed = int(nm) + 1
        f.params.append((nm, ty))
        p.eat(",")
    f.blocks, f.entry = {}, None
    cur = None
    # join continued lines (switch tables)
    body, acc = [], None
    for ln in lines[1:]:
        if acc is not None:
            acc += " " + ln.split(";")[0].strip()
            if "]" in ln:
                body.append(acc)
                acc = None
            continue
        s = ln.split(" ; ")[0] if not ln.lstrip().startswith(";") else ""
        if re.match(r"\s+switch .*\[\s*$", s):
            acc = s
            continue
        body.append(s)
    for ln in body:
        if not ln.strip() or ln.lstrip().startswith(";") or ln.lstrip().startswith("#dbg"):
            continue
        m = re.match(r'^("(?:[^"]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
        if m:
            cur = m.group(1).strip('"')
            f.blocks[cur] = []
            if f.entry is None:
                f.entry = cur
            continue
        if cur is None:
            cur = f.entry = str(unnamed)
            f.blocks[cur] = []
        f.blocks[cur].append(parse_ins(ln))
    return f


def parse_ins(ln):
    toks = tokenize(ln)
    p = P(toks)
    dst = None
    if len(toks) > 1 and toks[0][0] == "%" and toks[1] == "=":
        dst = toks[0][1:].strip('"')
        p.i = 2
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    fl = set()
    while p.peek() in FMF or p.peek() in IFLAGS:
        fl.add(p.next())
    if op in BINI or op in BINF:
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return (op, dst, ty, a, b)
    if op == "fneg":
        ty = p.type()
        return (op, dst, ty, p.value(ty))
    if op == "freeze":
        ty = p.type()
        return (op, dst, ty, p.value(ty))
    if op in ("icmp", "fcmp"):
        if p.peek() == "samesign":
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return (op, dst, pred, ty, a, b)
    if op == "select":
        ct, c = p.tv()
        p.expect(",")
        t1, a = p.tv()
        p.expect(",")
        t2, b = p.tv()
        return (op, dst, ct, c, t1, a, b)
    if op in CASTS:
        ty, a = p.tv()
        p.expect("to")
        return (op, dst, ty, a, p.type())
    if op == "br":
        if p.peek() == "label":
            p.next()
            return ("jmp", None, p.next()[1:].strip('"'))
        ty, c = p.tv()
        p.expect(",")
        p.expect("label")
        a = p.next()[1:].strip('"')
        p.expect(",")
        p.expect("label")
        return ("br", None, c, a, p.next()[1:].strip('"'))
    if op == "switch":
        ty, c = p.tv()
        p.expect(",")
        p.expect("label")
        d = p.next()[1:].strip('"')
        p.expect("[")
        cases = []
        while not p.eat("]"):
            t, v = p.tv()
            p.expect(",")
            p.expect("label")
            cases.append((v[1], p.next()[1:].strip('"')))
        return ("switch", None, ty, c, d, cases)
    if op == "phi":
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            inc.append((v, p.next()[1:].strip('"')))
            p.expect("]")
            if not (p.peek() == "," and p.peek(1) == "["):
                break
            p.next()
        return ("phi", dst, ty, inc)
    if op == "ret":
        if p.peek() == "void":
            return ("ret", None, "void", None)
        ty, v = p.tv()
        return ("ret", None, ty, v)
    if op == "unreachable":
        return ("unreachable", None)
    if op == "load":
        p.eat("volatile")
        ty = p.type()
        p.expect(",")
        pt, a = p.tv()
        return ("load", dst, ty, a)
    if op == "store":
        p.eat("volatile")
        ty, v = p.tv()
        p.expect(",")
        pt, a = p.tv()
        return ("store", None, ty, v, a)
    if op == "alloca":
        ty = p.type()
        return ("alloca", dst, ty)
    if op == "getelementptr":
        ty = p.type()
        p.expect(",")
        pt, base = p.tv()
        idx = []
        while p.eat(","):
            if p.peek() and p.peek()[0] == "!":
                break
            idx.append(p.tv())
        return ("gep", dst, ty, base, idx)
    if op in ("extractvalue", "insertvalue"):
        ty, a = p.tv()
        e = None
        if op == "insertvalue":
            p.expect(",")
            e = p.tv()
        path = []
        while p.eat(","):
            if p.peek()[0] == "!":
                break
            path.append(int(p.next()))
        return (op, dst, ty, a, e, path)
    if op == "extractelement":
        ty, a = p.tv()
        p.expect(",")
        it, i = p.tv()
        return (op, dst, ty, a, i)
    if op == "insertelement":
        ty, a = p.tv()
        p.expect(",")
        et, e = p.tv()
        p.expect(",")
        it, i = p.tv()
        return (op, dst, ty, a, e, i)
    if op == "shufflevector":
        ty, a = p.tv()
        p.expect(",")
        t2, b = p.tv()
        p.expect(",")
        t3, m = p.tv()
        return (op, dst, ty, a, b, m)
    if op == "call" or op == "invoke":
        # [cc] [ret attrs] type @name(args) attrs
        while True:
            t = p.peek()
            if t in ("fastcc", "coldcc", "ccc") or t in FMF:
                p.next()
                continue
            k = p.i
            a = p.attrs_ret()
            if p.i == k:
                break
        rty = p.type()
        if p.peek() == "(":  # varargs/function type
            d = 0
            while True:
                x = p.next()
                d += x == "("
                d -= x == ")"
                if d == 0:
                    break
        callee = p.next()
        if callee[0] != "@":
            raise Unsupported("indirect call " + ln.strip())
        callee = callee[1:].strip('"')
        p.expect("(")
        args = []
        while not p.eat(")"):
            if p.peek() == "metadata":
                while p.peek() not in (")",):
                    p.next()
                continue
            args.append(p.tv())
            p.eat(",")
        attrs = []
        norm = None
        while p.peek() is not None:
            t = p.next()
            if t[0] == "#":
                attrs.append(t[1:])
            if t == "label" and norm is None:
                norm = p.next()[1:].strip('"')
        return ("call", dst, rty, callee, args, attrs, norm)
    raise Unsupported("instruction " + ln.strip())


def _attrs_ret(self):
    out = []
    while True:
        t = self.peek()
        if t is None:
            return out
        if re.fullmatch(r"[a-z_]+", t) and t not in ("void", "ptr", "float", "double", "half", "label", "metadata", "token"):
            self.next()
            out.append(t)
            if self.peek() == "(":
                d = 0
                while True:
                    x = self.next()
                    d += x in ("(", "[")
                    d -= x in (")", "]")
                    if d == 0:
                        break
            elif t == "align" and self.peek() and self.peek().isdigit():
                self.next()
        else:
            return out


P.attrs_ret = _attrs_ret


# ---------------------------------------------------------------- memory and values
class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off  # off: Node of width 64


POISON = ("poison",)


def sizeof(ty):
    if isinstance(ty, int):
        return (ty + 7) // 8
    if ty == "f":
        return 4
    if ty in ("d", "ptr"):
        return 8
    if ty[0] == "arr":
        return ty[1] * sizeof(ty[2])
    if ty[0] == "vec":
        return ty[1] * sizeof(ty[2])
    if ty[0] == "struct":
        o, mx = 0, 1
        for t in ty[1]:
            a = alignof(t)
            mx = max(mx, a)
            o = (o + a - 1) // a * a + sizeof(t)
        return (o + mx - 1) // mx * mx
    raise Unsupported(f"sizeof {ty}")


def alignof(ty):
    if isinstance(ty, int) or ty in ("f", "d", "ptr"):
        return min(8, max(1, sizeof(ty)))
    if ty[0] in ("arr", "vec"):
        return alignof(ty[2])
    return max([alignof(t) for t in ty[1]] or [1])


class Path:
    __slots__ = ("conds", "status", "ret", "outs", "why")

    def __init__(self, conds, status, ret=None, outs=None, why=""):
        self.conds, self.status, self.ret, self.outs, self.why = conds, status, ret, outs, why

    def cond(self):
        return band(*[c if w else bnot(c) for c, w in self.conds])


class Frame:
    __slots__ = ("fn", "blk", "prev", "pc", "env", "dst", "norm")

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.prev, f.pc, f.dst, f.norm = self.fn, self.blk, self.prev, self.pc, self.dst, self.norm
        f.env = dict(self.env)
        return f


class State:
    __slots__ = ("frames", "mem", "conds", "known", "steps", "nobj")

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.conds = list(self.conds)
        s.known = dict(self.known)
        s.steps = self.steps
        s.nobj = self.nobj
        return s


PURE = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "fneg", "icmp", "fcmp", "zext", "sext", "trunc"}


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts  # list of (cond node, wanted 0/1) lists


class Exec:
    """explores all paths of one function.  args: list of Node, or
    ('in', [Nodes], elem type) / ('out', n, elem type) for pointer parameters."""

    def __init__(self, mod, max_steps=20000, max_paths=5000, ifconv=False):
        self.ifconv = ifconv
        self.mod, self.max_steps, self.max_paths = mod, max_steps, max_paths
        self.functions = set()
        self.instrs = 0

    def run(self, name, args):
        f = self.mod.fn(name)
        self.functions.add(f.name)
        st = State()
        st.mem, st.conds, st.known, st.steps, st.nobj = {}, [], {}, 0, 0
        fr = Frame()
        fr.fn, fr.blk, fr.prev, fr.pc, fr.env, fr.dst, fr.norm = f, f.entry, None, 0, {}, None, None
        outs = []
        if len(f.params) != len(args):
            raise Unsupported(f"{name}: {len(f.params)} parameters, harness gives {len(args)}")
        for (nm, ty), a in zip(f.params, args):
            if isinstance(a, tuple):
                oid = st.nobj
                st.nobj += 1
                es = sizeof(a[2])
                if a[0] == "in":
                    st.mem[oid] = {i * es: (n, es, a[2]) for i, n in enumerate(a[1])}
                    st.mem[oid]["size"] = len(a[1]) * es
                else:
                    st.mem[oid] = {"size": a[1] * es}
                    outs.append((oid, a[1], a[2]))
                fr.env[nm] = Ptr(oid, C(0, 64))
            else:
                if a.ty != ty:
                    raise Unsupported(f"{name}: parameter {nm} has type {ty}, harness gives {a.ty}")
                fr.env[nm] = a
        st.frames = [fr]
        self.outs = outs
        work, done = [st], []
        while work:
            s = work.pop()
            if len(done) + len(work) > self.max_paths:
                raise Unsupported(f"{name}: more than {self.max_paths} paths")
            while True:
                try:
                    r = self.step(s)
                except Fork as fk:
                    # the instruction has had no effect yet: re-execute under each alternative
                    alts = []
                    for conds in fk.alts:
                        s2 = s.copy()
                        if self.assume(s2, conds):
                            alts.append(s2)
                    work.extend(reversed(alts))
                    break
                if r is not None:
                    done.append(r)
                    break
        return done

    def assume(self, s, conds):
        for c, w in conds:
            if is_c(c):
                if c.val != w:
                    return False
                continue
            k = s.known.get(c.id)
            if k is not None:
                if k != w:
                    return False
                continue
            s.known[c.id] = w
            # record simple consequences
            if c.op == "xor" and c.ty == 1 and c.args[1] is TRUE:
                x = c.args[0]
                if s.known.get(x.id, 1 - w) != 1 - w:
                    return False
                s.known[x.id] = 1 - w
            if c.op == "icmp" and c.val == "eq" and w == 1 and is_c(c.args[1]):
                key = ("eq", c.args[0].id)
                if s.known.get(key, c.args[1].val) != c.args[1].val:
                    return False
                s.known[key] = c.args[1].val
            s.conds.append((c, w))
        return True

    def truth(self, s, c):
        """decided value of an i1 node on this path, or None"""
        if is_c(c):
            return c.val
        k = s.known.get(c.id)
        if k is not None:
            return k
        if c.op == "xor" and c.ty == 1 and c.args[1] is TRUE:
            k = self.truth(s, c.args[0])
            return None if k is None else 1 - k
        if c.op in ("and", "or") and c.ty == 1:
            a, b = self.truth(s, c.args[0]), self.truth(s, c.args[1])
            if c.op == "and":
                if a == 0 or b == 0:
                    return 0
                if a == 1 and b == 1:
                    return 1
            else:
                if a == 1 or b == 1:
                    return 1
                if a == 0 and b == 0:
                    return 0
            return None
        if c.op == "icmp" and is_c(c.args[1]):
            v = s.known.get(("eq", c.args[0].id))
            if v is not None:
                from dag import icmp_c
                return int(icmp_c(c.val, v, c.args[1].val, c.args[0].ty))
        return None

    def val(self, s, d, ty):
        k = d[0]
        if k == "id":
            v = s.frames[-1].env.get(d[1])
            if v is None:
                raise Unsupported("use of undefined %" + d[1])
            return v
        if k == "k":
            return d[1]
        if k == "poison":
            return self.poison(ty)
        if k == "zero":
            return self.zero(ty)
        if k == "null":
            return Ptr("null", C(0, 64))
        if k == "glob":
            return Ptr("@" + d[1], C(0, 64))
        if k == "agg":
            return [self.val(s, v, d[2]) for v in d[1]]
        if k == "aggt":
            return [self.val(s, v, t) for t, v in d[1]]
        raise Unsupported("operand " + str(d))

    def poison(self, ty):
        if isinstance(ty, tuple) and ty[0] in ("arr", "vec"):
            return [self.poison(ty[2]) for _ in range(ty[1])]
        if isinstance(ty, tuple):
            return [self.poison(t) for t in ty[1]]
        return POISON

    def zero(self, ty):
        if isinstance(ty, int):
            return C(0, ty)
        if ty == "f":
            return FC(0)
        if ty == "ptr":
            return Ptr("null", C(0, 64))
        if isinstance(ty, tuple) and ty[0] in ("arr", "vec"):
            return [self.zero(ty[2]) for _ in range(ty[1])]
        if isinstance(ty, tuple):
            return [self.zero(t) for t in ty[1]]
        raise Unsupported(f"zero {ty}")

    def elementwise(self, ty, f, *vs):
        if isinstance(ty, tuple) and ty[0] == "vec":
            return [self.elementwise(ty[2], f, *xs) for xs in zip(*vs)]
        if any(v is POISON for v in vs):
            return POISON
        return f(*vs)

    def goto(self, s, lab):
        fr = s.frames[-1]
        fr.prev, fr.blk, fr.pc = fr.blk, lab, 0

    def merge(self, s, c, t, e):
        """if-conversion: both ways rejoin at once, after pure instructions only"""
        fr = s.frames[-1]
        bl = fr.fn.blocks

        def side(b):
            ins = bl[b]
            if ins[-1][0] == "jmp" and all(i[0] in BINF or i[0] in PURE for i in ins[:-1]):
                return ins[-1][2]
            return None
        ts, es = side(t), side(e)
        if ts is not None and (ts == e or ts == es):
            j = ts
        elif es == t and es is not None:
            j = t
        else:
            return False
        env0, vals = fr.env, []
        try:
            for first in (t, e):
                fr.env = dict(env0)
                prev = fr.blk
                if first != j:
                    cur, pc = fr.blk, fr.pc
                    fr.blk = prev = first
                    for k in range(len(bl[first]) - 1):
                        fr.pc = k
                        if self.step(s) is not None:
                            return False
                    fr.blk, fr.pc = cur, pc
                v = []
                for ins in bl[j]:
                    if ins[0] != "phi":
                        break
                    v.append((ins[1], ins[2], self.val(s, next(x for x, lab in ins[3] if lab == prev), ins[2])))
                vals.append(v)
        finally:
            fr.env = env0
        if any(not isinstance(x, Node) for v in vals for _, _, x in v):
            return False
        for (d, ty, x), (_, _, y) in zip(*vals):
            env0[d] = build("ite", (c, x, y), ty)
        fr.prev, fr.blk, fr.pc = None, j, len(vals[0])
        return True

    def finish(self, s, status, ret=None, why=""):
        outs = []
        for oid, n, ety in self.outs:
            es = sizeof(ety)
            outs.append([self.load1(s, oid, i * es, ety, missing_ok=True) for i in range(n)])
        return Path(s.conds, status, ret, outs, why)

    def step(self, s):
        fr = s.frames[-1]
        s.steps += 1
        self.instrs += 1
        if s.steps > self.max_steps:
            return self.finish(s, "bound", why="step bound")
        ins = fr.fn.blocks[fr.blk][fr.pc]
        op, dst = ins[0], ins[1]
        env = fr.env
        if op == "phi":
            # all phis of the block at once
            vals, k = [], fr.pc
            blk = fr.fn.blocks[fr.blk]
            while blk[k][0] == "phi":
                _, d, ty, inc = blk[k]
                for v, lab in inc:
                    if lab == fr.prev:
                        vals.append((d, self.val(s, v, ty)))
                        break
                else:
                    raise Unsupported("phi without edge from " + str(fr.prev))
                k += 1
            for d, v in vals:
                env[d] = v
            fr.pc = k
            return None
        if op in BINI or op in BINF:
            _, _, ty, a, b = ins
            a, b = self.val(s, a, ty), self.val(s, b, ty)
            et = ty[2] if isinstance(ty, tuple) else ty
            env[dst] = self.elementwise(ty, lambda x, y: build(op, (x, y), et), a, b)
        elif op == "fneg":
            _, _, ty, a = ins
            env[dst] = self.elementwise(ty, lambda x: build("fneg", (x,), "f"), self.val(s, a, ty))
        elif op == "freeze":
            v = self.val(s, ins[3], ins[2])
            if v is POISON:
                raise Unsupported("freeze of poison")
            env[dst] = v
        elif op in ("icmp", "fcmp"):
            _, _, pred, ty, a, b = ins
            a, b = self.val(s, a, ty), self.val(s, b, ty)
            if ty == "ptr":
                if a.obj != b.obj:
                    if pred in ("eq", "ne") and ("null" in (a.obj, b.obj)):
                        env[dst] = C(int(pred == "ne"), 1)
                    else:
                        raise Unsupported("comparison of pointers into different objects")
                else:
                    env[dst] = build("icmp", (a.off, b.off), 1, pred)
            elif op == "fcmp" and pred in ("true", "false"):
                env[dst] = C(int(pred == "true"), 1)
            else:
                env[dst] = self.elementwise(ty, lambda x, y: build(op, (x, y), 1, pred), a, b)
        elif op == "select":
            _, _, ct, c, ty, a, b = ins
            c = self.val(s, c, ct)
            a, b = self.val(s, a, ty), self.val(s, b, ty)
            if isinstance(c, list):
                env[dst] = [self.sel(s, ci, ai, bi, ty[2]) for ci, ai, bi in zip(c, a, b)]
            else:
                env[dst] = self.sel(s, c, a, b, ty)
        elif op in CASTS:
            _, _, ty, a, to = ins
            v = self.val(s, a, ty)
            if op in ("ptrtoint", "inttoptr", "fpext", "fptrunc"):
                raise Unsupported(op)
            if op == "bitcast" and (isinstance(ty, tuple) or isinstance(to, tuple)):
                env[dst] = self.vecbitcast(v, ty, to)
            else:
                et = to[2] if isinstance(to, tuple) else to
                ft = ty[2] if isinstance(ty, tuple) else ty
                if op == "bitcast":
                    if ft == et:
                        env[dst] = v
                    elif ft == "f" and et == 32:
                        env[dst] = v if v is POISON else build("bits", (v,), 32)
                    elif ft == 32 and et == "f":
                        env[dst] = v if v is POISON else build("frombits", (v,), "f")
                    else:
                        raise Unsupported(f"bitcast {ty} {to}")
                else:
                    env[dst] = self.elementwise(ty if isinstance(ty, tuple) else et, lambda x: build(op, (x,), et), v)
        elif op == "jmp":
            self.goto(s, ins[2])
            return None
        elif op == "br":
            c = self.val(s, ins[2], 1)
            if c is POISON:
                raise Unsupported("branch on poison")
            k = self.truth(s, c)
            if k is None:
                if self.ifconv and self.merge(s, c, ins[3], ins[4]):
                    return None
                raise Fork([[(c, 1)], [(c, 0)]])
            self.goto(s, ins[3] if k else ins[4])
            return None
        elif op == "switch":
            _, _, ty, c, d, cases = ins
            c = self.val(s, c, ty)
            und = []
            for v, lab in cases:
                e = build("icmp", (c, v), 1, "eq")
                k = self.truth(s, e)
                if k == 1:
                    self.goto(s, lab)
                    return None
                if k is None:
                    und.append(e)
            if not und:
                self.goto(s, d)
                return None
            raise Fork([[(e, 1)] for e in und] + [[(e, 0) for e in und]])
        elif op == "ret":
            v = None if ins[3] is None else self.val(s, ins[3], ins[2])
            if len(s.frames) == 1:
                return self.finish(s, "ret", v)
            s.frames.pop()
            up = s.frames[-1]
            if fr.dst is not None:
                up.env[fr.dst] = v
            if fr.norm is not None:
                up.prev, up.blk, up.pc = up.blk, fr.norm, 0
            return None
        elif op == "unreachable":
            return self.finish(s, "unreachable", why="unreachable in " + fr.fn.name)
        elif op == "alloca":
            oid = s.nobj
            s.nobj += 1
            s.mem[oid] = {"size": sizeof(ins[2])}
            env[dst] = Ptr(oid, C(0, 64))
        elif op == "gep":
            _, _, ty, base, idx = ins
            b = self.val(s, base, "ptr")
            off = b.off
            t = ty
            for k, (ity, iv) in enumerate(idx):
                i = self.val(s, iv, ity)
                if ity != 64:
                    i = build("sext", (i,), 64)
                if k == 0:
                    sz = sizeof(t)
                elif t[0] in ("arr", "vec"):
                    t = t[2]
                    sz = sizeof(t)
                else:
                    o = 0
                    for j in range(i.val + 1):
                        al = alignof(t[1][j])
                        o = (o + al - 1) // al * al
                        if j < i.val:
                            o += sizeof(t[1][j])
                    t = t[1][i.val]
                    off = build("add", (off, C(o, 64)), 64)
                    continue
                off = build("add", (off, build("mul", (i, C(sz, 64)), 64)), 64)
            env[dst] = Ptr(b.obj, off)
        elif op == "load":
            _, _, ty, a = ins
            p = self.val(s, a, "ptr")
            env[dst] = self.load(s, p, ty)
        elif op == "store":
            _, _, ty, v, a = ins
            self.store(s, self.val(s, a, "ptr"), ty, self.val(s, v, ty))
        elif op == "extractvalue":
            v = self.val(s, ins[3], ins[2])
            for k in ins[5]:
                v = v[k]
            env[dst] = v
        elif op == "insertvalue":
            import copy
            v = copy.deepcopy_list(self.val(s, ins[3], ins[2])) if False else dcopy(self.val(s, ins[3], ins[2]))
            w = v
            for k in ins[5][:-1]:
                w = w[k]
            w[ins[5][-1]] = self.val(s, ins[4][1], ins[4][0])
            env[dst] = v
        elif op == "extractelement":
            i = self.val(s, ins[4], 64)
            if not is_c(i):
                raise Unsupported("symbolic vector index")
            env[dst] = self.val(s, ins[3], ins[2])[i.val]
        elif op == "insertelement":
            i = self.val(s, ins[5], 64)
            v = list(self.val(s, ins[3], ins[2]))
            v[i.val] = self.val(s, ins[4], ins[2][2])
            env[dst] = v
        elif op == "shufflevector":
            _, _, ty, a, b, m = ins
            a, b = self.val(s, a, ty), self.val(s, b, ty)
            both = list(a) + list(b)
            mm = self.val(s, m, ("vec", 0, 32)) if m[0] != "zero" else [C(0, 32)] * ty[1]
            env[dst] = [POISON if x is POISON else both[x.val] for x in mm]
        elif op == "call":
            return self.call(s, ins)
        else:
            raise Unsupported(op)
        fr.pc += 1
        return None

    def sel(self, s, c, a, b, ty):
        if c is POISON:
            raise Unsupported("select on poison")
        k = self.truth(s, c)
        if k is not None:
            return a if k else b
        if ty == "ptr" or isinstance(a, list) or a is POISON or b is POISON:
            raise Fork([[(c, 1)], [(c, 0)]])
        return build("ite", (c, a, b), ty)

    def vecbitcast(self, v, ty, to):
        cells = []
        fl = v if isinstance(v, list) else [v]
        et = ty[2] if isinstance(ty, tuple) else ty
        tt = to[2] if isinstance(to, tuple) else to
        if sizeof(et) == sizeof(tt):
            r = [x if x is POISON or et == tt else build("bits", (x,), 32) if et == "f" else build("frombits", (x,), "f") for x in fl]
            return r if isinstance(to, tuple) else r[0]
        raise Unsupported("vector bitcast between widths")

    # -- memory
    def load(self, s, p, ty):
        if isinstance(ty, tuple):
            if ty[0] in ("arr", "vec"):
                es = sizeof(ty[2])
                return [self.load(s, Ptr(p.obj, build("add", (p.off, C(i * es, 64)), 64)), ty[2]) for i in range(ty[1])]
            raise Unsupported("struct load")
        off = self.offset(s, p, ty)
        if isinstance(p.obj, str):
            raise Unsupported("load from " + p.obj)
        return self.load1(s, p.obj, off, ty)

    def offset(self, s, p, ty):
        if is_c(p.off):
            return p.off.val
        v = s.known.get(("eq", p.off.id))
        if v is not None:
            return v
        if isinstance(p.obj, str):
            raise Unsupported("symbolic offset into " + p.obj)
        size, es = s.mem[p.obj]["size"], sizeof(ty)
        eqs = [build("icmp", (p.off, C(k, 64)), 1, "eq") for k in range(0, size - es + 1, 1 if es == 1 else (es if es in (2, 4, 8) else 1))]
        for e in eqs:
            if self.truth(s, e) == 1:
                return e.args[1].val
        raise Fork([[(e, 1)] for e in eqs] + [[(e, 0) for e in eqs] + [(OOB, 1)]])

    def load1(self, s, oid, off, ty, missing_ok=False):
        mem = s.mem[oid]
        es = sizeof(ty)
        if (OOB.id in s.known):
            raise Unsupported("out-of-bounds access path")
        if off < 0 or off + es > mem["size"]:
            if missing_ok:
                return None
            raise Unsupported(f"load outside object: {off}+{es} > {mem['size']}")
        c = mem.get(off)
        if c is not None and c[1] == es:
            return self.recast(c[0], c[2], ty)
        # assemble from bytes
        bs = []
        for k in range(es):
            b = self.byte(mem, off + k)
            if b is None:
                if missing_ok:
                    return None
                return POISON
            bs.append(b)
        v = None
        w = es * 8
        for k, b in enumerate(bs):
            z = build("shl", (build("zext", (b,), w), C(8 * k, w)), w)
            v = z if v is None else build("or", (v, z), w)
        return self.recast(v, w, ty)

    def byte(self, mem, o):
        for st in range(o, o - 8, -1):
            c = mem.get(st)
            if c is not None and st + c[1] > o:
                if c[0] is POISON or isinstance(c[0], Ptr):
                    return None
                v = self.recast(c[0], c[2], c[1] * 8)
                return build("trunc", (build("lshr", (v, C(8 * (o - st), c[1] * 8)), c[1] * 8),), 8) if c[1] > 1 else v
        return None

    def recast(self, v, fty, ty):
        if v is POISON or isinstance(v, Ptr):
            return v
        if fty == ty:
            return v
        if fty == "f" and ty == 32:
            return build("bits", (v,), 32)
        if fty == 32 and ty == "f":
            return build("frombits", (v,), "f")
        if isinstance(fty, int) and isinstance(ty, int):
            if fty < ty:
                return build("zext", (v,), ty)
            return build("trunc", (v,), ty)
        raise Unsupported(f"memory recast {fty} {ty}")

    def store(self, s, p, ty, v):
        if isinstance(ty, tuple):
            if ty[0] in ("arr", "vec"):
                es = sizeof(ty[2])
                for i in range(ty[1]):
                    self.store(s, Ptr(p.obj, build("add", (p.off, C(i * es, 64)), 64)), ty[2], v[i])
                return
            raise Unsupported("struct store")
        off = self.offset(s, p, ty)
        if isinstance(p.obj, str):
            raise Unsupported("store to " + p.obj)
        if OOB.id in s.known:
            raise Unsupported("out-of-bounds access path")
        mem = s.mem[p.obj]
        es = sizeof(ty)
        if off < 0 or off + es > mem["size"]:
            raise Unsupported("store outside object")
        # split overlapping older cells into bytes
        for o in [k for k in mem if k != "size" and k < off + es and k + mem[k][1] > off]:
            c = mem[o]
            if o == off and c[1] == es:
                continue
            bs = {o + k: self.byte(mem, o + k) for k in range(c[1])}
            del mem[o]
            for k, b in bs.items():
                if b is not None and not (off <= k < off + es):
                    mem[k] = (b, 1, 8)
        if isinstance(ty, int) and ty % 8:
            v = v if v is POISON else build("zext", (v,), es * 8)
            ty = es * 8
        mem[off] = (v, es, ty)

    # -- calls
    def call(self, s, ins):
        _, dst, rty, callee, args, attrs, norm = ins
        fr = s.frames[-1]
        if callee.startswith("llvm."):
            v = self.intrinsic(s, callee, rty, args)
            if dst is not None:
                fr.env[dst] = v
            fr.pc += 1
            return None
        callee = self.mod.resolve(callee)
        if self.mod.is_noreturn(callee, attrs):
            return self.finish(s, "panic", why=callee)
        f = self.mod.fn(callee)
        self.functions.add(f.name)
        if len(s.frames) > 60:
            return self.finish(s, "bound", why="call depth")
        vals = [self.val(s, v, t) for t, v in args]
        nf = Frame()
        nf.fn, nf.blk, nf.prev, nf.pc, nf.dst, nf.norm = f, f.entry, None, 0, dst, norm
        nf.env = {nm: v for (nm, _), v in zip(f.params, vals)}
        fr.pc += 1
        s.frames.append(nf)
        return None

    def intrinsic(self, s, name, rty, args):
        base = name[5:]
        if base.startswith(("lifetime", "assume", "experimental.noalias", "dbg", "invariant")):
            return None
        vs = [self.val(s, v, t) for t, v in args]
        if base.startswith("memcpy") or base.startswith("memmove"):
            d, sr, n = vs[0], vs[1], vs[2]
            if not (is_c(n) and is_c(d.off) and is_c(sr.off)):
                raise Unsupported("symbolic memcpy")
            src, dm = s.mem[sr.obj], s.mem[d.obj]
            cells = {}
            k = 0
            while k < n.val:
                c = src.get(sr.off.val + k)
                if c is not None and k + c[1] <= n.val:
                    cells[k] = c
                    k += c[1]
                else:
                    b = self.byte(src, sr.off.val + k)
                    if b is not None:
                        cells[k] = (b, 1, 8)
                    k += 1
            for k, c in cells.items():
                self.store(s, Ptr(d.obj, C(d.off.val + k, 64)), c[2], c[0])
            return None
        if base.startswith("memset"):
            d, v, n = vs[0], vs[1], vs[2]
            for k in range(n.val):
                self.store(s, Ptr(d.obj, C(d.off.val + k, 64)), 8, v)
            return None
        m = re.match(r"([us])(add|sub|mul)\.with\.overflow\.i(\d+)", base)
        if m:
            u, o, w = m.group(1), m.group(2), int(m.group(3))
            a, b = vs
            r = build(o, (a, b), w)
            W = 2 * w if o == "mul" else w + 1
            ex = "zext" if u == "u" else "sext"
            wide = build(o, (build(ex, (a,), W), build(ex, (b,), W)), W)
            return [r, build("icmp", (wide, build(ex, (r,), W)), 1, "ne")]
        m = re.match(r"([us])(add|sub)\.sat\.i(\d+)", base)
        if m:
            u, o, w = m.group(1), m.group(2), int(m.group(3))
            W = w + 2
            ex = "zext" if u == "u" else "sext"
            wide = build(o, (build(ex, (vs[0],), W), build(ex, (vs[1],), W)), W)
            lo, hi = (0, (1 << w) - 1) if u == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            r = build("trunc", (wide,), w)
            r = build("ite", (build("icmp", (wide, C(hi, W)), 1, "sgt"), C(hi, w), r), w)
            return build("ite", (build("icmp", (wide, C(lo, W)), 1, "slt"), C(lo, w), r), w)
        m = re.match(r"(umin|umax|smin|smax)\.i(\d+)", base)
        if m:
            pred = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[m.group(1)]
            return build("ite", (build("icmp", (vs[0], vs[1]), 1, pred), vs[0], vs[1]), int(m.group(2)))
        m = re.match(r"(ctlz|cttz|ctpop)\.i(\d+)", base)
        if m:
            return build(m.group(1), (vs[0],), int(m.group(2)))
        m = re.match(r"abs\.i(\d+)", base)
        if m:
            w = int(m.group(1))
            return build("ite", (build("icmp", (vs[0], C(0, w)), 1, "slt"), build("sub", (C(0, w), vs[0]), w), vs[0]), w)
        m = re.match(r"(fshl|fshr)\.i(\d+)", base)
        if m:
            w = int(m.group(2))
            if not is_c(vs[2]):
                raise Unsupported("symbolic funnel shift")
            k = vs[2].val % w
            if m.group(1) == "fshr":
                k = (w - k) % w
                if k == 0:
                    return vs[1]
            if k == 0:
                return vs[0]
            return build("or", (build("shl", (vs[0], C(k, w)), w), build("lshr", (vs[1], C(w - k, w)), w)), w)
        m = re.match(r"bswap\.i(\d+)|bitreverse", base)
        if m:
            raise Unsupported(base)
        m = re.match(r"fpto([su])i\.sat\.i(\d+)\.f32", base)
        if m:
            return build(f"fpto{m.group(1)}isat", (vs[0],), int(m.group(2)))
        FM = {"fabs": "fabs", "copysign": "copysign", "floor": "ffloor", "ceil": "fceil", "trunc": "ftrunc",
              "round": "fround", "rint": "frint", "nearbyint": "frint", "roundeven": "frint", "sqrt": "fsqrt",
              "minnum": "fminnum", "maxnum": "fmaxnum", "minimum": "fminimum", "maximum": "fmaximum",
              "minimumnum": "fminnum", "maximumnum": "fmaxnum",
              "fma": "fma", "fmuladd": None}
        m = re.match(r"([a-z]+)\.f32$", base)
        if m and m.group(1) in FM:
            if m.group(1) == "fmuladd":
                return build("fadd", (build("fmul", (vs[0], vs[1]), "f"), vs[2]), "f")
            return build(FM[m.group(1)], tuple(vs), "f")
        m = re.match(r"is\.fpclass\.f32", base)
        if m:
            mask = vs[1].val
            b = build("bits", (vs[0],), 32)
            a = build("and", (b, C(0x7FFFFFFF, 32)), 32)
            neg = build("icmp", (b, C(0, 32)), 1, "slt")
            def rng(lo, hi):
                return band(build("icmp", (a, C(lo, 32)), 1, "uge"), build("icmp", (a, C(hi, 32)), 1, "ule"))
            cls = {"z": rng(0, 0), "s": rng(1, 0x7FFFFF), "n": rng(0x800000, 0x7F7FFFFF), "i": rng(0x7F800000, 0x7F800000)}
            r = FALSE
            if mask & 1:
                r = bor(r, rng(0x7F800001, 0x7FBFFFFF))
            if mask & 2:
                r = bor(r, rng(0x7FC00000, 0x7FFFFFFF))
            for k, bn, bp in (("i", 2, 9), ("n", 3, 8), ("s", 4, 7), ("z", 5, 6)):
                if mask >> bn & 1 and mask >> bp & 1:
                    r = bor(r, cls[k])
                elif mask >> bn & 1:
                    r = bor(r, band(cls[k], neg))
                elif mask >> bp & 1:
                    r = bor(r, band(cls[k], bnot(neg)))
            return r
        m = re.match(r"(ucmp|scmp)\.i(\d+)\.i(\d+)", base)
        if m:
            w = int(m.group(2))
            u = m.group(1)[0]
            lt = build("icmp", (vs[0], vs[1]), 1, u + "lt")
            gt = build("icmp", (vs[0], vs[1]), 1, u + "gt")
            return build("ite", (lt, C(-1, w), build("ite", (gt, C(1, w), C(0, w)), w)), w)
        raise Unsupported("intrinsic " + name)


OOB = build("icmp", (__import__("dag").IVar("__oob", 1), C(1, 1)), 1, "eq")


def dcopy(v):
    return [dcopy(x) for x in v] if isinstance(v, list) else v
