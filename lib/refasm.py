"""Reference semantics of the documented assembly language over token templates (an independent interpreter of the
documentation).  Payloads may be unknown: every comparison is decided under the facts of one analysed path of the code,
and both outcomes are followed when the facts leave it open.

All errors a program contains are collected (a failed part poisons its value), so that the order in which the code
looks for errors does not matter: a program must be rejected exactly when it contains an error, with a kind that
belongs to one of its errors and at a place belonging to that error."""
import spec
from wb import *

SYNTAX = frozenset(["UnexpectedChar", "UnexpectedToken", "InvalidInstruction", "ExpectedTokenNotFound", "InvalidExpression", "MissingBytes",
                    "MissingWords", "UnknownDirective", "UnknownInstruction", "UnexpectedEof"])
RANGE_ERR = frozenset(["NumOutOfRange", "SignedNumOutOfRange", "InvalidAddress", "AddrBitsDontMatch"])
STRAY = frozenset(["MacroArgOutsideOfMacro", "InvalidMacroArg", "WrongInstructionArgs"])
BINPREC = {"Plus": (2, "Add"), "Minus": (2, "Sub"), "Times": (3, "Mul"), "Divide": (3, "Div"),
           "Ampersand": (1, "BitAnd"), "Pipe": (1, "BitOr"), "Caret": (1, "BitXor")}
PREFIX = ("Minus", "UpperByte", "LowerByte")
IM = {"R0": 0, "R1": 1, "R2": 2, "R3": 3}
I32 = iv(-2**31, 2**31 - 1)
SHAPE = {"i8": "Imm", "d9": "Ex", "b3": "Ex", "a12": "Ex", "a16": "Ex", "r8": "Ex", "r16": "Ex", "@Ri": "IM"}
TABLE = {(f[0], tuple(SHAPE[k] for k in spec.kinds(f))): f for f in spec.FORMS}
SHAPES = {}
for _f in spec.FORMS:
    SHAPES.setdefault(_f[0], []).append(tuple(SHAPE[k] for k in spec.kinds(_f)))
MN = set(spec.MNEMONICS)
RNG = {"i8": (0, 255), "d9": (0, 511), "b3": (0, 7), "a16": (0, 65535), "a12": (0, 65535), "r8": (0, 65535), "r16": (0, 65535)}
REL = {"r8": (-128, 127, 0), "r16": (-32768, 32767, 1)}
POISON = None


class Syntax(Exception):
    def __init__(self, kinds=SYNTAX):
        self.kinds = kinds


class Infeasible(Exception):
    pass


class Done(Exception):
    pass


class Toks:
    def __init__(self, line):
        self.t = line          # [(file, line, col, kind, payload...)]
        self.i = 0

    def kind(self, k=0):
        return self.t[self.i + k][3] if self.i + k < len(self.t) else None

    def name(self, k=0):
        if self.kind(k) in ("Name", "MacroIdent", "MacroLabel"):
            return nm(self.t[self.i + k][4])
        return None

    def next(self):
        if self.i >= len(self.t):
            raise Syntax()
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, kind):
        if self.kind() != kind:
            raise Syntax()
        return self.next()

    @property
    def end(self):
        return self.i >= len(self.t)


def nm(s):
    """concrete name of a Name payload"""
    t = lit(s)
    return t.lower() if t is not None else s


def uses_args(a):
    """does a syntax tree mention a macro argument?"""
    return type(a) is tuple and (len(a) > 0 and a[0] in ("marg", "arg") or any(uses_args(x) for x in a))


class Ref:
    def __init__(self, F):
        self.F = F
        self.E = F.E
        self.W = F.W
        self.i32 = F.W.ty("i32")
        self.nfork = 0
        self.data = {}

    # ------------------------------------------------------------ decisions
    def choose(self, cond):
        d = self.E.decide(self.st, cond)
        if d is not None:
            return d
        if self.idx >= len(self.script):
            self.script.append(True)
        b = self.script[self.idx]
        self.idx += 1
        s = self.E.assume(self.st, cond, b)
        if s is None:
            raise Infeasible()
        self.st = s
        return b

    def inside(self, t, iset):
        if t.op == "i":
            return not iset.inter(iv(t.a[0], t.a[0])).empty()
        return self.choose(self.E.cond_in(t, iset))

    def onpage(self, x, pg):
        """x (0..65535) lies in the 4 KiB page starting at pg"""
        if x.op == "i":
            return x.a[0] >> 12 << 12 == pg
        E = self.E
        cs = [E.cond_in(x, iv(pg, pg + 4095))]
        for o, k, v in (("BitAnd", 0xF000, pg), ("Shr", 12, pg >> 12), ("Div", 4096, pg >> 12), ("BitAnd", ~0xFFF, pg)):
            cs.append(E.cond_in(E.binop(self.st, o, x, I(k), self.i32), iv(v, v)))
        for c in cs:
            d = E.decide(self.st, c)
            if d is not None:
                return d
        return self.choose(cs[0])

    def error(self, kinds, *pos):
        k = frozenset([kinds]) if type(kinds) is str else frozenset(kinds)
        p = frozenset(pos) | frozenset(self.ctx)
        self.errs.append((k, p))
        if self.goal is not None and self.goal(self.errs[-1]):
            raise Done()
        return POISON

    # ------------------------------------------------------------ driver
    def outcomes(self, files, main, st, goal=None, limit=4000):
        """[(state, errs, bytes or None)] for all decision outcomes; goal(err) true stops a path early"""
        out = []
        script = []
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Anchor("reference semantics: too many cases")
            self.st = st
            self.script = script
            self.idx = 0
            self.errs = []
            self.ctx = ()
            self.goal = goal
            self.fresh = 0
            try:
                by = self.program(files, main)
                out.append((self.st, self.errs, by))
            except Done:
                out.append((self.st, self.errs, None))
            except Infeasible:
                pass
            script = script[:self.idx]
            while script and script[-1] is False:
                script.pop()
            if not script:
                break
            script[-1] = False
        self.nfork += n
        return out

    def program(self, files, main):
        try:
            stmts = self.parse(files, main)
        except Syntax as e:
            self.error(e.kinds, *self.at)
            return None
        if self.errs:
            return None
        stmts = self.expand(stmts)
        return self.assemble(stmts)

    # ------------------------------------------------------------ parsing
    def lines(self, files, name, header=False, within=()):
        out = []
        for t in files[name]:
            if t[3] == "EOF":
                continue
            if out and out[-1][0][1] == t[1]:
                out[-1].append(t)
            else:
                out.append([t])
        for l in out:
            self.at = [l[0][:2]]
            k = [x[3] for x in l]
            if header and k[:1] == ["Hash"] and len(l) > 1 and k[1] == "Name" and nm(l[1][4]) == "define":
                # a C constant is an alias
                if len(l) < 4 or k[2] != "Name":
                    raise Syntax()
                yield [l[2], l[1][:3] + ("Name", S("equ"))] + l[3:]
            elif not header and k[0] == "Name" and nm(l[0][4]) == ".include":
                i = 1
                typ = "asm"
                if len(l) > 1 and k[1] == "Name" and nm(l[1][4]) in ("asm", "cpp", "bytes"):
                    typ = nm(l[1][4])
                    i = 2
                if len(l) <= i or k[i] != "String":
                    raise Syntax()
                if len(l) > i + 1:
                    raise Syntax()
                p = lit(l[i][4])
                if typ == "bytes":
                    yield [l[0][:3] + ("BYTES", self.data[p])]
                    continue
                if p in within + (name,):
                    raise Syntax(frozenset(["CircularInclude"]))
                for x in self.lines(files, p, typ == "cpp", within + (name,)):
                    yield x
            else:
                yield l

    def parse(self, files, main):
        self.macros = {}
        stmts = []
        cur = None
        self.at = [(0, 1)]
        last = [(0, 1)]
        for l in self.lines(files, main):
            pos = l[0][:2]
            self.at = [pos]
            last = [pos]
            T = Toks(l)
            if cur is None and T.kind() == "MacroIdent" and T.name() == "%macro":
                cur = self.header(T, pos)
                continue
            if cur is not None:
                if T.kind() == "MacroIdent" and T.name() == "%end":
                    T.next()
                    if not T.end:
                        raise Syntax()
                    cur = None
                    continue
                cur["body"] += self.macrostmt(T, pos)
                continue
            stmts += self.statement(T, pos)
            if not T.end:
                raise Syntax()
        if cur is not None:
            self.at = last + [cur["pos"]]
            raise Syntax()
        return stmts

    def header(self, T, pos):
        T.next()
        name = nm(T.eat("Name")[4])
        if name in MN:
            raise Syntax(frozenset(["MacroNameConflictsWithInstruction"]))
        args = []
        if not T.end:
            while True:
                a = self.arg(T)
                if a[0] != "marg":
                    raise Syntax(frozenset(["InvalidMacroArg"]))
                if a[1] in args:
                    raise Syntax(frozenset(["DuplicateMacroArg"]))
                args.append(a[1])
                if T.end:
                    break
                T.eat("Comma")
        m = {"name": name, "args": args, "body": [], "pos": pos}
        if (name, len(args)) in self.macros:
            raise Syntax(frozenset(["MacroAlreadyExists"]))
        self.macros[(name, len(args))] = m
        return m

    def macrostmt(self, T, pos):
        out = []
        if T.kind() in ("Name", "MacroLabel") and (T.kind(1) == "Colon" or (T.kind(1) is None and str(T.name()).startswith("."))):
            k = T.kind()
            n = T.name()
            T.next()
            if not T.end:
                T.eat("Colon")
            out.append(("mlabel" if k == "MacroLabel" else "label", pos, n))
            if T.end:
                return out
        if T.kind() != "Name" or T.name().startswith("."):
            raise Syntax()
        out.append(self.instr(T, pos))
        if not T.end:
            raise Syntax()
        return out

    def instr(self, T, pos):
        name = nm(T.eat("Name")[4])
        return ("instr", pos, name, self.list(T, self.arg))

    def list(self, T, f):
        out = []
        if T.end:
            return out
        out.append(f(T))
        while not T.end:
            T.eat("Comma")
            out.append(f(T))
        return out

    def arg(self, T):
        k = T.kind()
        if k in IM:
            T.next()
            return ("IM", IM[k])
        if k == "Hash":
            T.next()
            return ("Imm", self.expr(T))
        e = self.expr(T)
        if e[0] == "arg":
            return ("marg", e[1])
        return ("Ex", e)

    def expr(self, T, level=1):
        left = self.primary(T)
        while True:
            p = BINPREC.get(T.kind())
            if p is None or p[0] < level:
                return left
            T.next()
            right = self.expr(T, p[0] + 1)
            left = (p[1], left, right)

    def primary(self, T):
        t = T.next()
        k = t[3]
        if k == "LeftParen":
            e = self.expr(T)
            T.eat("RightParen")
            return e
        if k in PREFIX:
            return (k + "1", self.primary(T))
        if k == "Name":
            return ("name", nm(t[4]))
        if k == "Number":
            return ("num", t[4])
        if k == "MacroLabel":
            return ("mlabel", nm(t[4]))
        if k == "MacroIdent":
            return ("arg", nm(t[4]))
        raise Syntax()

    def statement(self, T, pos):
        if T.kind() == "BYTES":
            return [(".byte", pos, [("ex", ("num", x)) for x in T.next()[4]])]
        if T.kind() == "Name" and T.kind(1) == "Colon":
            n = T.name()
            T.next(), T.next()
            out = [("label", pos, n)]
            if not T.end:
                if T.kind() != "Name" or T.name().startswith("."):
                    raise Syntax()
                out.append(self.line_instr(T, pos))
            return out
        if T.kind() != "Name":
            raise Syntax()
        n = T.name()
        if T.kind(1) == "Equals" or T.name(1) == "equ":
            T.next(), T.next()
            return [("var", pos, n, self.expr(T))]
        if not n.startswith("."):
            return [self.line_instr(T, pos)]
        if n == ".byte" or n == ".word":
            T.next()
            vals = self.list(T, self.bytevalue if n == ".byte" else lambda x: ("ex", self.expr(x)))
            if not vals:
                raise Syntax()
            return [(n, pos, vals)]
        if n in (".text", ".string"):
            T.next()
            size = T.eat("Number")[4]
            return [(n, pos, size, T.eat("String")[4])]
        if n == ".org":
            T.next()
            return [(n, pos, T.eat("Number")[4])]
        if n == ".cnop":
            T.next()
            a = self.expr(T)
            T.eat("Comma")
            return [(n, pos, a, self.expr(T))]
        if T.kind(1) is None:
            T.next()
            return [("label", pos, n)]
        raise Syntax()

    def bytevalue(self, T):
        if T.kind() == "String":
            return ("str", T.next()[4])
        return ("ex", self.expr(T))

    def line_instr(self, T, pos):
        """mnemonics are checked against the operand shapes at once; other names are macro invocations"""
        x = self.instr(T, pos)
        if x[2] in MN and not any(a[0] == "marg" for a in x[3]) and (x[2], tuple(a[0] for a in x[3])) not in TABLE:
            raise Syntax(frozenset(["WrongInstructionArgs"]))
        return x

    # ------------------------------------------------------------ macros
    def expand(self, stmts):
        out = []
        for s in stmts:
            if s[0] == "instr" and s[2] not in MN:
                self.call(s[2], s[3], (s[1],), out, ())
            elif s[0] == "instr":
                out.append(("ins", (s[1],), s[2], s[3]))
            elif s[0] == "var":
                out.append(s[:1] + ((s[1],),) + s[2:])
            else:
                out.append(s[:1] + ((s[1],),) + s[2:])
        return out

    def call(self, name, args, poss, out, within):
        if (name, len(args)) in within:
            self.error("RecursiveMacro", *poss)
            return
        within += ((name, len(args)),)
        m = self.macros.get((name, len(args)))
        if m is None:
            self.error(["NoSuchMacro", "UnknownInstruction", "WrongNumberOfMacroArgs"], *poss)
            return
        amap = dict(zip(m["args"], args))
        labels = {}
        dup = False
        for s in m["body"]:
            if s[0] == "mlabel":
                if s[2] in labels:
                    self.error("DuplicateLabel", s[1], *poss)
                    dup = True
                self.fresh += 1
                labels[s[2]] = "%s_#%d" % (s[2].replace("%", ""), self.fresh)
        for s in m["body"]:
            p = (s[1],) + poss
            if s[0] == "mlabel":
                out.append(("label", p, labels[s[2]]))
            elif s[0] == "label":
                out.append(("label", p, s[2]))
            else:
                if not any(uses_args(a) for a in s[3]):
                    p = (s[1],)         # the arguments of the invocation have no part in this line
                na = []
                bad = False
                for a in s[3]:
                    if a[0] == "marg":
                        if a[1] not in amap:
                            self.error("InvalidMacroArg", *p)
                            bad = True
                        else:
                            na.append(amap[a[1]])
                    elif a[0] in ("Imm", "Ex"):
                        e = self.subst(a[1], amap, labels, p)
                        if e is None:
                            bad = True
                        na.append((a[0], e))
                    else:
                        na.append(a)
                if bad:
                    continue
                if s[2] in MN and (s[2], len(na)) not in self.macros:
                    out.append(("ins", p, s[2], na))
                else:
                    self.call(s[2], na, p, out, within)

    def subst(self, e, amap, labels, p):
        if e[0] == "arg":
            if e[1] not in amap:
                return self.error("InvalidMacroArg", *p)
            v = amap[e[1]]
            if v[0] == "Ex":
                return self.closed(v[1], p)
            return self.error({"Imm": ["ImmediateValueNotAllowedHere"], "IM": ["IndirectionModeNotAllowedHere"]}.get(v[0], STRAY), *p)
        if e[0] == "mlabel":
            if e[1] not in labels:
                return self.error("MacroLabelOutsideOfMacro", *p)
            return ("name", labels[e[1]])
        if e[0] in ("name", "num"):
            return e
        xs = [self.subst(x, amap, labels, p) for x in e[1:]]
        return None if None in xs else (e[0],) + tuple(xs)

    def closed(self, e, p):
        """an argument given outside of a macro may not use macro arguments or labels"""
        if e[0] == "arg":
            return self.error(STRAY, *p)
        if e[0] == "mlabel":
            return self.error("MacroLabelOutsideOfMacro", *p)
        if e[0] in ("name", "num"):
            return e
        xs = [self.closed(x, p) for x in e[1:]]
        return None if None in xs else (e[0],) + tuple(xs)

    # ------------------------------------------------------------ names, layout, bytes
    def assemble(self, stmts):
        glob, loc = {}, {}
        cur = ""
        pos = 0
        end = 0
        place = []
        ok = True
        for s in stmts:
            place.append((pos, cur))
            if s[0] == "label":
                n = s[2]
                d = loc.setdefault(cur, {}) if n.startswith(".") else glob
                if n in d:
                    self.error("NameAlreadyExists", *s[1])
                else:
                    d[n] = (I(pos) if pos is not None else None, s[1])
                if not n.startswith("."):
                    cur = n
            else:
                pos = self.advance(s, pos)
                if pos is not None and pos > 2**31 - 1:
                    self.error("Overflow", *s[1])
                    pos = None
                if pos is None:
                    ok = False
                    break
                end = max(end, pos)
        for s in stmts:
            if s[0] == "var":
                if s[2] in glob:
                    self.error("NameAlreadyExists", *(s[1] + glob[s[2]][1]))
                v = self.eval(s[3], lambda n: False if n.startswith(".") or n not in glob else glob[n][0], s[1])
                if s[2] not in glob:
                    glob[s[2]] = (v, s[1])
        if not ok:
            return None
        out = {}
        for s, (pos, cur) in zip(stmts, place):
            def look(n):
                d = loc.get(cur, {}) if n.startswith(".") else glob
                return d[n][0] if n in d else False
            # the scope of a statement is the nearest preceding global label
            self.emit(s, pos, look, out)
        if self.errs:
            return None
        return [out.get(i, I(0)) for i in range(end)]

    def advance(self, s, pos):
        k = s[0]
        if k == ".byte":
            return pos + sum(1 if v[0] == "ex" else len(sbytes(v[1])) for v in s[2])
        if k == ".word":
            return pos + 2 * len(s[2])
        if k in (".text", ".string"):
            n = self.lit(s[2])
            return pos + n if n is not None and n >= 0 else None
        if k == ".org":
            n = self.lit(s[2])
            if n > 0xFFFF:
                self.error("InvalidCodeLocation", *s[1])
            return n
        if k == ".cnop":
            vs = []
            for e in s[2:4]:
                if e[0] != "num":
                    self.error("MustBeLiteralNumber", *s[1])
                    return None
                vs.append(self.lit(e[1]))
            a, m = vs
            return (pos if m == 0 else (pos + m - 1) // m * m) + a
        if k == "ins":
            f = TABLE.get((s[2], tuple(a[0] for a in s[3])))
            if f is None:
                self.error(STRAY if any(a[0] == "marg" for a in s[3]) else "WrongInstructionArgs", *s[1])
                n = {spec.size(g) for g in spec.FORMS if g[0] == s[2]}
                return pos + n.pop()
            return pos + spec.size(f)
        return pos

    def lit(self, n):
        if n.op == "i":
            return n.a[0]
        v = self.E.rng(self.st, n).single()
        if v is None:
            raise Anchor("reference semantics: a layout quantity must be concrete in the template")
        return v

    def emit(self, s, pos, look, out):
        k = s[0]
        p = s[1]
        if k == ".byte":
            for v in s[2]:
                if v[0] == "str":
                    for b in sbytes(v[1]):
                        out[pos] = b
                        pos += 1
                    continue
                x = self.eval(v[1], look, p)
                if x is not POISON and not self.inside(x, iv(-128, 255)):
                    self.error("ByteOutOfRange", *p)
                out[pos] = x
                pos += 1
        elif k == ".word":
            for v in s[2]:
                x = self.eval(v[1], look, p)
                if x is not POISON and not self.inside(x, iv(-32768, 65535)):
                    self.error("WordOutOfRange", *p)
                out[pos] = x
                out[pos + 1] = ("byte1", x)
                pos += 2
        elif k in (".text", ".string"):
            n = self.lit(s[2])
            bs = sbytes(s[3])
            if len(bs) > n:
                self.error("NumberOfBytesIsLongerThanLength", *p)
                return
            for i in range(n):
                out[pos + i] = bs[i] if i < len(bs) else I(32 if k == ".text" else 0)
        elif k == "ins":
            f = TABLE.get((s[2], tuple(a[0] for a in s[3])))
            if f is None:
                return
            nxt = pos + spec.size(f)
            ops = []
            for a, kd in zip(s[3], spec.kinds(f)):
                if kd == "@Ri":
                    ops.append(I(a[1]))
                    continue
                x = self.eval(a[1], look, p)
                if x is POISON:
                    ops.append(POISON)
                    continue
                if kd == "a12":
                    # same 4 KiB page as the following location
                    pg = nxt >> 12 << 12
                    good = self.inside(x, iv(0, 65535)) and self.onpage(x, pg)
                elif kd in REL:
                    good = self.inside(x, iv(0, 65535))
                    x = add(x, I(REL[kd][2] - nxt))
                    good = good and self.inside(x, iv(*REL[kd][:2]))
                else:
                    good = self.inside(x, iv(*RNG[kd]))
                if not good:
                    self.error(RANGE_ERR, *p)
                ops.append(x)
            for j, byte in enumerate(spec.pattern(f)):
                out[pos + j] = ("bits", byte, ops)

    def eval(self, e, look, p):
        k = e[0]
        if k == "num":
            return e[1]
        if k == "name":
            v = look(e[1])
            if v is False:
                return self.error("NameNotFound", *p)
            return v
        if k == "arg":
            return self.error(STRAY, *p)
        if k == "mlabel":
            return self.error("MacroLabelOutsideOfMacro", *p)
        if k.endswith("1"):
            x = self.eval(e[1], look, p)
            if x is POISON:
                return POISON
            if k == "Minus1":
                return self.fit(neg(x), p)
            if k == "UpperByte1":
                return self.E.binop(self.st, "BitAnd", self.E.binop(self.st, "Shr", x, I(8), self.i32), I(255), self.i32)
            return self.E.binop(self.st, "BitAnd", x, I(255), self.i32)
        x = self.eval(e[1], look, p)
        y = self.eval(e[2], look, p)
        if x is POISON or y is POISON:
            return POISON
        if k == "Div":
            if self.inside(y, iv(0, 0)):
                return self.error("DivideByZero", *p)
            if self.inside(y, iv(-1, -1)) and self.inside(x, iv(-2**31, -2**31)):
                return self.error("Overflow", *p)
            return self.E.binop(self.st, "Div", x, y, self.i32)
        if k in ("Add", "Sub", "Mul"):
            return self.fit(self.E.arith(k, x, y), p)
        return self.E.binop(self.st, k, x, y, self.i32)

    def fit(self, t, p):
        if not self.inside(t, I32):
            return self.error("Overflow", *p)
        return t

    # ------------------------------------------------------------ comparing with the code
    def want_bits(self, st, v):
        if type(v) is tuple and v[0] == "byte1":
            return bits(v[1], 16, self.E, st)[8:]
        if type(v) is tuple:
            ob = [None if o is POISON else bits(o, 32, self.E, st) for o in v[2]]
            return [b if type(b) is int else ob[b[0]][b[1]] for b in v[1]][::-1]
        return bits(v, 8, self.E, st)


def sbytes(s):
    out = []
    for p in s.a:
        if type(p) is str:
            out += [I(b) for b in p.encode()]
        elif p.op == "byte":
            out.append(p.a[0])
        elif p.op == "ch":
            raise Anchor("reference semantics: unknown character in a string")
        else:
            raise Anchor("reference semantics: string of unknown length " + pretty(p))
    return out


def image_bytes(F, v):
    """elements of an Ok(image) value as a python list, or None"""
    v = v.a[2]
    if v.op != "seq":
        base, sets = unset(v)
        if base.op != "seq":
            return None
    else:
        base, sets = unset(v)
    xs = []
    for p in base.a:
        if p.op == "e":
            xs.append(p.a[0])
        elif p.op == "rep" and p.a[1].op == "i":
            xs += [p.a[0]] * p.a[1].a[0]
        else:
            return None
    for i, x in sets:
        if i.op != "i" or not 0 <= i.a[0] < len(xs):
            return None
        xs[i.a[0]] = x
    return xs


def span_of(W, v):
    """(file, line) of the first source position mentioned in an error value"""
    out = []
    def go(n):
        if type(n) is not N or n.op != "adt":
            return
        if W.T[n.a[0]]["name"].endswith("location::Location"):
            fs = dict(zip([x[0] for x in W.T[n.a[0]]["variants"][0]["fields"]], n.a[2:]))
            f = fs.get("file")
            l = fs.get("line")
            fid = next((x.a[0] for x in subterms(f) if x.op == "i"), None) if f is not None else None
            if l is not None and l.op == "i":
                out.append((fid, l.a[0]))
            return
        for x in n.a[2:]:
            go(x)
    go(v)
    return out
