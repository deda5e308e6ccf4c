"""What `waterbear expand` prints, read back: the printed text of a program schema is tokenised (by the documented lexical
rules) and given to the reference semantics, which must assign it the same image as the schema itself."""
from source import *

ESC = {"r": "\r", "n": "\n", "t": "\t", "b": "\b", "0": "\0"}
LIT = iv(0, 2**31 - 1)


class Unreadable(Exception):
    pass


class Undetermined(Exception):
    pass


def printed_text(W, st):
    """the text handed to the print macros on this path, as an S term"""
    out = []
    for e in st.eff:
        if e[0] in ("call", "lcall") and e[1].endswith("io::_print"):
            v = e[2][0]
            if v.op != "fargs" or v.a[0].op != "S":
                raise Undetermined("the printed text cannot be determined: " + pretty(v)[:200])
            out.append(v.a[0])
        elif e[0] == "loop":
            raise Undetermined("printing happens in a loop that is not unrolled")
    return S(*out)


def to_template(E, st, text):
    """(template text, env): literal parts are kept, unknown parts become {pN}"""
    items = []
    for p in text.a:
        if type(p) is str:
            items += list(p)
        else:
            items.append(p)
    out, env, names = [], {}, {}

    def hole(v):
        k = "p%d" % len(env)
        env[k] = v
        out.append("{%s}" % k)
    i, n = 0, len(items)

    def isnum(k, spec):
        return k < n and type(items[k]) is N and items[k].op == "disp" and items[k].a[1][:1] == spec and (spec != "d" or items[k].a[1] == "d")

    def wordch(k):
        return k < n and (type(items[k]) is not str or items[k].isalnum() or items[k] in "_.$'")

    def number(k):
        v = items[k].a[0]
        if not E.rng(st, v).inter(iv(-2**62, -1)).empty():
            raise Unreadable("the printed number %s can be negative" % pretty(v)[:80])
        if wordch(k + 1):
            raise Unreadable("a printed number runs into what follows it")
        hole(v)
        return k + 1
    prevword = False
    while i < n:
        c = items[i]
        if c == "\n" or (type(c) is str and c.isspace()):
            out.append("\n" if c == "\n" else " ")
            i += 1
            prevword = False
        elif c == ";":
            while i < n and items[i] != "\n":
                if type(items[i]) is N and may_newline(E, st, items[i]):
                    raise Unreadable("a printed comment may contain a line end: " + pretty(items[i])[:80])
                i += 1
        elif c == '"':
            parts = []
            i += 1
            while True:
                if i >= n:
                    raise Unreadable("a printed string is not closed")
                c = items[i]
                if c == '"':
                    i += 1
                    break
                if c == "\\":
                    if i + 1 >= n:
                        raise Unreadable("a printed escape is not readable")
                    x = items[i + 1]
                    if type(x) is N and (x.op != "byte" or any(not E.rng(st, x.a[0]).inter(iv(ord(k), ord(k))).empty() for k in ESC)):
                        raise Unreadable("a printed escape is not readable: " + pretty(x)[:80])
                    parts.append(x if type(x) is N else ESC.get(x, x))
                    i += 2
                    continue
                if type(c) is N:
                    if c.op != "byte":
                        raise Unreadable("a printed string contains " + pretty(c)[:80])
                    if not E.rng(st, c.a[0]).inter(iv(34, 34).union(iv(92, 92))).empty():
                        raise Unreadable("a printed string may contain an unescaped quote or backslash (%s)" % E.rng(st, c.a[0]))
                parts.append(c)
                i += 1
            hole(("str", S(*parts)))
        elif not prevword and c == "$" and isnum(i + 1, "X"):
            i = number(i + 1)
        elif not prevword and c == "$" and isnum(i + 1, "x"):
            i = number(i + 1)
        elif not prevword and c == "%" and isnum(i + 1, "b"):
            i = number(i + 1)
        elif not prevword and c == "0" and i + 1 < n and items[i + 1] in ("o", "O") and isnum(i + 2, "o"):
            i = number(i + 2)
        elif not prevword and c == "0" and i + 1 < n and items[i + 1] in ("b", "B") and isnum(i + 2, "b"):
            i = number(i + 2)
        elif not prevword and c == "0" and i + 1 < n and items[i + 1] in ("x", "X") and (isnum(i + 2, "X") or isnum(i + 2, "x")):
            i = number(i + 2)
        elif not prevword and isnum(i, "d"):
            i = number(i)
        elif type(c) is str and c == "0" and not prevword and i + 1 < n and items[i + 1] in ("o", "O", "b", "B", "x", "X"):
            j = i + 2
            while j < n and type(items[j]) is str and items[j].isalnum():
                j += 1
            try:
                hole(I(int("".join(items[i + 2:j]), {"o": 8, "b": 2, "x": 16}[items[i + 1].lower()])))
            except ValueError:
                raise Unreadable("a printed number is not readable: " + "".join(items[i:j]))
            i = j
        elif type(c) is N:
            # part of a generated name: distinct unknown parts give distinct names
            if c.op == "disp":
                raise Unreadable("a printed number %s has no base prefix that fits it" % pretty(c)[:80])
            if not (prevword and out and (out[-1][-1].isalnum() or out[-1][-1] in "_.")):
                raise Unreadable("unknown text is printed: " + pretty(c)[:120])
            out.append("u%d" % names.setdefault(c, len(names)))
            i += 1
        else:
            prevword = wordch(i)
            out.append(c)
            i += 1
    return "".join(out), env


def may_newline(E, st, p):
    if p.op in ("byte", "chr"):
        return not E.rng(st, p.a[0]).inter(iv(10, 10).union(iv(13, 13))).empty()
    return p.op not in ("disp",)


class PrintJudge(Judge):
    """judges expand_file: the printed program denotes the image of the schema"""

    def __init__(self, W):
        Judge.__init__(self, W)
        for n, r in (("hx", "Hex"), ("bx", "Binary"), ("ox", "Octal"), ("dx", "Decimal")):
            self.env[n] = ("tok", "Number", self.F.E.sym(n, W.ty("i32")), W.adt("lexer::Radix", r))

    def initial(self, sc):
        st = St()
        for n in list("xyzwuv") + ["hx", "bx", "ox", "dx"]:
            v = self.env[n]
            v = v if type(v) is N else v[2]
            st.facts[("r", v)] = LIT
        for k in range(8):
            st.facts[("r", self.F.E.sym("b%d" % k, self.W.ty("u8")))] = iv(0, 127)
        for n, r in sc.facts.items():
            v = self.env[n]
            st.facts[("r", v if type(v) is N else v[2])] = iv(*r)
        return st

    def show(self, st):
        return str({k: v for k, v in facts(st).items() if str(v) not in ("{0..2147483647}", "{0..127}")})[:400]

    def equal(self, st, g, w):
        if g is w or g == w or self.R.want_bits(st, g) == self.R.want_bits(st, w):
            return True
        a, b = (x if type(x) is int else self.F.E.rng(st, x).single() if type(x) is N else None for x in (g, w))
        return a is not None and b is not None and (a - b) % 256 == 0

    def judge(self, sc):
        F, R, W, E = self.F, self.R, self.W, self.F.E
        data = {k: [cast_byte(W, E, "%s.%d" % (k, i)) for i in range(n)] for k, n in sc.data.items()}
        R.data = data
        rows = F.assemble(sc.text, self.env, self.initial(sc), includes=sc.includes, data=data, root="waterbear::asm::expand_file")
        out = Problems()
        for p in E.panics:
            out.at(p[0])
            if self.feasible(p[0]):
                out.append(("panic", "%s in %s for %s" % (p[1], p[2], self.show(p[0]))))
        out.at(None)
        if not rows and not out:
            out.append(("no outcome", "the analysis finds no outcome at all"))
        for s, v in rows:
            out.at(s)
            self.rows += 1
            k = W.variant(v)
            if k == "Err":
                if any(e[1].endswith("io::_print") for e in s.eff if e[0] in ("call", "lcall")):
                    out.append(("printed", "an error is returned after a program was printed; " + self.show(s)))
                for s2, errs, by in R.outcomes(F.py, "main.s", s, lambda x: W.variant(v.a[2]) in x[0]):
                    self.cases += 1
                    if not errs:
                        out.append(("rejected", "rejected with %s although the program is correct; %s" % (W.variant(v.a[2]), self.show(s2))))
                continue
            if k != "Ok":
                out.unknown("outcome", "cannot be determined: %s" % pretty(v)[:300])
                continue
            try:
                text, env = to_template(E, s, printed_text(W, s))
                try:
                    toks = [(0, ln, col) + x for ln, col, x in F.lex(text, env)]
                except ValueError as e:
                    raise Unreadable(str(e))
            except Undetermined as e:
                out.unknown("printed text", str(e))
                continue
            except Unreadable as e:
                out.append(("unreadable", "%s; %s" % (e, self.show(s))))
                continue
            for s2, errs, by in R.outcomes(F.py, "main.s", s, lambda x: True):
                for s3, errs3, by3 in R.outcomes({"main.s": toks}, "main.s", s2, lambda x: True):
                    self.cases += 1
                    if errs and errs3:
                        continue
                    if errs or errs3:
                        out.append(("printed program", "the program is %s, but what is printed is %s:\n%s\n%s" % (
                            "wrong (%s)" % sorted(errs[0][0]) if errs else "correct", "wrong (%s)" % sorted(errs3[0][0]) if errs3 else "correct", text[:300], self.show(s3))))
                    elif len(by) != len(by3):
                        out.append(("printed length", "what is printed has %d bytes, expected %d:\n%s\n%s" % (len(by3), len(by), text[:300], self.show(s3))))
                    else:
                        for i, (g, w) in enumerate(zip(by3, by)):
                            if not self.equal(s3, g, w):
                                out.append(("printed byte %d" % i, "is %s, expected %s:\n%s\n%s" % (self.showw(g), self.showw(w), text[:300], self.show(s3))))
                                break
        return out
