"""The lexer: texts of literal characters and unknown ASCII bytes against a reference lexer."""
import re

import engine
import text as X
from source import run_schemas
from common import Problems
from wb import *

WS = norm(X.SPACE_CP)
ALPHA = norm([(65, 90), (97, 122)])
IDENT0 = norm([(65, 90), (97, 122), (95, 95), (46, 46)])
IDENT = norm([(65, 90), (97, 122), (95, 95), (46, 46), (48, 57), (36, 36)])
HEX = norm([(48, 57), (65, 70), (97, 102)])
SIMPLE = {"(": "LeftParen", ")": "RightParen", "#": "Hash", ",": "Comma", "=": "Equals", "+": "Plus", "*": "Times", "-": "Minus", "/": "Divide", "&": "Ampersand",
          "|": "Pipe", "^": "Caret", ">": "UpperByte", "<": "LowerByte"}
I32MAX = 2**31 - 1


class Lex:
    """reference lexer (written from the documentation), over cells decided under the facts of a path"""

    def __init__(self, cs, D, ccomments=False):
        self.cs, self.D, self.cc = cs, D, ccomments
        self.o = X.offsets(cs)
        self.p = 0
        self.unspec = False

    def at(self, k, s):
        k += self.p
        if k >= len(self.cs):
            return False
        return self.D.isin(self.cs[k], s) if type(s) is X.ISet else self.D.eq(self.cs[k], s)

    def loc(self, p):
        """(byte position, line, column) of cell p; positions inside a character count as after it"""
        line, col, q = 1, 0, 0
        while q < p:
            e = X.grapheme_end(self.cs, q, self.D)
            if e > p:
                col += 1
                break
            if self.D.eq(self.cs[e - 1], 10):
                line, col = line + 1, 0
            else:
                col += 1
            q = e
        return self.o[p], line, col

    def eol(self, k):
        return self.p + k >= len(self.cs) or self.at(k, "\n") or (self.at(k, "\r") and self.at(k + 1, "\n"))

    def line_start(self):
        return self.p == 0 or self.D.eq(self.cs[self.p - 1], 10)

    def skip(self):
        while self.p < len(self.cs):
            if self.at(0, WS):
                self.p += 1
            elif not self.cc and (self.at(0, ";") or self.at(0, "*") and self.line_start()) or self.cc and self.at(0, "/") and self.at(1, "/"):
                while not self.eol(0):
                    self.p += 1
            elif self.cc and self.at(0, "/") and self.at(1, "*"):
                k = 2
                while self.p + k < len(self.cs) and not (self.at(k, "*") and self.at(k + 1, "/")):
                    k += 1
                if self.p + k >= len(self.cs):
                    self.unspec = True      # unterminated comment
                    return
                self.p += k + 2
            else:
                return

    def lower(self, cs):
        out = []
        for c in cs:
            if type(c) is int:
                out.append(ord(chr(c).lower()))
            else:
                out.append(add(c, I(32)) if self.D.isin(c, X.UPPER) else c)
        return X.text(out)

    def number(self, start, digits, radix):
        k = start
        v = I(0)
        big = False
        while True:
            if self.at(k, digits):
                v = add(scale(v, radix), X.digit(self.D, self.cs[self.p + k], radix))
                if not self.D.E.rng(self.D.st, v).subset(iv(0, I32MAX)) and not self.D.true(self.D.E.cond_in(v, iv(0, I32MAX))):
                    big = True
                k += 1
            elif k > start and self.at(k, "'") and self.at(k + 1, digits):
                k += 1
            else:
                break
            if big:
                return k, None
        return k, v

    def token(self):
        """(length, kind, payload) or None"""
        if self.at(0, "%"):
            if self.at(1, IDENT0):
                k = 2
                while self.at(k, IDENT):
                    k += 1
                return k, "MacroIdent", self.lower(self.cs[self.p:self.p + k])
            if self.at(1, iv(48, 49)):
                return self.num(1, iv(48, 49), 2, "Binary")
            return None
        if self.at(0, IDENT0):
            k = 1
            while self.at(k, IDENT):
                k += 1
            kind = "Name"
            if self.at(k, "%"):
                k += 1
                kind = "MacroLabel"
            return k, kind, self.lower(self.cs[self.p:self.p + k])
        if self.at(0, X.DIGIT):
            if self.at(0, "0"):
                for cc, d, r, n in (("xX", HEX, 16, "Hex"), ("bB", iv(48, 49), 2, "Binary"), ("oO", iv(48, 55), 8, "Octal")):
                    if self.at(1, norm([(ord(c), ord(c)) for c in cc])) and self.at(2, d):
                        return self.num(2, d, r, n)
            return self.num(0, X.DIGIT, 10, "Decimal")
        if self.at(0, "$"):
            return self.num(1, HEX, 16, "Hex") if self.at(1, HEX) else None
        if self.at(0, '"'):
            out = []
            k = 1
            while True:
                if self.p + k >= len(self.cs):
                    return None
                if self.at(k, '"'):
                    return k + 1, "String", X.text(out)
                if self.at(k, "\\"):
                    k += 1
                    if self.p + k >= len(self.cs) or self.at(k, "\n"):
                        return None
                    for e, w in (("r", 13), ("n", 10), ("t", 9), ("b", 8), ("0", 0)):
                        if self.at(k, e):
                            out.append(w)
                            break
                    else:
                        out.append(self.cs[self.p + k])
                else:
                    out.append(self.cs[self.p + k])
                k += 1
        if self.at(0, "@"):
            if self.at(1, norm([(82, 82), (114, 114)])) and self.at(2, iv(48, 51)):
                for r in range(4):
                    if self.at(2, str(r)):
                        return 3, "R%d" % r, None
            return None
        if self.at(0, ":"):
            return (2, "DoubleColon", None) if self.at(1, ":") else (1, "Colon", None)
        for c, n in SIMPLE.items():
            if self.at(0, c):
                return 1, n, None
        return None

    def num(self, start, digits, radix, name):
        k, v = self.number(start, digits, radix)
        return None if v is None else (k, "Number", (v, name))

    def run(self):
        """([(kind, payload, start, end)], location of the unexpected character or None)"""
        out = []
        while True:
            self.skip()
            if self.unspec:
                return out, "unspecified"
            if self.p >= len(self.cs):
                return out, None
            t = self.token()
            a = self.loc(self.p)
            if t is None:
                return out, a
            n, kind, pay = t
            out.append((kind, pay, a, self.loc(self.p + n)))
            self.p += n


ESC = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", '"': '"'}


def unesc(t):
    """\\n, \\r, \\t, \\\\, \\", \\xHH, \\uHHHH"""
    def f(m):
        return ESC[m.group(1)] if m.group(1) in ESC else chr(int(m.group(1)[1:], 16))
    return re.sub(r'\\([nrt"\\]|x[0-9a-f]{2}|u[0-9a-f]{4})', f, t)


class Schema:
    """a text template: `?` is an unknown ASCII character, ~ a separator that stands for nothing"""

    def __init__(self, template):
        self.t = template
        self.key = repr(template)[1:-1] or "(empty)"


class LexJudge:
    def __init__(self, W, header=False):
        self.W = W
        self.header = header
        self.E = W.engine(force_inline=[r"waterbear"], models=X.text_models(), maxstates=6000000)
        self.E.finite = True
        self.E.maxrec = 24
        self.E.maxdepth = 200
        self.F = self
        self.rows = self.cases = 0
        self.fid = W.adt("files::FileID", "FileID", I(7))
        self.un = [self.E.sym("c%d" % k, W.ty("u8")) for k in range(6)]

    def initial(self, n):
        st = St()
        for b in self.un[:n]:
            st.facts[("r", b)] = X.ASCII
        return st

    def location(self, st, v):
        W, E = self.W, self.E
        t = self.W.T[v.a[0]]
        d = {n: v.a[2 + i] for i, (n, _) in enumerate(t["variants"][0]["fields"])}
        vals = [E.rng(st, d[n]).single() for n in ("pos", "line", "column")]
        if None in vals:
            raise Anchor("location cannot be determined")
        if d["file"] is not self.fid:
            raise Anchor("location in another file")
        return tuple(vals)

    def toktuple(self, st, v):
        W, E = self.W, self.E
        v = E.snapshot(st, v)
        d = dict(zip([n for n, _ in W.T[v.a[0]]["variants"][0]["fields"]], v.a[2:]))
        k = d["token_type"]
        sp = dict(zip([n for n, _ in W.T[d["span"].a[0]]["variants"][0]["fields"]], d["span"].a[2:]))
        return W.variant(k), k.a[2:], self.location(st, sp["start"]), self.location(st, sp["end"])

    def judge(self, sc):
        W, E = self.W, self.E
        cs = []
        for c in sc.t:
            if c == "?":
                cs.append(self.un[sum(1 for x in cs if type(x) is not int)])
            elif c != "~":
                cs.append(ord(c))
        txt = X.text(cs)
        n = sum(1 for x in cs if type(x) is not int)
        E.nstates = 0
        pan = []
        rows = []
        for st, inp in E.analyse(W.fn("waterbear::input::Input::new"), [self.fid, txt], self.initial(n)):
            st = st.copy()
            o = ("X", "input")
            st.mem[o] = inp
            rows += E.analyse(W.fn("waterbear::cheader::lex_input" if self.header else "waterbear::lexer::lex_input"), [mk("ref", o, ())], st)
            pan += E.panics
        out = Problems()
        for p in pan:
            out.at(p[0])
            out.append(("panic", "%s in %s for %s" % (p[1], p[2], facts(p[0]))))
        out.at(None)
        if not rows and not out:
            out.append(("no outcome", "the analysis finds no outcome"))
        for st, v in rows:
            out.at(st)
            self.rows += 1
            v = E.snapshot(st, v)
            if W.variant(v) == "Ok":
                toks = seq_concrete(v.a[2]) if v.a[2].op == "seq" else None
                if toks is None:
                    out.unknown("outcome", "the tokens cannot be determined: " + pretty(v)[:200])
                    continue
                got = [self.toktuple(st, t) for t in toks]
                if self.header:
                    got = got if got and got[-1][0] == "EOF" else got + [("EOF",)]
                if not got or got[-1][0] != "EOF" or any(g[0] == "EOF" for g in got[:-1]):
                    out.append(("end", "the tokens do not end with one EOF"))
                    continue
                err = None
                got = got[:-1]
            elif W.variant(v) == "Err":
                got, kind, err = None, None, None
                for x in subterms(v):
                    if x.op == "adt" and W.T[x.a[0]]["s"] == "location::Location":
                        err = self.location(st, x)
                    if x.op == "adt" and W.variant(x) == "UnexpectedChar":
                        kind = "UnexpectedChar"
                if kind != "UnexpectedChar" or err is None:
                    # a #define line may also be malformed (decided by H01)
                    bad = self.header and "define" in sc.t.lower()
                    for s2, (want, werr) in X.cases(E, st, lambda D: Lex(cs, D, self.header).run()) if bad else [(st, (None, None))]:
                        if not bad or werr != "unspecified" and self.simple_defines(want):
                            out.append(("error", "is %s; %s" % (pretty(v)[:200], facts(s2))))
                    continue
            else:
                out.unknown("outcome", "cannot be determined: " + pretty(v)[:200])
                continue
            for s2, (want, werr) in X.cases(E, st, lambda D: Lex(cs, D, self.header).run()):
                self.cases += 1
                if werr == "unspecified":
                    continue
                if self.header:
                    want = self.defines(want)
                for x in self.compare(s2, got, err, want, werr):
                    out.append(x)
        return out

    def simple_defines(self, toks):
        """every line #define ... is #define NAME number-or-name"""
        for ln in {t[2][1] for t in toks}:
            l = [t for t in toks if t[2][1] == ln]
            if l[0][0] == "Hash" and not (len(l) == 4 and l[2][0] == "Name" and l[3][0] in ("Number", "Name")):
                return False
        return True

    def defines(self, toks):
        """lines #define NAME rest are NAME equ rest"""
        out = []
        i = 0
        while i < len(toks):
            j = i
            while j < len(toks) and toks[j][2][1] == toks[i][2][1]:
                j += 1
            l = toks[i:j]
            if len(l) > 3 and l[0][0] == "Hash" and l[1][0] == "Name" and X.cells(l[1][1]) == [ord(c) for c in "define"]:
                l = [l[2], ("Name", S("equ"), l[0][2], l[1][3])] + l[3:]
            out += l
            i = j
        return out

    def compare(self, st, got, err, want, werr):
        sh = lambda ts: " ".join("%s%s" % (t[0], "" if t[1] is None or t[1] == () else "(%s)" % ", ".join(pretty(x) if type(x) is N else str(x) for x in (t[1] if type(t[1]) is tuple else (t[1],)))) for t in ts)
        fa = str(facts(st))[:300]
        if werr is not None:
            if err is None:
                return [("accepted", "gives %s although the character at %s begins no token; %s" % (sh(got), werr, fa))]
            if err != werr:
                return [("error position", "reported at %s, expected %s; %s" % (err, werr, fa))]
            return []
        if err is not None:
            return [("rejected", "character at %s is rejected, expected %s; %s" % (err, sh(want), fa))]
        if [g[0] for g in got] != [w[0] for w in want]:
            return [("tokens", "are %s, expected %s; %s" % (sh(got), sh(want), fa))]
        for g, w in zip(got, want):
            if not self.same(st, g, w):
                return [("payload", "is %s, expected %s; %s" % (sh([g]), sh([w]), fa))]
            if g[2] != w[2] or g[3] != w[3]:
                return [("position", "of %s is %s to %s, expected %s to %s; %s" % (sh([g]), g[2], g[3], w[2], w[3], fa))]
        return []

    def same(self, st, g, w):
        if w[0] == "Number":
            v, radix = w[1]
            x = self.E.rng(st, sub(g[1][0], v)) == iv(0, 0)
            return x and self.W.variant(g[1][1]) == radix
        if w[1] is None:
            return g[1] == ()
        a, b = X.cells(g[1][0]), X.cells(w[1])
        if a is None or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            x, y = [I(c) if type(c) is int else c for c in (x, y)]
            if self.E.rng(st, sub(x, y)) != iv(0, 0):
                return False
        return True


def lex_family(W, R, temps, floor, rule, header=False):
    R.rule = rule
    temps = list(dict.fromkeys(temps))
    n = run_schemas(W, R, [Schema(t) for t in temps], make=lambda: LexJudge(W, header), where="cheader::lex_input" if header else "lexer::lex_input", per=10**9)
    R.floor("texts", n, floor)


RULE = ("lexer::lex_input is abstractly interpreted (every path, regular expressions matched on the text's characters) on texts of literal characters and unknown ASCII "
        "characters; on each path the tokens, payloads, start and end positions (byte, line, column), or the position of the rejected character, must be those of the "
        "reference lexer; ")


def prod(*ls):
    out = [""]
    for l in ls:
        out = [a + b for a in out for b in l]
    return out


def x01(W, R, tier):
    pre = ["", "$", "0x", "0X", "%", "0b", "0B", "0o", "0O"]
    T = []
    for p in pre:
        T += [p + "?", p + "??", p + "1'?", p + "1''?", p + "1?'1", p + "1?1", p + "1'0?", p + "00000000000000000000000000000000000000?", p + "'?", p + "1'?'1?", " " + p + "1? ", "(" + p + "1?)", "-" + p + "1?",
              p + "1 ?", p + "1,?", p + "1.?", p + "1%?", p + "1$?", p + "1x?", "a" + p + "?", "a " + p + "?", "." + p + "?", "_" + p + "1?"]
        if tier == "thorough":
            T += [p + "???", p + "1??'", p + "1'1'??", p + "?'??"]
    for big in ("214748364?", "2147483?47", "214748365?", "9999999999?", "?147483648", "99999999999999999999999999999999?", "2'147'483'64?", "2'147'483'648 ?", "1\n99999999999\n2?"):
        T.append(big)
    for p in ("$", "0x", "0X"):
        T += [p + "7ffffff?", p + "?fffffff", p + "8000000?", p + "0?fffffff", p + "fffffffff?", p + "7FFF'FFF?", p + "7f'ff'ff'f?", p + "1'00000000?"]
    for p in ("%", "0b", "0B"):
        T += [p + "?" + "1" * 31, p + "1" * 30 + "?", p + "0?" + "1" * 31, p + "1" * 32 + "?", p + "1111'" * 7 + "11?"]
    for p in ("0o", "0O"):
        T += [p + "1777777777?", p + "?7777777777", p + "2000000000?", p + "177'777'777'7?"]
    T += ["%2?", "%8?", "%?1", "$g?", "0xg?", "0b2?", "0o8?", "0?0", "00?", "08?", "0'?", "0'x1?", "0x'1?", "0b'1?", "?0x1", "??1"]
    T = [unesc(t) for t in T]
    lex_family(W, R, T, 250, RULE + "numbers have the value their digits denote in their base (prefixes $ 0x % 0b 0o, separator ' between digits), and one above 2147483647 is rejected.")


def x02(W, R, tier):
    # raw text; <NL> <CR> <U+XXXX> stand for characters
    T = [r'"?"', r'"??"', r'"\?"', r'"\??"', r'"?\?"', r'"\\?"', r'"a?', r'"a?<NL>"', r'"?', r'"', r'""', r'""?', r'"a"?', r'"a" ?', r'"a""?"', r'"a" "?"', r'"\?', r'"\"?', r'"\""?', r'"\\"?', r'"\\\?"', r'"\\\\?"', r'"\\\"?"', r'?"a"', r'?"',
         r'"a\n?b"', r'"\r\n\t\b\0\?"', r'"\R\N\T\B\1\?"', r'"\a\f\v\e\x41?"', r'"?;"', r'";?"', r'"*?"', r'"<NL>?"', r'"<NL>;?"', r'"<NL>*?"', r'"<CR><NL>?" b', r'"a<NL><NL>?" b<NL>c', r'"<U+00E9>?"', r'"\<U+00E9>?"', r'"?<U+00E9>" c', r'"e<U+0301>?" c',
         r'"<U+65E5><U+672C>?" c', r'"a<U+0301>" b?', r'"?"<U+0301>', r';"?<NL>"', r'"?"x', r'"?"%', r'1"?"', r'a"?"', r'%"?"', r'@"?"', r'"\x?1"', r'"\\n?"', r'"\\\n?"', r'"0?\0?"', r'"a,?b" , "?"', r' "?" ', r'"\<NL>?"', r'"\<CR><NL>?"', r'"\<CR>?"',
         r'"%a? a% $1 0x1"', r'"<U+2028>?"', r'"?\\"', r'"\\?\\" b', r'"\n\n\n"?', r'"?\"', r'"\"\"?"', r"'?'", r"'?", r'"A?Z"', r'"mov #?, @R0"']
    if tier == "thorough":
        T += [r'"???"', r'"\???"', r'??"??"', r'"\?\?"', r'"?"?"?"', r'"\?"\?', r'"?\"?\"?"']
    T = [re.sub(r"<U\+(\w{4})>", lambda m: chr(int(m.group(1), 16)), t.replace("<NL>", "\n").replace("<CR>", "\r")) for t in T]
    lex_family(W, R, T, 55, RULE + r"a string is the characters between its quotes with \r \n \t \b \0 standing for the control characters and \c for any other c.")


SAMPLES = ["a", ".", "_", "a1", ".a", "A.b$c_0", "a%", ".a%", "%a", "%.a", "%_", "(", ")", "#", ",", ":", "::", "=", "+", "*", "-", "/", "&", "|", "^", ">", "<", "@R0", "@r3", "@R", "@", "1", "$f", "%1", "\"s\"", "mov", "LD", "Z9", "a$", "a..b", "!", "[", "~", "é", "ä1",
           "a\u0301", "%", "$", "\\", "'", "`"]


def x03(W, R, tier):
    T = ["?", "??"]
    for a in SAMPLES:
        T += [a + "?", "?" + a, a + " ?", a + "?a", a + "?1"]
        if a not in ("[", "~", "!"):
            T += [a + "??"] if tier == "thorough" or len(a) <= 2 else []
    T += ["@?0", "@?3", "@r?", "@R?", "@R??", "@??", "@R4?", "a%?", "a%%?", "%a%?", "%%a?", "%a.?", "%?a", "%??", "a:?", ":::?", "::::?", "a::?:", "A?Z?", "?Z", "?z0", "Mov?", "%A?", "A?%", "%A?B", ".A?%", "%.A?", "a.%?", "@r1?", "@R1@?2", "a,?b", "a=?", "a-?", "a*?", "a;?", "a/?", "a//?", "a/*?*/"]
    T = [unesc(t) for t in T]
    lex_family(W, R, T, 250, RULE + "names, macro names, registers and punctuation are the longest that match, names are in lower case, and a character that begins no token is rejected.")


def x04(W, R, tier):
    T = []
    for ws in (" ", "\t", "\n", "\r\n", "\r", "\x0b", "\x0c", "\u00a0", "\u2003", "\u0085", "\u2028", "\n\n", " \n ", "\r\n\r\n", "\n\r", "\r\r\n", "\t\t", "\n\r\n"):
        T += ["a" + ws + "?", ws + "?", "?" + ws + "b", "a" + ws + "b" + ws + "?", ws + "!?", "a" + ws + ";?" + ws + "b", "a" + ws + "*?" + ws + "b", ";" + ws + "?", "*" + ws + "?", "?" + ws]
    T += [";?", ";??", ";?\nb", ";a?b\nc d", "; ?;\n!", "a;?", "a;?\nb", "a ;\"?\nb", ";\r?b", ";\r?\nb", ";?\r\nb c", ";\n;?\n;\n?", "*?", "*?\nb", " *?", "\n*?", "\n *?\nb", "a\n*?b\nc", "a*?\nb", "a\r*?", "a\r\n*?\nb", "*\n*?\nb", "*\n?", "* ;?\n*;\nb", ";*\n?", ";\n*?\n*b\nc",
          "a ?\n?", "?\n?", "?\r?", "?\r\n?", "\r?\n", "a\n?\nb\n?", ";\u00e9?\nb", ";e\u0301?\nb c", "\u00a0?", "a \u00e9", "a\n \u00e9", ";\u65e5\u672c\n !", "\"\u65e5\" !", "\"\u65e5\" ?", "\"e\u0301\" ?", "\u0301?", " \u0301?", "a\u0301?", "1\u0301", "\n\u0301?", ";\u0301\n?", "; \n\n\n ?", "/?", "//?", "/*?*/", "# ?", "a b c d ?", "", " ", "\n", ";", "*", "\r",
          "a\n\n\n  bc  ?", "\"a\nb\" ?", "\"a\r\nb\" ?", "(\n)\n?", "1\n22\n333?", "a:\n.b:\n%c?\n", "??\na", "?;?", "?*?", "\n?*", "*?;", ";\r\r\n?"]
    if tier == "thorough":
        T += ["???", "\n???", ";???", "a???", "?\n?\n?", "*???", "a\n*?\n??", "??;?", "?;\n?"]
    T = [unesc(t) for t in T]
    lex_family(W, R, T, 200, RULE + "blanks, comments from ; to the end of the line and whole lines beginning with * separate tokens and contribute nothing; line and column of every token count what precedes it.")


def ch02(W, R, tier):
    # the lines of a header: a #define line has a name and an expression, other lines do not begin with #define
    T = ["", " ", "/", "//", "a?b", "a ?b", "//?", "//?\\nb", "//??\\nb", "a//?", "a//?\\nb c", "/?/a", "/?a", "/*?*/", "/*?*/a", "a/*?*/b", "a /*?*/ b", "/*??*/b", "/*\\n?*/ b", "/*a?/b*/c", "/**?/", "/***/?", "/**/?", "/*/?*/b", "/* *?/ */b", "/*/*?*/b", "/*?*/*/", "//?/*\\nb*/",
         "/*//?*/b", "// /*\\n?", "/*?\\n?*/\\nb", "a/?*b*/", "; ?", "a;?", "*?", "\\n*?", "a\\n//\\n?", "//\\r\\n?", "//?\\r\\nb", "/*\\r\\n?*/b c", "//\\u00e9?\\nb", "/*\\u00e9?*/b c", "/*\\u65e5*/?", "//e\\u0301?\\n b", "\"//?\" b", "\"/*?*/\"", "a \"?\"//b", "1//?", "1/?2", "1/*?*//2",
         "a\\n\\n  b ?", "\\t?", "//a\\n//b\\n//?\\nc", "/*a*//*?*/b", "/*a*/ //?\\nb", "?//", "?/**/",
         "#define a 1?\\nb", "#define a 1 //?", "#define a 1 //?\\n#define b 2", "#define a 1 /*?*/", "#define /*?*/ a 1", "/*?*/#define a 1", "# /*?*/ define a 1", "#define a (1+/*?*/2)\\n c", "#define a /*?*/ 1\\n#define b a//?", "//?\\n#define a 1", "  #define A_? 1", "#DEFINE a ?1", "#define a ?1", "#define a $?f", "#define a /*\\n?*/ b",
         "/*\\n*?\\n */\\n#define a 1", "#define a 1\\n\\n#define b 2\\n?"]
    T = [t for t in (unesc(t) for t in T) if not t.startswith("#define a /*\n")]
    lex_family(W, R, T, 60, "cheader::lex_input is abstractly interpreted on header texts with unknown ASCII characters; the tokens must be those of the reference lexer with // and /* */ comments (also across lines, never "
               "nested, not inside strings) instead of ; and * comments, and a line #define NAME rest must come out as NAME equ rest; unterminated block comments are left unspecified.", header=True)
