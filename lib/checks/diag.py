"""Diagnostics: what print_error shows for every kind of error, and the source excerpts under it."""
import re

import engine
import models as M
import strs
import text as X
from checks.lexer import Lex
from common import Problems
from wb import *

DIR = "/w/d"


def out_models():
    """terminal output as effects; it cannot fail in a way that matters"""
    def ok(E, dt):
        t = E.T[dt]
        return mk("adt", dt, E.P.variant(dt, "Ok"), M.UNIT) if t["k"] == "adt" and t["name"].endswith("Result") else M.UNIT

    def m_out(E, st, f, vals, at, dt, fr, uid):
        x = M.dv(E, st, vals[-1])
        s = x.a[0] if x.op == "fargs" else M.S_of(E, st, x)
        if s is None:
            return None
        st = st.copy()
        st.eff = st.eff + (("out", s),)
        return [(st, ok(E, dt))]

    def m_none(E, st, f, vals, at, dt, fr, uid):
        t = E.T[dt]
        return [(st, vals[0] if t["k"] == "ref" and vals else ok(E, dt) if t["k"] == "adt" and t["name"].endswith("Result") else mk("sym", "colour"))]
    return {r"^std::io::Write::(write_fmt|write_all)$": m_out, r"^<(&mut )?waterbear::termcolor::StandardStream as std::io::Write>::(write_fmt|write_all|flush)$": m_out,
            r"^std::io::_e?print$": m_out, r"(^|::)termcolor::": m_none}


def printed(st):
    return S(*[p for e in st.eff if e[0] == "out" for p in e[1].a])


# ---------------------------------------------------------------- excerpts
class Sheet:
    """printed output cut into lines; a line is a list of cells (code points, byte terms, opaque pieces)"""

    def __init__(self, s, D):
        self.lines = [[]]
        for p in s.a:
            for c in ([ord(x) for x in p] if type(p) is str else [p.a[0]] if p.op in ("byte", "chr") else [("opaque", p)]):
                if c == 10 or (type(c) is N and not is_opaque(c) and D.eq(c, 10)):
                    self.lines.append([])
                else:
                    self.lines[-1].append(c)
        self.D = D

    def at(self, c, k):
        """cell c equals k"""
        if is_opaque(c):
            return False
        if type(k) is N:
            return c is k or (type(c) is N and self.D.E.rng(self.D.st, add(c, scale(k, -1))) == iv(0, 0))
        return self.D.eq(c, k)

    def has(self, line, want):
        """the cells of want occur in the line one after another"""
        return any(all(self.at(line[i + j], ord(w) if type(w) is str else w) for j, w in enumerate(want)) for i in range(len(line) - len(want) + 1))

    def same(self, cs, want):
        return len(cs) == len(want) and all(self.at(a, b) for a, b in zip(cs, want))


def is_opaque(c):
    return type(c) is tuple


def line_of(cs, p, D):
    """(start, end) of the line holding cell p, without its line ending"""
    a = p
    while a > 0 and not D.eq(cs[a - 1], 10):
        a -= 1
    b = p
    while b < len(cs) and not D.eq(cs[b], 10) and not (D.eq(cs[b], 13) and b + 1 < len(cs) and D.eq(cs[b + 1], 10)):
        b += 1
    return a, b


def graphemes(cs, D):
    out, p = [], 0
    while p < len(cs):
        q = X.grapheme_end(cs, p, D)
        out.append(cs[p:q])
        p = q
    return out


def excerpt(sh, path, cs, p, line, col, width, D, chain):
    """why the output does not show position p of text cs, or None. chain: the number of enclosing expansions printed before it"""
    head = "%s:%d:%d" % (path, line, col)
    a, b = line_of(cs, p, D)
    src = cs[a:b]
    g = graphemes(src, D)
    why = "no line with %s" % head
    for i, l in enumerate(sh.lines):
        if not ends_number(sh, l, head):
            continue
        if i + 2 >= len(sh.lines):
            return "%s is not followed by the source line and a marker" % head
        show, mark = sh.lines[i + 1], sh.lines[i + 2]
        while show and D.eq(show[-1], 13) if show and not is_opaque(show[-1]) else False:
            show = show[:-1]
        ind = len(show) - len(src)
        if ind < 0 or not sh.same(show[ind:], src):
            why = "%s is followed by %s instead of the source line" % (head, show_cells(show))
            continue
        # the marker: blanks up to the column, then carets
        k = ind
        for j in range(col):
            cell = g[j] if j < len(g) else [32]
            n = len(cell) if len(mark) >= k + len(cell) and all(sh.at(x, y) for x, y in zip(mark[k:k + len(cell)], cell)) and D.isin(cell[0], X.norm(X.SPACE_CP)) else 1
            if k >= len(mark) or is_opaque(mark[k]) or not D.isin(mark[k], X.norm(X.SPACE_CP)):
                return "%s: the marker %s does not begin at column %d" % (head, show_cells(mark), col)
            k += n
        n = 0
        while k + n < len(mark) and not is_opaque(mark[k + n]) and D.eq(mark[k + n], "^"):
            n += 1
        if n == 0 or (width is not None and n != max(1, width)):
            return "%s: the marker %s has %d carets from column %d, expected %s" % (head, show_cells(mark), n, col, width)
        return None
    return why


def ends_number(sh, l, head):
    """head occurs in the line and is not followed by another digit"""
    n = len(head)
    for i in range(len(l) - n + 1):
        if all(not is_opaque(l[i + j]) and sh.D.eq(l[i + j], head[j]) for j in range(n)):
            if i + n == len(l) or is_opaque(l[i + n]) or not sh.D.isin(l[i + n], X.DIGIT):
                return True
    return False


def show_cells(l):
    return "'" + "".join(chr(c) if type(c) is int else "<" + pretty(c[1] if is_opaque(c) else c) + ">" for c in l) + "'"


# ---------------------------------------------------------------- every kind of error
FILES = [(DIR + "/main.s", "first line\n  second, line\nthird\n\tfourth ; x\nlast"), ("/other/inc.s", "one\n two two\nthree three three\n  four\n")]
SILENT = {("SpriteTooWide", 1), ("SpriteTooTall", 1)}     # the path of a sprite whose directive is shown


class Diag:
    def __init__(self, W, files=None):
        self.W = W
        self.E = E = W.engine(force_inline=[r"^<?waterbear"], models={**X.text_models(), **strs.str_models(), **out_models()})
        E.accepted = [re.compile(r"(^|::)(termcolor|atty)::"), re.compile(r"^std::io::_e?print$")]
        self.files = files or [(n, S(t)) for n, t in FILES]

    def sources(self):
        W, E = self.W, self.E
        fs = [W.struct("files::SourceFile", E, id=W.adt("files::FileID", "FileID", I(k)), name=S(n), contents=t) for k, (n, t) in enumerate(self.files)]
        return W.struct("files::SourceFiles", E, working_dir=S(DIR), files=seq(*[mk("e", f) for f in fs]))

    def loc(self, k, p, line, col):
        W, E = self.W, self.E
        return W.struct("location::Location", E, file=W.adt("files::FileID", "FileID", I(k)), pos=I(p), line=I(line), column=I(col))

    def span(self, a, b, parent=None):
        W, E = self.W, self.E
        oty = W.field_ty("location::Span", "parent")
        v = mk("adt", oty, W.P.variant(oty, "None")) if parent is None else mk("adt", oty, W.P.variant(oty, "Some"), mk("box", parent))
        return W.struct("location::Span", E, start=a, end=b, parent=v)

    def stderr(self, st):
        st.mem[("X", "stderr")] = mk("sym", "stderr")
        return mk("ref", ("X", "stderr"), ())


def places():
    """known positions, each on its own line: (file, byte, line, column, carets)"""
    out = []
    for k, (n, t) in enumerate(FILES):
        pos = 0
        for i, l in enumerate(t.split("\n")):
            if l:
                c = len(l) - len(l.lstrip())
                w = min(3, len(l) - c)
                out.append((k, pos + c, i + 1, c, w))
            pos += len(l) + 1
    return out


def error_value(W, G, ti, variant):
    """an error of this variant: fields by type; spans at distinct places. -> (value, [(place, parent place or None)], [payload terms with their names])"""
    E = G.E
    free = places()
    spans, pay, fields = [], [], []

    def place():
        return free.pop(0)

    def mkspan(parent):
        p = place()
        v = G.span(G.loc(*p[:4]), G.loc(p[0], p[1] + p[4], p[2], p[3] + p[4]), None)
        spans.append(p)
        if parent:
            q = place()
            spans.append(q)
            v = G.span(G.loc(*p[:4]), G.loc(p[0], p[1] + p[4], p[2], p[3] + p[4]), G.span(G.loc(*q[:4]), G.loc(q[0], q[1] + q[4], q[2], q[3] + q[4])))
        return v
    for i, (fname, fty) in enumerate(W.variant_fields(ti, variant)):
        t = W.T[fty]
        nm = t.get("name", "")
        if nm.endswith("location::Span"):
            fields.append(mkspan(parent=not spans))
        elif nm.endswith("location::Location"):
            p = place()
            spans.append(p[:4] + (1,))
            fields.append(G.loc(*p[:4]))
        elif nm.endswith("lexer::Token"):
            tt = W.ty("lexer::TokenType")
            fields.append(W.struct("lexer::Token", E, token_type=mk("adt", tt, W.P.variant(tt, "Comma")), span=mkspan(parent=True)))
        elif t["k"] == "int":
            v = E.sym("v%d" % i, fty)
            fields.append(v)
            pay.append((i, v))
        elif nm.endswith("string::String") or t["k"] == "ref":
            v = mk("sym", "text%d" % i)
            fields.append(S(v))
            pay.append((i, v))
        elif nm.endswith("vec::Vec"):
            at = W.ty("ast::ArgType")
            names = [v for v in ("Imm", "D9", "IM", "B3")]
            fields.append(seq(mk("e", seq(*[mk("e", mk("adt", at, W.P.variant(at, x))) for x in names[:2]])), mk("e", seq(*[mk("e", mk("adt", at, W.P.variant(at, x))) for x in names[2:]]))))
        else:
            v = E.symval(mk("sym", "val%d" % i), fty)
            fields.append(v)
            pay.append((i, v))
    return mk("adt", ti, W.P.variant(ti, variant), *fields), spans, pay


def c04(W, R, tier):
    R.rule = ("print_error is abstractly interpreted for every variant of AssemblyError, with unknown payloads and every position at a known place of two source files (one of them expanded from another place): on every path the "
              "output, put together from all terminal writes, must contain for every position in the error and for every place it was expanded from the file (relative to the working directory), line and column, then that "
              "source line, then carets below exactly the marked columns, and must contain every text and number in the error; it must never panic.")
    ti = W.ty("asm::AssemblyError")
    f = W.fn("waterbear::print_error")
    n = 0
    for variant in W.variants(ti):
        G = Diag(W)
        E = G.E
        err, spans, pay = error_value(W, G, ti, variant)
        st = St()
        st.mem[("X", "err")] = err
        try:
            rows = E.analyse(f, [W.sref(G.sources()), mk("ref", ("X", "err"), ()), G.stderr(st)], st)
        except (Anchor, engine.Imprecise) as e:
            R.n += 1
            R.bad("%s: outcome" % variant, str(e), apx=["the message cannot be analysed: %s" % e])
            continue
        R.analysed(E)
        n += 1
        for p in E.panics:
            R.n += 1
            R.at(p[0])
            R.bad("%s: panics" % variant, "%s in %s" % (p[1], p[2]), "print_error")
        R.at(None)
        R.ob("%s: outcome" % variant, bool(rows), "no outcome", "print_error")
        for st, v in rows:
            out = printed(st)

            def judge(D):
                sh = Sheet(out, D)
                bad = []
                for (k, pos, line, col, w) in spans:
                    name, t = FILES[k]
                    path = name[len(DIR) + 1:] if name.startswith(DIR + "/") else name
                    why = excerpt(sh, path, [ord(c) for c in t], pos, line, col, w, D, 0)
                    if why:
                        bad.append("position: " + why)
                seen = set(subterms(out))
                for i, v in pay:
                    if (variant, i) not in SILENT and v not in seen and not any(y in seen for y in subterms(v) if y.op == "sym"):
                        bad.append("value: field %d is not shown" % i)
                return bad
            for s2, bad in X.cases(E, st, judge):
                R.at(s2)
                R.n += 1
                for why in bad[:3]:
                    R.bad("%s: %s" % (variant, why.split(":")[0]), why + "; printed: " + pretty(out)[:500], "print_error")
                R.ok += not bad
        R.at(None)
    R.floor("kinds_of_errors", n, 30)


# ---------------------------------------------------------------- source lines with unknown characters
LAYOUTS = ["", "\n", "a\n\nb", "??", "\t\t?\t?", "? ?\t?;?", "a\n\t?b\n\n", "?\r\n\t?\r\n", "\u4e2d?\n? \u00fc", "x\u0308\u0301?y\n", "abc?defghij\n?", "?", "a?\n", "?\n?", "ab?\ncd\n", "\n?\n", "\t? x\ny", " \t?,?", "a?\r\nb?\r\n", "a\r\n", "\u00e9? \u00e9\nx", "e\u0301? x\n", "x\n\n?", "ab\n\tc?d ; \u4e2d\nlast", "?\r\n\r\n?"]


def c05(W, R, tier):
    R.rule = ("print_error is abstractly interpreted for an error at every position (and span of up to 3 columns) of source texts with unknown characters: on every path the output must show file:line:column, the whole source line "
              "holding that position without its line ending, and carets below exactly the marked columns (tabs and other blanks kept), without a panic.")
    ti = W.ty("asm::AssemblyError")
    f = W.fn("waterbear::print_error")
    variant = next((v for v in W.variants(ti) if [W.T[t].get("name", "").split("::")[-1] for _, t in W.variant_fields(ti, v)] == ["Span"]), None)
    if variant is None:
        raise Anchor("no kind of error with a position only")
    n = 0
    for lay in LAYOUTS:
        G = Diag(W)
        E = G.E
        cs = []
        st0 = St()
        for ch in lay:
            if ch == "?":
                c = E.sym("c%d" % len(cs), W.ty("u8"))
                st0 = E.assume(st0, E.cond_in(c, iv(32, 126) if tier == "quick" else norm([(9, 9), (32, 126)])), True)
                cs.append(c)
            else:
                cs.append(ord(ch))
        G = Diag(W, [(DIR + "/main.s", X.text(cs))])
        E = G.E
        o = X.offsets(cs)
        lx = Lex(cs, X.Decider(E, st0))
        for p in range(len(cs) + 1):
            if 0 < p < len(cs) and (X.extends(cs[p]) or (cs[p] == 10 and cs[p - 1] == 13)):
                continue
            for w in ((0, 1, 3, None) if tier == "quick" else (0, 1, 2, 3, 5, None)):
                q = p
                col = 0
                while w is not None and col < w and q < len(cs) and cs[q] not in (10, 13):
                    q = X.grapheme_end(cs, q, lx.D)
                    col += 1
                if w is not None and col != w:
                    continue
                pos, line, c0 = lx.loc(p)
                st = st0.copy()
                if w is None:       # the span ends on a later line: at least its first column is marked
                    q = next((k + 1 for k in range(len(cs) - 1, p, -1) if lx.loc(k + 1)[1] > line), None)
                    if q is None or cs[p] in (10, 13):      # tokens do not begin at a line ending
                        continue
                    sp = G.span(G.loc(0, pos, line, c0), G.loc(0, *lx.loc(q)))
                else:
                    sp = G.span(G.loc(0, pos, line, c0), G.loc(0, o[q], line, c0 + w))
                st.mem[("X", "err")] = mk("adt", ti, W.P.variant(ti, variant), sp)
                key = "%r at %d, %s columns" % (lay, p, w)
                try:
                    E.nstates = 0
                    rows = E.analyse(f, [W.sref(G.sources()), mk("ref", ("X", "err"), ()), G.stderr(st)], st)
                except (Anchor, engine.Imprecise) as e:
                    R.n += 1
                    R.bad("%s: outcome" % key, str(e), apx=["the message cannot be analysed: %s" % e])
                    continue
                R.analysed(E)
                n += 1
                for x in E.panics:
                    R.n += 1
                    R.at(x[0])
                    R.bad("%s: panics" % key, "%s in %s" % (x[1], x[2]), "highlight_line_indented")
                R.at(None)
                R.ob("%s: outcome" % key, bool(rows) or bool(E.panics), "no outcome", "print_error")
                for s, v in rows:
                    out = printed(s)
                    for s2, why in X.cases(E, s, lambda D: excerpt(Sheet(out, D), "main.s", cs, p, line, c0, w, D, 0)):
                        R.at(s2)
                        R.n += 1
                        if why:
                            R.bad("%s: excerpt" % key, why + "; printed: " + pretty(out)[:300], "highlight_line_indented")
                        else:
                            R.ok += 1
                R.at(None)
    R.floor("positions", n, 100)


# ---------------------------------------------------------------- errors on their way out
def error_types(W):
    """the error types of the program: enums named ...Error declared in it"""
    return [k for k, t in W.T.items() if t["k"] == "adt" and t.get("local") and t.get("kind") == "enum" and re.search(r"Error$", t["name"].split("<")[0])]


def error_values(W, E, ti, pre="", depth=0):
    """[(variant name, value, leaves)]: errors of the type with unknown contents; wrapped errors are unwrapped"""
    out = []
    inner = set(error_types(W))
    for v in W.T[ti]["variants"]:
        fs = v["fields"]
        if len(fs) == 1 and fs[0][1] in inner and depth < 3:
            for nm, x, lv in error_values(W, E, fs[0][1], pre + v["name"] + ".", depth + 1):
                out.append((nm, mk("adt", ti, W.P.variant(ti, v["name"]), x), lv))
            continue
        lv = [(n, E.sym("%s%s.%s" % (pre, v["name"], n), t)) for n, t in fs]
        out.append((v["name"], mk("adt", ti, W.P.variant(ti, v["name"]), *[x for _, x in lv]), lv))
    return out


def c06(W, R, tier):
    R.rule = ("Every conversion between the program's error types (impl From) is abstractly interpreted for every variant of its source with unknown contents, wrapped errors included: the result must be the variant of the same "
              "name (a prefix may be added) holding every position, text and number of the source in the same place.")
    errs = set(error_types(W))
    n = 0
    for f in W.P.F:
        if f.blocks is None or not f.local or not re.search(r"as std::convert::From>::from$", f.sname) or f.argc != 1 or f.locals[1] not in errs or f.locals[0] not in errs:
            continue
        src, dst = f.locals[1], f.locals[0]
        key = "%s to %s" % (W.T[src]["name"].split("::")[-1], W.T[dst]["name"].split("::")[-1])
        if src == dst:
            continue
        E = W.engine(force_inline=[r"^<?waterbear"], models={**X.text_models(), **strs.str_models()})
        for nm, v, leaves in error_values(W, E, src):
            rows = E.analyse(f, [v])
            R.analysed(E)
            n += 1
            R.ob("%s of %s: outcome" % (key, nm), bool(rows) and not E.panics, "no outcome or a panic", f.name)
            for st, r in rows:
                R.at(st)
                why = same_error(W, E, st, dst, r, nm, leaves)
                R.ob("%s of %s: kept" % (key, nm), why is None, "%s; result %s" % (why, pretty(E.snapshot(st, r))[:300]), f.name)
            R.at(None)
    R.floor("converted_kinds", n, 30)


def same_error(W, E, st, ti, r, nm, leaves):
    r = E.snapshot(st, r)
    while r.op == "adt" and r.a[0] in set(error_types(W)) and len(r.a) == 3 and r.a[2].op == "adt" and r.a[2].a[0] in set(error_types(W)):
        r = r.a[2]
    if r.op != "adt":
        return "the result is unknown"
    got = W.variant(r)
    if got != nm and not got.endswith(nm):
        return "it becomes %s" % got
    fs = W.T[r.a[0]]["variants"][r.a[1]]["fields"]
    if len(fs) != len(leaves):
        return "%d of %d values remain" % (len(fs), len(leaves))
    for (n1, x), (n2, _), g in zip(leaves, fs, r.a[2:]):
        want = dict(leaves).get(n2, x)
        if g is not want and E.snapshot(st, g) is not E.snapshot(st, want):
            return "field %s becomes %s" % (n2, pretty(g)[:120])
    return None
