"""The whole assembler pipeline on token templates: token kinds are concrete, payloads may be unknown.

Roots are public functions (asm::assemble_file, Parser::parse); reading and lexing a file are replaced by the given tokens."""
import re

import strs
from wb import *

PUNCT = [("::", "DoubleColon"), ("(", "LeftParen"), (")", "RightParen"), ("#", "Hash"), (",", "Comma"), (":", "Colon"), ("=", "Equals"), ("+", "Plus"),
         ("*", "Times"), ("-", "Minus"), ("/", "Divide"), ("&", "Ampersand"), ("|", "Pipe"), ("^", "Caret"), (">", "UpperByte"), ("<", "LowerByte")]
SPAN = "location::Span"
LOC = "location::Location"
TOK = "lexer::Token"
TT = "lexer::TokenType"


class Front:
    def __init__(self, W, opaque=(), models=None, track=(), maxstates=400000):
        self.W = W
        m = {r"^(waterbear::)?files::SourceFiles::load$": self._load, r"^(waterbear::)?lexer::lex_(input|for_ws)$": self._lex,
             r"^(waterbear::)?files::load_bytes$": self._bytes,
             r"^(waterbear::)?files::SourceFiles::path$": self._path,
             r"^std::(path::Path|fs)::canonicalize$": lambda E, st, f, vals, at, dt, fr, uid: [(st, mk("adt", dt, E.P.variant(dt, "Ok"), E.snapshot(st, vals[0])))],
             r"^<std::path::Path(Buf)? as std::cmp::PartialEq>::eq$": self._patheq}
        m.update(strs.str_models())
        m.update(models or {})
        self.E = W.engine(force_inline=[r"waterbear"], opaque=list(opaque), models=m, track=track,
                          maxstates=maxstates)
        self.E.maxrec = 24
        self.E.maxdepth = 240
        self.FID = W.adt("files::FileID", "FileID", I(0))
        self.none = W.adt("std::option::Option<std::boxed::Box<location::Span>>", "None")
        self.files = {}
        self.subs = {}
        self._parser = None

    # ------------------------------------------------------------ tokens
    def loc(self, line, col, file=None):
        return self.W.struct(LOC, self.E, file=file or self.FID, pos=I(0), line=I(line), column=I(col))

    def span(self, line, col, end=None, file=None):
        return self.W.struct(SPAN, self.E, start=self.loc(line, col, file), end=self.loc(line, end if end is not None else col + 1, file), parent=self.none)

    def tok(self, line, col, kind, *f, file=None):
        return self.W.struct(TOK, self.E, token_type=self.W.adt(TT, kind, *f), span=self.span(line, col, file=file))

    def tokens(self, text, env=None, file=None):
        return [self.tok(ln, col, *t, file=file) for ln, col, t in self.lex(text, env)]

    def lex(self, text, env=None):
        """(line, column, (kind, payload...)) of a source template, with the EOF token the lexer appends;
        {name} takes a value from env: a number term, ('str', S) or ('name', S) or ('tok', kind, payload...)"""
        out = []
        ln = 1
        for ln, line in enumerate(text.split("\n"), 1):
            i = 0
            col = 0
            while i < len(line):
                c = line[i]
                if c in " \t":
                    i += 1
                    continue
                if c == ";":
                    break
                m = re.match(r"\{(\w+)\}", line[i:])
                if m:
                    v = env[m.group(1)]
                    if type(v) is tuple:
                        k = {"str": "String", "name": "Name", "mlabel": "MacroLabel", "mident": "MacroIdent"}.get(v[0])
                        t = (k,) + v[1:] if k else v[1:]
                    else:
                        t = ("Number", v if type(v) is N else I(v), self.W.adt("lexer::Radix", "Decimal"))
                    i += m.end()
                else:
                    m = re.match(r"%[01]+(?![\w.])", line[i:])
                    if m:
                        t = ("Number", I(int(m.group()[1:], 2)), self.W.adt("lexer::Radix", "Binary"))
                        i += m.end()
                    elif re.match(r"%[a-zA-Z_.]", line[i:]):
                        m = re.match(r"%[a-zA-Z_.][\w.$]*", line[i:])
                        t = ("MacroIdent", S(m.group().lower()))
                        i += m.end()
                    elif re.match(r"[a-zA-Z_.]", c):
                        m = re.match(r"[a-zA-Z_.][\w.$]*", line[i:])
                        i += m.end()
                        if line[i:i + 1] == "%":
                            i += 1
                            t = ("MacroLabel", S(m.group().lower() + "%"))
                        else:
                            t = ("Name", S(m.group().lower()))
                    elif c == "$":
                        m = re.match(r"\$[0-9a-fA-F]+", line[i:])
                        t = ("Number", I(int(m.group()[1:], 16)), self.W.adt("lexer::Radix", "Hex"))
                        i += m.end()
                    elif c.isdigit():
                        m = re.match(r"\d+", line[i:])
                        t = ("Number", I(int(m.group())), self.W.adt("lexer::Radix", "Decimal"))
                        i += m.end()
                    elif c == '"':
                        j = line.index('"', i + 1)
                        t = ("String", S(line[i + 1:j]))
                        i = j + 1
                    elif line[i:i + 3].upper() in ("@R0", "@R1", "@R2", "@R3"):
                        t = (line[i + 1:i + 3].upper(),)
                        i += 3
                    else:
                        for p, k in PUNCT:
                            if line.startswith(p, i):
                                t = (k,)
                                i += len(p)
                                break
                        else:
                            raise ValueError("template: " + line[i:])
                out.append((ln, col, t))
                col += 1
        out.append((ln, col, ("EOF",)))
        return out

    # ------------------------------------------------------------ roots
    def parser(self):
        if self._parser is None:
            r = self.E.analyse(self.W.fn("waterbear::parser::Parser::create"), [])
            if len(r) != 1 or self.E.panics:
                raise Anchor("parser construction is not a single path")
            self._parser = r[0][1]
        return self._parser

    def parse(self, toks, st=None):
        self.E.nstates = 0
        return self.E.analyse(self.W.fn("waterbear::parser::Parser::parse"), [self.W.sref(self.parser()), self.W.sref(seq(*[mk("e", t) for t in toks]))], st)

    def assemble(self, text, env=None, st=None, includes=None, data=None, root="waterbear::asm::assemble_file"):
        """rows of assembling a main file with the given source (and include files by path literal);
        data: contents of binary files"""
        W = self.W
        self.data = data or {}
        self.subs = {}
        self.py = {}
        self.order = []
        self.resolved = []
        for k, (name, t) in enumerate([("main.s", text)] + list((includes or {}).items())):
            lx = self.lex(t, env)
            fid = W.adt("files::FileID", "FileID", I(k))
            self.subs[name] = [self.tok(ln, col, *x, file=fid) for ln, col, x in lx]
            self.py[name] = [(k, ln, col) + x for ln, col, x in lx]
        f = W.fn(root)
        self.E.nstates = 0
        st = st or St()
        st.mem[("X", "files")] = W.struct("files::SourceFiles", self.E)
        return self.E.analyse(f, [mk("ref", ("X", "files"), ()), S("main.s")], st)

    def pathname(self, E, st, v):
        """the template file a path value denotes, or None"""
        name = None
        for x in subterms(E.snapshot(st, v)):
            if x.op == "sym" and type(x.a[0]) is str and x.a[0].startswith("path:"):
                return x.a[0][5:]
            for p in x.a:
                if type(p) is str and (p in self.subs or p in self.data):
                    name = p
        return name

    def resolved_already(self, E, st, v):
        return any(x.op == "sym" and type(x.a[0]) is str and x.a[0].startswith("path:") for x in subterms(E.snapshot(st, v)))

    def _path(self, E, st, f, vals, at, dt, fr, cuid):
        name = self.pathname(E, st, vals[2])
        if name is None:
            raise Anchor("cannot tell which path is resolved: " + pretty(E.snapshot(st, vals[2]))[:200])
        self.resolved.append((self.pathname(E, st, vals[1]), name, self.resolved_already(E, st, vals[2])))
        return [(st, S(mk("sym", "path:" + name)))]

    def _patheq(self, E, st, f, vals, at, dt, fr, cuid):
        a, b = (next((x.a[0] for x in subterms(E.snapshot(st, v)) if x.op == "sym" and type(x.a[0]) is str and x.a[0].startswith("path:")), None) for v in vals)
        return [(st, I(int(a == b)))] if a is not None and b is not None else None

    def _load(self, E, st, f, vals, at, dt, fr, cuid):
        W = self.W
        name = self.pathname(E, st, vals[2])
        if name is None:
            raise Anchor("cannot tell which file is loaded: " + pretty(E.snapshot(st, vals[2]))[:200])
        self.order.append((self.pathname(E, st, vals[1]), name))
        st = st.copy()
        o = ("X", "file:" + name)
        pb = self.W.ty("std::path::PathBuf")
        st.mem[o] = W.struct("files::SourceFile", E, id=W.adt("files::FileID", "FileID", I(list(self.subs).index(name))), contents=S(mk("sym", "contents:" + name)),
                             name=S(mk("sym", "path:" + name)))
        okv = self.E.P.variant(dt, "Ok")
        return [(st, mk("adt", dt, okv, mk("ref", o, ())))]

    def _bytes(self, E, st, f, vals, at, dt, fr, cuid):
        name = self.pathname(E, st, vals[0])
        if name is None:
            raise Anchor("cannot tell which binary file is loaded: " + pretty(E.snapshot(st, vals[0]))[:200])
        self.order.append((self.pathname(E, st, vals[0]), name))
        if name not in self.data:
            raise Anchor("a source file is loaded as binary data: " + name)
        if not self.resolved_already(E, st, vals[0]):
            self.resolved.append(("unresolved", name, False))
        return [(st, mk("adt", dt, E.P.variant(dt, "Ok"), seq(*[mk("e", b) for b in self.data[name]])))]

    def _lex(self, E, st, f, vals, at, dt, fr, cuid):
        v = E.snapshot(st, vals[0])
        name = None
        for x in subterms(v):
            if x.op == "sym" and x.a[0].startswith("contents:"):
                name = x.a[0][9:]
        if name is None:
            raise Anchor("lexed input is not a loaded file's contents")
        return [(st, mk("adt", dt, E.P.variant(dt, "Ok"), seq(*[mk("e", t) for t in self.subs[name]])))]
