"""K01: what `waterbear disassemble` writes assembles to the image it was made from."""
import os
import re
import models as M
import strs
from checks import cli
from checks.decode import TERMINAL
from printed import *
from spec import FORMS, kinds, pattern, size, fname

EXT = 0x10D


# ---------------------------------------------------------------- images
class Image:
    """bytes: numbers or names of unknown bytes; instr: {address: (form, operands)} as laid out; targets are addresses"""

    def __init__(self, key):
        self.key = key
        self.by = []
        self.ranges = {}
        self.entries = [0]
        self.arrived = 0
        self.at = {}

    def unknown(self, lo=0, hi=255):
        n = "u%d" % len(self.ranges)
        self.ranges[n] = (lo, hi)
        return n


def lay(items, key, entries=("0",), arrived=0):
    """items: 'name:' labels, ints / ('u', lo, hi) data bytes, ('zero', n), ('text', s), ('org', n), or (form, operand...)"""
    m = Image(key)
    labels, pos = {}, 0
    for it in items:
        if type(it) is str:
            labels[it[:-1]] = pos
        elif type(it) is int or it[0] == "u":
            pos += 1
        elif it[0] == "zero":
            pos += it[1]
        elif it[0] == "text":
            pos += len(it[1])
        elif it[0] == "org":
            assert it[1] >= pos, key
            pos = it[1]
        else:
            pos += size(it[0])
    labels["end"] = pos
    addr = lambda x: labels[x] if x in labels else int(x, 0)
    for it in items:
        p = len(m.by)
        if type(it) is str:
            continue
        if type(it) is int:
            m.by.append(it)
        elif it[0] == "u":
            m.by.append(m.unknown(*it[1:]))
        elif it[0] == "zero":
            m.by += [0] * it[1]
        elif it[0] == "org":
            m.by += [0] * (it[1] - p)
        elif it[0] == "text":
            m.by += list(it[1].encode("latin1"))
        else:
            form = it[0]
            nxt = p + size(form)
            vals, succ = [], None
            for kd, o in zip(kinds(form), it[1:]):
                if type(o) is str:
                    a = addr(o)
                    succ = a
                    v = {"r8": a - nxt, "r16": a - nxt + 1, "a12": a & 0xFFF, "a16": a}[kd]
                    assert {"r8": -128 <= v <= 127, "a12": a >> 12 == nxt >> 12}.get(kd, True), (key, it)
                else:
                    v = o
                vals.append(v)
            for j, byte in enumerate(pattern(form)):
                x, u = 0, None
                for i, w in enumerate(byte):
                    if type(w) is int:
                        b = w
                    elif type(vals[w[0]]) is tuple:
                        # an unknown low byte (9-bit operands: their top bit is given)
                        b = vals[w[0]][3] if w[1] == 8 and len(vals[w[0]]) > 3 else 0
                        if w[1] < 8:
                            u = vals[w[0]]
                    else:
                        b = vals[w[0]] >> w[1] & 1
                    x = x * 2 + b
                m.by.append(m.unknown(*u[1:3]) if u else x)
            m.at[p] = (form, vals, succ, nxt)
    m.entries = [addr(e) for e in entries]
    m.arrived = arrived
    return m


def flash(m, p):
    return m.at[p][0][0] == "jmpf" and p - 2 in m.at and m.at[p - 2][0][0] == "not1" and m.at[p - 2][1] == [EXT, 0]


def closure(m, stops):
    seen, todo = set(), list(m.entries)
    while todo:
        p = todo.pop()
        if p in seen or p >= len(m.by):
            continue
        if p not in m.at:
            return None
        seen.add(p)
        form, vals, succ, nxt = m.at[p]
        if succ is not None and p not in stops:
            todo.append(succ)
        if form[0] not in TERMINAL:
            todo.append(nxt)
    return seen


def reach(m):
    """addresses of the instructions reachable from the entry points; None where an address has no instruction.
    A jmpf that follows an executed `not1 ext, 0` leaves for the other memory: its target is not part of the image"""
    stops = {p for p in m.at if flash(m, p)}
    first = closure(m, stops)
    return first if first is None else closure(m, {p for p in stops if p - 2 in first})


# ---------------------------------------------------------------- schemas
def form(mn, kd=None):
    c = [f for f in FORMS if f[0] == mn and (kd is None or f[1] == kd)]
    assert len(c) == 1, (mn, kd)
    return c[0]


def k01_images(tier):
    deep = tier == "thorough"
    out = []
    F = form
    def L(key, *items, **kw):
        out.append(lay(items, key + (", --arrived-from" if kw.get("arrived") else ""), **kw))
    nop, ret, br, jmpf, call = F("nop"), F("ret"), F("br"), F("jmpf"), F("call")
    # an address of 12 bits is completed by the page of the next instruction (the costly images first)
    L("calls around the end of a page", 5, "x:", (ret,), ("org", 0xFFC), "a:", (call, "x"), (call, "y"), (ret,), ("u", 0, 255), "y:", (ret,), entries=("a",))
    L("jumps around the end of a page", 5, "x:", (ret,), ("org", 0xFFA), "a:", (F("bz"), "b"), (F("jmp"), "x"), "b:", (F("jmp"), "y"), ("u", 0, 255), "y:", (ret,), entries=("a",))
    # every instruction, with unknown operands and with its target before, at, after it, at the end of and outside the image
    for f in FORMS:
        ctl = [k for k in kinds(f) if k in ("r8", "r16", "a12", "a16")]
        variants = [("top", 0), ("self", 1), ("far", 0), ("end", 0), ("0x70" if "r8" in ctl else "0xf00" if "a12" in ctl else "0x7000", 0)] if ctl else [(None, 0)]
        for tgt, hi in variants if deep or f[0] in ("br", "brf", "jmp", "jmpf", "call", "bz", "dbnz", "bn") else variants[2:4] + variants[:1]:
            for d9 in (((0, 255, 0), (0x80, 0x83, 1)) if "d9" in kinds(f) and tgt in (None, "far") else ((0x10, 0x1f, 0),)):
                ops = []
                for k in kinds(f):
                    ops.append({"i8": ("u", 0, 255), "d9": ("u",) + d9, "b3": 3 if hi else 6, "@Ri": 2}.get(k, tgt))
                items = ["top:", (nop,), "self:", tuple([f] + ops), (ret,), "far:", (nop,), (br, "top")]
                L("%s to %s, d9 in %x..%x" % (fname(f), tgt, d9[0] + 256 * d9[2], d9[1] + 256 * d9[2]) if ctl or "d9" in kinds(f) else fname(f), *items, entries=("0", "far"))
    # bits of the program status word and special function registers have names
    for f in (F("clr1"), F("set1"), F("not1"), F("bp"), F("bpc"), F("bn")):
        for b in range(8) if deep or f[0] in ("clr1", "bp") else (0, 2, 5, 7):
            L("%s psw, %d" % (f[0], b), "a:", tuple([f, 0x101, b] + (["a"] if len(kinds(f)) == 3 else [])), (ret,))
            if deep or b in (2, 7):
                L("%s acc, %d" % (f[0], b), "a:", tuple([f, 0x100, b] + (["a"] if len(kinds(f)) == 3 else [])), (ret,))
    ld = F("ld", "d9")
    for lo in range(0x100, 0x200, 64 if deep else 64):
        L("registers %x" % lo, *[(ld, a) for a in range(lo, lo + 64)] + [(ret,)])
    # layout of code and data
    for arr in (0, 1):
        def D(key, *items, **kw):
            L(key, *items, arrived=arr, **kw)
        D("empty image", entries=())
        D("empty image with entries", entries=("0", "0x130"))
        D("only zeros, no entry", ("zero", 5), entries=())
        D("only zeros", ("zero", 40), entries=("0x130",))
        D("data only", 1, ("u", 0, 255), 3, entries=())
        D("data and zeros", 1, 2, ("zero", 3), 4, ("zero", 2), entries=())
        for n in () if arr and not deep else (1, 2, 15, 16, 17, 31, 32, 33) if deep else (1, 16, 17, 33):
            D("zeros %d then data" % n, ("zero", n), 7, entries=())
            D("data then zeros %d" % n, 7, ("zero", n), entries=())
            D("data %d" % n, *([7] * n), entries=())
            D("code, zeros %d" % n, (ret,), ("zero", n))
            D("code, data %d, code" % n, (br, "x"), *([7] * n + ["x:", (ret,)]))
            D("code, zeros %d, code" % n, (br, "x"), ("zero", n), "x:", (ret,))
            D("code, zeros %d, data, code" % n, (br, "x"), ("zero", n), 9, "x:", (ret,))
            D("code, data, zeros %d, code" % n, (br, "x"), 9, ("zero", n), "x:", (ret,))
            D("code, zeros %d, data, zeros, entry" % n, (ret,), ("zero", n), 9, ("zero", 20), "x:", (ret,), entries=("0", "x"))
            D("zeros %d before an entry" % n, ("zero", n), "x:", (ret,), entries=("x",))
            D("data %d before an entry" % n, *([7] * n + ["x:", (ret,), 1]), entries=("x",))
        D("data chunk of zeros in the middle", *([1] * 16 + [0] * 16 + [2] * 5), entries=())
        D("data with a zero chunk first", *([0] * 16 + [2] * 5 + [0] * 30), entries=())
        D("text", (ret,), ("text", "Hello; \"x\" \\ %a\t\r\n end.\x7f\xff\x01"))
        D("text before code", ("text", "abc."), "x:", (ret,), entries=("x",))
        D("unknown data byte", (ret,), ("u", 0, 255))
        D("unknown data bytes", (ret,), ("u", 0, 255), 0, ("u", 1, 255))
        D("unknown data before code", ("u", 0, 255), "x:", (ret,), entries=("x",))
        D("unknown data between", (br, "x"), ("u", 0, 255), "x:", (ret,), ("u", 0, 255))
        D("entries side by side", (nop,), "x:", (nop,), "y:", (ret,), entries=("0", "x", "y"))
        D("entries twice", (nop,), "x:", (ret,), entries=("x", "0", "x", "0"))
        D("entry at the end", (ret,), entries=("0", "end"))
        D("entries outside", (ret,), 1, entries=("0", "0x130", "0x1f0"))
        D("entries in any order", "a:", (ret,), 5, "b:", (ret,), ("zero", 3), "c:", (ret,), entries=("c", "a", "b"))
        D("falls off the end", (nop,), (nop,))
        D("jump to the end", "a:", (nop,), (br, "end"))
        D("a loop", "a:", (nop,), (F("bnz"), "a"), (ret,))
        D("a loop on itself", "a:", (br, "a"))
        D("several come from", "a:", (F("bz"), "c"), (F("bnz"), "c"), (F("bz"), "a"), "c:", (ret,))
        D("a jump back over data", "a:", (br, "c"), "b:", (ret,), 1, 2, 3, "c:", (br, "b"))
        D("calls", "a:", (call, "f"), (F("callf"), "f"), (F("callr"), "g"), (ret,), "f:", (ret,), 1, "g:", (F("reti"),))
        D("code after jmp not reached", (F("jmp"), "x"), (nop,), (nop,), "x:", (ret,))
        D("undocumented byte in unreached data", (br, "x"), 0x60, 0x38, 0xFF, "x:", (ret,))
        D("flash exit", (F("not1"), EXT, 0), (jmpf, "x"), 0xB8, 0xFF, "x:", 1, 2)
        D("flash exit elsewhere", (F("not1"), EXT, 0), (jmpf, "0x8000"), 1)
        D("not a flash exit: bit", (F("not1"), EXT, 1), (jmpf, "x"), 0xB8, "x:", (ret,))
        D("not a flash exit: set1", (F("set1"), EXT, 0), (jmpf, "x"), 0xB8, "x:", (ret,))
        D("not a flash exit: callf", (F("not1"), EXT, 0), (F("callf"), "x"), (ret,), 0xB8, "x:", (ret,))
        D("flash exit not arrived from", (br, "y"), (F("not1"), EXT, 0), "y:", (jmpf, "x"), 0xB8, "x:", (ret,))
        # no instruction where one is needed
        D("undocumented byte", (nop,), 0x60)
        D("undocumented byte at a target", (br, "x"), 0, "x:", 0xA8 - 0x70)
        for f in FORMS if not arr else ():
            if size(f) > 1 and (deep or f[1] in ("i8", "d9 b3", "i8 d9", "a16", "r16", "d9 b3 r8", "a12")):
                for n in range(1, size(f)):
                    full = lay([tuple([f] + [{"i8": 5, "d9": 9, "b3": 2, "@Ri": 1}.get(k, "0x10") for k in kinds(f)])], "")
                    D("%s cut after %d" % (fname(f), n), (nop,), *full.by[:n])
    n = 1
    L("far branches", "a:", (F("brf"), "x"), ("org", 0x123 * n), 5, "x:", (F("callr"), "a"), (F("callf"), "y"), (ret,), ("org", 0x234 * n), "y:", (F("jmpf"), "a"), 1)
    return out


# ---------------------------------------------------------------- judging
class ListingJudge(Judge):
    def __init__(self, W):
        Judge.__init__(self, W)
        self.box = {}
        self.texts = {}
        C = self.C = cli.Cli(W, "disassemble", {"INPUT": cli.IN, "OUTPUT": cli.OUT}, (), {r"^waterbear::disasm::disassemble$": None})
        noise = [x for x in cli.NOISE if "Display" not in x]
        m = dict(C.E_models)
        dis = W.fn("waterbear::disasm::disassemble")
        self.dis = dis
        m.pop(r"^waterbear::disasm::disassemble$")
        m[r"^waterbear::disassemble_hook$"] = C.m_stub
        self.E1 = W.engine(force_inline=[r"^<?waterbear"], models={**cli.text.text_models(), **strs.str_models()})
        self.E1.finite = True
        self.E1.maxstates = 40000000
        self.E1.UNROLL = 9000
        m[r"^waterbear::disasm::disassemble$"] = self.given
        C.E = W.engine(force_inline=[r"^<?waterbear"], models=m, opaque=noise)
        C.E.finite = True
        C.E.accepted = [re.compile(x) for x in cli.BESIDE]

    def given(self, E, st, f, vals, at, dt, fr, uid):
        return [(st, mk("adt", dt, E.P.variant(dt, "Ok"), self.box["v"]))]

    def run(self, m):
        """-> rows of disassembling the image, its bytes as terms"""
        W, E = self.W, self.E1
        st = St()
        els = []
        for b in m.by:
            if type(b) is int:
                els.append(mk("e", I(b)))
            else:
                x = E.sym(b, W.ty("u8"))
                st.facts[("r", x)] = iv(*m.ranges[b])
                els.append(mk("e", x))
        E.nstates = 0
        return E.analyse(self.dis, [I(m.arrived), W.sref(seq(*[mk("e", I(e)) for e in m.entries])), W.sref(seq(*els))], st), [x.a[0] for x in els]

    def judge(self, m):
        W, E = self.W, self.E1
        rows, want = self.run(m)
        out = Problems()
        for p in E.panics:
            out.at(p[0])
            if self.feasible(p[0]):
                out.append(("panic", "%s in %s for %s" % (p[1], p[2], self.show(p[0]))))
        out.at(None)
        if not rows and not out:
            out.append(("no outcome", "the analysis finds no outcome at all"))
        R = reach(m)
        for s, v in rows:
            out.at(s)
            self.rows += 1
            k = W.variant(v)
            if k == "Err":
                e = v.a[2]
                if R is not None:
                    out.append(("rejected", "%s although every reachable address has an instruction" % pretty(e)[:200]))
                else:
                    p = e.a[2].a[0] if W.variant(e) == "NoInstruction" and e.a[2].op == "i" else None
                    if p is None or p >= len(m.by) or p in m.at or e.a[3] is not want[p]:
                        out.append(("error", "reported as %s" % pretty(e)[:200]))
                continue
            if k != "Ok":
                out.unknown("outcome", "cannot be determined: %s" % pretty(v)[:300])
                continue
            if R is None:
                out.append(("accepted", "accepted although a reachable address has no instruction"))
                continue
            self.listing(m, s, v, want, R, out)
        self.F.E.analysed |= E.analysed | self.C.E.analysed
        self.F.E.nstates += E.nstates
        return out

    def listing(self, m, s, v, want, R, out):
        W = self.W
        # which addresses are listed as instructions
        got = []
        sts = fld(W, v.a[2], "statements") if v.a[2].op == "adt" else None
        if sts is None or sts.op != "seq" or any(p.op != "e" for p in sts.a):
            return out.unknown("listing", "the statements cannot be determined: %s" % pretty(v)[:200])
        for p in sts.a:
            t, pos = fld(W, p.a[0], "statement"), fld(W, p.a[0], "pos")
            if W.variant(t) == "Instr":
                if W.variant(pos) != "Some" or pos.a[2].op != "i":
                    return out.append(("position", "an instruction is listed without its address: %s" % pretty(p.a[0])[:200]))
                got.append(pos.a[2].a[0])
        if sorted(got) != sorted(R):
            out.append(("instructions", "instructions are listed at %s, reachable are %s" % ([hex(x) for x in got], [hex(x) for x in sorted(R)])))
        # the text that is written for each statement, put together (C03) and read back
        for st, parts in self.written(s, [self.E1.snapshot(s, p.a[0]) for p in sts.a], v.a[2]):
            out.at(st)
            if parts is None:
                out.append(("written text", "a statement is not written on any path"))
                continue
            if not all(type(x) is N for x in parts):
                out.unknown("written text", "cannot be determined: %s" % [x for x in parts if type(x) is not N][:1])
                continue
            try:
                text, env = to_template(self.F.E, st, S(*parts))
                try:
                    toks = [(0, ln, col) + x for ln, col, x in self.F.lex(text, env)]
                except ValueError as e:
                    raise Unreadable(str(e))
            except Undetermined as e:
                out.unknown("written text", str(e))
                continue
            except Unreadable as e:
                out.append(("unreadable", "%s; %s" % (e, self.show(st))))
                continue
            for s2, errs, by in self.R.outcomes({"main.s": toks}, "main.s", st, lambda x: True):
                self.cases += 1
                if errs:
                    out.append(("reassembly", "the listing has an error (%s at lines %s):\n%s" % (sorted(errs[0][0]), sorted(p[1] for p in errs[0][1] if p), text[:400])))
                    continue
                if len(by) != len(want):
                    out.append(("size", "the listing assembles to %d bytes, the image has %d:\n%s" % (len(by), len(want), text[:400])))
                    continue
                for i, (w, g) in enumerate(zip(want, by)):
                    one = self.F.E.rng(s2, w).single()
                    if not self.same(s2, w if one is None else I(one), g):
                        out.append(("byte", "byte %#x of the listing assembles to %s, the image has %s:\n%s\n%s" % (i, self.showw(g), pretty(w), self.show(s2), text[:400])))
                        break

    def written(self, s, stmts, whole):
        """[(state, [text])]: the text written for a listing, statement by statement"""
        todo = [(s, [])]
        for x in stmts:
            ground = self.texts.get(x)
            nxt = []
            for st, parts in todo:
                if parts is None:
                    nxt.append((st, parts))
                elif ground is not None:
                    nxt.append((st, parts + ground))
                else:
                    rows = self.write_one(st, x, whole)
                    if not rows:
                        nxt.append((st, None))
                    if len(rows) == 1 and not any(y.op in ("sym", "app") for y in subterms(x)):
                        ground = self.texts[x] = rows[0][1]
                    nxt += [(t, parts + y) for t, y in rows]
            todo = nxt
        return todo

    def write_one(self, s, x, whole):
        W, E = self.W, self.C.E
        names = [f[0] for f in W.T[whole.a[0]]["variants"][0]["fields"]]
        self.box["v"] = mk("adt", whole.a[0], whole.a[1], *[seq(mk("e", x)) if n == "statements" else v for n, v in zip(names, whole.a[2:])])
        E.nstates = 0
        out = []
        for st, _ in E.analyse(W.fn("waterbear::run_command"), None, St({}, dict(s.facts), (), s.apx)):
            if cli.failed(E, st) or any(e[0] == "exit" for e in st.eff):
                continue
            parts = []
            for e in cli.out_paths(st):
                if e[0] in ("write", "pwrite"):
                    t = M.S_of(E, st, e[2])
                    parts.append(t if t is not None else pretty(e[2])[:200])
            if not any(self.feasible(z) and y == parts and {k: v for k, v in z.facts.items() if k[0] == "r"} == {k: v for k, v in st.facts.items() if k[0] == "r"} for z, y in out):
                out.append((st, parts))
        return out


def fld(W, v, name):
    t = W.T[v.a[0]]
    for (n, ft), x in zip(t["variants"][v.a[1]]["fields"], v.a[2:]):
        if n == name:
            return x
    raise Anchor("field %s of %s not found" % (name, t["s"]))


def k01(W, R, tier):
    R.rule = ("disasm::disassemble is abstractly interpreted on each image schema (concrete opcodes and branch distances, unknown operand and data bytes): it must list exactly the instructions reachable from the entry points, and the text "
              "that `waterbear disassemble` (interpreted from run_command) writes for them, tokenised by the documented lexical rules and given to the reference semantics of the assembler, must denote exactly the bytes of the image; "
              "when a reachable address holds no instruction, NoInstruction is returned with that address and byte")
    n = run_schemas(W, R, k01_images(tier), make=lambda: ListingJudge(W), where="disasm::disassemble")
    R.floor("schemas", n, 300)


# ---------------------------------------------------------------- K02 the remarks of a listing
def decode(by, p):
    """-> (form, operand values) of the instruction at p of concrete bytes, or None"""
    for f in FORMS:
        pt = pattern(f)
        if p + len(pt) > len(by):
            continue
        vals = [0] * len(kinds(f))
        for j, byte in enumerate(pt):
            for i, w in enumerate(byte):
                b = by[p + j] >> 7 - i & 1
                if type(w) is int:
                    if w != b:
                        break
                else:
                    vals[w[0]] |= b << w[1]
            else:
                continue
            break
        else:
            return f, vals
    return None


def graph(by, entries):
    """-> ({address: size}, {address: addresses control arrives from}) of what is reachable, or None where an address holds no instruction"""
    ins, come, todo = {}, {}, [e for e in entries]
    while todo:
        p = todo.pop()
        if p in ins or not 0 <= p < len(by):
            continue
        d = decode(by, p)
        if d is None:
            return None
        f, vals = d
        nxt = p + size(f)
        ins[p] = size(f)
        to = []
        for k, v in zip(kinds(f), vals):
            if k == "r8":
                to.append(nxt + (v if v < 128 else v - 256))
            elif k == "r16":
                to.append(nxt + (v if v < 32768 else v - 65536) - 1)
            elif k == "a12":
                to.append(nxt & 0xF000 | v)
            elif k == "a16":
                to.append(v)
        if f[0] not in TERMINAL:
            to.append(nxt)
        for t in to:
            come.setdefault(t, set()).add(p)
        todo += to
    return ins, come


def overlaps(ins, p):
    return {q for q in ins if q != p and q < p + ins[p] and p < q + ins[q]}


class RemarkJudge(ListingJudge):
    def judge(self, m):
        W, E = self.W, self.E1
        rows, want = self.run(m)
        out = Problems()
        for p in E.panics:
            out.at(p[0])
            out.append(("panic", "%s in %s" % (p[1], p[2])))
        out.at(None)
        if not rows and not out:
            out.append(("no outcome", "the analysis finds no outcome at all"))
        for s, v in rows:
            out.at(s)
            self.rows += 1
            if W.variant(v) != "Ok":
                out.append(("rejected", pretty(v)[:200]))
                continue
            sts = fld(W, v.a[2], "statements") if v.a[2].op == "adt" else None
            if sts is None or sts.op != "seq" or any(p.op != "e" for p in sts.a):
                out.unknown("listing", "the statements cannot be determined: %s" % pretty(v)[:200])
                continue
            self.remarks(m, s, [p.a[0] for p in sts.a], out)
        self.F.E.analysed |= E.analysed
        self.F.E.nstates += E.nstates
        return out

    def text(self, s, v):
        t = M.S_of(self.E1, s, self.E1.snapshot(s, v))
        if t is None or any(type(p) is not str for p in t.a):
            raise Undetermined(pretty(v)[:200])
        return "".join(t.a)

    def remarks(self, m, s, sts, out):
        W = self.W
        ins, come = graph(m.by, m.entries)
        seen, before = [], []
        try:
            for x in sts:
                x = self.E1.snapshot(s, x)
                t, pos, cmt = fld(W, x, "statement"), fld(W, x, "pos"), fld(W, x, "comment")
                k = W.variant(t)
                at = pos.a[2].a[0] if W.variant(pos) == "Some" and pos.a[2].op == "i" else None
                note = self.text(s, cmt.a[2]) if W.variant(cmt) == "Some" else None
                if k == "Comment":
                    before.append(self.text(s, t.a[2]))
                    continue
                if k == "Label":
                    continue
                if k == "Directive" and W.variant(t.a[2]) == "Org":
                    d = t.a[2].a[-1]
                    if d.op != "i" or d.a[0] != at:
                        out.append(("address", ".org %s is listed at %s" % (pretty(d), at)))
                    continue
                if k == "Directive" and W.variant(t.a[2]) == "Byte":
                    self.data(m, s, at, t.a[2], note, out)
                    before = []
                    continue
                if k != "Instr":
                    break
                seen.append(at)
                if at not in ins:
                    out.append(("address", "an instruction is listed at %s, instructions are at %s" % (at, sorted(ins))))
                    before = []
                    continue
                d = decode(m.by, at)
                if W.variant(t.a[-1]).split("_")[0].lower() != d[0][0]:
                    out.append(("address", "%s is listed at %#x, which holds %s" % (W.variant(t.a[-1]), at, d[0][0])))
                # remarks above the instruction
                ov = [re.findall(r"[0-9A-Fa-f]+", c.split(":", 1)[1]) for c in before if c.startswith("Overlaps with:")]
                got = [int(a, 16) for c in ov for a in c]
                if sorted(got) != sorted(overlaps(ins, at)) or len(ov) > 1:
                    out.append(("overlaps", "%#x is said to overlap with %s, it does with %s" % (at, [hex(a) for a in got], [hex(a) for a in sorted(overlaps(ins, at))])))
                n = sum(c.strip() == "Entry point" for c in before)
                if n != (at in m.entries):
                    out.append(("entry points", "%#x is %san entry point and is called so %d times" % (at, "" if at in m.entries else "not ", n)))
                before = []
                # where control comes from
                exp = sorted(come.get(at, ())) if m.arrived else []
                got = [int(a, 16) for a in re.findall(r"[0-9A-Fa-f]+", note.split(":", 1)[1])] if note and note.startswith("Arrived from:") else []
                if got != exp:
                    out.append(("arrivals", "control is said to arrive at %#x from %s, it does from %s" % (at, [hex(a) for a in got], [hex(a) for a in exp])))
        except Undetermined as e:
            return out.unknown("remarks", "cannot be determined: %s" % e)
        if seen != sorted(ins):
            out.append(("instructions", "instructions are listed at %s, reachable are %s" % (seen, sorted(ins))))

    def data(self, m, s, at, d, note, out):
        W = self.W
        lst = [p.a[0] for p in d.a[-1].a] if d.a[-1].op == "seq" and all(p.op == "e" for p in d.a[-1].a) else None
        vals = []
        for b in lst or ():
            e = b.a[2] if W.variant(b) == "Expr" else None
            n = [x for x in e.a[2:] if type(x) is N and x.op == "i"] if e is not None and W.variant(e) == "Number" else []
            if len(n) != 1:
                raise Undetermined(pretty(b)[:200])
            vals.append(n[0].a[0])
        if lst is None:
            raise Undetermined(pretty(d)[:200])
        if at is None or vals != m.by[at:at + len(vals)]:
            return out.append(("address", "the bytes %s are listed at %s" % (vals, at)))
        text = "".join([chr(b) if 32 <= b <= 126 else {9: "\\t", 10: "\\n", 13: "\\r"}.get(b, ".") for b in vals])
        exp = text if any(32 <= b <= 126 for b in vals) else None
        if note != exp:
            out.append(("text", "the bytes %s have the remark %r, expected %r" % (vals, note, exp)))


def k02_images(tier):
    deep = tier == "thorough"
    out = []
    F = form

    def raw(key, by, entries, arr=1):
        m = Image("%s [%s] from %s%s" % (key, " ".join("%02x" % b for b in by) if len(by) <= 40 else "%d bytes" % len(by), ", ".join("%#x" % e for e in entries), ", --arrived-from" if arr else ""))
        m.by, m.entries, m.arrived = list(by), list(entries), arr
        assert graph(m.by, m.entries) is not None, m.key
        out.append(m)
    # instructions of one, two and three bytes that overlap in every way
    one, two, three = 0xA0, 0x02, 0x22
    R = [0xA0, 0xA0, 0xA0, 0xA0]
    for a in (one, 0x00, two, three):
        for b in (one, 0x00, two, three):
            for c in (one, two, three) if deep else (0x00, three):
                for ents in ((0, 1), (0, 2), (0, 1, 2), (1, 2), (2, 0, 3)):
                    raw("overlapping", [a, b, c, 0x00] + R, ents)
    raw("three in a row", [three] * 6 + R, (0, 1, 2))
    raw("two by two", [two] * 6 + R, (0, 1))
    raw("no remarks wanted", [three] * 4 + R, (0, 1, 2), 0)
    raw("a branch into an instruction", [0x00, three, 0x01, 0xFD, 0x01, 0xFC] + R, (0, 4))
    raw("a branch into an instruction from afar", [three, 0x00, 0x00, 0x80, 0xFC, 0x80, 0xFB] + R, (0,))
    # control arriving from several places
    for arr in (0, 1):
        raw("a loop on itself", [0x01, 0xFE], (0,), arr)
        raw("several come from", [0x80, 0x04, 0x90, 0x02, 0x80, 0x00, 0x00, 0xA0], (0,), arr)
        raw("several come from both sides", [0x80, 0x03, 0x90, 0x01, 0x00, 0x00, 0x80, 0xFD, 0x90, 0xFB, 0xA0], (0,), arr)
        raw("entries", [0x00, 0x00, 0xA0, 0x00, 0xA0], (3, 0, 2), arr)
        raw("entries outside", [0x00, 0xA0, 7], (0, 3, 0x130), arr)
        raw("an entry that is also a target", [0x80, 0x01, 0xA0, 0xA0], (0, 3), arr)
        raw("calls", [0x08, 0x05, 0x10, 0x02, 0x00, 0xA0, 0xA0], (0,), arr)
        raw("text", [0xA0] + list(b"Ab1 ~\x7f\x1f\t\r\n\x80\xff\x00;\"\\%"), (0,), arr)
        raw("data without text", [0xA0, 1, 2, 9, 10, 13, 0x80, 0x7F, 0x1F], (0,), arr)
        raw("text in the second line", [0xA0] + [1] * 16 + [0x41, 0, 0x42] + [0] * 13 + [0x20], (0,), arr)
        raw("data between", [0x01, 0x03, 0x41, 0x42, 0x00, 0xA0, 0x43, 0, 0, 0x44], (0,), arr)
    # addresses that differ in the higher digits: 0x000, 0x0ff, 0x100, 0x101 and beyond all go to one place
    far = [0x80, 0x02, 0x41, 0x42] + [0] * 0xFC
    far[4:7] = [0x21, 0x01, 0x10]                                     # jmpf 0x110 at 0x4
    far += [0] * 0x10 + [0x91, 0x02, 0x81, 0x00, 0xA0] + [0x41] * 9 + [0x21, 0x01, 0x14]
    raw("arrivals from other pages", far, (0, len(far) - 3, 0x10E))
    for at in ((0xFE, 0x101, 0x120), (0x4B, 0x130, 0x90), (0x80, 0x7F, 0x102)):
        img = [0xA0] * 0x134
        for a in at:
            img[a:a + 3] = [0x21, 0x01, 0x10]
        raw("arrivals from %s" % ", ".join(hex(a) for a in at), img, at)
    raw("overlaps across a page", [0x21, 0x00, 0xFD] + [0] * 0xFA + [three, three, three, three, three] + R, (0, 0xFE, 0xFF))
    # every form of instruction as the source of an arrival
    for f in FORMS:
        ops = []
        p = 1
        nxt = p + size(f)
        x = nxt + 1
        for k in kinds(f):
            ops.append({"i8": 5, "d9": 0x33, "b3": 3, "@Ri": 1, "r8": "x", "r16": "x", "a12": "x", "a16": "x"}[k])
        m = lay([(F("nop"),), tuple([f] + ops), (F("nop"),), "x:", (F("ret"),)], "from %s, --arrived-from" % fname(f), entries=("0",), arrived=1)
        out.append(m)
    return out


def k02(W, R, tier):
    R.rule = ("disasm::disassemble is abstractly interpreted on images of known bytes whose instructions overlap, branch to each other and lie between data: every instruction must be listed at its own address with a remark that names "
              "exactly the other listed instructions that share a byte with it, with the remark of an entry point exactly at entry points, and, when asked for, with exactly the addresses control arrives from in ascending order; "
              "every .org and .byte must stand at its own address, with the printable text of its bytes")
    n = run_schemas(W, R, k02_images(tier), make=lambda: RemarkJudge(W), where="disasm::disassemble", per=8)
    R.floor("schemas", n, 200)
