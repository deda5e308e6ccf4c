"""Instruction properties: encoding, decoding, operand ranges, branch displacements, dispatch."""
from wb import *
import spec

I32 = "i32"


class Forms:
    """make_instr + assemble composed for every documented form, operands unknown, location unknown"""

    def __init__(self, W):
        self.W = W
        self.E = E = W.engine(opaque=OPAQUE_EXPR + [FROMERR])
        self.span = W.sp(E)
        self.mk = W.fn("waterbear::parser::make_instr",
                       ("location::Span", "std::string::String", "&[expression::Arg]",
                        "std::result::Result<std::option::Option<ast::Statement>, parser::ParseError>"))
        self.asm = W.fn("waterbear::asm::assemble")
        self.N = E.sym("N", W.ty("usize"))
        self.expr_t = W.ty("expression::Expr")
        self.im_t = W.ty("expression::IndirectionMode")
        self.V = [E.sym("v%d" % k, W.ty("i32")) for k in range(3)]
        self.stmt = {}

    def operand(self, k, kd):
        return self.E.sym("x%d" % k, self.im_t if kd == "@Ri" else self.expr_t)

    def args(self, form):
        W, out = self.W, []
        for k, kd in enumerate(spec.kinds(form)):
            x = self.operand(k, kd)
            out.append(W.adt("expression::Arg", "IM", self.span, x) if kd == "@Ri" else
                       W.adt("expression::Arg", "Imm" if kd == "i8" else "Ex", x))
        return out

    def call_make(self, name, args):
        rows = self.E.analyse(self.mk, [self.span, name if type(name) is N else S(name), self.W.sref(seq(*[mk("e", a) for a in args]))])
        return rows, list(self.E.panics)

    def statement(self, form):
        """the Statement built for the form, or None"""
        if form in self.stmt:
            return self.stmt[form]
        rows, pan = self.call_make(form[0], self.args(form))
        st = None
        if len(rows) == 1 and not pan:
            v = rows[0][1]
            if self.W.variant(v) == "Ok" and self.W.variant(v.a[2]) == "Some" and self.W.variant(v.a[2].a[2]) == "Instr":
                st = v.a[2].a[2]
        self.stmt[form] = st
        return st

    def instr(self, form):
        st = self.statement(form)
        if st is None:
            return None
        return next((x for x in st.a[2:] if x.op == "adt" and self.W.T[x.a[0]]["name"].endswith("::Instr")), None)

    def rows(self, form):
        """abstract rows of assembling  .org N / <form>"""
        W, E = self.W, self.E
        st = self.statement(form)
        if st is None:
            return None
        org = W.adt("ast::Statement", "Directive", W.adt("ast::Directive", "Org", self.span, self.N))
        stmts = W.struct("ast::Statements", E, statements=seq(mk("e", org), mk("e", st)))
        s0 = St()
        s0.mem[("X", "stmts")] = stmts
        s0.facts[("r", self.N)] = iv(0, 65536 - spec.size(form) - 1)
        E.nstates = 0
        rows = E.analyse(self.asm, [mk("ref", ("X", "stmts"), ())], s0)
        out = []
        for s, v in rows:
            sb = Sub(self, form, s)
            out.append((sb.state(), sb(v), sb))
        pan = []
        for p in E.panics:
            sb = Sub(self, form, p[0])
            pan.append((sb.state(), p[1], p[2], sb))
        return out, pan

    def next(self, form):
        return add(self.N, I(spec.size(form)))


class Sub:
    """renames the value of operand k (whatever environment it was evaluated in) to v_k"""

    def __init__(self, F, form, st):
        self.F = F
        self.st = st
        self.memo = {}
        self.kinds = spec.kinds(form)
        self.X = [F.operand(k, kd) for k, kd in enumerate(self.kinds)]
        self.err = set()

    def opapp(self, t):
        """k if t is the application of expression evaluation to operand k"""
        if t.op == "app" and t.a[0].endswith("Expr::eval"):
            for k, x in enumerate(self.X):
                if t.a[1] is x:
                    return k
        return None

    def __call__(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op == "fld" and t.a[0].op == "app":
            k = self.opapp(t.a[0])
            if k is not None and t.a[2] == 0:
                ti = engine.tyof(t.a[0])
                if t.a[1] == self.F.W.P.variant(ti, "Ok"):
                    return self.F.V[k]
        if t.op in ("discr", "cast", "sym"):
            d = t
            while d.op == "cast":
                d = d.a[2]
            if d.op == "discr":
                for k, x in enumerate(self.X):
                    if d.a[0] is x:
                        return self.F.V[k]
        if not any(type(x) is N for x in t.a):
            self.memo[t] = t
            return t
        a = [self(x) if type(x) is N else x for x in t.a]
        if t.op == "lin":
            r = I(a[0])
            for x, c in zip(a[1::2], a[2::2]):
                r = add(r, scale(x, c))
        else:
            r = mk(t.op, *a)
        self.memo[t] = r
        return r

    def state(self):
        W = self.F.W
        s = St(self.st.mem, {}, self.st.eff)
        for k, v in self.st.facts.items():
            if k[0] == "r":
                n = self(k[1])
                c = self.F.E.cond_in(n, v)
                s2 = self.F.E.assume(s, c, True)
                if s2 is not None:
                    s = s2
            elif k[0] == "d":
                j = self.opapp(k[1])
                if j is not None:
                    ti = engine.tyof(k[1])
                    if W.P.variant(ti, "Ok") not in v:
                        self.err.add(j)
                else:
                    for j, x in enumerate(self.X):
                        if k[1] is x:
                            s.facts[("r", self.F.V[j])] = norm([(i, i) for i in v])
                    s.facts[k] = v
            else:
                s.facts[(k[0], self(k[1]) if type(k[1]) is N else k[1])] = v
        for j, kd in enumerate(self.kinds):
            if kd == "@Ri" and ("r", self.F.V[j]) not in s.facts:
                s.facts[("r", self.F.V[j])] = iv(0, 3)
        return s


def zero_bits(E, st, key, iset):
    """the bits that the fact  key in iset  forces to zero (as xor combinations), or None"""
    W = 64
    c, d = lin_parts(key)
    if iset == iv(0, 0) and key.op == "lin" and c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
        (x, y) = d.keys()
        z = [bop("xor", p, q) for p, q in zip(bits(x, W, E, st), bits(y, W, E, st))]
    elif iset == iv(0, 0):
        z = bits(key, W, E, st)
    elif len(iset.r) == 1 and iset.lo() == 0 and iset.hi() + 1 & iset.hi() == 0:
        z = bits(key, W, E, st)[iset.hi().bit_length():]
    else:
        return None
    if any(p is None or p == 1 for p in z):
        return None
    return frozenset(p for p in z if p != 0)


def nibble_facts(E, st, N0, v):
    """(equalities forced, equalities refuted): bit relations between the operand and the location"""
    pos, negs = set(), []
    base = St({}, {k: x for k, x in st.facts.items() if k[0] == "r" and len(lin_parts(k[1])[1]) == 1 and k[1].op == "sym"})
    for k, x in st.facts.items():
        if k[0] != "r":
            continue
        sup = engine.support(k[1])
        if not (N0 in sup and v in sup):
            continue
        z = zero_bits(E, base, k[1], x)
        if z is not None:
            pos |= z
            continue
        full = E.rng(base, k[1])
        z = zero_bits(E, base, k[1], full.inter(x.comp()))
        if z is None:
            # complement relative to the unrefined range
            cc = E.rng(None, k[1]).inter(x.comp())
            z = zero_bits(E, base, k[1], cc)
        if z is not None:
            negs.append(z)
        else:
            negs.append(None)
    return pos, negs


def expected_bits(F, form, E, st):
    """spec: list of bytes msb first, each bit an abstract bit"""
    nxt = F.next(form)
    ops = []
    for k, kd in enumerate(spec.kinds(form)):
        v = F.V[k]
        if kd == "r8":
            t = sub(v, nxt)
        elif kd == "r16":
            t = add(sub(v, nxt), I(1))
        else:
            t = v
        c = E.rng(st, t).single() if kd == "@Ri" else None
        ops.append(bits(t if c is None else I(c), 32, E, st))
    out = []
    for byte in spec.pattern(form):
        out.append([b if type(b) is int else ops[b[0]][b[1]] for b in byte])
    return out


RANGE = {"i8": (0, 255), "d9": (0, 511), "b3": (0, 7), "a16": (0, 65535), "a12": (0, 65535), "r8": (0, 65535), "r16": (0, 65535), "@Ri": (0, 3)}
REL = {"r8": (-128, 127, 0), "r16": (-32768, 32767, 1)}


def relterm(F, form, k, kd):
    return add(sub(F.V[k], F.next(form)), I(REL[kd][2]))


def spec_state(F, form, st):
    """st refined by 'every operand is acceptable', or None when contradictory"""
    E = F.E
    for k, kd in enumerate(spec.kinds(form)):
        st = E.assume(st, E.cond_in(F.V[k], iv(*RANGE[kd])), True)
        if st is None:
            return None
        if kd in REL:
            st = E.assume(st, E.cond_in(relterm(F, form, k, kd), iv(*REL[kd][:2])), True)
            if st is None:
                return None
    return st


def a12_bits(F, form, k, E, st):
    """the spec's equality: bits 12..15 of target and of the following location"""
    base = St({}, {("r", F.N): iv(0, 65536 - spec.size(form) - 1), ("r", F.V[k]): iv(0, 65535)})
    x, y = bits(F.V[k], 64, E, base), bits(F.next(form), 64, E, base)
    return frozenset(z for z in (bop("xor", p, q) for p, q in list(zip(x, y))[12:16]) if z != 0)


def forms(W):
    if "forms" not in W._cache:
        W._cache["forms"] = Forms(W)
    return W._cache["forms"]


def out_bytes(F, form, v):
    """written bytes of an Ok row -> (list of byte terms in location order, length term, problems)"""
    seqv = v.a[2]
    base, sets = unset(seqv)
    probs = []
    got = {}
    for i, x in sets:
        d = sub(i, F.N)
        if d.op != "i":
            probs.append("write at %s" % pretty(i))
            continue
        got[d.a[0]] = x
    n = spec.size(form)
    if sorted(got) != list(range(n)):
        probs.append("writes at offsets %s from the instruction's location, expected 0..%d" % (sorted(got), n - 1))
    L = F.E.length(base if base.op == "seq" else seqv)
    if L is not add(F.N, I(n)):
        probs.append("image length %s, expected N+%d" % (pretty(L), n))
    if not (base.op == "seq" and len(base.a) == 1 and base.a[0].op == "rep" and base.a[0].a[0] is I(0)):
        probs.append("unwritten bytes are not zero: %s" % pretty(base)[:200])
    return [got.get(i) for i in range(n)], probs


def bshow(bs):
    def one(b):
        if b is None:
            return "?"
        if b in (0, 1):
            return str(b)
        if b[0] == "b":
            return "[%s.%d]" % (pretty(b[1]), b[2])
        return "[x]"
    return "".join(one(b) for b in bs)


def check_encoding(W, R, tier, only=None, bitsonly=True, ranges=False, kinds=None):
    F = forms(W)
    E = F.E
    nforms = 0
    for form in spec.FORMS:
        ks = spec.kinds(form)
        if only and not only(form):
            continue
        nm = spec.fname(form)
        if not R.ob("%s: dispatch" % nm, F.statement(form) is not None, "documented operand shape is accepted and yields one instruction", "make_instr"):
            continue
        nforms += 1
        rows, pans = F.rows(form)
        okrows = 0
        for st, msg, fn, sb in pans:
            R.at(st)
            if not sb.err and spec_state(F, form, st) is not None:
                R.ob("%s: no panic" % nm, False, "assembling may panic (%s in %s) for acceptable operands; facts %s" % (msg, fn, facts(st)), fn)
        for st, v, sb in rows:
            R.at(st)
            if W.variant(v) == "Ok":
                okrows += 1
                if bitsonly:
                    by, probs = out_bytes(F, form, v)
                    R.ob("%s: placement" % nm, not probs, "; ".join(probs), "assemble")
                    want = expected_bits(F, form, E, st)
                    for j, w in enumerate(want):
                        if by[j] is None:
                            continue
                        got = bits(by[j], 8, E, st)[::-1]
                        R.ob("%s: byte %d" % (nm, j), got == w, "encoded bits %s, documented %s" % (bshow(got), bshow(w)), "Instr::encode")
                if ranges:
                    for k, kd in enumerate(ks):
                        if kinds and kd not in kinds:
                            continue
                        r = E.rng(st, F.V[k])
                        R.ob("%s: operand %d (%s) accepted range" % (nm, k, kd), r.subset(iv(*RANGE[kd])),
                             "accepted values %r, documented %d..%d" % (r, RANGE[kd][0], RANGE[kd][1]), "Instr::eval")
                        if kd in REL:
                            r = E.rng(st, relterm(F, form, k, kd))
                            R.ob("%s: operand %d displacement range" % (nm, k), r.subset(iv(*REL[kd][:2])),
                                 "accepted displacements %r, representable %d..%d" % (r, REL[kd][0], REL[kd][1]), "Instr::eval")
                        if kd == "a12":
                            pos, negs = nibble_facts(E, st, F.N, F.V[k])
                            R.ob("%s: operand %d page check" % (nm, k), a12_bits(F, form, k, E, st) <= pos,
                                 "accepted although the target's top 4 bits may differ from the following location's: %s" % facts(st), "Instr::eval")
                    if sb.err:
                        R.ob("%s: errors propagate" % nm, False, "success although operand %s failed to evaluate" % sorted(sb.err), "Instr::eval")
            elif ranges:
                if sb.err:
                    continue
                s2 = spec_state(F, form, st)
                if s2 is not None:
                    rej = False
                    for k, kd in enumerate(ks):
                        if kd == "a12":
                            pos, negs = nibble_facts(E, st, F.N, F.V[k])
                            want = a12_bits(F, form, k, E, st)
                            if any(z is not None and z <= want for z in negs):
                                rej = True
                    R.ob("%s: rejection" % nm, rej, "rejected with %s although every operand is acceptable: %s" % (pretty(v)[:200], facts(s2)), "Instr::eval")
                else:
                    R.ob("%s: rejection" % nm, True)
        R.at(None)
        R.ob("%s: succeeds" % nm, okrows > 0, "no successful outcome", "assemble")
    R.analysed(E)
    return nforms


def i01(W, R, tier):
    R.rule = ("For each documented instruction form, the resolved make_instr and assemble are abstractly interpreted together on "
              "`.org N` + the form with unknown operand values; every byte stored on every successful path must have exactly the documented bits "
              "at offsets N.. and the image must end after it. An obligation is one byte or placement of one form.")
    n = check_encoding(W, R, tier, bitsonly=True, ranges=False)
    R.floor("forms", n, 70)
    R.assume += ["location N and the following location lie within 0..65535", "Expr::eval is an unknown function here (its own property: E01)"]


def i03(W, R, tier):
    R.rule = ("For each documented form, on every path of the composed make_instr+assemble: success implies each operand value lies in the field's "
              "documented range, and every rejecting path contradicts 'all operands acceptable'.")
    n = check_encoding(W, R, tier, bitsonly=False, ranges=True)
    R.floor("forms", n, 70)
    R.assume += ["location N and the following location lie within 0..65535"]


def i04(W, R, tier):
    R.rule = ("For each form with a relative or page-absolute operand: displacement bits equal target minus following location (plus one for 16-bit "
              "relative), accepted exactly when representable / on the same 4 KiB page.")
    n = check_encoding(W, R, tier, only=lambda f: any(k in ("r8", "r16", "a12") for k in spec.kinds(f)), bitsonly=True, ranges=True)
    R.floor("forms", n, 18)
    R.assume += ["location N and the following location lie within 0..65535"]
