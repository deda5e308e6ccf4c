"""Decoding and disassembly: decode is the documented inverse, branch targets, successors."""
from wb import *
import spec
from checks.instr import forms

INSTR = "instruction::Instr<i32, u8>"


def raw_of(W, R):
    """form -> (variant index of the decoded instruction, field index of each operand)"""
    if "rawforms" in W._cache:
        return W._cache["rawforms"]
    F = forms(W)
    t = W.ty(INSTR)
    out = {}
    for form in spec.FORMS:
        v = F.instr(form)
        if v is None:
            R.ob("%s: dispatch" % spec.fname(form), False, "documented operand shape does not yield one instruction")
            continue
        vi = W.P.variant(t, W.variant(v))
        pos = []
        for k, kd in enumerate(spec.kinds(form)):
            x = F.operand(k, kd)
            at = [i for i, y in enumerate(v.a[2:]) if any(z is x for z in subterms(y))]
            pos.append(at[0] if len(at) == 1 else None)
        out[form] = (vi, pos)
    W._cache["rawforms"] = out
    return out


def first_bytes(form):
    """concrete first bytes matching the form -> {byte: {(operand, bit): value}}"""
    p = spec.pattern(form)[0]
    out = {}
    for b in range(256):
        d = {}
        for j, w in enumerate(p):
            v = (b >> (7 - j)) & 1
            if type(w) is int:
                if w != v:
                    break
            else:
                d[w] = v
        else:
            out[b] = d
    return out


def opcode_map(R):
    m = {}
    for form in spec.FORMS:
        for b, d in first_bytes(form).items():
            assert b not in m, "documented forms overlap"
            m[b] = (form, d)
    return m


WIDTH = {"i8": 8, "d9": 9, "b3": 3, "a12": 12, "a16": 16, "r8": 8, "r16": 16, "@Ri": 2}


def expected_operand(form, k, kd, first, later, E, st):
    """documented bits (lsb first, 32 wide) of operand k for first-byte bits `first` and later byte symbols"""
    got = {}
    for j, byte in enumerate(spec.pattern(form)):
        for i, w in enumerate(byte):
            if type(w) is tuple and w[0] == k:
                got[w[1]] = first[w] if j == 0 else bits(later[j], 8, E, st)[7 - i]
    w = WIDTH[kd]
    bs = [got.get(i, 0) for i in range(w)]
    top = bs[-1] if kd in ("r8", "r16") else 0
    return bs + [top] * (32 - w)


def i02(W, R, tier):
    R.rule = ("decode is abstractly interpreted on every first byte with unknown later bytes, at every truncation and with an unknown tail; "
              "the result must be the documented form with exactly the documented operand bits (relative operands sign-extended), nothing otherwise; "
              "encoding that result must give back exactly the bytes consumed, and the instruction's size their number.")
    E = W.engine()
    dec = W.fn("waterbear::instruction::Instr::decode", ("&[u8]", "std::option::Option<%s>" % INSTR))
    enc = W.fn("waterbear::instruction::Instr::<i32, u8>::encode")
    siz = W.fn("waterbear::instruction::Instr::<i32, u8>::size")
    u8 = W.ty("u8")
    b = [None] + [E.sym("b%d" % i, u8) for i in (1, 2)]
    raw = raw_of(W, R)
    om = opcode_map(R)
    t = W.ty(INSTR)
    nbytes = 0
    for op in range(256):
        form, first = om.get(op, (None, None))
        n = spec.size(form) if form else 0
        nm = "byte %02X" % op
        for ln in (1, 2, 3, 4):
            els = [mk("e", I(op))] + [mk("e", x) for x in b[1:min(ln, 3)]]
            if ln == 4:
                els.append(mk("e", E.sym("b3", u8)))
            E.nstates = 0
            rows = E.analyse(dec, [W.sref(seq(*els))])
            for s, msg, fn, stk in E.panics:
                R.at(s)
                R.ob("%s/%d: no panic" % (nm, ln), False, "decoding may panic: %s in %s" % (msg, fn), fn)
            want_some = form is not None and ln >= n
            for s, v in rows:
                R.at(s)
                if not want_some:
                    R.ob("%s/%d" % (nm, ln), W.variant(v) == "None", "decodes to %s but %s" % (pretty(v)[:200], "no documented instruction starts with this byte" if form is None else "the slice ends before the instruction does"), dec.name)
                    continue
                if not R.ob("%s/%d" % (nm, ln), W.variant(v) == "Some", "does not decode, documented as %s" % spec.fname(form), dec.name):
                    continue
                ins = v.a[2]
                if form not in raw:
                    continue
                vi, pos = raw[form]
                if not R.ob("%s: form" % nm, ins.op == "adt" and ins.a[1] == vi, "decodes to %s, documented as %s" % (pretty(ins)[:200], spec.fname(form)), dec.name):
                    continue
                for k, kd in enumerate(spec.kinds(form)):
                    if pos[k] is None:
                        R.ob("%s: operand %d" % (nm, k), False, "operand %d is not carried by the instruction" % k)
                        continue
                    want = expected_operand(form, k, kd, first, b, E, s)
                    w = 8 if kd == "@Ri" else 32
                    got = bits(ins.a[2 + pos[k]], w, E, s)
                    R.ob("%s: operand %d" % (nm, k), got == want[:w], "operand %d (%s) decodes to %s, documented bits %s" % (k, kd, pretty(ins.a[2 + pos[k]])[:200], want[:w]), dec.name)
                if ln != n:
                    continue
                nbytes += n
                E2s = St({}, dict(s.facts), (), s.apx)
                er = E.analyse(enc, [W.sref(ins)], E2s)
                for s2, msg, fn, stk in E.panics:
                    R.at(s2)
                    R.ob("%s: re-encode" % nm, False, "encoding the decoded instruction may panic: %s" % msg, fn)
                R.ob("%s: re-encode" % nm, len(er) > 0, "no result")
                for s2, ev in er:
                    R.at(s2)
                    els2 = ev.a if ev.op == "seq" and all(x.op == "e" for x in ev.a) else None
                    ok = els2 is not None and len(els2) == n
                    if ok:
                        for j, x in enumerate(els2):
                            w = bits(I(op) if j == 0 else b[j], 8, E, s2)
                            ok = ok and bits(x.a[0], 8, E, s2) == w
                    R.ob("%s: re-encode" % nm, ok, "re-encoding the decoded instruction gives %s" % pretty(ev)[:300], enc.name)
                for s2, ev in E.analyse(siz, [W.sref(ins)], E2s):
                    R.at(s2)
                    R.ob("%s: size" % nm, ev is I(n), "size is %s, %d bytes were consumed" % (pretty(ev), n), siz.name)
        R.at(None)
        R.analysed(E)
    R.floor("first_bytes", 256, 256)
    R.floor("reencoded_bytes", nbytes, 300)


# ---------------------------------------------------------------- disassembler targets and successors
TERMINAL = {"jmp", "jmpf", "br", "brf", "ret", "reti"}


class Dis:
    def __init__(self, W, R):
        self.W, self.R = W, R
        self.E = W.engine()
        self.G_t = W.ty("disasm::InstructionGraph<i32, u8>")
        self.N_t = W.ty("disasm::Names")
        self.targets = W.fn("waterbear::disasm::targets", ("usize", "&" + INSTR, "&disasm::InstructionGraph<i32, u8>", "std::vec::Vec<usize>"))
        self.lift = W.fn("waterbear::disasm::lift_instr", ("usize", "&disasm::InstructionGraph<i32, u8>", "&" + INSTR, "&disasm::Names",
                                                          "instruction::Instr<expression::Expr, expression::IndirectionMode>"))
        self.labels = W.fn("waterbear::disasm::compute_labels", ("&disasm::InstructionGraph<i32, u8>", "&mut disasm::Names", "()"))
        self.pos = self.E.sym("pos", W.ty("usize"))
        self.G = self.E.sym("graph", self.G_t)
        self.N = self.E.sym("names", self.N_t)
        self.raw = raw_of(W, R)

    def value(self, form):
        W, E = self.W, self.E
        t = W.ty(INSTR)
        vi, pos = self.raw[form]
        fs = []
        st = St()
        n = spec.size(form)
        for i, (nm, ft) in enumerate(W.T[t]["variants"][vi]["fields"]):
            x = E.sym("f%d" % i, ft)
            fs.append(x)
        rngs = {"r8": (-128, 127), "r16": (-32768, 32767), "i8": (0, 255), "d9": (0, 511), "b3": (0, 7), "a12": (0, 4095), "a16": (0, 65535), "@Ri": (0, 3)}
        st.facts[("r", self.pos)] = iv(0, 65535 - n)
        for k, kd in enumerate(spec.kinds(form)):
            if pos[k] is None:
                self.R.ob("%s: operand %d" % (spec.fname(form), k), False, "operand not carried by the instruction")
                return None
            st.facts[("r", fs[pos[k]])] = iv(*rngs[kd])
        addr = None
        for k, kd in enumerate(spec.kinds(form)):
            nxt = add(self.pos, I(n))
            x = fs[pos[k]]
            if kd == "r8":
                addr = add(x, nxt)
            elif kd == "r16":
                addr = sub(add(x, nxt), I(1))
            elif kd == "a16":
                addr = x
            elif kd == "a12":
                addr = ("page", nxt, x)
            if kd in ("r8", "r16"):
                st = E.assume(st, E.cond_in(addr, iv(0, 65535)), True)
        return mk("adt", t, vi, *fs), st, addr, add(self.pos, I(n)), [fs[p] for p in pos]

    def abits(self, addr, st, w=32):
        if type(addr) is tuple:
            x, y = bits(addr[2], w, self.E, st), bits(addr[1], w, self.E, st)
            return x[:12] + y[12:16] + [0] * (w - 16)
        return bits(addr, w, self.E, st)

    def same(self, term, addr, st):
        if type(addr) is N and term is addr:
            return True
        return bits(self.strip(term, st), 32, self.E, st) == self.abits(addr, st)

    def strip(self, t, st):
        while t.op == "cast":
            r = self.E.rng(st, t.a[2])
            if not r.empty() and r.lo() >= 0 and r.hi() < (1 << (t.a[0] - (1 if t.a[1] else 0))):
                t = t.a[2]
            else:
                break
        return t


def show(a):
    return pretty(a) if type(a) is N else "(next & F000) | (a12 & 0FFF)"


def i05(W, R, tier):
    R.rule = ("For every instruction form with unknown operands at an unknown location, three sibling computations are abstractly interpreted and compared "
              "with the documented target address: the operand the disassembler prints (number, or the label table's entry for that address), the label it "
              "creates, and the jump target it follows; the other operands must print the decoded value or the alias registered for it.")
    D = Dis(W, R)
    E = D.E
    nt = 0
    for form in spec.FORMS:
        nm = spec.fname(form)
        if form not in D.raw:
            continue
        got = D.value(form)
        if got is None:
            continue
        ins, st, addr, nxt, ops = got
        E.nstates = 0
        # printed operands
        rows = E.analyse(D.lift, [D.pos, W.sref(D.G), W.sref(ins), W.sref(D.N)], st)
        for p in E.panics:
            R.at(p[0])
            R.ob("%s: lift panic" % nm, False, "may panic: %s in %s" % (p[1], p[2]), p[2])
        R.at(None)
        R.ob("%s: lifts" % nm, len(rows) > 0, "no result")
        lmaps = set()
        for s, v in rows:
            R.at(s)
            sf = forms(W).instr(form)
            if not R.ob("%s: printed form" % nm, v.op == "adt" and W.variant(v) == W.variant(sf), "prints as %s" % pretty(v)[:200], D.lift.name):
                continue
            for k, kd in enumerate(spec.kinds(form)):
                at = D.raw[form][1][k]
                e = v.a[2 + at]
                key = "%s: printed operand %d" % (nm, k)
                if kd == "@Ri":
                    if e.op == "adt":
                        want = {0: "R0", 1: "R1", 2: "R2", 3: "R3"}
                        i = E.rng(s, ops[k]).single()
                        R.ob(key, i is not None and W.vname(e).endswith("::" + want[i]), "prints %s for mode %s" % (pretty(e), i), D.lift.name)
                    else:
                        R.ob(key, False, "indirection mode %s" % pretty(e)[:200])
                    continue
                a = addr if kd in ("r8", "r16", "a12", "a16") else ops[k]
                if W.variant(e) == "Number":
                    R.ob(key, D.same(e.a[3], a, s), "prints %s, the encoded operand refers to %s" % (pretty(e.a[3])[:200], show(a)), D.lift.name)
                elif W.variant(e) == "Name":
                    txt = e.a[3]
                    mv = [x for x in subterms(txt) if x.op == "mapval"]
                    ok = len(mv) == 1 and D.same(mv[0].a[1], a, s)
                    R.ob(key, ok, "prints name %s, the encoded operand refers to %s" % (pretty(txt)[:200], show(a)), D.lift.name)
                    if ok and kd in ("r8", "r16", "a12", "a16"):
                        lmaps.add(mv[0].a[0])
                    elif ok and kd == "b3":
                        R.ob(key + " bank", E.rng(s, ops[0]).single() == 0x101, "a PSW bit name is printed for a register that may not be PSW: %s" % facts(s), D.lift.name)
                    elif ok:
                        R.ob(key + " kind", kd == "d9", "an immediate prints as a name", D.lift.name)
                else:
                    R.ob(key, False, "prints %s" % pretty(e)[:200], D.lift.name)
        # label created
        g = W.struct("disasm::InstructionGraph<i32, u8>", E, pre="g_", instrs=mk("map", "empty", mk("ent", D.pos, ins)))
        s0 = st.copy()
        s0.mem[("X", "names")] = D.N
        rows = E.analyse(D.labels, [W.sref(g), mk("ref", ("X", "names"), ())], s0)
        for p in E.panics:
            R.at(p[0])
            R.ob("%s: label panic" % nm, False, "may panic: %s in %s" % (p[1], p[2]), p[2])
        for s, v in rows:
            R.at(s)
            after = s.mem[("X", "names")]
            ins_keys = []
            for t in ([] if after is D.N else subterms(after)):
                if t.op == "map":
                    for en in t.a[1:]:
                        ins_keys.append((t.a[0], en.a[0], en.a[1]))
            if addr is None:
                R.ob("%s: no label" % nm, not ins_keys, "a label is created for an instruction without a target: %s" % [pretty(k[1]) for k in ins_keys], D.labels.name)
                continue
            nt += 1
            if form[0] == "jmpf" and not ins_keys and flash_exit(W, D, s):
                R.count("flash_exit_paths")
                continue
            has = [k[1] for k in s.facts if k[0] == "b" and k[1].op == "haskey" and s.facts[k] and D.same(k[1].a[1], addr, s)]
            if has and not ins_keys:
                lm = {k.a[0] for k in has}
                R.ob("%s: label table" % nm, lm == lmaps, "label presence is tested in %s but names are printed from %s" % ([pretty(x) for x in lm], [pretty(x) for x in lmaps]), D.labels.name)
                continue
            R.ob("%s: label" % nm, len(ins_keys) == 1 and D.same(ins_keys[0][1], addr, s),
                 "creates labels for %s, the target is %s" % ([pretty(k[1]) for k in ins_keys], show(addr)), D.labels.name)
            R.ob("%s: label table" % nm, {k[0] for k in ins_keys} == lmaps, "labels are stored in %s but printed from %s" % ([pretty(k[0]) for k in ins_keys], [pretty(x) for x in lmaps]), D.labels.name)
        # target followed
        rows = E.analyse(D.targets, [D.pos, W.sref(ins), W.sref(D.G)], st)
        for s, v in rows:
            R.at(s)
            els = [x.a[0] for x in v.a] if v.op == "seq" and all(x.op == "e" for x in v.a) else None
            if els is None:
                R.ob("%s: targets" % nm, False, "targets %s" % pretty(v)[:200], D.targets.name)
                continue
            if addr is not None:
                others = [x for x in els if not D.same(x, addr, s) and x is not nxt]
                R.ob("%s: followed target" % nm, not others, "follows %s, the target is %s" % ([pretty(x) for x in others], show(addr)), D.targets.name)
    R.at(None)
    R.analysed(E)
    R.floor("target_rows", nt, 22)
    R.assume += ["target address within 0..65535", "decoded operand values are within their fields (I02)"]


def flash_exit(W, D, s):
    """facts say: the preceding instruction is `not1 ext,0` and control arrived from it"""
    ok = arr = False
    for k, v in s.facts.items():
        if k[0] == "d" and k[1].op == "mapval" and k[1].a[1] is sub(D.pos, I(2)):
            nt = W.P.variant(W.ty(INSTR), W.variant(forms(W).instr(next(f for f in spec.FORMS if f[0] == "not1"))))
            if v == frozenset([nt]):
                r = [s.facts.get(("r", mk("fld", k[1], nt, j))) for j in (0, 1)]
                ok = all(x is not None for x in r) and r[0].single() == 0x10D and r[1].single() == 0
        if k[0] == "b" and k[1].op == "haskey" and v is True and k[1].a[0].op == "mapval" and k[1].a[1] is sub(D.pos, I(2)) and k[1].a[0].a[1] is D.pos:
            arr = True
    return ok and arr


def i08(W, R, tier):
    R.rule = ("For every instruction form with unknown operands and location, on every path of the disassembler's successor computation: the following location "
              "is a successor exactly unless the instruction transfers control unconditionally, and the branch target is a successor exactly for branches, jumps "
              "and calls (except a far jump reached from the flash bank switch `not1 ext,0`).")
    D = Dis(W, R)
    E = D.E
    n = 0
    for form in spec.FORMS:
        nm = spec.fname(form)
        got = D.value(form) if form in D.raw else None
        if got is None:
            continue
        ins, st, addr, nxt, ops = got
        E.nstates = 0
        rows = E.analyse(D.targets, [D.pos, W.sref(ins), W.sref(D.G)], st)
        for p in E.panics:
            R.at(p[0])
            R.ob("%s: panic" % nm, False, "may panic: %s in %s" % (p[1], p[2]), p[2])
        R.at(None)
        R.ob("%s: outcomes" % nm, len(rows) > 0, "none")
        n += 1
        full = 0
        for s, v in rows:
            R.at(s)
            els = [x.a[0] for x in v.a] if v.op == "seq" and all(x.op == "e" for x in v.a) else None
            if els is None:
                R.ob("%s: successors" % nm, False, "successors %s" % pretty(v)[:200], D.targets.name)
                continue
            if not els and form[0] == "jmpf" and flash_exit(W, D, s):
                R.count("flash_exit_paths")
                continue
            full += 1
            fall = form[0] not in TERMINAL
            hasfall = any(x is nxt for x in els)
            R.ob("%s: fall-through" % nm, hasfall == fall, "successors %s: the following location is %s" % ([pretty(x) for x in els], "missing" if fall else "a successor of an unconditional transfer"), D.targets.name)
            hit = addr is not None and any(D.same(x, addr, s) for x in els)
            R.ob("%s: target" % nm, hit == (addr is not None), "successors %s: the target is missing" % [pretty(x) for x in els], D.targets.name)
            extra = [x for x in els if x is not nxt and not (addr is not None and D.same(x, addr, s))]
            R.ob("%s: nothing else" % nm, not extra, "unexpected successors %s" % [pretty(x) for x in extra], D.targets.name)
        R.at(None)
        R.ob("%s: succeeds" % nm, full > 0, "no outcome")
    R.floor("forms", n, 70)
    R.analysed(E)
