"""I06: which mnemonic/operand shapes are accepted, and as which instruction."""
from wb import *
import itertools
import spec
import models as M
from checks.instr import forms

SHAPE = {"i8": "Imm", "d9": "Ex", "b3": "Ex", "a12": "Ex", "a16": "Ex", "r8": "Ex", "r16": "Ex", "@Ri": "IM"}


def i06(W, R, tier):
    R.rule = ("The resolved instruction constructor is abstractly interpreted with an unknown mnemonic for every operand-shape list (immediate, expression, "
              "indirection mode, macro argument; up to 3 (thorough: 4) operands, and an unknown longer list): each path's mnemonic fact and shape must be exactly one documented "
              "form, carrying each operand unchanged, or be rejected; the mnemonic test used by the parser must hold for exactly the documented mnemonics.")
    F = forms(W)
    E = W.engine()
    ARG = "expression::Arg"
    sp = W.sp(E)
    name = E.sym("mnemonic", W.ty("std::string::String"))
    table = {}
    for form in spec.FORMS:
        sh = tuple(SHAPE[k] for k in spec.kinds(form))
        assert (form[0], sh) not in table
        table[(form[0], sh)] = form
    shapes = []
    for n in range(4 if tier == "quick" else 5):
        shapes += list(itertools.product(("Imm", "Ex", "IM", "MacroArg"), repeat=n))
    if tier == "quick":
        shapes += [("Ex",) * 4, ("Imm", "IM", "Ex", "Ex")]
    shapes.append(None)
    et, it, st_ = W.ty("expression::Expr"), W.ty("expression::IndirectionMode"), W.ty("std::string::String")
    seen = set()
    nrow = 0
    for sh in shapes:
        ops = []
        args = []
        for k, a in enumerate(sh if sh is not None else ("Ex",) * 4):
            x = E.sym("x%d" % k, it if a == "IM" else st_ if a == "MacroArg" else et)
            ops.append(x)
            args.append(W.adt(ARG, a, sp, x) if a in ("IM",) else W.adt(ARG, a, sp, S(x)) if a == "MacroArg" else W.adt(ARG, a, x))
        els = [mk("e", a) for a in args]
        s0 = St()
        if sh is None:
            more = E.sym("more", W.ty("std::vec::Vec<expression::Arg>"))
            els.append(Q(more))
            s0.facts[("r", mk("len", more))] = iv(1, 1 << 40)
        E.nstates = 0
        rows = E.analyse(F.mk, [sp, S(name), W.sref(seq(*els))], s0)
        for p in E.panics:
            R.at(p[0])
            R.ob("panic %s" % (sh,), False, "constructing an instruction may panic: %s in %s" % (p[1], p[2]), p[2])
        covered = set()
        other = False
        for s, v in rows:
            R.at(s)
            nrow += 1
            f = sfact(s, name)
            mn = f[1] if f and f[0] else None
            desc = "%s %s" % (mn or "<other>", " ".join(sh) if sh is not None else "(5 or more operands)")
            if mn is None:
                R.ob("other mnemonic", W.variant(v) == "Err", "%s gives %s for an undocumented mnemonic: %s" % (desc, pretty(v)[:200], facts(s)), F.mk.name)
                ex = f[1] if f else frozenset()
                R.ob("documented mnemonics handled", set(spec.MNEMONICS) <= set(ex), "not handled: %s" % sorted(set(spec.MNEMONICS) - set(ex)), F.mk.name)
                other = True
                continue
            covered.add(mn)
            form = table.get((mn, sh))
            if form is None:
                R.ob("reject %s" % desc, W.variant(v) == "Err", "an undocumented operand combination gives %s" % pretty(v)[:300], F.mk.name)
                if W.variant(v) == "Err" and mn in spec.MNEMONICS:
                    e = v.a[2]
                    R.ob("reject %s: kind" % desc, W.variant(e) == "WrongInstructionArgs", "rejected as %s" % pretty(e)[:200], F.mk.name)
                    if W.variant(e) == "WrongInstructionArgs":
                        R.ob("reject %s: names it" % desc, any(x is S(mn) for x in e.a[2:]), "the error names %s" % pretty(e)[:200], F.mk.name)
                continue
            seen.add(form)
            ok = W.variant(v) == "Ok" and W.variant(v.a[2]) == "Some" and W.variant(v.a[2].a[2]) == "Instr"
            if not R.ob("accept %s" % desc, ok, "a documented form gives %s" % pretty(v)[:200], F.mk.name):
                continue
            ins = next((x for x in v.a[2].a[2].a[2:] if x.op == "adt" and W.T[x.a[0]]["name"].endswith("::Instr")), None)
            want = F.instr(form)
            if not R.ob("form %s" % desc, ins is not None and want is not None and ins.a[1] == want.a[1], "builds %s" % pretty(ins)[:200], F.mk.name):
                continue
            for k, kd in enumerate(spec.kinds(form)):
                hit = [x for x in ins.a[2:] if x is ops[k]]
                if not hit:
                    d = [x for x in ins.a[2:] if kd == "@Ri" and x.op == "adt" and W.T[x.a[0]]["name"].endswith("IndirectionMode")]
                    fd = s.facts.get(("d", ops[k]))
                    hit = [x for x in d if fd == frozenset([x.a[1]])]
                R.ob("operand %s #%d" % (desc, k), len(hit) == 1, "operand %d is not carried unchanged: %s" % (k, pretty(ins)[:200]), F.mk.name)
            R.ob("span %s" % desc, any(x is sp for x in v.a[2].a[2].a[2:]), "source position is not the instruction's", F.mk.name)
        R.at(None)
        R.ob("all mnemonics analysed %s" % (sh,), set(spec.MNEMONICS) <= covered and other, "missing %s" % sorted(set(spec.MNEMONICS) - covered))
    R.analysed(E)
    R.floor("forms", len(seen), 70)
    R.floor("paths", nrow, 85 * 46)
    ex = W.fn("waterbear::instruction::Instr::<waterbear::expression::Expr, waterbear::expression::IndirectionMode>::exists")
    n = 0
    for s, v in E.analyse(ex, [W.sref(S(name))]):
        R.at(s)
        f = sfact(s, name)
        if f and f[0]:
            n += 1
            R.ob("exists %s" % f[1], v is I(int(f[1] in spec.MNEMONICS)), "the mnemonic test answers %s for %s" % (pretty(v), f[1]), ex.name)
        else:
            R.ob("exists other", v is I(0) and f is not None and set(spec.MNEMONICS) <= set(f[1]), "the mnemonic test answers %s with %s" % (pretty(v), facts(s)), ex.name)
    R.at(None)
    R.floor("mnemonics", n, 45)




ARGT = {"i8": "Imm", "d9": "D9", "@Ri": "IM", "b3": "B3", "a12": "A12", "a16": "A16", "r8": "R8", "r16": "R16"}


def i07(W, R, tier):
    R.rule = ("The resolved instruction constructor is abstractly interpreted with an unknown mnemonic for operand-shape lists (up to 3 (thorough: 4) operands, and an unknown longer list): on every path that "
              "rejects a documented mnemonic, the error's list of allowed forms must be the documented operand kinds of that mnemonic, each form once.")
    F = forms(W)
    E = W.engine()
    ARG = "expression::Arg"
    sp = W.sp(E)
    name = E.sym("mnemonic", W.ty("std::string::String"))
    want = {}
    for form in spec.FORMS:
        want.setdefault(form[0], set()).add(tuple(ARGT[k] for k in spec.kinds(form)))
    shapes = []
    for n in range(4 if tier == "quick" else 5):
        shapes += list(itertools.product(("Imm", "Ex", "IM", "MacroArg"), repeat=n))
    shapes.append(None)
    et, it, st_ = W.ty("expression::Expr"), W.ty("expression::IndirectionMode"), W.ty("std::string::String")
    n = 0
    seen = set()
    for sh in shapes:
        args = []
        for k, a in enumerate(sh if sh is not None else ("Ex",) * 4):
            x = E.sym("x%d" % k, it if a == "IM" else st_ if a == "MacroArg" else et)
            args.append(W.adt(ARG, a, sp, x) if a in ("IM",) else W.adt(ARG, a, sp, S(x)) if a == "MacroArg" else W.adt(ARG, a, x))
        els = [mk("e", a) for a in args]
        s0 = St()
        if sh is None:
            more = E.sym("more", W.ty("std::vec::Vec<expression::Arg>"))
            els.append(Q(more))
            s0.facts[("r", mk("len", more))] = iv(1, 1 << 40)
        E.nstates = 0
        for s, v in E.analyse(F.mk, [sp, S(name), W.sref(seq(*els))], s0):
            R.at(s)
            f = sfact(s, name)
            mn = f[1] if f and f[0] else None
            if mn not in want or W.variant(v) != "Err" or W.variant(v.a[2]) != "WrongInstructionArgs":
                continue
            desc = "%s %s" % (mn, " ".join(sh) if sh is not None else "(5 or more operands)")
            lists = [x for x in v.a[2].a[2:] if x.op == "seq"]
            got = None
            if len(lists) == 1:
                got = []
                for p in lists[0].a:
                    q = p.a[0] if p.op == "e" else None
                    if q is None or q.op != "seq" or any(x.op != "e" or x.a[0].op != "adt" for x in q.a):
                        got = None
                        break
                    got.append(tuple(W.variant(x.a[0]) for x in q.a))
            if got is None:
                R.ob("forms of %s" % desc, False, "the error lists %s" % pretty(v)[:300], F.mk.name)
                continue
            n += 1
            seen.add(mn)
            w = want[mn]
            ok = set(got) == w and len(got) == len(set(got)) or w == {()} and got == []
            R.ob("forms of %s" % desc, ok, "the error lists %s, documented: %s" % (got, sorted(w)), F.mk.name)
    R.at(None)
    R.analysed(E)
    R.floor("mnemonics", len(seen), 45)
    R.floor("rejections", n, 45 * 40)
    # how each operand kind is shown in the message
    at = W.ty("ast::ArgType")
    shown = {"Imm": "#i8", **{v: k for k, v in ARGT.items() if v != "Imm"}}
    fs = [g for g in W.P.F if g.local and g.blocks is not None and g.argc == 1 and g.sname.endswith("ArgType::to_str")]
    if fs:
        for vn in sorted(shown):
            rows = E.analyse(fs[0], [W.sref(W.adt("ast::ArgType", vn))])
            for s, v in rows:
                R.at(s)
                x = M.S_of(E, s, v)
                R.ob("operand kind %s" % vn, x is not None and lit(x) == shown[vn], "operand kind %s is shown as %s, documented as %s" % (vn, pretty(v), shown[vn]), fs[0].name)
        R.at(None)
