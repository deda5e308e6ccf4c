"""The command line: exit status, what is written where, and the layout of VMI files.

Every sub-command is abstractly interpreted from run_command, with the command-line parser replaced by the parsed arguments, the
assembler, disassembler and image code replaced by "any result", and the file system by effects that may fail."""
import re
import strs
import text
import models as M
from common import parallel
from wb import *

NOISE = [r"^<?(waterbear::)?(clap|serde|serde_json|image|termcolor|atty|chrono)::", r"^waterbear::ColorWriter::", r"^waterbear::print_error$",
         r"^waterbear::img::(Image|Frame|Color)::", r"^std::slice::join$", r"^waterbear::files::SourceFiles::new$", r"ast::(Directive|Statements?) as .*Display>::fmt$"]
# the construction of the argument parser and messages on the terminal
BESIDE = [r"^<?(waterbear::)?(clap|termcolor|atty)::", r"^<?waterbear::ColorWriter\b", r"^waterbear::print_error$", r"^std::io::_e?print$"]


def out_paths(st):
    return [e for e in st.eff if e[0] in ("create", "write", "pwrite", "flush", "remove")]


class Cli:
    """run_command on one parsed command line"""

    def __init__(self, W, sub, args, flags, stubs, extra=None):
        self.W = W
        self.sub, self.args, self.flags, self.stubs = sub, args, flags, stubs
        m = {**text.text_models(), **strs.str_models(), **strs.file_models(W)}
        m.update({
            r"ArgMatches::subcommand_matches$": self.m_sub, r"ArgMatches::subcommand_name$": self.m_subname, r"ArgMatches::value_of$": self.m_value,
            r"ArgMatches::is_present$": self.m_flag, r"ArgMatches::occurrences_of$": self.m_flag, r"^std::process::exit$": self.m_exit,
        })
        for k in stubs:
            m[k] = self.m_stub
        m.update(extra or {})
        self.E_models = m
        self.E = W.engine(force_inline=[r"^<?waterbear"], models=m, opaque=NOISE)
        self.E.accepted = [re.compile(x) for x in BESIDE]

    def matches(self):
        return mk("ref", ("P", mk("sym", "matches:%s" % self.sub)), ())

    def name(self, E, st, v):
        s = M.S_of(E, st, v)
        l = None if s is None else lit(s)
        if l is None:
            raise Anchor("a command-line argument is looked up by an unknown name")
        return l

    def m_sub(self, E, st, f, vals, at, dt, fr, uid):
        n = self.name(E, st, vals[1])
        return [(st, M.some(E, dt, self.matches()) if n == self.sub else M.none(E, dt))]

    def m_subname(self, E, st, f, vals, at, dt, fr, uid):
        return [(st, M.some(E, dt, S(self.sub)) if self.sub else M.none(E, dt))]

    def m_value(self, E, st, f, vals, at, dt, fr, uid):
        v = self.args.get(self.name(E, st, vals[1]))
        return [(st, M.none(E, dt) if v is None else M.some(E, dt, v))]

    def m_flag(self, E, st, f, vals, at, dt, fr, uid):
        n = self.name(E, st, vals[1])
        return [(st, I(int(n in self.flags or n in self.args)))]

    def m_exit(self, E, st, f, vals, at, dt, fr, uid):
        st = st.copy()
        st.eff = st.eff + (("exit", vals[0]),)
        E.panic(st, "exit", fr, None)
        return []

    def m_stub(self, E, st, f, vals, at, dt, fr, uid):
        """any result of the operation: Ok(what it yields) or Err(something)"""
        n = sum(1 for e in st.eff if e[0] == "op")
        nm = f.sname.split("::")[-1]
        st = st.copy()
        st.eff = st.eff + (("op", nm, tuple(M.S_of(E, st, v) or E.snapshot(st, v) for v in vals), n),)
        t = E.T[dt]
        if t["k"] != "adt" or not t["name"].endswith("Result"):
            return [(st, E.symval(mk("opres", nm, n), dt))]
        out = []
        for tr, s in E.fork(st, mk("pred", "succeeds", nm, n)):
            if tr:
                make = self.stubs_value(nm)
                out.append((s, mk("adt", dt, self.W.P.variant(dt, "Ok"), make(E, s, t["args"][0]))))
            else:
                out.append((s, mk("adt", dt, self.W.P.variant(dt, "Err"), E.symval(mk("sym", "err:" + nm), t["args"][1]))))
        return out

    def stubs_value(self, nm):
        for k, v in self.stubs.items():
            if k.rstrip("$").endswith(nm) or nm in k:
                if v is not None:
                    return v
        return lambda E, s, ti: E.symval(mk("sym", "res:" + nm), ti)

    def run(self):
        """[(state, 'returns' | 'exit <code>' | 'panic <what>')]"""
        E = self.E
        f = self.W.fn("waterbear::run_command")
        rows = [(st, "returns") for st, v in E.analyse(f)]
        for p in E.panics:
            st = p[0]
            x = [e for e in st.eff if e[0] == "exit"]
            if p[1] == "exit" and x:
                c = x[-1][1]
                rows.append((st, "exit %s" % (c.a[0] if c.op == "i" else pretty(c))))
            else:
                rows.append((st, "panic %s in %s" % (p[1], p[2])))
        return rows


def outcome_ok(st, how):
    """True: the command reported success, False: failure, None: unknown"""
    if how == "returns" or how == "exit 0":
        return True
    if how.startswith("panic"):
        return False
    c = how[5:]
    if c.lstrip("-").isdigit():
        return int(c) % 256 == 0
    return None


def failed(E, st):
    """what went wrong on this path"""
    out = []
    for k, v in st.facts.items():
        if k[0] == "b" and isinstance(k[1], N) and k[1].op == "pred" and k[1].a[0] in ("openable", "readable", "creatable", "writable", "succeeds", "flushable"):
            if v is False:
                out.append("%s %s" % (k[1].a[0], k[1].a[1] if type(k[1].a[1]) is str else pretty(k[1].a[1])))
        if k[0] == "d" and isinstance(k[1], N) and k[1].op == "app" and "serde_json" in k[1].a[0] and set(v) == {1}:
            out.append(opname(k[1]))
    return out


IN, OUT = S(mk("sym", "input")), S(mk("sym", "output"))


def content(E, st, v):
    """written data in one canonical form: list of byte terms / opaque parts"""
    return v


def scenarios(W):
    """(name, sub-command, args, flags, operations) for every sub-command and combination of its options"""
    ops_asm = {r"^waterbear::asm::assemble_file$": None}
    out = [("assemble", "assemble", {"INPUT": IN, "OUTPUT": OUT}, (), ops_asm)]
    out.append(("expand", "expand", {"INPUT": IN}, (), {r"^waterbear::asm::expand_file$": None}))
    for ty in (None, "game", "bios", "file", "raw", "other"):
        for fl in ((), ("POSITIONS",), ("ARRIVED_FROM",), ("POSITIONS", "ARRIVED_FROM")):
            if ty not in (None, "bios") and len(fl) == 1:
                continue
            a = {"INPUT": IN, "OUTPUT": OUT}
            if ty:
                a["TYPE"] = S(ty)
            out.append(("disassemble %s %s" % (ty or "", " ".join(fl)), "disassemble", a, fl, {r"^waterbear::disasm::disassemble$": dstatements(W, 2)}))
    for sp in (None, "20"):
        for ey in (None, S(mk("sym", "eye"))):
            out.append(("icon %s %s" % (sp or "", "eyecatch" if ey else ""), "icon", {"INPUT": IN, "SPEED": S(sp) if sp else None, "EYECATCH": ey}, (), {r"^waterbear::img::to_icon$": None}))
    for fm in (None, "json", "json-pretty", "1bit-asm", "1bit-asm-masked"):
        for o in (None, OUT):
            out.append(("image %s %s" % (fm or "", "to a file" if o else ""), "image", {"INPUT": IN, "format": S(fm) if fm else None, "OUTPUT": o}, (), {r"^waterbear::img::load_image$": None}))
    for g in ((), ("game",)):
        out.append(("vmi %s" % " ".join(g), "vmi", {"INPUT": S("dir/abc.vms"), "OUTPUT": OUT}, g, {}))
    out.append(("version", "version", {}, (), {}))
    out.append(("no sub-command", None, {}, (), {}))
    return out


def dstatements(W, n):
    """the disassembler's result: n statements, unknown whether they have positions and comments"""
    def make(E, s, ti):
        return listing(W, E, [(None, None)] * n)
    return make


def listing(W, E, shape):
    """statements with or without position and comment (None: either)"""
    out = []
    def option(ty, has, v):
        ti = W.ty("std::option::Option<%s>" % ty)
        if has is None:
            return E.symval(mk("sym", "opt:%s:%d" % (ty, v.id)), ti)
        return mk("adt", ti, W.P.variant(ti, "Some"), v) if has else mk("adt", ti, W.P.variant(ti, "None"))
    for k, (p, c) in enumerate(shape):
        out.append(W.struct("disasm::DStatement", E, pos=option("usize", p, E.sym("pos%d" % k, W.ty("usize"))), statement=mk("sym", "stmt%d" % k),
                            comment=option("std::string::String", c, S(mk("sym", "cmt%d" % k)))))
    return W.struct("disasm::DStatements", E, statements=seq(*[mk("e", x) for x in out]))


def c01(W, R, tier):
    R.rule = ("waterbear::run_command is abstractly interpreted for every sub-command and combination of options, with every operation (assembling, disassembling, loading an image, opening, reading, "
              "creating and writing files) free to fail: a path on which an operation failed must not end in normal return or exit status 0, and a path on which all succeeded must.")
    n = 0
    for name, sub, args, flags, ops in scenarios(W):
        C = Cli(W, sub, args, flags, ops)
        try:
            rows = C.run()
        except (Anchor, engine.Imprecise) as e:
            R.bad("%s: outcome" % name, str(e), apx=["the command cannot be analysed: %s" % e])
            R.n += 1
            continue
        R.analysed(C.E)
        R.ob("%s: has an outcome" % name, bool(rows), "no outcome at all")
        good = 0
        for st, how in rows:
            R.at(st)
            n += 1
            R.n += 1
            bad = failed(C.E, st)
            ok = outcome_ok(st, how)
            wrong = sub is None or (sub == "disassemble" and args.get("TYPE") is not None and lit(args["TYPE"]) == "other")
            if sub == "vmi" and not bad and ok is False and short(C.E, st):
                R.ok += 1
                continue
            if ok is None:
                R.bad("%s: exit status" % name, "the exit status cannot be determined: %s" % how, apx=["exit status"])
            elif ok and (bad or wrong):
                R.bad("%s: reports success" % name, "the command ends with %s although %s; %s" % (how, "; ".join(bad) + " is false" if bad else "the command line is wrong", str(facts(st))[:500]), "run_command")
            elif not ok and not bad and not wrong:
                R.bad("%s: reports failure" % name, "the command ends with %s although nothing failed; %s" % (how, str(facts(st))[:500]), "run_command")
            else:
                R.ok += 1
                good += ok
        R.at(None)
        R.ob("%s: can succeed" % name, bool(good) or sub is None or "other" in name, "no path on which everything succeeds reports success")
    R.floor("outcomes", n, 60)


def short(E, st):
    """the input file is known to be too short on this path"""
    for k, v in st.facts.items():
        if k[0] == "r" and isinstance(k[1], N) and k[1].op == "len" and not v.empty() and v.hi() < 0x230:
            return True
    return False


def c02(W, R, tier):
    R.rule = ("waterbear::run_command is abstractly interpreted for `assemble`, `image -o` and `disassemble` with every operation free to fail: no file but OUTPUT is created or written; it is created only after the "
              "operation succeeded, and on every path that reports success exactly the operation's bytes were written to it, completely (write_all) and with failures noticed; `expand`, `icon` and `version` write no file.")
    n = 0
    for name, sub, args, flags, ops in scenarios(W):
        if sub == "vmi" or sub is None:
            continue
        C = Cli(W, sub, args, flags, ops)
        E = C.E
        try:
            rows = C.run()
        except (Anchor, engine.Imprecise) as e:
            R.n += 1
            R.bad("%s: outcome" % name, str(e), apx=["the command cannot be analysed: %s" % e])
            continue
        R.analysed(E)
        for st, how in rows:
            R.at(st)
            n += 1
            R.n += 1
            why = files_ok(C, st, how, sub, args, ops)
            if why:
                R.bad("%s: %s" % (name, why[0]), "%s; ends with %s; %s" % (why[1], how, str(facts(st))[:400]), "run_command")
            else:
                R.ok += 1
        R.at(None)
    R.floor("outcomes", n, 40)


def files_ok(C, st, how, sub, args, ops):
    E = C.E
    ev = out_paths(st)
    wr = args.get("OUTPUT")
    for e in ev:
        if e[0] == "remove":
            return "a file is removed", str(e)
        if wr is None:
            return "writes a file", "the command writes the file %s" % pretty(e[1])
        if e[1] is not wr:
            return "writes another file", "%s is written" % pretty(e[1])
    if sub in ("assemble", "disassemble", "image"):
        opn = {"assemble": "assemble_file", "disassemble": "disassemble", "image": "load_image"}[sub]
        op = [e for e in st.eff if e[0] == "op" and e[1] == opn]
        before = st.eff.index(ev[0]) if ev else None
        if ev and (not op or st.eff.index(op[0]) > before):
            return "written too early", "the output file is created before the operation is done"
        if ev and E.decide(st, mk("pred", "succeeds", opn, op[0][3])) is not True:
            return "written after failure", "the output file is created although the operation failed"
    if wr is None or outcome_ok(st, how) is not True:
        return None
    if any(e[0] == "pwrite" for e in ev):
        return "partial write", "the data is written with a call that may write only a part of it"
    if [e[0] for e in ev[:1]] != ["create"] or sum(e[0] == "create" for e in ev) != 1:
        return "not created", "the output file is not created exactly once: %s" % [e[0] for e in ev]
    w = [e for e in ev if e[0] == "write"]
    if sub == "assemble":
        want = E.symval(mk("sym", "res:assemble_file"), C.W.ty("std::vec::Vec<u8>"))
        if len(w) != 1 or E.snapshot(st, w[0][2]) is not want:
            return "wrong content", "written: %s" % [pretty(e[2])[:200] for e in w]
        if op[0][2][-1] is not IN:
            return "wrong input", "the file assembled is %s" % pretty(op[0][2][-1])[:200]
    elif sub == "image":
        if len(w) != 1:
            return "wrong content", "written: %s" % [pretty(e[2])[:200] for e in w]
        if op[0][2][0] is not IN:
            return "wrong input", "the file loaded is %s" % pretty(op[0][2][0])[:200]
        if not any(x is mk("sym", "res:load_image") for x in subterms(w[0][2])):
            return "wrong content", "what is written does not come from the image: %s" % pretty(w[0][2])[:200]
        t = pretty(w[0][2])
        fm = lit(args["format"]) if args.get("format") is not None else "1bit-asm"
        if fm.startswith("json") and ("to_string_pretty" in t) != (fm == "json-pretty"):
            return "wrong format", t[:200]
        if fm.startswith("1bit") != ("to_1bit_asm" in t):
            return "wrong format", t[:200]
    return None


# ---------------------------------------------------------------- VMI files
NAMES = [("dir/abc.vms", "abc", "abc.vms"), ("x.vms", "x", "x.vms"), ("/a/b/verylongname.vms", "verylongname", "verylongname.vms"), ("a.vms/plain", "plain", "plain"), ("a.b.vms", "a.b", "a.b.vms"),
         ("12345678.vms", "12345678", "12345678.vms"), ("123456789.vms", "123456789", "123456789.vms"), ("x.vms.vms", "x.vms", "x.vms.vms"), ("avms", "avms", "avms"), ("SAVE.VMS", "SAVE.VMS", "SAVE.VMS"), ("d/123456789abcdef", "123456789abcdef", "123456789abcdef")]


def v01(W, R, tier):
    R.rule = ("`waterbear vmi` is abstractly interpreted from run_command with an input file of unknown bytes and length, copyright notices of unknown characters, several file names, and an unknown clock: on every path "
              "that succeeds exactly one 108-byte file is written, every byte of which must be the documented one (a term over the input's bytes, its length, the notice and the clock); a file too short for the "
              "header is reported without a panic.")
    R.assume += ["chrono reports the local date and time"]
    lens = (0, 1, 5, 31, 32, 33, 60) if tier == "thorough" else (0, 5, 32, 33)
    cases = [(nm, L, g, o) for nm in NAMES[:3] for L in lens for g in (0, 1) for o in (0, 1)]
    cases += [(nm, 3, g, o) for nm in NAMES for g in (0, 1) for o in (0, 1)]
    cases += [(NAMES[0], None, g, o) for g in (0, 1) for o in (0, 1)]
    if tier == "thorough":
        cases += [(nm, L, g, o) for nm in NAMES for L in range(0, 40, 3) for g in (0, 1) for o in (0, 1)]
    cases = list(dict.fromkeys(cases))
    ok_rows = parallel(R, cases, lambda r, c: vmi_case(W, r, *c))
    R.floor("cases", len(cases), 40)
    R.floor("images_checked", ok_rows, 40)


def vmi_case(W, R, names, L, game, o):
    path, base, fname = names
    key = "vmi %s copyright of %s%s%s" % (path, "any length" if L is None else L, " --game" if game else "", " -o" if o else "")
    args = {"INPUT": S(path)}
    if o:
        args["OUTPUT"] = OUT
    C = Cli(W, "vmi", args, ("game",) if game else (), {})
    E = C.E
    cb = [E.sym("c%d" % i, W.ty("u8")) for i in range(L or 0)]
    if L is None:
        args["copyright"] = S(mk("sym", "notice"))
    elif L or o:
        args["copyright"] = S(*[mk("byte", c) for c in cb])
    try:
        rows = C.run()
    except (Anchor, engine.Imprecise) as e:
        R.n += 1
        R.bad("%s: outcome" % key, str(e), apx=["the command cannot be analysed: %s" % e])
        return 0
    R.analysed(E)
    data = strs.file_data(W, E, S(path))
    off = 0x200 if game else 0
    out = OUT if o else S((path[:-4] if path.endswith(".vms") else path) + ".vmi")
    ok_rows = 0
    for st, how in rows:
        R.at(st)
        R.n += 1
        bad = failed(E, st)
        good = outcome_ok(st, how)
        L_ = E.rng(st, E.length(data))
        if good is not True:
            if how.startswith("panic") and not bad:
                R.bad("%s: panics" % key, "%s; length of the file %s" % (how, L_), "generate_vmi")
            elif not bad and (L_.empty() or L_.hi() >= off + 0x30):
                R.bad("%s: fails" % key, "%s although the file is long enough (%s)" % (how, L_), "generate_vmi")
            else:
                R.ok += 1
            continue
        if L is None:
            q = M.s_bytes(args["copyright"])
            ln = E.length(q)
            nl = E.rng(st, ln)
            if not (nl.lo() >= 32 or nl.lo() == nl.hi()):
                # the program did not branch on the length: decided for the lengths at which its bytes are known
                v, why = any_length(E, st, ln, q, nl)
                if why:
                    R.bad("%s: copyright" % key, why, "generate_vmi", apx=None if v else list(st.apx) + ["the length of the notice is not looked at on this path"])
                else:
                    R.ok += 1
                continue
            cb = [E.elem(st, q, I(i)) for i in range(min(32, nl.lo()))]
        why = vmi_ok(W, C, st, data, off, cb, base, fname, out)
        if why:
            R.bad("%s: %s" % (key, why[0]), "%s; %s" % (why[1], str(facts(st))[:300]), "generate_vmi")
        else:
            R.ok += 1
            ok_rows += 1
    R.at(None)
    return ok_rows


def any_length(E, st, ln, q, nl):
    """(certain?, what is wrong) with the copyright field of a path that holds for several lengths of the notice"""
    ev = out_paths(st)
    v = ev[1][2] if len(ev) > 1 else None
    if v is not None and v.op == "ref":
        v = E.load(st, (v.a[0], v.a[1]))
    if v is None or E.length(v) is not I(108):
        return True, "no VMI file of 108 bytes"
    unsure = None
    for i in range(32):
        got = E.elem(st, v, I(0x24 + i))
        if got.op == "idx" and got.a[0] in subterms(q) or got.op == "idx" and got.a[0].op == "bytes":
            n = refute(st, ln, range(i + 1, 200), lambda env: engine.evalc(got.a[1], env) not in (None, i))
        elif got.op == "i":
            n = refute(st, ln, range(i + 1, 200), lambda env: True)
        else:
            n = None
        if n is not None:
            return True, "byte %d is %s, also for a notice of %d characters" % (i, pretty(got)[:120], n)
        if not (got.op == "idx" and got.a[1] is I(i) and nl.lo() > i):
            unsure = "byte %d is %s for notices of %s characters" % (i, pretty(got)[:120], nl)
    return False, unsure


def vmi_ok(W, C, st, data, off, cb, base, fname, out):
    E = C.E
    ev = out_paths(st)
    if [e[0] for e in ev] != ["create", "write"] or any(e[1] is not out for e in ev):
        return "files", "effects %s" % [(e[0], pretty(e[1])) for e in ev]
    v = ev[1][2]
    if v.op == "ref":
        v = E.load(st, (v.a[0], v.a[1]))
    n = E.length(v)
    if n.op != "i" or n.a[0] != 108:
        return "size", "the VMI file has %s bytes" % pretty(n)
    g = [E.elem(st, v, I(k)) for k in range(108)]

    def same(k, w, what):
        w = I(w) if type(w) is int else w
        if g[k] is w or bits(g[k], 8, E, st) == bits(w, 8, E, st):
            return None
        return "byte 0x%02X" % k, "%s: byte 0x%02X is %s, expected %s" % (what, k, pretty(g[k])[:160], pretty(w)[:160])
    want = []
    bb, fb = base.encode(), fname.encode()
    res = [bb[i] if i < len(bb) else 0 for i in range(8)]
    for i in range(4):
        want.append((i, res[i] & b"SEGA"[i], "checksum"))
    for i in range(32):
        want.append((4 + i, E.elem(st, data, I(off + 0x10 + i)), "description"))
        want.append((0x24 + i, cb[i] if i < len(cb) else 0, "copyright"))
    want += [(0x4C, 0, "version"), (0x4D, 0, "version"), (0x4E, 1, "file number"), (0x4F, 0, "file number")]
    for i in range(8):
        want.append((0x50 + i, res[i], "resource name"))
    for i in range(12):
        want.append((0x58 + i, fb[i] if i < len(fb) else 0, "file name"))
    want += [(0x64, 2 if off else 0, "mode"), (0x65, 0, "mode"), (0x66, 0, "unused"), (0x67, 0, "unused")]
    ln = E.length(data)
    for i in range(4):
        r = same_slice(E, st, g[0x68 + i], ln, i)
        if r:
            return "byte 0x%02X" % (0x68 + i), "size: %s" % r
    for k, w, what in want:
        r = same(k, w, what)
        if r:
            return r
    # the clock
    parts = {}
    for k in range(0x44, 0x4B):
        for x in subterms(g[k]):
            if x.op == "app":
                parts.setdefault(opname(x), x)
    y = parts.get("year")
    if y is None:
        return "year", "the year is %s, %s" % (pretty(g[0x44])[:80], pretty(g[0x45])[:80])
    for i in range(2):
        r = same_slice(E, st, g[0x44 + i], y, i)
        if r:
            return "year", r
    for k, nm in ((0x46, "month"), (0x47, "day"), (0x48, "hour"), (0x49, "minute"), (0x4A, "second")):
        a = [x for x in subterms(g[k]) if x.op == "app" and opname(x) == nm]
        if not a or bits(g[k], 8, E, st) != bits(a[0], 8, E, st):
            return nm, "the %s is %s" % (nm, pretty(g[k])[:120])
    w = g[0x4B]
    d = [(k[1], v) for k, v in st.facts.items() if k[0] == "d" and isinstance(k[1], N) and opname(k[1]) == "weekday"]
    if w.op == "i" and d and len(d[0][1]) == 1:
        if w.a[0] != (sorted(d[0][1])[0] + 1) % 7:
            return "weekday", "day %d of the week (Monday is 0) is written as %d" % (sorted(d[0][1])[0], w.a[0])
    elif not any(opname(x) == "num_days_from_sunday" for x in subterms(w) if x.op == "app"):
        return "weekday", "the weekday is %s" % pretty(w)[:120]
    return None


def same_slice(E, st, got, whole, i):
    a = bits(got, 8, E, st)
    b = bits(whole, 64, E, st)[8 * i:8 * i + 8]
    if a == b and None not in a:
        return None
    return "byte %d of %s is %s" % (i, pretty(whole)[:80], pretty(got)[:160])


# ---------------------------------------------------------------- the disassembly file
VECTORS = {0, 0x3, 0xb, 0x13, 0x1b, 0x23, 0x2b, 0x33, 0x3b, 0x43, 0x4b, 0x130}
FIRMWARE = {0x100, 0x108, 0x110, 0x120, 0x130, 0x140, 0x1f0}


def shapes(tier):
    one = [(p, c) for p in (True, False) for c in (True, False)]
    out = [[]] + [[a] for a in one] + [[a, b] for a in one for b in one]
    if tier == "thorough":
        out += [[a, b, c] for a in one for b in one for c in one]
    return out


def c03(W, R, tier):
    R.rule = ("`waterbear disassemble` is abstractly interpreted from run_command for every file type and option, with a listing of up to 2 (thorough: 3) unknown statements, each with and without a position and a comment: on every "
              "path that succeeds the writes to OUTPUT, put together, are one line per statement in listing order - the position in hexadecimal (or blanks) only with --positions, the statement's text, its comment after ` ; ` - and "
              "the disassembler was given exactly the bytes of INPUT, the --arrived-from flag and the VMU's vectors (with the firmware entry points for `bios` only).")
    n = 0
    for ty in ("game", "bios", "file", "raw", None):
        for pos in (0, 1):
            for arr in (0, 1):
                full = ty == "game" or (tier == "thorough")
                for shape in (shapes(tier) if full and arr == pos else [[(True, True), (False, False)]]):
                    n += listing_file(W, R, ty, pos, arr, shape)
    R.floor("listings", n, 40)


def listing_file(W, R, ty, pos, arr, shape):
    key = "disassemble %s%s%s, listing %s" % (ty or "", " --positions" if pos else "", " --arrived-from" if arr else "", " ".join(("p" if p else "-") + ("c" if c else "-") for p, c in shape))
    a = {"INPUT": IN, "OUTPUT": OUT}
    if ty:
        a["TYPE"] = S(ty)
    fl = (("POSITIONS",) if pos else ()) + (("ARRIVED_FROM",) if arr else ())
    C = Cli(W, "disassemble", a, fl, {r"^waterbear::disasm::disassemble$": lambda E, s, ti: listing(W, E, shape)})
    E = C.E
    try:
        rows = C.run()
    except (Anchor, engine.Imprecise) as e:
        R.n += 1
        R.bad("%s: outcome" % key, str(e), apx=["the command cannot be analysed: %s" % e])
        return 0
    R.analysed(E)
    want = []
    for k, (p, c) in enumerate(shape):
        if pos:
            want += [mk("disp", E.sym("pos%d" % k, W.ty("usize")), "X04"), "| "] if p else ["    | "]
        want.append(mk("disp", mk("sym", "stmt%d" % k), ""))
        want += [" ; ", mk("sym", "cmt%d" % k)] if c else []
        want.append("\n")
    data = strs.file_data(W, E, IN)
    good = 0
    for st, how in rows:
        if outcome_ok(st, how) is not True or failed(E, st):
            continue
        R.at(st)
        good += 1
        op = [e for e in st.eff if e[0] == "op"]
        if not R.ob("%s: disassembles once" % key, len(op) == 1, "%d calls" % len(op), "disassemble_cmd"):
            continue
        arrived, entries, bs = op[0][2]
        R.ob("%s: the arrived-from option" % key, arrived is I(arr) or pretty(arrived) == str(arr), "the disassembler is given %s" % pretty(arrived), "disassemble_cmd")
        R.ob("%s: the bytes" % key, bs is data or E.snapshot(st, bs) is data, "the disassembler is given %s" % pretty(bs)[:200], "disassemble_cmd")
        es = entry_set(entries)
        w = VECTORS | (FIRMWARE if ty == "bios" else set())
        R.ob("%s: the entry points" % key, es == w, "the entry points are %s" % ("unknown: " + pretty(entries)[:200] if es is None else sorted(map(hex, es ^ w))), "disassemble_cmd")
        got = []
        for e in out_paths(st):
            if e[0] in ("write", "pwrite"):
                x = M.S_of(E, st, e[2])
                got.append(x if x is not None else mk("sym", "unknown:" + pretty(e[2])[:80]))
        g = tidy(got)
        w = tidy([S(*want)])
        R.ob("%s: the file" % key, g == w, "written: %s; expected: %s" % (g, w), "disassemble_cmd")
    R.at(None)
    R.ob("%s: can succeed" % key, good > 0, "no path on which the listing is written", "disassemble_cmd")
    return 1


def entry_set(v):
    if v.op != "seq":
        return None
    out = set()
    for p in v.a:
        if p.op != "e" or p.a[0].op != "i":
            return None
        out.add(p.a[0].a[0])
    return out


def tidy(parts):
    return pretty(S(*[q for p in parts for q in p.a]))
