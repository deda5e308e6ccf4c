"""Source-level properties: directives, labels, names, expressions, macros, syntax."""
import itertools

import spec
from source import *

OPS = ["+", "-", "*", "/", "&", "|", "^"]


def opnd(kd, k, n):
    """source text of operand k of kind kd, with unknown payload number n"""
    v = "{%s}" % "xyzwuv"[n]
    return {"i8": "#" + v, "@Ri": "@R%d" % (k % 4)}.get(kd, v)


def form_text(form, start=0):
    out = []
    for k, kd in enumerate(spec.kinds(form)):
        out.append(opnd(kd, k + 1, start + k))
    return (form[0] + " " + ", ".join(out)).strip()


def good_text(form, rel="e"):
    """an instance of the form with concrete acceptable operands"""
    out = []
    for k, kd in enumerate(spec.kinds(form)):
        out.append({"i8": "#%d" % (k + 1), "@Ri": "@R%d" % (k % 4), "d9": "%d" % (k + 300), "b3": "%d" % (k + 2), "r8": rel, "r16": rel, "a12": rel, "a16": rel}[kd])
    return (form[0] + " " + ", ".join(out)).strip()


def judge_family(W, R, tier, schemas, floor, rule, assume=(), positions=False):
    R.rule = rule
    n = run_schemas(W, R, schemas, positions)
    R.floor("schemas", n, floor)
    R.assume += list(assume)


ABST = ("The public entry asm::assemble_file and everything it calls are abstractly interpreted on each program schema (token kinds and layout fixed, "
        "numbers and string bytes unknown), starting from the tokens of the schema; every resulting path must agree with the reference semantics of the documentation: ")
PAY = "reading and lexing of files are replaced by the schema's tokens (their properties: X01..X04, R02)"


# ---------------------------------------------------------------- D01 data directives
def d01_schemas(tier):
    deep = tier == "thorough"
    S_ = lambda t, **k: Schema(t, **k)
    out = []
    for d in (".byte", ".word"):
        for n in range(1, 5 if deep else 4):
            out.append(S_(" %s %s" % (d, ", ".join("{%s}" % c for c in "xyzw"[:n]))))
        out.append(S_(" %s {x}\n %s {y}" % (d, d)))
    items = ["{x}", "{s0}", "{s1}", "{s3}"]
    for n in (1, 2, 3):
        for c in itertools.product(items, repeat=n):
            c = [x if x != "{x}" else "{%s}" % "xyz"[k] for k, x in enumerate(c)]
            out.append(S_(" .byte " + ", ".join(c) + "\n .byte {w}"))
    for d in (".text", ".string"):
        for n in range(0, 7 if deep else 5):
            for k in range(0, 6 if deep else 4):
                out.append(S_(" %s %d {s%d}" % (d, n, k)))
                out.append(S_(" .byte {x}\n %s %d {s%d}\n .byte {y}" % (d, n, k)))
        out.append(S_(" %s 40 {s6}\n nop" % d))
    top = 10 if deep else 7
    for pos in range(0, 7 if not deep else 11):
        for m in range(0, top):
            for a in (0, 1, 3):
                pre = " .byte " + ", ".join(str(17 * i + 1) for i in range(pos)) + "\n" if pos else ""
                out.append(S_(pre + " .cnop %d, %d\n .byte {x}" % (a, m)))
    for pos in (511, 512, 513, 1):
        out.append(S_(" .org %d\n .byte {x}\n .cnop 0, $200\n .byte {y}" % (pos - 1)))
    out.append(S_(" .byte {x}\n .cnop 2, 5\n .word {y}\n .cnop 0, 5\n .byte {z}"))
    for n in (0, 1, 2, 5, 300, 0xFFFE):
        out.append(S_(" .org %d\n .byte {x}" % n))
        if n < 0xFFFE:
            out.append(S_(" .byte {x}\n .org %d\n .word {y}" % (n + 1)))
    for t in (" .cnop 2147483647, 4", " .cnop 2147483646, 2147483647", " .cnop 0, 2147483647\n nop", " .text 2147483647 {s0}\n nop", " .org 2147483647\n nop"):
        out.append(S_(" .byte {x}\n" + t))
        out.append(S_(" .byte {x}\n" + t + "\n .cnop 0, 3\n"))
    for n in (65535, 65536, 65537, 0x7FFFFFFF):
        if n > 65535:
            out.append(S_(" .org %d\n .byte {x}" % n))
    out.append(S_(" .org 4\n .byte {x}\n .org 1\n .byte {y}, {z}"))
    out.append(S_(" .org 4\n .byte {x}\n .org 1\n .text 2 {s1}\n .org 7\n .byte {y}"))
    out.append(S_(" .org 2\n .word {x}\n .org 0\n .word {y}\n .org 4\n .word {z}"))
    ds = [" .byte {%s}", " .byte {s2}, {%s}", " .word {%s}", " .text 3 {s2}", " .string 3 {s2}", " .cnop 1, 4", " mov #{%s}, {w}", " nop", " .org 12"]
    for a, b in itertools.product(ds, repeat=2):
        out.append(S_("\n".join([a.replace("%s", "x"), b.replace("%s", "y"), " .byte {z}"])))
    if deep:
        for a, b, c in itertools.product(ds, repeat=3):
            out.append(S_("\n".join([a.replace("%s", "x"), b.replace("%s", "y"), c.replace("%s", "z"), " .byte {u}"])))
    return out


def d01(W, R, tier):
    judge_family(W, R, tier, d01_schemas(tier), 380,
                 ABST + "data directives emit exactly the documented bytes (values, order, padding, alignment, position), or the documented error.", [PAY])


# ---------------------------------------------------------------- L01 label positions
def l01_schemas(tier):
    out = []
    dirs = [" .byte {x}", " .byte {x}, {s2}, {y}", " .byte {s0}", " .word {x}, {y}", " .text 4 {s1}", " .string 3 {s3}", " .cnop 3, 4", " .cnop 0, 8", " .org 9", "v = {x}", "v equ {x}",
            " m {x}", " m2", ".loc", ".loc:", "lab:", "lab: nop"]
    mac = "%macro m %a\n st %a\n nop\n%end\n%macro m2\nx%:\n br .y%\n.y%\n m x%\n%end\n"
    forms_ = [" " + form_text(f) for f in spec.FORMS]
    goods = [" " + good_text(f) for f in spec.FORMS]
    for s in dirs + goods:
        pre = mac if s.startswith(" m ") or s.startswith(" m2") else ""
        out.append(Schema(pre + " .word e, a\na:\n" + s + "\ne:\n .word a, e\n .byte {z}"))
    for s in forms_:
        out.append(Schema("a:\n" + s + "\ne:\n .word a, e"))
    for a, b in itertools.product(dirs[:13], repeat=2) if tier == "thorough" else zip(dirs[:12], dirs[1:13]):
        if a[0] == "v" and b[0] == "v":
            continue
        out.append(Schema(mac + a + "\n" + b.replace("v ", "w ") + "\ne:\n .word e"))
    # label in front of an instruction on the same line, local labels in several scopes, many labels at one place
    for t in ["l: {i}", ".l: {i}", "a:\n.l: {i}"]:
        for f in spec.FORMS:
            out.append(Schema(t.replace("{i}", good_text(f)) + "\ne:\n .word e, %s" % ("e" if t[0] == "." else t[0])))
    out.append(Schema("a:\nb:\n.x\n.y\n .word a, b, .x, .y\nc:\n.x\n .word .x, c"))
    out.append(Schema(" nop\n.x\n nop\ng:\n nop\n.x\n .word .x\nh:\n nop\n.x\n .word .x\n .word g"))
    out.append(Schema(" .word .x\n.x\ng:\n .word .x\n.x\n .byte {x}"))
    out.append(Schema(" .org 100\na:\n .org 20\nb:\n .word a, b, c\nc:\n .byte {x}"))
    return out


def l01(W, R, tier):
    judge_family(W, R, tier, l01_schemas(tier), 230,
                 ABST + "after every kind of statement, forward and backward references to a label store the location of the byte emitted next.", [PAY])


# ---------------------------------------------------------------- N01 definitions, N02 references
DEFS = {
    "label": "{n}:", "label+instr": "{n}: nop", "local": ".{n}", "local:": ".{n}:", "local+instr": ".{n}: nop", "var": "{n} = {x}", "equ": "{n} equ {y}", "macro label": " emit_{n}",
    "macro local": " emitl_{n}", "hygienic": " hyg_{n}", "hygienic local": " hygl_{n}",
}


def defs_prelude(names):
    out = ""
    for n in names:
        out += "%%macro emit_%s\n%s:\n%%end\n%%macro emitl_%s\n.%s\n%%end\n%%macro hyg_%s\n%s%%:\n nop\n%%end\n%%macro hygl_%s\n.%s%%\n nop\n%%end\n" % ((n,) * 8)
    return out


def n01_schemas(tier):
    out = []
    for (ka, a), (kb, b) in itertools.product(DEFS.items(), repeat=2):
        for m in ("n", "q"):
            for mid in ("", "g:\n"):
                t = defs_prelude(["n"] if m == "n" else ["n", "q"]) + a.replace("{n}", "n") + "\n nop\n" + mid + b.replace("{n}", m).replace("{x}", "{z}").replace("{y}", "{w}") + "\n nop"
                if m == "q" and mid:
                    continue
                out.append(Schema(t))
    # redefinition with the same value is still a redefinition; three definitions; macro twice
    out += [Schema("n = 1\nn = 1"), Schema("n equ 1\nn equ 1\n"), Schema("a:\nb:\na:"), Schema("a = 1\nb = 2\nc = 3\nb equ 2\n"), Schema("g:\n.x\n nop\n.x"), Schema("g:\n.x\nh:\n.x\ni:\n.x\nh2:\n .x"),
            Schema("g:\n.x\nh:\n.y\ng:\n"), Schema(".x\n.x"), Schema(".x\ng:\n.x\n nop"), Schema("nop1:\n nop\nnop1 = 3")]
    return out


def n01(W, R, tier):
    judge_family(W, R, tier, n01_schemas(tier), 300,
                 ABST + "every pair of definition kinds: a name defined twice in one scope is an error, different names or scopes are not.", [PAY])


def n02_schemas(tier):
    out = []
    ctx = [" .byte {}", " .word {}", " .byte 1, {}", " .word 1, {}", "v = {}\n .byte v", "v equ {}\n .word v", " .byte -{}", " .byte <{}", " .byte >{}", " .word ({})"]
    ctx += [" .word %s" % ("{} %s 2" % o) for o in OPS] + [" .word %s" % ("2 %s {}" % o) for o in OPS]
    for f in spec.FORMS:
        ks = spec.kinds(f)
        for k, kd in enumerate(ks):
            if kd == "@Ri":
                continue
            g = good_text(f, rel="0").split(" ", 1)
            ops = g[1].split(", ")
            ops[k] = "#{}" if kd == "i8" else "{}"
            ctx.append(" %s %s" % (g[0], ", ".join(ops)))
    mac = "%macro pass %a\n .x%\n bz %a\n%end\n%macro pass2 %a\n pass %a+0\n%end\n%macro use\n .u%\n bz n\n%end\n"
    mctx = [" pass {}", " pass2 {}"]
    for c in ctx + mctx:
        pre = mac if c in mctx else ""
        f = lambda n: c.replace("{}", n, 1)
        out.append(Schema(pre + f("n")))                                   # undefined
        out.append(Schema(pre + "n = {x}\n" + f("n")))                     # variable before
        out.append(Schema(pre + f("n") + "\nn equ {x}\n"))                 # variable after
        if not c.startswith("v"):
            out.append(Schema(pre + "n:\n" + f("n")))                      # label before
            out.append(Schema(pre + f("n") + "\n nop\nn:"))                # label after
            out.append(Schema(pre + f(".n") + "\n.n"))                     # local
            out.append(Schema(pre + f(".n") + "\ng:\n.n"))                 # local of another scope
            out.append(Schema(pre + "g:\n.n\nh:\n" + f(".n")))
            out.append(Schema(pre + ".n\n nop\ng:\n.n\n" + f(".n")))       # the nearest scope counts
            out.append(Schema(pre + "n:\n" + f(".n")))                     # a global is not a local
            out.append(Schema(pre + ".n\n" + f("n")))
            out.append(Schema(pre + "g:\n" + f(".n") + "\n.n"))
        out.append(Schema(pre + "n = {x}\n" + f(".n")))                    # neither is a variable
        out.append(Schema(pre + f(".n") + "\nn equ {x}\n"))
    out += [Schema("a = {x}\nb = a + 1\nc = b + a\n .word c"), Schema("a = b\nb = {x}\n .word a"), Schema("a = a\n .word a"), Schema("a = l + {x}\n nop\nl:\n .word a"),
            Schema("g:\n nop\n.l\n nop\nv = .l\n .word v"), Schema("a = {x}\n .byte A, a\n"), Schema("Ab = {x}\n .byte aB\n"), Schema("Lab:\n nop\nlAB2: .byte lab\n"),
            Schema("Lab:\n nop\n .word lab, LAB"), Schema("G:\n.L\n nop\n .word .l, g"), Schema(mac + " use\nn:\n nop"), Schema(mac + " use"), Schema(mac + " pass .q\n.q"), Schema(mac + "g:\n.q\nh:\n pass .q"),
            Schema("abc = 1\nab = 2\n .byte abc, ab"), Schema("a = 1\n.a\n nop\n.aa\n .byte a, .a, .aa"), Schema("add = {x}\n .byte 1"), Schema("n = {x}\n ld n\n st n\n mov #n, n"),
            Schema("n = {x}\ng:\n .word n\nh:\n .word n + g")]
    return out


def n02(W, R, tier):
    judge_family(W, R, tier, n02_schemas(tier), 900,
                 ABST + "every context that may mention a name: it denotes the value of its definition in the scope of the statement (labels defined anywhere, variables "
                 "by then), and an undefined name is an error.", [PAY])


# ---------------------------------------------------------------- E01 evaluation, E02 grouping, E04 overflow
UN = ["-", "<", ">"]


def e01_schemas(tier):
    out = []
    for d in (".byte", ".word"):
        out.append(Schema(" %s {x}" % d))
        for u in UN:
            out.append(Schema(" %s %s{x}" % (d, u)))
            for u2 in UN:
                out.append(Schema(" %s %s%s{x}" % (d, u, u2)))
        for o in OPS:
            out.append(Schema(" %s {x} %s {y}" % (d, o)))
            for u in UN:
                out.append(Schema(" %s %s({x} %s {y})" % (d, u, o)))
                out.append(Schema(" %s (%s{x}) %s {y}" % (d, u, o)))
                out.append(Schema(" %s {x} %s (%s{y})" % (d, o, u)))
    for o, p in itertools.product(OPS, repeat=2):
        out.append(Schema(" .word ({x} %s {y}) %s {z}" % (o, p)))
        out.append(Schema(" .word {x} %s ({y} %s {z})" % (o, p)))
    for o in OPS:
        for c in (0, 1, 2, 3, 255, 256, 0x7FFFFFFF):
            out.append(Schema(" .word {x} %s %d" % (o, c)))
            out.append(Schema(" .word %d %s {x}" % (c, o)))
            out.append(Schema(" .word {x} %s (-%d)" % (o, c)))
    for d in ("mov #{}, 5", "ld {}", "jmpf {}", "br {}", "brf {}", "clr1 9, {}", "be #{}, 4"):
        for o in OPS:
            out.append(Schema(" " + d.replace("{}", "{x} %s {y}" % o)))
        for u in UN:
            out.append(Schema(" " + d.replace("{}", u + "{x}")))
    for a in ("<", ">", "-"):
        out.append(Schema("v = %s{x}\n .word v" % a))
        out.append(Schema("v equ %s({x} + {y})\n .word v" % a))
    if tier == "thorough":
        for o, p, q in itertools.product(OPS, repeat=3):
            out.append(Schema(" .word ({x} %s {y}) %s ({z} %s {w})" % (o, p, q)))
    return out


def e01(W, R, tier):
    judge_family(W, R, tier, e01_schemas(tier), 400,
                 ABST + "every operator applied to unknown 32-bit values, and every composition of two operators, has the mathematical value, and an error is "
                 "reported exactly for division by zero and for results that do not fit 32 bits (overflow is never silent and never a panic).", [PAY])


def e02_schemas(tier):
    out = []
    V = "xyzwuv"
    def ex(ops, pre=()):
        t = ""
        for k in range(len(ops) + 1):
            t += (" %s " % ops[k - 1] if k else "") + "".join(p for j, p in pre if j == k) + "{%s}" % V[k]
        return t
    for n in (2, 3):
        for ops in itertools.product(OPS, repeat=n):
            if n == 3 and tier != "thorough" and not ({"+", "-"} & set(ops[:2]) and {"*", "&", "/"} & set(ops)):
                continue
            out.append(Schema(" .word " + ex(ops)))
    for ops in itertools.product(OPS, repeat=2):
        for k in range(3):
            out.append(Schema(" .word " + ex(ops, [(k, UN[(k + OPS.index(ops[0])) % 3])])))
    for o in OPS:
        for u in UN:
            for k in range(2):
                out.append(Schema(" .word " + ex([o], [(k, u)])))
            out.append(Schema(" .word %s({x} %s {y}) %s {z}" % (u, o, o)))
        out.append(Schema(" .word {x} %s ({y} %s ({z} %s {w}))" % (o, o, o)))
        out.append(Schema(" .word (({x} %s {y})) %s ({z})" % (o, o)))
    return out


def e02(W, R, tier):
    judge_family(W, R, tier, e02_schemas(tier), 350,
                 ABST + "unparenthesised operators group as prefix > product > sum > bitwise, equal ones to the left, and parentheses override.", [PAY])


# ---------------------------------------------------------------- M01 substitution, M02 hygiene, M03 macro errors
def m01_schemas(tier):
    out = []
    args = ["{x}", "{x}+{y}", "#{x}", "#{x}+{y}", "@R2", "lab", ".loc", "-{x}", "<{x}", "lab+{y}"]
    tail = "\nlab:\n nop\n.loc\n nop"
    head = "g:\n"
    bodies = [" ld %a", " add #%a", " add %a", " mov %a, {z}", " mov {z}, %a", " mov #{z}, %a", " ld %a+1", " ld 2*%a", " ld (%a)", " ld -%a", " ld <%a", " ld >%a", " mov #{z}+%a, %a", " clr1 %a, 3",
              " clr1 {z}, %a", " bp {z}, %a, lab", " be %a, {z}, lab", " be %a, lab", " dbnz %a, lab", " jmpf %a", " br %a", " inc %a", " push %a", " mov %a, %a"]
    for a in args:
        for b in bodies:
            if a in (".loc",) and b not in bodies[:8]:
                continue
            out.append(Schema("%%macro m %%a\n%s\n%%end\n%s m %s%s" % (b, head, a, tail)))
    for o in OPS:
        for p in OPS:
            out.append(Schema("%%macro m %%a\n ld %%a %s {z}\n%%end\n m {x} %s {y}" % (o, p)))
            out.append(Schema("%%macro m %%a\n ld {z} %s %%a\n%%end\n m {x} %s {y}" % (o, p)))
    # several parameters, in order; repeated use; parameter names that are prefixes of each other
    names = ["%a", "%b", "%c", "%aa"]
    for n in (2, 3, 4):
        for perm in itertools.permutations(range(n)):
            out.append(Schema("%%macro m %s\n%s\n%%end\n m %s" % (", ".join(names[:n]), "\n".join(" push %s" % names[i] for i in perm), ", ".join("{%s}" % "xyzw"[i] for i in range(n)))))
    # overloads by arity, two calls, definition after use, nested calls
    ov = "%macro m\n nop\n%end\n%macro m %a\n push %a\n%end\n%macro m %a, %b\n pop %b\n ld %a\n%end\n"
    for seq_ in itertools.product([" m", " m {x}", " m {y}, {z}"], repeat=2):
        out.append(Schema(ov + "\n".join(seq_)))
        out.append(Schema("\n".join(seq_) + "\n" + ov))
    inner = "%macro in %p, %q\n mov %p, %q\n st %q\n%end\n"
    for c in (" in #%a, %b", " in #%b, %a", " in #%a+1, %b*2", " in #{z}, %a", " in #%a, @R1", " in %a, %b"):
        for call in (" out {x}, {y}", " out #{x}, {y}", " out {x}+1, {y}", " out @R0, {x}"):
            out.append(Schema(inner + "%%macro out %%a, %%b\n%s\n%%end\n%s" % (c, call)))
            out.append(Schema("%%macro out %%a, %%b\n%s\n%%end\n%s%s" % (c, inner, call)))
    same = "%macro in %a, %b\n push %a\n pop %b\n%end\n%macro out %b, %a\n in %b, %a\n%end\n out {x}, {y}"
    out.append(Schema(same))
    out.append(Schema("%macro in %a\n push %a\n%end\n%macro out %a\n in {z}\n push %a\n%end\n out {x}"))
    out.append(Schema("%macro in %b\n push %b\n%end\n%macro out %a, %b\n in %a\n push %b\n%end\n out {x}, {y}"))
    out.append(Schema("%macro k %a\n push %a\n%end\n%macro j %b\n k %b + 1\n k %b * 2\n%end\n%macro i %c\n j %c\n j {y}\n%end\n i {x}"))
    out.append(Schema("%macro m %a\nl: ld %a\n%end\n m l"))
    out.append(Schema("%macro m %a\n%end\n m {x}\n m undefd\n nop"))
    out.append(Schema("%macro m %a, %b\n push %a\n%end\n m {x}, {y}\n m {z}, undefd"))
    out.append(Schema("lab: m {x}\n%macro m %a\n push %a\n%end\n .word lab"))
    out.append(Schema("%macro M %Arg\n push %arg\n%end\n m {x}\n"))
    out.append(Schema("%macro m %a\n push %a\n%end\na = {x}\n m a\n push a"))
    return out


def m01(W, R, tier):
    judge_family(W, R, tier, m01_schemas(tier), 350,
                 ABST + "a macro invocation assembles as its body with every parameter standing for the whole argument (immediate, expression or indirection mode).", [PAY])


def m02_schemas(tier):
    out = []
    b1 = ["x%:\n nop\n bz x%", ".x%\n nop\n bz .x%", ".x%:\n nop\n bz .x%", " br .x%\n nop\n.x%", " jmpf x%\nx%:", "x%: nop\n.y%\n bz x%\n bnz .y%"]
    b2 = b1 + ["x:\n nop\n jmpf x", ".x\n nop\n bz .x", " nop"]
    for a, b in itertools.product(b1, b2):
        pre = "%%macro m\n%s\n%%end\n%%macro k\n%s\n%%end\n" % (a, b)
        out.append(Schema(pre + " m\n k\n"))
        out.append(Schema(pre + " m\n m\n k"))
        out.append(Schema(pre + "g:\n m\n.x\n k\n nop\nx2:\n bz x2"))
    for a in b1:
        pre = "%%macro m\n%s\n%%end\n" % a
        out += [Schema(pre + " m\n m\n m\n"), Schema(pre + "x:\n m\n bz x\n m\n"), Schema(pre + ".x\n m\n nop"), Schema(pre + "g:\n m\n.x\n nop\n m\n.y\n bz .y"),
                Schema(pre + " m\n bz x%"), Schema(pre + " m\n bz x"), Schema(pre + " m\n bz .x"),
                Schema(pre + "%macro o\nx%:\n m\n m\n bz x%\n%end\n o\n o\n"), Schema(pre + "%macro o\n.x%\n m\n nop\n%end\n o\n")]
    # labels handed to nested macros; arguments named like labels
    out += [Schema("%macro in %t\n.x%\n bz %t\n bnz .x%\n%end\n%macro o\n.x%\n nop\n in .x%\n in .x%\n%end\n o\n o"),
            Schema("%macro in %t\nx%:\n jmpf %t\n jmpf x%\n%end\n%macro o\nx%:\n in x%\n%end\n o"),
            Schema("%macro in %t\nx%:\n jmpf %t + 1\n%end\n%macro o\nx%:\n in x% + 2\n%end\n o"),
            Schema("%macro m\nx%:\nxy%:\n nop\n.x%\n jmpf x%\n jmpf xy%\n bz .x%\n%end\n m\n m"),
            Schema("%macro m %x\nx%:\n jmpf %x\n jmpf x%\n%end\nx:\n m x"),
            Schema("%macro m\n x%: nop\n x%: nop\n%end\n m"), Schema("%macro m\n.x%\n.x%:\n%end\n m"), Schema("%macro m\n.x%\nx%:\n%end\n m"),
            Schema("%macro m\nx%:\n.x%\n nop\ny%:\n.x\n bz .x\n%end\n m\n m"),
            Schema("%macro m\n bz x%\n%end\n m"), Schema("%macro m\nx%:\n%end\n%macro k\n bz x%\n%end\n m\n k"),
            Schema("%macro o\nx%:\n k\n%end\n%macro k\n bz x%\n%end\n o"),
            Schema("%macro m\nx%:\n%end\n m\nx_1:\n nop")]
    return out


def m02(W, R, tier):
    judge_family(W, R, tier, m02_schemas(tier), 190,
                 ABST + "a hygienic label denotes its own position in each expansion, never clashes with another expansion or the program, and is unknown elsewhere.", [PAY])


def m03_schemas(tier):
    out = []
    d = "%macro m %a\n push %a\n%end\n"
    for call in (" m", " m {x}, {y}", " m {x}, {y}, {z}", " n", " n {x}", " m {x}", "l: m", "l: n {x}"):
        out.append(Schema(d + call))
        out.append(Schema(d + "%macro o\n" + call.replace("l:", "l%:") + "\n%end\n o"))
        out.append(Schema(d + "%macro o\n" + call + "\n%end\n nop"))
        out.append(Schema(call + "\n" + d))
    for n in sorted(spec.MNEMONICS):
        out.append(Schema("%%macro %s\n%%end" % n))
        out.append(Schema("%%macro %sx\n nop\n%%end\n %sx" % (n, n)))
    for h in ("%a, %a", "%a, %b, %a", "%a, %b, %b", "1", "%a, 1", "#%a", "#1", "@R1", "%a, @R1", "foo", "%a, foo", "%a+1", "-%a", "x%", "%a %b", "%a,", ",", "%a, %b,", "\"s\""):
        out.append(Schema("%%macro m %s\n nop\n%%end" % h))
    for h in ("", " 1", " %a", " \"s\"", " ,", " ="):
        out.append(Schema("%%macro%s\n nop\n%%end" % h))
    ar = ["", " %a", " %a, %b"]
    for a, b in itertools.product(ar, repeat=2):
        out.append(Schema("%%macro m%s\n nop\n%%end\n%%macro m%s\n ret\n%%end\n m" % (a, b)))
        out.append(Schema("%%macro m%s\n nop\n%%end\n%%macro n%s\n ret\n%%end\n nop" % (a, b)))
    out.append(Schema("%macro m %a\n%end\n%macro m %b\n%end"))
    # body
    for b in (" ld %b", " ld %b+1", " ld #%b", " m2 %b", " m2 %b+1"):
        out.append(Schema("%%macro m2 %%a\n push %%a\n%%end\n%%macro m %%a\n%s\n%%end\n m {x}" % b))
    for b in (" ld %a+1", " ld -%a", " ld (%a)", " ld #%a", " add #%a", " add %a", " mov #1+%a, 4", " bz %a", " br 1+%a"):
        for arg in ("#{x}", "@R1", "{x}", "%q", "%q+1", "q%", "q%+1", "#%q", "#q%"):
            out.append(Schema("%%macro m %%a\n%s\n%%end\n m %s" % (b, arg)))
            out.append(Schema("%%macro i %%a\n%s\n%%end\n%%macro m %%a\n i %%a\n%%end\n m %s" % (b, arg)))
    for s in (" ld {}", " ld {}+1", " add #{}", " mov #1, {}", " bp 1, {}, 0", " .byte {}", " .word 1, {}", "v = {}", "v equ {}+1", " .cnop {}, 2"):
        for q in ("%q", "q%", ".q%"):
            out.append(Schema(s.replace("{}", q)))
    # missing and stray %end, nested definitions, bodies with wrong statements
    for t in ("%macro m\n", "%macro m\n nop\n", "%macro m\n nop\n%macro n\n%end", "%macro m\n%macro n\n%end\n%end", "%end", " nop\n%end\n", "%macro m\n nop\n%end\n%end", "%macro m\n.byte 1\n%end", "%macro m\nv = 1\n%end",
              "%macro m\n.org 1\n%end", "%macro m\n nop nop\n%end", "%macro m\n ld 1 2\n%end", "%macro m\nl: nop nop\n%end", "%macro m\n 1\n%end", "%macro m\n ld 1,\n%end", "%macro m\n ld (1\n%end",
              "%macro m\n nop\n%end 1", "%macro m\n nop\n%end nop", "%macro m\nl:\n.l\n%end\n m", "%macro m\n ld\n%end", "%macro m\n ld\n%end\n m", "%macro m\n mov 1, 2\n%end\n m", "%macro m\n nop 1\n%end\n m", "%foo", "%foo 1", "%macro m %a\n%a:\n%end\n m 1", "%macro m\nx% nop\n%end\n m"):
        out.append(Schema(t))
    return out


def m03(W, R, tier):
    judge_family(W, R, tier, m03_schemas(tier), 380,
                 ABST + "ill-formed macro definitions and invocations are rejected with an error of the documented kind; well-formed ones are not.", [PAY])


# ---------------------------------------------------------------- P01 whole statements
EXTRA = ["1", "foo", "nop", "\"s\"", ",", "(", ")", "#", ":", "=", "%q", "q%", "@R1", ".x", ".byte 1", "+", "::", "%end", "equ"]


def statements():
    out = [("label", "l:"), ("local", ".l"), ("local:", ".l:"), ("var", "v = 1"), ("equ", "v equ 1"), ("byte", " .byte 1"), ("bytestr", " .byte \"ab\""), ("word", " .word 1"), ("text", " .text 3 \"ab\""),
           ("string", " .string 3 \"ab\""), ("org", " .org 3"), ("cnop", " .cnop 0, 2"), ("include", " .include \"i.s\""), ("include asm", " .include asm \"i.s\""), ("call0", " m"), ("call1", " m 1"), ("lab+i", "l: nop"), ("lab+call", "l: m 1")]
    for f in spec.FORMS:
        out.append((spec.fname(f), " " + good_text(f, rel="4")))
    return out


def joins(text, extra):
    """the extra tokens continue the statement legally"""
    return False


def p01_schemas(tier):
    out = []
    pre = "%macro m\n%end\n%macro m %a\n push %a\n%end\n"
    inc = {"i.s": " nop"}
    for n, s in statements():
        p = pre if "m" in s.split() else ""
        i = inc if ".include" in s else {}
        isform = n in FNAMES
        ex = EXTRA if (not isform or tier == "thorough") else [EXTRA[hash_(n + str(k)) % len(EXTRA)] for k in range(6)]
        for e in ex:
            out.append(Schema(p + " nop\n" + s + " " + e + "\n nop", includes=i))
            out.append(Schema(p + " nop\n" + s + " " + e, includes=i))
            if s.startswith(" ") and not s.startswith(" ."):
                out.append(Schema(p + "%macro big\n" + s + " " + e + "\n%end\n big\n"))
        out.append(Schema(p + " nop\n" + s + "\n nop", includes=i))
        out.append(Schema(p + s, includes=i))
        # truncated statements
        toks = s.replace(",", " ,").split()
        for k in range(1, len(toks)):
            out.append(Schema(p + " nop\n " + " ".join(toks[:k]) + "\n nop", includes=i))
    for e in EXTRA:
        out.append(Schema(" nop\n " + e + "\n nop"))
        out.append(Schema("%macro m\n nop\n%end " + e + "\n m"))
        out.append(Schema("%macro m %a " + e + "\n nop\n%end\n m 1"))
        out.append(Schema("%macro m\n " + e + "\n%end\n nop"))
    for s in ("l: .byte 1", "l: l2:", "l: l2: nop", ".l .m", "l: v = 1", ".l nop", "l nop", "v = ", "v equ", "= 1", "equ 1", ".v = 1", ".byte = 1", "nop = 1", "nop:", "v == 1", "v = 1 = 2", " nop: nop", "v equ equ", "equ equ 1"):
        if s in (".v = 1", ".byte = 1", "nop = 1", "nop:", " nop: nop", "v equ equ", "equ equ 1", ".l nop", ".l .m", "l nop"):
            continue
        out.append(Schema(s))
        out.append(Schema(" nop\n" + s + "\n nop"))
    # lines are separate: nothing of one line continues on the next
    for a, b in ((" nop", " nop"), (" ld", " 1"), (" .byte 1,", " 2"), (" .byte", " 1"), ("v =", " 1"), (" mov #1,", " 2"), (" .text 3", " \"ab\""), ("l", ":"), (" .byte 1", "+ 1"), (" .byte 1", ", 2"), (" .byte (1", ")")):
        out.append(Schema(a + "\n" + b))
        out.append(Schema(" nop\n" + a + "\n\n" + b + "\n"))
    out.append(Schema(""))
    out.append(Schema("\n\n"))
    return out


def hash_(s):
    h = 0
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h


FNAMES = {spec.fname(f) for f in spec.FORMS}


def p01(W, R, tier):
    judge_family(W, R, tier, p01_schemas(tier), 1500,
                 ABST + "every kind of statement followed by every kind of extra token, or cut short, is rejected; nothing in a program is ignored.", [PAY])


# ---------------------------------------------------------------- Q01 error positions
def q01_schemas(tier):
    out = []
    pad = [" nop\n\n .byte 1\n", "l0:\n nop ; c\n"]
    bad = [(" .byte 300", ""), (" .word {x}", ""), (" .byte 1, {x}", ""), (" .text 2 \"abc\"", ""), (" .string 1 {s3}", ""), (" .org 65536", ""), (" .cnop {x}+1, 2", ""), (" .cnop n, 2", "n = 1\n"), (" .cnop 2, n", "n = 1\n"),
           (" .byte und", ""), (" .word 1, -und", ""), (" ld und", ""), (" br und", ""), ("v = und", ""), ("v equ 1 + und", ""), (" .byte .und", "g:\n"), (" bp 1, 2, .und", ""), (" .byte {x} / {y}", ""), (" .byte 2147483647 + {x}", ""),
           (" ld {x}", ""), (" mov #{x}, 3", ""), (" mov #3, {x}", ""), (" clr1 3, {x}", ""), (" br {x}", ""), (" brf {x}", ""), (" bp 3, 2, {x}", ""), (" jmp {x}", ""), (" jmpf {x}", ""), (" call {x}", ""), (" be @R1, #{x}, e", "e:\n"),
           ("d:", "d:\n nop\n"), ("d = 1", "d:\n nop\n"), ("d equ 1", "d = 2\n"), (".d", "g:\n.d\n"), (" foo", ""), (" foo 1, 2", ""), (" m", "%macro m %a\n nop\n%end\n"), (" m 1, 2", "%macro m %a\n nop\n%end\n"), (" m {x}", "%macro m %a\n\n ld %a\n%end\n"),
           (" m #1", "%macro m %a\n ld %a+1\n%end\n"), (" m 1", "%macro m %a\n ld %b\n%end\n"), (" m und", "%macro m %a\n ld %a+1\n%end\n"), (" o 1", "%macro m %a\n ld {x}\n%end\n%macro o %b\n nop\n m %b\n%end\n"), (" m", "%macro m\nz:\n%end\n m\n"),
           (" m", "%macro m\nz%:\nz%:\n%end\n"), (" m", "%macro m\n br q%\n%end\n"), (" m", "%macro m\n nop\n add #1, #2\n%end\n"), (" o", "%macro m\n nop 1\n%end\n%macro o\n nop\n m\n%end\n"), (" o 1", "%macro m %a\n mov #1, 600\n%end\n%macro o %b\n nop\n m %b\n%end\n"),
           (" o", "%macro o\n nop\n\n bar\n%end\n"), (" o 1", "%macro o %a\n nop\n ld und\n ld %a\n%end\n"), (" o 1", "%macro o %a\n nop\n bar 2\n ld %a\n%end\n"), (" .byte q%", ""), (" .byte %q", ""), (" ld %q", ""), ("%macro m %a, %a\n%end", ""), ("%macro m\n%end", "%macro m\n%end\n"), ("%macro nop\n%end", ""), ("%macro m 1\n%end", ""),
           (" nop 1", ""), (" ld", ""), (" ld #1", ""), (" mov 1, 2", ""), (" .byte", ""), (" .word", ""), (" .byte 1,", ""), (" .byte 1 2", ""), (" .text 1", ""), (" .text \"a\"", ""), (" .org", ""), (" .org n", ""), (" .cnop 1", ""), (" ( 1", ""), (" ld (1", ""), (" ld 1 +", ""),
           (" .foo 1", ""), (" .include", ""), (" .include foo", ""), (" 1", ""), (" l l:", ""), ("l: 1", ""), (" = 1", ""), ("v =", ""), ("v equ", ""), (" .byte (1", ""), (" nop nop", ""), ("l: nop nop", ""), (" mov #1 2", ""), (" st @R0 1", ""), ("%end", "")]
    for b, p in bad:
        for pre in pad:
            if "=" in b and pre is pad[0] and tier != "thorough":
                continue
            for post in ("\n nop\n nop", ""):
                out.append(Schema(pre + p + b + post))
        out.append(Schema(" nop\n .include \"i.s\"\n nop", includes={"i.s": " nop\n" + p + b + "\n nop"}))
        out.append(Schema(" .include \"i.s\"\n .include \"j.s\"\n nop", includes={"i.s": " nop\n nop\n nop\n nop", "j.s": p + b}))
        out.append(Schema(p + " .include asm \"i.s\"\n" + b + "\n nop", includes={"i.s": " nop\n nop"}))
    return out


def q01(W, R, tier):
    judge_family(W, R, tier, q01_schemas(tier), 350,
                 ABST + "the file and line an error names are those of the construct it is about, also in included files and macros.", [PAY], positions=True)


# ---------------------------------------------------------------- R02 include files, H01 C headers
def r02_schemas(tier):
    out = []
    I = lambda t, inc, paths, data=None: out.append(Schema(t, includes=inc, data=data, paths={(None, "main.s")} | set(paths)))
    M = "main.s"
    for kw in ("", "asm "):
        inc = ' .include %s"i.s"' % kw
        for body in ("", " nop", " .byte {x}\n", "\n\n .word {x}\n\n", "l:\n", ".l", "a = {x}", "%macro m\n nop\n%end", " nop ; c\n ret"):
            for pre in ("", " .byte 1\n"):
                for post in ("", "\n", "\n .byte 2", "\n\n ret\n"):
                    I(pre + inc + post, {"i.s": body}, [(M, "i.s")])
        # the same file twice, two files, nested files
        I(inc + "\n" + inc, {"i.s": " .byte {x}"}, [(M, "i.s")])
        I(inc + "\n nop\n" + inc, {"i.s": " .byte {x}\n.l\n nop"}, [(M, "i.s")])
        I("g:\n" + inc + "\nh:\n" + inc, {"i.s": " .byte {x}\n.l\n .word .l"}, [(M, "i.s")])
        I(inc + "\n .include %s\"j.s\"" % kw, {"i.s": " .byte {x}", "j.s": " .byte {y}"}, [(M, "i.s"), (M, "j.s")])
        I(" nop\n" + inc + "\n ret", {"i.s": " .byte {x}\n .include %s\"j.s\"\n .byte {z}" % kw, "j.s": " .byte {y}"}, [(M, "i.s"), ("i.s", "j.s")])
        I(inc, {"i.s": " .include \"j.s\"\n .include asm \"k.s\"", "j.s": " .byte {y}", "k.s": " .byte {x}\n .include \"l.s\"", "l.s": " .word e\ne:"}, [(M, "i.s"), ("i.s", "j.s"), ("i.s", "k.s"), ("k.s", "l.s")])
        I(inc + "\n .include \"j.s\"", {"i.s": " .include \"j.s\"\n nop", "j.s": " .byte {y}"}, [(M, "i.s"), ("i.s", "j.s"), (M, "j.s")])
        # definitions and uses across files
        I(" .word v, l, {z}\n" + inc, {"i.s": "v = {x}\nl:\n .word v"}, [(M, "i.s")])
        I("v = {x}\n" + inc + "\n m v", {"i.s": "%macro m %a\n mov #%a, 3\n%end\n .byte v"}, [(M, "i.s")])
        I(inc + "\n m {x}", {"i.s": "%macro m %a\n ld %a"}, [(M, "i.s")])
        I("%macro m %a\n ld %a\n" + inc + "\n m {x}", {"i.s": "%end"}, [(M, "i.s")])
        I("g:\n.l\n" + inc + "\n br .l", {"i.s": " br .l\n nop"}, [(M, "i.s")])
        I(inc + "\nl:", {"i.s": "l:\n nop"}, [(M, "i.s")])
        I(" .org 100\n" + inc + "\nl:\n .word l", {"i.s": " .org 50\n .byte {x}"}, [(M, "i.s")])
        for extra in EXTRA:
            I(inc + " " + extra, {"i.s": " nop"}, [(M, "i.s")])
        I("l: " + inc, {"i.s": " nop"}, [])
    # binary data
    for n in (0, 1, 2, 5):
        for pre in ("", " nop\n", "l:\n"):
            for post in ("", "\ne:\n .word e", "\n .byte {x}"):
                I(pre + ' .include bytes "f.bin"' + post, {}, [(M, "f.bin")], {"f.bin": n})
    I(' .include "i.s"\n .include bytes "f.bin"\n nop', {"i.s": ' .include bytes "g.bin"\n .byte {x}'}, [(M, "i.s"), ("i.s", "g.bin"), (M, "f.bin")], {"f.bin": 2, "g.bin": 3})
    I(' .include "i.s"', {"i.s": ' .include "j.s"\n .include bytes "g.bin"', "j.s": ' .include bytes "f.bin"\n .byte {x}\ne:\n .word e'}, [(M, "i.s"), ("i.s", "j.s"), ("i.s", "g.bin"), ("j.s", "f.bin")], {"f.bin": 2, "g.bin": 3})
    I(' .include bytes "f.bin"\n nop\n .include bytes "f.bin"', {}, [(M, "f.bin")], {"f.bin": 2})
    for extra in EXTRA:
        I(' .include bytes "f.bin" ' + extra, {}, [(M, "f.bin")], {"f.bin": 2})
    return out


def r02(W, R, tier):
    judge_family(W, R, tier, r02_schemas(tier), 200,
                 ABST + "an included source file behaves as if its lines stood in place of the directive, an included binary file as its bytes, and every path is resolved "
                 "against the file that contains the directive.", ["reading and lexing of files are replaced by the schema's tokens and unknown bytes"])


def ch01_schemas(tier):
    out = []
    M = "main.s"
    I = lambda t, inc: out.append(Schema(t, includes=inc, paths={(None, M), (M, "h.h")}))
    inc = ' .include cpp "h.h"\n'
    exprs = ["{x}", "-{x}", "({x})", "{x} + {y}", "({x} + {y}) * {z}", "{x} * {y} + {z}", "<{x}", "b", "b + {x}", "$ff", "%101", "(b)", "{x} - {y} - {z}", "((-{x}))"]
    for e in exprs:
        d = "#define a " + e
        I("b = 5\n" + inc + " .word a", {"h.h": d})
        I(" .word a\nb equ 5\n" + inc, {"h.h": d + "\n"})
        I("b = 5\n" + inc + " .byte 1\n mov #a, 3\n .word 3*a", {"h.h": "\n" + d + "\n\n"})
        I(inc + " .word a, b", {"h.h": "#define b {w}\n" + d})
        I(inc + " .word a, c", {"h.h": "#define b 2\n" + d + "\n#define c a + b"})
    for bad in ("#define a", "#define", "#define a 1 2", "#define 1 2", "#define a \"s\"", "#define a (1", "#define a 1 +", "#define a = 1", "#define a 1)", "#define a #1", "#define a %q", "#define a(x) x", "#undef a", "#", "# 1", "#include \"b.h\"", "define a 1", "#define a a", "#define a und",
                "#define a 1\n#define a 2", "#define a 1, 2", "#define a: 1", "#define a 1\n#", "#define a @R1",
                # the line starts with something else
                ", define a 1", "x define a 1", "3 define a 1", "( define a 1", "\"s\" define a 1", "%q define a 1", "@R1 define a 1", "define define a 1", "## define a 1", "# #define a 1", "= define a 1",
                "x #define a 1", "x: #define a 1", "# defined a 1", "# a define 1", "#a define 1", "{x} define a 1"):
        I(inc + " .byte 1", {"h.h": bad})
        I(" .byte 1\n" + inc + " .byte 2", {"h.h": "#define ok 1\n" + bad + "\n#define ok2 2"})
    for extra in EXTRA:
        out.append(Schema(' .include cpp "h.h" ' + extra + "\n .byte ok", includes={"h.h": "#define ok 1"}))
    out.append(Schema("a:\n" + inc, includes={"h.h": "#define a 1"}))
    out.append(Schema("a = 2\n" + inc, includes={"h.h": "#define a 1"}))
    out.append(Schema(inc + inc, includes={"h.h": "#define a 1"}))
    out.append(Schema(inc + "\n .include cpp \"g.h\"\n .word a, b", includes={"h.h": "#define a {x}", "g.h": "#define b a*2"}))
    out.append(Schema(" .include \"i.s\"\n .word a", includes={"i.s": " nop\n .include cpp \"h.h\"", "h.h": "#define a {x}"}, paths={(None, M), (M, "i.s"), ("i.s", "h.h")}))
    out.append(Schema("#define a 1\n .byte a"))
    out.append(Schema(' .include "h.h"\n .byte a', includes={"h.h": "#define a 1"}))
    return out


def ch01(W, R, tier):
    judge_family(W, R, tier, ch01_schemas(tier), 120,
                 ABST + "#define NAME expression in an included C header is exactly the alias NAME equ expression, and anything else is rejected.", [PAY])


# ---------------------------------------------------------------- R01 no endless expansion
def r01_schemas(tier):
    out = []
    M = "main.s"
    pre = ["", " nop\n", "l: nop\n .byte {x}\n"]
    for p in pre:
        for kw in ("", "asm "):
            inc = lambda n: ' .include %s"%s"' % (kw, n)
            out.append(Schema(p + inc("i.s") + "\n ret", includes={"i.s": p.replace("l:", "") + inc("i.s")}))
            out.append(Schema(p + inc("i.s"), includes={"i.s": " nop\n" + inc("j.s"), "j.s": inc("i.s") + "\n nop"}))
            out.append(Schema(p + inc("i.s"), includes={"i.s": inc("j.s"), "j.s": inc("k.s"), "k.s": " nop\n nop\n" + inc("i.s")}))
            out.append(Schema(p + inc("i.s"), includes={"i.s": inc("j.s"), "j.s": inc("j.s")}))
            out.append(Schema(p + inc("i.s") + "\n nop\n" + inc("j.s"), includes={"i.s": " nop", "j.s": inc("i.s") + "\n" + inc("k.s"), "k.s": inc("j.s")}))
            # repetition without a cycle
            out.append(Schema(p + inc("i.s") + "\n" + inc("j.s") + "\n" + inc("i.s"), includes={"i.s": inc("j.s") + "\n nop", "j.s": " .byte {x}"}))
            out.append(Schema(p + inc("i.s") + "\n" + inc("i.s") + "\n" + inc("i.s"), includes={"i.s": inc("j.s") + "\n" + inc("j.s"), "j.s": " .byte {y}"}))
            out.append(Schema(p + inc("i.s"), includes={"i.s": inc("j.s") + "\n" + inc("k.s"), "j.s": inc("k.s"), "k.s": inc("l.s"), "l.s": " .byte {z}"}))
        for a, b, c in (("", "", ""), (" %a", " 1", " %a"), (" %a", " {x}", " %a+1"), (" %a, %b", " 1, 2", " %b, %a"), (" %a", " #1", " #2")):
            d = lambda n, h, *body: "%macro " + n + h + "\n" + "".join(" " + x + "\n" for x in body) + "%end\n"
            out.append(Schema(d("m", a, "m" + c) + p + " m" + b))
            out.append(Schema(p + " m" + b + "\n" + d("m", a, "nop", "nop", "m" + c, "ret")))
            out.append(Schema(d("m", a, "n" + c) + d("n", a, "nop", "m" + c) + p + " m" + b))
            out.append(Schema(d("m", a, "n" + c) + d("n", a, "o" + c) + d("o", a, "n" + c) + p + " m" + b))
            out.append(Schema(d("m", a, "n" + c) + d("n", a, "o" + c) + d("o", a, "m" + c) + p + " o" + b))
            # defined but unused, or the same macro twice side by side
            out.append(Schema(d("m", a, "m" + c) + p + " nop"))
            out.append(Schema(d("m", a, "nop") + d("n", a, "m" + c, "m" + c) + d("o", a, "n" + c, "m" + c, "n" + c) + p + " o" + b + "\n m" + b + "\n o" + b))
        # macros told apart by the number of arguments
        out.append(Schema("%macro m\n m 1\n%end\n%macro m %a\n m %a, {x}\n%end\n%macro m %a, %b\n .l%:\n ld %b\n%end\n" + p + " m"))
        out.append(Schema("%macro m\n m 1\n%end\n%macro m %a\n m\n%end\n" + p + " m"))
        out.append(Schema("%macro m\n m 1\n%end\n%macro m %a\n m\n%end\n" + p + " m 3"))
        out.append(Schema("%macro m\n m 1\n%end\n%macro m %a\n n\n n\n%end\n%macro n\n nop\n%end\n" + p + " m\n m 3\n n\n m"))
    return out


def r01(W, R, tier):
    judge_family(W, R, tier, r01_schemas(tier), 90,
                 ABST + "an include or macro chain that returns to a file or macro it is inside of is reported at the closing directive or call, and every other chain is followed.",
                 ["canonicalize gives the template's file name"], positions=True)
