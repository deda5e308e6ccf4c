"""S01: what is printed assembles to the same image."""
import itertools

import spec
from printed import *
from checks import source

BR = ["  br {w}", ""]
NUMS = ["{dx}", "{hx}", "{bx}", "{ox}"]


def s01_schemas(tier):
    deep = tier == "thorough"
    S_ = Schema
    out = []
    # number literals of every base and size, in every place a number can stand
    for n in NUMS:
        for t in (" .byte %s", " .word %s, {x}", "v = %s\n .word v", "v equ %s\n .word v", " mov #%s, {x}", " ld %s", " clr1 {x}, %s", " jmpf %s", " .word (%s + {x}) * 2, -%s", " .byte <%s, >%s"):
            out.append(S_(t.replace("%s", n)))
    for n in ("0", "7", "8", "255", "256", "$0", "$7f", "$100", "$ffff", "$12345", "%0", "%101", "%11111111", "%100000000"):
        out.append(S_(" .word %s, %s + {x}, -%s\nv = %s" % (n, n, n, n)))
    # expressions: all pairs and triples of operators in all groupings
    ops = ["+", "-", "*", "/", "&", "|", "^"]
    for a, b in itertools.product(ops, repeat=2):
        out.append(S_(" .word {x} %s {y} %s {z}, ({x} %s {y}) %s {z}, {x} %s ({y} %s {z})" % (a, b, a, b, a, b)))
    for a in ops:
        for p, q in itertools.product(["-", "<", ">", "- -", "-<", "<-", ">-"], ["", "-", "<", ">"]):
            out.append(S_(" .word %s{x} %s %s{y}, %s({x} %s %s{y})" % (p, a, q, p, a, q)))
    if deep:
        for a, b, c in itertools.product(ops, repeat=3):
            out.append(S_(" .word {x} %s ({y} %s {z}) %s {w}, ({x} %s {y}) %s ({z} %s {w})" % (a, b, c, a, b, c)))
    # strings: every class of character
    for d in (" .byte {s%d}", " .text 6 {s%d}", " .string 5 {s%d}", " .byte 1, {s%d}, 2, {s%d}"):
        for k in (0, 1, 2) + ((3,) if deep else ()):
            if d.count("%d") == 2 and k > 1:
                continue
            out.append(S_(d.replace("%d", str(k))))
    for t in ("é", "日本語", "aé%0", "x  y ;z", "'", "a,b"):
        out.append(S_(' .byte "%s"\n .text 20 "%s"\n .string 20 "%s"' % (t, t, t)))
    # all instruction forms with all their operands unknown, and with labels
    for f in spec.FORMS:
        out.append(S_(" " + source.form_text(f)))
        out.append(S_("s:\n " + source.good_text(f, "e") + "\n " + source.good_text(f, "s") + "\ne:"))
    for i in range(4):
        out.append(S_(" add @R%d\n mov #{x}, @R%d\n be @R%d, #{y}, e\ne:" % (i, i, i)))
    # directives, names, layout
    for t in (" .org 0\n nop", " .org 5\n nop", " .org $1234\n nop", " .org $fffe\n nop", " .cnop 0, 4\n nop", " nop\n .cnop 1, 4\n nop", " nop\n .cnop $1, %100\n nop", "a:\n.b:\n nop\nc:\n.b\n br .b", "a = {x}\nb equ a + 1\n .word b, a",
              " .text 3 {s0}\n .string 0 {s0}\n nop", "x1: y1: nop", "a: nop\n br a\n.l: br .l", " .word 1, 2, 3\n .byte 1, 2, 3", "", "\n\n nop\n\n", "a..b:\n br a..b\n_x = 1\n .byte _x, a.$b\na.$b = 3"):
        out.append(S_(t))
    # macros: arguments of every form, hygienic and local labels, nesting
    for a in ("{hx}", "#{dx}", "@R2", "{x} + {y}", "#-{x}", "lab", "-lab", "<{x}", "#(lab + 1) * 2"):
        for b in (" ld %a", " add #%a", " add %a", " ld %a * 2", " ld 2 - %a", " mov {z}, %a", " mov %a, 7"):
            out.append(S_("%%macro m %%a\n%s\n%%end\n m %s\nlab:" % (b, a)))
    hyg = "%macro m %a\nl%:\n br l%\n.x%: br .x%\n st %a\n%end\n%macro n %a\n m %a\nl%:\n m %a + 1\n br l%\n%end\n"
    for t in (" m {x}", " m {x}\n m {y}", " n {x}\n m 1", "g:\n.x%s: n {x}\n br .x%s" % ("", ""), " n {x}\ng:\n n {y}\n"):
        out.append(S_(hyg + t))
    # includes
    out.append(S_(' .include "i.s"\n nop', {"i.s": "a:\n br a\n.b:"}))
    out.append(S_(' .include cpp "h.h"\n .byte abc', {"h.h": "abc equ {x}"}))
    out.append(S_(' .include bytes "d"\n nop', data={"d": 3}))
    return out


def s01(W, R, tier):
    R.rule = ("asm::expand_file is abstractly interpreted on each program schema; the text it prints (an abstract string whose unknown parts are formatted numbers, string bytes and generated names) is tokenised by the "
              "documented lexical rules and must denote the same image as the schema, or be wrong exactly when the schema is")
    R.assume += [source.PAY, "std's number formatting writes the digits of the number in its base; identifiers made unique with new_v4 differ from all other names"]
    n = run_schemas(W, R, s01_schemas(tier), make=lambda: PrintJudge(W), where="asm::expand_file")
    R.floor("schemas", n, 300)
