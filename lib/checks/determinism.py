"""T01: results do not depend on the iteration order of hash tables, random identifiers, clock or environment."""
import re
from checks import source, listing
from checks.listing import k01_images
from source import *

ORDERS = [("insertion", list), ("reversed", lambda xs: list(xs)[::-1]), ("shuffled", lambda xs: list(xs)[1::2] + list(xs)[::2][::-1])]
# what differs from run to run: values that must not reach a result
VARYING = re.compile(r"uuid|rand::|random|new_v4|std::time|chrono|Instant|SystemTime|std::env|std::process::id|std::thread|RandomState|DefaultHasher|env::var|current_dir")
HASHED = re.compile(r"^<?&?(?:mut )?(?:std::collections|hashbrown)::.*Hash(Map|Set).*::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if)$"
                    r"|^<&?(?:mut )?std::collections::Hash(Map|Set) as std::iter::IntoIterator>::into_iter$|^<std::collections::Hash(Map|Set) as std::fmt::Debug>::fmt$"
                    r"|^std::collections::HashSet::(union|intersection|difference|symmetric_difference)$")


def varying(v):
    if type(v) is tuple or type(v) is list:
        return next((y for y in map(varying, v) if y is not None), None)
    if type(v) is N:
        for x in subterms(v):
            if x.op in ("app", "sym") and type(x.a[0]) is str and VARYING.search(x.a[0]):
                return x
    return None


def clash(f, g):
    """are the facts of two paths about the inputs contradictory?"""
    for k, a in f.items():
        b = g.get(k)
        if b is None or a == b:
            continue
        if k[0] == "r" and type(a) is ISet and type(b) is ISet:
            if a.inter(b).empty():
                return True
        elif k[0] == "d":
            if not (set(a) & set(b)):
                return True
        elif k[0] == "s":
            if a[0] and b[0] or a[0] and a[1] in (b[1] or ()) or b[0] and b[1] in (a[1] or ()):
                return True
        elif k[0] == "b":
            return True
    return False


def about_inputs(st):
    return {k: v for k, v in st.facts.items() if varying(k[1]) is None}


class OrderJudge(Judge):
    """one schema, analysed with every iteration order"""
    def __init__(self, W):
        Judge.__init__(self, W)
        self.sites = set()
        self.K = listing.ListingJudge(W) if hasattr(listing, "ListingJudge") else None
        for E in (self.F.E, self.K.E1):
            E.accepted = list(E.accepted) + [VARYING]

    def runs(self, sc):
        W = self.W
        for name, order in ORDERS:
            if isinstance(sc, Schema):
                F, E = self.F, self.F.E
                data = {k: [cast_byte(W, E, "%s.%d" % (k, i)) for i in range(n)] for k, n in sc.data.items()}
                E.hash_order, E.hash_iterations = order, set()
                E.memo = {}
                rows = F.assemble(sc.text, self.env, self.initial(sc), includes=sc.includes, data=data)
                out = []
                for s, v in rows:
                    k = W.variant(v)
                    if k == "Ok":
                        by = image_bytes(F, v)
                        out.append((s, ("Ok", tuple(by)) if by is not None else None))
                    elif k == "Err":
                        out.append((s, ("Err", W.variant(v.a[2]), tuple(spans(W, E.snapshot(s, v.a[2]))))))
                    else:
                        out.append((s, None))
            else:
                E = self.K.E1
                E.hash_order, E.hash_iterations = order, set()
                E.memo = {}
                rows, els = self.K.run(sc)
                out = []
                for s, v in rows:
                    x = E.snapshot(s, v)
                    out.append((s, (W.variant(v), x)))
            self.sites |= E.hash_iterations
            yield name, E, out, len(E.panics)

    def judge(self, sc):
        out = Problems()
        base = None
        for name, E, rows, panics in self.runs(sc):
            self.rows += len(rows)
            if not rows and not panics:
                out.append(("no outcome", "the analysis finds no outcome at all"))
            for s, o in rows:
                out.at(s)
                if o is None:
                    out.unknown("outcome", "cannot be determined")
                    continue
                x = varying(list(o))
                if x is not None:
                    out.append(("varying value", "the result contains %s: %s; %s" % (pretty(x)[:120], self.outcome(o), self.show(s))))
            if any(o is None for s, o in rows):
                continue
            # a path decided by a varying value must not change the result
            for i, (s, o) in enumerate(rows):
                if any(varying(k[1]) is not None for k in s.facts):
                    for t, p in rows:
                        if p != o and not clash(about_inputs(s), about_inputs(t)):
                            out.at(s)
                            out.append(("varying decision", "%s or %s, decided by something that differs from run to run; %s" % (self.outcome(o), self.outcome(p), self.show(s))))
                            break
            if base is None:
                base = (name, rows, panics)
                continue
            first = {(frozenset(s.facts.items()), o) for s, o in base[1]}
            if first != {(frozenset(s.facts.items()), o) for s, o in rows}:
                for s, o in rows:
                    for t, p in base[1]:
                        self.cases += 1
                        if o != p and not clash(s.facts, t.facts):
                            out.at(s)
                            out.append(("order of a hash table", "the result depends on the order in which a hash table is iterated (%s): %s with the order %r, %s with the order %r; %s" % (
                                ", ".join(sorted(E.hash_iterations)), self.outcome(p), base[0], self.outcome(o), name, self.show(s))))
                            break
            if panics != base[2]:
                out.append(("panic", "panics depend on the order in which a hash table is iterated"))
        if self.K is not None:
            self.F.E.analysed |= self.K.E1.analysed
        return out

    def outcome(self, o):
        return str(tuple(pretty(x)[:300] if type(x) is N else [pretty(y) if type(y) is N else y for y in x][:40] if type(x) is tuple else x for x in o))


def spans(W, v):
    """all source positions mentioned in a value, in order"""
    out = []
    def go(n):
        if type(n) is not N:
            return
        if n.op == "adt" and W.T[n.a[0]]["name"].endswith("location::Location"):
            out.append(n)
            return
        for x in n.a:
            go(x)
    go(v)
    return out


def t01_schemas(tier):
    out = []
    A = lambda t, **k: out.append(Schema(t, **k))
    A("a:\nnop\n.x:\nb:\n.y: nop\n.z:\nc:\n.x:\nd equ a+b\ne = {x}\n.word a, b, c, d\n.byte e\nbr .x\n")
    A("a:\n.x: nop\n.y: nop\n.z: nop\nb:\n.x: nop\n.y: br .x\nc:\n.z: br .z\n")
    A("a equ 1\nb equ a+1\nc equ b+1\nd equ c+1\n.byte a, b, c, d\n")
    A("a equ b\nb equ c\nc equ d\nd equ a\n.byte a\n")
    A("a equ und1\nb equ und2\nc equ und3\n.byte 1\n")
    A("a:\na:\nb:\nb:\nc:\nc:\n")
    A("c:\nb:\na:\nc:\nb:\na:\n")
    A("a:\n.x:\n.x:\nb:\n.y:\n.y:\n")
    A("a = 1\nb = 2\na = 3\nb = 4\n.byte a, b\n")
    A(".byte u1, u2, u3\n")
    A("%macro m %a, %b, %c\n.byte %a, %b, %c\n%end\nm {x}, {y}, {z}\n")
    A("%macro m %a, %b, %c\n.byte %c\nx%: y%: z%: nop\nbr x%\nbr z%\n%end\nm 1, 2, 3\nm 3, 2, 1\n")
    A("%macro m %a\n.byte %a\n%end\n%macro n %a, %b\n.byte %b, %a\n%end\n%macro o\nm 1\nn 1, 2\n%end\nm 5\nn 6, 7\no\n")
    A("%macro m %a\n.byte %q\n%end\n%macro n %a, %b\n.byte %r\n%end\nn 1, 2\nm 3\n")
    A("%macro m\nn\n%end\n%macro n\no\n%end\n%macro o\nm\n%end\no\n")
    A("%macro m\nundefm1\n%end\n%macro n\nundefm2\n%end\nn\nm\n")
    A("%macro m\n.x%: nop\n.y%: nop\nbr .x%\n%end\ng:\nm\nm\nh: m\n")
    A("%macro m\nx%: nop\n.word x%\n%end\nm\nm\nm\n")
    A("%macro m\nx%: nop\nx%: nop\n%end\nm\n")
    A("%macro m %a\nx%: nop\nbne #%a, 5, x%\n%end\nm 1\nm {x}\n")
    A("a:\n.include \"i.s\"\nb:\n.include \"j.s\"\n.word a, b, c, d\n", includes={"i.s": "c: nop\n.l: nop\n", "j.s": "d: nop\n.l: br .l\n"})
    A(".include cpp \"h.h\"\n.word a, b, c, d\n", includes={"h.h": "#define a 1\n#define b a\n#define c {x}\n#define d b+c\n"})
    A(".include cpp \"h.h\"\n.word a\n", includes={"h.h": "#define a u1\n#define b u2\n#define b 2\n"})
    A(".include bytes \"f.bin\"\na: .word a\n", data={"f.bin": 3})
    for t in "x% + 1", "y% - x%", "<x%", "z%":
        A("%%macro m\nx%%: nop\ny%%: nop\nz%%: .word %s\n%%end\nm\nm\n" % t)
    own = len(out)
    step = 1 if tier == "thorough" else 4
    for fam in (source.n01_schemas, source.m02_schemas, source.ch01_schemas, source.r02_schemas, source.m01_schemas):
        out += fam("quick")[::step]
    imgs = [m for m in k01_images("quick") if "of a page" not in m.key]
    out += imgs if tier == "thorough" else imgs[::4] + [m for m in imgs if any(w in m.key for w in ("entries", "come from", "calls", "loop", "jump", "psw", "far branches", "arrived"))]
    return out


def t01(W, R, tier):
    R.rule = ("The assembler and the disassembler are abstractly interpreted on each schema once for every of three iteration orders of hash tables; whatever the facts about the inputs allow together must have the same outcome "
              "(the same bytes, the same listing, or the same error at the same positions), and no result contains, and no choice between results depends on, a value taken from random numbers, the clock, the environment or a hasher. "
              "Every place that iterates a hash table must be reached with several entries, otherwise it is undecided")
    todo = t01_schemas(tier)
    n = run_schemas(W, R, todo, make=lambda: OrderJudge(W), where="asm::assemble_file, disasm::disassemble")
    R.floor("schemas", n, 200)
    # every iteration of a hash table in the functions that were reached must have been analysed with several entries
    sites = {}
    for f in W.P.F:
        if f.blocks is None or not f.local or f.name not in R.functions:
            continue
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and t[1] is not None:
                g = W.P.F[t[1]["fn"]].sname if t[1].get("fn") is not None else t[1].get("decl") or ""
                if HASHED.search(g):
                    sites.setdefault(f.name, set()).add(g)
    for f, gs in sorted(sites.items()):
        if f in R.sites:
            R.ob("several entries: " + f, True, where=f)
        else:
            R.n += 1
            R.bad("several entries: " + f, "%s (%s) is not reached with more than one entry" % (f, ", ".join(sorted(gs))), f, ["hash table iteration not reached with several entries: " + f])
    R.count("hash_iteration_sites", len(sites))
