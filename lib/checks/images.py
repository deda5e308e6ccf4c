"""Images included as sprites and icons: the whole assembler is analysed on schemas whose images are given pixel by pixel."""
from fractions import Fraction

from source import *

BLACK, WHITE, CLEAR, CLEARW = (0, 0, 0, 255), (255, 255, 255, 255), (0, 0, 0, 0), (255, 255, 255, 127)


class ImgSchema:
    """text: main file; images: name -> frames (rows of (r, g, b, a), ints or names of unknown bytes) or the kind of error loading it gives;
    want: function(bytes, state, judge) -> problem or None, or the set of accepted error kinds"""
    def __init__(self, text, images, want, includes=None, paths=None, note="", order=None):
        self.text, self.images, self.want, self.includes, self.paths, self.note = text, images, want, includes or {}, paths, note
        self.order = order          # the iteration order of hash tables

    @property
    def key(self):
        t = " / ".join(x.strip() for x in self.text.split("\n") if x.strip())
        for k, v in self.includes.items():
            t += " [%s: %s]" % (k, " / ".join(x.strip() for x in v.split("\n") if x.strip()))
        for k, v in self.images.items():
            t += " [%s: %s]" % (k, v if type(v) is str else "%d frame%s of %s" % (len(v), "s" * (len(v) != 1), "%dx%d" % (len(v[0][0]) if v[0] else 0, len(v[0])) if v else "?"))
        return t + (" (%s)" % self.note if self.note else "")


class ImgJudge:
    def __init__(self, W):
        self.W = W
        self.F = Front(W, models={r"^(waterbear::)?img::load_image$": self.load})
        self.F.E.finite = True
        self.F.E.maxstates = 4000000
        self.F.E.UNROLL = 9000
        self.env = standard_env(self.F)
        self.sites = set()
        self.rows = self.cases = 0

    def color(self, c):
        E = self.F.E
        p = [I(x) if type(x) is int else E.sym(x, self.W.ty("u8")) for x in c]
        return self.W.struct("img::Color", E, red=p[0], green=p[1], blue=p[2], alpha=p[3])

    def image(self, frames):
        W, E = self.W, self.F.E
        memo = {}
        def col(c):
            if c not in memo:
                memo[c] = mk("e", self.color(c))
            return memo[c]
        return W.struct("img::Image", E, frames=seq(*[mk("e", W.struct("img::Frame", E, delay=mk("tup", I(0), I(1)), rows=seq(*[mk("e", seq(*[col(c) for c in row])) for row in fr])))
                                                    for fr in frames]))

    def load(self, E, st, f, vals, at, dt, fr, uid):
        name = self.F.pathname(E, st, vals[0])
        if name not in self.sc.images:
            raise Anchor("cannot tell which image is loaded: " + pretty(E.snapshot(st, vals[0]))[:200])
        if not self.F.resolved_already(E, st, vals[0]):
            self.F.resolved.append(("unresolved", name, False))
        self.F.order.append(name)
        im = self.sc.images[name]
        if type(im) is str:
            e = self.W.adt("img::ImageLoadError", im, S(mk("sym", "path:" + name)), mk("sym", "the error"))
            return [(st, mk("adt", dt, E.P.variant(dt, "Err"), e))]
        return [(st, mk("adt", dt, E.P.variant(dt, "Ok"), self.image(im)))]

    def judge(self, sc):
        F, W, E = self.F, self.W, self.F.E
        self.sc = sc
        E.hash_order = sc.order or list
        E.hash_iterations = set()
        out = Problems()
        rows = F.assemble(sc.text, self.env, St(), includes=sc.includes, data={k: [] for k in sc.images})
        self.sites |= {x for x in getattr(E, "hash_iterations", ())}
        for p in E.panics:
            out.at(p[0])
            out.append(("panic", "%s in %s" % (p[1], p[2])))
        out.at(None)
        if sc.paths is not None:
            got = {(a, b) for a, b, done in F.resolved if not done}
            if got != set(sc.paths) | {(None, "main.s")}:
                out.append(("paths", "paths are resolved relative to %s, expected %s" % (
                    sorted("%s: %s" % x for x in got - set(sc.paths)) or "nothing else", sorted("%s: %s" % x for x in set(sc.paths) - got))))
        if not rows and not out:
            out.append(("no outcome", "the analysis finds no outcome at all"))
        for s, v in rows:
            out.at(s)
            self.rows += 1
            k = W.variant(v)
            if k == "Ok":
                by = image_bytes(F, v)
                if by is None:
                    out.unknown("image", "the image cannot be determined: " + pretty(v)[:300])
                    continue
                if type(sc.want) is frozenset:
                    out.append(("accepted", "accepted (%d bytes), expected the error %s" % (len(by), sorted(sc.want))))
                    continue
                r = sc.want(by, s, self)
                self.cases += len(by)
                if r:
                    out.append(("bytes", r))
            elif k == "Err":
                e = E.snapshot(s, v.a[2])
                kinds = set()
                for x in subterms(e):
                    if x.op == "adt" and W.T[x.a[0]].get("variants") and len(W.T[x.a[0]]["variants"]) > 1:
                        kinds.add(str(W.variant(x)))
                if type(sc.want) is not frozenset:
                    if not self.ranged(sc, s, kinds):
                        out.append(("rejected", "rejected with %s although the image is correct" % sorted(kinds, key=str)))
                elif not (kinds & sc.want):
                    out.append(("error kind", "rejected with %s, expected %s" % (sorted(kinds, key=str), sorted(sc.want))))
            else:
                out.unknown("outcome", "cannot be determined: " + pretty(v)[:300])
        return out

    def ranged(self, sc, s, kinds):
        """an unknown speed may be rejected when no word holds it"""
        r = self.F.E.rng(s, self.env["x"])
        return "{x}" in sc.text and "WordOutOfRange" in kinds and r.inter(iv(-32768, 65535)).empty()


def value(J, s, b):
    return J.F.E.rng(s, b).single()


# ---------------------------------------------------------------- sprites
def dark(c):
    """is the pixel dark? None: on the edge (floating point decides)"""
    lum = Fraction(30 * c[0] + 59 * c[1] + 11 * c[2], 100)
    d = lum - Fraction(255, 2)
    return None if abs(d) < Fraction(1, 10 ** 6) else d < 0


def planes(frames, masked, header):
    """the expected bytes; a bit is 0, 1, None (either) or ('a', name) / the name of an unknown alpha channel"""
    out = []
    for fr in frames:
        if header:
            out += [len(fr[0]) if fr else 0, len(fr)]
        for mask in ([True, False] if masked else [False]):
            for row in fr:
                for k in range(0, len(row), 8):
                    bs = []
                    for x in range(k, k + 8):
                        if x >= len(row):
                            bs.append(int(mask))
                        elif mask:
                            a = row[x][3]
                            bs.append(a if type(a) is str else int(a <= 127))
                        else:
                            d = dark(row[x])
                            bs.append(None if d is None else int(d))
                    out.append(bs)
    return out


def want_sprite(frames, masked, header, tail=()):
    exp = planes(frames, masked, header) + list(tail)
    def check(by, s, J):
        if len(by) != len(exp):
            return "%d bytes, expected %d" % (len(by), len(exp))
        for i, (g, w) in enumerate(zip(by, exp)):
            v = value(J, s, g)
            if v is None:
                return "byte %d is %s, expected a definite value on this path" % (i, pretty(g)[:200])
            v &= 255
            if type(w) is int:
                if v != w:
                    return "byte %d is %d, expected %d" % (i, v, w)
                continue
            for k, b in enumerate(w):
                if type(b) is str:
                    r = J.F.E.rng(s, J.F.E.sym(b, J.W.ty("u8")))
                    allowed = {int(not r.inter(iv(0, 127)).empty()), int(r.inter(iv(128, 255)).empty())} if (r.inter(iv(0, 127)).empty() or r.inter(iv(128, 255)).empty()) else set()
                    if (v >> (7 - k)) & 1 not in allowed:
                        return "byte %d is %s: its bit for a pixel whose alpha is in %s is %d" % (i, bin(v), r, (v >> (7 - k)) & 1)
                elif b is not None and (v >> (7 - k)) & 1 != b:
                    return "byte %d is %s, expected %s" % (i, format(v, "08b"), "".join("?" if x is None or type(x) is str else str(x) for x in w))
        return None
    return check


def coded(w, h, n, bit, inv):
    """images in which all pixels together tell every position: pixel k is dark / transparent according to one bit of k"""
    frames = []
    k = 0
    for f in range(n):
        rows = []
        for y in range(h):
            row = []
            for x in range(w):
                d = (k >> bit) & 1 ^ inv
                t = (k >> bit) & 1 ^ (k >> (bit + 1)) & 1 ^ inv
                row.append(((0, 0, 0) if d else (255, 255, 255)) + ((0 if t else 255),))
                k += 1
            rows.append(row)
        frames.append(rows)
    return frames


TYPES = [('', False), (' type="simple"', False), (' type="masked"', True)]
HEADERS = [('', True), (' header="yes"', True), (' header="no"', False)]


def args(*xs):
    return " " + ", ".join(x.strip() for x in xs if x) if any(xs) else ""


def sprite_schemas(tier):
    out = []
    def add(frames, ty, hd, label=False, note="", swap=False):
        t = '.include sprite "s.png"' + (args(hd[0], ty[0]) if swap else args(ty[0], hd[0]))
        n = len(planes(frames, ty[1], hd[1]))
        tail = ()
        if label:
            t = ".org 0\n" + t + "\nafter:\n.word after"
            tail = (n & 255, n >> 8)
        out.append(ImgSchema(t, {"s.png": frames}, want_sprite(frames, ty[1], hd[1], tail), note=note))
    for ty in TYPES:
        for hd in HEADERS:
            for w, h, n in ((9, 2, 1), (8, 1, 2)):
                add(coded(w, h, n, 0, 0), ty, hd, label=True, note="checkered")
    add(coded(9, 2, 1, 0, 0), TYPES[2], HEADERS[2], swap=True)
    add(coded(9, 2, 1, 0, 0), TYPES[2], HEADERS[1], swap=True)
    for w in (1, 2, 7, 8, 9, 15, 16, 17) + ((3, 4, 5, 6, 23, 24, 25, 31, 32, 33, 48) if tier == "thorough" else ()):
        for h, n in ((1, 1), (3, 1), (2, 2), (1, 3)):
            size = w * h * n
            for b in range(max(1, (size - 1).bit_length())):
                for inv in (0, 1) if b == 0 or tier == "thorough" else (b & 1,):
                    add(coded(w, h, n, b, inv), TYPES[2], HEADERS[0], note="bit %d of the position%s" % (b, ", inverted" * inv))
    # every level of every channel
    grey = [[(v, v, v, 255 - v) for v in range(k, k + 64)] for k in range(0, 256, 64)]
    add([grey], TYPES[2], HEADERS[0], note="all grey levels, all alpha levels")
    levels = list(range(0, 256, 51 if tier == "quick" else 17)) + [127, 128]
    cols = [(r, g, b, 255) for r in levels for g in levels for b in levels]
    for k in range(0, len(cols), 512):
        part = cols[k:k + 512]
        part += [WHITE] * (-len(part) % 64)
        add([[part[i:i + 64] for i in range(0, len(part), 64)]], TYPES[0], HEADERS[0], note="colours %d to %d" % (k, k + 511))
    for ch in range(3):
        add([[[tuple(v if c == ch else o for c in range(3)) + (255,) for v in range(k, k + 64)] for k in range(0, 256, 64) for o in (0, 160, 255)]], TYPES[0], HEADERS[0], note="levels of channel %d" % ch)
    # unknown transparency: each mask bit is decided by its own pixel
    for w, h, pos in ((1, 1, [(0, 0)]), (9, 2, [(0, 0), (8, 0), (3, 1)]), (16, 1, [(7, 0), (8, 0), (15, 0)]), (17, 2, [(16, 0), (0, 1), (16, 1)])):
        fr = [[list(c) for c in row] for row in coded(w, h, 1, 0, 0)[0]]
        for k, (x, y) in enumerate(pos):
            fr[y][x][3] = "a%d" % k
        add([[[tuple(c) for c in row] for row in fr]], TYPES[2], HEADERS[0], note="unknown alpha")
    # sizes
    for w, h in ((255, 1), (1, 255), (256, 1), (1, 256), (300, 2), (257, 1)):
        fr = [[[BLACK if (x + y) % 3 else WHITE for x in range(w)] for y in range(h)]]
        for ty in (TYPES[0], TYPES[2]):
            add(fr, ty, HEADERS[2])
            if w < 256 and h < 256:
                add(fr, ty, HEADERS[0])
            else:
                for hd in HEADERS[:2]:
                    out.append(ImgSchema('.include sprite "s.png"' + args(ty[0], hd[0]), {"s.png": fr}, frozenset(["SpriteTooWide" if w > 255 else "SpriteTooTall"])))
    # several sprites keep their order
    a, b = coded(8, 1, 1, 0, 0), coded(9, 1, 1, 0, 1)
    out.append(ImgSchema('.byte 1\n.include sprite "a.png"\n.byte 2\n.include sprite "b.png" type="masked", header="no"\n.include sprite "a.png"\n.byte 3', {"a.png": a, "b.png": b},
                         want_sprite([], False, False, [1] + planes(a, False, True) + [2] + planes(b, True, False) + planes(a, False, True) + [3])))
    bad = frozenset
    one = {"s.png": coded(8, 1, 1, 0, 0)}
    for t in ('type="Masked"', 'type=""', 'type="maskedx"', 'type=1', 'type="yes"', 'type="simple ", header="no"'):
        out.append(ImgSchema('.include sprite "s.png" ' + t, one, bad(["InvalidSpriteType"])))
    for t in ('header="Yes"', 'header=""', 'header="nope"', 'header=0', 'header="masked"', 'type="masked", header="noo"'):
        out.append(ImgSchema('.include sprite "s.png" ' + t, one, bad(["InvalidSpriteHeader"])))
    for e in ("FileLoadFailure", "ImageParseError"):
        out.append(ImgSchema('.byte 1\n.include sprite "s.png"', {"s.png": e}, bad([e])))
    return out


# ---------------------------------------------------------------- icons
def scaled(c):
    """the palette colours a pixel may have (channels reduced to 4 bits by rounding)"""
    ch = []
    for x in c:
        q = Fraction(15 * x, 255)
        f = int(q)
        ch.append({f, f + 1} if q - f == Fraction(1, 2) else {f + (q - f > Fraction(1, 2))})
    r, g, b, a = ch
    return {(x << 12) | (y << 8) | (z << 4) | w for x in a for y in r for z in g for w in b}


def word(v, i):
    return v[i] | v[i + 1] << 8


def want_icon(frames, speed=10, eye=None, tail=()):
    """speed: a number or None (the unknown x)"""
    def pixels(v, at, frs, pal, what):
        if pal == 0:
            for k, c in enumerate(p for fr in frs for row in fr for p in row):
                if word(v, at + 2 * k) not in scaled(c):
                    return at, "%s: pixel %d is %04x, its colour is %s" % (what, k, word(v, at + 2 * k), [hex(x) for x in scaled(c)])
            return at + 2 * sum(len(row) for fr in frs for row in fr), None
        start = at
        at += 2 * pal
        k = 0
        for c in (p for fr in frs for row in fr for p in row):
            i = (v[at + k // 2] >> (4 if k % 2 == 0 else 0)) & 15 if pal == 16 else v[at + k]
            got = word(v, start + 2 * i)
            if got not in scaled(c):
                return at, "%s: pixel %d has index %d and so the colour %04x, expected %s" % (what, k, i, got, [hex(x) for x in scaled(c)])
            k += 1
        return at + (k // 2 if pal == 16 else k), None
    def size(frs, pal):
        n = sum(len(row) for fr in frs for row in fr)
        return 2 * n if pal == 0 else 32 + n // 2 if pal == 16 else 512 + n
    def check(by, s, J):
        kind, pal = 0, 0
        if eye is not None:
            n = len({min(scaled(c)) for row in eye[0] for c in row})
            kind, pal = (3, 16) if n <= 16 else (2, 256) if n <= 256 else (1, 0)
        total = 12 + 20 + size(frames, 16) + (size(eye[:1], pal) if eye is not None else 0) + len(tail)
        if len(by) != total:
            return "%d bytes, expected %d" % (len(by), total)
        E = J.F.E
        if speed is None:
            r = E.rng(s, J.env["x"])
            if r.inter(iv(-32768, 65535)) != r:
                return "a speed in %s is accepted, no word holds it" % r
            x = bits(J.env["x"], 32, E, s)
            if bits(by[2], 8, E, s) != x[:8] or bits(by[3], 8, E, s) != x[8:16]:
                return "the speed is %s, %s, expected the given one" % (pretty(by[2])[:100], pretty(by[3])[:100])
        v = []
        for i, b in enumerate(by):
            x = value(J, s, b)
            if x is None and not (speed is None and i in (2, 3)):
                return "byte %d is %s, expected a definite value" % (i, pretty(b)[:200])
            v.append(0 if x is None else x & 255)
        if word(v, 0) != len(frames):
            return "the number of frames is %d, expected %d" % (word(v, 0), len(frames))
        if speed is not None and word(v, 2) != speed & 0xffff:
            return "the speed is %d, expected %d" % (word(v, 2), speed)
        if word(v, 4) != kind:
            return "the eyecatch type is %d, expected %d" % (word(v, 4), kind)
        if any(v[6:32]):
            return "checksum, size and reserved bytes are not zero: %s" % v[6:32]
        at, p = pixels(v, 32, frames, 16, "icon")
        if not p and eye is not None:
            at, p = pixels(v, at, eye[:1], pal, "eyecatch")
        if p:
            return p
        if tuple(v[at:]) != tuple(tail):
            return "followed by %s, expected %s" % (v[at:], list(tail))
        return None
    return check


def palette(n, seed=0):
    """n colours that stay different in 4 bits per channel"""
    out = []
    k = seed
    while len(out) < n:
        c = tuple(17 * ((k >> (4 * i)) & 15) for i in (0, 1, 2)) + (17 * (15 - (k >> 12 & 15)),)
        out.append(c)
        k += 37 if n <= 16 else 1
    return out


def picture(w, h, cols, step=1, first=None):
    return [[cols[(y * w + x) * step % len(cols)] for x in range(w)] for y in range(h)]


def icon_schemas(tier, mod=None):
    out = []
    ic = [picture(32, 32, palette(16), 5)]
    def add(a, frames, speed=10, eye=None, note="", tail=(), text=None, order=None):
        im = {"i.png": frames}
        if eye is not None:
            im["e.png"] = eye
        out.append(ImgSchema(text or '.include icon "i.png"' + args(*a), im, want_icon(frames, speed, eye, tail), note=note, order=order))
    def e(n, step=1, f=1):
        return [picture(72, 56, palette(n, 9 * k), step) for k in range(f)]
    E = 'eyecatch="e.png"'
    # the costly ones first
    add([E], ic, eye=e(16), note="16 colours in the eyecatch")
    add([E, "speed=7"], ic, speed=7, eye=e(17), note="17 colours in the eyecatch")
    add(["speed=300", E], ic, speed=300, eye=e(256, 3), note="256 colours in the eyecatch")
    add([E], ic, eye=e(257), note="257 colours in the eyecatch")
    add([E], ic, eye=e(1, 1, 2), note="eyecatch with two frames")
    levels = [[((y * 72 + x) % 256, (y * 72 + x) * 7 % 256, (y * 72 + x) * 11 % 256, 255 - (y * 72 + x) * 3 % 256) for x in range(72)] for y in range(56)]
    add([E], ic, eye=[levels], note="all levels of all channels in the eyecatch")
    add([], [picture(32, 32, palette(16, k * 77), 1) if k < 1 else picture(32, 32, palette(16), k + 1) for k in range(3)], note="three frames")
    add([], [picture(32, 32, palette(8)), picture(32, 32, palette(16)[8:])], note="frames with different colours")
    add([], [picture(32, 32, palette(1))], note="one colour")
    near = [(0, 0, 0, 255), (8, 8, 8, 255), (9, 9, 9, 255), (17, 17, 17, 255), (25, 25, 25, 255), (26, 26, 26, 255), (127, 128, 127, 255), (128, 127, 128, 127), (255, 255, 255, 128), (247, 246, 248, 8)]
    add([], [picture(32, 32, near, 3)], note="colours merged by the reduction to four bits")
    add(["speed=0"], ic, speed=0)
    add(["speed=65535"], ic, speed=65535)
    add(["speed=2*(3+4)"], ic, speed=14)
    add(["speed={x}"], ic, speed=None, note="unknown speed")
    add(["speed=1"], ic, speed=1, text='.include icon "i.png" speed=1\n.byte 6', tail=(6,), note="followed by a byte")
    add(["speed=1"], ic, speed=1, text='.org 0\n.include icon "i.png" speed=1\nafter:\n.word after', tail=(64, 2), note="followed by a label")
    add([], ic, order=lambda xs: list(xs)[::-1], note="hash tables in reversed order")
    add([], [picture(32, 32, palette(11), 3)], order=lambda xs: list(xs)[1::2] + list(xs)[::2], note="11 colours, hash tables in another order")
    bad = frozenset
    im = {"i.png": ic, "e.png": e(2)}
    def err(a, kinds, images=None, note=""):
        out.append(ImgSchema('.include icon "i.png"' + args(*a), {**im, **(images or {})}, bad(kinds), note=note))
    err([], ["InvalidPaletteSize"], {"i.png": [picture(32, 32, palette(17))]}, "17 colours")
    err([], ["InvalidPaletteSize"], {"i.png": [picture(32, 32, palette(9)), picture(32, 32, palette(17)[9:])]}, "17 colours in two frames")
    for w, h in ((31, 32), (33, 32), (32, 31), (32, 33), (16, 64), (72, 56), (1, 1)):
        err([], ["InvalidIconSize"], {"i.png": [picture(w, h, palette(4))]})
    err([], ["InvalidIconSize"], {"i.png": ic + [picture(32, 31, palette(16))]}, "second frame of another size")
    for w, h in ((71, 56), (72, 55), (73, 56), (72, 57), (56, 72), (32, 32)):
        err([E], ["InvalidIconSize"], {"e.png": [picture(w, h, palette(4))]})
    for k in ("FileLoadFailure", "ImageParseError"):
        err([], [k], {"i.png": k})
        err([E], [k], {"e.png": k})
    err(["eyecatch=5"], ["InvalidPath"])
    err(['speed="5"'], ["InvalidExpression"])
    err(["speed=nothing"], ["NameNotFound", "UndefinedName", "UnknownName"])
    err(["speed=1/0"], ["DivideByZero"])
    err(["speed=65536"], ["WordOutOfRange"])
    err(["speed=0-32769"], ["WordOutOfRange"])
    return out


def g01(W, R, tier):
    R.rule = ("The whole assembler is analysed on programs that include sprites given pixel by pixel (widths around byte boundaries, several rows and frames, patterns that together tell "
              "every pixel position, every grey level, every alpha level, unknown alpha): the bytes must be, per frame, the size (if a header is wanted), the mask plane (if masked; "
              "transparent pixels 1, padding 1) and the image plane (dark pixels 1, padding 0), rows padded to bytes, leftmost pixel in the highest bit; sizes above 255 are rejected "
              "exactly when a header is wanted; other values of type and header are rejected; labels after it count its bytes.")
    run_schemas(W, R, sprite_schemas(tier), make=lambda: ImgJudge(W), where="asm::replace_byte_includes")


def g02(W, R, tier):
    R.rule = ("The whole assembler is analysed on programs that include icons given pixel by pixel: the bytes must be the icon header (frame count, speed, eyecatch type, zero checksum, "
              "size and reserved bytes), the palette, the pixels of all frames whose indices select the pixel's colour reduced to four bits per channel, and the eyecatch in the form its "
              "number of colours calls for (boundaries 16/17 and 256/257); wrong sizes, too many colours, load failures, bad values and speeds no word holds are rejected.")
    run_schemas(W, R, icon_schemas(tier), make=lambda: ImgJudge(W), where="img::to_icon", per=8)


def path_schemas(tier):
    out = []
    ic = [picture(32, 32, palette(3), 5)]
    ey = [picture(72, 56, palette(2), 1)]
    sp = coded(9, 2, 1, 0, 0)
    def add(text, want, images, paths, includes=None, note=""):
        out.append(ImgSchema(text, images, want, includes, paths, note))
    def spr(t, name, ty, hd):
        add(t, want_sprite(sp, ty, hd), {name: sp}, {("main.s", name)})
    spr('.include sprite "s.png"', "s.png", False, True)
    # names that are also values of options
    for name in ("yes", "no", "masked", "simple", "sprite", "type"):
        spr('.include sprite "%s" header="yes"' % name, name, False, True)
        spr('.include sprite "%s" header="no"' % name, name, False, False)
        spr('.include sprite "%s" type="masked", header="no"' % name, name, True, False)
        spr('.include sprite "%s" header="no", type="simple"' % name, name, False, False)
    I1, E1 = {"i.png": ic}, {"i.png": ic, "e.png": ey}
    add('.include icon "i.png"', want_icon(ic), I1, {("main.s", "i.png")})
    add('.include icon "i.png" speed=4, eyecatch="e.png"', want_icon(ic, 4, ey), E1, {("main.s", "i.png"), ("main.s", "e.png")})
    add('.include icon "i.png" eyecatch="e.png"', want_icon(ic, 10, ey), E1, {("main.s", "i.png"), ("main.s", "e.png")})
    for inc, by in (({"sub.s": '.include icon "i.png" speed=4, eyecatch="e.png"'}, "sub.s"),
                    ({"sub.s": '.include icon "i.png" eyecatch="e.png", speed=4'}, "sub.s"),
                    ({"mid.s": '.include "sub.s"', "sub.s": '.include icon "i.png" speed=4, eyecatch="e.png"'}, "sub.s")):
        first = list(inc)[0]
        add('.include "%s"' % first, want_icon(ic, 4, ey), E1, {("main.s", first), ("sub.s", "i.png"), ("sub.s", "e.png")} | ({("mid.s", "sub.s")} if "mid.s" in inc else set()), inc)
    # the icon serves as its own eyecatch: the sizes cannot both be right, but the path must
    add('.include "sub.s"', frozenset(["InvalidIconSize"]), {"i.png": ic}, {("main.s", "sub.s"), ("sub.s", "i.png")}, {"sub.s": '.include icon "i.png" eyecatch="i.png"'})
    for inc in ({"sub.s": '.include sprite "s.png" header="no"'}, {"mid.s": '.include "sub.s"', "sub.s": '.include sprite "s.png" header="no"'}):
        first = list(inc)[0]
        add('.include "%s"' % first, want_sprite(sp, False, False), {"s.png": sp}, {("main.s", first), ("sub.s", "s.png")} | ({("mid.s", "sub.s")} if "mid.s" in inc else set()), inc)
    add('.include sprite "a.png" header="no"\n.include "sub.s"\n.include sprite "b.png" header="no"', want_sprite(sp, False, False, planes(sp, True, False) + planes(sp, False, False)),
        {"a.png": sp, "s.png": sp, "b.png": sp}, {("main.s", "a.png"), ("main.s", "b.png"), ("main.s", "sub.s"), ("sub.s", "s.png")}, {"sub.s": '.include sprite "s.png" type="masked", header="no"'})
    return out


def g03(W, R, tier):
    R.rule = ("The whole assembler is analysed on programs and nested included files that include sprites and icons: every image path, the eyecatch's included, is resolved exactly against "
              "the file that names it, also when the name equals the value of an option; the options keep their values; then the bytes are those of that image.")
    run_schemas(W, R, path_schemas(tier), make=lambda: ImgJudge(W), where="asm::replace_includes", per=8)


# ---------------------------------------------------------------- loading
IMG = r"^<?(waterbear::)?image::"


class LoadSchema:
    """ext: extension or None; sizes: (w, h) of every frame; fail: the step that fails; animated: the PNG is animated"""
    def __init__(self, fn, ext, sizes, fail=None, animated=False):
        self.fn, self.ext, self.sizes, self.fail, self.animated = fn, ext, sizes, fail, animated

    @property
    def key(self):
        return "%s: file %s, %s%s%s" % (self.fn.name, "without extension" if self.ext is None else "." + self.ext, "animated, " if self.animated else "",
                                        "frames " + ", ".join("%dx%d" % s for s in self.sizes), "; %s fails" % self.fail if self.fail else "")


class LoadJudge:
    """load_image with the image crate replaced by unknown pixels"""
    def __init__(self, W):
        self.W = W
        self.rows = self.cases = 0
        m = {r"^std::fs::File::open$": self.step("File::open", "file"),
             r"^(waterbear::)?image::codecs::gif::GifDecoder::new$": self.step("the GIF decoder", "gif"),
             r"^(waterbear::)?image::codecs::png::PngDecoder::new$": self.step("the PNG decoder", "png"),
             r"^(waterbear::)?image::codecs::png::PngDecoder::is_apng$": lambda E, st, f, vals, at, dt, fr, uid: [(st, I(int(self.sc.animated)))],
             r"^(waterbear::)?image::codecs::png::PngDecoder::apng$": lambda E, st, f, vals, at, dt, fr, uid: [(st, self.wrap("apng", E.snapshot(st, vals[0])))],
             r"AnimationDecoder(>|)::into_frames$": lambda E, st, f, vals, at, dt, fr, uid: [(st, self.wrap("frames", E.snapshot(st, vals[0])))],
             r"^(waterbear::)?image::Frames::collect_frames$": self.collect,
             r"^(waterbear::)?image::DynamicImage::from_decoder$": self.step("decoding", "still"),
             r"^(waterbear::)?image::open$": self.step("image::open", "open"),
             r"^(waterbear::)?image::Frame::delay$": lambda E, st, f, vals, at, dt, fr, uid: [(st, self.wrap("delay", E.snapshot(st, vals[0])))],
             r"^(waterbear::)?image::Delay::numer_denom_ms$": self.ms,
             r"^(waterbear::)?image::Frame::(into_buffer|buffer)$": lambda E, st, f, vals, at, dt, fr, uid: [(st, self.wrap("buffer", E.snapshot(st, vals[0])))],
             r"(GenericImageView(>|)|image::ImageBuffer|image::DynamicImage)::(dimensions|width|height)$": self.dims,
             r"(GenericImageView(>|)|image::ImageBuffer|image::DynamicImage)::get_pixel$": self.pixel, **strs.str_models()}
        self.E = W.engine(force_inline=[r"^<?waterbear::img"], models=m, maxstates=400000)
        self.E.finite = True
        outer = self
        class F:
            E = self.E
        self.F = F

    def wrap(self, what, v):
        return mk("sym", "%s(%s)" % (what, v.a[0] if v.op == "sym" else pretty(v)))

    def step(self, what, wrap):
        def model(E, st, f, vals, at, dt, fr, uid):
            if self.sc.fail == what:
                return [(st, mk("adt", dt, E.P.variant(dt, "Err"), mk("sym", "error of " + what)))]
            return [(st, mk("adt", dt, E.P.variant(dt, "Ok"), self.wrap(wrap, self.pathish(E, st, vals[0]))))]
        return model

    def pathish(self, E, st, v):
        v = E.snapshot(st, v)
        return mk("sym", "path") if self.names(v) else v

    def names(self, v):
        return any(type(p) is str and p == self.path for x in subterms(v) for p in x.a)

    def collect(self, E, st, f, vals, at, dt, fr, uid):
        if self.sc.fail == "decoding":
            return [(st, mk("adt", dt, E.P.variant(dt, "Err"), mk("sym", "error of decoding")))]
        v = E.snapshot(st, vals[0])
        return [(st, mk("adt", dt, E.P.variant(dt, "Ok"), seq(*[mk("e", mk("sym", "frame %d of %s" % (k, v.a[0]))) for k in range(len(self.sc.sizes))])))]

    def ms(self, E, st, f, vals, at, dt, fr, uid):
        v = E.snapshot(st, vals[0])
        return [(st, mk("tup", *[E.sym("%s of %s" % (n, v.a[0]), self.W.ty("u32")) for n in ("numerator", "denominator")]))]

    def which(self, v):
        """the number of the frame an image value is"""
        n = v.a[0] if v.op == "sym" else ""
        k = n.find("frame ")
        if k >= 0:
            return int(n[k + 6:].split(" ")[0])
        if "still(" in n or "open(" in n:
            return 0
        raise Anchor("pixels of something else are read: " + pretty(v)[:200])

    def dims(self, E, st, f, vals, at, dt, fr, uid):
        v = E.snapshot(st, vals[0])
        w, h = self.sc.sizes[self.which(v)]
        n = f.sname.split("::")[-1]
        return [(st, mk("tup", I(w), I(h)) if n == "dimensions" else I(w if n == "width" else h))]

    def pixel(self, E, st, f, vals, at, dt, fr, uid):
        v = E.snapshot(st, vals[0])
        x, y = (E.rng(st, u).single() for u in vals[1:3])
        w, h = self.sc.sizes[self.which(v)]
        if x is None or y is None:
            raise Anchor("the position of a pixel is not definite")
        if x >= w or y >= h:
            self.outside.append((st, "pixel (%d, %d) of an image of %dx%d is read" % (x, y, w, h)))
            return []
        t = self.W.T[dt]
        px = mk("adt", self.W.ty("image::Rgba<u8>"), 0, seq(*[mk("e", self.channel(v.a[0], x, y, c)) for c in range(4)]))
        return [(st, px if t["k"] != "ref" else mk("ref", ("V", px), ()))]

    def channel(self, src, x, y, c):
        return self.E.sym("%s[%d,%d].%d" % (src, x, y, c), self.W.ty("u8"))

    def judge(self, sc):
        W, E = self.W, self.E
        self.sc = sc
        self.outside = []
        E.memo = {}
        E.nstates = 0
        out = Problems()
        self.path = "dir/pic" + ("." + sc.ext if sc.ext else "")
        p = S(self.path)
        t = W.T[sc.fn.locals[1]]
        a = p
        while t["k"] == "ref" and W.T[t["of"]]["k"] == "ref" if t["k"] == "ref" else False:
            a = W.sref(a)
            t = W.T[t["of"]]
        rows = E.analyse(sc.fn, [a])
        for q in E.panics:
            out.at(q[0])
            out.append(("panic", "%s in %s" % (q[1], q[2])))
        for s, d in self.outside:
            out.at(s)
            out.append(("outside", d))
        out.at(None)
        if not rows and not out:
            out.append(("no outcome", "the analysis finds no outcome at all"))
        kind = {"png": "apng(png(file(path)))" if sc.animated else "still(png(file(path)))", "gif": "gif(file(path))"}.get(sc.ext, "open(path)")
        moving = sc.ext == "gif" or sc.ext == "png" and sc.animated
        for s, v in rows:
            out.at(s)
            self.rows += 1
            v = E.snapshot(s, v)
            k = W.variant(v)
            if k == "Err":
                e = v.a[2]
                want = "FileLoadFailure" if sc.fail == "File::open" else "ImageParseError"
                if sc.fail is None:
                    out.append(("rejected", "rejected with %s" % pretty(e)[:200]))
                elif W.variant(e) != want:
                    out.append(("error kind", "%s is reported as %s" % (sc.fail, pretty(e)[:200])))
                elif not any(x.op == "sym" and x.a[0] == "error of " + sc.fail for x in subterms(e)):
                    out.append(("error", "the error %s is not the one that happened" % pretty(e)[:200]))
                elif not self.names(e):
                    out.append(("error", "the error %s does not name the file" % pretty(e)[:200]))
                continue
            if k != "Ok":
                out.unknown("outcome", "cannot be determined: " + pretty(v)[:200])
                continue
            if sc.fail:
                out.append(("accepted", "%s fails and the image is accepted" % sc.fail))
                continue
            want = []
            for i, (w, h) in enumerate(sc.sizes):
                src = "buffer(frame %d of frames(%s))" % (i, kind) if moving else kind
                rws = [[self.color(src, x, y) for x in range(w)] for y in range(h)]
                d = mk("tup", *[E.sym("%s of delay(frame %d of frames(%s))" % (n, i, kind), W.ty("u32")) for n in ("numerator", "denominator")]) if moving else None
                want.append((d, rws))
            r = self.compare(v.a[2], want)
            self.cases += 1
            if r:
                (out.unknown if r[0] else lambda a, b: out.append((a, b)))("pixels", r[1])
        return out

    def color(self, src, x, y):
        c = [self.channel(src, x, y, i) for i in range(4)]
        return self.W.struct("img::Color", self.E, red=c[0], green=c[1], blue=c[2], alpha=c[3])

    def items(self, v):
        return [p.a[0] for p in v.a] if v.op == "seq" and all(p.op == "e" for p in v.a) else None

    def compare(self, im, want):
        W = self.W
        frames = self.items(im.a[2])
        if frames is None:
            return (True, "the frames cannot be determined: " + pretty(im)[:200])
        if len(frames) != len(want):
            return (False, "%d frames, expected %d" % (len(frames), len(want)))
        names = [n for n, _ in W.T[W.ty("img::Frame")]["variants"][0]["fields"]]
        for k, (fr, (d, rws)) in enumerate(zip(frames, want)):
            fs = dict(zip(names, fr.a[2:]))
            if d is not None and fs["delay"] != d:
                return (False, "frame %d has the delay %s, expected %s" % (k, pretty(fs["delay"])[:200], pretty(d)[:200]))
            rows = self.items(fs["rows"])
            if rows is None:
                return (True, "the rows cannot be determined")
            if len(rows) != len(rws):
                return (False, "frame %d has %d rows, expected %d" % (k, len(rows), len(rws)))
            for y, (row, rw) in enumerate(zip(rows, rws)):
                row = self.items(row)
                if row is None:
                    return (True, "row %d cannot be determined" % y)
                if len(row) != len(rw):
                    return (False, "row %d of frame %d has %d pixels, expected %d" % (y, k, len(row), len(rw)))
                for x, (g, w) in enumerate(zip(row, rw)):
                    if g != w:
                        return (False, "pixel (%d, %d) of frame %d is %s, expected %s" % (x, y, k, pretty(g)[:300], pretty(w)[:300]))
        return None


def g04(W, R, tier):
    R.rule = ("img::load_image (every instance) is abstractly interpreted with the image crate's decoders replaced by unknown pixels: the result must have every frame in order, "
              "the rows from top to bottom, the pixels from left to right with their channels in place and the frame's delay; the failure of any step must be reported with its kind, "
              "its error and the file.")
    fs = [f for f in W.P.F if f.blocks is not None and f.sname == "waterbear::img::load_image"]
    R.floor("instances", len(fs), 1)
    out = []
    shapes = [[(1, 1)], [(3, 2)], [(2, 3)], [(5, 1)], [(1, 4)], [(9, 8)]]
    if tier == "thorough":
        shapes += [[(32, 32)], [(72, 56)], [(48, 32)]] + [[(w, h)] for w in range(1, 7) for h in range(1, 7)]
    for f in fs:
        for ext in ("png", "gif", "bmp", "jpg", None):
            for sh in shapes:
                out.append(LoadSchema(f, ext, sh))
            for e in {"png": ("File::open", "the PNG decoder", "decoding"), "gif": ("File::open", "the GIF decoder", "decoding")}.get(ext, ("image::open",)):
                out.append(LoadSchema(f, ext, shapes[1], e))
        for sh in shapes + [[(3, 2)] * 2, [(3, 2)] * 3, [(2, 2)] * 5]:
            out.append(LoadSchema(f, "png", sh, None, True))
            out.append(LoadSchema(f, "gif", sh))
        out.append(LoadSchema(f, "png", shapes[1], "decoding", True))
    run_schemas(W, R, out, make=lambda: LoadJudge(W), where="img::load_image")
