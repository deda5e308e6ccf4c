"""Loads the resolved program (MIR dump)."""
import json
import re

PROG = None


def strip_generics(s):
    """drop <...> generic arguments that follow '::' or an identifier; keep leading <T as Trait>"""
    out = []
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            if depth == 0 and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] in "_:")):
                # qualified self type: keep but strip inside
                j = match(s, i)
                inner = s[i + 1:j]
                out.append("<" + strip_generics(inner) + ">")
                i = j + 1
                continue
            if depth == 0 and s[i - 2:i] == "::":
                out = list("".join(out)[:-2])
            i = match(s, i) + 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


def match(s, i):
    d = 0
    j = i
    while j < len(s):
        if s[j] == "<":
            d += 1
        elif s[j] == ">" and s[j - 1] != "-":
            d -= 1
            if d == 0:
                return j
        j += 1
    return len(s) - 1


class Fn:
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.T = {int(k): v for k, v in d["types"].items()}
        self.F = []
        for r in d["fns"]:
            f = Fn()
            f.id = r["id"]
            f.name = r["name"]
            f.defname = r["def"]
            f.short = strip_generics(r["def"])
            f.sname = strip_generics(r["name"])
            f.crate = r["crate"]
            f.local = bool(r["local"])
            f.kind = r["kind"]
            f.intr = r["intr"]
            f.targs = r["args"]
            f.file = r["file"]
            f.line = r["line"]
            f.blocks = r.get("blocks")
            f.argc = r.get("argc")
            f.locals = r.get("locals")
            f.vars = r.get("vars")
            f.spread = r.get("spread")
            f._loops = None
            self.F.append(f)
        self.roots = d["roots"]
        self.items = d["items"]
        self.vt = {}
        for v in d["vtables"]:
            self.vt[(v["from"], v["to"])] = {e[0]: e[1] for e in v["e"]}
        self.statics = d["statics"]
        self.byname = {}
        for f in self.F:
            self.byname.setdefault(f.name, f)
        self.bysname = {}
        for f in self.F:
            self.bysname.setdefault(f.sname, []).append(f)
        self.tyname = {}
        for k, t in self.T.items():
            self.tyname.setdefault(t["s"], k)
        global PROG
        PROG = self

    # ---- type helpers
    def ty(self, i):
        return self.T[i]

    def variant(self, ti, name):
        for k, v in enumerate(self.T[ti]["variants"]):
            if v["name"] == name:
                return k
        return None

    def vname(self, ti, k):
        return self.T[ti]["variants"][k]["name"]

    def fields(self, ti, v):
        return self.T[ti]["variants"][v]["fields"]

    def find(self, *names, local=True):
        """function by exact stripped name (any of names)"""
        for n in names:
            for f in self.F:
                if f.blocks is not None and (not local or f.local) and (f.name == n or f.sname == n):
                    return f
        return None

    def findall(self, pat, local=True):
        r = re.compile(pat)
        return [f for f in self.F if f.blocks is not None and (not local or f.local) and r.search(f.sname)]

    def adt(self, suffix):
        """type ids of (monomorphic) ADTs whose path ends with suffix"""
        return [k for k, t in self.T.items() if t["k"] == "adt" and (t["name"] == suffix or t["name"].endswith("::" + suffix))]

    # ---- loops
    def loops(self, f):
        if f._loops is not None:
            return f._loops
        n = len(f.blocks)
        succ = [succs(b["t"]) for b in f.blocks]
        # reachable, RPO
        order = []
        seen = [False] * n
        stack = [(0, iter(succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        f._loops = loops
        f._idom = idom
        f._succ = succ
        f._preds = preds
        f._rpo = rpo
        # blocks from which a normal exit is reachable (not only panics)
        live = set()
        st = [b for b in rpo if f.blocks[b]["t"][0] == "ret"]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(preds[x])
        f._live = live
        return loops


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[5]] if t[5] is not None else []
    if k == "assert":
        return [t[4]]
    return []
