"""Library operations on known text: splitting, trimming, path components, regular-expression replacement; and files as effects."""
import re

import engine
import models as M
from models import S_of, some, none, ok, mk, S, I, seq, lit, dv
from terms import N, FALSE


def pat_of(E, st, v):
    """a known pattern (str, char or slice of chars) as a list of alternatives"""
    if v.op == "i":
        return [chr(v.a[0])]
    s = S_of(E, st, v)
    if s is not None:
        l = lit(s)
        return None if l is None else [l]
    x = dv(E, st, v)
    if x.op == "seq" and all(p.op == "e" and p.a[0].op == "i" for p in x.a):
        return [chr(p.a[0].a[0]) for p in x.a]
    return None


def strings(l):
    return mk("it", "val", seq(*[mk("e", S(x)) for x in l]), I(0))


def cut(l, p, limit=None):
    out, rest = [], l
    while limit is None or len(out) + 1 < limit:
        hits = [(rest.find(x), -len(x), x) for x in p if x and x in rest]
        if not hits:
            break
        i, _, x = min(hits)
        out.append(rest[:i])
        rest = rest[i + len(x):]
    return out + [rest]


def m_split(E, st, f, vals, at, dt, fr, uid):
    n = f.sname.split("::")[-1]
    s = S_of(E, st, vals[0])
    l = None if s is None else lit(s)
    pv = vals[-1]
    if l is None:
        return None
    if n in ("split_whitespace", "split_ascii_whitespace"):
        return [(st, strings(l.split()))]
    p = pat_of(E, st, pv)
    if p is None:
        return None
    if n == "split":
        return [(st, strings(cut(l, p)))]
    if n == "splitn":
        k = vals[1]
        return None if k.op != "i" or k.a[0] == 0 else [(st, strings(cut(l, p, k.a[0])))]
    if n == "split_terminator":
        r = cut(l, p)
        return [(st, strings(r[:-1] if r[-1] == "" else r))]
    if n in ("rsplit", "rsplitn"):
        q = [x[::-1] for x in p]
        k = None
        if n == "rsplitn":
            if vals[1].op != "i" or vals[1].a[0] == 0:
                return None
            k = vals[1].a[0]
        return [(st, strings([x[::-1] for x in cut(l[::-1], q, k)]))]
    if n == "split_once":
        r = cut(l, p, 2)
        a = r if len(r) == 2 else None
    elif n == "rsplit_once":
        r = cut(l[::-1], [x[::-1] for x in p], 2)
        a = [r[1][::-1], r[0][::-1]] if len(r) == 2 else None
    return [(st, none(E, dt) if a is None else some(E, dt, mk("tup", S(a[0]), S(a[1]))))]


def m_trim(E, st, f, vals, at, dt, fr, uid):
    n = f.sname.split("::")[-1]
    s = S_of(E, st, vals[0])
    l = None if s is None else lit(s)
    p = pat_of(E, st, vals[1])
    if l is None or p is None or not all(p):
        return None
    if n in ("trim_end_matches", "trim_right_matches", "trim_matches"):
        while any(l.endswith(x) for x in p):
            l = l[:-max(len(x) for x in p if l.endswith(x))]
    if n in ("trim_start_matches", "trim_left_matches", "trim_matches"):
        while any(l.startswith(x) for x in p):
            l = l[max(len(x) for x in p if l.startswith(x)):]
    return [(st, S(l))]


def m_rereplace(E, st, f, vals, at, dt, fr, uid):
    r = dv(E, st, vals[0])
    s, w = S_of(E, st, vals[1]), S_of(E, st, vals[2])
    if r.op != "regex" or s is None or w is None:
        return None
    l, w = lit(s), lit(w)
    if l is None or w is None or "$" in w:
        return None
    # end-of-text in the regex crate is the very end
    pat = re.sub(r"(?<!\\)\$", r"\\Z", r.a[0])
    return [(st, S(re.sub(pat, lambda m: w, l, count=0 if f.sname.endswith("_all") else 1)))]


def m_cow(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    return None if s is None else [(st, s)]


def m_cowadd(E, st, f, vals, at, dt, fr, uid):
    a, b = S_of(E, st, vals[0]), S_of(E, st, vals[1])
    return None if a is None or b is None else [(st, S(a, b))]


def m_path(E, st, f, vals, at, dt, fr, uid):
    n = f.sname.split("::")[-1]
    s = S_of(E, st, vals[0])
    if s is None:
        return None
    l = lit(s)
    if l is None:
        if n == "with_extension":
            return None
        return [(x, some(E, dt, S(mk("part", n, s))) if tr else none(E, dt)) for tr, x in E.fork(st, mk("pred", "has_" + n, s))]
    d, b = l.rstrip("/").rpartition("/")[::2]
    if b in ("", ".", ".."):
        return None
    stem, dot, ext = b.rpartition(".")
    if not dot or not stem:
        stem, ext = b, None
    if n == "file_name":
        return [(st, some(E, dt, S(b)))]
    if n == "file_stem":
        return [(st, some(E, dt, S(stem)))]
    if n == "extension":
        return [(st, none(E, dt) if ext is None else some(E, dt, S(ext)))]
    if n == "with_extension":
        e = S_of(E, st, vals[1])
        e = None if e is None else lit(e)
        return None if e is None else [(st, S((d + "/" if d or l.startswith("/") else "") + stem + ("." + e if e else "")))]
    return None


def m_tostr(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    if s is None:
        return None
    t = E.T[dt]
    return [(st, some(E, dt, s) if t.get("name", "").endswith("Option") else s)]


def m_oseq(E, st, f, vals, at, dt, fr, uid):
    a, b = S_of(E, st, vals[0]), S_of(E, st, vals[1])
    if a is None or b is None:
        return None
    c = M.streq(E, a, b)
    return [(st, c if f.sname.endswith("::eq") else engine.neg_cond(c))]


def m_nil(E, st, f, vals, at, dt, fr, uid):
    return [(st, mk("sym", "uuid_" + f.sname.split("::")[-1]))]


def m_trunc(E, st, f, vals, at, dt, fr, uid):
    s = S_of(E, st, vals[0])
    l = None if s is None else lit(s)
    if l is None or vals[1].op != "i" or vals[1].a[0] > len(l.encode()):
        return None
    st = st.copy()
    M.setref(E, st, vals[0], S(l.encode()[:vals[1].a[0]].decode("utf8", "replace")))
    return [(st, M.UNIT)]


def str_models():
    return {
        r"^<std::ffi::(os_str::)?OsStr(ing)? as std::cmp::PartialEq.*>::(eq|ne)$": m_oseq,
        r"uuid::(builder::|.*Uuid::)?(nil|max)$": m_nil,
        r"^core::str::(r?split|r?splitn|r?split_once|split_terminator|split_whitespace|split_ascii_whitespace)$": m_split,
        r"^core::str::trim_(end|start|left|right)_matches$": m_trim, r"^core::str::trim_matches$": m_trim,
        r"regex::Regex::replace(_all)?$": m_rereplace,
        r"^<std::borrow::Cow as std::(ops::Deref|convert::AsRef|string::ToString|borrow::Borrow|fmt::Display|clone::Clone).*>::(deref|as_ref|to_string|borrow|clone)$": m_cow,
        r"^std::borrow::Cow::into_owned$": m_cow,
        r"^<std::borrow::Cow as std::ops::Add.*>::add$": m_cowadd,
        r"^std::path::Path::(file_name|file_stem|extension|with_extension)$": m_path,
        r"^std::(ffi::OsStr|path::Path)::(to_str|to_string_lossy|to_os_string|to_path_buf|as_os_str)$": m_tostr,
        r"^std::ffi::os_str::OsStr::(to_str|to_string_lossy|to_os_string)$": m_tostr,
    }


# ---------------------------------------------------------------- files as effects
def file_data(W, E, path):
    """the unknown contents of the file at path"""
    return E.symval(mk("data", path), W.ty("std::vec::Vec<u8>"))


def file_models(W):
    def result(E, st, dt, cond, okv):
        out = []
        for tr, s in E.fork(st, cond):
            if tr:
                out.append((s, mk("adt", dt, W.P.variant(dt, "Ok"), okv(s) if callable(okv) else okv)))
            else:
                out.append((s, mk("adt", dt, W.P.variant(dt, "Err"), mk("sym", "ioerr"))))
        return out

    def p_of(E, st, v):
        s = S_of(E, st, v)
        if s is None:
            x = E.snapshot(st, v)
            if x.op == "adt" and len(x.a) == 3:
                return p_of(E, st, x.a[2])
            return x
        return s

    def eff(st, *e):
        st = st.copy()
        st.eff = st.eff + (e,)
        return st

    def m_open(E, st, f, vals, at, dt, fr, uid):
        p = p_of(E, st, vals[0])
        return result(E, st, dt, mk("pred", "openable", p), mk("rfile", p))

    def m_read_end(E, st, f, vals, at, dt, fr, uid):
        h = dv(E, st, vals[0])
        if h.op != "rfile":
            return None
        p = h.a[0]
        d = file_data(W, E, p)

        def okv(s):
            old = dv(E, s, vals[1])
            M.setref(E, s, vals[1], seq(*(old.a + d.a)) if old.op == "seq" else d)
            return E.length(d)
        return result(E, st, dt, mk("pred", "readable", p), okv)

    def m_read(E, st, f, vals, at, dt, fr, uid):
        p = p_of(E, st, vals[0])
        return result(E, st, dt, mk("pred", "readable", p), file_data(W, E, p))

    def m_create(E, st, f, vals, at, dt, fr, uid):
        p = p_of(E, st, vals[0])
        return result(E, eff(st, "create", p), dt, mk("pred", "creatable", p), mk("wfile", p))

    def data_of(E, st, v):
        x = dv(E, st, v)
        if x.op == "fargs":
            return x.a[0]
        return S_of(E, st, x) or E.snapshot(st, x)

    def m_write(E, st, f, vals, at, dt, fr, uid):
        h = dv(E, st, vals[0])
        n = f.sname.split("::")[-1]
        if h.op not in ("wfile", "bufw"):
            return None
        p = h.a[0]
        if n == "flush":
            return result(E, eff(st, "flush", p), dt, mk("pred", "flushable", p, len(st.eff)), M.UNIT)
        st = eff(st, "pwrite" if n in ("write", "write_vectored") else "write", p, data_of(E, st, vals[1]))
        okv = E.symval(mk("sym", "written%d" % len(st.eff)), E.T[dt]["args"][0]) if n == "write" else M.UNIT
        return result(E, st, dt, mk("pred", "writable", p, len(st.eff)), okv)

    def m_fswrite(E, st, f, vals, at, dt, fr, uid):
        p = p_of(E, st, vals[0])
        st = eff(eff(st, "create", p), "write", p, data_of(E, st, vals[1]))
        return result(E, st, dt, mk("pred", "writable", p, len(st.eff)), M.UNIT)

    def m_remove(E, st, f, vals, at, dt, fr, uid):
        p = p_of(E, st, vals[0])
        return result(E, eff(st, "remove", p), dt, mk("pred", "removable", p), M.UNIT)
    return {
        r"^std::fs::File::open$": m_open,
        r"^<&?(mut )?std::fs::File as std::io::Read>::read_to_end$": m_read_end,
        r"^std::fs::read$": m_read,
        r"^std::fs::File::create(_new)?$": m_create,
        r"^<&?(mut )?std::fs::File as std::io::Write>::(write_all|write_fmt|write|flush|write_vectored)$": m_write,
        r"^std::io::Write::(write_fmt|write_all)$": m_write,
        r"^std::fs::write$": m_fswrite,
        r"^std::fs::(remove_file|remove_dir_all|remove_dir|rename|copy)$": m_remove,
    }
