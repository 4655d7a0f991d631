"""Models of standard library functions whose bodies are not analysed."""
import re

from . import terms as t
from .terms import I, mk, ZERO, ONE, TRUE, FALSE, UNIT, VNIL
from .facts import Body

MODELS = {}
_cache = {}


def norm(p):
    """Normalised name of a standard library path."""
    p = p.replace("alloc::", "std::").replace("core::", "std::")
    m = re.match(r"^<(.*) as (.*)>::([A-Za-z_0-9]+)$", p)
    if m:
        ty, tr, me = m.groups()
        tr = re.sub(r"<.*", "", tr).split("::")[-1]
        return short(ty) + "|" + tr + "::" + me
    m = re.match(r"^(.*)<impl (.*)>::([A-Za-z_0-9]+)$", p)
    if m:
        mod, what, me = m.groups()
        if " for " in what:
            tr, ty = what.split(" for ", 1)
            tr = re.sub(r"<.*", "", tr).split("::")[-1]
            return short(ty) + "|" + tr + "::" + me
        return short(what) + "::" + me
    parts = re.sub(r"::<[^:]*(?:::[^:<>]*)*>(?=::)", "", p)
    q = parts.split("::")
    if len(q) >= 2:
        return q[-2] + "::" + q[-1]
    return p


def short(ty):
    ty = ty.strip()
    pre = ""
    m = re.match(r"^&('\w+ )?(mut )?", ty)
    if m and m.group(0):
        pre = "&mut " if m.group(2) else "&"
        ty = ty[m.end():]
    m = re.match(r"^\*(const|mut) ", ty)
    if m:
        return m.group(0).strip()
    if ty.startswith("["):
        return pre + ("slice" if ";" not in ty else "array")
    ty = re.sub(r"<.*", "", ty)
    return pre + ty.split("::")[-1]


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def lookup(fn, path):
    r = _cache.get(path)
    if r is None:
        if path.startswith("#"):
            r = MODELS.get(path, 0)
        elif fn.get("rcrate", fn.get("crate")) in ("std", "core", "alloc", None) or \
                path.startswith(("std::", "core::", "alloc::", "<std", "<core", "<alloc", "<&")):
            n = norm(path)
            r = MODELS.get(n, 0)
            if r == 0:
                r = MODELS.get("*" + n.split("|")[-1].split("::")[-1], 0) if False else 0
        else:
            r = 0
        _cache[path] = r
    return r or None


# ---------------------------------------------------------------- helpers

def some(x):
    return t.en(1, x)


NONE = t.en(0)


def idx_range(eng, st, ty, v, n):
    """(lo, hi) of a range argument over something of length n; None for a plain index."""
    d = eng.ty(ty)
    p = d.get("path", "")
    if p.endswith("ops::Range") or p.endswith("range::Range"):
        return t.fld(v, 0, 2), t.fld(v, 1, 2)
    if p.endswith("RangeFrom"):
        return v, n
    if p.endswith("RangeTo"):
        return ZERO, v
    if p.endswith("RangeFull"):
        return ZERO, n
    if p.endswith("RangeInclusive"):
        return t.fld(v, 0, 3), t.add(t.fld(v, 1, 3), ONE)
    if p.endswith("RangeToInclusive"):
        return ZERO, t.add(v, ONE)
    return None


def elemty(eng, ty):
    """Type of the elements of (a reference to) a vector, slice or array."""
    for _ in range(4):
        d = eng.ty(ty)
        if d["k"] in ("ref", "ptr"):
            ty = d["ty"]
        elif d["k"] in ("slice", "array"):
            return d["ty"]
        elif d["k"] == "adt" and d.get("args"):
            return d["args"][0]
    return "?"


def sref(eng, base, path, e):
    return eng.ref(base, eng.addpath(path, e))


def refidx(eng, st, v, i):
    b, p = eng.deref(st, v)
    return sref(eng, b, p, ("x", i))


# ---------------------------------------------------------------- Vec and slices

@model("Vec|Deref::deref", "Vec|DerefMut::deref_mut", "Vec::as_slice", "Vec::as_mut_slice",
       "Vec|AsRef::as_ref", "Vec|Borrow::borrow", "array::as_slice", "array|AsRef::as_ref",
       "slice|AsRef::as_ref", "Vec|AsMut::as_mut", "slice|Borrow::borrow", "Vec|BorrowMut::borrow_mut",
       "String|Deref::deref", "str::as_bytes", "String::as_bytes", "String::as_str",
       "Vec::into_boxed_slice", "slice::into_vec", "Box|AsRef::as_ref", "Box|Deref::deref",
       "Box|DerefMut::deref_mut", "Box|AsMut::as_mut", "pointer::cast", "*const::cast", "*mut::cast",
       "*mut::cast_const", "*const::cast_mut", "slice::as_ref", "&slice|IntoIterator::into_iter_id",
       "ManuallyDrop::new", "ManuallyDrop|Deref::deref", "ManuallyDrop|DerefMut::deref_mut",
       "MaybeUninit::new", "MaybeUninit::as_ptr", "MaybeUninit::as_mut_ptr",
       "MaybeUninit::assume_init", "hint::black_box", "convert::identity", "NonNull::as_ptr",
       "hint::must_use", "u32|From::from", "Rev::into_inner", "num::get", "convert::AsRef::as_ref")
def ident(eng, st, c):
    return [(st, c.args[0])]


@model("Vec::len", "slice::len", "String::len", "str::len", "array::len", "VecDeque::len")
def m_len(eng, st, c):
    return [(st, t.length(eng.read(st, c.args[0])))]


@model("Vec::is_empty", "slice::is_empty", "String::is_empty", "str::is_empty")
def m_is_empty(eng, st, c):
    return [(st, t.eq(t.length(eng.read(st, c.args[0])), ZERO))]


@model("Vec::capacity")
def m_capacity(eng, st, c):
    return [(st, eng.fresh(c))]


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "String::reserve", "Vec::shrink_to")
def m_reserve(eng, st, c):
    return [(st, UNIT)]


@model("Vec::new", "Vec|Default::default", "Vec::with_capacity", "String::new", "String|Default::default",
       "String::with_capacity")
def m_new(eng, st, c):
    return [(st, VNIL)]


@model("Vec::push", "String::push")
def m_push(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.push(a, c.args[1])
    eng.wr(st, b, p, n, c.fr, c.span)
    return [(st, UNIT)]


@model("Vec::pop")
def m_pop(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    out = []
    a = eng.rd(st, b, p)
    n = t.length(a)
    for s, v in eng.fork(st, t.eq(n, ZERO)):
        if v:
            out.append((s, NONE))
        else:
            m = t.sub(n, ONE)
            x = t.sel(a, m, s.decide)
            eng.wr(s, b, p, t.subarr(a, ZERO, m), c.fr, c.span)
            out.append((s, some(x)))
    return out


@model("Vec::clear", "String::clear")
def m_clear(eng, st, c):
    eng.write(st, c.args[0], VNIL, c.fr, c.span)
    return [(st, UNIT)]


@model("Vec::truncate", "String::truncate")
def m_truncate(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    out = []
    for s, v in eng.fork(st, t.lt(c.args[1], n)):
        if v:
            eng.wr(s, b, p, t.subarr(a, ZERO, c.args[1]), c.fr, c.span)
        out.append((s, UNIT))
    return out


@model("Vec::resize", "Vec::resize_with")
def m_resize(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = c.args[1]
    v = c.args[2]
    if c.path.endswith("resize_with"):
        v = default_value(eng, elemty(eng, c.argtys[0])) or mk("sym", "dflt")
    if not st.same(n, t.length(a)):
        eng.wr(st, b, p, mk("resize", a, n, v), c.fr, c.span)
    return [(st, UNIT)]


@model("Vec::set_len")
def m_set_len(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = c.args[1]
    if st.decide(t.le(n, t.length(a))) is True:
        eng.wr(st, b, p, t.subarr(a, ZERO, n), c.fr, c.span)
    else:
        eng.wr(st, b, p, mk("setlen", a, n), c.fr, c.span)
    return [(st, UNIT)]


@model("Vec|Clone::clone", "slice::to_vec", "slice|ToOwned::to_owned", "slice::to_owned",
       "String|Clone::clone", "Vec|From::from", "array|Clone::clone")
def m_clone(eng, st, c):
    v = c.args[0]
    d = eng.ty(c.argtys[0])
    return [(st, eng.read(st, v) if d["k"] == "ref" else v)]


@model("Vec|Index::index", "Vec|IndexMut::index_mut", "slice|Index::index", "slice|IndexMut::index_mut",
       "array|Index::index", "array|IndexMut::index_mut")
def m_index(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    r = idx_range(eng, st, c.argtys[1], c.args[1], n)
    if r is None:
        if eng.rule is not None:
            eng.rule.on_index(eng, st, c, b, p, c.args[1], n)
        if not st.assume(t.lt(c.args[1], n)):
            return []
        return [(st, sref(eng, b, p, ("x", c.args[1])))]
    lo, hi = r
    if not st.assume(t.le(lo, hi)) or not st.assume(t.le(hi, n)):
        return []
    return [(st, sref(eng, b, p, ("s", lo, hi)))]


@model("slice::get", "slice::get_mut", "Vec::get", "Vec::get_mut")
def m_get(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    r = idx_range(eng, st, c.argtys[1], c.args[1], n)
    out = []
    if r is None:
        for s, v in eng.fork(st, t.lt(c.args[1], n)):
            out.append((s, some(sref(eng, b, p, ("x", c.args[1]))) if v else NONE))
        return out
    lo, hi = r
    for s, v in eng.fork(st, t.and_b(t.le(lo, hi), t.le(hi, n))):
        out.append((s, some(sref(eng, b, p, ("s", lo, hi))) if v else NONE))
    return out


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def m_get_unchecked(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    r = idx_range(eng, st, c.argtys[1], c.args[1], t.length(eng.rd(st, b, p)))
    if eng.rule is not None:
        lo, hi = r or (c.args[1], t.add(c.args[1], ONE))
        eng.rule.on_unchecked(eng, st, c, b, p, lo, hi)
    if r is None:
        return [(st, sref(eng, b, p, ("x", c.args[1])))]
    return [(st, sref(eng, b, p, ("s", r[0], r[1])))]


@model("slice::first", "slice::first_mut")
def m_first(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    return [(s, NONE if v else some(sref(eng, b, p, ("x", ZERO))))
            for s, v in eng.fork(st, t.eq(n, ZERO))]


@model("slice::last", "slice::last_mut")
def m_last(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    return [(s, NONE if v else some(sref(eng, b, p, ("x", t.sub(n, ONE)))))
            for s, v in eng.fork(st, t.eq(n, ZERO))]


@model("slice::split_first", "slice::split_first_mut")
def m_split_first(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    return [(s, NONE if v else some(t.st(sref(eng, b, p, ("x", ZERO)),
                                         sref(eng, b, p, ("s", ONE, n)))))
            for s, v in eng.fork(st, t.eq(n, ZERO))]


@model("slice::split_last", "slice::split_last_mut")
def m_split_last(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    m = t.sub(n, ONE)
    return [(s, NONE if v else some(t.st(sref(eng, b, p, ("x", m)),
                                         sref(eng, b, p, ("s", ZERO, m)))))
            for s, v in eng.fork(st, t.eq(n, ZERO))]


@model("slice::split_at", "slice::split_at_mut")
def m_split_at(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    if not st.assume(t.le(c.args[1], n)):
        return []
    return [(st, t.st(sref(eng, b, p, ("s", ZERO, c.args[1])),
                      sref(eng, b, p, ("s", c.args[1], n))))]


@model("slice::swap", "Vec::swap")
def m_swap(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    i, j = c.args[1], c.args[2]
    if not st.assume(t.lt(i, n)) or not st.assume(t.lt(j, n)):
        return []
    if not st.same(i, j):
        if i.op == "i" and j.op == "i":
            x, y = t.sel(a, i, st.decide), t.sel(a, j, st.decide)
            new = a if i is j else t.store(t.store(a, i, y), j, x)
        else:
            new = mk("swp", a, i, j)
        eng.wr(st, b, p, new, c.fr, c.span)
    return [(st, UNIT)]


@model("slice::reverse")
def m_reverse(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    eng.wr(st, b, p, mk("rev", a), c.fr, c.span)
    return [(st, UNIT)]


@model("slice::fill")
def m_fill(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    eng.wr(st, b, p, mk("fill", c.args[1], t.length(a)), c.fr, c.span)
    return [(st, UNIT)]


@model("slice::sort_unstable_by_key", "slice::sort_unstable", "slice::sort", "slice::sort_by_key",
       "slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_cached_key", "slice::rotate_left",
       "slice::rotate_right")
def m_sort(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = mk("perm", a, c.fr.ctx, c.block)
    eng.wr(st, b, p, n, c.fr, c.span)
    if eng.rule is not None:
        eng.rule.on_sort(eng, st, c, b, p, a, n)
    return [(st, UNIT)]


@model("slice::select_nth_unstable", "slice::select_nth_unstable_by_key",
       "slice::select_nth_unstable_by")
def m_select_nth(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    i = c.args[1]
    if not st.assume(t.lt(i, n)):
        return []
    eng.wr(st, b, p, mk("perm", a, c.fr.ctx, c.block), c.fr, c.span)
    return [(st, t.st(sref(eng, b, p, ("s", ZERO, i)), sref(eng, b, p, ("x", i)),
                      sref(eng, b, p, ("s", t.add(i, ONE), n))))]


@model("slice::copy_within")
def m_copy_within(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    lo, hi = idx_range(eng, st, c.argtys[1], c.args[1], n)
    d = c.args[2]
    if not (st.assume(t.le(lo, hi)) and st.assume(t.le(hi, n))
            and st.assume(t.le(t.add(d, t.sub(hi, lo)), n))):
        return []
    eng.wr(st, b, p, mk("splice", a, d, t.subarr(a, lo, hi)), c.fr, c.span)
    return [(st, UNIT)]


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copy_from_slice(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    v = eng.read(st, c.args[1])
    if not st.assume(t.eq(t.length(a), t.length(v))):
        return []
    eng.wr(st, b, p, v, c.fr, c.span)
    return [(st, UNIT)]


@model("Vec::extend_from_slice")
def m_extend_from_slice(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    v = eng.read(st, c.args[1])
    eng.wr(st, b, p, t.cat(a, v), c.fr, c.span)
    return [(st, UNIT)]


@model("Vec::append")
def m_append(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    v = eng.read(st, c.args[1])
    eng.wr(st, b, p, t.cat(a, v), c.fr, c.span)
    eng.write(st, c.args[1], VNIL, c.fr, c.span)
    return [(st, UNIT)]


@model("Vec::swap_remove")
def m_swap_remove(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    i = c.args[1]
    if not st.assume(t.lt(i, n)):
        return []
    x = t.sel(a, i, st.decide)
    m = t.sub(n, ONE)
    last = t.sel(a, m, st.decide)
    out = []
    for s, v in eng.fork(st, t.eq(i, m)):
        na = t.subarr(a, ZERO, m) if v else t.subarr(t.store(a, i, last), ZERO, m)
        eng.wr(s, b, p, na, c.fr, c.span)
        out.append((s, x))
    return out


@model("Vec::remove")
def m_remove(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    i = c.args[1]
    if not st.assume(t.lt(i, n)):
        return []
    x = t.sel(a, i, st.decide)
    eng.wr(st, b, p, t.cat(t.subarr(a, ZERO, i), t.subarr(a, t.add(i, ONE), n)), c.fr, c.span)
    return [(st, x)]


@model("Vec::insert")
def m_insert(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    i = c.args[1]
    if not st.assume(t.le(i, n)):
        return []
    eng.wr(st, b, p, t.cat(t.push(t.subarr(a, ZERO, i), c.args[2]), t.subarr(a, i, n)), c.fr,
           c.span)
    return [(st, UNIT)]


@model("Vec::drain")
def m_drain(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    lo, hi = idx_range(eng, st, c.argtys[1], c.args[1], n)
    if not (st.assume(t.le(lo, hi)) and st.assume(t.le(hi, n))):
        return []
    d = eng.slice(st, a, lo, hi)
    eng.wr(st, b, p, t.cat(eng.slice(st, a, ZERO, lo), eng.slice(st, a, hi, n)), c.fr, c.span)
    return [(st, mk("dr", d, ZERO, t.length(d)))]


@model("Vec::split_off")
def m_split_off(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    n = t.length(a)
    i = c.args[1]
    if not st.assume(t.le(i, n)):
        return []
    eng.wr(st, b, p, t.subarr(a, ZERO, i), c.fr, c.span)
    return [(st, t.subarr(a, i, n))]


@model("slice::contains")
def m_contains(eng, st, c):
    return [(st, mk("contains", eng.read(st, c.args[0]), eng.read(st, c.args[1])))]


@model("SliceIndex::get_unchecked")
def m_si(eng, st, c):
    return None


@model("Vec::as_ptr", "Vec::as_mut_ptr", "slice::as_ptr", "slice::as_mut_ptr")
def m_as_ptr(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    return [(st, sref(eng, b, p, ("x", ZERO)))]


@model("slice::as_mut_ptr_range", "slice::as_ptr_range")
def m_as_ptr_range(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    return [(st, t.st(sref(eng, b, p, ("x", ZERO)), sref(eng, b, p, ("x", n))))]


# ---------------------------------------------------------------- raw pointers

@model("*const::add", "*mut::add", "*const::wrapping_add", "*mut::wrapping_add", "*const::offset",
       "*mut::offset")
def m_ptr_add(eng, st, c):
    return [(st, eng.ptr_add(c.args[0], c.args[1]))]


@model("*const::sub", "*mut::sub")
def m_ptr_sub(eng, st, c):
    return [(st, eng.ptr_add(c.args[0], t.scale(c.args[1], -1)))]


@model("*const::offset_from", "*mut::offset_from", "*mut::offset_from_unsigned",
       "*const::offset_from_unsigned")
def m_offset_from(eng, st, c):
    a, b = eng.ptr_off(c.args[0]), eng.ptr_off(c.args[1])
    if a and b and a[0] == b[0]:
        return [(st, t.sub(a[1], b[1]))]
    return [(st, mk("ssym", mk("offs", c.args[0], c.args[1])))]


@model("*const::read", "*mut::read", "ptr::read", "*const::read_unaligned", "*mut::read_volatile")
def m_ptr_read(eng, st, c):
    if eng.rule is not None:
        eng.rule.on_ptr(eng, st, c, "read", c.args[0], ONE)
    d = eng.ty(c.argtys[0])
    return [(st, eng.typed(eng.read_as(st, c.args[0], d.get("ty", "?")), d.get("ty", "?")))]


@model("*mut::write", "ptr::write")
def m_ptr_write(eng, st, c):
    if eng.rule is not None:
        eng.rule.on_ptr(eng, st, c, "write", c.args[0], ONE)
    eng.write(st, c.args[0], c.args[1], c.fr, c.span)
    return [(st, UNIT)]


def copy_mem(eng, st, src, dst, n, fr, span):
    eng_copy(eng, st, src, dst, n, fr, span)


def eng_copy(eng, st, src, dst, n, fr, span):
    bs, ps = eng.deref(st, src)
    bd, pd = eng.deref(st, dst)
    if not ps or ps[-1][0] != "x":
        ps = ps + (("x", ZERO),)
    if not pd or pd[-1][0] != "x":
        pd = pd + (("x", ZERO),)
    a = eng.rd(st, bs, ps[:-1])
    i = ps[-1][1]
    v = mk("sub", a, i, t.add(i, n)) if t.subarr(a, i, t.add(i, n)).op != "sub" else \
        t.subarr(a, i, t.add(i, n))
    v = t.subarr(a, i, t.add(i, n))
    d = eng.rd(st, bd, pd[:-1])
    eng.wr(st, bd, pd[:-1], mk("splice", d, pd[-1][1], v), fr, span)


@model("intrinsics::copy", "ptr::copy", "ptr::copy_nonoverlapping", "intrinsics::copy_nonoverlapping",
       "*const::copy_to", "*const::copy_to_nonoverlapping", "*mut::copy_to")
def m_copy(eng, st, c):
    if eng.rule is not None:
        eng.rule.on_ptr(eng, st, c, "read", c.args[0], c.args[2])
        eng.rule.on_ptr(eng, st, c, "write", c.args[1], c.args[2])
    eng_copy(eng, st, c.args[0], c.args[1], c.args[2], c.fr, c.span)
    return [(st, UNIT)]


@model("*mut::copy_from_nonoverlapping", "*mut::copy_from")
def m_copy_from(eng, st, c):
    if eng.rule is not None:
        eng.rule.on_ptr(eng, st, c, "read", c.args[1], c.args[2])
        eng.rule.on_ptr(eng, st, c, "write", c.args[0], c.args[2])
    eng_copy(eng, st, c.args[1], c.args[0], c.args[2], c.fr, c.span)
    return [(st, UNIT)]


@model("slice::from_raw_parts", "slice::from_raw_parts_mut")
def m_from_raw_parts(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    if p and p[-1][0] == "x":
        return [(st, eng.ref(b, p[:-1] + (("s", p[-1][1], t.add(p[-1][1], c.args[1])),)))]
    return None


# ---------------------------------------------------------------- iterators

@model("slice::iter", "&Vec|IntoIterator::into_iter", "&slice|IntoIterator::into_iter",
       "&array|IntoIterator::into_iter", "slice::iter_mut", "&mut Vec|IntoIterator::into_iter",
       "&mut slice|IntoIterator::into_iter", "&mut array|IntoIterator::into_iter",
       "Vec::iter", "Vec::iter_mut")
def m_iter(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    n = t.length(eng.rd(st, b, p))
    return [(st, mk("it", eng.ref(b, p), ZERO, n))]


@model("Vec|IntoIterator::into_iter", "array|IntoIterator::into_iter")
def m_into_iter(eng, st, c):
    a = c.args[0]
    return [(st, mk("dr", a, ZERO, t.length(a)))]


def iter_item(eng, st, it, i):
    if it.op == "it":
        b, p = eng.deref(st, it.args[0])
        return sref(eng, b, p, ("x", i))
    return t.sel(it.args[0], i, st.decide)


@model("Iter|Iterator::next", "IterMut|Iterator::next", "Drain|Iterator::next",
       "IntoIter|Iterator::next", "#next")
def m_iter_next(eng, st, c):
    return iter_next(eng, st, c, False)


@model("Iter|DoubleEndedIterator::next_back", "IterMut|DoubleEndedIterator::next_back",
       "Drain|DoubleEndedIterator::next_back", "IntoIter|DoubleEndedIterator::next_back")
def m_iter_next_back(eng, st, c):
    return iter_next(eng, st, c, True)


def iter_next(eng, st, c, back):
    b, p = eng.deref(st, c.args[0])
    it = eng.rd(st, b, p)
    if it.op not in ("it", "dr"):
        # an iterator of unknown origin
        r = eng.fresh(c)
        eng.wr(st, b, p, mk("sym", "iter", c.fr.ctx, c.block), c.fr, c.span)
        eng.disc_types[t.disc(r)] = [0, 1]
        return [(st, r)]
    out = []
    lo, hi = it.args[1], it.args[2]
    for s, v in eng.fork(st, t.lt(lo, hi)):
        if not v:
            out.append((s, NONE))
            continue
        if back:
            i = t.sub(hi, ONE)
            n = mk(it.op, it.args[0], lo, i)
        else:
            i = lo
            n = mk(it.op, it.args[0], t.add(lo, ONE), hi)
        x = iter_item(eng, s, it, i)
        eng.wr(s, b, p, n, c.fr, c.span)
        out.append((s, some(x)))
    return out


@model("Iter|ExactSizeIterator::len", "Drain|ExactSizeIterator::len", "IterMut|ExactSizeIterator::len",
       "IntoIter|ExactSizeIterator::len")
def m_iter_len(eng, st, c):
    it = eng.read(st, c.args[0])
    if it.op in ("it", "dr"):
        return [(st, t.sub(it.args[2], it.args[1]))]
    return None


@model("Iter|Iterator::count", "Drain|Iterator::count", "IntoIter|Iterator::count",
       "IterMut|Iterator::count")
def m_iter_count(eng, st, c):
    it = c.args[0]
    if it.op in ("it", "dr"):
        return [(st, t.sub(it.args[2], it.args[1]))]
    return None


@model("Iter|Iterator::size_hint", "Drain|Iterator::size_hint", "IntoIter|Iterator::size_hint",
       "IterMut|Iterator::size_hint")
def m_size_hint(eng, st, c):
    it = eng.read(st, c.args[0])
    if it.op in ("it", "dr"):
        n = t.sub(it.args[2], it.args[1])
        return [(st, t.st(n, some(n)))]
    return None


@model("Iter|Clone::clone", "Range|Clone::clone")
def m_iter_clone(eng, st, c):
    return [(st, eng.read(st, c.args[0]))]


@model("Iter::as_slice", "Drain::as_slice", "IntoIter::as_slice")
def m_iter_as_slice(eng, st, c):
    it = eng.read(st, c.args[0])
    if it.op == "it":
        b, p = eng.deref(st, it.args[0])
        return [(st, sref(eng, b, p, ("s", it.args[1], it.args[2])))]
    return None


@model("Range|Iterator::next")
def m_range_next(eng, st, c):
    return range_next(eng, st, c, False)


@model("Range|DoubleEndedIterator::next_back")
def m_range_next_back(eng, st, c):
    return range_next(eng, st, c, True)


def range_next(eng, st, c, back):
    b, p = eng.deref(st, c.args[0])
    r = eng.rd(st, b, p)
    lo, hi = t.fld(r, 0, 2), t.fld(r, 1, 2)
    out = []
    for s, v in eng.fork(st, t.lt(lo, hi)):
        if not v:
            out.append((s, NONE))
        elif back:
            i = t.sub(hi, ONE)
            eng.wr(s, b, p, t.st(lo, i), c.fr, c.span)
            out.append((s, some(i)))
        else:
            eng.wr(s, b, p, t.st(t.add(lo, ONE), hi), c.fr, c.span)
            out.append((s, some(lo)))
    return out


@model("RangeInclusive|Iterator::next")
def m_range_incl_next(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    r = eng.rd(st, b, p)
    lo, hi = t.fld(r, 0, 3), t.fld(r, 1, 3)
    out = []
    # (exhausted is folded into start > end)
    for s, v in eng.fork(st, t.le(lo, hi)):
        if not v:
            out.append((s, NONE))
        else:
            eng.wr(s, b, p, t.st(t.add(lo, ONE), hi, FALSE), c.fr, c.span)
            out.append((s, some(lo)))
    return out


@model("RangeInclusive::new")
def m_range_incl_new(eng, st, c):
    return [(st, t.st(c.args[0], c.args[1], FALSE))]


@model("Range|ExactSizeIterator::len")
def m_range_len(eng, st, c):
    r = eng.read(st, c.args[0])
    return [(st, t.sub(t.fld(r, 1, 2), t.fld(r, 0, 2)))]


@model("Range::is_empty")
def m_range_is_empty(eng, st, c):
    r = eng.read(st, c.args[0])
    return [(st, t.le(t.fld(r, 1, 2), t.fld(r, 0, 2)))]


@model("Range::contains")
def m_range_contains(eng, st, c):
    r = eng.read(st, c.args[0])
    x = eng.read(st, c.args[1])
    return [(st, t.and_b(t.le(t.fld(r, 0, 2), x), t.lt(x, t.fld(r, 1, 2))))]


# ---------------------------------------------------------------- mem, cmp, numbers

@model("mem::replace", "Option::replace_", "ptr::replace")
def m_replace(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    old = eng.rd(st, b, p)
    eng.wr(st, b, p, c.args[1], c.fr, c.span)
    return [(st, old)]


def default_value(eng, ty):
    ti = eng.tinfo(ty)
    d = eng.ty(ty)
    if ti[0] == "atomic" and d["path"] in ("std::vec::Vec", "std::string::String"):
        return VNIL
    if ti[0] == "enum" and d.get("path") == "std::option::Option":
        return NONE
    if ti[0] == "int":
        return ZERO
    if ti[0] == "bool":
        return FALSE
    if ti[0] == "struct" and d["k"] == "tuple":
        xs = [default_value(eng, x) for x in ti[1]]
        return None if any(x is None for x in xs) else t.st(*xs)
    return None


@model("mem::take", "Option::take_")
def m_take(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    old = eng.rd(st, b, p)
    ty = eng.ty(c.argtys[0]).get("ty", "?")
    v = default_value(eng, ty)
    if v is None:
        v = eng.fresh(c, "dflt")
    eng.wr(st, b, p, v, c.fr, c.span)
    return [(st, old)]


@model("mem::swap", "ptr::swap")
def m_mswap(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    q, r = eng.deref(st, c.args[1])
    x, y = eng.rd(st, b, p), eng.rd(st, q, r)
    eng.wr(st, b, p, y, c.fr, c.span)
    eng.wr(st, q, r, x, c.fr, c.span)
    return [(st, UNIT)]


@model("mem::drop")
def m_drop(eng, st, c):
    if not eng.has_local_drop(c.argtys[0]):
        return [(st, UNIT)]
    base = ("T", c.fr.ctx, c.block)
    st.mem[base] = c.args[0]
    outs = eng.drop_value(st, c.fr, c.block, base, (), c.argtys[0], c.span)
    for s in outs:
        s.mem.pop(base, None)
    return [(s, UNIT) for s in outs]


@model("mem::forget", "intrinsics::assume", "hint::assert_unchecked", "intrinsics::cold_path",
       "hint::cold_path")
def m_forget(eng, st, c):
    return [(st, UNIT)]


@model("hint::unreachable_unchecked", "intrinsics::unreachable")
def m_unreachable(eng, st, c):
    if eng.rule is not None:
        eng.rule.on_unreachable(eng, st, c)
    return []


@model("intrinsics::integer_max", "Ord::max", "usize|Ord::max", "u32|Ord::max", "u64|Ord::max",
       "cmp::max")
def m_max(eng, st, c):
    if eng.tinfo(c.argtys[0])[0] != "int":
        return None
    return [(s, c.args[1] if v else c.args[0]) for s, v in eng.fork(st, t.le(c.args[0], c.args[1]))]


@model("intrinsics::integer_min", "Ord::min", "usize|Ord::min", "u32|Ord::min", "u64|Ord::min",
       "cmp::min")
def m_min(eng, st, c):
    if eng.tinfo(c.argtys[0])[0] != "int":
        return None
    return [(s, c.args[0] if v else c.args[1]) for s, v in eng.fork(st, t.le(c.args[0], c.args[1]))]


def intm(*names):
    ns = []
    for n in names:
        for ty in ("usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32", "u128", "i128", "i16",
                   "i8"):
            ns.append(ty + "::" + n)
    return model(*ns)


@intm("saturating_sub")
def m_satsub(eng, st, c):
    if c.argtys[0].startswith("i"):
        return None
    return [(s, ZERO if v else t.sub(c.args[0], c.args[1]))
            for s, v in eng.fork(st, t.le(c.args[0], c.args[1]))]


@intm("saturating_add", "wrapping_add", "unchecked_add", "strict_add")
def m_satadd(eng, st, c):
    return [(st, t.add(c.args[0], c.args[1]))]


@intm("wrapping_sub", "unchecked_sub", "strict_sub")
def m_wsub(eng, st, c):
    d = t.sub(c.args[0], c.args[1])
    n = {"usize": 64, "u64": 64, "u32": 32}.get(c.argtys[0])
    if c.path.endswith("wrapping_sub") and n and not eng.exact:
        return [(s, d if v else t.add(d, I(1 << n)))
                for s, v in eng.fork(st, t.le(c.args[1], c.args[0]))]
    return [(st, d)]


@intm("wrapping_mul", "saturating_mul", "unchecked_mul")
def m_wmul(eng, st, c):
    return [(st, t.mul(c.args[0], c.args[1]))]


@intm("checked_sub")
def m_checked_sub(eng, st, c):
    if c.argtys[0].startswith("i"):
        return None
    return [(s, some(t.sub(c.args[0], c.args[1])) if v else NONE)
            for s, v in eng.fork(st, t.le(c.args[1], c.args[0]))]


@intm("checked_add", "checked_mul")
def m_checked_add(eng, st, c):
    f = t.add if c.path.endswith("add") else t.mul
    return [(st, some(f(c.args[0], c.args[1])))]


@intm("abs_diff")
def m_abs_diff(eng, st, c):
    return [(s, t.sub(c.args[1], c.args[0]) if v else t.sub(c.args[0], c.args[1]))
            for s, v in eng.fork(st, t.le(c.args[0], c.args[1]))]


@intm("unsigned_abs", "abs", "wrapping_abs")
def m_abs(eng, st, c):
    v = c.args[0]
    return [(s, v if b else t.scale(v, -1)) for s, b in eng.fork(st, t.le(ZERO, v))]


@intm("is_positive")
def m_is_pos(eng, st, c):
    return [(st, t.lt(ZERO, c.args[0]))]


@intm("is_negative")
def m_is_neg(eng, st, c):
    return [(st, t.lt(c.args[0], ZERO))]


@intm("is_power_of_two")
def m_pow2(eng, st, c):
    return [(st, mk("ispow2", c.args[0]))]


@intm("div_ceil")
def m_div_ceil(eng, st, c):
    return [(st, t.udiv(t.sub(t.add(c.args[0], c.args[1]), ONE), c.args[1]))]


@intm("pow", "count_ones", "leading_zeros", "trailing_zeros", "rotate_left", "rotate_right",
      "swap_bytes", "next_power_of_two", "ilog2")
def m_intfn(eng, st, c):
    return [(st, mk("fn", c.fn["name"], *c.args))]


@model("f32::from_bits", "f64::from_bits")
def m_from_bits(eng, st, c):
    v = c.args[0]
    return [(st, v.args[0] if v.op == "fbits" else mk("bitsf", v))]


@model("f32::to_bits", "f64::to_bits")
def m_to_bits(eng, st, c):
    v = c.args[0]
    if v.op == "flt":
        return [(st, I(v.args[0]))]
    return [(st, v.args[0] if v.op == "bitsf" else mk("fbits", v))]


@model("f64::sqrt", "f32::sqrt", "f64::ln", "f64::log2", "f64::floor", "f64::ceil", "f64::round",
       "f32::floor", "f64::abs", "f32::abs", "f64::exp", "f64::powi", "f64::powf", "f32::powi",
       "f32::powf", "f64::max", "f64::min", "f32::max", "f32::min")
def m_ffn(eng, st, c):
    return [(st, mk("ffn", c.fn["name"], *c.args))]


@model("slice::from_ref", "slice::from_mut", "array::from_ref")
def m_from_ref(eng, st, c):
    v = eng.read(st, c.args[0])
    base = ("K", ("from_ref", v))
    return [(st, mk("ref", base, ()))]


@model("Box::new", "Box::from", "Box|From::from", "Rc::new", "Arc::new")
def m_box_new(eng, st, c):
    base = ("B", c.fr.ctx, c.block)
    st.mem[base] = c.args[0]
    return [(st, mk("ref", base, ()))]


@model("Box::new_uninit")
def m_box_uninit(eng, st, c):
    base = ("B", c.fr.ctx, c.block)
    st.mem[base] = mk("undef", "box")
    return [(st, mk("ref", base, ()))]


@model("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec")
def m_box_into_vec(eng, st, c):
    return [(st, eng.read(st, c.args[0]))]


@model("vec::from_elem")
def m_from_elem(eng, st, c):
    n = c.args[1]
    if n.op == "i" and n.args[0] <= 8:
        k = n.args[0]
        return [(st, mk("arr", *[c.args[0]] * k) if k else VNIL)]
    return [(st, mk("fill", c.args[0], n))]


@model("array|Default::default")
def m_array_default(eng, st, c):
    d = eng.ty(c.destty)
    n = int(d.get("len") or 0)
    v = default_value(eng, d.get("ty", "?"))
    x = d.get("ty", "?")
    ti = eng.tinfo(x)
    k = 0
    while v is None and ti[0] == "newtype" and k < 5:
        x = ti[2][ti[1]]
        ti = eng.tinfo(x)
        v = default_value(eng, x)
        k += 1
    if v is None or n > 16:
        return None
    return [(st, mk("arr", *[v] * n) if n else VNIL)]


@model("Option|Clone::clone", "Option::cloned_", "u32|Clone::clone", "usize|Clone::clone", "bool|Clone::clone",
       "u64|Clone::clone", "u8|Clone::clone")
def m_oclone(eng, st, c):
    return [(st, eng.read(st, c.args[0]))]


@model("u32|PartialOrd::partial_cmp", "usize|PartialOrd::partial_cmp", "u64|PartialOrd::partial_cmp")
def m_partial_cmp(eng, st, c):
    a, b = eng.read(st, c.args[0]), eng.read(st, c.args[1])
    return [(s, some(x)) for s, x in cmp3(eng, st, a, b)]


@model("u32|Ord::cmp", "usize|Ord::cmp", "u64|Ord::cmp", "isize|Ord::cmp")
def m_cmp(eng, st, c):
    a, b = eng.read(st, c.args[0]), eng.read(st, c.args[1])
    return cmp3(eng, st, a, b)


def cmp3(eng, st, a, b):
    out = []
    for s, v in eng.fork(st, t.lt(a, b)):
        if v:
            out.append((s, t.en(0)))
        else:
            for s2, w in eng.fork(s, t.eq(a, b)):
                out.append((s2, t.en(1) if w else t.en(2)))
    return out


def _cmpop(f):
    def g(eng, st, c):
        a, b = eng.read(st, c.args[0]), eng.read(st, c.args[1])
        return [(st, f(a, b))]
    return g


for _ty in ("u8", "u16", "u32", "u64", "usize", "isize", "i32", "i64", "i8", "i16"):
    MODELS[_ty + "|PartialEq::eq"] = _cmpop(t.eq)
    MODELS[_ty + "|PartialEq::ne"] = _cmpop(lambda a, b: t.notb(t.eq(a, b)))
    MODELS[_ty + "|PartialOrd::lt"] = _cmpop(t.lt)
    MODELS[_ty + "|PartialOrd::le"] = _cmpop(t.le)
    MODELS[_ty + "|PartialOrd::gt"] = _cmpop(lambda a, b: t.lt(b, a))
    MODELS[_ty + "|PartialOrd::ge"] = _cmpop(lambda a, b: t.le(b, a))


# ---------------------------------------------------------------- formatting, time, io

@model("Argument::new_debug", "Argument::new_display", "Argument::new_lower_hex", "Arguments::new",
       "Arguments::from_str", "Arguments::from_str_nonconst", "Location::caller", "Location::file",
       "Location::line", "fmt::format", "Arguments::new_const", "Arguments::new_v1",
       "Argument::from_usize", "Instant::now", "Instant|Sub::sub", "Instant::elapsed",
       "Duration::as_millis", "Duration::as_secs_f64", "io::stdout", "Stdout::lock", "io::_print",
       "io::_eprint", "Write::write_fmt", "Formatter::write_str", "Arguments::estimated_capacity")
def m_pure(eng, st, c):
    if eng.tinfo(c.destty) == ("struct", []):
        return [(st, UNIT)]
    return [(st, eng.fresh(c))]


# ---------------------------------------------------------------- functions taking closures

def closure_key(eng, ty, fr=None):
    """Body of a closure type, for the instance of the function that made it if that is running."""
    m = eng._tc.get("#clo")
    if m is None:
        m = eng._tc["#clo"] = {}
        for cr in eng.crates:
            for k, b in cr.raw.items():
                for blk in b.get("blocks", ()):
                    for s in blk["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                            m.setdefault(s[2][1][1], []).append((s[2][1][2], k))
    ks = [(k, p) for k, p in m.get(ty, ()) if eng.body(k)[0] is not None]
    if len(ks) > 1 and fr is not None:
        up = {x.key for x in fr.chain()}
        for k, p in ks:
            if p in up:
                return k
    return ks[0][0] if ks else None


@model("#callf")
def m_callf(eng, st, c):
    """#callf(f, args...): calls a function value; the type of f is the first argument type."""
    return call_value(eng, st, c, c.args[0], c.argtys[0], c.args[1:], c.argtys[1:])


def call_value(eng, st, c, f, fty, args, argtys):
    d = eng.ty(fty)
    k = 0
    while d["k"] == "ref" and k < 4:
        f = eng.read(st, f)
        fty = d["ty"]
        d = eng.ty(fty)
        k += 1
    if f.op == "fnv":
        rec = eng.fnrecs.get(f.args[0])
        return eng.invoke(st, c.fr, c.block, rec, list(args), list(argtys), c.destty, c.span)
    if d["k"] == "closure":
        key = closure_key(eng, fty, c.fr)
        if key is None and d.get("path"):
            for cr in eng.crates:
                ks = cr.find(d["path"])
                if len(ks) == 1:
                    key = ks[0]
        if key is not None:
            if any(x.key == key for x in c.fr.chain()):
                return None
            body, _ = eng.body(key)
            base = None
            env = f
            if body.locals[1][0].startswith("&"):
                base = ("T", c.fr.ctx, c.block, "env")
                st.mem[base] = f
                env = mk("ref", base, ())
            outs = eng.run_fn(key, [env] + list(args), st, c.fr, c.block)
            if base is not None:
                for s, _ in outs:
                    s.mem.pop(base, None)
            return outs
    if d["k"] in ("param", "closure"):
        # the target is not known here
        fn = {"path": "std::ops::FnMut::call_mut", "name": "call_mut", "args": [], "kind": "trait"}
        return eng.invoke(st, c.fr, c.block, fn, [f, t.st(*args)], [fty, "?"], c.destty, c.span)
    return None


_synth = {}


def synth(eng, key, argtys, nlocals, blocks, ret="?"):
    """Registers a synthetic body."""
    k = "#synth:" + key + ":" + ",".join(argtys)
    if k not in eng.synth:
        loc = [[ret, None]] + [[a, None] for a in argtys]
        loc += [["?", None]] * (nlocals - len(loc))
        bl = []
        for s, tm in blocks:
            bl.append({"s": s, "t": tm, "sp": ["std", 0, 0], "cl": False})
        eng.synth[k] = Body(k, {"path": "#" + key, "argc": len(argtys), "locals": loc,
                                "blocks": bl, "kind": "Fn"})
    return k


def pfn(name):
    return ["k", {"ty": "?", "fn": {"path": name, "rpath": name, "name": name, "kind": "pseudo",
                                    "args": [], "key": None}}]


SP = ["std", 0, 0]
OPT = "#opt"


def run_synth(eng, st, c, key, argtys, nlocals, blocks, args, tys=None, ret="?"):
    eng._tc.setdefault(OPT, ("enum", [[], ["?"]], [0, 1]))
    k = synth(eng, key, argtys, nlocals, blocks, ret)
    b = eng.synth[k]
    for i, ty in (tys or {}).items():
        b.locals[i] = [ty, None]
    return eng.run_fn(k, args, st, c.fr, c.block)


def mv(l, *proj):
    return ["m", [l] + list(proj)]


def cp(l, *proj):
    return ["c", [l] + list(proj)]


SOME0 = (["v", 1, "Some"], ["f", 0, "?"])


def iter_loop(nextfn, itl, optl, dl, head, body, done, itty):
    """Blocks head: opt = next(&mut it); switch -> body / done."""
    return None


def next_call(eng, c, itty):
    """The function that advances an iterator of the given type."""
    d = eng.ty(itty)
    return pfn("#next")


def _loop_fn(kind):
    """fold/any/all/... over a slice iterator passed by value or by reference."""
    def m(eng, st, c):
        it = c.args[0]
        byref = eng.ty(c.argtys[0])["k"] == "ref"
        src = eng.read(st, it) if byref else it
        if src.op not in ("it", "dr"):
            return None
        fty = c.argtys[-1] if len(c.args) > 1 else "?"
        # locals: 1 = iterator (by value or by reference), 2.. = other arguments
        nxt_arg = 8
        if byref:
            take = ["=", [8], ["use", cp(1)], SP]
        else:
            take = ["=", [8], ["ref", "mut", [1]], SP]
        item = cp(9, *SOME0)
        if kind == "fold":
            blocks = [
                ([["=", [7], ["use", mv(2)], SP]], ["goto", 1]),
                ([take], ["call", pfn("#next"), [mv(8)], [9], 2, None, ["?"], OPT]),
                ([["=", [10], ["discr", [9], OPT], SP]],
                 ["switch", mv(10), "isize", [["0", 4]], 3]),
                ([], ["call", pfn("#callf"), [cp(3), mv(7), item], [7], 1, None,
                      [fty, "?", "?"], "?"]),
                ([["=", [0], ["use", mv(7)], SP]], ["return"]),
            ]
            return run_synth(eng, st, c, "fold", [c.argtys[0], "?", fty], 12, blocks, c.args,
                             {9: OPT})
        blocks = [
            ([["=", [7], ["use", ["k", {"ty": "usize", "val": {"int": "0", "size": 8}}]], SP]],
             ["goto", 1]),
            ([take], ["call", pfn("#next"), [mv(8)], [9], 2, None, ["?"], OPT]),
            ([["=", [10], ["discr", [9], OPT], SP]], ["switch", mv(10), "isize", [["0", 5]], 3]),
        ]
        T_ = ["k", {"ty": "bool", "val": {"int": "1", "size": 1}}]
        F_ = ["k", {"ty": "bool", "val": {"int": "0", "size": 1}}]
        inc = ["=", [7], ["bin", "Add", cp(7), ["k", {"ty": "usize", "val": {"int": "1", "size": 8}}],
                          "usize"], SP]
        call = ["call", pfn("#callf"), [cp(2), item], [11], 4, None, [fty, "?"], "?"]
        if kind == "for_each":
            blocks += [([], call), ([], ["goto", 1]),
                       ([["=", [0], ["use", ["k", {"ty": "()", "val": {"zst": True}}]], SP]],
                        ["return"])]
        elif kind in ("any", "all"):
            hit, res, dflt = (1, T_, F_) if kind == "any" else (0, F_, T_)
            sw = ["switch", cp(11), "bool", [["0", 6 if kind == "all" else 1]],
                  1 if kind == "all" else 6]
            blocks += [([], call), ([], sw), ([["=", [0], ["use", dflt], SP]], ["return"]),
                       ([["=", [0], ["use", res], SP]], ["return"])]
        elif kind == "position":
            blocks += [([], call), ([], ["switch", cp(11), "bool", [["0", 7]], 6]),
                       ([["=", [0], ["agg", ["adt", OPT, 0, None], []], SP]], ["return"]),
                       ([["=", [0], ["agg", ["adt", OPT, 1, None], [cp(7)]], SP]], ["return"]),
                       ([inc], ["goto", 1])]
        elif kind == "find":
            call2 = ["call", pfn("#callf"), [cp(2), mv(6)], [11], 4, None, [fty, "?"], "?"]
            blocks += [([["=", [5], ["use", item], SP], ["=", [6], ["ref", "shared", [5]], SP]],
                        call2),
                       ([], ["switch", cp(11), "bool", [["0", 1]], 6]),
                       ([["=", [0], ["agg", ["adt", OPT, 0, None], []], SP]], ["return"]),
                       ([["=", [0], ["agg", ["adt", OPT, 1, None], [cp(5)]], SP]], ["return"])]
        return run_synth(eng, st, c, kind, [c.argtys[0], fty], 12, blocks, c.args,
                         {9: OPT, 11: "bool", 7: "usize"}, ret=OPT if kind in (
                             "position", "find") else "bool" if kind in ("any", "all") else "()")
    return m


for _k in ("fold", "for_each", "any", "all", "position", "find"):
    for _it in ("Iter", "IterMut", "Drain", "IntoIter"):
        MODELS["%s|Iterator::%s" % (_it, _k)] = _loop_fn(_k)


@model("Vec::retain", "Vec::retain_mut")
def m_retain(eng, st, c):
    """retain(&mut vec, f): elements are offered in order, the accepted ones are kept in order."""
    fty = c.argtys[1]
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    # locals: 1 = &mut vec, 2 = f, 3 = iterator, 4 = kept
    blocks = [
        ([], ["call", pfn("#drainall"), [cp(1)], [3], 1, None, ["?"], "?"]),
        ([["=", [8], ["ref", "mut", [3]], SP]],
         ["call", pfn("#next"), [mv(8)], [9], 2, None, ["?"], OPT]),
        ([["=", [10], ["discr", [9], OPT], SP]], ["switch", mv(10), "isize", [["0", 6]], 3]),
        ([["=", [5], ["use", cp(9, *SOME0)], SP], ["=", [6], ["ref", "mut", [5]], SP]],
         ["call", pfn("#callf"), [cp(2), mv(6)], [11], 4, None, [fty, "?"], "bool"]),
        ([], ["switch", cp(11), "bool", [["0", 1]], 5]),
        ([], ["call", pfn("#pushv"), [cp(1), cp(5)], [7], 1, None, ["?", "?"], "()"]),
        ([["=", [0], ["use", ["k", {"ty": "()", "val": {"zst": True}}]], SP]], ["return"]),
    ]
    return run_synth(eng, st, c, "retain", [c.argtys[0], fty], 12, blocks, c.args,
                     {9: OPT, 11: "bool"}, ret="()")


@model("#drainall")
def m_drainall(eng, st, c):
    b, p = eng.deref(st, c.args[0])
    a = eng.rd(st, b, p)
    eng.wr(st, b, p, VNIL, c.fr, c.span)
    return [(st, mk("dr", a, ZERO, t.length(a)))]


MODELS["#pushv"] = m_push


@model("slice::binary_search_by", "slice::binary_search", "slice::binary_search_by_key",
       "slice::partition_point")
def m_bsearch(eng, st, c):
    r = eng.fresh(c)
    if not c.path.endswith("partition_point"):
        eng.disc_types[t.disc(r)] = [0, 1]
    return [(st, r)]
