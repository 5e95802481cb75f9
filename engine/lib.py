"""Assumed contracts of libc functions (the only trusted bodies)."""
from z3 import *
from vc import *

TRUSTED = {}


def libfn(name, modifies=(), doc=""):
    def d(f):
        f.modifies = list(modifies)
        TRUSTED[name] = f
        f.doc = doc
        return f
    return d


def new_block(eng, st, size, zero=True):
    p = eng.fresh(st, "new")
    al = eng.getmap(st.maps, "alloc")
    st.facts += [p != 0, Not(Select(al, p)), blk(p) == p, off(p) == 0, bsize(p) == size, Not(ro(p))]
    st.facts.append(Not(Select(Const("alloc!0", AB), p)))
    for l in st.maps.get("__lits__", ()):
        st.facts.append(p != l)
    st.maps["alloc"] = Store(al, p, BoolVal(True))
    if zero:
        eng.zero(st, p, size)
    else:
        st.maps["B"] = Store(eng.getmap(st.maps, "B"), p, eng.fresh(st, "junk", AI))
        st.maps["A:ptr"] = Store(eng.getmap(st.maps, "A:ptr"), p, eng.fresh(st, "junk", AI))
    eng.assumptions.add("memory allocation succeeds and never returns the address of an object that was allocated when the function was entered")
    return p


@libfn("calloc", ["alloc", "B", "A:ptr"], "fresh zeroed block")
def _calloc(eng, st, ins, a):
    return new_block(eng, st, simplify(a[0] * a[1]))


@libfn("malloc", ["alloc", "B", "A:ptr"], "fresh block")
def _malloc(eng, st, ins, a):
    return new_block(eng, st, a[0], zero=False)


@libfn("free", ["alloc"], "releases a live block")
def _free(eng, st, ins, a):
    p = a[0]
    if isinstance(p, Loc):
        raise Unsupported("free of an interior address")
    al = eng.getmap(st.maps, "alloc")
    eng.oblige(st, "free-of-live-block", Or(p == 0, Select(al, p)), ins.line, "safety")
    st.facts.append(Or(p == 0, Select(al, p)))
    st.maps["alloc"] = Store(al, p, BoolVal(False))
    return None


@libfn("realloc", ["alloc", "B", "A:ptr"], "new block, old contents kept up to the smaller size, old block released")
def _realloc(eng, st, ins, a):
    p, n = a
    al = eng.getmap(st.maps, "alloc")
    eng.oblige(st, "realloc-of-live-block", Or(p == 0, Select(al, p)), ins.line, "safety")
    q = eng.fresh(st, "new")
    st.facts += [Or(p == 0, Select(al, p)), q != 0, Not(Select(al, q)), blk(q) == q, off(q) == 0, bsize(q) == n, n <= 2 ** 30, Not(ro(q))]
    st.facts.append(Not(Select(Const("alloc!0", AB), q)))
    for nm, sz in (("B", 1), ("A:ptr", 8)):
        m = eng.getmap(st.maps, nm)
        row = eng.fresh(st, "row", AI)
        old = Select(m, p)
        i = FreshInt("i")
        st.facts.append(ForAll([i], Implies(And(i >= 0, sz * i + sz <= bsize(p), sz * i + sz <= n, p != 0), Select(row, i) == Select(old, i)), patterns=[Select(row, i)]))
        st.maps[nm] = Store(m, q, row)
    st.maps["alloc"] = Store(Store(al, p, BoolVal(False)), q, BoolVal(True))
    eng.assumptions.add("realloc is modelled as always moving the block; blocks above 1 GiB are out of scope")
    return q


def is_cstr(view, p):
    """NUL-terminated string at p inside a live block"""
    row = view.bytes(p)
    n = slen(row, off(p))
    return And(p != 0, view.alloc(blk(p)), off(p) >= 0, n >= 0, off(p) + n < bsize(blk(p)), Select(row, off(p) + n) == 0,
               q1(lambda j: Implies(And(off(p) <= j, j < off(p) + n), Select(row, j) != 0), lambda j: Select(row, j), "j"))


def cstr_at(row, o):
    n = slen(row, o)
    return And(n >= 0, Select(row, o + n) == 0,
               q1(lambda j: Implies(And(o <= j, j < o + n), Select(row, j) != 0), lambda j: Select(row, j), "j"))


def is_len(row, o, n):
    """n is the distance to the first NUL from o"""
    return And(n >= 0, Select(row, o + n) == 0,
               q1(lambda j: Implies(And(o <= j, j < o + n), Select(row, j) != 0), lambda j: Select(row, j), "j"))


@libfn("strlen", [], "length of a NUL-terminated string")
def _strlen(eng, st, ins, a):
    v = View(st.maps, eng)
    p = eng.toint(st, a[0])
    b, o = eng.split(st, p)
    row = Select(eng.getmap(st.maps, "B"), b)
    n = slen(row, o)
    # there is a terminator inside the block at or after p
    eng.oblige(st, "strlen-of-terminated-string", And(p != 0, v.alloc(b), o >= 0, n >= 0, o + n < bsize(b), is_len(row, o, n)), ins.line, "safety")
    st.facts += [v.alloc(b), n >= 0, o + n < bsize(b), is_len(row, o, n)]
    return n


@libfn("axl_log", [], "no effect on program state")
def _log(eng, st, ins, a):
    return None


for _n in ("__axl_log", "__axl_log2", "fprintf", "printf", "fflush", "llvm.va_start", "llvm.va_end", "llvm.va_start.p0", "llvm.va_end.p0"):
    TRUSTED[_n] = _log
for _n in ("axl_log_is_enabled", "axl_log_color_is_enabled"):
    pass


def _memcpy_common(eng, st, ins, a, line):
    d, s, n = eng.toint(st, a[0]), eng.toint(st, a[1]), a[2]
    v = View(st.maps, eng)
    (db, do), (sb, so) = eng.split(st, d), eng.split(st, s)
    ok = And(v.alloc(db), v.alloc(sb), do >= 0, so >= 0, do + n <= bsize(db), so + n <= bsize(sb))
    eng.oblige(st, "memcpy-in-bounds", Or(n == 0, And(n >= 0, ok)), line, "safety")
    st.facts.append(Or(n == 0, And(n >= 0, ok)))
    m = eng.getmap(st.maps, "B")
    row = eng.fresh(st, "row", AI)
    old, src = Select(m, db), Select(m, sb)
    i = FreshInt("i")
    st.facts.append(ForAll([i], Select(row, i) == If(And(do <= i, i < do + n), Select(src, so + (i - do)), Select(old, i)), patterns=[Select(row, i)]))
    st.maps["B"] = Store(m, db, row)
    return d


@libfn("memcpy", ["B"], "copies n bytes between live blocks")
def _memcpy(eng, st, ins, a):
    return _memcpy_common(eng, st, ins, a, ins.line)


TRUSTED["memmove"] = _memcpy
TRUSTED["llvm.memcpy.p0.p0.i64"] = _memcpy
TRUSTED["llvm.memmove.p0.p0.i64"] = _memcpy


@libfn("memset", ["B", "A:ptr"], "fills n bytes")
def _memset(eng, st, ins, a):
    d, c, n = eng.toint(st, a[0]), a[1], a[2]
    v = View(st.maps, eng)
    db, do = eng.split(st, d)
    ok = Or(n == 0, And(n >= 0, v.alloc(db), do >= 0, do + n <= bsize(db)))
    eng.oblige(st, "memset-in-bounds", ok, ins.line, "safety")
    st.facts.append(ok)
    m = eng.getmap(st.maps, "B")
    row = eng.fresh(st, "row", AI)
    i = FreshInt("i")
    cc = eng.fresh(st, "fillbyte")
    st.facts += rng("i8", cc) + [Implies(And(*rng("i8", c)), cc == c)]
    st.facts.append(ForAll([i], Select(row, i) == If(And(do <= i, i < do + n), cc, Select(Select(m, db), i)), patterns=[Select(row, i)]))
    st.maps["B"] = Store(m, db, row)
    # pointer view of the same bytes
    m2 = eng.getmap(st.maps, "A:ptr")
    row2 = eng.fresh(st, "row", AI)
    j = FreshInt("j")
    st.facts.append(ForAll([j], Implies(And(c == 0), Select(row2, j) == If(And(8 * j >= do, 8 * j + 8 <= do + n), 0, Select(Select(m2, db), j))), patterns=[Select(row2, j)]))
    st.maps["A:ptr"] = Store(m2, db, row2)
    return d


TRUSTED["llvm.memset.p0.i64"] = _memset

lower = Function("tolower_c", INT, INT)


@libfn("tolower", [], "C locale case folding (uninterpreted, idempotent on letters)")
def _tolower(eng, st, ins, a):
    x = a[0]
    r = If(And(x >= 65, x <= 90), x + 32, x)
    return r


@libfn("toupper", [], "C locale")
def _toupper(eng, st, ins, a):
    x = a[0]
    return If(And(x >= 97, x <= 122), x - 32, x)
