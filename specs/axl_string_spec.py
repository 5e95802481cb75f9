"""Contracts of the string helpers of src/axl_stream.c.

A text at p is the bytes from p up to the first NUL of its block (is_cstr); slen is its length.
firstnb and lastnb are the positions of the first and the last byte that is not a blank."""
from z3 import *
from vc import *
from lib import is_cstr, is_len

CONTRACTS = {}
firstnb = Function("firstnb", AI, INT, INT)
lastnb = Function("lastnb", AI, INT, INT, INT)


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def blank(c): return Or(c == 32, c == 10, c == 9, c == 13)
def upper(c): return If(And(c >= 97, c <= 122), c - 32, c)
def lower(c): return If(And(c >= 65, c <= 90), c + 32, c)


_r, _o, _k, _e = Const("str_r", AI), Int("str_o"), Int("str_k"), Int("str_e")
# definitions: the length is the distance to the first NUL (if there is one), and so on
BACKGROUND.append(ForAll([_r, _o, _k], Implies(And(_k >= _o, Select(_r, _k) == 0), And(0 <= slen(_r, _o), slen(_r, _o) <= _k - _o, Select(_r, _o + slen(_r, _o)) == 0)), patterns=[MultiPattern(slen(_r, _o), Select(_r, _k))]))
BACKGROUND.append(ForAll([_r, _o, _k], Implies(And(_o <= _k, _k < _o + slen(_r, _o)), Select(_r, _k) != 0), patterns=[MultiPattern(slen(_r, _o), Select(_r, _k))]))
BACKGROUND.append(ForAll([_r, _o, _k], Implies(And(_k >= _o, Not(blank(Select(_r, _k)))), And(_o <= firstnb(_r, _o), firstnb(_r, _o) <= _k, Not(blank(Select(_r, firstnb(_r, _o)))))), patterns=[MultiPattern(firstnb(_r, _o), Select(_r, _k))]))
BACKGROUND.append(ForAll([_r, _o, _k], Implies(And(_o <= _k, _k < firstnb(_r, _o)), blank(Select(_r, _k))), patterns=[MultiPattern(firstnb(_r, _o), Select(_r, _k))]))
BACKGROUND.append(ForAll([_r, _o, _e], Implies(_e >= _o, And(_o - 1 <= lastnb(_r, _o, _e), lastnb(_r, _o, _e) < _e, Implies(lastnb(_r, _o, _e) >= _o, Not(blank(Select(_r, lastnb(_r, _o, _e))))))), patterns=[lastnb(_r, _o, _e)]))
BACKGROUND.append(ForAll([_r, _o, _e, _k], Implies(And(lastnb(_r, _o, _e) < _k, _k < _e), blank(Select(_r, _k))), patterns=[MultiPattern(lastnb(_r, _o, _e), Select(_r, _k))]))


def R(v, p): return v.bytes(p)
def n_(v, p): return slen(v.bytes(p), off(p))
def small(v, p): return n_(v, p) < 2 ** 31 - 2


def text_at(row, o, n, src, so):
    """row holds at o the n bytes src holds at so"""
    return q1(lambda j: Implies(And(o <= j, j < o + n), Select(row, j) == Select(src, so + (j - o))), lambda j: Select(row, j), "j")


def same_text(v, p, q):
    return And(n_(v, p) == n_(v, q), text_at(R(v, p), off(p), n_(v, p), R(v, q), off(q)))


def readable(v, p, n): return And(p != 0, v.alloc(blk(p)), off(p) >= 0, n >= 0, off(p) + n <= bsize(blk(p)))


def ondist(lc):
    """(distance walked, valid) for every counter and every pointer walking a text"""
    out = []
    for k, (t, v, e) in enumerate(lc.phis):
        if t in ("i32", "i64"):
            out.append((k, v, BoolVal(True)))
        elif t == "ptr":
            out.append((k, off(v) - off(e), And(blk(v) == blk(e), v != 0)))
    return out


class StrC(Contract):
    tags = ("C08",)
    modifies = []
    texts = ()          # arguments that are texts (or NULL)

    def requires(self, pre, a):
        return [("text%d" % i, Implies(a[i] != 0, And(is_cstr(pre, a[i]), small(pre, a[i])))) for i in self.texts]

    def extra_ints(self, pre, a):
        return [n_(pre, a[i]) for i in self.texts]

    def loops(self, lc):
        out = []
        for k, d, ok in ondist(lc):
            out.append(("walk%d" % k, And(ok, d >= 0)))
            for i in self.texts:
                out.append(("within%d.%d" % (k, i), d <= n_(lc.pre, lc.args[i])))
        return out


@contract
class Cmp(StrC):
    name = "axl_cmp"
    texts = (0, 1)

    def ensures(self, pre, post, a, ret, w):
        return [("C08:equal-texts", (ret != 0) == And(a[0] != 0, a[1] != 0, same_text(pre, a[0], a[1])))]

    def loops(self, lc):
        out = super().loops(lc)
        p, q = lc.args[:2]
        for k, d, ok in ondist(lc):
            out.append(("equal%d" % k, text_at(R(lc.pre, p), off(p), d, R(lc.pre, q), off(q))))
        return out


class MemCmp(StrC):
    def requires(self, pre, a):
        n = a[2]
        out = []
        for i in (0, 1):
            p = a[i]
            out.append(("text%d" % i, Or(*([p == 0] if self.nullok else []), And(p != 0, Or(And(n > 0, readable(pre, p, n)), is_cstr(pre, p))))))
        return out

    def ensures(self, pre, post, a, ret, w):
        p, q, n = a
        row, row2 = R(pre, p), R(pre, q)
        nn = [p != 0, q != 0] if self.nullok else []
        return [("C08:equal-bytes", (ret != 0) == And(*nn, n > 0, q1(lambda j: Implies(And(off(p) <= j, j < off(p) + n), And(Select(row, j) != 0, Select(row, j) == Select(row2, off(q) + (j - off(p))))), lambda j: Select(row, j), "j")))]

    def extra_ints(self, pre, a): return [n_(pre, a[0]), n_(pre, a[1])]

    def loops(self, lc):
        p, q, n = lc.args
        row, row2 = R(lc.pre, p), R(lc.pre, q)
        out = []
        for k, d, ok in ondist(lc):
            out.append(("walk%d" % k, And(ok, d >= 0, Or(d < n, n <= 0))))
            out.append(("in1.%d" % k, Implies(is_cstr(lc.pre, p), d <= n_(lc.pre, p))))
            out.append(("in2.%d" % k, Implies(is_cstr(lc.pre, q), d <= n_(lc.pre, q))))
            out.append(("equal%d" % k, q1(lambda j: Implies(And(off(p) <= j, j < off(p) + d), And(Select(row, j) != 0, Select(row, j) == Select(row2, off(q) + (j - off(p))))), lambda j: Select(row, j), "j")))
        return out

    def variants(self, lc):
        p, q, n = lc.args
        return [("left%d" % k, If(n > 0, n, n_(lc.pre, p)) - d) for k, d, ok in ondist(lc)]


@contract
class AxlMemcmp(MemCmp):
    name, nullok = "axl_memcmp", False


@contract
class StreamCmp(MemCmp):
    name, nullok = "axl_stream_cmp", True

    def ensures(self, pre, post, a, ret, w):
        p, q, n = a
        row, row2 = R(pre, p), R(pre, q)
        if is_int_value(n) and n.as_long() <= 16:      # a call with a constant size: the same, written out
            n = n.as_long()
            return [("C08:equal-bytes", (ret != 0) == And(p != 0, q != 0, n > 0, *[And(Or(Select(row, off(p) + k) != 0, n == 1), Select(row, off(p) + k) == Select(row2, off(q) + k)) for k in range(n)]))]
        return [("C08:equal-bytes", (ret != 0) == And(p != 0, q != 0, n > 0, q1(lambda j: Implies(And(off(p) <= j, j < off(p) + n), And(Or(Select(row, j) != 0, n == 1), Select(row, j) == Select(row2, off(q) + (j - off(p))))), lambda j: Select(row, j), "j")))]


@contract
class IsBlank(StrC):
    name = "axl_stream_is_white_space"
    def requires(self, pre, a): return [("one-byte", Or(a[0] == 0, readable(pre, a[0], IntVal(1))))]
    def ensures(self, pre, post, a, ret, w):
        return [("C08:blank", (ret != 0) == And(a[0] != 0, blank(Select(R(pre, a[0]), off(a[0])))))]
    def extra_ints(self, pre, a): return []


class Dup(StrC):
    texts = (0,)
    modifies = ["alloc", "B", "A:ptr"]

    def ensures(self, pre, post, a, ret, w):
        p = a[0]
        n = n_(pre, p)
        return self.fresh_text(pre, post, p, ret, p != 0, n, lambda row: [("C08:same-text", text_at(row, IntVal(0), n, R(pre, p), off(p)))])

    def fresh_text(self, pre, post, p, ret, g, n, what):
        row = Select(post.m("B"), ret)
        out = [("C08:nothing-to-copy", Implies(Not(g), And(ret == 0, post.m("alloc") == pre.m("alloc")))),
               ("C08:own-memory", Implies(g, And(ret != 0, Not(pre.alloc(ret)), blk(ret) == ret, off(ret) == 0, bsize(ret) >= n + 1, post.m("alloc") == Store(pre.m("alloc"), ret, True)))),
               ("C08:terminated", Implies(g, Select(row, n) == 0))]
        return out + [(l, Implies(g, f)) for l, f in what(row)]


@contract
class StreamDup(Dup):
    name = "axl_stream_strdup"


@contract
class AxlDup(Dup):
    name = "axl_strdup"


@contract
class DupN(Dup):
    name = "axl_stream_strdup_n"
    def requires(self, pre, a): return [("readable", Or(a[0] == 0, And(a[1] >= 0, readable(pre, a[0], a[1]))))]
    def extra_ints(self, pre, a): return []
    def ensures(self, pre, post, a, ret, w):
        p, n = a
        return self.fresh_text(pre, post, p, ret, And(p != 0, n != 0), n, lambda row: [("C08:same-bytes", text_at(row, IntVal(0), n, R(pre, p), off(p)))])


@contract
class Concat(Dup):
    name = "axl_stream_concat"
    texts = (0, 1)
    def requires(self, pre, a): return super().requires(pre, a) + [("total-length", n_(pre, a[0]) + n_(pre, a[1]) < 2 ** 31 - 2)]
    def ensures(self, pre, post, a, ret, w):
        p, q = a
        n = If(p != 0, n_(pre, p), 0)
        m = If(q != 0, n_(pre, q), 0)
        return self.fresh_text(pre, post, p, ret, Or(p != 0, q != 0), n + m, lambda row: [("C08:first-text", Implies(p != 0, text_at(row, IntVal(0), n, R(pre, p), off(p)))),
                                                                                       ("C08:second-text", Implies(q != 0, text_at(row, n, m, R(pre, q), off(q))))])


class CaseC(StrC):
    texts = (0,)
    modifies = ["B"]

    def frame(self, pre, a): return {"B": lambda x: And(a[0] != 0, x == blk(a[0]))}

    def up(self, a): return None

    def conv(self, a, c):
        u = self.up(a)
        return upper(c) if u is True else lower(c) if u is False else If(u, upper(c), lower(c))

    def ensures(self, pre, post, a, ret, w):
        p = a[0]
        n, r0, r1 = n_(pre, p), R(pre, p), R(post, p)
        out = [("C08:converted", Implies(p != 0, q1(lambda j: Select(r1, j) == If(And(off(p) <= j, j < off(p) + n), self.conv(a, Select(r0, j)), Select(r0, j)), lambda j: Select(r1, j), "j")))]
        if ret is not None:
            out.append(("C08:same-reference", ret == p))
        return out

    def loops(self, lc):
        p = lc.args[0]
        r0, r1 = R(lc.pre, p), R(lc.post, p)
        out = super().loops(lc)
        for k, d, ok in ondist(lc):
            out.append(("done%d" % k, q1(lambda j: Select(r1, j) == If(And(off(p) <= j, j < off(p) + d), self.conv(lc.args, Select(r0, j)), Select(r0, j)), lambda j: Select(r1, j), "j")))
        return out


@contract
class CommonTo(CaseC):
    name = "__axl_stream_common_to"
    def up(self, a): return a[1] != 0


@contract
class ToUpper(CaseC):
    name = "axl_stream_to_upper"
    def up(self, a): return True


@contract
class ToLower(CaseC):
    name = "axl_stream_to_lower"
    def up(self, a): return False


class CaseCopy(Dup):
    def ensures(self, pre, post, a, ret, w):
        p = a[0]
        n, r0 = n_(pre, p), R(pre, p)
        return self.fresh_text(pre, post, p, ret, p != 0, n, lambda row: [("C08:converted-copy", q1(lambda j: Implies(And(0 <= j, j < n), Select(row, j) == self.conv(Select(r0, off(p) + j))), lambda j: Select(row, j), "j"))])


@contract
class ToUpperCopy(CaseCopy):
    name = "axl_stream_to_upper_copy"
    def conv(self, c): return upper(c)


@contract
class ToLowerCopy(CaseCopy):
    name = "axl_stream_to_lower_copy"
    def conv(self, c): return lower(c)


class Trim(StrC):
    texts = (0,)
    modifies = ["B", "A:i32"]
    def frame(self, pre, a):
        d = {"B": lambda x: And(a[0] != 0, x == blk(a[0]))}
        if len(a) > 1:
            d["A:i32"] = lambda x: x == a[1]
        return d

    def requires(self, pre, a):
        return super().requires(pre, a) + ([("result-cell", Or(a[1] == 0, And(pre.alloc(a[1]), bsize(a[1]) >= 4)))] if len(a) > 1 else [])

    def shape(self, v, p):
        r, o, n = R(v, p), off(p), n_(v, p)
        f = firstnb(r, o)
        return r, o, n, f, If(f == o + n, 0, lastnb(r, o, o + n) - f + 1)

    def extra_ints(self, pre, a):
        r, o, n, f, m = self.shape(pre, a[0])
        return [n, f - o, lastnb(r, o, o + n) - o, m]

    def ensures(self, pre, post, a, ret, w):
        p = a[0]
        r, o, n, f, m = self.shape(pre, p)
        r1 = R(post, p)
        out = [("C08:kept-part", text_at(r1, o, m, r, f)), ("C08:ends-there", And(Select(r1, o + m) == 0, 0 <= m, m <= n)),
               ("C08:bytes-outside", q1(lambda j: Implies(Or(j < o, j > o + n), Select(r1, j) == Select(r, j)), lambda j: Select(r1, j), "j"))]
        if len(a) > 1:
            out.append(("C08:amount-trimmed", Implies(a[1] != 0, Select(Select(post.m("A:i32"), a[1]), 0) == n - m)))
        return [(l, Implies(p != 0, g)) for l, g in out]

    def loops(self, lc):
        p = lc.args[0]
        r, o, n, f, m = self.shape(lc.pre, p)
        r1 = R(lc.post, p)
        l = lastnb(r, o, o + n)
        out = []
        for k, d, ok in ondist(lc):
            out += [("walk%d" % k, And(ok, d >= 0)), ("lead%d" % k, d <= f - o), ("trail%d" % k, And(l - o <= d, d < n)), ("copied%d" % k, And(d >= 0, d <= m)),
                    ("prefix%d" % k, text_at(r1, o, d, r, f))]
            out += [("rest%d" % k, q1(lambda j: Implies(Or(j < o, j >= o + d), Select(r1, j) == Select(r, j)), lambda j: Select(r1, j), "j"))]
        return out


@contract
class TrimSize(Trim):
    name = "axl_stream_trim_with_size"


@contract
class TrimPlain(Trim):
    name = "axl_stream_trim"


def vec_parts(v, c, n):
    """c: array of references ended by NULL after n of them"""
    row = v.aptr(c)
    return [("array", And(c != 0, v.alloc(c), blk(c) == c, off(c) == 0, n >= 0, 8 * n + 8 <= bsize(c), Select(row, n) == 0)),
            ("references", q1(lambda j: Implies(And(0 <= j, j < n), Select(row, j) != 0), lambda j: Select(row, j), "j"))]


vlen = Function("vlen", AI, INT)     # position of the first NULL of an array


class VecC(StrC):
    def requires(self, pre, a):
        c = a[0]
        return [(l, Implies(c != 0, f)) for l, f in vec_parts(pre, c, vlen(pre.aptr(c)))] + [("count", vlen(pre.aptr(c)) < 2 ** 31 - 2)]
    def extra_ints(self, pre, a): return [vlen(pre.aptr(a[0]))]
    def loops(self, lc): return [("walk%d" % k, And(ok, d >= 0, d <= vlen(lc.pre.aptr(lc.args[0])))) for k, d, ok in ondist(lc)]


@contract
class StrvNum(VecC):
    name = "axl_stream_strv_num"
    def ensures(self, pre, post, a, ret, w):
        return [("C08:count", ret == If(a[0] == 0, -1, vlen(pre.aptr(a[0]))))]


@contract
class Freev(VecC):
    name = "axl_stream_freev"
    modifies = ["alloc"]
    def requires(self, pre, a):
        c = a[0]
        row = pre.aptr(c)
        n = vlen(row)
        return super().requires(pre, a) + [("own-texts", Implies(c != 0, q1(lambda j: Implies(And(0 <= j, j < n), And(pre.alloc(Select(row, j)), Select(row, j) != c)), lambda j: Select(row, j), "j"))),
                                           ("texts-differ", Implies(c != 0, q2(lambda i, j: Implies(And(0 <= i, i < j, j < n), Select(row, i) != Select(row, j)), lambda i, j: MultiPattern(Select(row, i), Select(row, j)), ("i", "j"))))]

    def ensures(self, pre, post, a, ret, w):
        c = a[0]
        row = pre.aptr(c)
        n = vlen(row)
        al, al2 = pre.m("alloc"), post.m("alloc")
        x, j = FreshInt("x"), FreshInt("j")
        return [("C08:texts-released", Implies(c != 0, q1(lambda j: Implies(And(0 <= j, j < n), Not(Select(al2, Select(row, j)))), lambda j: Select(row, j), "j"))),
                ("C08:array-released", Implies(c != 0, Not(Select(al2, c)))),
                ("C08:nothing-new", q1(lambda x: Implies(Select(al2, x), Select(al, x)), lambda x: Select(al2, x), "x")),
                ("C08:nothing-else-released", q1(lambda x: Implies(And(Select(al, x), Not(Select(al2, x))), Or(x == c, Exists([j], And(0 <= j, j < n, Select(row, j) == x)))), lambda x: Select(al2, x), "x"))]

    def loops(self, lc):
        c = lc.args[0]
        row = lc.pre.aptr(c)
        al, al2 = lc.pre.m("alloc"), lc.post.m("alloc")
        out = super().loops(lc)
        j = FreshInt("j")
        for k, d, ok in ondist(lc):
            out += [("released%d" % k, q1(lambda i: Implies(And(0 <= i, i < d), Not(Select(al2, Select(row, i)))), lambda i: Select(row, i), "i")),
                    ("left%d" % k, q1(lambda i: Implies(And(d <= i, i < vlen(row)), Select(al2, Select(row, i))), lambda i: Select(row, i), "i")),
                    ("array-live%d" % k, Select(al2, c)), ("less%d" % k, q1(lambda x: Implies(Select(al2, x), Select(al, x)), lambda x: Select(al2, x), "x")),
                    ("only%d" % k, q1(lambda x: Implies(And(Select(al, x), Not(Select(al2, x))), Exists([j], And(0 <= j, j < d, Select(row, j) == x))), lambda x: Select(al2, x), "x"))]
        return out
