"""Contracts of the escaping functions of src/axl_node.c.

esz(row,o,n,i,cd) is the size of the escaped form of the bytes i..n of the text at o (cd: inside a CDATA
section); it is a sum, so what was written before byte i is esz(0)-esz(i).
upos(row,o,n,k) is where the k-th character of the translation comes from."""
from z3 import *
from vc import *
from lib import is_cstr
from axl_string_spec import readable, ondist, n_, text_at
from axl_babel_spec import mark

CONTRACTS = {}
esz = Function("esz", AI, INT, INT, INT, INT, INT)
tsize = Function("tsize", AI, INT, INT, INT)
upos = Function("upos", AI, INT, INT, INT, INT)
ENT = [(39, b"&apos;"), (34, b"&quot;"), (38, b"&amp;"), (62, b"&gt;"), (60, b"&lt;")]


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def elen(c):
    r = IntVal(1)
    for ch, e in ENT:
        r = If(c == ch, len(e), r)
    return r


def cut(r, o, n, i, cd):
    """a CDATA section has to be closed and opened again around ]]>"""
    return And(cd != 0, i + 2 < n, Select(r, o + i) == 93, Select(r, o + i + 1) == 93, Select(r, o + i + 2) == 62)


def ematch(r, o, n, i, e): return And(i + len(e) <= n, *[Select(r, o + i + k) == x for k, x in enumerate(e)])


def tl(r, o, n, i):
    x = IntVal(1)
    for ch, e in ENT:
        x = If(ematch(r, o, n, i, e), len(e), x)
    return x


def tc(r, o, n, i):
    x = Select(r, o + i)
    for ch, e in ENT:
        x = If(ematch(r, o, n, i, e), ch, x)
    return x


_r, _o, _i, _n, _c = Const("nd_r", AI), Int("nd_o"), Int("nd_i"), Int("nd_n"), Int("nd_c")
def _pos(x): return If(x < 0, 0, x)
BACKGROUND.append(ForAll([_r, _o, _n, _i, _c], esz(_r, _o, _n, _i, _c) == If(_i >= _n, 0, If(cut(_r, _o, _n, _i, _c), 18 + _pos(esz(_r, _o, _n, _i + 3, _c)), elen(Select(_r, _o + _i)) + _pos(esz(_r, _o, _n, _i + 1, _c)))),
                  patterns=[MultiPattern(esz(_r, _o, _n, _i, _c), mark(_i))]))
BACKGROUND.append(ForAll([_r, _o, _n], upos(_r, _o, _n, 0) == 0, patterns=[upos(_r, _o, _n, 0)]))
BACKGROUND.append(ForAll([_r, _o, _n, _i], Implies(_i >= 0, upos(_r, _o, _n, _i + 1) == upos(_r, _o, _n, _i) + tl(_r, _o, _n, upos(_r, _o, _n, _i))), patterns=[MultiPattern(upos(_r, _o, _n, _i), mark(_i))]))


BACKGROUND.append(ForAll([_r, _o, _i], tsize(_r, _o, _i) == If(Or(_i == -1, _i == 0), slen(_r, _o), _i), patterns=[tsize(_r, _o, _i)]))


def marks(d): return And(*[mark(d + k) for k in range(4)])


def escaped(row, ro_, n, src, so, m):
    """row holds at ro_, in n bytes, the escaped form of the m bytes of src at so"""
    def body(i):
        at = ro_ + esz(src, so, m, 0, 0) - esz(src, so, m, i, 0)
        c = Select(src, so + i)
        return Implies(And(0 <= i, i < m), And(Implies(And(*[c != ch for ch, _ in ENT]), Select(row, at) == c), *[Implies(c == ch, And(*[Select(row, at + k) == x for k, x in enumerate(e)])) for ch, e in ENT]))
    return And(n == esz(src, so, m, 0, 0), q1(body, lambda i: esz(src, so, m, i, 0), "i"))


class Invalid(Contract):
    tags = ("C10",)
    modifies = ["A:i32"]
    cd = None

    def cdata(self, a): return a[3] if self.cd is None else IntVal(self.cd)
    def n(self, pre, a): return If(a[1] == -1, n_(pre, a[0]), a[1])
    def frame(self, pre, a): return {"A:i32": lambda x: And(a[0] != 0, x == a[2])}

    def requires(self, pre, a):
        return [("content", Implies(And(a[0] != 0, a[1] >= -1), If(a[1] == -1, And(is_cstr(pre, a[0]), self.n(pre, a) < 2 ** 31 - 8), readable(pre, a[0], a[1])))),
                ("size", a[1] >= -1), ("result-cell", Or(a[2] == 0, And(pre.alloc(a[2]), bsize(a[2]) >= 4)))]

    def extra_ints(self, pre, a): return [self.n(pre, a)]

    def ensures(self, pre, post, a, ret, w):
        n = self.n(pre, a)
        z = esz(pre.bytes(a[0]), off(a[0]), n, 0, self.cdata(a))
        return [("C10:something-to-escape", Implies(a[0] != 0, (ret != 0) == (z != n))), ("C10:no-text", Implies(a[0] == 0, ret == 0)),
                ("C10:room-needed", Implies(And(a[0] != 0, a[2] != 0), Select(Select(post.m("A:i32"), a[2]), 0) == z - n))]

    def loops(self, lc):
        a = lc.args
        n = self.n(lc.pre, a)
        r, o, cd = lc.pre.bytes(a[0]), off(a[0]), self.cdata(a)
        E = lambda i: esz(r, o, n, i, cd)
        out = []
        D = ondist(lc)
        for k, d, ok in D:
            out.append(("walk%d" % k, And(ok, marks(d), mark(0), 0 <= d, d <= n)))
            out.append(("more%d" % k, E(0) - E(d) >= d))
            out.append(("counted%d" % k, Implies(a[2] != 0, Select(Select(lc.post.m("A:i32"), a[2]), 0) + E(d) - (n - d) == E(0) - n)))
            for k2, d2, ok2 in D:
                if k2 != k:
                    out.append(("seen%d.%d" % (k, k2), And(Or(d2 == 0, d2 == 1), (d2 != 0) == (E(0) - E(d) != d))))
                    out.append(("acc%d.%d" % (k, k2), d2 + E(d) - (n - d) == E(0) - n))
        return out

    def variants(self, lc): return [("left%d" % k, self.n(lc.pre, lc.args) - d) for k, d, ok in ondist(lc)]


@contract
class InvalidI(Invalid): name = "axl_node_has_invalid_chars_internal"
@contract
class InvalidN(Invalid): name, cd = "axl_node_has_invalid_chars", 0
@contract
class InvalidC(Invalid): name, cd = "axl_node_has_invalid_chars_cdata", 1


class Escape(Contract):
    """content, content_size, additional_size, cdata"""
    tags = ("C10",)
    modifies = ["alloc", "B", "A:ptr"]
    cd = None

    def cdata(self, a): return a[3] if self.cd is None else IntVal(self.cd)
    def z(self, pre, a, i=0): return esz(pre.bytes(a[0]), off(a[0]), a[1], i, self.cdata(a))

    def requires(self, pre, a):
        return [("content", Or(a[0] == 0, readable(pre, a[0], a[1]))), ("room", Implies(a[0] != 0, a[2] == self.z(pre, a) - a[1]))]

    def ensures(self, pre, post, a, ret, w):
        row = Select(post.m("B"), ret)
        z = self.z(pre, a)
        return [("C10:nothing-given", Implies(a[0] == 0, And(ret == 0, post.m("alloc") == pre.m("alloc")))),
                ("C10:own-memory", Implies(a[0] != 0, And(ret != 0, Not(pre.alloc(ret)), blk(ret) == ret, off(ret) == 0, bsize(ret) >= z + 1, Not(ro(ret)), post.m("alloc") == Store(pre.m("alloc"), ret, True)))),
                ("C10:terminated", Implies(a[0] != 0, Select(row, z) == 0)),
                ("C10:escaped", Implies(And(a[0] != 0, self.cdata(a) == 0), escaped(row, IntVal(0), z, pre.bytes(a[0]), off(a[0]), a[1])))]

    def loops(self, lc):
        a = lc.args
        n = a[1]
        r, o, cd = lc.pre.bytes(a[0]), off(a[0]), self.cdata(a)
        E = lambda i: esz(r, o, n, i, cd)
        out = []
        D = ondist(lc)
        for k, d, ok in D:
            out.append(("walk%d" % k, And(ok, marks(d), mark(0), 0 <= d, d <= n)))
            for k2, d2, ok2 in D:
                if k2 == k:
                    continue
                out.append(("written%d.%d" % (k, k2), And(ok2, d2 + E(d) == E(0))))
                for kk, row in lc_rows(lc):
                    def body(i):
                        at = E(0) - E(i)
                        c = Select(r, o + i)
                        return Implies(And(0 <= i, i < d), And(at >= 0, at + elen(c) <= d2, Implies(And(*[c != ch for ch, _ in ENT]), Select(row, at) == c), *[Implies(c == ch, And(*[Select(row, at + q) == x for q, x in enumerate(e)])) for ch, e in ENT]))
                    out.append(("escaped%d.%d.%s" % (k, k2, kk), Implies(cd == 0, q1(body, lambda i: E(i), "i"))))
                    out.append(("clear%d.%d.%s" % (k, k2, kk), q1(lambda j: Implies(And(j >= d2, j <= E(0)), Select(row, j) == 0), lambda j: Select(row, j), "j")))
        return out

    def variants(self, lc): return [("left%d" % k, lc.args[1] - d) for k, d, ok in ondist(lc)]


def lc_rows(lc): return [("p%d" % k, Select(lc.post.m("B"), p)) for k, p in enumerate(lc.ptrs[:6])]


@contract
class EscapeI(Escape): name = "__axl_node_content_copy_and_escape"
@contract
class EscapeN(Escape): name, cd = "axl_node_content_copy_and_escape", 0
@contract
class EscapeC(Escape): name, cd = "axl_node_content_copy_and_escape_cdata", 1


@contract
class Translate(Contract):
    name = "axl_node_content_translate_defaults"
    tags = ("C10",)
    modifies = ["B", "A:i32"]

    def s(self, v, a): return Select(Select(v.m("A:i32"), a[1]), 0)
    def n(self, pre, a): return tsize(pre.bytes(a[0]), off(a[0]), self.s(pre, a))
    def frame(self, pre, a): return {"B": lambda x: And(a[0] != 0, a[1] != 0, x == blk(a[0])), "A:i32": lambda x: And(a[0] != 0, x == a[1])}

    def requires(self, pre, a):
        s = self.s(pre, a)
        return [("cell", Or(a[1] == 0, And(pre.alloc(a[1]), bsize(a[1]) >= 4, s >= -1))),
                ("content", Implies(And(a[0] != 0, a[1] != 0), And(Not(ro(blk(a[0]))), If(Or(s == -1, s == 0), And(is_cstr(pre, a[0]), n_(pre, a[0]) < 2 ** 31 - 8), And(s < 2 ** 31 - 8, readable(pre, a[0], s + 1))))))]

    def extra_ints(self, pre, a): return [self.n(pre, a)]

    gs, gm = Const("some_text", AI), Int("some_length")

    def ensures(self, pre, post, a, ret, w):
        g = And(a[0] != 0, a[1] != 0)
        n, m = self.n(pre, a), self.s(post, a)
        r, row, o = pre.bytes(a[0]), post.bytes(a[0]), off(a[0])
        out = [("C10:in-place", ret == If(g, a[0], 0)),
               ("C10:whole-text-used", Implies(g, And(0 <= m, m <= n, upos(r, o, n, m) == n))),
               ("C10:translated", Implies(g, q1(lambda k: Implies(And(0 <= k, k < m), Select(row, o + k) == tc(r, o, n, upos(r, o, n, k))), lambda k: upos(r, o, n, k), "k"))),
               ("C10:terminated", Implies(g, Select(row, o + m) == 0)),
               ("C10:rest-kept", Implies(g, q1(lambda j: Implies(Or(j < o, j > o + n), Select(row, j) == Select(r, j)), lambda j: Select(row, j), "j")))]
        e = escaped(r, o, n, self.gs, IntVal(0), self.gm)
        out.append(("C10:inverse-of-escaping", Implies(And(g, self.gm >= 0, e), And(m == self.gm, text_at(row, o, m, self.gs, IntVal(0))))))
        return out

    def loops(self, lc):
        pre, a = lc.pre, lc.args
        n = self.n(pre, a)
        r, row, o = pre.bytes(a[0]), lc.post.bytes(a[0]), off(a[0])
        E = lambda i: esz(self.gs, 0, self.gm, i, 0)
        out = [("size-cell", self.s(lc.post, a) == n)]
        e = escaped(r, o, n, self.gs, IntVal(0), self.gm)
        D = ondist(lc)
        for k, d, ok in D:
            out.append(("walk%d" % k, And(ok, marks(d), mark(0), 0 <= d, d <= n)))
            out.append(("kept%d" % k, q1(lambda j: Implies(Or(j < o, j >= o + d), Select(row, j) == Select(r, j)), lambda j: Select(row, j), "j")))
            out.append(("done%d" % k, q1(lambda i: Implies(And(0 <= i, i < d), Select(row, o + i) == tc(r, o, n, upos(r, o, n, i))), lambda i: upos(r, o, n, i), "i")))
            out.append(("back%d" % k, Implies(And(self.gm >= 0, e), And(d <= self.gm, text_at(row, o, d, self.gs, IntVal(0))))))
            for k2, d2, ok2 in D:
                if k2 != k:
                    out.append(("at%d.%d" % (k, k2), And(d2 >= d, d2 == upos(r, o, n, d))))
                    out.append(("inv%d.%d" % (k, k2), Implies(And(self.gm >= 0, e), And(E(d) >= 0, d2 == E(0) - E(d)))))
        return out

    def variants(self, lc): return [("left%d" % k, self.n(lc.pre, lc.args) - d) for k, d, ok in ondist(lc)]
