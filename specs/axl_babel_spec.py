"""Contracts of the babel extension (character set translation).

badpos(row,o,i,n) is where the first sequence that is not structurally valid utf-8 begins, looking from i
(or n when there is none).  outpos(...,i) is where the translation of the i-th byte begins."""
from z3 import *
from vc import *
from lib import is_cstr
from axl_string_spec import readable, ondist
import axl_error_spec

CONTRACTS = {}
badpos = Function("badpos", AI, INT, INT, INT, INT)
outpos = Function("outpos", AI, AI, INT, INT, INT)
mark = Function("mark", INT, BoolSort())


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def ub(c): return If(c < 0, c + 256, c)
def cont(c): return And(c >= -128, c <= -65)      # 10xxxxxx


def seqlen(r, o, i, n):
    """length of the structurally valid sequence at i, 0 if there is none"""
    c = Select(r, o + i)
    k = [cont(Select(r, o + i + d)) for d in (1, 2, 3)]
    return If(c >= 0, 1, If(And(c >= -64, c <= -33), If(And(i + 1 < n, k[0]), 2, 0), If(And(c >= -32, c <= -17), If(And(i + 2 < n, k[0], k[1]), 3, 0),
           If(And(c >= -16, c <= -9), If(And(i + 3 < n, k[0], k[1], k[2]), 4, 0), 0))))


_r, _t, _o, _i, _n = Const("bb_r", AI), Const("bb_t", AI), Int("bb_o"), Int("bb_i"), Int("bb_n")
BACKGROUND.append(ForAll([_i], mark(_i), patterns=[mark(_i)]))
BACKGROUND.append(ForAll([_r, _o, _i, _n], badpos(_r, _o, _i, _n) == If(_i >= _n, _n, If(seqlen(_r, _o, _i, _n) == 0, _i, badpos(_r, _o, _i + seqlen(_r, _o, _i, _n), _n))), patterns=[MultiPattern(badpos(_r, _o, _i, _n), mark(_i))]))
BACKGROUND.append(ForAll([_t, _r, _o, _i], Implies(_i >= 0, outpos(_t, _r, _o, _i + 1) == outpos(_t, _r, _o, _i) + Select(_t, ub(Select(_r, _o + _i)))), patterns=[MultiPattern(outpos(_t, _r, _o, _i), mark(_i))]))
BACKGROUND.append(ForAll([_t, _r, _o], outpos(_t, _r, _o, 0) == 0, patterns=[outpos(_t, _r, _o, 0)]))


# st(row,o,s,k): octets missing to complete the sequence under way after k octets, when s were missing at the start; negative once the octets are not utf-8
st = Function("u8st", AI, INT, INT, INT, INT)


def step(s, c):
    return If(s < 0, IntVal(-1), If(s == 0, If(c >= 0, IntVal(0), If(And(c >= -64, c <= -33), IntVal(1), If(And(c >= -32, c <= -17), IntVal(2), If(And(c >= -16, c <= -9), IntVal(3), IntVal(-1))))), If(cont(c), s - 1, IntVal(-1))))


_s, _k = Int("bb_s"), Int("bb_k")
_si, _sk, _s0, _mi, _mk = st(_r, _o, _s, _i), st(_r, _o, _s, _k), st(_r, _o, _s, 0), mark(_i), mark(_k)
_pk, _pik = MultiPattern(_sk, _mk), MultiPattern(_si, _mi, _sk, _mk)
BACKGROUND.append(ForAll([_r, _o, _s], _s0 == _s, patterns=[_s0]))
BACKGROUND.append(ForAll([_r, _o, _s, _k], Implies(_k >= 0, st(_r, _o, _s, _k + 1) == step(_sk, Select(_r, _o + _k))), patterns=[_pk]))
# lemmas, proved by induction (CheckUtf8.lemmas)
BACKGROUND.append(ForAll([_r, _o, _s, _i, _k], Implies(And(0 <= _i, _i <= _k, _si < 0), _sk < 0), patterns=[_pik]))
_o2, _s2 = Int("bb_o2"), Int("bb_s2")
_s2k = st(_r, _o2, _s2, _k)
_pshift = MultiPattern(_si, _mi, _s2k, _mk)
BACKGROUND.append(ForAll([_r, _o, _s, _i, _o2, _s2, _k], Implies(And(0 <= _i, 0 <= _k, _o2 == _o + _i, _s2 == _si), st(_r, _o, _s, _i + _k) == _s2k), patterns=[_pshift]))
BACKGROUND.append(ForAll([_r, _o, _s, _k], Implies(And(0 <= _s, _s <= 3, _k >= 0), And(-1 <= _sk, _sk <= 3)), patterns=[_pk]))


@contract
class CheckUtf8(Contract):
    name = "axl_babel_check_utf8_content"
    tags = ("C17",)
    modifies = ["A:i32"]

    def frame(self, pre, a): return {"A:i32": lambda x: x == a[2]}

    def lemmas(self):
        d = st(_r, _o, _s, _k + 1) == step(st(_r, _o, _s, _k), Select(_r, _o + _k))
        z = st(_r, _o, _s, 0) == _s
        inr = lambda x: And(-1 <= x, x <= 3)
        i, o2 = _i, _o + _i
        s2 = st(_r, _o, _s, i)
        return [("reading goes on from where it was (base)", [st(_r, o2, s2, 0) == s2], st(_r, _o, _s, i + 0) == st(_r, o2, s2, 0)),
                ("reading goes on from where it was (step)", [st(_r, _o, _s, i + _k) == st(_r, o2, s2, _k), st(_r, o2, s2, _k + 1) == step(st(_r, o2, s2, _k), Select(_r, o2 + _k)),
                                                              st(_r, _o, _s, i + _k + 1) == step(st(_r, _o, _s, i + _k), Select(_r, _o + (i + _k)))], st(_r, _o, _s, i + (_k + 1)) == st(_r, o2, s2, _k + 1)),
                ("not utf-8 stays so (step)", [d, st(_r, _o, _s, _k) < 0], st(_r, _o, _s, _k + 1) < 0),
                ("octets missing are at most three (base)", [z, 0 <= _s, _s <= 3], inr(st(_r, _o, _s, 0))),
                ("octets missing are at most three (step)", [d, inr(st(_r, _o, _s, _k))], inr(st(_r, _o, _s, _k + 1)))]

    def n(self, pre, a): return If(a[1] == -1, slen(pre.bytes(a[0]), off(a[0])), a[1])

    def requires(self, pre, a):
        return [("content", Implies(And(a[0] != 0, a[1] >= -1), If(a[1] == -1, And(is_cstr(pre, a[0]), self.n(pre, a) < 2 ** 31 - 8), readable(pre, a[0], a[1])))),
                ("result-cell", Or(a[2] == 0, And(pre.alloc(a[2]), bsize(a[2]) >= 4)))]

    def extra_ints(self, pre, a): return [self.n(pre, a)]

    def ensures(self, pre, post, a, ret, w):
        n = self.n(pre, a)
        b = badpos(pre.bytes(a[0]), off(a[0]), 0, n)
        g = And(a[0] != 0, a[1] >= -1)
        return [("C17:valid-exactly-when-read-octet-by-octet", Implies(g, (ret != 0) == And(mark(n), st(pre.bytes(a[0]), off(a[0]), 0, n) == 0))), ("C17:valid-exactly-when-every-sequence-is", (ret != 0) == And(g, b >= n)),
                ("C17:position-of-the-error", Implies(a[2] != 0, Select(Select(post.m("A:i32"), a[2]), 0) == If(And(g, b < n), b, 0)))]

    def loops(self, lc):
        a = lc.args
        n = self.n(lc.pre, a)
        r, o = lc.pre.bytes(a[0]), off(a[0])
        return [("valid-so-far%d" % k, And(ok, mark(d), mark(0), d >= 0, badpos(r, o, 0, n) == badpos(r, o, d, n))) for k, d, ok in ondist(lc)] + \
               [("octets%d" % k, And(ok, d >= 0, d <= n, st(r, o, 0, d) == 0, mark(n), *[mark(d + x) for x in range(5)])) for k, d, ok in ondist(lc)]

    def variants(self, lc): return [("left%d" % k, self.n(lc.pre, lc.args) - d) for k, d, ok in ondist(lc)]


ABSTRACT = {"axl_error_new": axl_error_spec.CONTRACTS["axl_error_new"]}      # proved with C18


@contract
class Utf8Check(Contract):
    """source, source_size, encoding, octets pending, error: content that arrives in pieces is judged as if it was whole"""
    name = "axl_babel_utf8_check"
    tags = ("C17",)
    modifies = ["A:i32"] + axl_error_spec.New.modifies

    def frame(self, pre, a):
        f = {m: (lambda x: BoolVal(False)) for m in axl_error_spec.New.modifies if m != "alloc"}
        f["A:ptr"] = lambda x: And(a[4] != 0, x == a[4])
        f["A:i32"] = lambda x: x == a[3]
        return f

    def pend(self, v, a): return Select(Select(v.m("A:i32"), a[3]), 0)

    def requires(self, pre, a):
        p = self.pend(pre, a)
        return [("source", And(0 <= a[1], a[1] < 2 ** 31 - 8, readable(pre, a[0], a[1]), a[0] != 0)), ("pending", And(pre.alloc(a[3]), blk(a[3]) == a[3], off(a[3]) == 0, bsize(a[3]) >= 4, 0 <= p, p <= 3, blk(a[0]) != a[3])),
                ("error", Or(a[4] == 0, And(pre.alloc(a[4]), blk(a[4]) == a[4], off(a[4]) == 0, bsize(a[4]) >= 8, a[4] != a[3], a[4] != blk(a[0]))))]

    def ensures(self, pre, post, a, ret, w):
        s = st(pre.bytes(a[0]), off(a[0]), self.pend(pre, a), a[1])
        return [("C17:pieces-judged-as-the-whole", If(s >= 0, ret == 1, ret == 0)), ("C17:octets-pending", Implies(ret == 1, self.pend(post, a) == s))]

    def loops(self, lc):
        pre, v, a = lc.pre, lc.post, lc.args
        r, o, n = pre.bytes(a[0]), off(a[0]), a[1]
        s = self.pend(pre, a)
        now = self.pend(v, a)
        res = [("pending-range", And(0 <= now, now <= 3)), ("marks", And(mark(0), mark(n), *[m for x in (1, 2, 3) for m in (mark(n - x), mark(st(r, o, s, n - x)))]))]
        for k, (t, x, e) in enumerate(lc.phis):
            if t == "ptr":
                d = off(x) - o
                res.append(("walk%d" % k, And(blk(x) == blk(a[0]), x != 0, 0 <= d, d <= n, mark(d), mark(d + 1), mark(st(r, o, s, d)))))
                for j, (t2, y, e2) in enumerate(lc.phis):
                    if t2 == "ptr":
                        continue
                    res.append(("left%d.%d" % (k, j), y == n - d))
                    res.append(("state%d.%d" % (k, j), If(y != 0, st(r, o, s, d) == now, st(r, o, s, d) < 0)))
                res.append(("okstate%d" % k, st(r, o, s, d) == now))
            elif t in ("i32", "i64"):
                at = lambda j: Select(r, o + n - j)
                res.append(("tail%d" % k, And(Or(x == 1, x == 2, x == 3, x == 4), *[Implies(x > j, And(n >= j, cont(at(j)))) for j in (1, 2, 3)])))
        return res

    def variants(self, lc): return [("left%d" % k, lc.args[1] - d) for k, d, ok in ondist(lc)] + [("tail%d" % k, 5 - d) for k, d, ok in ondist(lc)]


SZ, BF = "S:axlBabelTable.size", "S:axlBabelTable.buffer"


@contract
class SingleToUtf8(Contract):
    """source, source_size, encoding, output, output_size, output_converted, remain_source_index, table"""
    name = "axl_babel_single_to_utf8"
    tags = ("C17",)
    modifies = ["B", "A:i32"]

    def frame(self, pre, a): return {"B": lambda x: x == blk(a[3]), "A:i32": lambda x: Or(x == a[5], x == a[6])}

    def requires(self, pre, a):
        t = Select(pre.m(SZ), a[7])
        return [("source", Or(a[1] <= 0, readable(pre, a[0], a[1]))), ("output", And(a[4] >= 0, readable(pre, a[3], a[4]))), ("apart", blk(a[0]) != blk(a[3])),
                ("cells", And(pre.alloc(a[5]), bsize(a[5]) >= 4, pre.alloc(a[6]), bsize(a[6]) >= 4, a[5] != a[6])),
                ("table", And(pre.alloc(a[7]), bsize(a[7]) >= 8 * 256)), ("source-size", a[1] >= 0),
                ("table-entries", q1(lambda c: Implies(And(0 <= c, c < 256), And(1 <= Select(t, c), Select(t, c) <= 6)), lambda c: Select(t, c), "c"))]

    def parts(self, pre, a):
        t, r, o = Select(pre.m(SZ), a[7]), pre.bytes(a[0]), off(a[0])
        return t, r, o, Select(pre.m(BF), a[7])

    def done(self, pre, v, a, n, upto=None):
        """the first n source bytes are translated"""
        t, r, o, b = self.parts(pre, a)
        out, oo = v.bytes(a[3]), off(a[3])
        def body(i):
            c = ub(Select(r, o + i))
            return Implies(And(0 <= i, i < n), And(*[Implies(d < Select(t, c), Select(out, oo + outpos(t, r, o, i) + d) == Select(b, c * 6 + d)) for d in range(6)]))
        return q1(body, lambda i: outpos(t, r, o, i), "i")

    def ensures(self, pre, post, a, ret, w):
        t, r, o, b = self.parts(pre, a)
        conv = Select(Select(post.m("A:i32"), a[5]), 0)
        rem = If(ret == 1, a[1], Select(Select(post.m("A:i32"), a[6]), 0))
        return [("C17:status", Or(ret == 1, And(ret == 2, 0 <= rem, rem < a[1], Or(conv == a[4], conv + Select(t, ub(Select(r, o + rem))) > a[4])))),
                ("C17:amount-written", And(conv == outpos(t, r, o, rem), 0 <= conv, conv <= a[4])),
                ("C17:every-byte-translated", self.done(pre, post, a, rem)),
                ("C17:rest-of-the-output-kept", q1(lambda j: Implies(Or(j < off(a[3]), j >= off(a[3]) + conv), Select(post.bytes(a[3]), j) == Select(pre.bytes(a[3]), j)), lambda j: Select(post.bytes(a[3]), j), "j"))]

    def loops(self, lc):
        pre, v, a = lc.pre, lc.post, lc.args
        t, r, o, b = self.parts(pre, a)
        out, oo = v.bytes(a[3]), off(a[3])
        D = ondist(lc)
        res = []
        ks = [(k, d) for k, d, ok in D] + [("s%d" % k, x) for k, x in enumerate(lc.ints[:10])]
        for k, d in ks:
            for k2, d2, ok2 in D:
                if k2 == k:
                    continue
                res.append(("at%s.%s" % (k, k2), And(ok2, mark(d), mark(0), 0 <= d, d <= a[1], 0 <= d2, d2 <= a[4], d2 == outpos(t, r, o, d))))
                res.append(("before%s.%s" % (k, k2), And(d >= 0, q1(lambda i: Implies(And(0 <= i, i < d), outpos(t, r, o, i) + Select(t, ub(Select(r, o + i))) <= d2), lambda i: outpos(t, r, o, i), "i"))))
                res.append(("kept%s.%s" % (k, k2), q1(lambda j: Implies(Or(j < oo, j >= oo + d2), Select(out, j) == Select(pre.bytes(a[3]), j)), lambda j: Select(out, j), "j")))
                for k3, d3, ok3 in D:
                    if k3 in (k, k2):
                        continue
                    c = ub(Select(r, o + d))
                    res.append(("entry%s.%s.%s" % (k, k2, k3), And(mark(d), 0 <= d, d < a[1], 0 <= d3, d3 <= Select(t, c), d2 == outpos(t, r, o, d) + d3)))
                    res.append(("copied%s.%s.%s" % (k, k2, k3), And(*[Implies(dd < d3, Select(out, oo + outpos(t, r, o, d) + dd) == Select(b, c * 6 + dd)) for dd in range(6)])))
            res.append(("done%s" % k, self.done(pre, v, a, d)))
        return res

    def variants(self, lc):
        a = lc.args
        out = [("left%d" % k, a[1] - d) for k, d, ok in ondist(lc)] + [("entry%d" % k, 6 - d) for k, d, ok in ondist(lc)]
        return out


def _entries(enc):
    for c in range(256):
        try:
            yield c, bytes([c]).decode(enc).encode("utf-8")
        except UnicodeDecodeError:
            yield c, None


for _enc in ("1", "2", "3", "4", "5", "6", "7", "8", "9", "15"):
    class _T(Contract):
        name = "axl_babel_build_iso8859%s_table" % _enc
        enc = "iso8859_" + _enc
        tags = ("C17",)
        modifies = ["alloc", "B", "A:ptr", SZ, BF]

        def ensures(self, pre, post, a, ret, w):
            sz, bf = Select(post.m(SZ), ret), Select(post.m(BF), ret)
            out = [("C17:own-memory", And(ret != 0, Not(pre.alloc(ret)), bsize(ret) >= 8 * 256, post.m("alloc") == Store(pre.m("alloc"), ret, True)))]
            for base in range(0, 256, 16):
                g = []
                for c, u in _entries(self.enc):
                    if base <= c < base + 16:
                        if u is None:
                            g.append(And(Select(sz, c) >= 1, Select(sz, c) <= 6))
                        else:
                            g.append(And(Select(sz, c) == len(u), *[Select(bf, c * 6 + d) == (x - 256 if x > 127 else x) for d, x in enumerate(u)]))
                out.append(("C17:codes-%d-to-%d" % (base, base + 15), And(*g)))
            return out
    contract(_T)
