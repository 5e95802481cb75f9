"""Contracts of src/axl_factory.c.

Ghost state: fown[x] the factory that owns block x, frole[x] (1 block header, 2 storage, 3 the
factory, 4 array of released objects), fpos[x] position of a header or storage block in the chain,
fchain[f][i] the header at position i, flen[f] the number of them, fused[x] bytes of storage x
handed out so far: an object handed out lies below fused of its block, so what is above is free."""
from z3 import *
from vc import *

GHOST_SORTS.update({"G:fown": AI, "G:frole": AI, "G:fpos": AI, "G:fchain": AAI, "G:flen": AI, "G:fused": AI})
FG = ["G:fown", "G:frole", "G:fpos", "G:fchain", "G:flen", "G:fused"]
CONTRACTS = {}


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


class Kind:
    def __init__(self, fac, blk_, data, spares):
        self.fac, self.blk, self.data, self.spares = fac, blk_, data, spares

    def storage(self, v, h): return v.f(self.blk + "." + self.data, h)
    def cur(self, v, f): return self.storage(v, v.f(self.fac + ".block", f))

    def parts(self, v, f):
        own, role, pos = v.m("G:fown"), v.m("G:frole"), v.m("G:fpos")
        ch, n = v.g("fchain", f), v.g("flen", f)
        nx = v.m("F:%s.next" % self.blk)
        da = v.m("F:%s.%s" % (self.blk, self.data))
        c = self.cur(v, f)
        row = Select(v.m("B"), c)
        out = [("factory-live", And(f != 0, v.alloc(f), Select(own, f) == f, Select(role, f) == 3)),
               ("C07:current-block", And(n >= 1, v.f(self.fac + ".block", f) == Select(ch, n - 1))),
               ("C07:blocks", q1(lambda i: Implies(And(0 <= i, i < n), And(Select(ch, i) != 0, v.alloc(Select(ch, i)), Select(own, Select(ch, i)) == f, Select(role, Select(ch, i)) == 1, Select(pos, Select(ch, i)) == i,
                                                                         Select(nx, Select(ch, i)) == If(i > 0, Select(ch, i - 1), 0))), lambda i: Select(ch, i), "i")),
               ("C07:storages", q1(lambda i: Implies(And(0 <= i, i < n), And(Select(da, Select(ch, i)) != 0, v.alloc(Select(da, Select(ch, i))), Select(own, Select(da, Select(ch, i))) == f, Select(role, Select(da, Select(ch, i))) == 2,
                                                                           Select(pos, Select(da, Select(ch, i))) == i, blk(Select(da, Select(ch, i))) == Select(da, Select(ch, i)), off(Select(da, Select(ch, i))) == 0)), lambda i: Select(da, Select(ch, i)), "i")),
               ("C07:cleared-beyond", q1(lambda j: Implies(j >= v.g("fused", c), Select(row, j) == 0), lambda j: Select(row, j), "j")),
               ("C07:nothing-else-owned", q1(lambda x: Implies(And(Select(own, x) == f, v.alloc(x)), Or(x == f, And(Select(role, x) == 1, 0 <= Select(pos, x), Select(pos, x) < n, Select(ch, Select(pos, x)) == x),
                                                                                                And(Select(role, x) == 2, 0 <= Select(pos, x), Select(pos, x) < n, Select(da, Select(ch, Select(pos, x))) == x),
                                                                                                And(Select(role, x) == 4, self.isspare(v, f, x)))), lambda x: [Select(own, x), Select(v.m("alloc"), x)], "x"))]
        return out + self.bounds(v, f, c)

    def isspare(self, v, f, x):
        return And(x == v.f(self.fac + ".spares", f), x != 0) if self.spares else BoolVal(False)

    def wf(self, v, f): return And(*[q for _, q in self.parts(v, f)])


class ItemKind(Kind):
    def bounds(self, v, f, c):
        ts, st, cn = (v.f("axlFactory." + x, f) for x in ("type_size", "step", "count"))
        sp, mx, nxt = (v.f("axlFactory." + x, f) for x in ("spares", "spare_max", "spare_next"))
        return [("C07:in-bounds", And(ts > 0, 0 <= cn, cn <= st, bsize(c) == st * ts, v.g("fused", c) == cn * ts)),
                ("C07:spares", And(mx >= 0, (mx == 0) == (sp == 0), nxt >= -1, Implies(mx > 0, nxt <= mx), Implies(mx == 0, nxt == 0), Implies(sp != 0, And(v.alloc(sp), v.g("fown", sp) == f, v.g("frole", sp) == 4, blk(sp) == sp, off(sp) == 0, bsize(sp) == 8 * (mx + 1)))))]


class StrKind(Kind):
    def bounds(self, v, f, c):
        ix, sz = v.f("axlStrFactory.index", f), v.f("axlStrFactory.size", f)
        return [("C07:in-bounds", And(0 <= ix, ix <= bsize(c), sz <= bsize(c), sz >= 0, v.f("axlStrFactory.step", f) == 1024, v.g("fused", c) == ix))]


IT = ItemKind("axlFactory", "axlItemBlock", "items", True)
ST = StrKind("axlStrFactory", "axlStrBlock", "buffer", False)


def nsp(v, f):
    """number of released objects kept"""
    return If(v.f("axlFactory.spare_max", f) == 0, 0, v.f("axlFactory.spare_next", f) + 1)


def spare(v, f, i): return Select(v.aptr(v.f("axlFactory.spares", f)), i)


def unowned(pre):
    """ghost ownership is only recorded for live blocks"""
    x = FreshInt("x")
    return ("ghost-owners-are-live", ForAll([x], Implies(And(pre.alloc(x), pre.g("fown", x) != 0), pre.alloc(pre.g("fown", x))), patterns=[pre.g("fown", x)]))


class Create(Contract):
    tags = ("C07",)

    def requires(self, pre, a): return [unowned(pre)] + self.reqs(pre, a)
    def reqs(self, pre, a): return []

    def ghost(self, pre, post, a, ret, w):
        k = self.k
        h = post.f(k.fac + ".block", ret)
        c = k.storage(post, h)
        return {"G:fown": Store(Store(Store(pre.m("G:fown"), ret, ret), h, ret), c, ret), "G:frole": Store(Store(Store(pre.m("G:frole"), ret, 3), h, 1), c, 2),
                "G:fpos": Store(Store(pre.m("G:fpos"), h, 0), c, 0), "G:fchain": Store(pre.m("G:fchain"), ret, Store(Select(pre.m("G:fchain"), ret), 0, h)), "G:flen": Store(pre.m("G:flen"), ret, 1), "G:fused": Store(pre.m("G:fused"), c, 0)}, []

    def ensures(self, pre, post, a, ret, w):
        k = self.k
        h = post.f(k.fac + ".block", ret)
        c = k.storage(post, h)
        return k.parts(post, ret) + [("fresh", Not(pre.alloc(ret))), ("C07:memory", And(Not(pre.alloc(h)), Not(pre.alloc(c)), h != c, h != ret, c != ret, post.m("alloc") == Store(Store(Store(pre.m("alloc"), ret, True), h, True), c, True)))]


@contract
class ItemCreate(Create):
    name, k = "axl_factory_create", IT
    modifies = ["alloc", "B", "A:ptr"] + ["F:axlFactory." + x for x in ("count", "step", "type_size", "spare_max", "spare_next", "spares", "block")] + ["F:axlItemBlock.items", "F:axlItemBlock.next"] + FG
    def reqs(self, pre, a): return [("positive-size", a[0] > 0)]
    def ensures(self, pre, post, a, ret, w):
        return super().ensures(pre, post, a, ret, w) + [("C07:object-size", post.f("axlFactory.type_size", ret) == a[0])]


@contract
class StrCreate(Create):
    name, k = "axl_string_factory_create", ST
    modifies = ["alloc", "B", "A:ptr"] + ["F:axlStrFactory." + x for x in ("index", "step", "size", "block")] + ["F:axlStrBlock.buffer", "F:axlStrBlock.next"] + FG


class FacC(Contract):
    tags = ("C07",)

    def requires(self, pre, a):
        f = a[0]
        return [(l, q) if not self.nullok else (l, Implies(f != 0, q)) for l, q in self.k.parts(pre, f)]
    nullok = False


def newblock(k, pre, post, f):
    """ghost update when a block is chained"""
    h = post.f(k.fac + ".block", f)
    c = k.storage(post, h)
    n = pre.g("flen", f)
    return h, c, {"G:fown": Store(Store(pre.m("G:fown"), h, f), c, f), "G:frole": Store(Store(pre.m("G:frole"), h, 1), c, 2), "G:fpos": Store(Store(pre.m("G:fpos"), h, n), c, n),
                  "G:fchain": Store(pre.m("G:fchain"), f, Store(pre.g("fchain", f), n, h)), "G:flen": Store(pre.m("G:flen"), f, n + 1)}


def handed(k, pre, post, f, ret, size, c):
    """the object handed out: inside storage c, above all handed out before, cleared"""
    row = Select(post.m("B"), c)
    o = off(ret)
    return [("C07:object-in-storage", And(blk(ret) == c, ret != 0, o >= 0, o + size <= bsize(c))),
            ("C07:object-disjoint-from-earlier-ones", Implies(pre.alloc(c), o >= pre.g("fused", c))),
            ("C07:object-recorded", post.g("fused", c) == o + size),
            ("C07:object-cleared", q1(lambda j: Implies(And(o <= j, j < o + size), Select(row, j) == 0), lambda j: Select(row, j), "j"))]


@contract
class Get(FacC):
    name, k = "axl_factory_get", IT
    modifies = ["alloc", "B", "A:ptr"] + ["F:axlFactory." + x for x in ("count", "step", "spare_next", "block")] + ["F:axlItemBlock.items", "F:axlItemBlock.next"] + FG

    def frame(self, pre, a):
        return {"F:axlFactory." + x: (lambda x: x == a[0]) for x in ("count", "step", "spare_next", "block")}

    def ghost(self, pre, post, a, ret, w):
        f = a[0]
        rec = nsp(pre, f) > 0
        chained = post.f("axlFactory.block", f) != pre.f("axlFactory.block", f)
        h, c, upd = newblock(IT, pre, post, f)
        d = {m: If(chained, t, pre.m(m)) for m, t in upd.items()}
        d["G:fused"] = If(rec, pre.m("G:fused"), Store(pre.m("G:fused"), c, post.f("axlFactory.count", f) * pre.f("axlFactory.type_size", f)))
        return d, []

    def ensures(self, pre, post, a, ret, w):
        f = a[0]
        rec = nsp(pre, f) > 0
        c = IT.cur(post, f)
        ts = pre.f("axlFactory.type_size", f)
        al, al2 = pre.m("alloc"), post.m("alloc")
        h = post.f("axlFactory.block", f)
        out = IT.parts(post, f)
        out += [("C07:released-object-again", Implies(rec, And(ret == spare(pre, f, nsp(pre, f) - 1), nsp(post, f) == nsp(pre, f) - 1, al2 == al))),
                ("C07:others-released-kept", q1(lambda i: Implies(And(0 <= i, i < nsp(post, f)), spare(post, f, i) == spare(pre, f, i)), lambda i: spare(post, f, i), "i"))]
        out += [(l, Implies(Not(rec), q)) for l, q in handed(IT, pre, post, f, ret, ts, c)]
        out += [("C07:memory", Implies(Not(rec), If(h == pre.f("axlFactory.block", f), al2 == al, And(Not(Select(al, h)), Not(Select(al, c)), h != c, al2 == Store(Store(al, h, True), c, True)))))]
        return out


@contract
class Release(FacC):
    name, k = "axl_factory_release_spare", IT
    modifies = ["alloc", "B", "A:ptr"] + ["F:axlFactory." + x for x in ("spares", "spare_next", "spare_max")] + ["G:fown", "G:frole"]

    def frame(self, pre, a):
        d = {"F:axlFactory." + x: (lambda x: x == a[0]) for x in ("spares", "spare_next", "spare_max")}
        d["A:ptr"] = d["B"] = lambda x: x == pre.f("axlFactory.spares", a[0])
        return d

    def ghost(self, pre, post, a, ret, w):
        s = post.f("axlFactory.spares", a[0])
        return {"G:fown": Store(pre.m("G:fown"), s, a[0]), "G:frole": Store(pre.m("G:frole"), s, 4)}, []

    def ensures(self, pre, post, a, ret, w):
        f, p = a
        n = nsp(pre, f)
        s0, s1 = pre.f("axlFactory.spares", f), post.f("axlFactory.spares", f)
        al = pre.m("alloc")
        return IT.parts(post, f) + [("C07:object-kept-for-reuse", And(nsp(post, f) == n + 1, spare(post, f, n) == p)),
                                    ("C07:others-released-kept", q1(lambda i: Implies(And(0 <= i, i < n), spare(post, f, i) == spare(pre, f, i)), lambda i: spare(post, f, i), "i")),
                                    ("C07:memory", If(s1 == s0, post.m("alloc") == al, And(Not(Select(al, s1)), post.m("alloc") == Store(If(s0 != 0, Store(al, s0, False), al), s1, True))))]


@contract
class StrAlloc(FacC):
    name, k = "axl_string_factory_alloc", ST
    modifies = ["alloc", "B", "A:ptr"] + ["F:axlStrFactory." + x for x in ("index", "size", "block")] + ["F:axlStrBlock.buffer", "F:axlStrBlock.next"] + FG

    def frame(self, pre, a):
        d = {"F:axlStrFactory." + x: (lambda x: x == a[0]) for x in ("index", "size", "block")}
        d["B"] = lambda x: x == ST.cur(pre, a[0])
        return d

    def requires(self, pre, a): return super().requires(pre, a) + [("size-not-negative", a[1] >= 0)]

    def ghost(self, pre, post, a, ret, w):
        f = a[0]
        chained = post.f("axlStrFactory.block", f) != pre.f("axlStrFactory.block", f)
        h, c, upd = newblock(ST, pre, post, f)
        d = {m: If(chained, t, pre.m(m)) for m, t in upd.items()}
        d["G:fused"] = Store(pre.m("G:fused"), c, off(ret) + a[1] + 1)
        return d, []

    def ensures(self, pre, post, a, ret, w):
        f, size = a
        c = ST.cur(post, f)
        al, al2 = pre.m("alloc"), post.m("alloc")
        h = post.f("axlStrFactory.block", f)
        c0 = ST.cur(pre, f)
        return ST.parts(post, f) + handed(ST, pre, post, f, ret, size + 1, c) + [
            ("C07:earlier-areas-kept", q1(lambda j: Implies(j < pre.g("fused", c0), Select(Select(post.m("B"), c0), j) == Select(Select(pre.m("B"), c0), j)), lambda j: Select(Select(post.m("B"), c0), j), "j")),
            ("C07:memory", If(h == pre.f("axlStrFactory.block", f), al2 == al, And(Not(Select(al, h)), Not(Select(al, c)), h != c, al2 == Store(Store(al, h, True), c, True))))]


class FacFree(FacC):
    nullok = True
    modifies = ["alloc"]

    def ensures(self, pre, post, a, ret, w):
        f = a[0]
        al, al2, own = pre.m("alloc"), post.m("alloc"), pre.m("G:fown")
        x = FreshInt("x")
        return [("C07:everything-released-nothing-else", ForAll([x], Select(al2, x) == And(Select(al, x), Or(f == 0, Select(own, x) != f)), patterns=[Select(al2, x)]))]

    def loops(self, lc):
        f = lc.args[0]
        pre, v, en = lc.pre, lc.post, lc.entry
        own, role, pos, n = pre.m("G:fown"), pre.m("G:frole"), pre.m("G:fpos"), pre.g("flen", f)
        ch = pre.g("fchain", f)
        al, ale = v.m("alloc"), en.m("alloc")
        x = FreshInt("x")
        out = []
        for k, (t, p, e) in enumerate(lc.phis):
            if t == "ptr":
                left = If(p == 0, 0, Select(pos, p) + 1)        # headers still chained
                out.append(("member%d" % k, Or(p == 0, And(0 <= Select(pos, p), Select(pos, p) < n, Select(ch, Select(pos, p)) == p))))
                out.append(("freed%d" % k, ForAll([x], Select(al, x) == And(Select(ale, x), Not(And(Select(own, x) == f, Or(Select(role, x) == 1, Select(role, x) == 2), Select(pos, x) >= left))), patterns=[Select(al, x)])))
        return out

    def variants(self, lc):
        pos = lc.pre.m("G:fpos")
        return [("left%d" % k, If(p == 0, 0, Select(pos, p) + 1)) for k, (t, p, e) in enumerate(lc.phis) if t == "ptr"]


for _n, _k in (("axl_factory_free", IT), ("axl_string_factory_free", ST)):
    class _C(FacFree):
        name, k = _n, _k
    contract(_C)


for _n, _f in (("axl_factory_spare_max", "spare_max"), ("axl_factory_spare_next", "spare_next")):
    class _Q(FacC):
        name, k, nullok, fld, modifies = _n, IT, True, _f, []
        def ensures(self, pre, post, a, ret, w):
            return [("C07:value", ret == If(a[0] == 0, IntVal(-1), pre.f("axlFactory." + self.fld, a[0])))]
    contract(_Q)
