"""Contracts of the attributes of a node (src/axl_node.c): a map whatever the storage.

Names are compared by their text: keq(p,q) says that the texts at p and q are equal (none of these functions writes a
byte of a block that was live on entry, which the frame obligations on B establish).
Ghost state, by container c (the node itself while its attributes are a list, the hash table afterwards):
  MN[c] number of attributes, MK[c][i] and MV[c][i] name and value of the i-th, MF[c][i] whether its memory belongs to a
  factory; sown[b], sid[b]: the container that owns block b (0: nobody, -1: a factory, its texts are shared) and as what (2i: name i, 2i+1: value i, -1-i: record i)
  AR[p][i] the i-th record of the list of node p, counted from its end."""
from z3 import *
from vc import *

GHOST_SORTS.update({"G:MK": AAI, "G:MV": AAI, "G:MF": AAI, "G:MN": AI, "G:AR": AAI, "G:sown": AI, "G:sid": AI, "G:ish": AI})
CONTRACTS = {}
ABSTRACT = {}
keq = Function("same_name", INT, INT, INT)
look = Function("look_up", AI, INT, INT, INT)
_r, _n, _a, _i, _b, _c = Const("at_r", AI), Int("at_n"), Int("at_a"), Int("at_i"), Int("at_b"), Int("at_c")
KEQ = lambda a, b: keq(a, b) == 1
BACKGROUND += [ForAll([_a], keq(_a, _a) == 1, patterns=[keq(_a, _a)]),
               ForAll([_a, _b], keq(_a, _b) == keq(_b, _a), patterns=[keq(_a, _b)]),
               ForAll([_a, _b, _c], Implies(And(KEQ(_a, _b), KEQ(_b, _c)), KEQ(_a, _c)), patterns=[MultiPattern(keq(_a, _b), keq(_b, _c))]),
               ForAll([_r, _n, _a], Or(look(_r, _n, _a) == -1, And(0 <= look(_r, _n, _a), look(_r, _n, _a) < _n, KEQ(Select(_r, look(_r, _n, _a)), _a))), patterns=[look(_r, _n, _a)]),
               ForAll([_r, _n, _a, _i], Implies(And(0 <= _i, _i < _n, KEQ(Select(_r, _i), _a)), look(_r, _n, _a) != -1), patterns=[MultiPattern(look(_r, _n, _a), keq(Select(_r, _i), _a)), MultiPattern(look(_r, _n, _a), keq(_a, Select(_r, _i)))])]
AT, NA = "axlNode.attributes", "axlNode.attr_num"
RA, RV, RF, RN = "axlNodeAttr.attribute", "axlNodeAttr.value", "axlNodeAttr.from_factory", "axlNodeAttr.next"
F = lambda n: "F:" + n


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def abstract(cls):
    c = cls()
    ABSTRACT[c.name] = c
    return cls


def K(v, c): return v.g("MK", c)
def V(v, c): return v.g("MV", c)
def FF(v, c): return v.g("MF", c)
def N(v, c): return v.g("MN", c)
def islist(v, p): return v.f(NA, p) <= 10
def cont(v, p): return If(islist(v, p), p, v.f(AT, p))
def cases(v, p): return [("list", islist(v, p), p), ("table", Not(islist(v, p)), v.f(AT, p))]
def pick(v, p, f): return If(islist(v, p), f(p), f(v.f(AT, p)))
def block(v, x): return And(x != 0, v.alloc(x), blk(x) == x, off(x) == 0)
def absent(v, c, a): return q1(lambda i: Implies(And(0 <= i, i < N(v, c)), keq(Select(K(v, c), i), a) != 1), lambda i: Select(K(v, c), i), "i")


def owned_parts(v, c, p):
    """names and values of container c"""
    k, w, f, n = K(v, c), V(v, c), FF(v, c), N(v, c)
    so, si = v.m("G:sown"), v.m("G:sid")
    S = Select
    return [("names", q1(lambda i: Implies(And(0 <= i, i < n), And(S(k, i) != 0, v.alloc(blk(S(k, i))), blk(S(k, i)) != p, blk(S(k, i)) != c,
                                                                     If(S(f, i) == 0, And(block(v, S(k, i)), S(so, S(k, i)) == c, S(si, S(k, i)) == 2 * i), S(so, blk(S(k, i))) == -1))), lambda i: S(k, i), "i")),
            ("values", q1(lambda i: Implies(And(0 <= i, i < n, S(f, i) == 0, S(w, i) != 0), And(block(v, S(w, i)), S(w, i) != p, S(w, i) != c, S(so, S(w, i)) == c, S(si, S(w, i)) == 2 * i + 1)), lambda i: S(w, i), "i")),
            ("C11:one-value-per-name", q2(lambda i, j: Implies(And(0 <= i, i < j, j < n), keq(S(k, i), S(k, j)) != 1), lambda i, j: MultiPattern(S(k, i), S(k, j))))]


def list_parts(v, p):
    r, n = v.g("AR", p), N(v, p)
    S, fm = Select, lambda f: v.m(v._e.fieldmap(*f.split(".")))
    at = lambda i: S(r, i)
    so, si = v.m("G:sown"), v.m("G:sid")
    return [("C11:list", And(v.f(AT, p) == If(n > 0, at(n - 1), 0), n <= 10)),
            ("records", q1(lambda i: Implies(And(0 <= i, i < n), And(block(v, at(i)), at(i) != p, S(so, at(i)) == p, S(si, at(i)) == -1 - i, S(fm(RF), at(i)) == S(FF(v, p), i))), at, "i")),
            ("C11:records-hold-the-attributes", q1(lambda i: Implies(And(0 <= i, i < n), And(S(fm(RA), at(i)) == S(K(v, p), i), S(fm(RV), at(i)) == S(V(v, p), i))), at, "i")),
            ("C11:linked", q1(lambda i: Implies(And(0 <= i, i < n), S(fm(RN), at(i)) == If(i > 0, S(r, i - 1), 0)), lambda i: [S(fm(RN), at(i)), at(i)], "i"))]


def table_parts(v, p):
    h = v.f(AT, p)
    return [("C11:table", And(block(v, h), h > 0, h != p, v.g("ish", h) == 1))]


def wf_parts(v, p):
    l = islist(v, p)
    return [("node-live", And(block(v, p), p > 0)), ("C11:count", And(pick(v, p, lambda c: N(v, c)) == v.f(NA, p), v.f(NA, p) >= 0))] + [(x, Implies(l, f)) for x, f in list_parts(v, p)] + \
        [(x, Implies(Not(l), f)) for x, f in table_parts(v, p)] + \
        [("%s of the %s" % (x, nm), Implies(g, f)) for nm, g, c in cases(v, p) for x, f in owned_parts(v, c, p)]


# ---- what is known of the hash table (axl_hash_spec), the factory (axl_factory_spec) and the comparison (axl_string_spec)
@abstract
class ACmp(Contract):
    name, trusted, modifies = "axl_cmp", True, []
    def requires(self, pre, a): return [("texts-live", And(*[Or(x == 0, pre.alloc(blk(x))) for x in a[:2]]))]
    def ensures(self, pre, post, a, ret, w): return [("equal-texts", (ret != 0) == And(a[0] != 0, a[1] != 0, KEQ(a[0], a[1])))]


@abstract
class AFactory(Contract):
    name, trusted, modifies = "axl_factory_get", True, ["alloc"]
    def requires(self, pre, a): return [("factory", a[0] != 0)]
    def ensures(self, pre, post, a, ret, w):
        return [("new-object", And(ret != 0, Not(pre.alloc(ret)), blk(ret) == ret, off(ret) == 0, post.m("alloc") == Store(pre.m("alloc"), ret, True))), ("cleared", post.f(RN, ret) == 0)]


class AHash(Contract):
    trusted = True
    def requires(self, pre, a): return [("table", And(pre.g("ish", a[0]) == 1, pre.alloc(a[0])))]


@abstract
class AHNew(Contract):
    name, trusted = "axl_hash_new_full", True
    modifies = ["alloc", "G:ish", "G:MN"]
    def frame(self, pre, a): return {"G:ish": lambda x: BoolVal(False), "G:MN": lambda x: BoolVal(False)}
    def requires(self, pre, a): return [("text-keys", And(a[0] == Int("fn_axl_hash_string"), a[1] == Int("fn_axl_hash_equal_string"), a[2] > 0))]
    def ensures(self, pre, post, a, ret, w):
        x = FreshInt("x")
        return [("new-table", And(ret > 0, Not(pre.alloc(ret)), blk(ret) == ret, off(ret) == 0, post.m("alloc") == Store(pre.m("alloc"), ret, True), post.g("ish", ret) == 1, post.g("MN", ret) == 0)),
                ("owns-nothing", ForAll([x], pre.g("sown", x) != ret, patterns=[pre.g("sown", x)]))]


@abstract
class AHInsert(AHash):
    name = "axl_hash_insert_full"
    modifies = ["G:MK", "G:MV", "G:MF", "G:MN", "G:sown", "G:sid"]
    def requires(self, pre, a):
        h, k, kd, x, xd = a
        own = lambda y: And(block(pre, y), pre.g("sown", y) != h, pre.g("sown", y) != -1)
        fr = Int("fn_axl_free")
        return super().requires(pre, a) + [("new-name", And(k != 0, pre.alloc(blk(k)), absent(pre, h, k))), ("destroyed-alike", And(kd == xd, Or(kd == 0, kd == fr))),
                                           ("ownership", If(kd == 0, pre.g("sown", blk(k)) == -1, And(own(k), k != x, k != h, Implies(x != 0, And(own(x), x != h)))))]
    def ghost(self, pre, post, a, ret, w):
        h, k, kd, x, xd = a
        n = N(pre, h)
        st = lambda m, y: Store(pre.m("G:" + m), h, Store(pre.g(m, h), n, y))
        mine = kd != 0
        so, si = pre.m("G:sown"), pre.m("G:sid")
        so1, si1 = Store(so, k, h), Store(si, k, 2 * n)
        so2, si2 = If(x == 0, so1, Store(so1, x, h)), If(x == 0, si1, Store(si1, x, 2 * n + 1))
        return {"G:MK": st("MK", k), "G:MV": st("MV", x), "G:MF": st("MF", If(mine, IntVal(0), IntVal(1))), "G:MN": Store(pre.m("G:MN"), h, n + 1),
                "G:sown": If(mine, so2, so), "G:sid": If(mine, si2, si)}, []
    def ensures(self, pre, post, a, ret, w): return []


@abstract
class AHExists(AHash):
    name, modifies = "axl_hash_exists", []
    def ensures(self, pre, post, a, ret, w): return [("present", (ret != 0) == (look(K(pre, a[0]), N(pre, a[0]), a[1]) != -1))]


@abstract
class AHGet(AHash):
    name, modifies = "axl_hash_get", []
    def ensures(self, pre, post, a, ret, w):
        i = look(K(pre, a[0]), N(pre, a[0]), a[1])
        return [("value", ret == If(i != -1, Select(V(pre, a[0]), i), 0))]


@abstract
class AHItems(AHash):
    name, modifies = "axl_hash_items", []
    def ensures(self, pre, post, a, ret, w): return [("items", ret == N(pre, a[0]))]


@abstract
class AHRemove(AHash):
    """the last entry takes the place of the one removed (the order of the entries of a table means nothing)"""
    name = "axl_hash_remove"
    modifies = ["alloc", "G:MK", "G:MV", "G:MF", "G:MN", "G:sown", "G:sid"]
    def ghost(self, pre, post, a, ret, w):
        h, q = a[:2]
        n = N(pre, h)
        i = look(K(pre, h), n, q)
        g = i != -1
        st = lambda m: If(g, Store(pre.m("G:" + m), h, Store(pre.g(m, h), i, Select(pre.g(m, h), n - 1))), pre.m("G:" + m))
        k, x, f = (lambda j: Select(K(pre, h), j)), (lambda j: Select(V(pre, h), j)), (lambda j: Select(FF(pre, h), j))
        so, si = pre.m("G:sown"), pre.m("G:sid")
        so1 = If(f(i) == 0, Store(Store(so, k(i), 0), x(i), 0), so)
        moved = And(i != n - 1, f(n - 1) == 0)
        si1 = If(moved, If(x(n - 1) == 0, Store(si, k(n - 1), 2 * i), Store(Store(si, k(n - 1), 2 * i), x(n - 1), 2 * i + 1)), si)
        return {"G:MK": st("MK"), "G:MV": st("MV"), "G:MF": st("MF"), "G:MN": If(g, Store(pre.m("G:MN"), h, n - 1), pre.m("G:MN")), "G:sown": If(g, so1, so), "G:sid": If(g, si1, si)}, []
    def ensures(self, pre, post, a, ret, w):
        h, q = a[:2]
        i = look(K(pre, h), N(pre, h), q)
        k, x = Select(K(pre, h), i), Select(V(pre, h), i)
        al = pre.m("alloc")
        return [("released", post.m("alloc") == If(And(i != -1, Select(FF(pre, h), i) == 0), Store(Store(al, k, False), x, False), al))]


# ---- the functions
class AttrC(Contract):
    tags = ("C11",)
    modifies = []
    def g(self, a): return a[0] != 0
    def requires(self, pre, a): return [(l, Implies(self.g(a), f)) for l, f in wf_parts(pre, a[0])]

    def find(self, v, p, q):
        return pick(v, p, lambda c: look(K(v, c), N(v, c), q))

    def value(self, v, p, q):
        """the value of the name, 0 if it has none"""
        def f(c):
            i = look(K(v, c), N(v, c), q)
            return If(i != -1, Select(V(v, c), i), 0)
        return pick(v, p, f)

    def ranks(self, lc):
        """records of the list the pointers of the loop stand at"""
        p = lc.args[0]
        v = lc.pre
        so, si, r, n = v.m("G:sown"), v.m("G:sid"), v.g("AR", p), N(v, p)
        out = []
        for j, (t, q, e) in enumerate(lc.phis):
            if t == "ptr":
                rk = If(q == 0, IntVal(-1), -1 - Select(si, q))
                out.append((j, q, rk, And(-1 <= rk, rk < n, Implies(q != 0, And(rk >= 0, Select(r, rk) == q, Select(so, q) == p)), Implies(q == 0, rk == -1))))
        return out

    def q(self, a): return a[1]

    def loops(self, lc):
        p, a = lc.args[0], self.q(lc.args)
        v, n = lc.pre, N(lc.pre, p)
        k = K(v, p)
        out = []
        R = self.ranks(lc)
        for j, q, rk, ok in R:
            out.append(("in%d" % j, Implies(islist(v, p), ok)))
            out.append(("passed%d" % j, Implies(islist(v, p), q1(lambda i: Implies(And(rk < i, i < n), keq(Select(k, i), a) != 1), lambda i: Select(k, i), "i"))))
            for j2, q2_, rk2, ok2 in R:
                if j2 != j:
                    out.append(("behind%d.%d" % (j, j2), And(Implies(rk == n - 1, q2_ == 0), Implies(rk < n - 1, q2_ == Select(v.g("AR", p), rk + 1)))))
        return out

    def variants(self, lc): return [("left%d" % j, rk + 1) for j, q, rk, ok in self.ranks(lc)]


class QueryC(AttrC):
    def g(self, a): return And(a[0] != 0, a[1] != 0)
    def requires(self, pre, a): return super().requires(pre, a) + [("name-live", Or(a[1] == 0, pre.alloc(blk(a[1]))))]


@contract
class Has(QueryC):
    name = "axl_node_has_attribute"
    def ensures(self, pre, post, a, ret, w): return [("C11:present-exactly-when-set", Implies(self.g(a), (ret != 0) == (self.find(pre, a[0], a[1]) != -1))), ("C11:null-refused", Implies(Not(self.g(a)), ret == 0))]


@contract
class Get(QueryC):
    name = "axl_node_get_attribute_value"
    def ensures(self, pre, post, a, ret, w):
        return [("C11:value-of-the-name", Implies(self.g(a), ret == self.value(pre, a[0], a[1]))), ("C11:null-refused", Implies(Not(self.g(a)), ret == 0))]


@contract
class HasValue(QueryC):
    name = "axl_node_has_attribute_value"
    def requires(self, pre, a):
        i, x = self.find(pre, a[0], a[1]), self.value(pre, a[0], a[1])
        return super().requires(pre, a) + [("values-live", And(Or(a[2] == 0, pre.alloc(blk(a[2]))), Implies(And(self.g(a), i != -1), Or(x == 0, pre.alloc(blk(x))))))]
    def ensures(self, pre, post, a, ret, w):
        i, x = self.find(pre, a[0], a[1]), self.value(pre, a[0], a[1])
        return [("C11:value-compared", Implies(And(self.g(a), a[2] != 0), (ret != 0) == And(i != -1, x != 0, KEQ(x, a[2])))), ("C11:null-refused", Implies(Not(And(self.g(a), a[2] != 0)), ret == 0))]


@contract
class Num(AttrC):
    name = "axl_node_num_attributes"
    def ensures(self, pre, post, a, ret, w): return [("C11:number-of-names", ret == If(a[0] != 0, pick(pre, a[0], lambda c: N(pre, c)), -1))]


@contract
class HasAny(AttrC):
    name = "axl_node_has_attributes"
    def ensures(self, pre, post, a, ret, w): return [("C11:any", (ret != 0) == And(a[0] != 0, pick(pre, a[0], lambda c: N(pre, c)) > 0))]


GH = ["G:MK", "G:MV", "G:MF", "G:MN", "G:AR", "G:sown", "G:sid", "G:ish"]


def same_view(pre, post, p):
    return And(post.f(AT, p) == pre.f(AT, p), post.f(NA, p) == pre.f(NA, p), *[Implies(g, And(N(post, c) == N(pre, c), K(post, c) == K(pre, c), V(post, c) == V(pre, c), FF(post, c) == FF(pre, c))) for nm, g, c in cases(pre, p)])


class SetC(AttrC):
    modifies = ["alloc", "B", "A:ptr", F(AT), F(NA), F(RA), F(RV), F(RF), F(RN)] + GH
    def parms(self, a): pass        # factory, node, name, value, from factory

    def frame(self, pre, a):
        fa, p, k, x, ff = self.parms(a)
        c = cont(pre, p)
        mine = lambda y: And(p != 0, y == p)
        box = lambda y: And(p != 0, Or(y == p, y == c))
        recs = lambda y: And(p != 0, pre.g("sown", y) == p)
        d = {F(AT): mine, F(NA): mine, F(RA): recs, F(RV): recs, F(RF): recs, F(RN): recs, "A:ptr": recs, "B": recs}
        d.update({g: box for g in ("G:MK", "G:MV", "G:MF", "G:MN", "G:AR")})
        d["G:sown"] = d["G:sid"] = lambda y: And(p != 0, Or(pre.g("sown", y) == p, pre.g("sown", y) == c, y == k, y == x))
        return d

    def given(self, pre, a):
        fa, p, k, x, ff = self.parms(a)
        c = cont(pre, p)
        own = lambda y: And(block(pre, y), y != p, y != c, pre.g("sown", y) == 0)
        return [("name", And(k != 0, pre.alloc(blk(k)))), ("factory", Implies(ff != 0, And(fa != 0, blk(k) != p, blk(k) != c, pre.g("sown", blk(k)) == -1))),
                ("ownership", Implies(ff == 0, And(own(k), k != x, Or(x == 0, own(x)))))]

    def requires(self, pre, a):
        p = self.parms(a)[1]
        return [(l, Implies(self.ok(a), f)) for l, f in wf_parts(pre, p) + self.given(pre, a)] + [("node-given", p != 0)] * (not self.nullok)
    nullok = False
    def ok(self, a): return BoolVal(True)

    def ghost_ret(self, pre, post, a, ret, w):
        fa, p, k, x, ff = self.parms(a)
        n = N(pre, p)
        rec = post.f(AT, p)
        added = And(islist(post, p), post.f(NA, p) != pre.f(NA, p))
        turned = And(islist(pre, p), Not(islist(post, p)))
        so, si = post.m("G:sown"), post.m("G:sid")
        so1 = Store(so, rec, p)
        si1 = Store(si, rec, -1 - n)
        own = lambda m, y, z: If(ff != 0, m, If(x == 0, Store(m, k, y), Store(Store(m, k, y), x, z)))
        st = lambda m, y: If(added, Store(post.m("G:" + m), p, Store(post.g(m, p), n, y)), post.m("G:" + m))
        return {"G:MK": st("MK", k), "G:MV": st("MV", x), "G:MF": st("MF", ff), "G:AR": st("AR", rec), "G:MN": If(added, Store(post.m("G:MN"), p, n + 1), post.m("G:MN")),
                "G:sown": If(added, own(so1, p, p), so), "G:sid": If(added, own(si1, 2 * n, 2 * n + 1), si)}, []

    def stored(self, pre, post, a):
        fa, p, k, x, ff = self.parms(a)
        n = pre.f(NA, p)
        out = wf_parts(post, p)
        for nm, g, c in cases(pre, p):
            for nm2, g2, c2 in cases(post, p):
                if nm2 == "list" and nm == "table":
                    continue
                was = (lambda i: n - 1 - i) if nm != nm2 else (lambda i: i)
                K0, V0, K2, V2 = K(pre, c), V(pre, c), K(post, c2), V(post, c2)
                out += [(l, Implies(And(g, g2), f)) for l, f in [
                    ("C11:one-more", post.f(NA, p) == n + 1),
                    ("C11:others-kept (%s, %s)" % (nm, nm2), q1(lambda i: Implies(And(0 <= i, i < n), And(Select(K2, i) == Select(K0, was(i)), Select(V2, i) == Select(V0, was(i)))), lambda i: Select(K2, i), "i")),
                    ("C11:name-and-value-set", And(Select(K2, n) == k, Select(V2, n) == x))]]
        return out

    def loops(self, lc):
        """the records are moved, last set first, to the table"""
        p = self.parms(lc.args)[1]
        out = []
        v, pre = lc.post, lc.pre
        n, h = N(pre, p), v.f(AT, p)
        S = Select
        k, x, f, r = K(pre, p), V(pre, p), FF(pre, p), pre.g("AR", p)
        so, si, so2, si2 = pre.m("G:sown"), pre.m("G:sid"), v.m("G:sown"), v.m("G:sid")
        fm = lambda w, g: w.m(w._e.fieldmap(*g.split(".")))
        for j, (t, q, e) in enumerate(lc.phis):
            if t != "ptr":
                continue
            rk = If(q == 0, IntVal(-1), -1 - S(si, q))
            d = n - 1 - rk
            out.append(("in%d" % j, And(-1 <= rk, rk < n, n == 10, Implies(q != 0, And(rk >= 0, S(r, rk) == q, S(so, q) == p)))))
            out.append(("table%d" % j, And(v.f(NA, p) == 10, block(v, h), h > 0, Not(Select(pre.m("alloc"), h)), v.g("ish", h) == 1, N(v, h) == d, h != p)))
            for m, src in (("MK", lambda i: S(k, i)), ("MV", lambda i: S(x, i)), ("MF", lambda i: If(S(f, i) == 0, IntVal(0), IntVal(1)))):
                out.append(("moved%d:%s" % (j, m), q1(lambda i: Implies(And(0 <= i, i < d), S(v.g(m, h), i) == src(n - 1 - i)), lambda i: S(v.g(m, h), i), "i")))
            out.append(("owned-names%d" % j, q1(lambda i: Implies(And(0 <= i, i < n), And(v.alloc(blk(S(k, i))), If(S(f, i) == 0, And(S(so2, S(k, i)) == If(i > rk, h, p), S(si2, S(k, i)) == If(i > rk, 2 * (n - 1 - i), 2 * i)), S(so2, blk(S(k, i))) == -1))), lambda i: S(k, i), "i")))
            out.append(("owned-values%d" % j, q1(lambda i: Implies(And(0 <= i, i < n, S(f, i) == 0, S(x, i) != 0), And(v.alloc(S(x, i)), S(so2, S(x, i)) == If(i > rk, h, p), S(si2, S(x, i)) == If(i > rk, 2 * (n - 1 - i) + 1, 2 * i + 1))), lambda i: S(x, i), "i")))
            out.append(("records%d" % j, q1(lambda i: Implies(And(0 <= i, i <= rk), And(v.alloc(S(r, i)), *[S(fm(v, g), S(r, i)) == S(fm(pre, g), S(r, i)) for g in (RA, RV, RF, RN)])), lambda i: S(r, i), "i")))
        y = FreshInt("y")
        out.append(("node", v.alloc(p)))
        out.append(("others", ForAll([y], Implies(And(S(so, y) != p), And(S(so2, y) == S(so, y), S(si2, y) == S(si, y))), patterns=[S(so2, y), S(si2, y)])))
        out.append(("released", ForAll([y], Implies(And(S(pre.m("alloc"), y), Not(S(v.m("alloc"), y))), And(S(so, y) == p, S(si, y) < 0)), patterns=[S(v.m("alloc"), y)])))
        for g in ("MK", "MV", "MF", "MN", "AR", "ish"):
            out.append(("keep:" + g, ForAll([y], Implies(And(y != h, Select(pre.m("alloc"), y)), v.g(g, y) == pre.g(g, y)), patterns=[v.g(g, y)])))
        return out

    def variants(self, lc):
        si = lc.pre.m("G:sid")
        return [("left%d" % j, If(q == 0, IntVal(0), -Select(si, q))) for j, (t, q, e) in enumerate(lc.phis) if t == "ptr"]


@contract
class SetCore(SetC):
    name = "__axl_node_set_attribute"
    def parms(self, a): return a[0], a[1], a[2], a[3], a[4]
    def ensures(self, pre, post, a, ret, w):
        fa, p, k, x, ff = self.parms(a)
        new = self.find(pre, p, k) == -1
        return [("C11:refused-exactly-when-present", (ret != 0) == new), ("C11:first-value-kept", Implies(Not(new), And(same_view(pre, post, p), *[post.m(m) == pre.m(m) for m in self.modifies])))] + \
            [(l, Implies(new, f)) for l, f in self.stored(pre, post, a)]


@contract
class SetFromFactory(SetCore):
    name = "axl_node_set_attribute_from_factory"
    def parms(self, a): return a[0], a[1], a[2], a[3], IntVal(1)
    def loops(self, lc): return []
    def ghost_ret(self, pre, post, a, ret, w): return {}, []
    def ensures(self, pre, post, a, ret, w): return [x for x in super().ensures(pre, post, a, IntVal(1), w)[2:]] + \
        [("C11:first-value-kept", Implies(self.find(pre, a[1], a[2]) != -1, And(same_view(pre, post, a[1]), *[post.m(m) == pre.m(m) for m in self.modifies])))]


@contract
class SetRef(SetC):
    """the node owns name and value from then on, or they are released when the name is already there"""
    name, nullok = "axl_node_set_attribute_ref", True
    def parms(self, a): return IntVal(0), a[0], a[1], a[2], IntVal(0)
    def ghost_ret(self, pre, post, a, ret, w): return {}, []
    def ok(self, a): return And(a[0] != 0, a[1] != 0, a[2] != 0)
    def loops(self, lc): return []
    def ensures(self, pre, post, a, ret, w):
        new, ok = self.find(pre, a[0], a[1]) == -1, self.ok(a)
        al = pre.m("alloc")
        return [("C11:first-value-kept", Implies(And(ok, Not(new)), same_view(pre, post, a[0]))), ("C11:refused-pair-released", Implies(And(ok, Not(new)), post.m("alloc") == Store(Store(al, a[1], False), a[2], False))),
                ("C11:null-ignored", Implies(Not(ok), And(*[post.m(m) == pre.m(m) for m in self.modifies])))] + \
            [(l, Implies(And(ok, new), f)) for l, f in self.stored(pre, post, a)]


# ---- setting a copy: the escaped text of names and values is that of axl_node_spec (C10)
needs = Function("needs_escape", INT, INT)
esc = Function("escaped_text", INT, INT)


@abstract
class ALen(Contract):
    name, trusted, modifies = "strlen", True, []
    def requires(self, pre, a): return [("text-live", And(a[0] != 0, pre.alloc(blk(a[0]))))]
    def ensures(self, pre, post, a, ret, w): return [("length", ret >= 0)]


@abstract
class AInvalid(Contract):
    name, trusted, modifies = "axl_node_has_invalid_chars", True, ["A:i32"]
    def frame(self, pre, a): return {"A:i32": lambda x: x == blk(a[2])}
    def requires(self, pre, a): return [("text-live", And(a[0] != 0, pre.alloc(blk(a[0]))))]
    def ensures(self, pre, post, a, ret, w): return [("special-characters", (ret != 0) == (needs(a[0]) == 1))]


class Copy(Contract):
    trusted = True
    modifies = ["alloc", "B", "G:sown"]
    def frame(self, pre, a): return {"B": lambda x: BoolVal(False), "G:sown": lambda x: BoolVal(False)}
    def requires(self, pre, a): return [("text-live", And(a[0] != 0, pre.alloc(blk(a[0]))))]
    def text(self, a): return a[0]
    def ensures(self, pre, post, a, ret, w):
        return [("new-block", And(ret > 0, Not(pre.alloc(ret)), blk(ret) == ret, off(ret) == 0, post.m("alloc") == Store(pre.m("alloc"), ret, True))), ("same-text", KEQ(ret, self.text(a)))]
    def ghost(self, pre, post, a, ret, w): return {"G:sown": Store(pre.m("G:sown"), ret, 0)}, []


@abstract
class ADup(Copy): name = "axl_strdup"


@abstract
class AEscape(Copy):
    name = "__axl_node_content_copy_and_escape"
    def text(self, a): return esc(a[0])


@contract
class SetAttribute(SetC):
    name, nullok = "axl_node_set_attribute", True
    def parms(self, a): return IntVal(0), a[0], a[1], a[2], IntVal(0)
    def ok(self, a): return And(a[0] != 0, a[1] != 0, a[2] != 0)
    def given(self, pre, a): return [("name-and-value-live", And(pre.alloc(blk(a[1])), pre.alloc(blk(a[2])), 0 <= off(a[1]), off(a[1]) < bsize(blk(a[1]))))]
    def frame(self, pre, a):
        p = a[0]
        d = super().frame(pre, a)
        c = cont(pre, p)
        d["G:sown"] = d["G:sid"] = lambda y: And(p != 0, Or(pre.g("sown", y) == p, pre.g("sown", y) == c))
        return d
    def loops(self, lc): return []
    def ghost_ret(self, pre, post, a, ret, w): return {}, []
    def ensures(self, pre, post, a, ret, w):
        p = a[0]
        text = lambda x: If(needs(x) == 1, esc(x), x)
        k, x = text(a[1]), text(a[2])
        empty = Select(Select(pre.m("B"), blk(a[1])), off(a[1])) == 0
        ok = And(self.ok(a), Not(empty))
        new = self.find(pre, p, k) == -1
        n = pre.f(NA, p)
        out = [("C11:null-ignored", Implies(Not(self.ok(a)), And(*[post.m(m) == pre.m(m) for m in self.modifies]))), ("C11:empty-name-ignored", Implies(And(self.ok(a), empty), And(*[post.m(m) == pre.m(m) for m in self.modifies]))),
               ("C11:first-value-kept", Implies(And(ok, Not(new)), same_view(pre, post, p)))]
        y = FreshInt("y")
        out += [("C11:nothing-lost-or-left", Implies(And(ok, Not(new)), ForAll([y], post.alloc(y) == pre.alloc(y), patterns=[post.alloc(y)])))]
        out += [(l, Implies(ok, f)) for l, f in wf_parts(post, p)]
        for nm, g, c in cases(pre, p):
            for nm2, g2, c2 in cases(post, p):
                if nm2 == "list" and nm == "table":
                    continue
                was = (lambda i: n - 1 - i) if nm != nm2 else (lambda i: i)
                K0, V0, K2, V2 = K(pre, c), V(pre, c), K(post, c2), V(post, c2)
                out += [(l, Implies(And(ok, new, g, g2), f)) for l, f in [
                    ("C11:one-more", post.f(NA, p) == n + 1),
                    ("C11:others-kept (%s, %s)" % (nm, nm2), q1(lambda i: Implies(And(0 <= i, i < n), And(Select(K2, i) == Select(K0, was(i)), Select(V2, i) == Select(V0, was(i)))), lambda i: Select(K2, i), "i")),
                    ("C11:name-and-value-set", And(KEQ(Select(K2, n), k), KEQ(Select(V2, n), x)))]]
        return out


# ---- removing: the entries above the one removed move down one place
cutrow = Function("without_entry", AI, INT, AI)
cutsid = Function("without_number", AI, AI, INT, INT, AI)
_s, _o, _p, _y = Const("at_s", AI), Const("at_o", AI), Int("at_p"), Int("at_y")
_cs = cutsid(_s, _o, _p, _n)
BACKGROUND += [ForAll([_r, _n, _i], Select(cutrow(_r, _n), _i) == If(_i < _n, Select(_r, _i), Select(_r, _i + 1)), patterns=[Select(cutrow(_r, _n), _i)]),
               ForAll([_s, _o, _p, _n, _y], Select(_cs, _y) == If(Select(_o, _y) != _p, Select(_s, _y), If(Select(_s, _y) < -1 - _n, Select(_s, _y) + 1, If(Select(_s, _y) > 2 * _n + 1, Select(_s, _y) - 2, Select(_s, _y)))), patterns=[Select(_cs, _y)])]


@contract
class Remove(AttrC):
    name = "axl_node_remove_attribute"
    modifies = ["alloc", F(AT), F(NA), F(RN), F(RA), F(RV), F(RF), "B", "A:ptr"] + GH
    def g(self, a): return And(a[0] != 0, a[1] != 0)
    def where(self, pre, a, c): return look(K(pre, c), N(pre, c), a[1])

    def requires(self, pre, a):
        return super().requires(pre, a) + [("name-live", Implies(self.g(a), pre.alloc(blk(a[1]))))]

    def proved_case(self, pre, a):
        """the table of eleven attributes that goes back to a list of ten is tried up to a bound"""
        return [("the table does not go down to ten attributes", Not(And(self.g(a), Not(islist(pre, a[0])), pre.f(NA, a[0]) == 11, self.find(pre, a[0], a[1]) != -1)))]

    def frame(self, pre, a):
        p = a[0]
        c = cont(pre, p)
        mine = lambda y: And(p != 0, y == p)
        box = lambda y: And(p != 0, Or(y == p, y == c))
        recs = lambda y: And(p != 0, pre.g("sown", y) == p)
        own = lambda y: And(p != 0, Or(pre.g("sown", y) == p, pre.g("sown", y) == c))
        d = {F(AT): mine, F(NA): mine, F(RN): own, F(RA): own, F(RV): own, F(RF): own, "B": own, "A:ptr": own, "G:sown": own, "G:sid": own}
        d.update({g: box for g in ("G:MK", "G:MV", "G:MF", "G:MN", "G:AR")})
        return d

    def ghost_ret(self, pre, post, a, ret, w):
        p = a[0]
        n = N(pre, p)
        gone = And(self.g(a), islist(pre, p), post.f(NA, p) != pre.f(NA, p))
        i = self.where(pre, a, p)
        k, x, f, rec = Select(K(pre, p), i), Select(V(pre, p), i), Select(FF(pre, p), i), Select(pre.g("AR", p), i)
        so, si = post.m("G:sown"), post.m("G:sid")
        so1 = Store(so, rec, 0)
        so2 = If(f == 0, If(x == 0, Store(so1, k, 0), Store(Store(so1, k, 0), x, 0)), so1)
        st = lambda m: If(gone, Store(post.m("G:" + m), p, cutrow(post.g(m, p), i)), post.m("G:" + m))
        return {"G:MK": st("MK"), "G:MV": st("MV"), "G:MF": st("MF"), "G:AR": st("AR"), "G:MN": If(gone, Store(post.m("G:MN"), p, n - 1), post.m("G:MN")),
                "G:sown": If(gone, so2, so), "G:sid": If(gone, cutsid(si, so2, p, i), si)}, []

    def ensures(self, pre, post, a, ret, w):
        p, g = a[0], self.g(a)
        n = pre.f(NA, p)
        there = self.find(pre, p, a[1]) != -1
        S = Select
        out = [("C11:null-ignored", Implies(Not(g), And(*[post.m(m) == pre.m(m) for m in self.modifies]))), ("C11:absent-name-ignored", Implies(And(g, Not(there)), And(same_view(pre, post, p), *[post.m(m) == pre.m(m) for m in self.modifies])))]
        out += [(l, Implies(And(g, there), f)) for l, f in wf_parts(post, p)]
        out += [("C11:one-less", Implies(And(g, there), And(post.f(NA, p) == n - 1, islist(post, p) == islist(pre, p))))]
        for nm, gc, c in cases(pre, p):
            i = self.where(pre, a, c)
            k2, x2, k, x = K(post, c), V(post, c), K(pre, c), V(pre, c)
            to = (lambda j: If(j < i, S(k2, j), S(k2, j - 1)), lambda j: If(j < i, S(x2, j), S(x2, j - 1))) if nm == "list" else (lambda j: If(j == n - 1, S(k2, i), S(k2, j)), lambda j: If(j == n - 1, S(x2, i), S(x2, j)))
            f = S(FF(pre, c), i)
            al = pre.m("alloc")
            rec = S(pre.g("AR", p), i)
            rel = Store(Store(al, S(k, i), False), S(x, i), False)
            if nm == "list":
                rel = Store(rel, rec, False)
            out += [(l, Implies(And(g, there, gc), y)) for l, y in [
                ("C11:name-gone (%s)" % nm, q1(lambda j: Implies(And(0 <= j, j < n - 1), keq(S(k2, j), a[1]) != 1), lambda j: S(k2, j), "j")),
                ("C11:others-kept (%s)" % nm, q1(lambda j: Implies(And(0 <= j, j < n, j != i), And(to[0](j) == S(k, j), to[1](j) == S(x, j))), lambda j: S(k, j), "j")),
                ("C11:storage-released (%s)" % nm, post.m("alloc") == If(f == 0, rel, al))]]
        return out
