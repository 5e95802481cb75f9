"""Contracts of the namespace queries (ns/axl_ns_doc.c, ns/axl_ns_node.c): a prefix, or its absence, resolves through the nearest
enclosing declaration.

code(row,o) stands for the text at offset o of a block: two texts are equal exactly when their codes are.
Ghost state: tab[p] the table of declarations of node p (0: none); DK[h][i], DV[h][i] the prefix and the namespace (codes) of the
i-th binding of table h, DN[h] how many; par[p] parent, dep[p] depth; kid[p][i], nk[p] the child nodes, kix[p] the position of p
among those of its parent; nm[p] the name, isnm[b] block b holds names of nodes."""
from z3 import *
from vc import *
from lib import slen, is_cstr

GHOST_SORTS.update({"G:tab": AI, "G:DK": AAI, "G:DV": AAI, "G:DN": AI, "G:par": AI, "G:dep": AI, "G:kid": AAI, "G:nk": AI, "G:kix": AI, "G:nm": AI, "G:isnm": AI})
CONTRACTS = {}
ABSTRACT = {}
_r, _o, _i, _n, _c, _p, _x = Const("ns_r", AI), Int("ns_o"), Int("ns_i"), Int("ns_n"), Int("ns_c"), Int("ns_p"), Int("ns_x")
code = Function("text_code", AI, INT, INT)
look = Function("binding_of", AI, INT, INT, INT)         # table row, number, prefix
colon = Function("first_colon", AI, INT, INT)
BACKGROUND += [ForAll([_r, _n, _c], Or(look(_r, _n, _c) == -1, And(0 <= look(_r, _n, _c), look(_r, _n, _c) < _n, Select(_r, look(_r, _n, _c)) == _c)), patterns=[look(_r, _n, _c)]),
               ForAll([_r, _n, _c, _i], Implies(And(0 <= _i, _i < _n, Select(_r, _i) == _c), look(_r, _n, _c) != -1), patterns=[MultiPattern(look(_r, _n, _c), Select(_r, _i))]),
               ForAll([_r, _o], Or(colon(_r, _o) == -1, And(0 <= colon(_r, _o), colon(_r, _o) < slen(_r, _o), Select(_r, _o + colon(_r, _o)) == 58)), patterns=[colon(_r, _o)]),
               ForAll([_r, _o, _i], Implies(And(_o <= _i, _i < _o + If(colon(_r, _o) == -1, slen(_r, _o), colon(_r, _o))), Select(_r, _i) != 58), patterns=[MultiPattern(colon(_r, _o), Select(_r, _i))])]

TB, DF = "axlNsTable.table", "axlNsTable.defaultNs"
# the maps a resolution depends on, in the order the symbols take them
MAPS = [("tab", "G:tab", AI), ("par", "G:par", AI), ("tb", TB, AI), ("df", DF, AI), ("DK", "G:DK", AAI), ("DV", "G:DV", AAI), ("DN", "G:DN", AI)]


def maps(v): return [v.m(n) if n.startswith("G:") else v.m(v._e.fieldmap(*n.split("."))) for _, n, _ in MAPS]


near = Function("declaring_node", *([s for _, _, s in MAPS] + [INT, INT, INT]))
neard = Function("default_node", *([s for _, _, s in MAPS] + [INT, INT]))
_m = [Const("ns_" + k, s) for k, _, s in MAPS]


def declares(m, p, c):
    tab, par, tb, df, dk, dv, dn = m
    h = Select(tb, Select(tab, p))
    return And(Select(tab, p) != 0, h != 0, look(Select(dk, h), Select(dn, h), c) != -1)


def bound(m, p, c):
    tab, par, tb, df, dk, dv, dn = m
    h = Select(tb, Select(tab, p))
    return Select(Select(dv, h), look(Select(dk, h), Select(dn, h), c))


def defaults(m, p): return And(Select(m[0], p) != 0, Select(m[3], Select(m[0], p)) != 0)


BACKGROUND += [ForAll(_m + [_p, _c], near(*(_m + [_p, _c])) == If(_p == 0, 0, If(declares(_m, _p, _c), _p, near(*(_m + [Select(_m[1], _p), _c])))), patterns=[MultiPattern(near(*(_m + [_p, _c])), Select(_m[0], _p))]),
               ForAll(_m + [_c], near(*(_m + [IntVal(0), _c])) == 0, patterns=[near(*(_m + [IntVal(0), _c]))]),
               ForAll(_m + [_p], neard(*(_m + [_p])) == If(_p == 0, 0, If(defaults(_m, _p), _p, neard(*(_m + [Select(_m[1], _p)])))), patterns=[MultiPattern(neard(*(_m + [_p])), Select(_m[0], _p))]),
               ForAll(_m, neard(*(_m + [IntVal(0)])) == 0, patterns=[neard(*(_m + [IntVal(0)]))])]


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def abstract(cls):
    c = cls()
    ABSTRACT[c.name] = c
    return cls


def txt(v, p): return code(v.bytes(p), off(p))
def isnode(v, p): return And(p > 0, v.alloc(p), v.g("dep", p) >= 0)


# ---- what the core library offers (axl_tree_spec, axl_hash_spec, axl_string_spec)
@abstract
class ACmp(Contract):
    name, trusted, modifies = "axl_cmp", True, []
    def requires(self, pre, a): return [("texts-live", And(*[Or(x == 0, pre.alloc(blk(x))) for x in a[:2]]))]
    def ensures(self, pre, post, a, ret, w): return [("equal-texts", (ret != 0) == And(a[0] != 0, a[1] != 0, txt(pre, a[0]) == txt(pre, a[1])))]


@abstract
class AAnnot(Contract):
    name, trusted, modifies = "axl_node_annotate_get", True, []
    def requires(self, pre, a): return [("node", isnode(pre, a[0]))]
    def ensures(self, pre, post, a, ret, w): return [("table-of-the-node", Implies(a[2] == 0, And(ret == pre.g("tab", a[0]), Implies(ret != 0, And(pre.alloc(ret), blk(ret) == ret, off(ret) == 0)))))]


@abstract
class AParent(Contract):
    name, trusted, modifies = "axl_node_get_parent", True, []
    def requires(self, pre, a): return [("node", isnode(pre, a[0]))]
    def ensures(self, pre, post, a, ret, w):
        return [("parent", And(ret == pre.g("par", a[0]), Implies(ret != 0, And(isnode(pre, ret), pre.g("dep", ret) < pre.g("dep", a[0])))))]


class AHash(Contract):
    trusted, modifies = True, []
    def requires(self, pre, a): return [("key-live", Or(a[0] == 0, And(pre.alloc(blk(a[1])), a[1] != 0)))]
    def at(self, v, a): return look(v.g("DK", a[0]), v.g("DN", a[0]), txt(v, a[1]))


@abstract
class AHExists(AHash):
    name = "axl_hash_exists"
    def ensures(self, pre, post, a, ret, w): return [("declared", (ret != 0) == And(a[0] != 0, self.at(pre, a) != -1))]


@abstract
class AHGet(AHash):
    name = "axl_hash_get"
    def ensures(self, pre, post, a, ret, w):
        g = And(a[0] != 0, self.at(pre, a) != -1)
        return [("namespace", And(Implies(g, And(ret != 0, pre.alloc(blk(ret)), txt(pre, ret) == Select(pre.g("DV", a[0]), self.at(pre, a)))), Implies(Not(g), ret == 0)))]


@abstract
class AName(Contract):
    name, trusted, modifies = "axl_node_get_name", True, []
    def requires(self, pre, a): return [("node", isnode(pre, a[0]))]
    def ensures(self, pre, post, a, ret, w): return [("name", And(ret == pre.g("nm", a[0]), ret != 0, is_cstr(pre, ret), Not(ro(blk(ret))), pre.g("isnm", blk(ret)) == 1, slen(pre.bytes(ret), off(ret)) < 2 ** 30))]


class AKid(Contract):
    trusted, modifies = True, []
    def requires(self, pre, a): return [("node", isnode(pre, a[0]))]
    def child(self, v, p, i, ret):
        return And(ret == v.g("kid", p, i), isnode(v, ret), v.g("kix", ret) == i, v.g("par", ret) == p, v.g("dep", ret) == v.g("dep", p) + 1)


@abstract
class AFirst(AKid):
    name = "axl_node_get_first_child"
    def ensures(self, pre, post, a, ret, w):
        n = pre.g("nk", a[0])
        return [("first-child", And(n >= 0, If(n > 0, self.child(pre, a[0], IntVal(0), ret), ret == 0)))]


class ASib(AKid):
    def ensures(self, pre, post, a, ret, w):
        p, i = pre.g("par", a[0]), pre.g("kix", a[0])
        j = i + self.step
        return [("sibling", If(And(p != 0, 0 <= j, j < pre.g("nk", p)), self.child(pre, p, j, ret), ret == 0))]


@abstract
class ANext(ASib): name, step = "axl_node_get_next", 1
@abstract
class APrev(ASib): name, step = "axl_node_get_previous", -1


# ---- the functions
class NS(Contract):
    tags = ("C16",)
    modifies = []
    def ptrs(self, lc): return [(j, q) for j, (t, q, e) in enumerate(lc.phis) if t == "ptr"]


class Up(NS):
    """a loop that climbs to the root"""
    def requires(self, pre, a):
        return [("node", Or(a[0] == 0, isnode(pre, a[0])))] + [("text%d" % i, Or(x == 0, pre.alloc(blk(x)))) for i, x in enumerate(a[1:])]
    def loops(self, lc):
        out = []
        for j, q in self.ptrs(lc):
            out.append(("node%d" % j, Or(q == 0, isnode(lc.pre, q))))
            out.append(("same-declaration%d" % j, self.found(lc.pre, lc.args, q) == self.found(lc.pre, lc.args, lc.args[0])))
        return out
    def variants(self, lc): return [("depth%d" % j, If(q == 0, IntVal(0), lc.pre.g("dep", q) + 1)) for j, q in self.ptrs(lc)]


@contract
class Check(Up):
    name = "axl_ns_doc_node_check"
    def requires(self, pre, a): return super().requires(pre, a) + [("prefix", a[1] != 0)]
    def found(self, v, a, q): return near(*(maps(v) + [q, txt(v, a[1])]))
    def ensures(self, pre, post, a, ret, w):
        d = self.found(pre, a, a[0])
        return [("C16:nearest-declaration-decides", (ret != 0) == And(d != 0, a[2] != 0, bound(maps(pre), d, txt(pre, a[1])) == txt(pre, a[2])))]


@contract
class CheckDefault(Up):
    name = "axl_ns_doc_check_default"
    def requires(self, pre, a):
        x = FreshInt("x")
        f = pre.m(pre._e.fieldmap(*DF.split(".")))
        return super().requires(pre, a) + [("defaults-live", ForAll([x], Implies(And(x != 0, Select(f, x) != 0), pre.alloc(blk(Select(f, x)))), patterns=[Select(f, x)]))]
    def found(self, v, a, q): return neard(*(maps(v) + [q]))
    def ensures(self, pre, post, a, ret, w):
        d = self.found(pre, a, a[0])
        m = maps(pre)
        return [("C16:nearest-default-decides", (ret != 0) == And(d != 0, a[1] != 0, txt(pre, Select(m[3], Select(m[0], d))) == txt(pre, a[1])))]


@contract
class IsPrefixed(NS):
    name, modifies = "axl_ns_node_is_prefixed", ["A:i32"]
    def frame(self, pre, a): return {"A:i32": lambda x: And(a[1] != 0, x == blk(a[1]))}
    def requires(self, pre, a): return [("node", Or(a[0] == 0, isnode(pre, a[0]))), ("position", Or(a[1] == 0, And(pre.alloc(a[1]), blk(a[1]) == a[1], off(a[1]) == 0, bsize(a[1]) >= 4)))]
    def loops(self, lc):
        v = lc.pre
        p = v.g("nm", lc.args[0])
        o = off(p)
        return [("before%d" % j, And(0 <= q, q <= slen(v.bytes(p), o), Or(colon(v.bytes(p), o) == -1, q <= colon(v.bytes(p), o)))) for j, (t, q, e) in enumerate(lc.phis) if t != "ptr"]
    def variants(self, lc):
        p = lc.pre.g("nm", lc.args[0])
        return [("left%d" % j, slen(lc.pre.bytes(p), off(p)) - q) for j, (t, q, e) in enumerate(lc.phis) if t != "ptr"]
    def ensures(self, pre, post, a, ret, w):
        p = pre.g("nm", a[0])
        c = colon(pre.bytes(p), off(p))
        return [("C16:prefixed", (ret != 0) == And(a[0] != 0, c != -1)), ("C16:where", Implies(And(a[0] != 0, a[1] != 0), Select(Select(post.m("A:i32"), a[1]), 0) == c))]


# ---- the expanded name of a node
belongs = Function("node_is", *([AAI, AI] + [s for _, _, s in MAPS] + [INT, INT, INT, BoolSort()]))      # bytes, names, maps, node, namespace, local name
_B, _N, _y = Const("ns_B", AAI), Const("ns_N", AI), Int("ns_y")


def resolves(B, N, m, p, nsc, nc):
    q = Select(N, p)
    row, o = Select(B, blk(q)), off(q)
    c = colon(row, o)
    pre = code(Store(row, o + c, 0), o)
    d = near(*(m + [p, pre]))
    dd = neard(*(m + [p]))
    t = Select(m[3], Select(m[0], dd))
    return If(c != -1, And(d != 0, bound(m, d, pre) == nsc, code(row, o + c + 1) == nc), And(dd != 0, code(Select(B, blk(t)), off(t)) == nsc, code(row, o) == nc))


BACKGROUND += [ForAll([_B, _N] + _m + [_p, _x, _y], belongs(*([_B, _N] + _m + [_p, _x, _y])) == resolves(_B, _N, _m, _p, _x, _y), patterns=[MultiPattern(belongs(*([_B, _N] + _m + [_p, _x, _y])), Select(_N, _p))])]


def matches(v, p, ns, name): return belongs(*([v.m("B"), v.m("G:nm")] + maps(v) + [p, txt(v, ns), txt(v, name)]))


class NameC(NS):
    """node, namespace, local name; the name of the node is cut at the colon for a moment, and mended"""
    modifies = ["B", "A:i32"]
    def frame(self, pre, a): return {"B": lambda x: BoolVal(False), "A:i32": lambda x: BoolVal(False)}
    def requires(self, pre, a):
        x = FreshInt("x")
        f = pre.m(pre._e.fieldmap(*DF.split(".")))
        return [("node", Or(a[0] == 0, isnode(pre, a[0])))] + [("text%d" % i, Or(y == 0, And(pre.alloc(blk(y)), is_cstr(pre, y), pre.g("isnm", blk(y)) == 0))) for i, y in enumerate(a[1:])] + \
            [("defaults-live", ForAll([x], Implies(And(x != 0, Select(f, x) != 0), pre.alloc(blk(Select(f, x)))), patterns=[Select(f, x)]))]
    def given(self, a): return And(*[x != 0 for x in a])


@contract
class Cmp(NameC):
    name = "axl_ns_node_cmp"
    def ensures(self, pre, post, a, ret, w):
        return [("C16:expanded-name-matches", (ret != 0) == And(self.given(a), matches(pre, *a))), ("C16:names-untouched", post.m("B") == pre.m("B"))]


class Walk(NameC):
    def kid(self, v, p, i): return v.g("kid", p, i)
    def pos(self, v, q): return v.g("kix", q)
    def loops(self, lc):
        v, a = lc.pre, lc.args
        P = self.family(v, a)
        out = [("B", lc.post.m("B") == v.m("B"))]
        for j, q in self.ptrs(lc):
            i = self.pos(v, q)
            out.append(("child%d" % j, Or(q == 0, And(isnode(v, q), P != 0, v.g("par", q) == P, 0 <= i, i < v.g("nk", P), self.kid(v, P, i) == q, v.g("dep", q) == v.g("dep", P) + 1, *self.range(v, a, i)))))
            out.append(("passed%d" % j, q1(lambda k: Implies(And(P != 0, 0 <= k, k < v.g("nk", P), self.before(v, a, k), Or(q == 0, self.order(k, i))), Not(self.hit(v, a, self.kid(v, P, k)))), lambda k: self.kid(v, P, k), "k")))
        return out
    def range(self, v, a, i): return []
    def before(self, v, a, k): return BoolVal(True)
    def order(self, k, i): return k < i
    def hit(self, v, a, x): return And(a[1] != 0, a[2] != 0, matches(v, x, a[1], a[2]))
    def variants(self, lc):
        v, P = lc.pre, self.family(lc.pre, lc.args)
        return [("left%d" % j, If(q == 0, IntVal(0), v.g("nk", P) - self.pos(v, q))) for j, q in self.ptrs(lc)]

    def ensures(self, pre, post, a, ret, w):
        P = self.family(pre, a)
        i = self.pos(pre, ret)
        g = And(a[0] != 0, P != 0)
        return [("C16:found-matches", Implies(ret != 0, And(g, 0 <= i, i < pre.g("nk", P), self.kid(pre, P, i) == ret, isnode(pre, ret), pre.g("par", ret) == P, self.before(pre, a, i), self.hit(pre, a, ret)))),
                ("C16:the-first-that-matches", Implies(g, q1(lambda k: Implies(And(0 <= k, k < pre.g("nk", P), self.before(pre, a, k), Or(ret == 0, self.order(k, i))), Not(self.hit(pre, a, self.kid(pre, P, k)))), lambda k: self.kid(pre, P, k), "k"))),
                ("C16:names-untouched", post.m("B") == pre.m("B"))]


@contract
class GetChild(Walk):
    name = "axl_ns_node_get_child_called"
    def requires(self, pre, a): return super().requires(pre, a) + [("parent", a[0] != 0)]
    def family(self, v, a): return a[0]


class Sibling(Walk):
    def family(self, v, a): return v.g("par", a[0])
    def requires(self, pre, a):
        p, i = self.family(pre, a), pre.g("kix", a[0])
        return super().requires(pre, a) + [("among-the-children", Or(a[0] == 0, p == 0, And(0 <= i, i < pre.g("nk", p), pre.g("nk", p) < 2 ** 31)))]
    def range(self, v, a, i): return [self.before(v, a, i)]


@contract
class Next(Sibling):
    name = "axl_ns_node_get_next_called"
    def before(self, v, a, k): return k > v.g("kix", a[0])


@contract
class Previous(Sibling):
    name = "axl_ns_node_get_previous_called"
    def before(self, v, a, k): return k < v.g("kix", a[0])
    def order(self, k, i): return k > i
    def variants(self, lc): return [("left%d" % j, If(q == 0, IntVal(0), self.pos(lc.pre, q) + 1)) for j, q in self.ptrs(lc)]


# ---- the nodes below a node
below = Function("is_below", AAI, AI, INT, INT, BoolSort())          # children, how many, node, node below it
via = Function("branch_to", AAI, AI, INT, INT, INT)                  # the child it is below, or is
_K, _nk = Const("ns_K", AAI), Const("ns_nk", AI)
_kid = lambda i: Select(Select(_K, _p), i)
_v = via(_K, _nk, _p, _x)
BACKGROUND += [ForAll([_K, _nk, _p, _x], Implies(below(_K, _nk, _p, _x), And(0 <= _v, _v < Select(_nk, _p), Or(_kid(_v) == _x, below(_K, _nk, _kid(_v), _x)))), patterns=[MultiPattern(below(_K, _nk, _p, _x), Select(_nk, _p))]),
               ForAll([_K, _nk, _p, _i], Implies(And(0 <= _i, _i < Select(_nk, _p)), below(_K, _nk, _p, _kid(_i))), patterns=[MultiPattern(_kid(_i), Select(_nk, _p))]),
               ForAll([_K, _nk, _p, _x, _i], Implies(And(0 <= _i, _i < Select(_nk, _p), below(_K, _nk, _kid(_i), _x)), below(_K, _nk, _p, _x)), patterns=[MultiPattern(below(_K, _nk, _kid(_i), _x), Select(_nk, _p))])]


def under(v, p, x): return below(v.m("G:kid"), v.m("G:nk"), p, x)


@contract
class Find(Walk):
    name = "axl_ns_node_find_called"
    def requires(self, pre, a): return super().requires(pre, a) + [("parent", a[0] != 0), ("names", And(a[1] != 0, a[2] != 0))]
    def family(self, v, a): return a[0]
    def none(self, v, a, p):
        x = FreshInt("x")
        return ForAll([x], Implies(under(v, p, x), Not(matches(v, x, a[1], a[2]))), patterns=[under(v, p, x)])
    def loops(self, lc):
        v, a = lc.pre, lc.args
        out = super().loops(lc)
        p = a[0]
        out.append(("children-do-not-match", q1(lambda k: Implies(And(0 <= k, k < v.g("nk", p)), Not(matches(v, self.kid(v, p, k), a[1], a[2]))), lambda k: self.kid(v, p, k), "k")))
        for j, q in self.ptrs(lc):
            i = self.pos(v, q)
            out.append(("searched%d" % j, q2(lambda k, x: Implies(And(0 <= k, k < v.g("nk", p), Or(q == 0, k < i), under(v, self.kid(v, p, k), x)), Not(matches(v, x, a[1], a[2]))), lambda k, x: under(v, self.kid(v, p, k), x))))
        return out
    def ensures(self, pre, post, a, ret, w):
        return [("C16:found-below", Implies(ret != 0, And(under(pre, a[0], ret), matches(pre, ret, a[1], a[2])))), ("C16:nothing-below-matches", Implies(ret == 0, self.none(pre, a, a[0]))), ("C16:names-untouched", post.m("B") == pre.m("B"))]
