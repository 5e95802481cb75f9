"""Contracts of the tree operations of src/axl_node.c.

Ghost state per node p (a parent of items):
  kids[p][i]  the item at position i      nk[p]  how many there are
  at[x]       the position of item x in the chain of its parent
An item belongs to the chain of its parent field; a loose item has neither parent nor neighbours."""
from z3 import *
from vc import *

GHOST_SORTS.update({"G:kids": AAI, "G:nk": AI, "G:at": AI, "G:aown": AI})
CONTRACTS = {}
ABSTRACT = {}
NX, PV, PA, FI, LA, TY, DA, DO, HO = "axlItem.next", "axlItem.previous", "axlItem.parent", "axlNode.first", "axlNode.last", "axlItem.type", "axlItem.data", "axlItem.doc", "axlNode.holder"
from axl_babel_spec import mark
cnt = Function("cnt_nodes", AI, AI, INT, INT)
nextn = Function("next_node", AI, AI, INT, INT, INT)
prevn = Function("prev_node", AI, AI, INT, INT)
nthn = Function("nth_node", AI, AI, INT, INT, INT, INT)
_T, _r, _i, _n, _k = Const("tr_T", AI), Const("tr_r", AI), Int("tr_i"), Int("tr_n"), Int("tr_k")


def typ(t): return t - Sum([((t / 128) % 2) * 128, ((t / 256) % 2) * 256])
def isnode(T, r, i): return typ(Select(T, Select(r, i))) == 1


BACKGROUND.append(ForAll([_T, _r], cnt(_T, _r, 0) == 0, patterns=[cnt(_T, _r, 0)]))
BACKGROUND.append(ForAll([_T, _r, _i], Implies(_i >= 0, cnt(_T, _r, _i + 1) == cnt(_T, _r, _i) + If(isnode(_T, _r, _i), 1, 0)), patterns=[MultiPattern(cnt(_T, _r, _i), mark(_i))]))
BACKGROUND.append(ForAll([_T, _r, _i, _n], nextn(_T, _r, _i, _n) == If(_i >= _n, _n, If(isnode(_T, _r, _i), _i, nextn(_T, _r, _i + 1, _n))), patterns=[MultiPattern(nextn(_T, _r, _i, _n), mark(_i))]))
BACKGROUND.append(ForAll([_T, _r, _i], prevn(_T, _r, _i) == If(_i < 0, -1, If(isnode(_T, _r, _i), _i, prevn(_T, _r, _i - 1))), patterns=[MultiPattern(prevn(_T, _r, _i), mark(_i))]))
BACKGROUND.append(ForAll([_T, _r, _i, _n, _k], nthn(_T, _r, _i, _n, _k) == If(_i >= _n, _n, If(isnode(_T, _r, _i), If(_k == 0, _i, nthn(_T, _r, _i + 1, _n, _k - 1)), nthn(_T, _r, _i + 1, _n, _k))), patterns=[MultiPattern(nthn(_T, _r, _i, _n, _k), mark(_i))]))
F = lambda n: "F:" + n


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def nk(v, p): return v.g("nk", p)
def K(v, p): return v.g("kids", p)
def at(v, x): return v.g("at", x)


def wf_parts(v, p):
    n, r, at_ = nk(v, p), K(v, p), v.m("G:at")
    fm = lambda f: v.m(v._e.fieldmap(*f.split(".")))
    nx, pv, pa = fm(NX), fm(PV), fm(PA)
    return [("parent-live", v.alloc(p)),
            ("C12:first-and-last", And(n >= 0, v.f(FI, p) == If(n > 0, Select(r, 0), 0), v.f(LA, p) == If(n > 0, Select(r, n - 1), 0))),
            ("C12:items-once-with-this-parent", q1(lambda i: Implies(And(0 <= i, i < n), And(Select(r, i) != 0, v.alloc(Select(r, i)), Select(at_, Select(r, i)) == i, Select(pa, Select(r, i)) == p)), lambda i: Select(r, i), "i")),
            ("C12:next-relation", q1(lambda i: Implies(And(0 <= i, i < n), Select(nx, Select(r, i)) == If(i < n - 1, Select(r, i + 1), 0)), lambda i: Select(nx, Select(r, i)), "i")),
            ("C12:previous-relation", q1(lambda i: Implies(And(0 <= i, i < n), Select(pv, Select(r, i)) == If(i > 0, Select(r, i - 1), 0)), lambda i: Select(pv, Select(r, i)), "i"))]


def linked(v, x, p): return And(x != 0, v.alloc(x), v.f(PA, x) == p, 0 <= at(v, x), at(v, x) < nk(v, p), Select(K(v, p), at(v, x)) == x)
def loose(v, x): return And(x != 0, v.alloc(x), v.f(PA, x) == 0, v.f(NX, x) == 0, v.f(PV, x) == 0)


_fresh = [0]


def fresh_row(name):
    _fresh[0] += 1
    return Const("%s#%d" % (name, _fresh[0]), AI)


def splice(pre, p, k, cut, new, src=None, m=None, more=()):
    """kids of p with the cut items at k replaced by the list new of items (or the m items of row src)"""
    r, ix, n = K(pre, p), pre.m("G:at"), nk(pre, p)
    m = IntVal(len(new)) if m is None else m
    r2, ix2 = fresh_row("kids"), fresh_row("at")
    i, x = FreshInt("i"), FreshInt("x")
    mid = Select(r, i)
    if src is not None:
        mid = Select(src, i - k)
    for j, t in reversed(list(enumerate(new))):
        mid = If(i == k + j, t, mid)
    row = If(i < k, Select(r, i), If(i < k + m, mid, Select(r, i - m + cut)))
    pos = If(And(pre.f(PA, x) == p, Select(ix, x) >= k + cut), Select(ix, x) + m - cut, Select(ix, x))
    for j, t in enumerate(new):
        pos = If(x == t, k + j, pos)
    for c, f in more:
        pos = If(c(x), f(x), pos)
    ax = [ForAll([i], Select(r2, i) == row, patterns=[Select(r2, i)]), ForAll([x], Select(ix2, x) == pos, patterns=[Select(ix2, x)])]
    return r2, ix2, n + m - cut, ax


class TreeC(Contract):
    tags = ("C12",)

    def requires(self, pre, a): return []


TREEF = [F(NX), F(PV), F(PA), F(FI), F(LA), "G:kids", "G:nk", "G:at"]


def fr_tree(pre, ps, xs):
    """only the chains of the nodes ps and the items xs change"""
    mine = lambda x: Or(*[And(p != 0, pre.f(PA, x) == p) for p in ps], *[x == y for y in xs])
    par = lambda x: Or(*[And(x == p, p != 0) for p in ps])
    d = {F(m): mine for m in (NX, PV, PA)}
    d["G:at"] = mine
    d.update({F(FI): par, F(LA): par, "G:kids": par, "G:nk": par})
    return d


def wf_post(v, p, g=None):
    return [(l, f if g is None else Implies(g, f)) for l, f in wf_parts(v, p)]


def items_as(pre, post, p, k, cut, new):
    """the chain of p afterwards, said without ghost updates"""
    n, r, r0 = nk(post, p), K(post, p), K(pre, p)
    m = len(new)
    return [("C12:number-of-items", n == nk(pre, p) + m - cut),
            ("C12:items-before-kept", q1(lambda i: Implies(And(0 <= i, i < k), Select(r, i) == Select(r0, i)), lambda i: Select(r, i), "i")),
            ("C12:items-in-place", And(*[Select(r, k + j) == t for j, t in enumerate(new)])),
            ("C12:items-after-kept", q1(lambda i: Implies(And(k + m <= i, i < n), Select(r, i) == Select(r0, i - m + cut)), lambda i: Select(r, i), "i"))]


@contract
class SetChildRef(TreeC):
    name = "axl_item_set_child_ref"
    modifies = TREEF

    def g(self, a): return And(a[0] != 0, a[1] != 0)
    def requires(self, pre, a): return [(l, Implies(self.g(a), f)) for l, f in wf_parts(pre, a[0]) + [("loose-item", loose(pre, a[1]))]]
    def frame(self, pre, a): return fr_tree(pre, [a[0]], [a[1]])

    def ghost(self, pre, post, a, ret, w):
        p, x = a
        r2, ix2, n, ax = splice(pre, p, nk(pre, p), 0, [x])
        g = self.g(a)
        return {"G:kids": If(g, Store(pre.m("G:kids"), p, r2), pre.m("G:kids")), "G:nk": If(g, Store(pre.m("G:nk"), p, n), pre.m("G:nk")), "G:at": If(g, ix2, pre.m("G:at"))}, ax

    def ensures(self, pre, post, a, ret, w):
        p, x = a
        return wf_post(post, p, self.g(a)) + [(l, Implies(self.g(a), f)) for l, f in items_as(pre, post, p, nk(pre, p), 0, [x])] + \
            [("C12:null-refused", Implies(Not(self.g(a)), And(*[post.m(m) == pre.m(m) for m in TREEF])))]


class Remove1(TreeC):
    """unlinks item x of parent p"""
    def x(self, pre, a): return a[0]
    def ok(self, a): return a[0] != 0

    def requires(self, pre, a):
        x = self.x(pre, a)
        p = pre.f(PA, x)
        return [(l, Implies(And(self.ok(a), x != 0, p != 0), f)) for l, f in wf_parts(pre, p) + [("linked", linked(pre, x, p))]] + [("loose", Implies(And(self.ok(a), x != 0, p == 0), loose(pre, x)))]

    def frame(self, pre, a):
        x = self.x(pre, a)
        return fr_tree(pre, [pre.f(PA, x)], [x])

    def ghost(self, pre, post, a, ret, w):
        x = self.x(pre, a)
        p = pre.f(PA, x)
        g = And(self.ok(a), x != 0, p != 0)
        r2, ix2, n, ax = splice(pre, p, at(pre, x), 1, [])
        return {"G:kids": If(g, Store(pre.m("G:kids"), p, r2), pre.m("G:kids")), "G:nk": If(g, Store(pre.m("G:nk"), p, n), pre.m("G:nk")), "G:at": If(g, ix2, pre.m("G:at"))}, ax

    def ensures(self, pre, post, a, ret, w):
        x = self.x(pre, a)
        p = pre.f(PA, x)
        g = And(self.ok(a), x != 0, p != 0)
        return wf_post(post, p, g) + [(l, Implies(g, f)) for l, f in items_as(pre, post, p, at(pre, x), 1, [])] + [("C12:item-loose", Implies(And(self.ok(a), x != 0), loose(post, x)))]


@contract
class ItemRemove(Remove1):
    name = "axl_item_remove"
    modifies = TREEF
    def proved_case(self, pre, a): return [("the item is kept (dealloc false)", a[1] == 0)]


@contract
class ItemReplace(TreeC):
    name = "axl_item_replace"
    modifies = TREEF + [F(DO)]
    def proved_case(self, pre, a): return [("the item is kept (dealloc false)", a[2] == 0)]
    def g(self, pre, a): return And(a[0] != 0, a[1] != 0, pre.f(PA, a[0]) != 0)

    def requires(self, pre, a):
        x, y, p = a[0], a[1], pre.f(PA, a[0])
        g = And(x != 0, y != 0)
        return [(l, Implies(And(g, p != 0), f)) for l, f in wf_parts(pre, p) + [("linked", linked(pre, x, p))]] + [("loose", Implies(And(g, p == 0), loose(pre, x))), ("new-loose", Implies(g, loose(pre, y))), ("other-item", Implies(g, x != y))]

    def frame(self, pre, a):
        d = fr_tree(pre, [pre.f(PA, a[0])], [a[0], a[1]])
        d[F(DO)] = lambda x: x == a[1]
        return d

    def ghost(self, pre, post, a, ret, w):
        x, y, p = a[0], a[1], pre.f(PA, a[0])
        g = self.g(pre, a)
        r2, ix2, n, ax = splice(pre, p, at(pre, x), 1, [y])
        return {"G:kids": If(g, Store(pre.m("G:kids"), p, r2), pre.m("G:kids")), "G:nk": pre.m("G:nk"), "G:at": If(g, ix2, pre.m("G:at"))}, ax

    def ensures(self, pre, post, a, ret, w):
        x, y, p = a[0], a[1], pre.f(PA, a[0])
        g = self.g(pre, a)
        return wf_post(post, p, g) + [(l, Implies(g, f)) for l, f in items_as(pre, post, p, at(pre, x), 1, [y])] + [("C12:item-loose", Implies(And(x != 0, y != 0), loose(post, x)))]


def simple(nm, fn, pre_=None):
    class G(TreeC):
        name = nm
        modifies = []
        def requires(self, pre, a): return pre_(pre, a) if pre_ else [("live", Or(a[0] == 0, pre.alloc(a[0])))]
        def ensures(self, pre, post, a, ret, w): return fn(pre, a, ret)
    contract(G)


def in_chain(pre, a):
    x = a[0]
    p = pre.f(PA, x)
    return [(l, Implies(And(x != 0, p != 0), f)) for l, f in wf_parts(pre, p) + [("linked", linked(pre, x, p))]] + [("loose", Implies(And(x != 0, p == 0), loose(pre, x)))]


def wf_node(pre, a): return [(l, Implies(a[0] != 0, f)) for l, f in wf_parts(pre, a[0])]


simple("axl_item_get_parent", lambda v, a, r: [("C12:parent", r == If(a[0] == 0, 0, v.f(PA, a[0])))])
simple("axl_item_get_next", lambda v, a, r: [("C12:next-in-the-chain", r == If(And(a[0] != 0, v.f(PA, a[0]) != 0, at(v, a[0]) + 1 < nk(v, v.f(PA, a[0]))), Select(K(v, v.f(PA, a[0])), at(v, a[0]) + 1), 0))], in_chain)
simple("axl_item_get_previous", lambda v, a, r: [("C12:previous-in-the-chain", r == If(And(a[0] != 0, v.f(PA, a[0]) != 0, at(v, a[0]) > 0), Select(K(v, v.f(PA, a[0])), at(v, a[0]) - 1), 0))], in_chain)
simple("axl_item_get_first_child", lambda v, a, r: [("C12:first-of-the-chain", r == If(And(a[0] != 0, nk(v, a[0]) > 0), Select(K(v, a[0]), 0), 0))], wf_node)
simple("axl_item_get_last_child", lambda v, a, r: [("C12:last-of-the-chain", r == If(And(a[0] != 0, nk(v, a[0]) > 0), Select(K(v, a[0]), nk(v, a[0]) - 1), 0))], wf_node)
simple("axl_item_get_data", lambda v, a, r: [("C12:data", r == If(a[0] == 0, 0, v.f(DA, a[0])))])
simple("axl_item_node_holder", lambda v, a, r: [("C12:holder", r == If(a[0] == 0, 0, v.f(HO, a[0])))])


# ---- element children
class Walk(TreeC):
    """functions that walk the chain of a node"""
    modifies = []
    def par(self, v, a): return a[0]
    def requires(self, pre, a): return wf_node(pre, a)
    def extra_ints(self, pre, a): return [nk(pre, self.par(pre, a))]

    def rows(self, v, a):
        p = self.par(v, a)
        return v.m(F(TY)), K(v, p), nk(v, p)

    def pos(self, lc, p): return If(p == 0, nk(lc.pre, self.par(lc.pre, lc.args)), at(lc.pre, p))
    def rpos(self, lc, p): return If(p == 0, IntVal(-1), at(lc.pre, p))

    def inv(self, lc, tag, d): return []
    def rinv(self, lc, tag, d): return []
    def given(self, pre, a): return a[0] != 0

    def loops(self, lc):
        T, r, n = self.rows(lc.pre, lc.args)
        out = []
        for k, (t, p, e) in enumerate(lc.phis):
            if t != "ptr":
                continue
            out.append(("member%d" % k, Implies(p != 0, And(self.given(lc.pre, lc.args), 0 <= at(lc.pre, p), at(lc.pre, p) < n, Select(r, at(lc.pre, p)) == p))))
            d, rd = self.pos(lc, p), self.rpos(lc, p)
            out.append(("marks%d" % k, And(mark(d), mark(d + 1), mark(d - 1), mark(0), mark(n), mark(n - 1), mark(rd))))
            out += self.inv(lc, "%d" % k, d) + self.rinv(lc, "%d" % k, rd)
        return out

    def variants(self, lc):
        n = nk(lc.pre, self.par(lc.pre, lc.args))
        return [x for k, (t, p, e) in enumerate(lc.phis) if t == "ptr" for x in (("fwd%d" % k, n - self.pos(lc, p)), ("bwd%d" % k, self.rpos(lc, p) + 1))]

    def at_or_0(self, v, a, i): return Select(v.m(F(DA)), Select(K(v, self.par(v, a)), i))


@contract
class FirstChild(Walk):
    name = "axl_node_get_first_child"
    def start(self, v, a): return IntVal(0)

    def ensures(self, pre, post, a, ret, w):
        T, r, n = self.rows(pre, a)
        i = nextn(T, r, self.start(pre, a), n)
        return [("C12:first-element-from-here", Implies(self.given(pre, a), And(mark(self.start(pre, a)), mark(n), ret == If(i < n, self.at_or_0(pre, a, i), 0)))), ("C12:null-refused", Implies(a[0] == 0, ret == 0))]

    def given(self, pre, a): return a[0] != 0

    def inv(self, lc, tag, d):
        T, r, n = self.rows(lc.pre, lc.args)
        s = self.start(lc.pre, lc.args)
        return [("none-before" + tag, Implies(self.given(lc.pre, lc.args), And(d >= s, nextn(T, r, s, n) == nextn(T, r, d, n))))]


@contract
class LastChild(FirstChild):
    name = "axl_node_get_last_child"
    def start(self, v, a): return nk(v, self.par(v, a)) - 1

    def ensures(self, pre, post, a, ret, w):
        T, r, n = self.rows(pre, a)
        i = prevn(T, r, self.start(pre, a))
        return [("C12:last-element-from-here", Implies(self.given(pre, a), And(mark(self.start(pre, a)), mark(-1), ret == If(i >= 0, self.at_or_0(pre, a, i), 0)))), ("C12:null-refused", Implies(a[0] == 0, ret == 0))]

    def inv(self, lc, tag, d): return []

    def rinv(self, lc, tag, d):
        T, r, n = self.rows(lc.pre, lc.args)
        s = self.start(lc.pre, lc.args)
        return [("none-after" + tag, Implies(self.given(lc.pre, lc.args), And(d <= s, prevn(T, r, s) == prevn(T, r, d))))]


def holder(v, a): return v.f(HO, a[0])


@contract
class NextNode(FirstChild):
    name = "axl_node_get_next"
    def par(self, v, a): return v.f(PA, holder(v, a))
    def requires(self, pre, a): return [("node", Implies(a[0] != 0, pre.alloc(a[0])))] + [(l, Implies(a[0] != 0, f)) for l, f in in_chain(pre, [holder(pre, a)])]
    def given(self, pre, a): return And(a[0] != 0, holder(pre, a) != 0, self.par(pre, a) != 0)
    def start(self, v, a): return at(v, holder(v, a)) + 1
    def ensures(self, pre, post, a, ret, w): return super().ensures(pre, post, a, ret, w) + [("C12:no-chain", Implies(And(a[0] != 0, Or(holder(pre, a) == 0, self.par(pre, a) == 0)), ret == 0))]


@contract
class PrevNode(LastChild):
    name = "axl_node_get_previous"
    par, requires, given, ensures_ = NextNode.par, NextNode.requires, NextNode.given, NextNode.ensures
    def start(self, v, a): return at(v, holder(v, a)) - 1
    def ensures(self, pre, post, a, ret, w): return super().ensures(pre, post, a, ret, w) + [("C12:no-chain", Implies(And(a[0] != 0, Or(holder(pre, a) == 0, self.par(pre, a) == 0)), ret == 0))]


@contract
class HaveChilds(FirstChild):
    name = "axl_node_have_childs"
    def ensures(self, pre, post, a, ret, w):
        T, r, n = self.rows(pre, a)
        return [("C12:some-element", And(mark(0), mark(n), (ret != 0) == And(a[0] != 0, nextn(T, r, 0, n) < n)))]


@contract
class ChildNum(Walk):
    name = "axl_node_get_child_num"
    def ensures(self, pre, post, a, ret, w):
        T, r, n = self.rows(pre, a)
        return [("C12:number-of-elements", ret == If(a[0] == 0, -1, cnt(T, r, n)))]

    def inv(self, lc, tag, d):
        T, r, n = self.rows(lc.pre, lc.args)
        return [("counted%s.%d" % (tag, k), And(d >= 0, x == cnt(T, r, d))) for k, (t, x, e) in enumerate(lc.phis) if t == "i32"]


@contract
class ChildNth(Walk):
    name = "axl_node_get_child_nth"
    def ensures(self, pre, post, a, ret, w):
        T, r, n = self.rows(pre, a)
        i = nthn(T, r, 0, n, a[1])
        return [("C12:nth-element", Implies(a[0] != 0, And(mark(0), mark(n), ret == If(i < n, self.at_or_0(pre, a, i), 0)))), ("C12:null-refused", Implies(a[0] == 0, ret == 0))]

    def inv(self, lc, tag, d):
        T, r, n = self.rows(lc.pre, lc.args)
        return [("nth%s.%d" % (tag, k), And(d >= 0, nthn(T, r, 0, n, lc.args[1]) == nthn(T, r, d, n, lc.args[1] - x))) for k, (t, x, e) in enumerate(lc.phis) if t == "i32"]


@contract
class Transfer(TreeC):
    name = "axl_item_transfer_childs_after"
    modifies = TREEF

    def pq(self, pre, a): return a[0], pre.f(PA, a[1])
    def g(self, a): return And(a[0] != 0, a[1] != 0)

    def requires(self, pre, a):
        p, q = self.pq(pre, a)
        return [("children: " + l, Implies(self.g(a), f)) for l, f in wf_parts(pre, p)] + [("target: " + l, Implies(self.g(a), f)) for l, f in wf_parts(pre, q)] + [("linked", Implies(self.g(a), linked(pre, a[1], q))), ("two-parents", Implies(self.g(a), And(q != 0, p != q)))]

    def extra_ints(self, pre, a): return [nk(pre, a[0])]
    def frame(self, pre, a):
        p, q = self.pq(pre, a)
        return fr_tree(pre, [p, q], [])

    def ghost(self, pre, post, a, ret, w):
        p, q = self.pq(pre, a)
        k, m = at(pre, a[1]) + 1, nk(pre, p)
        ix = pre.m("G:at")
        r2, ix2, n, ax = splice(pre, q, k, 0, [], K(pre, p), m, [(lambda x: pre.f(PA, x) == p, lambda x: Select(ix, x) + k)])
        g = self.g(a)
        return {"G:kids": If(g, Store(pre.m("G:kids"), q, r2), pre.m("G:kids")), "G:nk": If(g, Store(Store(pre.m("G:nk"), q, n), p, 0), pre.m("G:nk")), "G:at": If(g, ix2, pre.m("G:at"))}, ax

    def ensures(self, pre, post, a, ret, w):
        p, q = self.pq(pre, a)
        k, m = at(pre, a[1]) + 1, nk(pre, p)
        r, r0, rp = K(post, q), K(pre, q), K(pre, p)
        out = [("children: " + l, f) for l, f in wf_parts(post, p)] + [("target: " + l, f) for l, f in wf_parts(post, q)]
        out += [("C12:all-transferred", And(nk(post, p) == 0, nk(post, q) == nk(pre, q) + m)),
                ("C12:items-before-kept", q1(lambda i: Implies(And(0 <= i, i < k), Select(r, i) == Select(r0, i)), lambda i: Select(r, i), "i")),
                ("C12:transferred-in-order", q1(lambda i: Implies(And(k <= i, i < k + m), Select(r, i) == Select(rp, i - k)), lambda i: Select(r, i), "i")),
                ("C12:items-after-kept", q1(lambda i: Implies(And(k + m <= i, i < nk(post, q)), Select(r, i) == Select(r0, i - m)), lambda i: Select(r, i), "i"))]
        return [(l, Implies(self.g(a), f)) for l, f in out] + [("C12:null-refused", Implies(Not(self.g(a)), And(*[post.m(x) == pre.m(x) for x in TREEF])))]

    def loops(self, lc):
        pre, v, a = lc.pre, lc.post, lc.args
        p, q = self.pq(pre, a)
        r, n = K(pre, p), nk(pre, p)
        pa = v.m(F(PA))
        out = []
        for k, (t, x, e) in enumerate(lc.phis):
            if t == "ptr":
                d = If(x == 0, n, at(pre, x))
                out.append(("member%d" % k, Implies(x != 0, And(0 <= at(pre, x), at(pre, x) < n, Select(r, at(pre, x)) == x))))
                out.append(("there%d" % k, x != 0))
                out.append(("moved%d" % k, q1(lambda i: Implies(And(0 <= i, i < n), Select(pa, Select(r, i)) == If(i < d, q, p)), lambda i: Select(r, i), "i")))
        x = FreshInt("x")
        out.append(("others-keep-parent", ForAll([x], Implies(pre.f(PA, x) != p, Select(pa, x) == pre.f(PA, x)), patterns=[Select(pa, x)])))
        return out

    def variants(self, lc): return [("left%d" % k, nk(lc.pre, lc.args[0]) - at(lc.pre, x)) for k, (t, x, e) in enumerate(lc.phis) if t == "ptr"]


# ---- adding items
IF = "axlDoc.item_factory"


class AGet(Contract):
    """what C07 establishes of a factory whose objects are never released: new cleared objects"""
    name, trusted = "axl_factory_get", True
    tags = ("C12",)
    modifies = ["alloc"]
    def requires(self, pre, a): return [("factory-live", pre.alloc(a[0]))]
    def ensures(self, pre, post, a, ret, w):
        return [("new-object", And(ret != 0, Not(pre.alloc(ret)), post.m("alloc") == Store(pre.m("alloc"), ret, True))),
                ("cleared", And(*[pre.f(m, ret) == 0 for m in (NX, PV, PA, TY, DA, DO)]))]


ABSTRACT["axl_factory_get"] = AGet()


def wants_node(t): return t % 2 == 1


class Adds(TreeC):
    """par(pre,a): the parent; typ, dat: arguments; pos: where the new item goes"""
    modifies = TREEF + [F(m) for m in (TY, DA, DO, HO)] + ["alloc", "B", "A:ptr"]
    tnode = False
    def typ(self, a): return a[1]
    def dat(self, a): return a[2]

    def node(self, a): return BoolVal(True) if self.tnode else wants_node(self.typ(a))

    def requires(self, pre, a):
        p, d = self.par(pre, a), self.dat(a)
        h = pre.f(HO, p)
        g = self.g(pre, a)
        dh = pre.f(HO, d)
        out = wf_parts(pre, p) + [("parent", p != 0), ("parent-holder", Or(h == 0, And(pre.alloc(h), Or(pre.f(DO, h) == 0, And(pre.alloc(pre.f(DO, h)), pre.alloc(pre.f(IF, pre.f(DO, h)))))))),
                                  ("node-to-add", Implies(self.node(a), And(pre.alloc(d), d != p, Or(dh == 0, loose(pre, dh))))),
                                  ("type", BoolVal(True) if self.tnode else And(self.typ(a) >= 0, self.typ(a) < 512))]
        return [(l, Implies(g, f)) for l, f in out]

    def frame(self, pre, a):
        d = self.dat(a)
        dh = pre.f(HO, d)
        fr = fr_tree(pre, [self.par(pre, a)], [])
        old = lambda x: And(self.node(a), x == dh, dh != 0)
        for m in (NX, PV, PA):
            fr[F(m)] = (lambda f: lambda x: Or(f(x), old(x)))(fr[F(m)])
        fr["G:at"] = fr[F(NX)]
        for m in (TY, DA, DO):
            fr[F(m)] = old
        fr[F(HO)] = lambda x: And(self.node(a), x == d)
        fr["B"] = fr["A:ptr"] = lambda x: BoolVal(False)
        return fr

    def ghost(self, pre, post, a, ret, w):
        p = self.par(pre, a)
        g = self.g(pre, a)
        r2, ix2, n, ax = splice(pre, p, self.pos(pre, a), 0, [self.new(pre, post, a)])
        return {"G:kids": If(g, Store(pre.m("G:kids"), p, r2), pre.m("G:kids")), "G:nk": If(g, Store(pre.m("G:nk"), p, n), pre.m("G:nk")), "G:at": If(g, ix2, pre.m("G:at"))}, ax

    def ensures(self, pre, post, a, ret, w):
        p, d, x = self.par(pre, a), self.dat(a), self.new(pre, post, a)
        g, dh = self.g(pre, a), pre.f(HO, self.dat(a))
        reuse = And(self.node(a), dh != 0)
        t = IntVal(1) if self.tnode else self.typ(a)
        out = wf_parts(post, p) + items_as(pre, post, p, self.pos(pre, a), 0, [x]) + \
            [("C12:one-item-per-node", And(Implies(reuse, And(x == dh, post.m("alloc") == pre.m("alloc"))), Implies(Not(reuse), And(x != 0, Not(pre.alloc(x)), post.m("alloc") == Store(pre.m("alloc"), x, True))))),
             ("C12:item-describes-the-data", And(post.f(DA, x) == d, typ(post.f(TY, x)) == typ(t), Implies(self.node(a), post.f(HO, d) == x))),
             ("C12:same-document", post.f(DO, x) == If(pre.f(HO, p) != 0, pre.f(DO, pre.f(HO, p)), 0))]
        return [(l, Implies(g, f)) for l, f in out] + [("C12:null-refused", Implies(Not(g), And(*[post.m(m) == pre.m(m) for m in self.modifies])))]


@contract
class SetChild(Adds):
    name = "axl_item_set_child"
    def par(self, v, a): return a[0]
    def g(self, pre, a): return And(a[0] != 0, self.dat(a) != 0)
    def pos(self, pre, a): return nk(pre, a[0])
    def new(self, pre, post, a): return post.f(LA, a[0])


@contract
class NodeSetChild(SetChild):
    name, tnode = "axl_node_set_child", True
    def dat(self, a): return a[1]


@contract
class SetAfter(Adds):
    name = "axl_item_set_after"
    def ref(self, v, a): return a[0]
    def par(self, v, a): return v.f(PA, self.ref(v, a))
    def g(self, pre, a): return And(self.ref(pre, a) != 0, self.dat(a) != 0)
    def pos(self, pre, a): return at(pre, self.ref(pre, a)) + 1
    def new(self, pre, post, a): return post.f(NX, self.ref(pre, a))
    def requires(self, pre, a): return super().requires(pre, a) + [("reference-linked", Implies(self.g(pre, a), linked(pre, self.ref(pre, a), self.par(pre, a))))]


@contract
class NodeSetChildAfter(SetAfter):
    name, tnode = "axl_node_set_child_after", True
    def dat(self, a): return a[1]
    def ref(self, v, a): return v.f(HO, a[0])
    def g(self, pre, a): return And(a[0] != 0, a[1] != 0, self.ref(pre, a) != 0)
    def requires(self, pre, a): return super().requires(pre, a) + [("reference-node", Or(a[0] == 0, pre.alloc(a[0])))]


@contract
class NodeRemove(Remove1):
    name = "axl_node_remove"
    modifies = TREEF + ["F:axlDoc.rootNode"]
    keep = True
    def x(self, pre, a): return pre.f(HO, a[0])
    def proved_case(self, pre, a): return [("the node is kept (dealloc false)", a[1] == 0)] if self.keep else []
    def requires(self, pre, a):
        x = self.x(pre, a)
        return [("node", Or(a[0] == 0, pre.alloc(a[0])))] + super().requires(pre, a) + [("document", Implies(And(self.ok(a), x != 0), Or(pre.f(DO, x) == 0, pre.alloc(pre.f(DO, x)))))]

    def frame(self, pre, a):
        x = self.x(pre, a)
        fr = {m: (lambda f: lambda y: And(self.ok(a), f(y)))(f) for m, f in super().frame(pre, a).items()}
        fr["F:axlDoc.rootNode"] = lambda y: And(self.ok(a), x != 0, y == pre.f(DO, x), pre.f("axlDoc.rootNode", y) == a[0])
        return fr

    def ensures(self, pre, post, a, ret, w):
        x = self.x(pre, a)
        d = pre.f(DO, x)
        return super().ensures(pre, post, a, ret, w) + [("C12:not-the-root-any-more", Implies(And(self.ok(a), x != 0, d != 0), post.f("axlDoc.rootNode", d) != a[0]))]


@contract
class Deattach(NodeRemove):
    name, keep = "axl_node_deattach", False


@contract
class NodeReplace(TreeC):
    name = "axl_node_replace"
    modifies = [F(DA), F(HO), F(DO), F(TY), "F:axlDoc.rootNode", "alloc"]
    def proved_case(self, pre, a): return [("the node replaced is kept (dealloc false)", a[2] == 0)]
    def g(self, a): return And(a[0] != 0, a[1] != 0)

    def requires(self, pre, a):
        x, y = pre.f(HO, a[0]), pre.f(HO, a[1])
        p, d = pre.f(PA, x), pre.f(DO, x)
        out = [("nodes", And(pre.alloc(a[0]), pre.alloc(a[1]), a[0] != a[1])), ("holder", Or(x == 0, pre.alloc(x))), ("new-holder", Or(y == 0, And(pre.alloc(y), y != x, y != a[0], y != a[1], y != p, y != d, loose(pre, y))))]
        out += [(l, Implies(And(x != 0, p != 0), f)) for l, f in wf_parts(pre, p) + [("linked", linked(pre, x, p))]]
        out += [("document", Implies(And(x != 0, d != 0), And(pre.alloc(d), pre.alloc(pre.f(IF, d)))))]
        return [(l, Implies(self.g(a), f)) for l, f in out]

    def frame(self, pre, a):
        x, y = pre.f(HO, a[0]), pre.f(HO, a[1])
        return {F(DA): lambda z: And(self.g(a), z == x), F(HO): lambda z: And(self.g(a), Or(z == a[0], z == a[1])), F(DO): lambda z: And(self.g(a), z == y), F(TY): lambda z: BoolVal(False),
                "F:axlDoc.rootNode": lambda z: And(self.g(a), x != 0, z == pre.f(DO, x))}

    def ensures(self, pre, post, a, ret, w):
        x, y = pre.f(HO, a[0]), pre.f(HO, a[1])
        p, d = pre.f(PA, x), pre.f(DO, x)
        inside = And(self.g(a), x != 0, p != 0)
        z = FreshInt("z")
        return [("C12:takes-the-place", Implies(inside, And(post.f(DA, x) == a[1], post.f(HO, a[1]) == x, post.f(HO, a[0]) == 0))),
                ("C12:nothing-else-released", Implies(self.g(a), ForAll([z], Implies(And(pre.alloc(z), z != y), post.alloc(z)), patterns=[post.alloc(z), pre.alloc(z)]))),
                ("C12:new-root", Implies(And(self.g(a), x != 0, p == 0, d != 0), And(post.f("axlDoc.rootNode", d) == a[1], post.f(HO, a[1]) != 0, post.f(DO, post.f(HO, a[1])) == d)))] + \
            [(l, Implies(inside, f)) for l, f in wf_parts(post, p)]
