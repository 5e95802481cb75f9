"""Contracts of src/axl_list.c.

Ghost state per list l:
  nodes[l][i]  the node at position i           idx[l][x]  position of node x (pool slot j: -1-j)
  own[x]       the list that owns block x       role[x]    1 node, 2 pool array, 3 the list itself
"""
from z3 import *
from vc import *

GHOST_SORTS.update({"G:nodes": AAI, "G:idx": AAI, "G:own": AI, "G:role": AI})
CONTRACTS = {}


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def n_(v, l): return v.f("axlList.length", l)
def R(v, l): return v.g("nodes", l)
def I(v, l): return v.g("idx", l)
def pool(v, l): return v.aptr(v.f("axlList.preallocated", l))


def data(v, l, i):
    return v.f("axlListNode.data", Select(R(v, l), i))


def wf_parts(v, l):
    n, r, ix = n_(v, l), R(v, l), I(v, l)
    av, al, pre = v.f("axlList.available", l), v.f("axlList.allocated", l), v.f("axlList.preallocated", l)
    own, role = v.m("G:own"), v.m("G:role")
    nx, pv = v.m(v._e.fieldmap("axlListNode", "next")), v.m(v._e.fieldmap("axlListNode", "previous"))
    pl = pool(v, l)
    return [
        ("list-live", And(l != 0, v.alloc(l), Select(own, l) == l, Select(role, l) == 3, v.f("axlList.are_equal", l) != 0)),
        ("ends", And(n >= 0, v.f("axlList.first_node", l) == If(n > 0, Select(r, 0), 0), v.f("axlList.last_node", l) == If(n > 0, Select(r, n - 1), 0))),
        ("nodes-live-distinct", q1(lambda i: Implies(And(0 <= i, i < n), And(Select(r, i) != 0, v.alloc(Select(r, i)), Select(ix, Select(r, i)) == i,
                                                                             Select(own, Select(r, i)) == l, Select(role, Select(r, i)) == 1)), lambda i: Select(r, i), "i")),
        ("next-links", q1(lambda i: Implies(And(0 <= i, i < n), Select(nx, Select(r, i)) == If(i < n - 1, Select(r, i + 1), 0)), lambda i: Select(nx, Select(r, i)), "i")),
        ("previous-links", q1(lambda i: Implies(And(0 <= i, i < n), Select(pv, Select(r, i)) == If(i > 0, Select(r, i - 1), 0)), lambda i: Select(pv, Select(r, i)), "i")),
        ("pool-capacity", And(av >= 0, al >= 0, av + n <= al, (pre == 0) == (al == 0),
                              Implies(pre != 0, And(v.alloc(pre), bsize(pre) == 8 * al, blk(pre) == pre, off(pre) == 0, Select(own, pre) == l, Select(role, pre) == 2)))),
        ("pool-nodes", q1(lambda i: Implies(And(0 <= i, i < av), And(Select(pl, i) != 0, v.alloc(Select(pl, i)), Select(ix, Select(pl, i)) == -1 - i,
                                                                     Select(own, Select(pl, i)) == l, Select(role, Select(pl, i)) == 1)), lambda i: Select(pl, i), "i")),
        ("C02:no-node-leaked", q1(lambda x: Implies(And(Select(own, x) == l, v.alloc(x)),
                                                Or(x == l, And(x == pre, pre != 0), And(0 <= Select(ix, x), Select(ix, x) < n, Select(r, Select(ix, x)) == x),
                                                   And(Select(ix, x) < 0, Select(ix, x) >= -av, Select(pl, -1 - Select(ix, x)) == x))), lambda x: Select(own, x), "x")),
    ]


def wf(v, l):
    return And(*[f for _, f in wf_parts(v, l)])


def cmpf(v, l, d, p):
    return cbfun(2)(v.f("axlList.are_equal", l), d, p)


def cmp_range(v, l):
    f = v.f("axlList.are_equal", l)
    x, y = FreshInt("x"), FreshInt("y")
    c = cbfun(2)(f, x, y)
    return ForAll([x, y], And(c >= -1, c <= 1), patterns=[c])


def same_view(pre, post, l):
    return [("C01:unchanged-length", n_(post, l) == n_(pre, l)),
            ("C01:unchanged-elements", q1(lambda i: Implies(And(0 <= i, i < n_(pre, l)), data(post, l, i) == data(pre, l, i)), lambda i: Select(R(post, l), i), "i"))]


def no_events(pre, post):
    return [("C02:no-destroy-call", And(post.m("G:evn") == pre.m("G:evn"), post.m("G:evf") == pre.m("G:evf"), post.m("G:eva") == pre.m("G:eva")))]


def one_event(pre, post, f, x):
    n = pre.m("G:evn")
    return [("C02:destroyed-exactly-once", And(post.m("G:evn") == n + 1, post.m("G:evf") == Store(pre.m("G:evf"), n, f), post.m("G:eva") == Store(pre.m("G:eva"), n, x)))]


def alloc_frame(pre, post, keep=lambda x: BoolVal(True)):
    a, b = pre.m("alloc"), post.m("alloc")
    return q1(lambda x: Implies(And(Select(a, x), keep(x)), Select(b, x)), lambda x: [Select(b, x), Select(a, x)], "x")


def alloc_ok(pre, post, l):
    """nothing outside the list is released; whatever is new belongs to the list"""
    a, b = pre.m("alloc"), post.m("alloc")
    own, own0 = post.m("G:own"), pre.m("G:own")
    x = FreshInt("x")
    return [("C02:foreign-memory-kept", ForAll([x], Implies(And(Select(a, x), Select(own0, x) != l), Select(b, x)), patterns=[Select(b, x), Select(a, x)])),
            ("C02:new-memory-owned", ForAll([x], Implies(And(Select(b, x), Not(Select(a, x))), Select(own, x) == l), patterns=[Select(b, x)])),
            ("C02:ownership-elsewhere-kept", ForAll([x], Implies(And(Select(a, x), Select(own0, x) != l), And(Select(own, x) == Select(own0, x), Select(post.m("G:role"), x) == Select(pre.m("G:role"), x))), patterns=[Select(own, x)]))]


NODEF = ["F:axlListNode.next", "F:axlListNode.previous", "F:axlListNode.data"]
LISTF = ["F:axlList.first_node", "F:axlList.last_node", "F:axlList.length", "F:axlList.preallocated", "F:axlList.available", "F:axlList.allocated"]
GH = ["G:nodes", "G:idx", "G:own", "G:role"]
EV = ["G:evn", "G:evf", "G:eva"]


def fr_list(pre, l):
    d = {}
    for m in NODEF:
        d[m] = lambda x: pre.g("own", x) == l
    for m in LISTF:
        d[m] = lambda x: x == l
    d["A:ptr"] = lambda x: pre.g("own", x) == l
    return d


_fresh = [0]


def fresh_row(name):
    _fresh[0] += 1
    return Const("%s#%d" % (name, _fresh[0]), AI)


def own_upd(pre, post, l, new):
    p2 = post.f("axlList.preallocated", l)
    own = Store(pre.m("G:own"), p2, l)
    role = Store(pre.m("G:role"), p2, 2)
    own = If(p2 != 0, own, pre.m("G:own"))
    role = If(p2 != 0, role, pre.m("G:role"))
    if new is not None:
        own, role = Store(own, new, l), Store(role, new, 1)
    return own, role


def ins_ghost(pre, post, l, k, new):
    r, ix = R(pre, l), I(pre, l)
    n = n_(pre, l)
    r2, ix2 = fresh_row("nodes"), fresh_row("idx")
    own, role = own_upd(pre, post, l, new)
    i, x = FreshInt("i"), FreshInt("x")
    ax = [ForAll([i], Select(r2, i) == If(i < k, Select(r, i), If(i == k, new, Select(r, i - 1))), patterns=[Select(r2, i)]),
          ForAll([x], Select(ix2, x) == If(x == new, k, If(Select(ix, x) >= k, Select(ix, x) + 1, Select(ix, x))), patterns=[Select(ix2, x)])]
    return {"G:nodes": Store(pre.m("G:nodes"), l, r2), "G:idx": Store(pre.m("G:idx"), l, ix2), "G:own": own, "G:role": role}, ax


def rem_ghost(pre, post, l, k):
    r, ix = R(pre, l), I(pre, l)
    av = pre.f("axlList.available", l)
    old = Select(r, k)
    r2, ix2 = fresh_row("nodes"), fresh_row("idx")
    i, x = FreshInt("i"), FreshInt("x")
    ax = [ForAll([i], Select(r2, i) == If(i < k, Select(r, i), Select(r, i + 1)), patterns=[Select(r2, i)]),
          ForAll([x], Select(ix2, x) == If(x == old, -1 - av, If(Select(ix, x) > k, Select(ix, x) - 1, Select(ix, x))), patterns=[Select(ix2, x)])]
    return {"G:nodes": Store(pre.m("G:nodes"), l, r2), "G:idx": Store(pre.m("G:idx"), l, ix2)}, ax


def cond_ghost(c, upd, pre):
    return {k: If(c, t, pre.m(k)) for k, t in upd.items()}


def node_cands(rc, l):
    """integer positions named by pointers on this path"""
    out, seen = [], set()
    pre = rc.pre
    for v in rc.ptrs:
        t = Select(I(pre, l), v)
        out += [t, t + 1]
    return out


# ---- loop templates
def list_loops(lc, lists, preds=()):
    out = []
    for ln, l in enumerate(lists):
        v = lc.post
        n, r, ix = n_(v, l), R(v, l), I(v, l)
        for k, (t, p, e) in enumerate(lc.phis):
            if t != "ptr":
                continue
            tag = "%d.%d" % (ln, k)
            pos = If(p == 0, n, Select(ix, p))
            rpos = If(p == 0, IntVal(-1), Select(ix, p))
            out.append(("member" + tag, Or(p == 0, And(0 <= Select(ix, p), Select(ix, p) < n, Select(r, Select(ix, p)) == p))))
            for j, (t2, i, e2) in enumerate(lc.phis):
                if t2 in ("i32", "i64"):
                    for c in (0, 1):
                        out.append(("track%s.%d+%d" % (tag, j, c), pos == i + c))
                        out.append(("rtrack%s.%d+%d" % (tag, j, c), rpos == i - c))
            for pn, P in preds:
                # everything before p satisfies P / everything after p satisfies P
                out.append(("before%s:%s" % (tag, pn), q1(lambda i: Implies(And(0 <= i, i < pos), P(data(v, l, i))), lambda i: Select(r, i), "i")))
                out.append(("after%s:%s" % (tag, pn), q1(lambda i: Implies(And(rpos < i, i < n), P(data(v, l, i))), lambda i: Select(r, i), "i")))
        for k, (t, i0, e) in enumerate(lc.phis):
            if t in ("i32", "i64"):
                tag = "%d.i%d" % (ln, k)
                out.append(("ilen" + tag, i0 <= n))
                for pn, P in preds:
                    out.append(("ibefore%s:%s" % (tag, pn), q1(lambda i: Implies(And(0 <= i, i < i0), P(data(v, l, i))), lambda i: Select(r, i), "i")))
    return out


def list_variants(lc, lists):
    out = []
    for ln, l in enumerate(lists):
        v = lc.pre
        ix, n = Select(v.m("G:idx"), l), n_(v, l)
        ps = [p for t, p, e in lc.phis if t == "ptr"]
        for k, p in enumerate(ps):
            out.append(("fwd%d.%d" % (ln, k), If(p == 0, 0, n - Select(ix, p))))
            out.append(("bwd%d.%d" % (ln, k), If(p == 0, 0, Select(ix, p) + 1)))
        for a in range(len(ps)):
            for b in range(len(ps)):
                if a != b:
                    out.append(("two%d.%d.%d" % (ln, a, b), If(ps[a] == 0, 0, n - Select(ix, ps[a])) + If(ps[b] == 0, 0, Select(ix, ps[b]) + 1)))
    return out


class ListC(Contract):
    tags = ("C01", "C02")
    preds = ()

    def lists(self, a):
        return [a[0]]

    def requires(self, pre, a):
        l = a[0]
        return [(lab, Implies(l != 0, f)) for lab, f in wf_parts(pre, l)]

    def preds_for(self, v, a):
        return []

    def extra_ints(self, pre, a):
        return [n_(pre, a[0]), pre.f("axlList.available", a[0])]

    def loops(self, lc):
        return list_loops(lc, self.lists(lc.args), self.preds_for(lc.pre, lc.args))

    def variants(self, lc):
        return list_variants(lc, self.lists(lc.args))


class Query(ListC):
    """pure functions of the list"""
    modifies = []

    def ensures(self, pre, post, a, ret, w):
        return self.result(pre, a, ret)


def null0(l, ret, val=0):
    return ("null-list", Implies(l == 0, ret == val))


@contract
class Length(Query):
    name = "axl_list_length"
    def result(self, v, a, ret):
        return [("length", ret == If(a[0] == 0, IntVal(-1), n_(v, a[0])))]


@contract
class IsEmpty(Query):
    name = "axl_list_is_empty"
    def result(self, v, a, ret):
        return [("empty", Implies(a[0] != 0, (ret != 0) == (n_(v, a[0]) == 0))), null0(a[0], ret)]


@contract
class GetFirst(Query):
    name = "axl_list_get_first"
    def result(self, v, a, ret):
        l = a[0]
        return [("first-element", Implies(l != 0, ret == If(n_(v, l) > 0, data(v, l, 0), 0))), null0(l, ret)]


@contract
class GetLast(Query):
    name = "axl_list_get_last"
    def result(self, v, a, ret):
        l = a[0]
        return [("last-element", Implies(l != 0, ret == If(n_(v, l) > 0, data(v, l, n_(v, l) - 1), 0))), null0(l, ret)]


@contract
class GetNth(Query):
    name = "axl_list_get_nth"
    def result(self, v, a, ret):
        l, k = a
        return [("nth-element", Implies(l != 0, ret == If(And(0 <= k, k < n_(v, l)), data(v, l, k), 0))), null0(l, ret)]


class FindBase(Query):
    witness = ("k",)

    def hit(self, v, a, d):
        raise NotImplementedError

    def preds_for(self, v, a):
        return [("miss", lambda d: Not(self.hit(v, a, d)))]

    def candidates(self, rc):
        return [{"k": IntVal(-1)}] + [{"k": t} for t in node_cands(rc, rc.args[0])] + [{"k": t} for t in rc.ints]

    def found(self, v, a, k):
        l = a[0]
        n, r = n_(v, l), R(v, l)
        return And(0 <= k, k < n, self.hit(v, a, data(v, l, k)),
                   q1(lambda i: Implies(And(0 <= i, i < k), Not(self.hit(v, a, data(v, l, i)))), lambda i: Select(r, i), "i"))

    def missing(self, v, a):
        l = a[0]
        n, r = n_(v, l), R(v, l)
        return q1(lambda i: Implies(And(0 <= i, i < n), Not(self.hit(v, a, data(v, l, i)))), lambda i: Select(r, i), "i")


@contract
class Lookup(FindBase):
    name = "axl_list_lookup"
    def hit(self, v, a, d): return cbfun(2)(a[1], d, a[2]) != 0
    def ensures(self, v, post, a, ret, w):
        l, f, d = a
        k = w["k"]
        return [("first-match", Implies(And(l != 0, f != 0), Or(And(k >= 0, self.found(v, a, k), ret == data(v, l, k)), And(k < 0, self.missing(v, a), ret == 0)))),
                ("null-arguments", Implies(Or(l == 0, f == 0), ret == 0))]


class ExistsLike(FindBase):
    def hit(self, v, a, d): return cmpf(v, a[0], d, a[1]) == 0


@contract
class Exists(ExistsLike):
    name = "axl_list_exists"
    def requires(self, pre, a):
        return super().requires(pre, a) + [("comparator-range", Implies(a[0] != 0, cmp_range(pre, a[0])))]
    def ensures(self, v, post, a, ret, w):
        l, p = a
        k = w["k"]
        return [("present-iff-an-element-compares-equal", Implies(And(l != 0, p != 0), If(ret != 0, And(0 <= k, k < n_(v, l), self.hit(v, a, data(v, l, k))), self.missing(v, a)))),
                ("null-arguments", Implies(Or(l == 0, p == 0), ret == 0))]


@contract
class ExistsAt(Query):
    name = "axl_list_exists_at"
    def result(self, v, a, ret):
        l, p, k = a
        return [("compares-equal-at", Implies(l != 0, (ret != 0) == And(0 <= k, k < n_(v, l), cmpf(v, l, data(v, l, k), p) == 0))), null0(l, ret)]


class Mutator(ListC):
    modifies = NODEF + LISTF + ["A:ptr", "alloc"] + GH

    def frame(self, pre, a):
        return fr_list(pre, a[0])


class Insert(Mutator):
    def pos(self, pre, a):
        raise NotImplementedError

    def ghost(self, pre, post, a, ret, w):
        l = a[0]
        k = self.pos(pre, a)
        n = n_(pre, l)
        new = If(k == 0, post.f("axlList.first_node", l), If(k == n, post.f("axlList.last_node", l), post.f("axlListNode.next", Select(R(pre, l), k - 1))))
        upd, ax = ins_ghost(pre, post, l, k, new)
        return cond_ghost(l != 0, upd, pre), ax

    def ensures(self, pre, post, a, ret, w):
        l, p = a[0], a[1]
        k = self.pos(pre, a)
        return insert_post(pre, post, l, p, k, l != 0) + alloc_ok(pre, post, l)


def insert_post(pre, post, l, p, k, g):
    n = n_(pre, l)
    out = [(lab, Implies(g, f)) for lab, f in wf_parts(post, l)]
    out.append(("C01:length-plus-one", Implies(g, n_(post, l) == n + 1)))
    out.append(("C01:inserted-at-position", Implies(g, And(0 <= k, k <= n, data(post, l, k) == p))))
    out.append(("C01:others-keep-order", Implies(g, q1(lambda i: Implies(And(0 <= i, i < n + 1, i != k), data(post, l, i) == If(i < k, data(pre, l, i), data(pre, l, i - 1))),
                                                   lambda i: Select(R(post, l), i), "i"))))
    return out


@contract
class Append(Insert):
    name = "axl_list_append"
    def pos(self, pre, a): return n_(pre, a[0])


@contract
class Prepend(Insert):
    name = "axl_list_prepend"
    def pos(self, pre, a): return IntVal(0)


@contract
class AddAt(Insert):
    name = "axl_list_add_at"
    def pos(self, pre, a):
        n = n_(pre, a[0])
        return If(a[2] <= 0, 0, If(a[2] >= n, n, a[2]))


@contract
class Add(Mutator):
    name = "axl_list_add"
    witness = ("k",)

    def requires(self, pre, a):
        return super().requires(pre, a) + [("comparator-range", Implies(a[0] != 0, cmp_range(pre, a[0])))]

    def preds_for(self, v, a):
        return [("after", lambda d: cmpf(v, a[0], d, a[1]) == 1), ("before", lambda d: cmpf(v, a[0], d, a[1]) == -1)]

    def candidates(self, rc):
        l = rc.args[0]
        return [{"k": IntVal(-1)}, {"k": IntVal(0)}] + [{"k": t} for t in node_cands(rc, l)]

    def newnode(self, pre, post, l, k):
        n = n_(pre, l)
        return If(k == 0, post.f("axlList.first_node", l), If(k == n, post.f("axlList.last_node", l), post.f("axlListNode.next", Select(R(pre, l), k - 1))))

    def ghost(self, pre, post, a, ret, w):
        l, k = a[0], w["k"]
        ins = n_(post, l) == n_(pre, l) + 1
        new = self.newnode(pre, post, l, k)
        upd, ax = ins_ghost(pre, post, l, k, new)
        # nothing inserted: the node taken went (back) to the pool
        pl = pool(post, l)
        av0, av1 = pre.f("axlList.available", l), post.f("axlList.available", l)
        own, role = own_upd(pre, post, l, None)
        own = If(av1 > av0, Store(own, Select(pl, av1 - 1), l), own)
        role = If(av1 > av0, Store(role, Select(pl, av1 - 1), 1), role)
        ix = If(av1 > av0, Store(I(pre, l), Select(pl, av1 - 1), -av1), I(pre, l))
        keep = {"G:nodes": pre.m("G:nodes"), "G:idx": Store(pre.m("G:idx"), l, ix), "G:own": own, "G:role": role}
        return {m: If(l == 0, pre.m(m), If(ins, upd[m], keep[m])) for m in upd}, ax

    def ensures(self, pre, post, a, ret, w):
        l, p, k = a[0], a[1], w["k"]
        n = n_(pre, l)
        g = l != 0
        out = [(lab, Implies(g, f)) for lab, f in wf_parts(post, l)]
        r = R(pre, l)
        ins = n_(post, l) == n + 1
        allc = lambda lo, hi, c: q1(lambda i: Implies(And(lo <= i, i < hi), cmpf(pre, l, data(pre, l, i), p) == c), lambda i: Select(r, i), "i")
        out.append(("C01:inserted-or-equal-present", Implies(g, Or(
            And(ins, 0 <= k, k <= n,
                Or(And(k == 0, n == 0),
                   And(k < n, cmpf(pre, l, data(pre, l, k), p) == -1, allc(0, k, 1)),
                   And(k > 0, cmpf(pre, l, data(pre, l, k - 1), p) == 1, allc(k, n, -1)))),
            And(n_(post, l) == n, n > 0, k < 0)))))
        out.append(("C01:not-inserted-only-if-equal", Implies(And(g, n_(post, l) == n), Exists_(lambda i: And(0 <= i, i < n, cmpf(pre, l, data(pre, l, i), p) == 0)))))
        out.append(("C01:element-at-position", Implies(And(g, ins), data(post, l, k) == p)))
        out.append(("C01:others-keep-order", Implies(And(g, ins), q1(lambda i: Implies(And(0 <= i, i < n + 1, i != k), data(post, l, i) == If(i < k, data(pre, l, i), data(pre, l, i - 1))), lambda i: Select(R(post, l), i), "i"))))
        out.append(("C01:unchanged-otherwise", Implies(And(g, Not(ins)), And(*[f for _, f in same_view(pre, post, l)]))))
        return out + alloc_ok(pre, post, l)


def Exists_(f):
    i = FreshInt("ex")
    return Exists([i], f(i))


import z3 as _z3
Exists = _z3.Exists


class Removal(Mutator):
    """removes the element at position k (k<0: nothing); runs destroy when `destroys`"""
    modifies = NODEF + LISTF + ["A:ptr"] + ["G:nodes", "G:idx"] + EV
    destroys = True

    def post_at(self, pre, post, l, k, g):
        n = n_(pre, l)
        out = [(lab, Implies(l != 0, f)) for lab, f in wf_parts(post, l)]
        out.append(("C01:length-minus-one", Implies(g, n_(post, l) == n - 1)))
        out.append(("C01:others-keep-order", Implies(g, q1(lambda i: Implies(And(0 <= i, i < n - 1), data(post, l, i) == If(i < k, data(pre, l, i), data(pre, l, i + 1))),
                                                       lambda i: Select(R(post, l), i), "i"))))
        out += [(lab, Implies(And(l != 0, Not(g)), f)) for lab, f in same_view(pre, post, l)]
        d = pre.f("axlList.destroy_data", l)
        x = data(pre, l, k)
        ev1 = one_event(pre, post, d, x)[0][1]
        ev0 = no_events(pre, post)[0][1]
        out.append(("C02:destroy-exactly-the-removed", If(And(g, self.destroy_cond(pre, l)), ev1, ev0)))
        return out

    def destroy_cond(self, pre, l):
        return And(BoolVal(self.destroys), pre.f("axlList.destroy_data", l) != 0)

    def gh(self, pre, post, l, k, g):
        upd, ax = rem_ghost(pre, post, l, k)
        return cond_ghost(g, upd, pre), ax


class RemAt(Removal):
    def pos(self, pre, a): raise NotImplementedError

    def guard(self, pre, a):
        l = a[0]
        return And(l != 0, 0 <= self.pos(pre, a), self.pos(pre, a) < n_(pre, l))

    def ghost(self, pre, post, a, ret, w):
        return self.gh(pre, post, a[0], self.pos(pre, a), self.guard(pre, a))

    def ensures(self, pre, post, a, ret, w):
        return self.post_at(pre, post, a[0], self.pos(pre, a), self.guard(pre, a))


def mk_remat(fname, posf, destroy):
    class C(RemAt):
        name = fname
        destroys = destroy
        def pos(self, pre, a): return posf(pre, a)
    contract(C)


mk_remat("axl_list_remove_first", lambda v, a: IntVal(0), True)
mk_remat("axl_list_unlink_first", lambda v, a: IntVal(0), False)
mk_remat("axl_list_remove_last", lambda v, a: n_(v, a[0]) - 1, True)
mk_remat("axl_list_unlink_last", lambda v, a: n_(v, a[0]) - 1, False)
mk_remat("axl_list_remove_at", lambda v, a: a[1], True)
mk_remat("axl_list_unlink_at", lambda v, a: a[1], False)


class RemFind(Removal):
    witness = ("k",)
    byptr = False

    def hit(self, v, a, d):
        return d == a[1] if self.byptr else cmpf(v, a[0], d, a[1]) == 0

    def preds_for(self, v, a):
        return [("miss", lambda d: Not(self.hit(v, a, d)))]

    candidates = FindBase.candidates
    found = FindBase.found
    missing = FindBase.missing

    def ghost(self, pre, post, a, ret, w):
        return self.gh(pre, post, a[0], w["k"], And(a[0] != 0, w["k"] >= 0))

    def ensures(self, pre, post, a, ret, w):
        l, k = a[0], w["k"]
        return [("C01:removes-the-first-match", Implies(l != 0, If(k >= 0, self.found(pre, a, k), self.missing(pre, a))))] + \
            self.post_at(pre, post, l, k, And(l != 0, k >= 0))


def mk_remfind(fname, ptr, destroy):
    class C(RemFind):
        name = fname
        byptr = ptr
        destroys = destroy
    contract(C)


mk_remfind("axl_list_remove", False, True)
mk_remfind("axl_list_unlink", False, False)
mk_remfind("axl_list_remove_ptr", True, True)
mk_remfind("axl_list_unlink_ptr", True, False)


@contract
class New(Contract):
    name = "axl_list_new"
    tags = ("C01", "C02")
    modifies = ["alloc", "G:own", "G:role"] + LISTF + ["F:axlList.are_equal", "F:axlList.destroy_data"]

    def ghost(self, pre, post, a, ret, w):
        return {"G:own": If(ret != 0, Store(pre.m("G:own"), ret, ret), pre.m("G:own")), "G:role": If(ret != 0, Store(pre.m("G:role"), ret, 3), pre.m("G:role"))}, []

    def requires(self, pre, a):
        al = pre.m("alloc")
        x = FreshInt("x")
        return [("ghost-owners-are-live", ForAll([x], Implies(And(Select(al, x), pre.g("own", x) != 0), Select(al, pre.g("own", x))), patterns=[pre.g("own", x)]))]

    def ensures(self, pre, post, a, ret, w):
        al, al2 = pre.m("alloc"), post.m("alloc")
        return [(l, Implies(a[0] != 0, f)) for l, f in wf_parts(post, ret)] + [
            ("empty-list", Implies(a[0] != 0, And(n_(post, ret) == 0, post.f("axlList.are_equal", ret) == a[0], post.f("axlList.destroy_data", ret) == a[1]))),
            ("fresh", Implies(a[0] != 0, Not(pre.alloc(ret)))),
            ("allocates-one", al2 == If(a[0] != 0, Store(al, ret, True), al)),
            ("null-comparator", Implies(a[0] == 0, ret == 0))]


@contract
class SetDestroy(ListC):
    name = "axl_list_set_destroy_func"
    modifies = ["F:axlList.destroy_data"]
    def frame(self, pre, a): return {"F:axlList.destroy_data": lambda x: x == a[0]}
    def ensures(self, pre, post, a, ret, w):
        return [("destroy-function-set", Implies(a[0] != 0, post.f("axlList.destroy_data", a[0]) == a[1]))]


@contract
class Free(ListC):
    name = "axl_list_free"
    modifies = ["alloc"] + EV

    def ensures(self, pre, post, a, ret, w):
        l = a[0]
        n = n_(pre, l)
        d = pre.f("axlList.destroy_data", l)
        e0, e1 = pre.m("G:evn"), post.m("G:evn")
        al, al2, own = pre.m("alloc"), post.m("alloc"), pre.m("G:own")
        x = FreshInt("x")
        return [("C02:every-element-destroyed-once", And(e1 == e0 + If(And(l != 0, d != 0), n, 0),
                 q1(lambda t: Implies(And(e0 <= t, t < e1), And(Select(post.m("G:evf"), t) == d, Select(post.m("G:eva"), t) == data(pre, l, t - e0))), lambda t: [Select(post.m("G:eva"), t), Select(post.m("G:evf"), t)], "t"),
                 q1(lambda t: Implies(t < e0, And(Select(post.m("G:evf"), t) == Select(pre.m("G:evf"), t), Select(post.m("G:eva"), t) == Select(pre.m("G:eva"), t))), lambda t: [Select(post.m("G:eva"), t), Select(post.m("G:evf"), t)], "t"))),
                ("C02:all-list-memory-released-nothing-else", ForAll([x], Select(al2, x) == And(Select(al, x), Or(l == 0, Select(own, x) != l)), patterns=[Select(al2, x)]))]

    def loops(self, lc):
        out = super().loops(lc)
        l = lc.args[0]
        pre, v, en = lc.pre, lc.post, lc.entry
        own, role, ix, n = pre.m("G:own"), pre.m("G:role"), I(pre, l), n_(pre, l)
        al, ale = v.m("alloc"), en.m("alloc")
        d = pre.f("axlList.destroy_data", l)
        e0 = en.m("G:evn")
        x = FreshInt("x")
        isn = lambda x: And(Select(own, x) == l, Select(role, x) == 1)
        for k, (t, p, e) in enumerate(lc.phis):
            if t == "ptr":
                pos = If(p == 0, n, Select(ix, p))
                out.append(("freed%d" % k, ForAll([x], Select(al, x) == And(Select(ale, x), Not(And(isn(x), 0 <= Select(ix, x), Select(ix, x) < pos))), patterns=[Select(al, x)])))
                cnt = If(d != 0, pos, 0)
            elif t in ("i32", "i64"):
                out.append(("freedpool%d" % k, ForAll([x], Select(al, x) == And(Select(ale, x), Not(And(isn(x), Select(ix, x) < 0, Select(ix, x) >= -p))), patterns=[Select(al, x)])))
                out.append(("freedn%d" % k, ForAll([x], Select(al, x) == And(Select(ale, x), Not(And(isn(x), 0 <= Select(ix, x), Select(ix, x) < p))), patterns=[Select(al, x)])))
                av = pre.f("axlList.available", l)
                out.append(("availb%d" % k, p <= av))
                out.append(("rfreedpool%d" % k, ForAll([x], Select(al, x) == And(Select(ale, x), Not(And(isn(x), Select(ix, x) < -p, Select(ix, x) >= -av))), patterns=[Select(al, x)])))
                cnt = If(d != 0, p, 0)
            else:
                continue
            e1 = v.m("G:evn")
            out.append(("evn%d" % k, e1 == e0 + cnt))
            out.append(("evt%d" % k, q1(lambda t: Implies(And(e0 <= t, t < e1), And(Select(v.m("G:evf"), t) == d, Select(v.m("G:eva"), t) == data(pre, l, t - e0))), lambda t: [Select(v.m("G:eva"), t), Select(v.m("G:evf"), t)], "t")))
            out.append(("evk%d" % k, q1(lambda t: Implies(t < e0, And(Select(v.m("G:evf"), t) == Select(en.m("G:evf"), t), Select(v.m("G:eva"), t) == Select(en.m("G:eva"), t))), lambda t: [Select(v.m("G:eva"), t), Select(v.m("G:evf"), t)], "t")))
        return out


# ------------------------------------------------------------------ cursors
def cwf(v, c):
    l = v.f("axlListCursor.list", c)
    cur = v.f("axlListCursor.current", c)
    return [("cursor-live", And(v.alloc(c), v.g("own", c) != l))] + wf_parts(v, l) + \
        [("cursor-in-list", Or(cur == 0, And(0 <= Select(I(v, l), cur), Select(I(v, l), cur) < n_(v, l), Select(R(v, l), Select(I(v, l), cur)) == cur)))]


class CursorC(Contract):
    tags = ("C03",)

    def requires(self, pre, a):
        return [(lab, Implies(a[0] != 0, f)) for lab, f in cwf(pre, a[0])]


def cpos(v, c):
    """position of the cursor, -1 for none"""
    l = v.f("axlListCursor.list", c)
    cur = v.f("axlListCursor.current", c)
    return If(cur == 0, -1, Select(I(v, l), cur))


class CursorMove(CursorC):
    modifies = ["F:axlListCursor.current"]
    def frame(self, pre, a): return {"F:axlListCursor.current": lambda x: x == a[0]}
    def ensures(self, pre, post, a, ret, w):
        c = a[0]
        l = pre.f("axlListCursor.list", c)
        return [("cursor-position", Implies(c != 0, cpos(post, c) == self.to(pre, c, l)))] + [(x, Implies(c != 0, f)) for x, f in cwf(post, c)]


def mk_move(fname, tof):
    class C(CursorMove):
        name = fname
        def to(self, v, c, l): return tof(v, c, l)
    contract(C)


mk_move("axl_list_cursor_first", lambda v, c, l: If(n_(v, l) > 0, 0, -1))
mk_move("axl_list_cursor_last", lambda v, c, l: n_(v, l) - 1)
mk_move("axl_list_cursor_next", lambda v, c, l: If(And(cpos(v, c) >= 0, cpos(v, c) + 1 < n_(v, l)), cpos(v, c) + 1, -1))
mk_move("axl_list_cursor_previous", lambda v, c, l: If(cpos(v, c) > 0, cpos(v, c) - 1, -1))


def mk_cq(fname, res, nullval=0):
    class C(CursorC):
        name = fname
        modifies = []
        def ensures(self, pre, post, a, ret, w):
            c = a[0]
            return [("result", Implies(c != 0, res(pre, c, pre.f("axlListCursor.list", c), ret))), ("null-cursor", Implies(c == 0, ret == nullval))]
    contract(C)


mk_cq("axl_list_cursor_has_next", lambda v, c, l, r: (r != 0) == And(cpos(v, c) >= 0, cpos(v, c) + 1 < n_(v, l)))
mk_cq("axl_list_cursor_has_previous", lambda v, c, l, r: (r != 0) == (cpos(v, c) > 0))
mk_cq("axl_list_cursor_has_item", lambda v, c, l, r: (r != 0) == (cpos(v, c) >= 0))
mk_cq("axl_list_cursor_get", lambda v, c, l, r: r == If(cpos(v, c) >= 0, data(v, l, cpos(v, c)), 0))
mk_cq("axl_list_cursor_list", lambda v, c, l, r: r == l)


class CursorRemove(CursorC):
    modifies = NODEF + LISTF + ["A:ptr", "G:nodes", "G:idx", "F:axlListCursor.current"] + EV
    destroys = True
    tags = ("C02", "C03")

    def frame(self, pre, a):
        l = pre.f("axlListCursor.list", a[0])
        d = fr_list(pre, l)
        d["F:axlListCursor.current"] = lambda x: x == a[0]
        return d

    def ghost(self, pre, post, a, ret, w):
        c = a[0]
        l = pre.f("axlListCursor.list", c)
        upd, ax = rem_ghost(pre, post, l, cpos(pre, c))
        return cond_ghost(And(c != 0, cpos(pre, c) >= 0), upd, pre), ax

    def ensures(self, pre, post, a, ret, w):
        c = a[0]
        l, k = pre.f("axlListCursor.list", c), cpos(pre, c)
        rem = Removal()
        rem.destroys = self.destroys
        g = And(c != 0, k >= 0)
        out = [(x, Implies(c != 0, f)) for x, f in cwf(post, c)]
        n = n_(pre, l)
        out.append(("C03:length-minus-one", Implies(g, n_(post, l) == n - 1)))
        out.append(("C03:others-keep-order", Implies(g, q1(lambda i: Implies(And(0 <= i, i < n - 1), data(post, l, i) == If(i < k, data(pre, l, i), data(pre, l, i + 1))),
                                                       lambda i: Select(R(post, l), i), "i"))))
        out.append(("cursor-on-following-or-last", Implies(g, cpos(post, c) == If(k < n - 1, k, n - 2))))
        d = pre.f("axlList.destroy_data", l)
        out.append(("C02:destroy-exactly-the-removed", If(And(g, rem.destroy_cond(pre, l)), one_event(pre, post, d, data(pre, l, k))[0][1], no_events(pre, post)[0][1])))
        return out


for _n, _d in (("axl_list_cursor_remove", True), ("axl_list_cursor_unlink", False)):
    class _C(CursorRemove):
        name = _n
        destroys = _d
    contract(_C)


@contract
class CursorNew(ListC):
    name = "axl_list_cursor_new"
    tags = ("C03",)
    modifies = ["alloc", "F:axlListCursor.list", "F:axlListCursor.current"]
    def requires(self, pre, a):
        x = FreshInt("x")
        return super().requires(pre, a) + [("unallocated-is-unowned", ForAll([x], Implies(Not(pre.alloc(x)), pre.g("own", x) == 0), patterns=[pre.g("own", x)]))]
    def ensures(self, pre, post, a, ret, w):
        l = a[0]
        return [("cursor-at-first", Implies(l != 0, And(post.f("axlListCursor.list", ret) == l, cpos(post, ret) == If(n_(pre, l) > 0, 0, -1), Not(pre.alloc(ret)))))] + \
            [(x, Implies(l != 0, f)) for x, f in cwf(post, ret)] + [("allocates-one", post.m("alloc") == If(l != 0, Store(pre.m("alloc"), ret, True), pre.m("alloc")))]


@contract
class CursorFree(CursorC):
    name = "axl_list_cursor_free"
    modifies = ["alloc"]
    def ensures(self, pre, post, a, ret, w):
        return [("releases-the-cursor-only", post.m("alloc") == If(a[0] != 0, Store(pre.m("alloc"), a[0], False), pre.m("alloc")))]
