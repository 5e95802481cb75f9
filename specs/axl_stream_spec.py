"""Contracts of the character stream (src/axl_stream.c).

Ghost state: sin[s] is the input of stream s indexed by the global position, so that the bytes buffered are the ones of
the input from the current position on, and fdin[fd]/fdpos[fd] what reading the descriptor delivers: the input does not
depend on how it is split into reads."""
from z3 import *
from vc import *
from vc import ANY
from lib import is_cstr, libfn, TRUSTED
from axl_string_spec import readable, ondist, blank, n_, text_at

GHOST_SORTS.update({"G:sin": AAI, "G:fdin": AAI, "G:fdpos": AI})
CONTRACTS = {}
shift = Function("shift", AI, INT, AI)      # the input seen after moving forward
_r, _n, _j = Const("sh_r", AI), Int("sh_n"), Int("sh_j")
BACKGROUND.append(ForAll([_r, _n, _j], Select(shift(_r, _n), _j) == Select(_r, _j + _n), patterns=[Select(shift(_r, _n), _j)]))


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def F(v, s, *names):
    r = [v.f("axlStream." + n, s) for n in names]
    return r if len(r) > 1 else r[0]


@libfn("read", ["B", "G:fdpos"], "stores at most n of the bytes the descriptor delivers next and returns how many (or -1)")
def _read(eng, st, ins, a):
    fd, p, n = a[0], eng.toint(st, a[1]), a[2]
    b, o = eng.split(st, p)
    v = View(st.maps, eng)
    ok = Or(n == 0, And(n >= 0, v.alloc(b), o >= 0, o + n <= bsize(b)))
    eng.oblige(st, "read-in-bounds", ok, ins.line, "safety")
    st.facts.append(ok)
    r = eng.fresh(st, "nread")
    st.facts += [r >= -1, r <= n]
    got = If(r > 0, r, 0)
    m, fp, src = eng.getmap(st.maps, "B"), eng.getmap(st.maps, "G:fdpos"), Select(eng.getmap(st.maps, "G:fdin"), fd)
    row = eng.fresh(st, "row", AI)
    i = FreshInt("i")
    st.facts.append(ForAll([i], Select(row, i) == If(And(o <= i, i < o + got), Select(src, Select(fp, fd) + (i - o)), Select(Select(m, b), i)), patterns=[Select(row, i)]))
    st.maps["B"] = Store(m, b, row)
    st.maps["G:fdpos"] = Store(fp, fd, Select(fp, fd) + got)
    eng.assumptions.add("read stores only the bytes it reports, in order, and close has no other effect")
    return r


@libfn("close", [], "no effect on memory")
def _close(eng, st, ins, a):
    r = eng.fresh(st, "closed")
    st.facts += [r >= -1, r <= 0]
    return r


def avail(v, s):
    ix, sz = F(v, s, "stream_index", "stream_size")
    return sz - ix


def wf_parts(v, s):
    buf, tmp, ix, sz, bs, pi, gi, lc = F(v, s, "stream", "temp", "stream_index", "stream_size", "buffer_size", "previous_inspect", "global_index", "last_chunk")
    ty, fd, ne = F(v, s, "type", "fd", "needs_expansion")
    row, inp = Select(v.m("B"), buf), v.g("sin", s)
    src, fp = v.g("fdin", fd), v.g("fdpos", fd)
    return [("stream-live", And(s != 0, v.alloc(s))),
            ("buffer", And(buf != 0, v.alloc(buf), blk(buf) == buf, off(buf) == 0, bsize(buf) >= bs + 1, buf != s)),
            ("temporal-buffer", And(Implies(tmp != 0, And(v.alloc(tmp), blk(tmp) == tmp, off(tmp) == 0, bsize(tmp) >= bs + 1, tmp != s, tmp != buf)), Implies(ty == 0, And(tmp != 0, bs > 0)))),
            ("last-chunk", Implies(lc != 0, And(v.alloc(lc), lc != s, lc != buf, lc != tmp))),
            ("C09:position-inside", And(0 <= ix, ix <= sz, sz <= bs, bs < 2 ** 30, 0 <= pi, ix + pi <= sz)),
            ("no-decoder", And(F(v, s, "decode_f") == 0, ne == 0)),
            ("C09:buffer-holds-the-input", q1(lambda k: Implies(And(ix <= k, k < sz), Select(row, k) == Select(inp, gi + (k - ix))), lambda k: Select(row, k), "k")),
            ("C09:what-is-read-follows", Implies(And(ty == 0, fd != -1), q1(lambda k: Implies(k >= fp, Select(src, k) == Select(inp, gi + (sz - ix) + (k - fp))), lambda k: Select(src, k), "k")))]


def wf(v, s): return And(*[f for _, f in wf_parts(v, s)])


MOV = ["stream", "temp", "stream_index", "stream_size", "buffer_size", "needs_expansion", "fd", "check_failed"]
ACC = ["stream_index", "global_index", "previous_inspect", "last_chunk"]


class SC(Contract):
    tags = ("C09",)
    fields = ()
    heap = False            # the buffers may be replaced or rewritten

    @property
    def modifies(self):
        m = ["F:axlStream." + x for x in self.fields]
        return m + (["alloc", "B", "A:ptr", "G:fdpos"] if self.heap else ["alloc"] if "last_chunk" in self.fields else []) + list(self.extra)
    extra = ()

    def frame(self, pre, a):
        mine = lambda x: Or(x == a[0], And(a[0] != 0, Or(*[x == F(pre, a[0], b) for b in ("stream", "temp", "last_chunk")]))) if self.heap else x == a[0]
        d = {"F:axlStream." + x: mine for x in self.fields}
        if self.heap:
            d["B"] = d["A:ptr"] = lambda x: Or(x == F(pre, a[0], "stream"), x == F(pre, a[0], "temp"))
            d["G:fdpos"] = ANY
        return d

    def requires(self, pre, a): return [(l, Or(a[0] == 0, f)) if self.nullok else (l, f) for l, f in wf_parts(pre, a[0])]
    nullok = False

    def extra_ints(self, pre, a): return []

    def memory(self, pre, post, s):
        al, al2 = pre.m("alloc"), post.m("alloc")
        b, t, l = F(pre, s, "stream", "temp", "last_chunk")
        b2, t2 = F(post, s, "stream", "temp")
        out = [("C09:nothing-else-released", q1(lambda x: Implies(And(Select(al, x), Not(Select(al2, x))), Or(x == b, x == t, x == l)), lambda x: Select(al2, x), "x")),
               ("C09:nothing-else-taken", q1(lambda x: Implies(And(Select(al2, x), Not(Select(al, x))), Or(x == b2, x == t2)), lambda x: Select(al2, x), "x")),
               ("C09:replaced-buffers-released", And(Implies(b2 != b, Not(Select(al2, b))), Implies(And(t2 != t, t != 0), Not(Select(al2, t))))),
               ("C09:buffers-own-or-new", And(Or(b2 == b, Not(pre.alloc(b2))), Or(t2 == t, Not(pre.alloc(t2)))))]
        if self.heap:
            out.append(("C09:other-descriptors-kept", q1(lambda x: Implies(And(x != -1, x != F(pre, s, "fd")), post.g("fdpos", x) == pre.g("fdpos", x)), lambda x: post.g("fdpos", x), "x")))
        return out

    def base(self, pre, post, a):
        s = a[0]
        out = wf_parts(post, s)
        if self.heap or "last_chunk" in self.fields:
            out = out + self.memory(pre, post, s)
        return [(l, Implies(s != 0, f)) for l, f in out] if self.nullok else out

    def loops(self, lc):
        """the stream stays well formed, and moves forward over input already there"""
        s = lc.args[0]
        pre, v = lc.pre, lc.post
        out = [("wf:" + l, f) for l, f in wf_parts(v, s)] + [("mem:" + l, f) for l, f in self.memory(pre, v, s)]
        out += [("still", F(v, s, "global_index") == F(pre, s, "global_index")), ("pending", F(v, s, "previous_inspect") == F(pre, s, "previous_inspect")),
                ("used", If(F(v, s, "global_index") == F(pre, s, "global_index"), F(v, s, "previous_inspect") == F(pre, s, "previous_inspect"), F(v, s, "previous_inspect") == 0)), ("closed", Implies(Or(F(pre, s, "type") != 0, F(pre, s, "fd") == -1), And(*[F(v, s, x) == F(pre, s, x) for x in ("fd", "stream", "stream_size")]))),
                ("kept", q1(lambda x: Implies(And(x != F(pre, s, "stream"), x != F(pre, s, "temp"), Select(pre.m("alloc"), x)), Select(v.m("B"), x) == Select(pre.m("B"), x)), lambda x: Select(v.m("B"), x), "x")),
                ("more", avail(v, s) >= avail(pre, s)), ("fwd", F(v, s, "global_index") >= F(pre, s, "global_index")), ("lastchunk", F(v, s, "last_chunk") == F(pre, s, "last_chunk")),
                ("blanks", self.blanks(pre, v, s)), ("samefd", Or(F(v, s, "fd") == F(pre, s, "fd"), F(v, s, "fd") == -1))]
        for k, d, ok in ondist(lc):
            out.append(("count%d" % k, And(d <= avail(v, s), d >= 0)))
            out.append(("remains%d" % k, And(d == avail(v, s))))
        return out

    def blanks(self, pre, v, s):
        inp = pre.g("sin", s)
        return q1(lambda k: Implies(And(F(pre, s, "global_index") <= k, k < F(v, s, "global_index")), blank(Select(inp, k))), lambda k: Select(inp, k), "k")


def same_view(pre, post, s):
    return And(F(post, s, "global_index") == F(pre, s, "global_index"), F(post, s, "previous_inspect") == F(pre, s, "previous_inspect"))


def exhausted(v, s): return Or(F(v, s, "type") != 0, F(v, s, "fd") == -1)


@contract
class Prebuffer(SC):
    name = "axl_stream_prebuffer"
    fields = MOV
    heap, nullok = True, True

    def ensures(self, pre, post, a, ret, w):
        s = a[0]
        out = [("C09:position-kept", same_view(pre, post, s)), ("C09:more-input", Implies(ret != 0, avail(post, s) > avail(pre, s))),
               ("C09:no-more-input", Implies(ret == 0, And(avail(post, s) == avail(pre, s), exhausted(post, s)))),
               ("C09:closed-stays-closed", Implies(exhausted(pre, s), And(ret == 0, *[F(post, s, x) == F(pre, s, x) for x in MOV]))),
               ("C09:descriptor", Or(F(post, s, "fd") == F(pre, s, "fd"), F(post, s, "fd") == -1))]
        return self.base(pre, post, a) + [(l, Implies(s != 0, f)) for l, f in out] + [("C09:null-refused", Implies(s == 0, And(ret == 0, post.m("alloc") == pre.m("alloc"))))]


@contract
class FallOutside(SC):
    name = "axl_stream_fall_outside"
    fields = MOV
    heap = True
    def variants(self, lc): return [("missing", lc.args[1] - avail(lc.post, lc.args[0]))]
    def requires(self, pre, a): return super().requires(pre, a) + [("size-not-negative", And(a[1] >= 0, a[1] < 2 ** 30))]
    def ensures(self, pre, post, a, ret, w):
        s, n = a
        return self.base(pre, post, a) + [("C09:position-kept", same_view(pre, post, s)), ("C09:enough-input", (ret == 0) == (n <= avail(post, s))), ("C09:not-enough-input", Implies(ret != 0, exhausted(post, s))),
                                          ("C09:input-kept", avail(post, s) >= avail(pre, s)), ("C09:descriptor", Or(F(post, s, "fd") == F(pre, s, "fd"), F(post, s, "fd") == -1))]


@contract
class Remains(SC):
    name = "axl_stream_remains"
    fields = MOV
    heap, nullok = True, True
    def ensures(self, pre, post, a, ret, w):
        s = a[0]
        return self.base(pre, post, a) + [("C09:position-kept", Implies(s != 0, same_view(pre, post, s))), ("C09:input-left", Implies(s != 0, (ret != 0) == (avail(post, s) > 0))), ("C09:at-the-end", Implies(And(s != 0, ret == 0), exhausted(post, s))), ("C09:null-refused", Implies(s == 0, ret == 0))]


@contract
class ConsumeBlanks(SC):
    name = "axl_stream_consume_white_spaces"
    fields = MOV + ["global_index", "previous_inspect"]
    heap = True
    terminates = False
    def ensures(self, pre, post, a, ret, w):
        s = a[0]
        inp = pre.g("sin", s)
        g1 = F(post, s, "global_index")
        return self.base(pre, post, a) + [("C09:forward", g1 >= F(pre, s, "global_index")), ("C09:only-blanks-consumed", self.blanks(pre, post, s)),
                                          ("C09:stops-at-first-non-blank", Or(And(avail(post, s) > 0, Not(blank(Select(inp, g1)))), And(avail(post, s) == 0, exhausted(post, s)))),
                                          ("C09:nothing-pending", Implies(g1 != F(pre, s, "global_index"), F(post, s, "previous_inspect") == 0))]


@contract
class Accept(SC):
    name = "axl_stream_accept"
    fields = ACC
    nullok = True
    def shape(self, l): return not (l.endswith("holds-the-input") or l.endswith("read-follows"))
    def requires(self, pre, a): return [(l, f) for l, f in super().requires(pre, a) if self.shape(l)]
    def base(self, pre, post, a): return [(l, f) for l, f in super().base(pre, post, a) if self.shape(l)]
    def ensures(self, pre, post, a, ret, w):
        s = a[0]
        pi, lc = F(pre, s, "previous_inspect", "last_chunk")
        out = [("C09:advances-over-what-was-inspected", And(F(post, s, "global_index") == F(pre, s, "global_index") + pi, F(post, s, "stream_index") == F(pre, s, "stream_index") + pi, F(post, s, "previous_inspect") == 0, F(post, s, "last_chunk") == 0)),
               ("C09:memory", post.m("alloc") == If(lc != 0, Store(pre.m("alloc"), lc, False), pre.m("alloc")))]
        return self.base(pre, post, a) + [(l, Implies(s != 0, f)) for l, f in out] + [("C09:null-refused", Implies(s == 0, post.m("alloc") == pre.m("alloc")))]


class Inspect(SC):
    fields = MOV + ACC
    heap = True

    def requires(self, pre, a):
        s, c, n = a[:3]
        return super().requires(pre, a) + [("literal", And(is_cstr(pre, c), n_(pre, c) > 0, n_(pre, c) < 2 ** 29, Or(n == -1, And(n > 0, n < 2 ** 30)))), ("apart", And(blk(c) != F(pre, s, "stream"), blk(c) != F(pre, s, "temp"), blk(c) != F(pre, s, "last_chunk")))]

    def n(self, pre, a): return If(a[2] == -1, n_(pre, a[1]), a[2])
    def extra_ints(self, pre, a): return [self.n(pre, a)]

    def matches(self, pre, a, upto=None):
        s, c = a[:2]
        inp, g, row, o = pre.g("sin", s), F(pre, s, "global_index"), pre.bytes(c), off(c)
        n = self.n(pre, a) if upto is None else upto
        return q1(lambda j: Implies(And(o <= j, j < o + n), And(Select(row, j) != 0, Select(inp, g + (j - o)) == Select(row, j))), lambda j: Select(row, j), "j")

    def ensures(self, pre, post, a, ret, w):
        s = a[0]
        n = self.n(pre, a)
        g0, g1 = F(pre, s, "global_index"), F(post, s, "global_index")
        return self.base(pre, post, a) + [("C09:result", Or(ret == -1, ret == 0, ret == 1)), ("C09:found-exactly-when-the-input-follows", Implies(ret >= 0, (ret == 1) == self.matches(pre, a))),
                                          ("C09:not-enough-input", Implies(ret == -1, And(avail(post, s) < n, exhausted(post, s)))), ("C09:position-kept-if-not-found", Implies(ret != 1, same_view(pre, post, s)))] + self.found(pre, post, s, ret, n)

    def loops(self, lc):
        out = super().loops(lc)
        a = lc.args
        for k, d, ok in ondist(lc):
            out.append(("matched%d" % k, And(ok, 0 <= d, d < self.n(lc.pre, a), d <= n_(lc.pre, a[1]), self.matches(lc.pre, a, d))))
        return out

    def variants(self, lc): return [("left%d" % k, n_(lc.pre, lc.args[1]) - d) for k, d, ok in ondist(lc)]


@contract
class InspectLit(Inspect):
    name = "axl_stream_inspect"
    def found(self, pre, post, s, ret, n):
        return [("C09:advances-past-the-literal", Implies(ret == 1, And(F(post, s, "global_index") == F(pre, s, "global_index") + n, F(post, s, "previous_inspect") == 0)))]


@contract
class Peek(Inspect):
    name = "axl_stream_peek"
    fields = MOV + ["previous_inspect"]
    def found(self, pre, post, s, ret, n):
        return [("C09:position-kept", F(post, s, "global_index") == F(pre, s, "global_index")), ("C09:pending", Implies(ret == 1, F(post, s, "previous_inspect") == n))]


@contract
class Step(SC):
    name = "axl_stream_step"
    fields = ACC
    nullok = True
    extra = ("G:sin",)
    def requires(self, pre, a): return super().requires(pre, a) + [("inside", Or(a[0] == 0, a[1] < 0, F(pre, a[0], "stream_index") + F(pre, a[0], "previous_inspect") + a[1] <= F(pre, a[0], "stream_size")))]
    def ghost(self, pre, post, a, ret, w): return {"G:sin": If(And(a[0] != 0, a[1] >= 0), Store(pre.m("G:sin"), a[0], shift(pre.g("sin", a[0]), a[1])), pre.m("G:sin"))}, []
    def ensures(self, pre, post, a, ret, w):
        s, n = a
        return self.base(pre, post, a) + [("C09:moves-that-far", Implies(And(s != 0, n >= 0), F(post, s, "stream_index") == F(pre, s, "stream_index") + F(pre, s, "previous_inspect") + n))]


for _nm, _f in (("axl_stream_get_index", "stream_index"), ("axl_stream_get_global_index", "global_index"), ("axl_stream_get_size", "stream_size")):
    class _Q(SC):
        name, f_, nullok = _nm, _f, True
        def ensures(self, pre, post, a, ret, w): return [("C09:value", ret == If(a[0] == 0, IntVal(-1), F(pre, a[0], self.f_)))]
    contract(_Q)


@contract
class InspectCode(SC):
    name = "axl_stream_inspect_code"
    fields = MOV
    heap, nullok = True, True
    def requires(self, pre, a): return super().requires(pre, a) + [("offset", And(a[2] >= 0, a[2] < 2 ** 30 - 1))]
    def ensures(self, pre, post, a, ret, w):
        s, c, o = a
        here = Select(pre.g("sin", s), F(pre, s, "global_index") + o)
        out = [("C09:position-kept", same_view(pre, post, s)), ("C09:found-exactly-when-the-input-follows", (ret != 0) == And(avail(post, s) > o, here == c)),
               ("C09:input-exhausted", Or(avail(post, s) > o, exhausted(post, s)))]
        return self.base(pre, post, a) + [(l, Implies(s != 0, f)) for l, f in out] + [("C09:null-refused", Implies(s == 0, ret == 0))]


@contract
class Push(SC):
    name = "axl_stream_push"
    fields = ["stream", "temp", "stream_index", "stream_size", "buffer_size", "global_index", "previous_inspect", "last_chunk"]
    heap, nullok = True, True
    extra = ("G:sin",)

    def g(self, a): return And(a[0] != 0, a[1] != 0)
    def requires(self, pre, a):
        s, c, n = a
        return super().requires(pre, a) + [("pushed", Implies(self.g(a), And(n >= 0, n < 2 ** 29, avail(pre, s) + n < 2 ** 30, readable(pre, c, n), *[blk(c) != F(pre, s, x) for x in ("stream", "temp", "last_chunk")])))]

    def ghost(self, pre, post, a, ret, w):
        s, c, n = a
        r = Const("pushed_input", AI)
        k = FreshInt("k")
        g, inp = F(pre, s, "global_index"), pre.g("sin", s)
        return {"G:sin": If(self.g(a), Store(pre.m("G:sin"), s, r), pre.m("G:sin"))}, [ForAll([k], Select(r, k) == If(And(k >= g, k < g + n), Select(pre.bytes(c), off(c) + k - g), If(k < g, Select(inp, k), Select(inp, k - n))), patterns=[Select(r, k)])]

    def ensures(self, pre, post, a, ret, w):
        s, c, n = a
        g, inp, inp2 = F(pre, s, "global_index"), pre.g("sin", s), post.g("sin", s)
        out = [("C09:same-position", F(post, s, "global_index") == g), ("C09:nothing-pending", F(post, s, "previous_inspect") == 0), ("C09:more-available", avail(post, s) == avail(pre, s) + n),
               ("C09:pushed-comes-first", q1(lambda k: Implies(And(g <= k, k < g + n), Select(inp2, k) == Select(pre.bytes(c), off(c) + k - g)), lambda k: Select(inp2, k), "k")),
               ("C09:then-the-rest", q1(lambda k: Implies(k >= g + n, Select(inp2, k) == Select(inp, k - n)), lambda k: Select(inp2, k), "k"))]
        return self.base(pre, post, a) + [(l, Implies(self.g(a), f)) for l, f in out]


class Look(SC):
    """a copy of the text around the position"""
    nullok = True
    slot = None
    @property
    def modifies(self): return ["F:axlStream." + self.slot, "alloc", "B", "A:ptr"]
    def frame(self, pre, a): return {"F:axlStream." + self.slot: lambda x: x == a[0]}
    def requires(self, pre, a):
        s, n = a
        old = F(pre, s, self.slot)
        return super().requires(pre, a) + [("count", And(n >= 0, n < 2 ** 29)), ("its-copy", Implies(s != 0, Or(old == 0, And(pre.alloc(old), *[old != x for x in (s,) + tuple(F(pre, s, "stream", "temp", "last_chunk"))]))))]
    def span(self, pre, a): pass
    def ensures(self, pre, post, a, ret, w):
        s, n = a
        old = F(pre, s, self.slot)
        g, first, size = self.span(pre, a)
        g = And(s != 0, g)
        row, inp = post.bytes(ret), Select(pre.m("B"), F(pre, s, "stream"))
        out = [("C09:own-copy", Implies(g, And(ret != 0, blk(ret) == ret, off(ret) == 0, ret == F(post, s, self.slot), bsize(ret) >= size + 1, Not(pre.alloc(ret)), post.m("alloc") == Store(If(old != 0, Store(pre.m("alloc"), old, False), pre.m("alloc")), ret, True)))),
               ("C09:text-there", Implies(g, q1(lambda k: Implies(And(0 <= k, k < size), Select(row, k) == Select(inp, first + k)), lambda k: Select(row, k), "k"))),
               ("C09:terminated", Implies(g, Select(row, size) == 0)), ("C09:nothing-there", Implies(Not(g), And(ret == 0, post.m("alloc") == pre.m("alloc"))))]
        return [(l, Implies(s != 0, f)) for l, f in wf_parts(post, s)] + out


@contract
class Following(Look):
    name, slot = "axl_stream_get_following", "last_get_following"
    def span(self, pre, a):
        ix, sz = F(pre, a[0], "stream_index", "stream_size")
        return ix < sz, ix, If(a[1] > sz - ix, sz - ix, a[1])


@contract
class NearTo(Look):
    name, slot = "axl_stream_get_near_to", "last_near_to"
    def span(self, pre, a):
        ix, sz = F(pre, a[0], "stream_index", "stream_size")
        first = If(ix - a[1] <= 0, 0, ix - a[1])
        return a[1] > 0, first, If(ix + a[1] >= sz - 1, sz, ix + a[1]) - first


@contract
class NewFromMemory(SC):
    name = "axl_stream_new"
    modifies = ["alloc", "B", "A:ptr", "A:i32", "G:sin", "F:axlStream.*"]
    def frame(self, pre, a): return {}
    def requires(self, pre, a):
        return [("memory", And(a[0] != 0, a[2] == 0, a[3] <= 0, If(a[1] == -1, And(is_cstr(pre, a[0]), n_(pre, a[0]) < 2 ** 30 - 1), And(a[1] < 2 ** 30 - 1, readable(pre, a[0], a[1])))))]
    def proved_case(self, pre, a): return [("from-memory", And(a[0] != 0, a[2] == 0, a[3] <= 0))]
    def n(self, pre, a): return If(a[1] == -1, n_(pre, a[0]), a[1])
    def ghost(self, pre, post, a, ret, w):
        r, k = Const("given_input", AI), FreshInt("k")
        return {"G:sin": Store(pre.m("G:sin"), ret, r)}, [ForAll([k], Select(r, k) == Select(pre.bytes(a[0]), off(a[0]) + k), patterns=[Select(r, k)])]
    def ensures(self, pre, post, a, ret, w):
        n, inp = self.n(pre, a), post.g("sin", ret)
        return wf_parts(post, ret) + [("C09:all-the-text", And(avail(post, ret) == n, F(post, ret, "global_index") == 0, q1(lambda k: Implies(And(0 <= k, k < n), Select(inp, k) == Select(pre.bytes(a[0]), off(a[0]) + k)), lambda k: Select(inp, k), "k"))),
                                      ("C09:nothing-more", exhausted(post, ret)), ("C09:new", And(ret != 0, Not(pre.alloc(ret))))]
