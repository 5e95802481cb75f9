"""Contracts of src/axl_error.c: an error object carries the code and the text it was created with."""
from z3 import *
from vc import *
from vc import ANY
from lib import is_cstr
from axl_string_spec import n_, text_at
import axl_stream_spec as S

CONTRACTS = {}
ABSTRACT = {}
MARK = -346715
E = lambda v, e, f: v.f("axlError." + f, e)


def contract(cls):
    c = cls()
    CONTRACTS[c.name] = c
    return cls


def abstract(cls):
    c = cls()
    ABSTRACT[c.name] = c
    return cls


class Printf(Contract):
    """the text printf would produce, in memory of its own"""
    trusted = True
    modifies = ["alloc", "B"]
    def ensures(self, pre, post, a, ret, w):
        return [("own-memory", And(ret != 0, Not(pre.alloc(ret)), blk(ret) == ret, off(ret) == 0, post.m("alloc") == Store(pre.m("alloc"), ret, True))), ("text", is_cstr(post, ret))]


@abstract
class StrdupPrintf(Printf): name = "axl_stream_strdup_printf"
@abstract
class StrdupPrintfv(Printf): name = "axl_stream_strdup_printfv"


def is_error(v, e):
    """an error object that reports a failure"""
    t = E(v, e, "error")
    return And(e != 0, v.alloc(e), E(v, e, "defined") == MARK, t != 0, t != e, v.alloc(t), blk(t) == t, off(t) == 0)


class C18(Contract):
    tags = ("C18",)


class Report(C18):
    modifies = ["alloc", "B", "A:ptr", "F:axlError.code", "F:axlError.error", "F:axlError.defined"]
    def cell(self, v, p): return Select(Select(v.m("A:ptr"), p), 0)
    def cell_ok(self, pre, p): return Or(p == 0, And(pre.alloc(p), blk(p) == p, off(p) == 0, bsize(p) >= 8))

    def report(self, pre, post, p, code):
        e = self.cell(post, p)
        al = post.m("alloc")
        t = E(post, e, "error")
        return [(l, Implies(p != 0, f)) for l, f in [
            ("C18:error-object-set", And(is_error(post, e), Not(pre.alloc(e)), Not(pre.alloc(t)))),
            ("C18:code-kept", E(post, e, "code") == code),
            ("C18:text", is_cstr(post, t))]]


@contract
class New(Report):
    name = "axl_error_new"
    modifies = Report.modifies + ["F:axlStream.last_near_to", "F:axlStream.last_get_following"]
    def frame(self, pre, a):
        s = a[2]
        old = [S.F(pre, s, x) for x in ("last_near_to", "last_get_following")]
        released = lambda x: And(s != 0, Or(*[x == o for o in old]))
        return {"A:ptr": lambda x: Or(And(a[3] != 0, x == a[3]), released(x)), "B": released, "F:axlStream.last_near_to": lambda x: Or(x == s, released(x)), "F:axlStream.last_get_following": lambda x: Or(x == s, released(x)),
                "F:axlError.code": released, "F:axlError.error": released, "F:axlError.defined": released}

    def requires(self, pre, a):
        code, msg, s, p = a
        ws = [(l, Or(s == 0, f)) for l, f in S.wf_parts(pre, s)]
        b, t, lc, ln, lf = S.F(pre, s, "stream", "temp", "last_chunk", "last_near_to", "last_get_following")
        for nm, x, y in (("near", ln, lf), ("following", lf, ln)):
            ws.append(("copy-" + nm, Implies(s != 0, Or(x == 0, And(pre.alloc(x), *[x != z for z in (s, b, t, lc, y, blk(msg), p)])))))
        return [("cell", self.cell_ok(pre, p)), ("message", is_cstr(pre, msg)), ("stream-apart", Implies(And(s != 0, p != 0), And(p != s, p != b, p != t, p != lc))), ("message-size", n_(pre, msg) < 2 ** 31 - 8)] + ws

    def ensures(self, pre, post, a, ret, w):
        code, msg, s, p = a
        t = E(post, self.cell(post, p), "error")
        n = n_(pre, msg)
        return self.report(pre, post, p, code) + [("C18:message-kept", Implies(And(p != 0, s == 0), And(text_at(post.bytes(t), off(t), n, pre.bytes(msg), off(msg)), Select(post.bytes(t), off(t) + n) == 0))),
                                                  ("C18:no-output-no-effect", Implies(p == 0, post.m("alloc") == pre.m("alloc")))]


@contract
class ReportF(Report):
    name = "axl_error_report"
    def frame(self, pre, a): return {"A:ptr": lambda x: And(a[0] != 0, x == a[0])}
    def requires(self, pre, a): return [("cell", self.cell_ok(pre, a[0]))]
    def ensures(self, pre, post, a, ret, w):
        return self.report(pre, post, a[0], a[1]) + [("C18:no-output-no-effect", Implies(a[0] == 0, post.m("alloc") == pre.m("alloc")))]


@contract
class WasOk(C18):
    name = "axl_error_was_ok"
    modifies = []
    def requires(self, pre, a): return [("error", Or(a[0] == 0, pre.alloc(a[0])))]
    def ensures(self, pre, post, a, ret, w): return [("C18:failure-exactly-when-reported", (ret == 0) == And(a[0] != 0, E(pre, a[0], "error") != 0, E(pre, a[0], "defined") == MARK))]


@contract
class GetCode(C18):
    name = "axl_error_get_code"
    modifies = []
    def requires(self, pre, a): return [("error", Or(a[0] == 0, pre.alloc(a[0])))]
    def ensures(self, pre, post, a, ret, w): return [("C18:code", ret == If(a[0] == 0, IntVal(-1), E(pre, a[0], "code")))]


@contract
class Get(C18):
    name = "axl_error_get"
    modifies = []
    def requires(self, pre, a): return [("error", Or(a[0] == 0, pre.alloc(a[0])))]
    def ensures(self, pre, post, a, ret, w): return [("C18:message", Implies(a[0] != 0, ret == E(pre, a[0], "error"))), ("C18:text-without-error", Implies(a[0] == 0, ret != 0))]


@contract
class Free(C18):
    name = "axl_error_free"
    modifies = ["alloc"]
    def requires(self, pre, a): return [("error", Or(a[0] == 0, is_error(pre, a[0])))]
    def ensures(self, pre, post, a, ret, w):
        e = a[0]
        t = E(pre, e, "error")
        return [("C18:released", post.m("alloc") == If(e == 0, pre.m("alloc"), Store(Store(pre.m("alloc"), t, False), e, False)))]
