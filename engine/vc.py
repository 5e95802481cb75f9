"""Verification-condition generator over LLVM IR (see DESIGN.md)."""
import sys, hashlib, time, re, os
sys.setrecursionlimit(20000)
from z3 import *
import ir as IR

INT = IntSort()
AI = ArraySort(INT, INT)
AAI = ArraySort(INT, AI)
AB = ArraySort(INT, BoolSort())

blk = Function("blk", INT, INT)
off = Function("off", INT, INT)
mkp = Function("mkp", INT, INT, INT)
bsize = Function("bsize", INT, INT)     # size in bytes of the block with that base
ro = Function("ro", INT, BoolSort())      # constant data of the program: never written
slen = Function("slen", AI, INT, INT)   # length of the NUL terminated string at an offset
ispost = Function("skolem_guard", INT, BoolSort())


class Unsupported(Exception):
    pass


class Loc:
    """an address the engine keeps symbolic: struct field, array element or local cell"""
    __slots__ = ("kind", "a", "b", "c")

    def __init__(self, kind, a, b=None, c=None):
        self.kind, self.a, self.b, self.c = kind, a, b, c

    def __repr__(self):
        return "Loc(%s,%s,%s,%s)" % (self.kind, self.a, self.b, self.c)


def is_q(e, memo={}):
    """contains a quantifier or lambda"""
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def map_sort(name):
    k = name.split(":")[0]
    if k == "F":
        return AI
    if k in ("A", "B", "S"):
        return AAI
    if name == "alloc":
        return AB
    s = GHOST_SORTS.get(name)
    if s is None:
        raise Unsupported("unknown map " + name)
    return s


GHOST_SORTS = {"G:evn": INT, "G:evf": AI, "G:eva": AI, "G:evb": AI}

# ---------------------------------------------------------------------------- states


class View:
    """read access to a memory state for specifications"""

    def __init__(self, maps, eng):
        self._m, self._e = maps, eng

    def m(self, name):
        return self._e.getmap(self._m, name)

    def f(self, name, p):
        """field: 'axlList.length'"""
        s, fl = name.split(".")
        return Select(self.m(self._e.fieldmap(s, fl)), p)

    def alloc(self, p):
        return Select(self.m("alloc"), p)

    def aptr(self, base):
        return Select(self.m("A:ptr"), base)

    def g(self, name, *idx):
        t = self.m("G:" + name)
        for i in idx:
            t = Select(t, i)
        return t

    def byte(self, p, i=0):
        return Select(Select(self.m("B"), blk(p)), off(p) + i)

    def bytes(self, p):
        return Select(self.m("B"), blk(p))


class Frame:
    __slots__ = ("fn", "env", "block", "idx", "prev", "dest", "site", "types")

    def __init__(self, fn, env, site, dest):
        self.fn, self.env, self.block, self.idx = fn, env, fn.entry, 0
        self.prev, self.dest, self.site = None, dest, site

    def copy(self):
        f = Frame(self.fn, dict(self.env), self.site, self.dest)
        f.block, f.idx, f.prev = self.block, self.idx, self.prev
        return f


class State:
    def __init__(self):
        self.maps = {}
        self.zeroed = []
        self.facts = []
        self.locals = {}
        self.frames = []
        self.active = {}     # loop key -> LoopRec
        self.valid = set()
        self.nfresh = 0
        self.trail = []
        self.unr = {}
        self.hist = []
        self.wits = []       # witnesses of the calls made so far

    def copy(self):
        s = State()
        s.maps = dict(self.maps)
        s.zeroed = list(self.zeroed)
        s.facts = list(self.facts)
        s.locals = dict(self.locals)
        s.frames = [f.copy() for f in self.frames]
        s.active = dict(self.active)
        s.valid = set(self.valid)
        s.nfresh = self.nfresh
        s.trail = list(self.trail)
        s.unr = dict(self.unr)
        s.hist = self.hist
        s.wits = self.wits
        return s


class Obl:
    __slots__ = ("fn", "label", "line", "facts", "goal", "kind", "cand", "alts", "text", "status", "solver", "time", "tags", "path", "why", "witness", "badlabels")

    def __init__(self, fn, label, line, facts, goal, kind, cand=None, alts=None, tags=None, path=()):
        self.fn, self.label, self.line, self.facts, self.goal, self.kind = fn, label, line, facts, goal, kind
        self.cand, self.alts, self.tags, self.path = cand, alts, tags, path
        self.text = None
        self.status, self.solver, self.time, self.why = None, None, 0.0, ""

    def name(self):
        return "%s/%s@%d" % (self.fn, self.label, self.line)


class LoopCtx:
    pass


class RetCtx:
    pass


# ---------------------------------------------------------------------------- contracts
class Contract:
    """Base class.  a: list of argument terms; pre/post: View; ret: term; w: dict of witnesses"""
    name = None
    tags = ()
    modifies = ()
    witness = ()
    trusted = False
    loops_extra = None

    def requires(self, pre, a):
        return []

    def proved_case(self, pre, a):
        """restricts what is proved (not what callers have to establish); reported as an assumption"""
        return []

    def ghost(self, pre, post, a, ret, w):
        """returns ({ghost map: term}, [axioms])"""
        return {}, []

    def ensures(self, pre, post, a, ret, w):
        return []

    def frame(self, pre, a):
        """map -> predicate(x) saying which x may change"""
        return {}

    def candidates(self, rc):
        """witness candidates at a return: list of dicts"""
        return [{}]

    def loops(self, lc):
        return []

    def lemmas(self):
        """[(label, facts, goal)]: the steps of the inductions behind the lemmas the specification uses"""
        return []


def q1(body_fn, pats, name="x"):
    """forall x. body(x), with explicit patterns pats(x)"""
    x = FreshInt(name)
    b = body_fn(x)
    p = pats(x) if pats else None
    if p is None:
        return ForAll([x], b)
    if not isinstance(p, (list, tuple)):
        p = [p]
    return ForAll([x], b, patterns=list(p))


def q2(body_fn, pats, names=("x", "y")):
    x, y = FreshInt(names[0]), FreshInt(names[1])
    b = body_fn(x, y)
    p = pats(x, y)
    if not isinstance(p, (list, tuple)):
        p = [p]
    return ForAll([x, y], b, patterns=list(p))


# ---------------------------------------------------------------------------- CFG
def successors(ins):
    if ins.op == "jmp":
        return [ins.args[0]]
    if ins.op == "br":
        return [ins.args[1], ins.args[2]]
    if ins.op == "switch":
        return [ins.args[1]] + [b for _, b in ins.args[2]]
    return []


def find_loops(fn):
    """header -> set of blocks in the natural loop (reducible CFGs)"""
    if getattr(fn, "_loops", None) is not None:
        return fn._loops
    succ = {b: successors(fn.blocks[b][-1]) for b in fn.order}
    preds = {b: [] for b in fn.order}
    for b in fn.order:
        for s in succ[b]:
            preds[s].append(b)
    # reachable
    reach, st = set(), [fn.entry]
    while st:
        b = st.pop()
        if b in reach:
            continue
        reach.add(b)
        st.extend(succ[b])
    dom = {b: set(reach) for b in reach}
    dom[fn.entry] = {fn.entry}
    ch = True
    order = [b for b in fn.order if b in reach]
    while ch:
        ch = False
        for b in order:
            if b == fn.entry:
                continue
            ps = [dom[p] for p in preds[b] if p in reach]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    for b in order:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in preds[x] if p in reach)
    # irreducible check: any retreating edge not to a dominator
    color = {}

    def dfs(b):
        stack = [(b, iter(succ[b]))]
        color[b] = 1
        while stack:
            x, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 1 and s not in dom[x]:
                    raise Unsupported("irreducible control flow in " + fn.name)
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[x] = 2
                stack.pop()
    dfs(fn.entry)
    fn._loops = loops
    return loops


W = {"i8": 8, "i16": 16, "i32": 32, "i64": 64}


def rng(t, x):
    w = W.get(t)
    if w is None:
        return []
    return [x >= -(1 << (w - 1)), x < (1 << (w - 1))]


def uns(t, x):
    w = W[t]
    if is_int_value(x):
        v = x.as_long()
        return IntVal(v % (1 << w))
    return If(x < 0, x + (1 << w), x)


def wrap(t, x):
    w = W[t]
    M = 1 << w
    if is_int_value(x):
        v = x.as_long() % M
        return IntVal(v - M if v >= M // 2 else v)
    return If(x >= M // 2, x - M, If(x < -(M // 2), x + M, x))


class Engine:
    def __init__(self, mod, contracts, libs=None):
        self.mod = mod
        self.contracts = contracts          # name -> Contract
        self.loopmods = {}
        self.libs = libs or {}
        self.assumptions = set()
        self.notes = {}

    # ---- maps
    def fieldmap(self, s, fl):
        sn = "struct._" + s
        if sn not in self.mod.structs:
            sn = "struct." + s
        names = self.mod.fields.get(sn)
        if names is None or fl not in names:
            raise Unsupported("no field %s.%s" % (s, fl))
        return "F:%s.%s" % (s, fl)

    def getmap(self, maps, name):
        t = maps.get(name)
        if t is None:
            t = Const(name + "!0", map_sort(name))
            z = maps.get("__zero__", ())
            if name.startswith("F:"):
                for p, k in z:
                    if k is not None and k == self.structsize(name):
                        t = Store(t, p, IntVal(0))
            elif name in ("A:ptr", "A:i32", "B") or name.startswith("S:"):
                for p, k in z:
                    t = Store(t, p, K(INT, IntVal(0)))
            maps[name] = t
        return t

    def zero(self, st, p, size):
        """calloc'ed memory reads as zero: as a struct of that size, as bytes, as a pointer array"""
        k = size.as_long() if is_int_value(size) else None
        st.maps["__zero__"] = tuple(st.maps.get("__zero__", ())) + ((p, k),)
        for name in list(st.maps):
            if name.startswith("F:"):
                if k is not None and k == self.structsize(name):
                    st.maps[name] = Store(st.maps[name], p, IntVal(0))
            elif name in ("B", "A:ptr", "A:i32") or name.startswith("S:"):
                st.maps[name] = Store(st.maps[name], p, K(INT, IntVal(0)))

    def structsize(self, fmap):
        n = fmap[2:].split(".")[0]
        for sn in ("struct._" + n, "struct." + n):
            if sn in self.mod.structs:
                return self.sizeof("%" + sn)
        return None

    def fresh(self, st, name, sort=INT):
        self.nfresh += 1
        return Const("%s!%d" % (name, self.nfresh), sort)

    # ---- values
    def strlit(self, st, g):
        key = ("lit", self.curfile(st), g)
        p = Int("lit_%s_%s" % (re.sub(r"\W", "_", self.curfile(st)), g.strip('@"')))
        if key in st.locals:
            return p
        st.locals[key] = True
        init = self.mod.globals.get((self.curfile(st), g[1:]))
        data = None
        if init:
            m = re.search(r'\[(\d+) x i8\] c"((?:[^"])*)"', init)
            if m:
                data = bytearray()
                t = m.group(2)
                i = 0
                while i < len(t):
                    if t[i:i + 2] == "\\\\":
                        data.append(92)
                        i += 2
                    elif t[i] == "\\":
                        data.append(int(t[i + 1:i + 3], 16))
                        i += 3
                    else:
                        data.append(ord(t[i]))
                        i += 1
            else:
                m = re.search(r'\[(\d+) x i8\] zeroinitializer', init)
                if m:
                    data = bytearray(int(m.group(1)))
        st.facts += [p != 0, blk(p) == p, off(p) == 0, ro(p)]
        if data is not None:
            a0 = Const("alloc!0", AB)
            B0 = Const("B!0", AAI)
            st.facts += [Select(a0, p), bsize(p) == len(data)]
            row = Select(B0, p)
            if len(data) <= 64:
                for i, c in enumerate(data):
                    st.facts.append(Select(row, i) == (c - 256 if c > 127 else c))
            if data.find(b"\0") >= 0:
                st.facts.append(slen(row, 0) == data.find(b"\0"))
            st.maps.setdefault("__lits__", ())
            st.maps["__lits__"] = tuple(st.maps["__lits__"]) + (p,)
        return p

    def curfile(self, st):
        return st.frames[-1].fn.file

    def val(self, st, t, v):
        if v[0] == "%":
            e = st.frames[-1].env
            if v not in e:
                raise Unsupported("undefined value %s in %s" % (v, st.frames[-1].fn.name))
            return e[v]
        if v == "null":
            return IntVal(0)
        if v == "true":
            return BoolVal(True)
        if v == "false":
            return BoolVal(False)
        if v in ("undef", "poison"):
            return self.fresh(st, "undef", BoolSort() if t == "i1" else INT)
        if re.match(r"^-?\d+$", v):
            return IntVal(int(v)) if t != "i1" else BoolVal(v != "0")
        if v[0] == "@":
            name = v[1:].strip('"')
            if name in self.mod.funcs or (self.curfile(st), v[1:]) not in self.mod.globals:
                p = Int("fn_" + name)
                if not any(k == ("fnp", name) for k in st.locals):
                    st.locals[("fnp", name)] = True
                    st.facts.append(p != 0)
                return p
            return self.strlit(st, v)
        m = re.match(r"getelementptr inbounds \((.*)\)$", v) or re.match(r"getelementptr \((.*)\)$", v)
        if m:
            parts = IR._split_top(m.group(1))
            ins = IR.Instr("getelementptr", None, parts[0], tuple(IR._typed(x) for x in parts[1:]))
            return self.gep(st, ins)
        m = re.match(r"inttoptr \((i\d+) (-?\d+) to ptr\)$", v)
        if m:
            return IntVal(int(m.group(2)))
        raise Unsupported("operand " + v)

    def toint(self, st, v):
        """pointer value as an Int term"""
        if isinstance(v, Loc):
            if v.kind == "field":
                f = Function("addr_" + v.a, INT, INT)
                t = f(v.b)
                st.facts.append(t != 0)
                return t
            if v.kind == "elem":
                if is_int_value(v.c) and v.c.as_long() == 0:
                    return v.b
                f = Function("elemaddr_" + v.a, INT, INT, INT)
                t = f(v.b, v.c)
                return t
            if v.kind == "local":
                t = Int("stack_" + str(v.a))
                st.facts.append(t != 0)
                return t
            if v.kind == "selt" and is_int_value(v.c) and v.c.as_long() == 0:
                return v.b
            raise Unsupported("address as value %s" % v)
        return v

    def padd(self, st, p, i):
        i = simplify(i)
        if is_int_value(i) and i.as_long() == 0:
            return p
        b, o = self.split(st, p)
        o2 = simplify(o + i)
        t = mkp(b, o2)
        k = ("mkp", t.get_id())
        if k not in st.valid:
            st.valid.add(k)
            st.keep = getattr(st, "keep", [])
            st.facts += [blk(t) == b, off(t) == o2]
            if not is_int_value(p):
                st.facts.append(t != 0)
        return t

    def split(self, st, p):
        if is_app(p) and p.decl().eq(mkp):
            return p.arg(0), p.arg(1)
        return blk(p), off(p)

    # ---- geps
    def sizeof(self, t):
        if t == "ptr" or t == "i64" or t == "double":
            return 8
        if t in ("i32", "float"):
            return 4
        if t == "i16":
            return 2
        if t in ("i8", "i1"):
            return 1
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        if m:
            return int(m.group(1)) * self.sizeof(m.group(2))
        if t.startswith("%"):
            o = 0
            al = 1
            for f in self.mod.structs[t[1:]]:
                s = self.sizeof(f)
                a = self.alignof(f)
                al = max(al, a)
                o = (o + a - 1) // a * a + s
            return (o + al - 1) // al * al
        raise Unsupported("sizeof " + t)

    def alignof(self, t):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        if m:
            return self.alignof(m.group(2))
        if t.startswith("%"):
            return max([self.alignof(f) for f in self.mod.structs[t[1:]]] or [1])
        return min(self.sizeof(t), 8)

    def gep(self, st, ins):
        t = ins.ty
        base = self.val(st, *ins.args[0])
        idx = [self.val(st, *a) for a in ins.args[1:]]

        def zero(x):
            return is_int_value(x) and x.as_long() == 0
        if t == "i8":
            if isinstance(base, Loc):
                if zero(idx[0]):
                    return base
                if base.kind == "local":
                    raise Unsupported("pointer arithmetic on a local array")
                base = self.toint(st, base)
            return self.padd(st, base, idx[0])
        if t.startswith("%"):
            sn = t[1:]
            short = sn.replace("struct._", "").replace("struct.", "")
            if short in STRUCT_ARRAYS:
                # records stored in arrays: one map per field, array -> index -> value
                if isinstance(base, Loc):
                    if base.kind != "selt":
                        raise Unsupported("array of records reached through %s" % base.kind)
                    e = Loc("selt", short, base.b, simplify(base.c + idx[0]))
                else:
                    e = Loc("selt", short, base, idx[0])
                if len(idx) == 1:
                    return e
                if len(idx) > 2:
                    raise Unsupported("nested gep")
                k = idx[1].as_long()
                m = re.match(r"\[(\d+) x (.*)\]$", self.mod.structs[sn][k])
                n = int(m.group(1)) if m else 1
                return Loc("sfield", "%s.%s" % (short, self.mod.fields[sn][k]), (e.b, e.c, self.sizeof(t), n), IntVal(0))
            if not zero(idx[0]):
                if len(idx) == 1:
                    b = self.toint(st, base)
                    f = Function("elt_" + short, INT, INT, INT)
                    return f(b, idx[0])
                raise Unsupported("struct array gep")
            if len(idx) == 1:
                return base
            k = idx[1].as_long()
            names = self.mod.fields.get(sn)
            fl = names[k] if names and k < len(names) else "f%d" % k
            if isinstance(base, Loc):
                if base.kind == "local":
                    l = Loc("local", (base.a, fl))
                    st.locals.setdefault((base.a, fl), None)
                    return l
                if base.kind == "elem" and base.a.startswith("%"):
                    raise Unsupported("struct array element")
                base = self.toint(st, base)
            if len(idx) > 2:
                raise Unsupported("nested gep")
            return Loc("field", "%s.%s" % (short, fl), base)
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        if m:
            if isinstance(base, Loc) and base.kind == "sfield" and zero(idx[0]) and len(idx) == 2:
                return Loc("sfield", base.a, base.b, simplify(base.c + idx[1]))
            if isinstance(base, Loc) and base.kind == "local":
                if len(idx) == 2 and is_int_value(idx[1]):
                    l = Loc("local", (base.a, idx[1].as_long()))
                    st.locals.setdefault(l.a, None)
                    return l
                raise Unsupported("local array")
            if zero(idx[0]) and len(idx) == 2:
                if m.group(2) == "i8" and not isinstance(base, Loc):
                    return self.padd(st, base, idx[1])
                if not isinstance(base, Loc):
                    return Loc("elem", m.group(2), base, idx[1])
            raise Unsupported("array gep")
        if t in ("ptr", "i32", "i64", "i16"):
            if isinstance(base, Loc):
                if base.kind == "elem" and base.a == t:
                    return Loc("elem", t, base.b, simplify(base.c + idx[0]))
                if zero(idx[0]):
                    return base
                base = self.toint(st, base)
            if is_app(base) and base.decl().name() == "elemaddr_" + t:
                return Loc("elem", t, base.arg(0), simplify(base.arg(1) + idx[0]))
            return Loc("elem", t, base, idx[0])
        raise Unsupported("gep " + t)

    # ---- memory
    def addr(self, st, t, p):
        """normalise an address for an access of type t"""
        if isinstance(p, Loc):
            return p
        if t == "i8":
            return Loc("byte", None, p)
        if is_app(p) and p.decl().name() == "elemaddr_" + t:
            return Loc("elem", t, p.arg(0), p.arg(1))
        return Loc("elem", t, p, IntVal(0))

    def check_valid(self, st, l, line, t):
        al = self.getmap(st.maps, "alloc")
        if l.kind == "field":
            key = ("v", l.b.get_id(), al.get_id())
            g = Select(al, l.b)
        elif l.kind == "elem":
            sz = {"ptr": 8, "i64": 8, "i32": 4, "i16": 2}[l.a]
            key = ("e", l.b.get_id(), l.c.get_id(), al.get_id())
            g = And(Select(al, l.b), l.c >= 0, sz * l.c + sz <= bsize(l.b))
        elif l.kind == "sfield":
            b, i, sz, n = l.b
            key = ("s", b.get_id(), i.get_id(), l.c.get_id(), n, al.get_id())
            g = And(Select(al, b), i >= 0, sz * i + sz <= bsize(b), l.c >= 0, l.c < n)
            self.pin(b, i, l.c)
        elif l.kind == "byte":
            b, o = self.split(st, l.b)
            key = ("b", l.b.get_id(), al.get_id())
            g = And(Select(al, b), o >= 0, o < bsize(b))
        else:
            return
        self.pin(l, al)
        if key in st.valid:
            return
        st.valid.add(key)
        self.oblige(st, "valid-access:%s" % (l.a if l.kind == "field" else l.kind), g, line, "safety")
        st.facts.append(g)

    def pin(self, *xs):
        self.pins.append(xs)

    def load(self, st, t, p, line):
        l = self.addr(st, t, p)
        if l.kind == "local":
            v = st.locals.get(l.a)
            if v is None:
                v = self.fresh(st, "uninit", BoolSort() if t == "i1" else INT)
                st.locals[l.a] = v
                if t in W:
                    st.facts += rng(t, v)
            return v
        self.check_valid(st, l, line, t)
        if l.kind == "field":
            name = "F:" + l.a
            v = Select(self.getmap(st.maps, name), l.b)
            v = simplify_select(v)
            self.prov[v.get_id()] = l.a
        elif l.kind == "elem":
            if is_app(l.b) and l.b.decl().name().startswith("addr_") and is_int_value(l.c):
                fl = l.b.decl().name()[5:]
                return Select(self.getmap(st.maps, "F:" + fl), l.b.arg(0))
            v = Select(Select(self.getmap(st.maps, "A:" + l.a), l.b), l.c)
            v = simplify_select(v)
        elif l.kind == "sfield":
            b, i, sz, n = l.b
            v = Select(Select(self.getmap(st.maps, "S:" + l.a), b), simplify(i * n + l.c))
        else:
            b, o = self.split(st, l.b)
            v = Select(Select(self.getmap(st.maps, "B"), b), o)
            v = simplify_select(v)
        self.pin(v)
        if t in W and t != "i64":
            st.facts += rng(t, v)
        return v

    def store(self, st, t, v, p, line):
        l = self.addr(st, t, p)
        if isinstance(v, Loc) and l.kind != "local":
            v = self.toint(st, v)
        if l.kind == "local":
            st.locals[l.a] = v
            return
        self.check_valid(st, l, line, t)
        if t == "i1":
            v = If(v, 1, 0)
        if l.kind == "field":
            name = "F:" + l.a
            st.maps[name] = Store(self.getmap(st.maps, name), l.b, v)
        elif l.kind == "elem":
            if is_app(l.b) and l.b.decl().name().startswith("addr_") and is_int_value(l.c):
                name = "F:" + l.b.decl().name()[5:]
                st.maps[name] = Store(self.getmap(st.maps, name), l.b.arg(0), v)
                return
            name = "A:" + l.a
            m = self.getmap(st.maps, name)
            st.maps[name] = Store(m, l.b, Store(Select(m, l.b), l.c, v))
        elif l.kind == "sfield":
            b, i, sz, n = l.b
            name = "S:" + l.a
            m = self.getmap(st.maps, name)
            row = m.arg(2) if is_app(m) and m.decl().kind() == Z3_OP_STORE and m.arg(1).eq(b) else Select(m, b)
            st.maps[name] = Store(m.arg(0) if row is not None and is_app(m) and m.decl().kind() == Z3_OP_STORE and m.arg(1).eq(b) else m, b, Store(row, simplify(i * n + l.c), v))
        else:
            b, o = self.split(st, l.b)
            m = self.getmap(st.maps, "B")
            st.maps["B"] = Store(m, b, Store(Select(m, b), o, v))

    # ---- obligations
    def oblige(self, st, label, goal, line, kind="post", cand=None, alts=None, tags=None):
        if alts is None:
            g = simplify(goal)
            if is_true(g) and cand is None:
                self.trivial += 1
                return
        self.obls.append(Obl(self.cur, label, line, tuple(st.facts), goal, kind, cand, alts, tags, tuple(st.trail)))

    def feasible(self, st):
        s = SolverFor("ALL") if False else Solver()
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("timeout", 400)
        s.add(*self.background)
        s.add(*st.facts)
        self.nfeas += 1
        return s.check() != unsat

    # ---- executing
    inv_only = False

    def verify(self, fname, removed):
        """one symbolic pass; returns obligations.  removed: loopid -> set of labels"""
        fn = self.mod.funcs.get(fname)
        if fn is None:
            raise Unsupported("function %s not found" % fname)
        con = self.contracts[fname]
        self.cur = fname
        self.obls = []
        self.pins = []
        self.prov = {}
        self.removed = removed
        self.loopcands = {}
        self.nfresh = 0
        self.localty = {}
        self.trivial = 0
        self.nfeas = 0
        self.npaths = 0
        self.dead = []
        self.covers = []
        self.rets = 0
        self.inlined = set()
        a0 = Const("alloc!0", AB)
        self.background = [Not(Select(a0, 0)), blk(0) == 0, off(0) == 0] + BACKGROUND
        st = State()
        fr = Frame(fn, {}, (fname,), None)
        args = []
        for i, (t, v) in enumerate(fn.params):
            c = Int("arg%d" % i) if t != "i1" else Bool("arg%d" % i)
            fr.env[v] = c
            args.append(c)
            st.facts += rng(t, c)
            self.prov[c.get_id()] = "arg:%s.%d" % (fname, i)
        st.frames.append(fr)
        self.args0 = args
        self.pre = View(st.maps, self)     # shares the lazily created initial constants
        self.initmaps = {}
        self.pre = View(self.initmaps, self)
        for lab, f in norm(con.requires(self.pre, args)):
            st.facts.append(f)
        for lab, f in norm(con.proved_case(self.pre, args)):
            st.facts.append(f)
            self.assumptions.add("%s is proved in the case: %s; the other case is assumed by its callers and covered by bounded cases only" % (fname, lab))
        st.maps = dict(self.initmaps)
        self.con = con
        self.cover(st, "precondition")
        work = [st]
        t0 = time.time()
        while work:
            s = work.pop()
            if self.npaths > 4000:
                raise Unsupported("too many paths in " + fname)
            nxt = self.run(s)
            work.extend(nxt)
        return self.obls

    def cover(self, st, label):
        self.covers.append((self.cur, label, tuple(st.facts)))

    def run(self, st):
        """execute until the path ends or forks; returns successor states"""
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            op = ins.op
            if op == "phi":
                raise Unsupported("stray phi")
            if op in ("jmp",):
                r = self.goto(st, ins.args[0], ins.line)
                if not r:
                    self.npaths += 1
                    return []
                continue
            if op == "br":
                c = self.val(st, "i1", ins.args[0])
                return self.fork(st, [(c, ins.args[1]), (Not(c), ins.args[2])], ins.line)
            if op == "switch":
                v = self.val(st, ins.ty, ins.args[0])
                alts = [(v == k, b) for k, b in ins.args[2]]
                alts.append((And([v != k for k, _ in ins.args[2]]) if ins.args[2] else BoolVal(True), ins.args[1]))
                return self.fork(st, alts, ins.line)
            if op == "ret":
                v = self.val(st, ins.ty, ins.args[0]) if ins.args else None
                if len(st.frames) == 1:
                    self.npaths += 1
                    self.do_return(st, v, ins.line)
                    return []
                st.frames.pop()
                st.hist = st.hist + [(self.tyof(fr.fn, nm), x) for nm, x in fr.env.items() if not isinstance(x, Loc) and x is not None and not is_bool(x)]
                # loops of the popped frame are over
                d = len(st.frames)
                for k in [k for k in st.active if len(k[0]) > d]:
                    del st.active[k]
                if fr.dest:
                    st.frames[-1].env[fr.dest] = v
                continue
            if op == "unreachable":
                self.npaths += 1
                return []
            if op == "unsupported":
                raise Unsupported(ins.x)
            r = self.simple(st, ins)
            if isinstance(r, list):
                return r
            fr = st.frames[-1]

    def fork(self, st, alts, line):
        outs = []
        cands = []
        nofeas = 0
        for c, b in alts:
            c = simplify(c)
            if is_false(c):
                continue
            cands.append((c, b))
        for n, (c, b) in enumerate(cands):
            s = st.copy() if n < len(cands) - 1 else st
            if not is_true(c):
                s.facts.append(c)
                s.trail.append(line)
                if len(cands) > 1 and not self.feasible(s):
                    nofeas += 1
                    continue
            r = self.goto(s, b, line)
            if r:
                outs.append(s)
            else:
                self.npaths += 1
        if cands and not outs and nofeas == len(cands):
            self.dead.append(line)
        return outs[::-1]

    def goto(self, st, target, line):
        """jump within the current frame; False if the path ends here (back edge)"""
        fr = st.frames[-1]
        fn = fr.fn
        loops = find_loops(fn)
        # leave loops that do not contain the target
        for k in [k for k in st.active if k[0] == fr.site and target not in loops[k[1]]]:
            del st.active[k]
        # evaluate phis
        newv = []
        n = 0
        for ins in fn.blocks[target]:
            if ins.op != "phi":
                break
            n += 1
            for v, b in ins.args:
                if b == fr.block:
                    newv.append((ins.dest, ins.ty, self.val(st, ins.ty, v)))
                    break
            else:
                raise Unsupported("phi without predecessor")
        prevblock = fr.block
        fr.prev, fr.block, fr.idx = prevblock, target, n
        if target in loops:
            key = (fr.site, target)
            if key in st.active:
                self.back_edge(st, key, newv, line)
                return False
            if self.unroll(st, key, newv):
                for d, t, v in newv:
                    fr.env[d] = v
                return True
            self.enter_loop(st, key, loops[target], newv, line)
            return True
        for d, t, v in newv:
            fr.env[d] = v
        return True

    def unroll(self, st, key, newv):
        """a loop whose next branch is decided by constants is followed exactly instead of being cut"""
        n = st.unr.get(key, 0)
        if n > 20:
            return False
        c = st.copy()
        fr = c.frames[-1]
        for d, t, v in newv:
            fr.env[d] = v
        save = self.obls, self.trivial
        self.obls = []
        ok = False
        try:
            blkk = fr.fn.blocks[fr.block]
            depth = len(c.frames)
            while True:
                ins = blkk[fr.idx]
                if ins.op == "br":
                    cond = simplify(self.val(c, "i1", ins.args[0]))
                    body = find_loops(fr.fn)[key[1]]
                    ok = (is_true(cond) or is_false(cond)) and (ins.args[1] not in body or ins.args[2] not in body)
                    break
                if ins.op in ("jmp", "switch", "ret", "unreachable", "call", "phi"):
                    break
                self.simple(c, ins)
        except Unsupported:
            ok = False
        self.obls, self.trivial = save
        if ok:
            st.unr = dict(st.unr)
            st.unr[key] = n + 1
        return ok

    def loopctx(self, st, key, phis, entry):
        lc = LoopCtx()
        lc.eng, lc.st, lc.key = self, st, key
        lc.phis = phis                     # list of (type, term, entryterm)
        lc.post = View(dict(st.maps), self)
        lc.pre = self.pre
        lc.mods = self.loopmods.get(key, ())
        lc.entry = entry
        lc.args = self.args0
        lc.fn = self.cur
        fr = st.frames[-1]
        inv = {}
        scope = []
        for f in st.frames:
            for name, v in f.env.items():
                if isinstance(v, Loc) or v is None or (name in self.havocnames.get(key, ()) and f is fr):
                    continue
                if is_int_value(v) or is_bool(v):
                    continue
                if v.get_id() in inv:
                    continue
                inv[v.get_id()] = True
                ty = self.tyof(f.fn, name)
                scope.append((ty, v))
        lc.scope = scope
        lc.ints = [v for t, v in scope if t in ("i32", "i64")]
        have = set(v.get_id() for v in lc.ints)
        if hasattr(self.con, "extra_ints"):
            for v in self.con.extra_ints(self.pre, self.args0):
                if v.get_id() not in have:
                    lc.ints.append(v)
                    self.pin(v)
        lc.ptrs = [v for t, v in scope if t == "ptr"]
        return lc

    def tyof(self, fn, name):
        c = getattr(fn, "_types", None)
        if c is None:
            c = {}
            for t, v in fn.params:
                c[v] = t
            for b in fn.order:
                for i in fn.blocks[b]:
                    if i.dest:
                        if i.op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr"):
                            c[i.dest] = i.x
                        elif i.op == "icmp":
                            c[i.dest] = "i1"
                        elif i.op == "getelementptr" or i.op == "alloca":
                            c[i.dest] = "ptr"
                        else:
                            c[i.dest] = i.ty
            fn._types = c
        return c.get(name)

    def enter_loop(self, st, key, body, newv, line):
        fr = st.frames[-1]
        mods, loc = self.modset(fr.fn, body, st)
        mods = set(mods) | set(getattr(self.con, "loop_ghost_maps", lambda m: ())(mods))
        # names defined in the loop are stale once we are inside
        hav = set(d for d, _, _ in newv)
        for b in body:
            for i in fr.fn.blocks[b]:
                if i.dest:
                    hav.add(i.dest)
        if not hasattr(self, "havocnames"):
            self.havocnames = {}
        self.havocnames[key] = hav
        for d in hav:
            fr.env.pop(d, None)
        entry = View(dict(st.maps), self)
        lockeys = [k for k in st.locals if self.local_hit(k, loc, fr)]
        for m in mods:
            self.getmap(st.maps, m)
        self.name_maps(st.maps, st.facts)
        entry = View(dict(st.maps), self)
        self.loopmods[key] = set(mods)
        # entry check
        ph_entry = []
        for d, t, v in newv:
            if isinstance(v, Loc):
                v = self.toint(st, v)
            ph_entry.append((d, t, v))
        for k in lockeys:
            v = st.locals[k]
            if v is None or isinstance(v, Loc):
                continue
            ph_entry.append((("local", k), "i32", v))
        # cursors over pointer arrays: (base, index) phis
        for d, t, v in ph_entry:
            if not isinstance(d, tuple):
                fr.env[d] = v
        phis = [(t, v, v) for d, t, v in ph_entry]
        lc = self.loopctx(st, key, phis, entry)
        if hasattr(self.con, "loop_ghost"):      # ghost assignments at the loop entry
            upd, ax = self.con.loop_ghost(lc, None)
            if upd:
                st.maps.update(upd)
                st.facts += ax
                self.name_maps(st.maps, st.facts)
                mods = set(mods) | set(upd)
                lc = self.loopctx(st, key, phis, entry)
        cands = self.cands(lc, key)
        rm = self.removed.setdefault(key, set())
        for lab, f in cands:
            if lab in rm:
                continue
            self.oblige(st, "invariant-init[%s]" % lab, f, line, "inv", cand=(key, lab))
        # havoc
        terms = []
        for d, t, v in ph_entry:
            if t == "i1":
                c = self.fresh(st, "phi", BoolSort())
            else:
                c = self.fresh(st, "phi")
            if is_app(v) and v.decl().name().startswith("elemaddr_"):
                # array cursor: keep the base, havoc the index
                c = v.decl()(v.arg(0), c)
            if isinstance(d, tuple):
                st.locals[d[1]] = c
            else:
                fr.env[d] = c
                self.prov[c.get_id()] = None
                self.pin(c)
                st.facts += rng(t, c) if t != "i1" else []
            terms.append((t, c, v))
        for m in mods:
            self.getmap(st.maps, m)
            st.maps[m] = Const("%s!L%d" % (m, self.bump()), map_sort(m))
        st.valid = set()
        lc = self.loopctx(st, key, terms, entry)
        for lab, f in self.cands(lc, key):
            if lab in rm:
                continue
            st.facts.append(f)
        st.active[key] = (terms, entry, [d for d, _, _ in ph_entry], [v for _, v, _ in terms], lc)
        self.loopcands.setdefault(key, set()).update(l for l, _ in cands)

    def local_hit(self, k, loc, fr):
        if not isinstance(k, tuple) or (k and k[0] in ("lit", "fnp")):
            return False
        if "*" in loc:
            return True
        root = k
        while isinstance(root[0], tuple) and root[0] and isinstance(root[0][-1], str) and root[0][-1].startswith("%") and isinstance(root[0][0], tuple):
            root = root[0]
        return root[0] == fr.site and root[1] in loc

    def name_maps(self, maps, facts):
        """give every composite map a constant name, so that patterns and e-matching see constants"""
        for k in list(maps):
            if k.startswith("__"):
                continue
            t = maps[k]
            if t.num_args() > 0:
                c = Const("%s!n%d" % (k, self.bump()), t.sort())
                facts.append(c == t)
                maps[k] = c

    def bump(self):
        self.nfresh += 1
        return self.nfresh

    def back_edge(self, st, key, newv, line):
        terms, entry, names, hv, lc0 = st.active[key]
        vals = {}
        for d, t, v in newv:
            vals[d] = self.toint(st, v) if isinstance(v, Loc) else v
        cur = []
        fr = st.frames[-1]
        for (t, c, ev), d in zip(terms, names):
            if isinstance(d, tuple):
                v = st.locals[d[1]]
            else:
                v = vals[d]
                fr.env[d] = v
            cur.append((t, v, ev))
        save = {}
        for d in self.havocnames[key]:
            if d in fr.env and d not in vals:
                save[d] = fr.env.pop(d)
        self.name_maps(st.maps, st.facts)
        lc = self.loopctx(st, key, cur, entry)
        if hasattr(self.con, "loop_ghost"):      # ghost assignments at the end of an iteration
            upd, ax = self.con.loop_ghost(lc, lc0)
            if upd:
                st.maps.update(upd)
                st.facts += ax
                self.name_maps(st.maps, st.facts)
                lc = self.loopctx(st, key, cur, entry)
        rm = self.removed.setdefault(key, set())
        for lab, f in self.cands(lc, key):
            if lab in rm:
                continue
            self.oblige(st, "invariant-step[%s]" % lab, f, line, "inv", cand=(key, lab))
        # termination: some candidate variant decreases and is bounded below
        if getattr(self.con, "terminates", True):
            v0 = self.variants(lc0)
            v1 = self.variants(lc)
            alts = []
            for (l, x), (_, y) in zip(v0, v1):
                alts.append((l, [(l, And(x >= 0, y < x))]))
            self.varobl.append((key, st, line, alts)) if False else None
            self.oblige(st, "loop-variant", None, line, "variant", alts=alts, cand=(key, "#variant"))

    def variants(self, lc):
        out = []
        seen = set()
        for i, (t, v, e) in enumerate(lc.phis):
            if t in ("i32", "i64", "i8"):
                out.append(("dec%d" % i, v))
                for j, b in enumerate(lc.ints):
                    out.append(("inc%d.%d" % (i, j), b - v))
            elif t == "ptr":
                out.append(("poff%d" % i, bsize(blk(v)) - off(v)))
                if is_app(v) and v.decl().name().startswith("elemaddr_"):
                    out.append(("eoff%d" % i, bsize(v.arg(0)) - v.arg(1)))
        for lab, x in (self.con.variants(lc) if hasattr(self.con, "variants") else []):
            out.append((lab, x))
        return out

    def cands(self, lc, key):
        out = []
        # generic numeric candidates
        for i, (t, v, e) in enumerate(lc.phis):
            if t in ("i32", "i64", "i8"):
                out.append(("nonneg%d" % i, v >= 0))
                out.append(("geentry%d" % i, v >= e))
                out.append(("leentry%d" % i, v <= e))
                for j, b in enumerate(lc.ints):
                    if len(lc.ints) <= 14:
                        out.append(("le%d.%d" % (i, j), v <= b))
                        out.append(("lt%d.%d" % (i, j), v < b))
                        out.append(("notpassed%d.%d" % (i, j), Or(b < e, b >= v)))
                        out.append(("rnotpassed%d.%d" % (i, j), Or(b > e, b <= v)))
                for j, (t2, v2, e2) in enumerate(lc.phis):
                    if j != i and t2 in ("i32", "i64", "i8"):
                        if j > i:
                            out.append(("samediff%d.%d" % (i, j), v - v2 == e - e2))
                        out.append(("lephi%d.%d" % (i, j), v <= v2))
            if t == "ptr":
                out.append(("nn%d" % i, v != 0))
                out.append(("const%d" % i, v == e))
        for m, t in lc.post._m.items():
            if m.startswith("__"):
                continue
            e = lc.entry._m.get(m)
            if e is not None and not e.eq(t):
                out.append(("same:" + m, t == e))
                if m != "alloc" and is_array(t) and not m.startswith("G:"):
                    al = lc.pre.m("alloc")
                    x = FreshInt("fx")
                    out.append(("old:" + m, ForAll([x], Implies(Select(al, x), Select(t, x) == Select(e, x)), patterns=[Select(t, x)])))
                    fr = self.con.frame(lc.pre, lc.args)
                    if m in fr and fr[m] is not ANY:
                        out.append(("frame:" + m, ForAll([x], Implies(And(Select(al, x), Not(fr[m](x))), Select(t, x) == Select(lc.pre.m(m), x)), patterns=[Select(t, x)])))
        if "alloc" in lc.post._m and not lc.post._m["alloc"].eq(lc.entry.m("alloc")):
            out.append(("alloc0", Not(Select(lc.post.m("alloc"), 0))))
        out += norm(self.con.loops(lc))
        if self.con.loops_extra:
            out += norm(self.con.loops_extra(lc))
        return out

    def modset(self, fn, body, st, depth=0):
        maps, locs = set(), set()
        for b in body:
            for i in fn.blocks[b]:
                self.modins(fn, i, maps, locs, st, depth)
        return sorted(maps), locs

    def modins(self, fn, i, maps, locs, st, depth):
        if i.op == "store":
            d = self.defof(fn, i.args[1])
            if d is not None and d.op == "getelementptr":
                if d.ty == "i8":
                    maps.add("B")
                    return
                if d.ty.startswith("%") and d.ty[1:].replace("struct._", "").replace("struct.", "") in STRUCT_ARRAYS:
                    for fl in self.mod.fields[d.ty[1:]]:
                        maps.add("S:%s.%s" % (d.ty[1:].replace("struct._", "").replace("struct.", ""), fl))
                    return
                if d.ty.startswith("%") and len(d.args) == 3:
                    sn = d.ty[1:]
                    k = int(d.args[2][1])
                    names = self.mod.fields.get(sn)
                    base = self.defof(fn, d.args[0][1])
                    if base is not None and base.op == "alloca":
                        locs.add(base.dest if depth == 0 else "*")
                        return
                    maps.add("F:%s.%s" % (sn.replace("struct._", "").replace("struct.", ""), names[k]))
                    return
                if d.ty in ("ptr", "i32", "i64", "i16"):
                    maps.add("A:" + d.ty)
                    return
            if d is not None and d.op == "alloca":
                if depth == 0:
                    locs.add(d.dest)
                return
            if i.ty == "i8":
                maps.add("B")
            elif i.ty in ("ptr", "i32", "i64", "i16"):
                # through a plain pointer: an element, a local cell or a field whose address was taken
                maps.add("A:" + i.ty)
                locs.add("*")
                for m in self.addr_fields(i.ty):
                    maps.add(m)
            else:
                raise Unsupported("store of " + i.ty)
            return
        if i.op != "call":
            return
        cal = i.x
        if cal.startswith("@"):
            n = cal[1:].strip('"')
            if n in self.contracts:
                for m in self.contracts[n].modifies:
                    maps.add(m)
                # out parameters through local cells
                for t, v in i.args:
                    if t == "ptr":
                        d = self.defof(fn, v)
                        if d is not None and d.op == "alloca" and depth == 0:
                            locs.add(d.dest)
                return
            lib = self.libs.get(n)
            if lib is not None:
                for m in lib.modifies:
                    maps.add(m)
                return
            f = self.mod.funcs.get(n)
            if f is None or depth > 6:
                raise Unsupported("call to unknown function " + n)
            for b in f.order:
                for j in f.blocks[b]:
                    self.modins(f, j, maps, locs, st, depth + 1)
            return
        # indirect: callbacks only touch the ghost trace, and only void ones do
        maps.update(getattr(self.con, "callback_modifies", CALLBACK_MODIFIES if i.ty == "void" else ()))

    def addr_fields(self, ty):
        return []

    def defof(self, fn, v):
        c = getattr(fn, "_defs", None)
        if c is None:
            c = {}
            for b in fn.order:
                for i in fn.blocks[b]:
                    if i.dest:
                        c[i.dest] = i
            fn._defs = c
        return c.get(v)

    # ---- return
    def do_return(self, st, v, line):
        con = self.con
        self.name_maps(st.maps, st.facts)
        rc = RetCtx()
        rc.st, rc.eng, rc.args, rc.pre = st, self, self.args0, self.pre
        rc.post = View(st.maps, self)
        rc.ret = self.toint(st, v) if isinstance(v, Loc) else v
        rc.ptrs, rc.ints, rc.wits = [], [], st.wits
        seen = set()
        for f in st.frames:
            for name, x in f.env.items():
                if isinstance(x, Loc) or x is None or is_bool(x) or x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                ty = self.tyof(f.fn, name)
                (rc.ptrs if ty == "ptr" else rc.ints).append(x)
        for ty, x in st.hist:
            if x.get_id() not in seen and not is_int_value(x):
                seen.add(x.get_id())
                (rc.ptrs if ty == "ptr" else rc.ints).append(x)
        self.rets += 1
        self.cover(st, "return@%d" % line)
        if self.inv_only:
            return
        cl = con.candidates(rc)
        post_maps0 = dict(st.maps)
        alts = []
        variants = []
        for w in cl:
            maps = dict(post_maps0)
            pv = View(maps, self)
            if hasattr(con, "ghost_ret"):     # ghost assignments made by the function itself; callers only see the contract
                upd, ax = con.ghost_ret(self.pre, pv, self.args0, rc.ret, w)
                variants.append((w, upd, ax))
                continue
            upd, ax = con.ghost(self.pre, pv, self.args0, rc.ret, w)
            if any(k in post_maps0 and not post_maps0[k].eq(self.pre.m(k)) for k in upd):
                # a callee's contract already moved the ghost state: take it as it is
                variants.append((w, {}, []))
            else:
                variants.append((w, upd, ax))
        def build(w, upd, ax):
            maps = dict(post_maps0)
            pv = View(maps, self)
            for k, t in upd.items():
                maps[k] = t
            ax = list(ax)
            self.name_maps(maps, ax)
            ens = norm(con.ensures(self.pre, pv, self.args0, rc.ret, w))
            return ax, ens, maps

        def lazy(w, upd, ax):
            def f():
                ax2, ens, maps = build(w, upd, ax)
                # frames of ghost maps depend on the witness
                ens = ens + [(l, g) for l, g in self.frame_obls(con, self.pre, maps) if l.startswith("frame:G:")]
                return [(l, Implies(And(ax2), f) if ax2 else f) for l, f in ens]
            return f
        ax, ens, maps = build(*variants[0])
        fr_obs = self.frame_obls(con, self.pre, maps)
        if len(variants) > 1:
            fr_obs = [(l, g) for l, g in fr_obs if not l.startswith("frame:G:")]
        if len(variants) == 1:
            st.facts += ax
            for lab, f in ens:
                self.oblige(st, lab, f, line, "post")
        else:
            al = [("w%d" % n, lazy(*v)) for n, v in enumerate(variants)]
            self.oblige(st, "postcondition(witnessed)", None, line, "post", alts=al)
        for lab, f in fr_obs:
            self.oblige(st, lab, f, line, "frame")

    def frame_obls(self, con, pre, maps):
        out = []
        fr = con.frame(pre, self.args0)
        for m, t in sorted(maps.items(), key=lambda kv: kv[0]):
            if m.startswith("__"):
                continue
            if m.startswith("G:") and m not in fr:
                continue
            t0 = pre.m(m)
            if t0.eq(t):
                continue
            if m == "alloc":
                continue
            if m in fr and fr[m] is ANY:
                continue
            if m not in fr and m in con.modifies:
                # listed without a predicate: anything allocated keeps its value
                pass
            allowed = fr.get(m, lambda x: BoolVal(False))
            x = FreshInt("frx")
            out.append(("frame:" + m, Implies(And(Select(pre.m("alloc"), x), Not(allowed(x))), Select(t, x) == Select(t0, x))))
        return out

    # ---- instructions
    def simple(self, st, ins):
        fr = st.frames[-1]
        env = fr.env
        op = ins.op
        fr.idx += 1
        if op == "alloca":
            l = Loc("local", (fr.site, ins.dest))
            st.locals.setdefault(l.a, None)
            self.localty[l.a] = ins.ty
            env[ins.dest] = l
            return
        if op == "load":
            env[ins.dest] = self.load(st, ins.ty, self.val(st, "ptr", ins.args[0]), ins.line)
            return
        if op == "store":
            self.store(st, ins.ty, self.val(st, ins.ty, ins.args[0]), self.val(st, "ptr", ins.args[1]), ins.line)
            return
        if op == "getelementptr":
            env[ins.dest] = self.gep(st, ins)
            return
        if op == "icmp":
            a = self.val(st, ins.ty, ins.args[0])
            b = self.val(st, ins.ty, ins.args[1])
            if isinstance(a, Loc):
                a = self.toint(st, a)
            if isinstance(b, Loc):
                b = self.toint(st, b)
            env[ins.dest] = self.icmp(st, ins.x, ins.ty, a, b)
            return
        if op in ("add", "sub", "mul", "shl", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "lshr", "ashr"):
            a = self.val(st, ins.ty, ins.args[0])
            b = self.val(st, ins.ty, ins.args[1])
            env[ins.dest] = self.arith(st, op, ins.ty, a, b, ins.x)
            return
        if op == "zext":
            a = self.val(st, ins.ty, ins.args[0])
            if ins.ty == "i1":
                env[ins.dest] = If(a, IntVal(1), IntVal(0))
            else:
                env[ins.dest] = uns(ins.ty, a)
            return
        if op == "sext":
            a = self.val(st, ins.ty, ins.args[0])
            env[ins.dest] = If(a, IntVal(-1), IntVal(0)) if ins.ty == "i1" else a
            return
        if op == "trunc":
            a = self.val(st, ins.ty, ins.args[0])
            if ins.x == "i1":
                env[ins.dest] = (a % 2) == 1
                return
            w = W[ins.x]
            if is_int_value(a):
                k = a.as_long() % (1 << w)
                env[ins.dest] = IntVal(k - (1 << w) if k >= 1 << (w - 1) else k)
            elif ins.ty == "i64":
                self.assumptions.add("64-bit sizes/lengths truncated to %s are in range (no string or object larger than 2 GiB)" % ins.x)
                st.facts += rng(ins.x, a)
                env[ins.dest] = a
            else:
                c = self.fresh(st, "trunc")
                # exact: c == a mod 2^w in signed range; identity when a is in range
                st.facts += rng(ins.x, c)
                st.facts.append(Implies(And(*rng(ins.x, a)), c == a))
                st.facts.append((c - a) % (1 << w) == 0)
                env[ins.dest] = c
            return
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            v = self.val(st, ins.ty, ins.args[0])
            env[ins.dest] = self.toint(st, v) if op == "ptrtoint" else v
            return
        if op == "select":
            c, a, b = (self.val(st, "i1", ins.args[0]), self.val(st, ins.ty, ins.args[1]), self.val(st, ins.ty, ins.args[2]))
            if isinstance(a, Loc):
                a = self.toint(st, a)
            if isinstance(b, Loc):
                b = self.toint(st, b)
            env[ins.dest] = If(c, a, b)
            return
        if op == "call":
            return self.call(st, ins)
        raise Unsupported("instruction " + op)

    def icmp(self, st, pred, t, a, b):
        if pred == "eq":
            return a == b
        if pred == "ne":
            return a != b
        if pred[0] == "s":
            pass
        elif t == "ptr":
            # ordering inside one block
            (ba, oa), (bb, ob) = self.split(st, a), self.split(st, b)
            self.assumptions.add("relational pointer comparisons are between pointers into the same block")
            a, b = oa, ob
        else:
            a, b = uns(t, a), uns(t, b)
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[1:]]

    def arith(self, st, op, t, a, b, flags):
        if t == "i1":
            if op == "xor":
                return a != b
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
        if op in ("add", "sub", "mul"):
            r = a + b if op == "add" else (a - b if op == "sub" else a * b)
            if op == "mul" and not is_int_value(a) and not is_int_value(b):
                if "nsw" in flags or t == "i64":
                    r = a * b
                else:
                    return self.uf(st, "umul_" + t, t, a, b)
            r = simplify(r, som=False) if is_int_value(a) and is_int_value(b) else r
            if "nsw" in flags or t == "i64":
                self.assumptions.add("signed 32-bit arithmetic does not overflow (counters and lengths below 2^31); 64-bit size arithmetic does not wrap")
                return r
            if op == "mul":
                c = self.fresh(st, "umul")
                st.facts += rng(t, c)
                st.facts.append((c - r) % (1 << W[t]) == 0)
                return c
            return wrap(t, r)
        if op == "shl" and is_int_value(b):
            k = 1 << b.as_long()
            r = a * k
            if "nsw" in flags or t == "i64":
                return r
            c = self.fresh(st, "shl")
            st.facts += rng(t, c)
            st.facts.append((c - r) % (1 << W[t]) == 0)
            return c
        if op in ("lshr", "ashr") and is_int_value(b):
            x = uns(t, a) if op == "lshr" else a
            return x / (1 << b.as_long())
        if op == "sdiv" and is_int_value(b) and b.as_long() > 0:
            return If(a >= 0, a / b, -((-a) / b))
        if op == "srem" and is_int_value(b) and b.as_long() > 0:
            return If(a >= 0, a % b, -((-a) % b))
        if op in ("udiv", "urem"):
            x, y = uns(t, a), uns(t, b)
            self.oblige(st, "division-by-zero", y != 0, st.frames[-1].fn.line, "safety")
            st.facts.append(y != 0)
            if is_int_value(b):
                return x / y if op == "udiv" else x % y
            c = self.uf(st, "u" + op[1:] + "_" + t, t, x, y)
            if op == "urem":
                st.facts += [c >= 0, c < y]
            return c
        if op in ("sdiv", "srem"):
            self.oblige(st, "division-by-zero", b != 0, st.frames[-1].fn.line, "safety")
            st.facts.append(b != 0)
            c = self.uf(st, op + "_" + t, t, a, b)
            if op == "sdiv":
                st.facts.append(Implies(And(a >= 0, b > 0), And(c >= 0, c <= a, c * b <= a)))
            else:
                st.facts.append(Implies(And(a >= 0, b > 0), And(c >= 0, c < b, c <= a)))
            return c
        if op == "and" and is_int_value(b):
            k = b.as_long()
            if k >= 0 and (k & (k + 1)) == 0:
                return uns(t, a) % (k + 1) if k < (1 << (W[t] - 1)) else a
        if op in ("and", "or") and is_int_value(b):
            k, w = b.as_long(), W[t]
            bit = lambda i: (a / (1 << i)) % 2
            on = [i for i in range(w - 1) if (k >> i) & 1]
            offb = [i for i in range(w - 1) if not (k >> i) & 1]
            neg = (k >> (w - 1)) & 1
            if op == "and" and not neg and len(on) <= 6:
                return Sum([bit(i) * (1 << i) for i in on]) if on else IntVal(0)
            if op == "and" and neg and len(offb) <= 6:
                return a - Sum([bit(i) * (1 << i) for i in offb]) if offb else a
            if op == "or" and not neg and len(on) <= 6:
                return a + Sum([(1 - bit(i)) * (1 << i) for i in on]) if on else a
        if op in ("and", "or", "xor", "shl", "lshr", "ashr"):
            w = W[t]
            x, y = Int2BV(a, w), Int2BV(b, w)
            r = {"and": x & y, "or": x | y, "xor": x ^ y, "shl": x << y, "lshr": LShR(x, y), "ashr": x >> y}[op]
            return BV2Int(r, True)
        raise Unsupported("arith " + op)

    def uf(self, st, name, t, a, b):
        f = Function(name, INT, INT, INT)
        c = f(a, b)
        st.facts += rng(t, c)
        return c

    # ---- calls
    def call(self, st, ins):
        fr = st.frames[-1]
        args = [self.val(st, t, v) for t, v in ins.args]
        callee = ins.x
        if not callee.startswith("@"):
            fp = self.val(st, "ptr", callee)
            return self.indirect(st, ins, fp, args)
        n = callee[1:].strip('"')
        if n in self.contracts and not (n == self.cur and False):
            return self.call_contract(st, ins, self.contracts[n], args)
        lib = self.libs.get(n)
        if lib is not None:
            r = lib(self, st, ins, args)
            if isinstance(r, list):
                return r
            if ins.dest:
                fr.env[ins.dest] = r
            return
        f = self.mod.funcs.get(n)
        if f is None:
            raise Unsupported("no contract for " + n)
        if len(st.frames) > 8 or any(x.fn is f for x in st.frames):
            raise Unsupported("recursion or deep inlining at " + n)
        self.inlined.add(n)
        nf = Frame(f, {}, fr.site + (ins.dest or str(ins.line), n), ins.dest)
        if len(args) < len(f.params):
            raise Unsupported("argument count of " + n)
        for (t, v), a in zip(f.params, args):
            nf.env[v] = a
        st.frames.append(nf)
        if nf.fn.entry in find_loops(f):
            raise Unsupported("loop at entry")
        return

    def call_contract(self, st, ins, con, args):
        args = list(args)
        outs, cells = {}, []
        for i, a in enumerate(args):
            if isinstance(a, Loc):
                if a.kind == "local":
                    outs[i] = a
                    t = Int("cell_%d" % self.bump())
                    al = self.getmap(st.maps, "alloc")
                    # a cell is distinct from every object allocated initially or now; it is live during the call
                    st.facts += [t != 0, Not(Select(al, t)), Not(Select(Const("alloc!0", AB), t)), bsize(t) == 8, off(t) == 0, blk(t) == t, Not(ro(t))]
                    st.maps["alloc"] = Store(al, t, BoolVal(True))
                    cells.append(t)
                    args[i] = t
                    v = st.locals.get(a.a)
                    if v is not None and not isinstance(v, Loc):
                        for kind in ("A:ptr", "A:i32"):
                            m = self.getmap(st.maps, kind)
                            st.maps[kind] = Store(m, t, Store(Select(m, t), 0, v))
                else:
                    args[i] = self.toint(st, a)
        self.name_maps(st.maps, st.facts)
        pre_maps = dict(st.maps)
        pre = View(pre_maps, self)
        for lab, f in norm(con.requires(pre, args)):
            self.oblige(st, "pre(%s):%s" % (con.name, lab), f, ins.line, "pre")
            st.facts.append(f)
        for k, t in pre_maps.items():
            st.maps.setdefault(k, t)
        for m in con.modifies:
            self.getmap(pre_maps, m)
            st.maps[m] = Const("%s!c%d" % (m, self.bump()), map_sort(m))
        ret = None
        if ins.dest:
            ret = self.fresh(st, "ret_" + con.name, BoolSort() if ins.ty == "i1" else INT)
            st.facts += rng(ins.ty, ret)
            st.frames[-1].env[ins.dest] = ret
        w = {k: self.fresh(st, "wit_" + k) for k in con.witness}
        st.wits = st.wits + list(w.items())
        post = View(st.maps, self)
        upd, ax = con.ghost(pre, post, args, ret, w)
        for k, t in upd.items():
            st.maps[k] = t
        st.facts += ax
        self.name_maps(st.maps, st.facts)
        fr = con.frame(pre, args)
        for m in con.modifies:
            if m.startswith("G:") and m not in fr or m == "alloc":
                continue
            if m in fr and fr[m] is ANY:
                continue
            allowed = fr.get(m, lambda x: BoolVal(False))
            t, t0 = st.maps[m], pre.m(m)
            al = pre.m("alloc")
            x = FreshInt("fx")
            st.facts.append(ForAll([x], Implies(And(Select(al, x), Not(allowed(x))), Select(t, x) == Select(t0, x)), patterns=[Select(t, x)]))
        for lab, f in norm(con.ensures(pre, post, args, ret, w)):
            st.facts.append(f)
        for t in cells:
            st.maps["alloc"] = Store(self.getmap(st.maps, "alloc"), t, BoolVal(False))
        al2 = self.getmap(st.maps, "alloc")
        st.facts.append(Not(Select(al2, 0)))
        if not al2.eq(pre.m("alloc")):
            # new blocks are distinct from every block of the initial state (addresses are not reused)
            x = FreshInt("nx")
            st.facts.append(ForAll([x], Implies(And(Select(al2, x), Not(Select(pre.m("alloc"), x))), Not(Select(Const("alloc!0", AB), x))), patterns=[Select(al2, x)]))
        for i, l in outs.items():
            t = args[i]
            kind = self.localty.get(l.a)
            if kind not in ("ptr", "i32") or "A:" + kind not in con.modifies:
                if any(m == "B" or m[:2] in ("A:", "S:") for m in con.modifies) and kind not in ("ptr", "i32"):
                    st.locals[l.a] = None       # what the callee leaves there is not known
            else:
                st.locals[l.a] = Select(Select(self.getmap(st.maps, "A:" + kind), t), 0)
                if kind in W:
                    st.facts += rng(kind, st.locals[l.a])
        st.valid = set()
        return

    def indirect(self, st, ins, fp, args):
        pv = self.prov.get(fp.get_id())
        args = [self.toint(st, a) if isinstance(a, Loc) else a for a in args]
        self.oblige(st, "call-through-null", fp != 0, ins.line, "safety")
        st.facts.append(fp != 0)
        h = getattr(self.con, "callback", None)
        r = h(self, st, ins, fp, pv, args) if h else None
        if r is None:
            r = default_callback(self, st, ins, fp, pv, args)
        if ins.dest:
            st.frames[-1].env[ins.dest] = r


ANY = object()
STRUCT_ARRAYS = {"axlBabelTable"}      # record types only ever used as elements of arrays
BACKGROUND = []
CALLBACK_MODIFIES = ["G:evn", "G:evf", "G:eva", "G:evb"]


def default_callback(eng, st, ins, fp, pv, args):
    """user callbacks: comparators are pure functions of their arguments; void
    callbacks append one event to the trace"""
    if ins.ty == "void" or not ins.dest:
        n = eng.getmap(st.maps, "G:evn")
        st.maps["G:evf"] = Store(eng.getmap(st.maps, "G:evf"), n, fp)
        st.maps["G:eva"] = Store(eng.getmap(st.maps, "G:eva"), n, args[0] if args else IntVal(0))
        if len(args) > 1:
            st.maps["G:evb"] = Store(eng.getmap(st.maps, "G:evb"), n, args[1])
        st.maps["G:evn"] = n + 1
        eng.assumptions.add("user callbacks (destroy, comparator, visitor, copy functions) return normally and do not modify the container")
        return None
    f = cbfun(len(args))
    r = f(fp, *args)
    st.facts += rng(ins.ty, r)
    return r


def cbfun(n):
    return Function("cb%d" % n, *([INT] * (n + 2)))


def norm(l):
    out = []
    for n, x in enumerate(l):
        if isinstance(x, tuple):
            out.append(x)
        else:
            out.append(("#%d" % n, x))
    return out


def simplify_select(v):
    """resolve select-over-store when the indices are syntactically equal"""
    while is_app(v) and v.decl().kind() == Z3_OP_SELECT:
        a, i = v.arg(0), v.arg(1)
        if is_app(a) and a.decl().kind() == Z3_OP_STORE and a.arg(1).eq(i):
            return a.arg(2)
        return v
    return v
