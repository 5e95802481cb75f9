"""LLVM IR front end: compiles /repo sources with clang and parses the text.

Only `mem2reg` is applied to clang's -O0 output, so the program that is verified
is the program that is compiled; nothing is dropped except debug intrinsics.
"""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
INCLUDE = os.path.join(os.path.dirname(HERE), "include")
def sources():
    import glob
    return sorted(os.path.relpath(f, REPO) for d in ("src", "ns", "babel") for f in glob.glob(os.path.join(REPO, d, "axl*.c")))


CFLAGS = ["-DHAVE_CONFIG_H", "-DSHOW_DEBUG_LOG", "-D__axl_disable_broken_bool_def__",
          '-DVERSION="0.0"', '-DPACKAGE_DTD_DIR="."', '-DPACKAGE_TOP_DIR="."',
          "-D_GNU_SOURCE", "-w"]


def tool(*names):
    for n in names:
        p = shutil.which(n, path="/usr/bin:/usr/local/bin:" + os.environ.get("PATH", ""))
        if p:
            return p
    raise RuntimeError("tool not found: %s" % (names,))


class Instr:
    __slots__ = ("op", "dest", "ty", "args", "x", "line")

    def __init__(self, op, dest=None, ty=None, args=(), x=None, line=0):
        self.op, self.dest, self.ty, self.args, self.x, self.line = op, dest, ty, args, x, line

    def __repr__(self):
        return "%s = %s %s %s %s" % (self.dest, self.op, self.ty, self.args, self.x)


class Function:
    def __init__(self, name, rty, params, file):
        self.name, self.rty, self.params, self.file = name, rty, params, file
        self.blocks = {}
        self.order = []
        self.entry = None
        self.varargs = False
        self.line = 0


class Module:
    def __init__(self):
        self.structs = {}      # name -> [field type strings]
        self.fields = {}       # name -> [field names]
        self.funcs = {}
        self.globals = {}      # name -> (type, initializer text)


def _split_top(s, sep=","):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if q:
            cur += ch
            if ch == '"':
                q = False
            continue
        if ch == '"':
            q = True
        if ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


ATTRS = {"noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly",
         "immarg", "returned", "dso_local", "internal", "hidden", "writeonly", "local_unnamed_addr",
         "allocptr", "range", "nofpclass", "inreg", "private", "unnamed_addr", "constant", "global",
         "external", "noreturn", "nounwind"}


def _read_type(s):
    """returns (type, rest)"""
    s = s.lstrip()
    if s[0] in "[{<":
        close = {"[": "]", "{": "}", "<": ">"}[s[0]]
        depth = 0
        for i, ch in enumerate(s):
            if ch in "[{<":
                depth += 1
            elif ch in "]}>":
                depth -= 1
                if depth == 0:
                    t, r = s[:i + 1], s[i + 1:]
                    break
    else:
        m = re.match(r'(%"[^"]*"|%[\w.$-]+|[\w.]+)', s)
        t, r = m.group(1), s[m.end():]
    # function type  "i32 (ptr, ...)"
    r2 = r.lstrip()
    if r2.startswith("(") and not t.startswith("%"):
        depth = 0
        for i, ch in enumerate(r2):
            if ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
                if depth == 0:
                    return t + " " + r2[:i + 1], r2[i + 1:].lstrip()
    return t, r.lstrip()


def _strip_attrs(s):
    s = s.strip()
    while True:
        m = re.match(r"(align \d+|dereferenceable(_or_null)?\(\d+\)|captures\([^)]*\)|memory\([^)]*\)|byval\([^)]*\)|sret\([^)]*\)|elementtype\([^)]*\)|[a-z_]+)(\s+|$)", s)
        if not m:
            return s
        w = m.group(1)
        if w.split("(")[0].split(" ")[0] in ("align", "dereferenceable", "dereferenceable_or_null", "captures", "memory", "byval", "sret", "elementtype") or w in ATTRS:
            s = s[m.end():]
        else:
            return s


def _typed(s):
    """'ptr noundef %0' -> ('ptr', '%0')"""
    t, r = _read_type(s)
    return t, _strip_attrs(r)


def parse(text, file, mod):
    di = {}
    for m in re.finditer(r"^!(\d+) = (?:distinct )?(!.*)$", text, re.M):
        di[m.group(1)] = m.group(2)

    def line_of(rest):
        m = re.search(r"!dbg !(\d+)", rest)
        if m:
            d = di.get(m.group(1), "")
            mm = re.search(r"line: (\d+)", d)
            if mm:
                return int(mm.group(1))
        return 0

    # field names from debug info
    for k, d in di.items():
        if "DICompositeType(tag: DW_TAG_structure_type" in d and "elements:" in d:
            mn = re.search(r'name: "([^"]+)"', d)
            me = re.search(r"elements: !(\d+)", d)
            if not mn or not me:
                continue
            els = re.findall(r"!(\d+)", di.get(me.group(1), ""))
            names = []
            for e in els:
                mm = re.search(r'name: "([^"]+)"', di.get(e, ""))
                names.append(mm.group(1) if mm else "?")
            mod.fields["struct." + mn.group(1)] = names
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        m = re.match(r'^%("?[\w.$-]+"?) = type (.*)$', ln)
        if m:
            body = m.group(2)
            if body.startswith("{"):
                mod.structs[m.group(1)] = _split_top(body[1:-1].strip())
            i += 1
            continue
        m = re.match(r'^@("?[\w.$-]+"?) = (.*)$', ln)
        if m:
            mod.globals[(file, m.group(1))] = m.group(2)
            i += 1
            continue
        if ln.startswith("define "):
            m = re.match(r"^define (.*?)@([\w.$]+)\((.*?)\)( [^)]*)?\{$", ln)
            m2 = re.match(r"^define (.*?)@([\w.$]+)\(", ln)
            name = m2.group(2)
            # parameter list: balanced
            st = m2.end() - 1
            depth = 0
            for j in range(st, len(ln)):
                if ln[j] == "(":
                    depth += 1
                elif ln[j] == ")":
                    depth -= 1
                    if depth == 0:
                        break
            ptxt = ln[st + 1:j]
            rty = _strip_attrs(m2.group(1))
            rty = rty.split()[-1] if rty else "void"
            params = []
            va = False
            for p in _split_top(ptxt):
                if p == "...":
                    va = True
                    continue
                t, v = _typed(p)
                params.append((t, v))
            fn = Function(name, rty, params, file)
            fn.varargs = va
            fn.line = line_of(ln)
            m3 = re.search(r"!dbg !(\d+) \{", ln)
            if m3:
                mm = re.search(r"line: (\d+)", di.get(m3.group(1), ""))
                fn.line = int(mm.group(1)) if mm else 0
            i += 1
            cur = None
            nparams = len(params)
            while lines[i] != "}":
                l = lines[i]
                i += 1
                if not l.strip() or l.lstrip().startswith(";"):
                    continue
                mm = re.match(r'^("?[\w.$-]+"?):', l)
                if mm:
                    cur = "%" + mm.group(1)
                    fn.blocks[cur] = []
                    fn.order.append(cur)
                    if fn.entry is None:
                        fn.entry = cur
                    continue
                if cur is None:
                    cur = "%" + str(nparams)
                    fn.blocks[cur] = []
                    fn.order.append(cur)
                    fn.entry = cur
                s = l.strip()
                if s.startswith("switch") and s.endswith("["):
                    while not lines[i].strip().startswith("]"):
                        s += " " + lines[i].strip()
                        i += 1
                    s += " ]" + lines[i].strip()[1:]
                    i += 1
                ins = parse_instr(s, line_of(s))
                if ins is not None:
                    fn.blocks[cur].append(ins)
            mod.funcs[name] = fn
        i += 1
    return mod


def parse_instr(s, line):
    s0 = s
    s = re.sub(r",? !(dbg|llvm\.loop|srcloc|tbaa) ![\d]+", "", s)
    s = re.sub(r"\s*;.*$", "", s) if '"' not in s else s
    dest = None
    m = re.match(r'^(%"?[\w.$-]+"?) = (.*)$', s)
    if m:
        dest, s = m.group(1), m.group(2)
    if "call void @llvm.dbg." in s or "call void @llvm.lifetime" in s:
        return None
    w = s.split(" ", 1)
    op = w[0]
    rest = w[1] if len(w) > 1 else ""
    if op in ("tail", "musttail", "notail"):
        w = rest.split(" ", 1)
        op, rest = w[0], w[1]
    if op in ("add", "sub", "mul", "shl", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "lshr", "ashr"):
        flags = set()
        while True:
            m = re.match(r"(nuw|nsw|exact|disjoint) ", rest)
            if not m:
                break
            flags.add(m.group(1))
            rest = rest[m.end():]
        t, r = _read_type(rest)
        a, b = _split_top(r)
        return Instr(op, dest, t, (a, b), flags, line)
    if op == "icmp":
        pred, r = rest.split(" ", 1)
        t, r = _read_type(r)
        a, b = _split_top(r)
        return Instr(op, dest, t, (a, b), pred, line)
    if op == "alloca":
        parts = _split_top(rest)
        return Instr(op, dest, parts[0], tuple(parts[1:]), None, line)
    if op == "load":
        rest = re.sub(r"^volatile ", "", rest)
        parts = _split_top(rest)
        return Instr(op, dest, parts[0], (_typed(parts[1])[1],), None, line)
    if op == "store":
        rest = re.sub(r"^volatile ", "", rest)
        parts = _split_top(rest)
        t, v = _typed(parts[0])
        return Instr(op, None, t, (v, _typed(parts[1])[1]), None, line)
    if op == "getelementptr":
        rest = re.sub(r"^(inbounds |nuw |nusw )+", "", rest)
        parts = _split_top(rest)
        return Instr(op, dest, parts[0], tuple(_typed(p) for p in parts[1:]), None, line)
    if op == "br":
        if rest.startswith("label"):
            return Instr("jmp", None, None, (rest.split()[1],), None, line)
        parts = _split_top(rest)
        return Instr("br", None, None, (parts[0].split()[1], parts[1].split()[1], parts[2].split()[1]), None, line)
    if op == "switch":
        m = re.match(r"(.*?), label (%[\w.]+) \[(.*)\]", rest)
        t, v = _typed(m.group(1))
        cases = re.findall(r"i\d+ (-?\d+), label (%[\w.]+)", m.group(3))
        return Instr("switch", None, t, (v, m.group(2), [(int(a), b) for a, b in cases]), None, line)
    if op == "phi":
        t, r = _read_type(rest)
        inc = re.findall(r"\[ (.*?), (%[\w.$-]+) \]", r)
        return Instr("phi", dest, t, tuple(inc), None, line)
    if op == "ret":
        if rest.startswith("void"):
            return Instr("ret", None, "void", (), None, line)
        t, v = _typed(rest)
        return Instr("ret", None, t, (v,), None, line)
    if op == "unreachable":
        return Instr(op, line=line)
    if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui"):
        rest = re.sub(r"^(nneg |nuw |nsw )+", "", rest)
        m = re.match(r"(.*) to (.*)$", rest)
        t, v = _typed(m.group(1))
        return Instr(op, dest, t, (v,), m.group(2).strip(), line)
    if op == "select":
        parts = _split_top(rest)
        ps = [_typed(p) for p in parts]
        return Instr(op, dest, ps[1][0], tuple(v for _, v in ps), None, line)
    if op == "freeze":
        t, v = _typed(rest)
        return Instr(op, dest, t, (v,), None, line)
    if op == "call":
        r = _strip_attrs(rest)
        t, r = _read_type(r)
        r = r.strip()
        m = re.match(r'(@"?[\w.$]+"?|%[\w.$-]+|asm .*?)\(', r)
        callee = m.group(1)
        st = m.end() - 1
        depth = 0
        q = False
        for j in range(st, len(r)):
            if r[j] == '"':
                q = not q
            if q:
                continue
            if r[j] == "(":
                depth += 1
            elif r[j] == ")":
                depth -= 1
                if depth == 0:
                    break
        args = tuple(_typed(p) for p in _split_top(r[st + 1:j]) if not p.startswith("metadata"))
        rt = t.split(" ")[0]
        return Instr("call", dest, rt, args, callee, line)
    if op in ("va_arg",):
        return Instr("unsupported", dest, None, (), s0, line)
    return Instr("unsupported", dest, None, (), s0, line)


def compile_one(f, out):
    cc = tool("clang-18", "clang")
    opt = tool("opt-18", "opt")
    a = os.path.join(out, f.replace("/", "_") + ".0.ll")
    b = os.path.join(out, f.replace("/", "_") + ".ll")
    cmd = [cc, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-S", "-emit-llvm", *CFLAGS,
           "-I" + INCLUDE, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "ns"),
           "-I" + os.path.join(REPO, "babel"), os.path.join(REPO, f), "-o", a]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return f, None, r.stderr
    r = subprocess.run([opt, "-passes=mem2reg", "-S", a, "-o", b], capture_output=True, text=True)
    if r.returncode:
        return f, None, r.stderr
    return f, open(b).read(), ""


def load(files=None):
    files = files or sources()
    out = tempfile.mkdtemp(prefix="axlir")
    mod = Module()
    try:
        with ThreadPoolExecutor(8) as ex:
            for f, text, err in ex.map(lambda f: compile_one(f, out), files):
                if text is None:
                    raise RuntimeError("cannot compile %s:\n%s" % (f, err))
                parse(text, f, mod)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return mod


if __name__ == "__main__":
    m = load()
    print(len(m.funcs), "functions", len(m.structs), "structs")
    bad = {}
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b:
                if i.op == "unsupported":
                    bad.setdefault(f.name, []).append(i.x)
    for k, v in bad.items():
        print(k, v[:3])
