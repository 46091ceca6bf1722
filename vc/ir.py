"""Parser for the subset of textual LLVM IR (clang 18) that /repo compiles to.

The IR is regenerated from /repo's working tree on every run; nothing in here
is specific to /repo.  Anything the parser does not know raises Unsupported,
which a check reports as an undischarged obligation, never as success.
"""
import re
import struct
from fractions import Fraction


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
class Type:
    __slots__ = ("kind", "n", "elem", "fields", "name", "packed")

    def __init__(self, kind, n=0, elem=None, fields=None, name=None, packed=False):
        self.kind, self.n, self.elem = kind, n, elem
        self.fields, self.name, self.packed = fields, name, packed

    def __repr__(self):
        k = self.kind
        if k == "int":
            return "i%d" % self.n
        if k == "array":
            return "[%d x %r]" % (self.n, self.elem)
        if k == "named":
            return "%" + self.name
        if k == "struct":
            return "{%s}" % ", ".join(map(repr, self.fields))
        return k


VOID = Type("void")
PTR = Type("ptr")
DOUBLE = Type("double")
FLOAT = Type("float")
LABEL = Type("label")
METADATA = Type("metadata")
_ints = {}


def IntT(n):
    if n not in _ints:
        _ints[n] = Type("int", n)
    return _ints[n]


TOK = re.compile(r'''\s*(
    "(?:[^"\\]|\\.)*" |
    c"(?:[^"\\]|\\.)*" |
    [%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) |
    \#\d+ | ![-a-zA-Z$._0-9]* |
    0x[KMLHR]?[0-9A-Fa-f]+ |
    -?\d+\.\d*(?:[eE][-+]?\d+)? | -?\d+ |
    [a-zA-Z_][a-zA-Z_0-9.]* | \.\.\. |
    [][(){}<>,=*:|] )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("token at: " + s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


def unq(tok):
    """strip the sigil and quotes of a name token"""
    t = tok[1:]
    if t.startswith('"'):
        t = t[1:-1]
    return t


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("expected %r got %r in %s" % (x, y, " ".join(self.t)[:200]))

    def done(self):
        return self.i >= len(self.t)


def parse_type(p):
    t = p.next()
    if t == "void":
        r = VOID
    elif t == "ptr":
        r = PTR
    elif t == "double":
        r = DOUBLE
    elif t == "float":
        r = FLOAT
    elif t == "x86_fp80":
        r = Type("x86_fp80")
    elif t == "label":
        r = LABEL
    elif t == "metadata":
        r = METADATA
    elif t == "opaque":
        r = Type("opaque")
    elif re.fullmatch(r"i\d+", t):
        r = IntT(int(t[1:]))
    elif t == "[":
        n = int(p.next())
        p.expect("x")
        e = parse_type(p)
        p.expect("]")
        r = Type("array", n, e)
    elif t == "{":
        fs = []
        while not p.eat("}"):
            fs.append(parse_type(p))
            p.eat(",")
        r = Type("struct", fields=fs)
    elif t == "<":
        if p.eat("{"):
            fs = []
            while not p.eat("}"):
                fs.append(parse_type(p))
                p.eat(",")
            p.expect(">")
            r = Type("struct", fields=fs, packed=True)
        else:
            n = int(p.next())
            p.expect("x")
            e = parse_type(p)
            p.expect(">")
            r = Type("vector", n, e)
    elif t.startswith("%"):
        r = Type("named", name=unq(t))
    else:
        raise Unsupported("type " + t)
    # function type suffix
    while p.peek() == "(" and r.kind != "label":
        # only in call instructions: rettype (args)
        depth = 0
        args = []
        p.next()
        va = False
        while not p.eat(")"):
            if p.eat("..."):
                va = True
            else:
                args.append(parse_type(p))
            p.eat(",")
        r = Type("func", elem=r, fields=args, n=int(va))
    return r


PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "inreg", "noalias", "nocapture", "nofree",
               "readonly", "readnone", "writeonly", "returned", "writable", "dead_on_unwind", "nest",
               "swiftself", "immarg", "allocptr", "inalloca", "allocalign", "noreturn", "nounwind", "fast",
               "range", "nofpclass"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref",
                   "elementtype", "preallocated"}


def skip_attrs(p):
    info = {}
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            p.next()
        elif t in PARAM_ATTRS_ARG:
            p.next()
            if p.peek() == "(":
                p.next()
                depth = 1
                inner = []
                while depth:
                    x = p.next()
                    if x == "(":
                        depth += 1
                    elif x == ")":
                        depth -= 1
                    if depth:
                        inner.append(x)
                if t in ("sret", "byval"):
                    info[t] = parse_type(P(inner))
            else:
                p.next()
        else:
            return info


# ------------------------------------------------------------- operands
# operand: ('l',name) ('g',name) ('int',n) ('fp',Fraction|None) ('null',) ('undef',) ('zero',)
#          ('ce',op,...) ('agg',[(type,op)...]) ('str',bytes)
def parse_fp(tok):
    if tok.startswith("0x"):
        h = tok[2:]
        if h[0] in "KMLHR":
            raise Unsupported("fp const " + tok)
        v = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
        if v != v or v in (float("inf"), float("-inf")):
            return ("fpspecial", repr(v))
        return ("fp", Fraction(v))
    return ("fp", Fraction(float(tok)))


def parse_const_str(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf-8", "replace")
            i += 1
    return bytes(out)


CE_CASTS = {"bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "addrspacecast"}


def parse_operand(p, ty):
    t = p.next()
    if t.startswith("%"):
        return ("l", unq(t))
    if t.startswith("@"):
        return ("g", unq(t))
    if t == "null":
        return ("null",)
    if t in ("undef", "poison"):
        return ("undef",)
    if t == "zeroinitializer":
        return ("zero",)
    if t == "true":
        return ("int", 1)
    if t == "false":
        return ("int", 0)
    if t.startswith('c"'):
        return ("str", parse_const_str(t))
    if re.fullmatch(r"-?\d+", t):
        if ty is not None and ty.kind in ("double", "float"):
            return ("fp", Fraction(int(t)))
        return ("int", int(t))
    if t.startswith("0x") or re.match(r"-?\d+\.", t):
        return parse_fp(t)
    if t == "getelementptr":
        while p.peek() in ("inbounds", "inrange"):
            p.next()
        p.expect("(")
        sty = parse_type(p)
        p.expect(",")
        parse_type(p)
        base = parse_operand(p, PTR)
        idx = []
        while p.eat(","):
            p.eat("inrange")
            ity = parse_type(p)
            idx.append((ity, parse_operand(p, ity)))
        p.expect(")")
        return ("ce", "gep", sty, base, idx)
    if t in CE_CASTS:
        p.expect("(")
        fty = parse_type(p)
        o = parse_operand(p, fty)
        p.expect("to")
        tty = parse_type(p)
        p.expect(")")
        return ("ce", t, fty, o, tty)
    if t in ("{", "[", "<"):
        close = {"{": "}", "[": "]", "<": ">"}[t]
        if t == "<" and p.peek() == "{":
            p.next()
            close = "}"
            packed = True
        else:
            packed = False
        items = []
        while not p.eat(close):
            ety = parse_type(p)
            items.append((ety, parse_operand(p, ety)))
            p.eat(",")
        if packed:
            p.expect(">")
        return ("agg", items)
    if t in ("add", "sub", "mul"):
        while p.peek() in ("nsw", "nuw"):
            p.next()
        p.expect("(")
        a_t = parse_type(p)
        a = parse_operand(p, a_t)
        p.expect(",")
        b_t = parse_type(p)
        b = parse_operand(p, b_t)
        p.expect(")")
        return ("ce", t, a_t, a, b)
    raise Unsupported("operand " + t + " in " + " ".join(p.t)[:200])


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "text")

    def __init__(self, op, dst, ty, a, text):
        self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, name, rty, params):
        self.name, self.rty, self.params = name, rty, params   # params: [(type,name,attrs)]
        self.blocks = {}       # label -> [Instr]
        self.order = []
        self.entry = None
        self.lines = None      # lazily parsed text

    def parse(self):
        if self.lines is None:
            return self
        lines, self.lines = self.lines, None
        cur = None
        buf = []
        # join multi-line instructions (invoke .. to label, switch [ ... ], landingpad clauses)
        i = 0
        n = len(lines)
        first = True
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(" "):
                lab = m.group(1)
                if lab.startswith('"'):
                    lab = lab[1:-1]
                cur = lab
                self.blocks[cur] = []
                self.order.append(cur)
                if first:
                    self.entry = cur
                    first = False
                continue
            if first:
                # unnamed entry block
                cur = "%entry.unnamed"
                nm = str(len(self.params))
                cur = nm
                self.blocks[cur] = []
                self.order.append(cur)
                self.entry = cur
                first = False
            if " switch " in " " + s + " " and s.startswith("switch") and s.rstrip().endswith("["):
                while not lines[i].strip().startswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
                s += " ]"
                i += 1
            elif re.match(r"(%\S+ = )?invoke ", s):
                while " unwind label " not in s:
                    s += " " + lines[i].strip()
                    i += 1
            elif "= landingpad" in s:
                while i < n and re.match(r"\s+(cleanup|catch|filter)\b", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            self.blocks[cur].append(parse_instr(s))
        return self


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
         "inttoptr", "bitcast"}
FLAGS = {"nsw", "nuw", "exact", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "disjoint", "nneg"}


def strip_meta(s):
    # remove trailing ", !tag !n" metadata and "#n" attribute groups
    s = re.sub(r',\s*!\w[\w.]*\s+!\d+', '', s)
    s = re.sub(r',\s*!\w[\w.]*\s+!\{\}', '', s)
    return s


def parse_instr(text):
    s = strip_meta(text)
    p = P(tokenize(s))
    dst = None
    if p.peek() and p.peek().startswith("%") and p.peek(1) == "=":
        dst = unq(p.next())
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN or op in FBIN:
        flags = set()
        while p.peek() in FLAGS:
            flags.add(p.next())
        ty = parse_type(p)
        a = parse_operand(p, ty)
        p.expect(",")
        b = parse_operand(p, ty)
        return Instr(op, dst, ty, (a, b, flags), text)
    if op == "fneg":
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        return Instr(op, dst, ty, (parse_operand(p, ty),), text)
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = parse_type(p)
        a = parse_operand(p, ty)
        p.expect(",")
        b = parse_operand(p, ty)
        return Instr(op, dst, ty, (pred, a, b), text)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        fty = parse_type(p)
        a = parse_operand(p, fty)
        p.expect("to")
        ty = parse_type(p)
        return Instr(op, dst, ty, (fty, a), text)
    if op == "freeze":
        ty = parse_type(p)
        return Instr(op, dst, ty, (parse_operand(p, ty),), text)
    if op == "load":
        while p.peek() in ("volatile", "atomic"):
            p.next()
        ty = parse_type(p)
        p.expect(",")
        parse_type(p)
        a = parse_operand(p, PTR)
        return Instr(op, dst, ty, (a,), text)
    if op == "store":
        while p.peek() in ("volatile", "atomic"):
            p.next()
        ty = parse_type(p)
        v = parse_operand(p, ty)
        p.expect(",")
        parse_type(p)
        a = parse_operand(p, PTR)
        return Instr(op, None, ty, (v, a), text)
    if op == "alloca":
        p.eat("inalloca")
        ty = parse_type(p)
        cnt = None
        if p.eat(",") and p.peek() != "align":
            cty = parse_type(p)
            cnt = parse_operand(p, cty)
        return Instr(op, dst, ty, (cnt,), text)
    if op == "getelementptr":
        while p.peek() in ("inbounds", "inrange", "nuw", "nusw"):
            p.next()
        ty = parse_type(p)
        p.expect(",")
        parse_type(p)
        base = parse_operand(p, PTR)
        idx = []
        while p.eat(","):
            ity = parse_type(p)
            idx.append((ity, parse_operand(p, ity)))
        return Instr("gep", dst, ty, (base, idx), text)
    if op == "br":
        ty = parse_type(p)
        if ty.kind == "label":
            return Instr("br", None, None, (unq(p.next()),), text)
        c = parse_operand(p, ty)
        p.expect(",")
        p.expect("label")
        t = unq(p.next())
        p.expect(",")
        p.expect("label")
        f = unq(p.next())
        return Instr("condbr", None, None, (c, t, f), text)
    if op == "switch":
        ty = parse_type(p)
        v = parse_operand(p, ty)
        p.expect(",")
        p.expect("label")
        d = unq(p.next())
        p.expect("[")
        cases = []
        while not p.eat("]"):
            cty = parse_type(p)
            c = parse_operand(p, cty)
            p.expect(",")
            p.expect("label")
            cases.append((c, unq(p.next())))
        return Instr("switch", None, ty, (v, d, cases), text)
    if op == "ret":
        ty = parse_type(p)
        if ty.kind == "void":
            return Instr("ret", None, VOID, (None,), text)
        return Instr("ret", None, ty, (parse_operand(p, ty),), text)
    if op == "phi":
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        inc = []
        while True:
            p.expect("[")
            v = parse_operand(p, ty)
            p.expect(",")
            b = unq(p.next())
            p.expect("]")
            inc.append((v, b))
            if not p.eat(","):
                break
        return Instr("phi", dst, ty, tuple(inc), text)
    if op == "select":
        while p.peek() in FLAGS:
            p.next()
        cty = parse_type(p)
        c = parse_operand(p, cty)
        p.expect(",")
        ty = parse_type(p)
        a = parse_operand(p, ty)
        p.expect(",")
        parse_type(p)
        b = parse_operand(p, ty)
        return Instr("select", dst, ty, (c, a, b), text)
    if op in ("call", "invoke"):
        while p.peek() in FLAGS or p.peek() in ("fastcc", "coldcc", "ccc"):
            p.next()
        skip_attrs(p)
        rty = parse_type(p)
        if rty.kind == "func":
            rty = rty.elem
        callee = p.next()
        if callee == "asm":
            raise Unsupported("inline asm")
        if callee.startswith("@"):
            callee = ("g", unq(callee))
        elif callee.startswith("%"):
            callee = ("l", unq(callee))
        else:
            raise Unsupported("callee " + text)
        p.expect("(")
        args = []
        while not p.eat(")"):
            aty = parse_type(p)
            at = skip_attrs(p)
            if aty.kind == "metadata":
                # skip metadata operand
                depth = 0
                while True:
                    x = p.peek()
                    if depth == 0 and x in (",", ")"):
                        break
                    if x == "(":
                        depth += 1
                    if x == ")":
                        depth -= 1
                    p.next()
                args.append((aty, ("undef",)))
            else:
                args.append((aty, parse_operand(p, aty)))
            p.eat(",")
        normal = unwind = None
        if op == "invoke":
            while p.next() != "to":
                pass
            p.expect("label")
            normal = unq(p.next())
            p.expect("unwind")
            p.expect("label")
            unwind = unq(p.next())
        return Instr(op, dst, rty, (callee, args, normal, unwind), text)
    if op == "unreachable":
        return Instr(op, None, None, (), text)
    if op == "resume":
        return Instr(op, None, None, (), text)
    if op == "landingpad":
        return Instr(op, dst, None, (), text)
    if op == "extractvalue":
        aty = parse_type(p)
        a = parse_operand(p, aty)
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return Instr(op, dst, aty, (a, idx), text)
    if op == "insertvalue":
        aty = parse_type(p)
        a = parse_operand(p, aty)
        p.expect(",")
        vty = parse_type(p)
        v = parse_operand(p, vty)
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return Instr(op, dst, aty, (a, v, idx), text)
    return Instr("unsupported", dst, None, (op,), text)


class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}     # name -> (type, init operand or None, constant?)
        self._size = {}

    # ------------------------------------------------ layout (x86-64)
    def resolve(self, ty):
        while ty.kind == "named":
            if ty.name not in self.types:
                raise Unsupported("opaque type %" + ty.name)
            ty = self.types[ty.name]
        return ty

    def sizealign(self, ty):
        if ty.kind == "named":
            k = ty.name
            if k not in self._size:
                self._size[k] = self.sizealign(self.resolve(ty))
            return self._size[k]
        k = ty.kind
        if k == "int":
            b = max(1, (ty.n + 7) // 8)
            a = 1
            while a < b:
                a *= 2
            return (a, min(a, 16))
        if k == "ptr":
            return (8, 8)
        if k == "double":
            return (8, 8)
        if k == "float":
            return (4, 4)
        if k == "x86_fp80":
            return (16, 16)
        if k in ("array", "vector"):
            s, a = self.sizealign(ty.elem)
            return (s * ty.n, a)
        if k == "struct":
            off, al = 0, 1
            for f in ty.fields:
                s, a = self.sizealign(f)
                if ty.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise Unsupported("size of %r" % ty)

    def sizeof(self, ty):
        return self.sizealign(ty)[0]

    def fieldoff(self, sty, i):
        off = 0
        for j, f in enumerate(sty.fields):
            s, a = self.sizealign(f)
            if sty.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise Unsupported("field index")


DEF = re.compile(r'^define\s')


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ";":
            continue
        if ln[0] == "%":
            mt = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
            if mt:
                m.types[unq(mt.group(1))] = parse_type(P(tokenize(mt.group(2))))
                if m.types[unq(mt.group(1))].kind == "opaque":
                    del m.types[unq(mt.group(1))]
            continue
        if ln[0] == "@":
            mt = re.match(r'^(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
            name, rest = unq(mt.group(1)), mt.group(2)
            mm = re.search(r'\b(global|constant)\s+(.*)$', rest)
            if not mm:
                continue
            external = bool(re.search(r'\bexternal\b', rest[:mm.start()]))
            const = mm.group(1) == "constant"
            body = re.sub(r',\s*(align \d+|comdat.*|section .*|partition .*)', '', mm.group(2))
            body = re.sub(r',\s*!.*$', '', body)
            try:
                p = P(tokenize(body))
                ty = parse_type(p)
                init = None if external else parse_operand(p, ty)
            except Unsupported:
                ty, init = None, None
            m.globals[name] = (ty, init, const)
            continue
        if ln.startswith("define ") or ln.startswith("declare "):
            isdef = ln.startswith("define ")
            head = ln
            # find function name
            mt = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', head)
            name = unq("@" + mt.group(1))
            if not isdef:
                m.decls[name] = head
                continue
            # return type: tokens before '@'
            pre = head[len("define "):mt.start()]
            toks = tokenize(pre)
            p = P(toks)
            LINK = {"dso_local", "linkonce_odr", "weak_odr", "internal", "private", "hidden", "local_unnamed_addr",
                    "unnamed_addr", "available_externally", "linkonce", "weak", "external", "fastcc", "protected",
                    "ccc", "coldcc"}
            while p.peek() in LINK:
                p.next()
            skip_attrs(p)
            rty = parse_type(p)
            # params
            j = mt.end() - 1
            depth = 0
            k = j
            while True:
                c = head[k]
                if c == '"':
                    k = head.index('"', k + 1)
                elif c == "(":
                    depth += 1
                elif c == ")":
                    depth -= 1
                    if depth == 0:
                        break
                k += 1
            p = P(tokenize(head[j + 1:k]))
            params = []
            while not p.done():
                if p.eat("..."):
                    break
                ty = parse_type(p)
                at = skip_attrs(p)
                nm = None
                if p.peek() and p.peek().startswith("%"):
                    nm = unq(p.next())
                else:
                    nm = str(len(params))
                params.append((ty, nm, at))
                p.eat(",")
            f = Function(name, rty, params)
            body = []
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            i += 1
            f.lines = body
            m.funcs[name] = f
            continue
    return m
