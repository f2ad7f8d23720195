"""Parser for textual LLVM IR (LLVM 18, opaque pointers).

Function bodies are parsed lazily, the first time they are executed.
"""
import re
import subprocess


class Unsupported(Exception):
    """A construct outside the verifier's dialect."""


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'packed', 'name')

    def __init__(self, k, n=0, el=None, fields=None, packed=False, name=None):
        self.k, self.n, self.el, self.fields, self.packed, self.name = k, n, el, fields, packed, name

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k in ('arr', 'vec'):
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return self.name or '{%s}' % ', '.join(map(repr, self.fields or []))
        return self.k


VOID, PTR, LABEL, META = Ty('void'), Ty('ptr'), Ty('label'), Ty('meta')
FLOATS = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('i', n)
    return _ints[n]


TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            |   # string constant
   [%@!$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) |
   "(?:[^"\\]|\\.)*"             |
   \#\d+                         |
   0x[KLMHR]?[0-9A-Fa-f]+        |
   -?\d+\.\d+(?:e[+-]?\d+)?      |
   -?\d+                         |
   [a-zA-Z_$.][-a-zA-Z$._0-9]*   |
   \.\.\.                        |
   [()\[\]{}<>,=*!|:]
''', re.X)


def unq(s):
    if len(s) > 2 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}      # name -> (line)
        self.functions = {}    # name -> Function (unparsed)
        self.decls = {}
        self.meta = {}
        self._gparsed = {}
        self._dem = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Function(self, ln, lines[i + 1:j])
                self.functions[f.name] = f
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[unq('@' + m.group(1))[1:]] = ln
            elif ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                self.structs[unq(nm)] = body
            elif ln.startswith('@'):
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)', ln)
                self.globals[unq(m.group(1))[1:]] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1

    # ---- struct types
    def struct(self, name):
        v = self.structs.get(name)
        if v is None:
            raise Unsupported('unknown struct ' + name)
        if isinstance(v, str):
            t = Ty('struct', name=name)
            self.structs[name] = t
            if v.strip() == 'opaque':
                t.fields = None
            else:
                p = P(self, v)
                b = p.type()
                t.fields, t.packed = b.fields, b.packed
            return t
        return v

    def size(self, t):
        k = t.k
        if k == 'i':
            b = (t.n + 7) // 8
            if b in (1, 2, 4, 8, 16):
                return b
            s = 1
            while s < b:
                s *= 2
            return s if s <= 8 else (b + 7) // 8 * 8
        if k == 'ptr':
            return 8
        if k == 'f':
            return FLOATS[t.name]
        if k == 'arr':
            return t.n * self.size(t.el)
        if k == 'vec':
            if t.el.k == 'i' and t.el.n < 8:
                return (t.n * t.el.n + 7) // 8
            return t.n * self.size(t.el)
        if k == 'struct':
            if t.fields is None:
                raise Unsupported('size of opaque struct')
            off, al = 0, 1
            for f in t.fields:
                a = 1 if t.packed else self.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(f)
            return (off + al - 1) // al * al
        if k == 'void':
            return 0
        raise Unsupported('size of %r' % t)

    def align(self, t):
        k = t.k
        if k == 'i':
            return min(self.size(t), 16)
        if k in ('ptr', 'f', 'vec'):
            return self.size(t)
        if k == 'arr':
            return self.align(t.el)
        if k == 'struct':
            return 1 if t.packed else max([self.align(f) for f in t.fields] or [1])
        raise Unsupported('align of %r' % t)

    def field_off(self, t, idx):
        off = 0
        for i, f in enumerate(t.fields):
            a = 1 if t.packed else self.align(f)
            off = (off + a - 1) // a * a
            if i == idx:
                return off
            off += self.size(f)
        raise Unsupported('field index')

    def global_init(self, name):
        if name in self._gparsed:
            return self._gparsed[name]
        ln = self.globals.get(name)
        if ln is None:
            return None
        p = P(self, ln)
        kind = None
        while True:
            t = p.peek()
            if t in ('global', 'constant'):
                kind = p.next()
                break
            if t == 'alias':
                p.next()
                p.type()
                p.expect(',')
                ty, v = p.typed_value()
                self._gparsed[name] = ('alias', ty, v)
                return self._gparsed[name]
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        ty = p.type()
        v = None
        if p.peek() not in (None, ','):
            v = p.value(ty)
        if ' external ' in ' ' + ln:
            v = None
        self._gparsed[name] = (kind, ty, v)
        return self._gparsed[name]

    # ---- demangling
    def demangle_all(self):
        names = list(self.functions) + list(self.decls)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for a, b in zip(names, out):
            self._dem[a] = b

    def dem(self, name):
        if not self._dem:
            self.demangle_all()
        return self._dem.get(name, name)

    def find(self, regex, defined=True):
        if not self._dem:
            self.demangle_all()
        r = re.compile(regex)
        src = self.functions if defined else self.decls
        return [n for n in src if r.search(self._dem[n])]

    # ---- debug info: member offsets
    def members(self, cls):
        """name -> byte offset for a class, from DWARF metadata (members of anonymous unions included)."""
        res = {}
        cls = cls.split('::')[-1] if '<' not in cls else cls
        ids = {i: 0 for i, s in self.meta.items() if 'DICompositeType' in s and 'name: "%s"' % cls in s and 'elements:' in s}
        todo = list(ids)
        by = {}
        for i, s in self.meta.items():
            if 'DW_TAG_member' in s and 'DIFlagStaticMember' not in s:
                m = re.search(r'scope: !(\d+)', s)
                if m:
                    by.setdefault(int(m.group(1)), []).append(s)
        while todo:
            c = todo.pop()
            for s in by.get(c, []):
                nm = re.search(r'name: "([^"]*)"', s)
                off = re.search(r'offset: (\d+)', s)
                o = ids[c] + (int(off.group(1)) // 8 if off else 0)
                if nm:
                    res[nm.group(1)] = o
                else:
                    b = re.search(r'baseType: !(\d+)', s)
                    if b and int(b.group(1)) not in ids:
                        ids[int(b.group(1))] = o
                        todo.append(int(b.group(1)))
        return res


class P:
    """Token stream parser."""

    def __init__(self, mod, s):
        self.mod = mod
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def expect(self, x):
        v = self.next()
        if v != x:
            raise Unsupported('parse: expected %r got %r in %s' % (x, v, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def type(self):
        v = self.next()
        if v[0] == 'i' and v[1:].isdigit():
            t = IntTy(int(v[1:]))
        elif v == 'ptr':
            t = PTR
            if self.accept('addrspace'):
                self.skip_parens()
        elif v == 'void':
            t = VOID
        elif v == 'label':
            t = LABEL
        elif v in ('metadata', 'token'):
            t = META
        elif v in FLOATS:
            t = Ty('f', name=v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = Ty('arr', n, el)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                fs = self._fields('}')
                self.expect('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(self.next())
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = Ty('vec', n, el)
        elif v == '{':
            t = Ty('struct', fields=self._fields('}'))
        elif v[0] == '%':
            t = self.mod.struct(unq(v))
        elif v == 'opaque':
            t = Ty('struct', fields=None)
        else:
            raise Unsupported('type token %r' % v)
        while self.peek() == '(' and t.k != 'label':   # function type
            # only in call with varargs: ret (args...)
            self.skip_parens()
        return t

    def _fields(self, end):
        fs = []
        while self.peek() != end:
            fs.append(self.type())
            self.accept(',')
        self.next()
        return fs

    PATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
             'immarg', 'readnone', 'inreg', 'nest', 'allocptr', 'noreturn', 'nofree', 'swiftself', 'dead_on_unwind', 'writable'}

    def attrs(self):
        byval = None
        while True:
            t = self.peek()
            if t in self.PATTR:
                self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'align', 'elementtype', 'range', 'initializes', 'captures', 'inalloca', 'preallocated'):
                self.next()
                if t == 'align':
                    if self.peek() == '(':
                        self.skip_parens()
                    else:
                        self.next()
                elif t == 'byval':
                    self.expect('(')
                    byval = self.type()
                    self.expect(')')
                else:
                    self.skip_parens()
            elif t and t[0] == '"':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return byval

    def typed_value(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)

    CASTS = {'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'}

    def value(self, ty):
        """Returns an operand: ('r',name) local, ('c',pyvalue) const, ('g',name), ('agg',[...]), ('str',bytes), ('ce',...)"""
        v = self.next()
        c = v[0]
        if c == '%':
            return ('r', unq(v)[1:])
        if c == '@':
            return ('g', unq(v)[1:])
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v in ('null', 'none'):
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if c == 'c' and len(v) > 1 and v[1] == '"':
            b = bytearray()
            s = v[2:-1]
            k = 0
            while k < len(s):
                if s[k] == '\\':
                    b.append(int(s[k + 1:k + 3], 16))
                    k += 3
                else:
                    b.append(ord(s[k]))
                    k += 1
            return ('str', bytes(b))
        if ty.k == 'f':
            return ('f', parse_float(v, ty))
        if re.fullmatch(r'-?\d+', v):
            return ('c', int(v) & ((1 << ty.n) - 1))
        if v in ('[', '{', '<'):
            if v == '<' and self.peek() == '{':
                self.next()
                v = '<{'
            close = {'[': ']', '{': '}', '<': '>', '<{': '}'}[v]
            items = []
            while self.peek() != close:
                items.append(self.typed_value())
                self.accept(',')
            self.next()
            if v == '<{':
                self.expect('>')
            return ('agg', items)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                self.next()
                if self.peek() == '(' and self.peek(1) and re.fullmatch(r'-?\d+', self.peek(1)) and self.peek(2) == ',':
                    self.skip_parens()
            self.expect('(')
            sty = self.type()
            self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                ops.append(self.typed_value())
                if not self.accept(','):
                    break
            self.expect(')')
            return ('cegep', sty, ops)
        if v in self.CASTS:
            self.expect('(')
            fty, fv = self.typed_value()
            self.expect('to')
            tty = self.type()
            self.expect(')')
            return ('cecast', v, fty, fv, tty)
        if v in ('sub', 'add', 'xor', 'icmp'):
            raise Unsupported('constexpr ' + v)
        raise Unsupported('value token %r' % v)


def parse_float(v, ty):
    import struct
    if v.startswith('0xK'):
        h = int(v[3:], 16)
        e = (h >> 64) & 0x7fff
        s = h >> 79
        m = h & ((1 << 64) - 1)
        f = m * 2.0 ** (e - 16383 - 63) if e != 0 or m != 0 else 0.0
        return -f if s else f
    if v.startswith('0x'):
        return struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0]
    return float(v)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line', 'dbg')

    def __init__(self, op, dst=None, ty=None, a=None, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x


class Function:
    def __init__(self, mod, head, body):
        self.mod = mod
        self.head = head
        self.body = body
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', head)
        self.name = unq('@' + m.group(1))[1:]
        self._pos = m.end() - 1
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        mod = self.mod
        # return type: parse the tokens before the name
        pre = P(mod, self.head[len('define '):self._pos])
        LINK = {'linkonce_odr', 'internal', 'private', 'weak', 'weak_odr', 'linkonce', 'external', 'dso_local', 'hidden',
                'protected', 'available_externally', 'fastcc', 'coldcc', 'unnamed_addr', 'local_unnamed_addr', 'default', 'comdat'}
        while pre.peek() in LINK:
            pre.next()
        pre.attrs()
        self.ret = pre.type()
        p = P(mod, self.head[self._pos:])
        p.expect('(')
        self.params = []
        self.byval = {}
        cnt = 0
        while p.peek() != ')':
            if p.accept('...'):
                continue
            ty = p.type()
            bv = p.attrs()
            if p.peek() and p.peek()[0] == '%':
                nm = unq(p.next())[1:]
            else:
                nm = str(cnt)
            if bv is not None:
                self.byval[nm] = bv
            self.params.append((ty, nm))
            cnt += 1
            p.accept(',')
        m = re.search(r'!dbg !(\d+)', self.head)
        self.dbg = int(m.group(1)) if m else None
        self.blocks = {}
        self.order = []
        cur = None
        buf = self.body
        i = 0
        first = True
        while i < len(buf):
            ln = buf[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'):
                continue
            if ln[0] not in ' \t':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
                nm = m.group(1).strip('"')
                cur = []
                self.blocks[nm] = cur
                self.order.append(nm)
                first = False
                continue
            if first:
                nm = str(len(self.params))
                cur = []
                self.blocks[nm] = cur
                self.order.append(nm)
                first = False
            s = ln
            if s.lstrip().startswith('switch') and '[' in s and ']' not in s:
                while ']' not in buf[i]:
                    s += ' ' + buf[i]
                    i += 1
                s += ' ' + buf[i]
                i += 1
            elif ' invoke ' in ' ' + s and ' to label ' not in s:
                s += ' ' + buf[i]
                i += 1
            elif ' landingpad ' in s:
                while i < len(buf) and re.match(r'\s+(cleanup|catch|filter)\b', buf[i]):
                    s += ' ' + buf[i]
                    i += 1
            ins = parse_ins(mod, s)
            if ins is not None:
                cur.append(ins)
        self.entry = self.order[0]
        self._cfg()
        self.parsed = True
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke':
            return [t.x['to']]
        return []

    def _cfg(self):
        # post-dominators (exceptional edges ignored; exits joined in a virtual exit)
        EXIT = None
        succ = {b: self.succs(b) or [EXIT] for b in self.order}
        # restrict to reachable
        reach, st = set(), [self.entry]
        while st:
            b = st.pop()
            if b in reach or b is EXIT:
                continue
            reach.add(b)
            st += [s for s in succ[b] if s is not EXIT]
        order = [b for b in self.order if b in reach]
        allb = set(order) | {EXIT}
        # ignore 'unreachable'-terminated blocks as exits where possible
        dead = {b for b in order if self.blocks[b][-1].op in ('unreachable', 'resume')}
        pd = {b: set(allb) for b in order}
        pd[EXIT] = {EXIT}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                ss = [s for s in succ[b] if s not in dead] or succ[b]
                if b in dead:
                    new = {b} | {EXIT}
                else:
                    new = set.intersection(*[pd[s] for s in ss]) | {b}
                if new != pd[b]:
                    pd[b] = new
                    ch = True
        self.ipdom = {}
        for b in order:
            c = pd[b] - {b}
            best = EXIT
            for x in c:
                if x is not EXIT and all((y in pd[x]) for y in c):
                    best = x
            self.ipdom[b] = best
        # dominators & loops
        dom = {b: set(order) for b in order}
        dom[self.entry] = {self.entry}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                if s is not EXIT:
                    pred[s].append(b)
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == self.entry:
                    continue
                new = set.intersection(*[dom[q] for q in pred[b]]) | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        self.loops = {}
        for b in order:
            for s in succ[b]:
                if s is not EXIT and s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        q = stk.pop()
                        if q in body:
                            continue
                        body.add(q)
                        stk += pred[q]
        self.reach = reach
        self.pred = pred

    def allocas(self):
        return [(i.dst, i.ty) for b in self.order for i in self.blocks[b] if i.op == 'alloca']


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
        'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn', 'volatile',
         'disjoint', 'nneg', 'nusw', 'samesign'}


def parse_ins(mod, s):
    m = re.search(r', !dbg !(\d+)', s)
    dbg = int(m.group(1)) if m else None
    if '!' in s:
        s = re.sub(r', ![-a-zA-Z._0-9]+ !\d+', '', s)
    if '@llvm.dbg.' in s:
        return None
    p = P(mod, s)
    dst = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        dst = unq(p.next())[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins = Ins(op, dst)
    ins.line = s.strip()
    ins.dbg = dbg
    fl = set()
    if op in BIN or op in CAST or op in ('getelementptr', 'icmp', 'fcmp', 'load', 'store', 'select', 'fneg'):
        while p.peek() in FLAGS or p.peek() == 'atomic':
            fl.add(p.next())
    if op in BIN:
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(',')
        b = p.value(ins.ty)
        ins.a, ins.x = (a, b), fl
    elif op in CAST:
        fty, v = p.typed_value()
        p.expect('to')
        ins.ty = p.type()
        ins.a, ins.x = (fty, v), fl
    elif op == 'alloca':
        p.accept('inalloca')
        ins.ty = p.type()
        ins.a = None
        if p.accept(',') and p.peek() != 'align':
            ins.a = p.typed_value()
    elif op == 'load':
        ins.ty = p.type()
        p.expect(',')
        ins.a = p.typed_value()
    elif op == 'store':
        ins.ty, v = p.typed_value()
        p.expect(',')
        pt, q = p.typed_value()
        ins.a = (v, q)
    elif op == 'getelementptr':
        ins.ty = p.type()
        ops = []
        while p.accept(','):
            ops.append(p.typed_value())
        ins.a = ops
    elif op in ('icmp', 'fcmp'):
        pred = p.next()
        while pred in FLAGS:
            pred = p.next()
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(',')
        b = p.value(ins.ty)
        ins.a, ins.x = (a, b), pred
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            ins.a, ins.x = None, [unq(p.next())[1:]]
        else:
            _, c = p.typed_value()
            p.expect(',')
            p.next()
            t = unq(p.next())[1:]
            p.expect(',')
            p.next()
            f = unq(p.next())[1:]
            ins.a, ins.x = c, [t, f]
    elif op == 'switch':
        ty, v = p.typed_value()
        p.expect(',')
        p.next()
        d = unq(p.next())[1:]
        p.expect('[')
        cases = []
        while p.peek() != ']':
            _, cv = p.typed_value()
            p.expect(',')
            p.next()
            cases.append((cv[1], unq(p.next())[1:]))
        ins.ty, ins.a, ins.x = ty, v, (d, cases)
    elif op == 'ret':
        if p.peek() == 'void':
            ins.ty, ins.a = VOID, None
        else:
            ins.ty, ins.a = p.typed_value()
    elif op in ('call', 'invoke'):
        CC = {'fastcc', 'coldcc', 'cc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn'}
        while p.peek() in CC:
            p.next()
        p.attrs()
        ins.ty = p.type()
        callee = p.value(PTR)
        args = []
        p.expect('(')
        while p.peek() != ')':
            ty = p.type()
            bv = p.attrs()
            if ty.k == 'meta':
                while p.peek() not in (',', ')'):
                    if p.peek() == '(':
                        p.skip_parens()
                    else:
                        p.next()
                args.append((ty, ('undef',), None))
            else:
                args.append((ty, p.value(ty), bv))
            p.accept(',')
        p.next()
        ins.a = (callee, args)
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.next()
            to = unq(p.next())[1:]
            p.expect('unwind')
            p.next()
            ins.x = {'to': to, 'unwind': unq(p.next())[1:]}
    elif op == 'phi':
        ins.ty = p.type()
        inc = []
        while p.peek() == '[':
            p.next()
            v = p.value(ins.ty)
            p.expect(',')
            b = unq(p.next())[1:]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        ins.a = inc
    elif op == 'select':
        c = p.typed_value()
        p.expect(',')
        a = p.typed_value()
        p.expect(',')
        b = p.typed_value()
        ins.ty, ins.a = a[0], (c, a[1], b[1])
    elif op == 'extractvalue':
        ty, v = p.typed_value()
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        ins.ty, ins.a, ins.x = ty, v, ix
    elif op == 'insertvalue':
        ty, v = p.typed_value()
        p.expect(',')
        ety, ev = p.typed_value()
        ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        ins.ty, ins.a, ins.x = ty, (v, ety, ev), ix
    elif op == 'extractelement':
        ty, v = p.typed_value()
        p.expect(',')
        ity, iv = p.typed_value()
        ins.ty, ins.a = ty, (v, iv)
    elif op == 'insertelement':
        ty, v = p.typed_value()
        p.expect(',')
        ety, ev = p.typed_value()
        p.expect(',')
        ity, iv = p.typed_value()
        ins.ty, ins.a = ty, (v, ev, iv)
    elif op == 'shufflevector':
        ty, v = p.typed_value()
        p.expect(',')
        _, w = p.typed_value()
        p.expect(',')
        mty, mk = p.typed_value()
        ins.ty, ins.a = ty, (v, w, mty, mk)
    elif op in ('unreachable', 'fence'):
        pass
    elif op == 'landingpad':
        ins.ty = p.type()
    elif op == 'resume':
        ins.ty, ins.a = p.typed_value()
    elif op == 'fneg':
        ins.ty, ins.a = p.typed_value()
    elif op == 'freeze':
        ins.ty, ins.a = p.typed_value()
    elif op in ('atomicrmw', 'cmpxchg', 'va_arg'):
        ins.x = s
    else:
        raise Unsupported('instruction ' + s)
    return ins
