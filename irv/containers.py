"""Contracts of the standard containers (trusted): size + elements by index.

A container that lives at pointer `p` keeps its size in the special cell ('sz', p.off) of p's region; its elements live
one level deeper, under the step (p.off, index, element size, size).  Element layouts are listed by type name."""
import re
import z3
from core import *

INTS = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
        'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8}
KEY = z3.DeclareSort('AESKey')
AESKEYOBJ = 244


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def qualified(d):
    """demangled function name -> (qualified name without return type, argument text)"""
    i, depth, start, n = 0, 0, 0, len(d)
    while i < n:
        if d.startswith('operator', i) and (i == 0 or d[i - 1] in ': '):
            m = re.match(r'operator(\(\)|\[\]|<<=|>>=|<=>|->\*|->|<<|>>|<=|>=|<|>|[^\s\w(]+|\s+[\w: ]+[&*]*)', d[i:])
            if m and depth == 0:
                i += m.end()
                continue
        ch = d[i]
        if ch in '<[':
            depth += 1
        elif ch in '>]':
            depth -= 1
        elif ch == '(':
            if depth == 0:
                if d.startswith('(anonymous namespace)', i):
                    i += len('(anonymous namespace)')
                    continue
                return d[start:i], d[i + 1:d.rfind(')')]
            depth += 1
        elif ch == ')':
            depth -= 1
        elif ch == ' ' and depth == 0:
            start = i + 1
        i += 1
    return d[start:], ''


def member(d):
    """-> (class template name, template arguments, method, argument text) or None"""
    q, args = qualified(d)
    i = q.find('<')
    if i < 0:
        return None
    depth, j = 0, i
    while j < len(q):
        if q[j] == '<':
            depth += 1
        elif q[j] == '>':
            depth -= 1
            if depth == 0:
                break
        j += 1
    rest = q[j + 1:]
    if not rest.startswith('::'):
        return None
    m = rest[2:]
    if not m.startswith('operator'):
        m = m.split('<')[0]
    return q[:i], split_args(q[i + 1:j]), m, args


class Containers:
    def __init__(self, ex):
        self.ex = ex
        ex.cont = self
        ex.check_bounds = True
        self.layouts = {}         # type name -> (size, [(relshape, off, nbytes, sort)])
        on = ex.on
        on(r'(^|\s)std::vector<', self.vec)
        on(r'(^|\s)absl::debian3::InlinedVector<', self.vec)
        on(r'(^|\s)boost::container::vector<', self.vec)
        on(r'(^|\s)NTL::Vec<', self.vec)
        on(r'^std::(allocator|__new_allocator)<.*>::~?(allocator|__new_allocator)\(', lambda e, st, a, d: None)
        on(r'(^|\s)std::(min|max)<', self.minmax)
        on(r'(AlphaNum::AlphaNum|absl::debian3::StrCat|string_view::string_view|std::__cxx11::basic_string|std::basic_string_view|std::allocator<char>)', lambda e, st, a, d: UNDEF)
        on(r'^(ERR_get_error|ERR_reason_error_string|ERR_error_string)', lambda e, st, a, d: UNDEF)
        on(r'^std::unique_ptr<', self.uptr)
        on(r'^std::unique_ptr<.*> absl::debian3::WrapUnique<', lambda e, st, a, d: e.store(st, a[0], 64, a[1]))
        on(r'^std::unique_ptr<.*> absl::debian3::make_unique<', lambda e, st, a, d: NotImplemented)
        on(r'^operator new\(unsigned long\)$', lambda e, st, a, d: Ptr(e.new_obj('heap', a[0] if isinstance(a[0], int) else None)))
        on(r'^operator delete\(', lambda e, st, a, d: None)
        on(r'^__cxa_(free_exception|allocate_exception)', lambda e, st, a, d: Ptr(e.new_obj('exc')))
        on(r'^std::(runtime_error|logic_error|out_of_range|invalid_argument)::', lambda e, st, a, d: None)
        on(r'^__cxa_throw', lambda e, st, a, d: (_ for _ in ()).throw(PathEnd('throw', d)))
        on(r'^std::__throw_', lambda e, st, a, d: (_ for _ in ()).throw(PathEnd('throw', d)))
        on(r'^__clang_call_terminate', lambda e, st, a, d: (_ for _ in ()).throw(PathEnd('terminate', d)))
        on(r'^__assert_fail', lambda e, st, a, d: (_ for _ in ()).throw(PathEnd('assert', d)))
        on(r'^abort', lambda e, st, a, d: (_ for _ in ()).throw(PathEnd('abort', d)))

    # ---------------------------------------------------- layouts
    def sort(self, n):
        return z3.IntSort() if n <= 8 and self.ex.mode == 'int' else z3.BitVecSort(8 * n)

    def cells(self, t):
        """-> (size, [(relative shape, offset, bytes, scalar sort, zero value)])"""
        t = t.strip()
        t = re.sub(r' const$', '', t)
        if t in self.layouts:
            return self.layouts[t]
        if t in INTS:
            n = INTS[t]
            return n, [((), 0, n, self.sort(n), z3.IntVal(0) if self.ex.mode == 'int' else z3.BitVecVal(0, 8 * n))]
        if t in ('absl::debian3::uint128', 'unsigned __int128', '__int128', 'distributed_vector_ole::gf128'):
            return 16, [((), 0, 16, z3.BitVecSort(128), z3.BitVecVal(0, 128))]
        if t == 'aes_key_st':
            return AESKEYOBJ, [((), 0, AESKEYOBJ, KEY, z3.Const('no_key', KEY))]
        m = re.match(r'(std::vector|absl::debian3::InlinedVector|boost::container::vector|NTL::Vec)<(.*)>$', t)
        if m:
            a = split_args(m.group(2))
            sz = {'std::vector': 24, 'boost::container::vector': 24, 'NTL::Vec': 8}.get(m.group(1))
            _, inner = self.cells(a[0])
            if sz is None:
                sz = 8 + max(16, (int(re.sub(r'\D', '', a[1])) * self.cells(a[0])[0] + 7) // 8 * 8)
            r = sz, [((), ('sz', 0), 8, self.sort(8), z3.IntVal(0) if self.ex.mode == 'int' else z3.BitVecVal(0, 64))] + \
                [((0,) + sh, o, n, s, z) for sh, o, n, s, z in inner]
            self.layouts[t] = r
            return r
        raise Unsupported('element type ' + t)

    def arrs(self, sh, s):
        for _ in sh:
            s = z3.ArraySort(z3.IntSort(), s)
        return s

    def zero(self, sh, s, z):
        for _ in sh:
            z = z3.K(z3.IntSort(), z)
        return z

    # ---------------------------------------------------- typed reads and writes
    def where(self, p, sh, off):
        key = (p.obj, tuple(s[0] for s in p.steps) + (((p.off + sh[0],) + sh[1:]) if sh else ()))
        o = off if sh else (('sz', p.off + off[1]) if isinstance(off, tuple) else p.off + off)
        return key, o

    def read(self, st, p, t):
        """values of all cells of an object of type t at p"""
        ex = self.ex
        ex.bounds(st, p, 8)
        out = []
        for sh, off, n, s, z in self.cells(t)[1]:
            key, o = self.where(p, sh, off)
            reg = st.mem.get(key)
            if not sh and isinstance(o, int) and not (reg and o in reg and reg[o][0] == n):
                v = ex.load(st, Ptr(p.obj, p.steps, o), 8 * n)
                out.append(ex.coerce_to(v, z3.K(z3.IntSort(), z), 1, 8 * n) if v is not UNDEF else UNDEF)
                continue
            c = reg.get(o) if reg else None
            if c is None:
                c = (n, self.init(st, p, key, o, n, len(p.steps) + len(sh), s))
            x = ex.arr_get(c[1], ex.idx(p))
            out.append(ex.coerce_to(x, z3.K(z3.IntSort(), z), 1, 8 * n) if isinstance(x, int) else x)
        return out

    def init(self, st, p, key, o, n, depth, s):
        ex = self.ex
        lz = ex.objs[p.obj].get('lazy_cell')
        v = lz(ex, st, p, key, o, n, depth, s) if lz else None
        if v is None:
            if depth == 0:
                v = ex.fresh('%s_%s' % (ex.objs[p.obj]['name'], o), s)
            else:
                v = z3.Const('%s#%d_%s_%s' % (ex.objs[p.obj]['name'], p.obj, '.'.join(map(str, key[1])), o), self.arrs(range(depth), s))
        reg = dict(st.mem.get(key) or {})
        reg[o] = (n, v)
        st.mem[key] = reg
        if isinstance(o, tuple) and ex.mode == 'int':
            self.size_fact(st, v, depth)
        return v

    def size_fact(self, st, v, depth):
        js = [z3.Int('sz_j%d' % i) for i in range(depth)]
        t = v
        for j in js:
            t = z3.Select(t, j)
        f = z3.And(t >= 0, t < (1 << 56))
        if js:
            f = z3.ForAll(js, f)
        self.ex.facts.append(f)
        self.ex.assumptions.add('containers hold fewer than 2^56 elements')

    def write(self, st, p, t, vals):
        ex = self.ex
        ex.bounds(st, p, 8)
        for (sh, off, n, s, z), v in zip(self.cells(t)[1], vals):
            self.write_cell(st, p, sh, off, n, s, v)

    def write_cell(self, st, p, sh, off, n, s, v):
        ex = self.ex
        key, o = self.where(p, sh, off)
        if v is UNDEF and p.steps:
            v = ex.fresh('undef', s)
        if isinstance(v, int):
            v = ex.coerce_to(v, z3.K(z3.IntSort(), z3.Const('x', s)), 1, 8 * n)
        if not sh and isinstance(o, int) and not p.steps:
            ex.store(st, Ptr(p.obj, (), o), 8 * n, v)
            return
        reg = dict(st.mem.get(key) or {})
        if p.steps:
            c = reg.get(o)
            a = c[1] if c is not None else self.init(st, p, key, o, n, len(p.steps) + len(sh), s)
            reg = dict(st.mem.get(key) or {})
            reg[o] = (n, ex.arr_set(a, ex.idx(p), v))
        else:
            reg[o] = (n, v)
        st.mem[key] = reg

    # ---------------------------------------------------- vectors
    def size(self, st, p):
        v = self.read_cell(st, p, (), ('sz', 0), 8, self.sort(8))
        return norm_int(v, 64) if is_int(v) else v

    def read_cell(self, st, p, sh, off, n, s):
        key, o = self.where(p, sh, off)
        reg = st.mem.get(key)
        c = reg.get(o) if reg else None
        v = c[1] if c is not None else self.init(st, p, key, o, n, len(p.steps) + len(sh), s)
        return self.ex.arr_get(v, self.ex.idx(p))

    def set_size(self, st, p, n):
        self.write_cell(st, p, (), ('sz', 0), 8, self.sort(8), to_int(n, 64) if self.ex.mode == 'int' else bv(n, 64))

    def elem(self, st, p, i, t):
        return Ptr(p.obj, p.steps + ((p.off, i, self.cells(t)[0], self.size(st, p)),), 0)

    def arrays(self, st, p, t):
        """the element arrays of the vector at p, one per cell of t"""
        return [self.read_cell(st, p, (0,) + sh, off, n, s) for sh, off, n, s, z in self.cells(t)[1]]

    def set_arrays(self, st, p, t, arrs):
        for (sh, off, n, s, z), a in zip(self.cells(t)[1], arrs):
            self.write_cell(st, p, (0,) + sh, off, n, s, a)

    def fill(self, st, p, t, n, vals=None):
        self.set_size(st, p, n)
        cs = self.cells(t)[1]
        if vals is None:
            vals = [self.zero(sh, s, z) for sh, off, nb, s, z in cs]
        self.set_arrays(st, p, t, [z3.K(z3.IntSort(), v) for v in vals])

    def copy(self, st, d, s, t):
        if d.same(s):
            return
        n, arrs = self.size(st, s), self.arrays(st, s, t)
        self.set_size(st, d, n)
        self.set_arrays(st, d, t, arrs)

    def same_class(self, arg, cls):
        return arg.replace(' ', '').startswith(cls)

    readers = {}     # element type -> how an element is read that is moved into a container

    def vec(self, ex, st, a, d):
        m = member(d)
        if m is None:
            return NotImplemented
        cls, targs, meth, args = m
        if cls not in ('std::vector', 'absl::debian3::InlinedVector', 'boost::container::vector', 'NTL::Vec'):
            return NotImplemented
        t = targs[0]
        v = a[0]
        al = split_args(args)
        al = [x for x in al if 'allocator' not in x or x.startswith(('std::vector<', 'absl::debian3::InlinedVector<', '__gnu_cxx', 'std::initializer'))]
        short = cls.split('::')[-1]
        if meth in ('~' + short, 'reserve', 'shrink_to_fit'):
            return None
        if not isinstance(v, Ptr):
            raise Unsupported('container handle')
        if meth == short or meth == 'operator=' or meth == 'assign':
            ret = v if meth == 'operator=' else None
            if not al:
                self.fill(st, v, t, 0)
                return ret
            if al[0].startswith(cls + '<'):
                self.copy(st, v, a[1], t)
                if al[0].endswith('&&') and not v.same(a[1]):
                    self.set_size(st, a[1], 0)
                return ret
            if al[0] in INTS:
                if len(al) > 1:
                    self.fill(st, v, t, a[1], self.read(st, a[2], t))
                else:
                    self.fill(st, v, t, a[1])
                return ret
            if len(al) == 2 and isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
                self.from_range(st, v, t, a[1], a[2])
                return ret
            raise Unsupported('container constructor ' + d[:200])
        if meth in ('size', 'length'):
            return self.size(st, v)
        if meth == 'empty':
            return ex.icmp(st, 64, 'eq', self.size(st, v), 0)
        if meth in ('operator[]',):
            return self.elem(st, v, a[1], t)
        if meth in ('begin', 'cbegin', 'data', 'front'):
            return self.elem(st, v, 0, t)
        if meth in ('end', 'cend'):
            return self.elem(st, v, self.size(st, v), t)
        if meth == 'back':
            return self.elem(st, v, ex.iadd(self.size(st, v), mask(64)), t)
        if meth == 'clear':
            self.set_size(st, v, 0)
            return None
        if meth == 'pop_back':
            self.set_size(st, v, ex.iadd(self.size(st, v), mask(64)))
            return None
        if meth in ('push_back', 'emplace_back'):
            n = self.size(st, v)
            if len(al) == 1 and not re.sub(r'( const)?&+$', '', al[0]).strip() == t and not al[0].startswith(t):
                if t in INTS:
                    at = re.sub(r'( const)?&+$', '', al[0]).strip()
                    if at not in INTS:
                        raise Unsupported('emplace ' + d[:200])
                    x = ex.load(st, a[1], 8 * INTS[at])
                    vals = [to_int(x, 8 * INTS[at])]
                else:
                    raise Unsupported('emplace ' + d[:200])
            elif len(al) == 0:
                vals = [self.zero(sh, s, z) for sh, off, nb, s, z in self.cells(t)[1]]
            elif len(al) == 1:
                vals = self.readers.get(t, self.read)(st, a[1], t)
            else:
                raise Unsupported('emplace ' + d[:200])
            self.set_size(st, v, ex.iadd(n, 1))
            self.write(st, Ptr(v.obj, v.steps + ((v.off, n, self.cells(t)[0], None),), 0), t, vals)
            if al and al[-1].endswith('&&') and t.startswith('std::vector'):
                self.set_size(st, a[1], 0)
            return self.elem(st, v, n, t) if meth == 'emplace_back' else None
        if meth == 'priv_resize' and al and 'value_init_t' in args:
            meth, al = 'resize', al[:1]
        if meth == 'resize':
            old = self.size(st, v)
            if len(al) > 1:
                vals = self.read(st, a[2], t)
            else:
                vals = [self.zero(sh, s, z) for sh, off, nb, s, z in self.cells(t)[1]]
            arrs = self.arrays(st, v, t)
            if isinstance(old, int) and old == 0:
                new = [z3.K(z3.IntSort(), x) for x in vals]
            else:
                j = z3.Int('res_j')
                new = [z3.Lambda([j], z3.If(j < to_int(old, 64), z3.Select(A, j), x)) for A, x in zip(arrs, vals)]
            self.set_size(st, v, a[1])
            self.set_arrays(st, v, t, new)
            return None
        if meth == 'SetLength' and len(a) == 2:
            # new elements of a trivial type have arbitrary values
            old = to_int(self.size(st, v), 64)
            j = z3.Int('sl_j')
            new = [z3.Lambda([j], z3.If(j < old, z3.Select(A, j), z3.Select(ex.fresh('uninit', A.sort()), j))) if not z3.is_int_value(old) or old.as_long() else ex.fresh('uninit', A.sort()) for A in self.arrays(st, v, t)]
            self.set_size(st, v, a[1])
            self.set_arrays(st, v, t, new)
            return None
        if meth == 'insert' and len(al) == 3 and isinstance(a[2], Ptr) and isinstance(a[3], Ptr):
            return self.insert(st, v, t, a[1], a[2], a[3])
        if meth == 'swap':
            n1, A1 = self.size(st, v), self.arrays(st, v, t)
            n2, A2 = self.size(st, a[1]), self.arrays(st, a[1], t)
            self.set_size(st, v, n2)
            self.set_arrays(st, v, t, A2)
            self.set_size(st, a[1], n1)
            self.set_arrays(st, a[1], t, A1)
            return None
        raise Unsupported('container method %s::%s' % (cls, meth))

    def uptr(self, ex, st, a, d):
        """std::unique_ptr<T>: one cell holding the pointer"""
        m = member(d)
        if m is None or m[0] != 'std::unique_ptr':
            return NotImplemented
        meth, args, p = m[2], m[3], a[0]
        get = lambda q: ex.load(st, q, 64)
        if meth == 'unique_ptr':
            if len(a) == 1 or args.startswith('std::nullptr_t') or args.startswith('decltype(nullptr)'):
                ex.store(st, p, 64, NULL)
            elif args.startswith('std::unique_ptr'):
                ex.store(st, p, 64, get(a[1]))
                ex.store(st, a[1], 64, NULL)
            else:
                ex.store(st, p, 64, a[1])
            return None
        if meth == 'operator=':
            v = get(a[1])
            ex.store(st, a[1], 64, NULL)
            ex.store(st, p, 64, v)
            return p
        if meth in ('get', 'operator->', 'operator*'):
            return get(p)
        if meth == 'operator bool':
            v = get(p)
            return 0 if isinstance(v, Ptr) and v.obj is None else 1
        if meth == 'release':
            v = get(p)
            ex.store(st, p, 64, NULL)
            return v
        if meth == 'reset':
            ex.store(st, p, 64, a[1] if len(a) > 1 else NULL)
            return None
        if meth == '~unique_ptr':
            return None
        raise Unsupported('unique_ptr::' + meth)

    def rng(self, st, f, l):
        """(container of an element pointer, first index, count)"""
        if f.obj is None and l.obj is None and f.off == l.off:
            return None, 0, 0
        if not f.steps or not self.same_cont(f, l):
            raise Unsupported('iterator range')
        c = Ptr(f.obj, f.steps[:-1], f.steps[-1][0])
        i, k = f.steps[-1][1], l.steps[-1][1]
        if f.off != 0 or l.off != 0:
            raise Unsupported('iterator offset')
        n = z3.simplify(to_int(k, 64) - to_int(i, 64))
        return c, i, norm_int(n, 64)

    def same_cont(self, f, l):
        """do two element pointers belong to the same container?"""
        eq = lambda x, y: z3.is_true(z3.simplify(to_int(x, 64) == to_int(y, 64)))
        return f.obj == l.obj and [s[0] for s in f.steps] == [s[0] for s in l.steps] and all(eq(x[1], y[1]) for x, y in zip(f.steps[:-1], l.steps[:-1]))

    def from_range(self, st, v, t, f, l):
        c, i, n = self.rng(st, f, l)
        if c is None:
            self.fill(st, v, t, 0)
            return
        arrs = self.arrays(st, c, t)
        if not (isinstance(i, int) and i == 0):
            j = z3.Int('cp_j')
            arrs = [z3.Lambda([j], z3.Select(A, j + to_int(i, 64))) for A in arrs]
        self.set_size(st, v, n)
        self.set_arrays(st, v, t, arrs)

    def insert(self, st, v, t, pos, f, l):
        c, i, n = self.rng(st, f, l)
        old = self.size(st, v)
        if c is None:
            return pos
        if not pos.steps or not self.same_cont(pos, self.elem(st, v, 0, t)):
            raise Unsupported('insert position of another container')
        at = pos.steps[-1][1]
        A0, B = self.arrays(st, v, t), self.arrays(st, c, t)
        j = z3.Int('ins_j')
        at_, n_, i_ = to_int(at, 64), to_int(n, 64), to_int(i, 64)
        self.set_size(st, v, norm_int(to_int(old, 64) + n_, 64))
        self.set_arrays(st, v, t, [z3.Lambda([j], z3.If(j < at_, z3.Select(A, j), z3.If(j < at_ + n_, z3.Select(b, j - at_ + i_), z3.Select(A, j - n_)))) for A, b in zip(A0, B)])
        return pos

    def minmax(self, ex, st, a, d):
        q, args = qualified(d)
        m = re.match(r'std::(min|max)<([\w ]+)>$', q)
        if not m or m.group(2) not in INTS or len(a) != 2:
            return NotImplemented
        n = INTS[m.group(2)]
        x, y = ex.load(st, a[0], 8 * n), ex.load(st, a[1], 8 * n)
        c = ex.icmp(st, 8 * n, ('u' if m.group(2).startswith('unsigned') else 's') + 'lt', y, x)
        r = ex.ite(c, y, x, 8 * n) if m.group(1) == 'min' else ex.ite(c, x, y, 8 * n)
        if m.group(1) == 'max':
            c = ex.icmp(st, 8 * n, ('u' if m.group(2).startswith('unsigned') else 's') + 'lt', x, y)
            r = ex.ite(c, y, x, 8 * n)
        o = ex.new_obj('minmax', n)
        ex.store(st, Ptr(o), 8 * n, r)
        return Ptr(o)


TRUSTED = ['std::vector, absl::InlinedVector, boost::container::vector: size and element contracts; std::unique_ptr as a pointer cell; std::min, std::max; operator new returns fresh memory']
