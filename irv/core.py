"""Symbolic executor over LLVM IR with contracts.

The executor walks every path of a function.  Symbolic branches are merged at
the immediate post-dominator where that is possible, otherwise forked.  Calls
are either intercepted by a contract handler or executed in place.
"""
import re
import sys
import z3
from irparse import *
from vals import *

sys.setrecursionlimit(20000)


class Unmergeable(Exception):
    pass


class State:
    __slots__ = ('mem', 'pc', 'ghost', 'dead')

    def __init__(self):
        self.mem = {}      # (obj, shape) -> {off: (size, val)}
        self.pc = []       # path condition (z3 Bool / AnfZero)
        self.ghost = {}
        self.dead = False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, c):
        if c is True or (isinstance(c, int) and c):
            return
        self.pc.append(c)


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'where', 'info', 'status', 'time', 'backend', 'model', 'kind')

    def __init__(self, name, pc, goal, where='', info=None, kind='post'):
        self.name, self.pc, self.goal, self.where, self.info, self.kind = name, list(pc), goal, where, info, kind
        self.status = self.time = self.backend = self.model = None


class Frame:
    __slots__ = ('fn', 'rets', 'depth', 'allocas', 'iters', 'names')

    def __init__(self, fn, depth):
        self.fn, self.depth = fn, depth
        self.rets = []
        self.allocas = {}
        self.iters = {}
        self.names = {}


_HQ = {}
CLOSURES = []      # functions from a list of formulas to instances of the lemmas they need


def has_quant(e):
    k = e.get_id()
    h = _HQ.get(k)
    if h is not None and h[0].eq(e):
        return h[1]
    todo, seen, r = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                r = True
                break
            todo.append(x.body())
        elif z3.is_app(x):
            todo += x.children()
    if len(_HQ) > 200000:
        _HQ.clear()
    _HQ[k] = (e, r)
    return r


class Exec:
    memcpy_hook = None
    def __init__(self, mod, mode='bv', max_steps=3000000):
        self.mod = mod
        self.mode = mode
        self.handlers = []        # (compiled regex, handler)
        self._hcache = {}
        self.objs = {}            # id -> dict(name, size, lazy)
        self.nobj = 0
        self.globals = {}
        self.obls = []
        self.called = {}          # demangled name -> 'contract'|'inlined'
        self.assumptions = set()
        self.ends = []            # (st, kind, info) for paths that end abnormally
        self.steps = 0
        self.max_steps = max_steps
        self.loop_specs = []      # (regex, ordinal or None, spec)
        self.solver_time = 0.0
        self.solver_calls = 0
        self.fresh_n = 0
        self.check_arith = False  # emit signed overflow obligations (int mode)
        self.check_bounds = False
        self.anf_lin = {}
        self._prove_cache = {}
        self.feas_timeout = 3000
        self.merge = True
        self.facts = []           # background axioms used for feasibility / quick proofs
        self.where = []
        self.max_unroll = 5000
        self.debug = False
        self.quiet = 0
        self.mul_hook = self.div_hook = None      # products and quotients by a symbolic constant
        self.traps = []           # loops being unrolled: (frame, body)

    # ------------------------------------------------------------ objects
    def new_obj(self, name, size=None, lazy=None, **kw):
        self.nobj += 1
        d = dict(name=name, size=size, lazy=lazy)
        d.update(kw)
        self.objs[self.nobj] = d
        return self.nobj

    def fresh(self, hint, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (hint, self.fresh_n), sort)

    # ------------------------------------------------------------ solver
    def zpc(self, st):
        return [c for c in st.pc if z3.is_expr(c)]

    def check(self, fs, timeout=None, quant=None, close=True):
        """satisfiability; quantified facts are only used when the others do not suffice (quant: their time limit in ms)"""
        import time
        t = time.time()
        timeout = timeout or self.feas_timeout
        fs = list(self.facts) + list(fs)
        for c in CLOSURES if close else ():
            fs += c(fs)
        qs = [f for f in fs if has_quant(f)]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*[f for f in fs if not has_quant(f)])
        r = s.check()
        if qs and r != z3.unsat:
            s2 = z3.Solver()
            s2.set("timeout", min(timeout, quant or 1000))
            s2.add(*fs)
            r2 = s2.check()
            r = r2 if r2 != z3.unknown else z3.unknown
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r

    def feasible(self, st, c):
        c = z3.simplify(c) if z3.is_expr(c) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(self.zpc(st) + [c], quant=400, close=False) != z3.unsat

    def entails(self, st, c):
        """quick proof under the path condition"""
        if isinstance(c, (bool, int)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), tuple(x.get_id() for x in st.pc if z3.is_expr(x)))
        v = self._prove_cache.get(key)
        if v is None:
            v = (self.check(self.zpc(st) + [z3.Not(c)]) == z3.unsat, c, list(st.pc))
            self._prove_cache[key] = v
        return v[0]

    def oblige(self, name, st, goal, info=None, kind='post'):
        if self.quiet:
            return
        g = z3.simplify(goal) if z3.is_expr(goal) else goal
        self.obls.append(Obligation(name, st.pc, g, self.loc(), info, kind))

    def loc(self):
        return ' > '.join(self.where[-3:])

    # ------------------------------------------------------------ memory
    def region(self, st, p):
        key = (p.obj, tuple(s[0] for s in p.steps))
        return key, st.mem.get(key)

    def idx(self, p):
        return [s[1] for s in p.steps]

    def lazy_val(self, p, off, nbits, st, sort=None):
        o = self.objs[p.obj]
        lz = o.get('lazy')
        if lz is None:
            return UNDEF
        return lz(self, p, off, nbits, len(p.steps))

    def bounds(self, st, p, n):
        if p.obj is None:
            if st.pc and self.check(self.zpc(st)) == z3.unsat:
                st.dead = True
                raise Infeasible()
            raise Unsupported('null dereference')
        for s in p.steps:
            if self.check_bounds and s[3] is not None:
                i, b = s[1], s[3]
                i = to_int(i, 64)
                b = to_int(b, 64)
                g = z3.And(i >= 0, i < b)
                self.oblige('bounds', st, g, info=str(s[0]), kind='safety')
                if z3.is_expr(g) and not z3.is_true(z3.simplify(g)):
                    st.pc.append(g)

    def load(self, st, p, nbits, ty=None):
        if not isinstance(p, Ptr):
            raise Unsupported('load from %r' % (p,))
        self.bounds(st, p, nbits)
        n = (nbits + 7) // 8
        if z3.is_expr(p.off):
            return self.load_symoff(st, p, nbits, ty)
        key, reg = self.region(st, p)
        if p.steps:
            return self.load_indexed(st, key, reg, p, n, nbits, ty)
        if reg is not None:
            c = reg.get(p.off)
            if c is not None and c[0] == n:
                return c[1]
        if not isinstance(p.off, int):
            v = self.lazy_val(p, p.off, nbits, st)
            reg = dict(reg or {})
            reg[p.off] = (n, v)
            st.mem[key] = reg
            return v
        # gather
        reg = dict(reg or {})
        parts = []
        pos = p.off
        end = p.off + n
        while pos < end:
            hit = None
            for o, (s, v) in reg.items():
                if isinstance(o, int) and o <= pos < o + s:
                    hit = (o, s, v)
                    break
            if hit is None:
                nxt = min([o for o in reg if isinstance(o, int) and o > pos] + [end])
                v = self.lazy_val(p, pos, 8 * (nxt - pos), st)
                reg[pos] = (nxt - pos, v)
                st.mem[key] = reg
                hit = (pos, nxt - pos, v)
            o, s, v = hit
            take = min(end, o + s) - pos
            if take == s and o == pos:
                parts.append((v, 8 * s))
            else:
                parts.append((extract(v, 8 * (pos - o), 8 * take, 8 * s), 8 * take))
            pos += take
        return concat(parts)

    def load_symoff(self, st, p, nbits, ty):
        raise Unsupported('symbolic byte offset')

    def sort_for(self, nbits, ty):
        if ty is not None and ty.k == 'f':
            return z3.RealSort()
        if self.mode == 'int' and nbits <= 64:
            return z3.IntSort()
        return z3.BitVecSort(nbits)

    def arr_get(self, a, idx):
        for i in idx:
            a = z3.Select(a, to_int(i, 64))
        return a

    def arr_set(self, a, idx, v):
        if not idx:
            return v
        i = to_int(idx[0], 64)
        return z3.Store(a, i, self.arr_set(z3.Select(a, i), idx[1:], v))

    def arr_sort(self, n, sort):
        for _ in range(n):
            sort = z3.ArraySort(z3.IntSort(), sort)
        return sort

    def init_arr(self, p, off, n, sort):
        o = self.objs[p.obj]
        lz = o.get('lazy_arr')
        if lz:
            v = lz(self, p, off, n, sort)
            if v is not None:
                return v
        nm = '%s#%d_%s_%s' % (o['name'], p.obj, '.'.join(str(s[0]) for s in p.steps), off)
        return z3.Const(nm, self.arr_sort(len(p.steps), sort))

    def split_elems(self, p, n):
        """an access that covers several whole elements of the innermost container"""
        es = p.steps[-1][2]
        if p.off == 0 and n > es and n % es == 0:
            tag, i, _, b = p.steps[-1]
            return [Ptr(p.obj, p.steps[:-1] + ((tag, self.iadd(i, k), es, b),), 0) for k in range(n // es)]
        return None

    def load_indexed(self, st, key, reg, p, n, nbits, ty):
        sp = self.split_elems(p, n) if isinstance(p.off, int) else None
        if sp:
            es = p.steps[-1][2]
            return concat([(self.load(st, q, 8 * es), 8 * es) for q in sp])
        c = reg.get(p.off) if reg else None
        if c is None and reg and isinstance(p.off, int):
            for o, (s, v) in reg.items():
                if isinstance(o, int) and o <= p.off and p.off + n <= o + s and (o, s) != (p.off, n):
                    whole = self.arr_get(v, self.idx(p))
                    return extract(whole, 8 * (p.off - o), nbits, 8 * s)
        if c is not None and c[0] != n:
            if c[0] > n:
                return extract(self.arr_get(c[1], self.idx(p)), 0, nbits, 8 * c[0])
            # gather several cells
            parts = []
            pos = p.off
            while pos < p.off + n:
                cc = reg.get(pos)
                if cc is None:
                    raise Unsupported('indexed gather')
                parts.append((self.arr_get(cc[1], self.idx(p)), 8 * cc[0]))
                pos += cc[0]
            if pos != p.off + n:
                raise Unsupported('indexed gather size')
            return concat(parts)
        if c is None:
            arr = self.init_arr(p, p.off, n, self.sort_for(nbits, ty))
            reg = dict(reg or {})
            reg[p.off] = (n, arr)
            st.mem[key] = reg
            c = reg[p.off]
        return self.arr_get(c[1], self.idx(p))

    def store(self, st, p, nbits, v, ty=None):
        if not isinstance(p, Ptr):
            raise Unsupported('store to %r' % (p,))
        self.bounds(st, p, nbits)
        n = (nbits + 7) // 8
        if nbits % 8 and isinstance(v, Anf):
            v = Anf(v.bits + (P0,) * (8 * n - nbits))
        if z3.is_expr(p.off):
            raise Unsupported('symbolic byte offset store')
        key, reg = self.region(st, p)
        reg = dict(reg or {})
        st.mem[key] = reg
        if p.steps:
            return self.store_indexed(st, key, reg, p, n, nbits, v, ty)
        off = p.off
        if isinstance(off, int):
            c = reg.get(off)
            if not (c is not None and c[0] == n):
                for o in [o for o in reg if isinstance(o, int) and o < off + n and o + reg[o][0] > off]:
                    s, w = reg.pop(o)
                    if o < off:
                        reg[o] = (off - o, extract(w, 0, 8 * (off - o), 8 * s))
                    if o + s > off + n:
                        reg[off + n] = (o + s - off - n, extract(w, 8 * (off + n - o), 8 * (o + s - off - n), 8 * s))
        reg[off] = (n, v)

    def store_indexed(self, st, key, reg, p, n, nbits, v, ty):
        sp = self.split_elems(p, n) if isinstance(p.off, int) else None
        if sp:
            es = p.steps[-1][2]
            for k, q in enumerate(sp):
                self.store(st, q, 8 * es, extract(v, 8 * es * k, 8 * es, nbits))
            return
        c = reg.get(p.off)
        if c is None and isinstance(p.off, int):
            for o, (s, a) in list(reg.items()):
                if isinstance(o, int) and o <= p.off and p.off + n <= o + s:
                    whole = self.arr_get(a, self.idx(p))
                    parts = []
                    if p.off > o:
                        parts.append((extract(whole, 0, 8 * (p.off - o), 8 * s), 8 * (p.off - o)))
                    parts.append((v, nbits))
                    if o + s > p.off + n:
                        parts.append((extract(whole, 8 * (p.off + n - o), 8 * (o + s - p.off - n), 8 * s), 8 * (o + s - p.off - n)))
                    reg[o] = (s, self.arr_set(a, self.idx(p), bv(concat(parts), 8 * s)))
                    return
        if c is not None and c[0] != n:
            if c[0] > n:
                whole = self.arr_get(c[1], self.idx(p))
                w = concat([(v, 8 * n), (extract(whole, 8 * n, 8 * (c[0] - n), 8 * c[0]), 8 * (c[0] - n))])
                reg[p.off] = (c[0], self.arr_set(c[1], self.idx(p), bv(w, 8 * c[0])))
                return
            pos = p.off
            while pos < p.off + n and pos in reg and pos + reg[pos][0] <= p.off + n:
                s, a = reg[pos]
                reg[pos] = (s, self.arr_set(a, self.idx(p), self.coerce_to(extract(v, 8 * (pos - p.off), 8 * s, nbits), a, len(p.steps), 8 * s)))
                pos += s
            if pos != p.off + n:
                raise Unsupported('indexed store size')
            return
        if c is None:
            sort = v.sort() if z3.is_expr(v) and not is_bool(v) else self.sort_for(nbits, ty)
            a = self.init_arr(p, p.off, n, sort)
        else:
            a = c[1]
        reg[p.off] = (n, self.arr_set(a, self.idx(p), self.coerce_to(v, a, len(p.steps), nbits)))

    def coerce_to(self, v, arr, k, nbits):
        s = arr.sort()
        for _ in range(k):
            s = s.range()
        if z3.is_expr(v) and v.sort().eq(s):
            return v
        if s == z3.IntSort():
            return to_int(v, nbits)
        if z3.is_bv_sort(s):
            return bv(v, s.size())
        if s == z3.RealSort() and isinstance(v, (float, int)):
            return z3.RealVal(v)
        if s == z3.BoolSort():
            return to_bool(v)
        raise Unsupported('coerce %r to %s' % (v, s))

    # copy of a whole object tree (contracts for containers)
    def tree_get(self, st, p, tag=None):
        """all cells of the sub-tree rooted at the container `p` (p.off is the container's offset)"""
        pre = tuple(s[0] for s in p.steps) + ((p.off if tag is None else tag),)
        out = {}
        for (o, sh), reg in st.mem.items():
            if o == p.obj and sh[:len(pre)] == pre:
                out[sh[len(pre):]] = {k: (s, self.arr_get(v, self.idx(p))) for k, (s, v) in reg.items()}
        return out

    def memcpy(self, st, d, s, n):
        if self.memcpy_hook is not None and self.memcpy_hook(self, st, d, s, n):
            return
        if isinstance(n, int):
            if n == 0:
                return
            if d.same(s):
                return
            self.bounds(st, s, 8 * n)
            self.bounds(st, d, 8 * n)
            key, reg = self.region(st, s)
            todo = []
            for q, other in ((s, d), (d, s)):
                if q.steps and q.off == 0 and n > q.steps[-1][2]:
                    sp = self.split_elems(q, n)
                    if sp is None:
                        raise Unsupported('memcpy of part of an array')
                    es = q.steps[-1][2]
                    for k, e in enumerate(sp):
                        o = self.ptr_add(st, other, k * es)
                        self.memcpy(st, *((o, e) if q is s else (e, o)), es)
                    return
            if s.steps or d.steps:
                # cell-wise through indexed access
                if isinstance(s.off, int) and reg and any(isinstance(o, int) and s.off <= o < s.off + n for o in reg):
                    pos = s.off
                    while pos < s.off + n:
                        c = reg.get(pos)
                        if c is None:
                            nx = [o for o in reg if isinstance(o, int) and o > pos]
                            pos = min(nx) if nx else s.off + n
                            continue
                        sz = min(c[0], s.off + n - pos)
                        todo.append((pos - s.off, sz, self.load(st, Ptr(s.obj, s.steps, pos), 8 * sz)))
                        pos += sz
                else:
                    todo.append((0, n, self.load(st, s, 8 * n)))
            else:
                reg = reg or {}
                pos = s.off
                end = s.off + n
                while pos < end:
                    c = reg.get(pos)
                    if c is not None and pos + c[0] <= end:
                        todo.append((pos - s.off, c[0], c[1]))
                        pos += c[0]
                        continue
                    hit = [o for o in reg if isinstance(o, int) and o < pos < o + reg[o][0]]
                    nx = min([o for o in reg if isinstance(o, int) and o > pos] + [end])
                    if hit or (c is not None):
                        o = hit[0] if hit else pos
                        take = min(end, o + reg[o][0]) - pos
                        todo.append((pos - s.off, take, self.load(st, Ptr(s.obj, s.steps, pos), 8 * take)))
                        pos += take
                    else:
                        if self.objs[s.obj].get('lazy'):
                            todo.append((pos - s.off, nx - pos, self.load(st, Ptr(s.obj, s.steps, pos), 8 * (nx - pos))))
                        pos = nx
            for o, sz, v in todo:
                self.store(st, d.field(o), 8 * sz, v)
            return
        raise Unsupported('memcpy of symbolic size')

    # ------------------------------------------------------------ operands
    def global_ptr(self, name, st):
        if name in self.mod.functions or name in self.mod.decls:
            return Fn(name)
        if name not in self.globals:
            gi = self.mod.global_init(name)
            if gi and gi[0] == 'alias':
                v = self.operand({}, gi[1], gi[2], st)
                return v
            ty = gi[1] if gi else None
            o = self.new_obj('@' + name, self.mod.size(ty) if ty is not None and not (ty.k == 'struct' and ty.fields is None) else None)
            self.objs[o]['global'] = name
            self.objs[o]['init'] = gi
            self.globals[name] = o
            self.objs[o]['const'] = bool(gi and gi[0] == 'constant')
            if gi and gi[2] is not None:
                tmp = State()
                try:
                    self.init_const(tmp, Ptr(o), gi[1], gi[2])
                    cells = dict(tmp.mem.get((o, ()), {}))
                    self.objs[o]['cells'] = cells
                    self.objs[o]['lazy'] = self.lazy_global
                except Unsupported:
                    pass
        return Ptr(self.globals[name])

    def lazy_global(self, ex, p, off, nbits, nidx):
        cells = self.objs[p.obj]['cells']
        parts = []
        pos, end = off, off + nbits // 8
        while pos < end:
            hit = [o for o in cells if o <= pos < o + cells[o][0]]
            if not hit:
                parts.append((0, 8))
                pos += 1
                continue
            o = hit[0]
            s, v = cells[o]
            take = min(end, o + s) - pos
            parts.append((v if take == s else extract(v, 8 * (pos - o), 8 * take, 8 * s), 8 * take))
            pos += take
        return concat(parts)

    def init_const(self, st, p, ty, v):
        k = v[0]
        if k == 'zero':
            sz = self.mod.size(ty)
            if sz:
                self.store(st, p, 8 * sz, 0)
        elif k == 'agg':
            for i, (t, e) in enumerate(v[1]):
                off = self.mod.field_off(ty, i) if ty.k == 'struct' else i * self.mod.size(ty.el)
                self.init_const(st, p.field(off), t, e)
        elif k == 'str':
            self.store(st, p, 8 * len(v[1]), int.from_bytes(v[1], 'little'))
        elif k == 'undef':
            pass
        elif k == 'f':
            self.store(st, p, 8 * self.mod.size(ty), v[1], ty)
        else:
            self.store(st, p, 8 * self.mod.size(ty), self.operand({}, ty, v, st))

    def operand(self, regs, ty, v, st):
        k = v[0]
        if k == 'r':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('register %' + v[1] + ' lost in a merge')
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.global_ptr(v[1], st)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'f':
            return v[1]
        if k == 'zero':
            if ty.k in ('i', 'vec'):
                return 0
            if ty.k == 'ptr':
                return NULL
            if ty.k == 'f':
                return 0.0
            return self.zero_agg(ty)
        if k == 'agg':
            if ty.k == 'vec':
                eb = 8 * self.mod.size(ty.el) if ty.el.k != 'i' else ty.el.n
                return concat([(self.operand(regs, t, e, st), eb) for t, e in v[1]])
            return [self.operand(regs, t, e, st) for t, e in v[1]]
        if k == 'cegep':
            base = self.operand(regs, v[2][0][0], v[2][0][1], st)
            return self.gep(st, v[1], base, [(t, self.operand(regs, t, e, st)) for t, e in v[2][1:]])
        if k == 'cecast':
            x = self.operand(regs, v[2], v[3], st)
            return x
        raise Unsupported('operand %r' % (v,))

    def zero_agg(self, ty):
        if ty.k == 'struct':
            return [self.zero_agg(f) for f in ty.fields]
        if ty.k == 'arr':
            return [self.zero_agg(ty.el) for _ in range(ty.n)]
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'f':
            return 0.0
        return 0

    # ------------------------------------------------------------ gep
    def gep(self, st, sty, base, idx):
        if isinstance(base, Fn):
            raise Unsupported('gep on function')
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        p = base
        t = sty
        first = True
        off = 0
        sym = []     # symbolic (index, scale)
        for ity, i in idx:
            if first:
                sz = self.mod.size(t)
                first = False
            elif t.k == 'struct':
                off += self.mod.field_off(t, i)
                t = t.fields[i]
                continue
            elif t.k in ('arr', 'vec'):
                t = t.el
                sz = self.mod.size(t)
            else:
                raise Unsupported('gep into %r' % t)
            if isinstance(i, int):
                off += to_signed(i, ity.n) * sz
            elif i is UNDEF:
                raise Unsupported('gep by undef')
            else:
                sym.append((i, sz))
        return self.ptr_add(st, p, off, sym)

    def ptr_add(self, st, p, off, sym=()):
        if off == 0 and not sym:
            return p
        if p.obj is None:
            if not sym:
                return Ptr(None, (), p.off + off)
            raise Unsupported('null pointer arithmetic')
        if not p.steps:
            if sym:
                return self.sym_flat(st, p, off, sym)
            return p.field(off)
        tag, i, es, b = p.steps[-1]
        o = p.off
        if not isinstance(o, int):
            raise Unsupported('arithmetic on special cell')
        for s, sc in sym:
            if sc % es == 0:
                f = sc // es
                i = self.iadd(i, s if f == 1 else to_int(s, 64) * f)
            else:
                return self.sym_scaled(st, p, off, sym)
        o += off
        if o < 0 or o >= es:
            # one-past iteration inside an element-size view
            q, o = divmod(o, es)
            i = self.iadd(i, q & mask(64))
        return Ptr(p.obj, p.steps[:-1] + ((tag, i, es, b),), o)

    def sym_scaled(self, st, p, off, sym):
        raise Unsupported('scaled symbolic offset')

    def sym_flat(self, st, p, off, sym):
        raise Unsupported('symbolic offset into a flat object')

    def iadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & mask(64)
        r = z3.simplify(to_int(a, 64) + to_int(b, 64))
        if z3.is_int_value(r):
            return r.as_long() & mask(64)
        return r

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, ins, n, op, a, b, fl):
        if isinstance(a, int) and isinstance(b, int):
            return concrete_bin(op, n, a, b)
        if a is UNDEF or b is UNDEF:
            if op in ('xor', 'and') and a is b:
                return UNDEF
            raise Unsupported('arithmetic on undef')
        if isinstance(a, AnfZero) or isinstance(b, AnfZero):
            if n == 1 and op == 'xor' and (a == 1 or b == 1):
                c = a if isinstance(a, AnfZero) else b
                return AnfZero(c.polys, not c.neg)
            raise Unsupported('ANF condition arithmetic')
        if isinstance(a, Anf) or isinstance(b, Anf):
            return anf_bin(op, n, a, b)
        h = getattr(a, 'binop', None) or getattr(b, 'binop', None)
        if h:
            return h(self, st, op, n, a, b)
        if n == 1:
            A, B = to_bool(a), to_bool(b)
            if op == 'xor':
                return simp(z3.Xor(A, B))
            if op == 'and':
                return simp(z3.And(A, B))
            if op == 'or':
                return simp(z3.Or(A, B))
            raise Unsupported('i1 ' + op)
        if is_bv(a) or is_bv(b):
            if is_int(a) or is_int(b):
                if self.mode == 'int' and op in ('add', 'sub', 'mul') and n <= 64:
                    return self.int_bin(st, op, n, a, b, fl)
            return self.bv_bin(op, n, bv(a, n), bv(b, n), st)
        return self.int_bin(st, op, n, a, b, fl)

    def bv_bin(self, op, n, a, b, st):
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            self.shift_ok(st, n, b)
            r = a << b
        elif op == 'lshr':
            self.shift_ok(st, n, b)
            r = z3.LShR(a, b)
        elif op == 'ashr':
            self.shift_ok(st, n, b)
            r = a >> b
        elif op == 'udiv':
            self.div_ok(st, b)
            r = z3.UDiv(a, b)
        elif op == 'urem':
            self.div_ok(st, b)
            h = getattr(self, 'urem_hook', None)
            r = h(st, n, a, b) if h else None
            if r is None:
                r = z3.URem(a, b)
            elif isinstance(r, int):
                return r
        elif op == 'sdiv':
            self.div_ok(st, b)
            r = a / b
        elif op == 'srem':
            self.div_ok(st, b)
            r = z3.SRem(a, b)
        else:
            raise Unsupported(op)
        return simp(r)

    def shift_ok(self, st, n, b):
        if not z3.is_bv_value(b):
            self.oblige('shift amount below width', st, z3.ULT(b, n), kind='safety')

    def div_ok(self, st, b):
        if not z3.is_bv_value(b):
            self.oblige('division by non-zero', st, b != 0, kind='safety')

    def nonneg(self, st, a, n):
        if isinstance(a, int):
            return to_signed(a, n) >= 0
        return self.entails(st, to_int(a, n) >= 0)

    def unsigned(self, st, a, n):
        if isinstance(a, int):
            return z3.IntVal(a)
        A = to_int(a, n)
        if self.nonneg(st, a, n):
            return A
        return z3.If(A < 0, A + (1 << n), A)

    def wrap(self, st, r, n, hint=None):
        """reduce a mathematical integer into the signed range of n bits"""
        r = z3.simplify(r)
        if z3.is_int_value(r):
            return r.as_long() & mask(n)
        lo, hi = -(1 << (n - 1)), 1 << (n - 1)
        if self.entails(st, z3.And(r >= lo, r < hi)):
            return r
        return z3.simplify((r + hi) % (1 << n) - hi)

    def int_bin(self, st, op, n, a, b, fl):
        A, B = to_int(a, n), to_int(b, n)
        if op in ('add', 'sub', 'mul'):
            r = A + B if op == 'add' else A - B if op == 'sub' else A * B
            if op == 'mul' and self.mul_hook:
                h = self.mul_hook(A, B)
                r = r if h is None else h
            r = z3.simplify(r)
            if z3.is_int_value(r):
                return r.as_long() & mask(n)
            if 'nsw' in fl and n >= 32:
                if self.check_arith:
                    lo, hi = -(1 << (n - 1)), 1 << (n - 1)
                    g = z3.And(r >= lo, r < hi)
                    self.oblige('no signed overflow in ' + op, st, g, kind='arith')
                    st.pc.append(g)
                return r
            return self.wrap(st, r, n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u':
                X, Y = self.unsigned(st, a, n), self.unsigned(st, b, n)
                r = X / Y if op == 'udiv' else X % Y
                self.div_ok_int(st, Y)
                h = self.div_hook(op[1:], X, Y) if self.div_hook else None
                r = r if h is None else h
                return self.wrap(st, r, n)
            self.div_ok_int(st, B)
            if self.entails(st, z3.And(A >= 0, B > 0)):
                r = A / B if op == 'sdiv' else A % B
                h = self.div_hook(op[1:], A, B) if self.div_hook else None
                r = r if h is None else h
                return norm_int(r, n)
            q = z3.If(A >= 0, z3.If(B > 0, A / B, -(A / -B)), z3.If(B > 0, -((-A) / B), (-A) / (-B)))
            return norm_int(q if op == 'sdiv' else A - q * B, n)
        if op == 'shl' and isinstance(b, int):
            return self.wrap(st, A * (1 << b), n)
        if op == 'shl' and isinstance(a, int):
            raise Unsupported('symbolic shift amount in integer mode')
        if op == 'lshr' and isinstance(b, int):
            return norm_int(self.unsigned(st, a, n) / (1 << b), n)
        if op == 'ashr' and isinstance(b, int):
            return norm_int(A / (1 << b), n)
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and (y + 1) & y == 0 and y:
                    return norm_int(self.unsigned(st, x, n) % (y + 1), n) if y != mask(n) else x
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y == mask(n):
                    return norm_int(-to_int(x, n) - 1, n)
        h = getattr(self, 'int_bit_hook', None)
        if h:
            r = h(st, op, n, a, b)
            if r is not None:
                return r
        raise Unsupported('integer-mode ' + op)

    def div_ok_int(self, st, b):
        if not z3.is_int_value(b):
            self.oblige('division by non-zero', st, b != 0, kind='safety')

    def icmp(self, st, n, pred, a, b, ty=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_cmp(st, pred, a, b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            r = a == b
            return int(r if pred == 'eq' else not r)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (to_signed(a, n), to_signed(b, n)) if pred[0] == 's' else (a, b)
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred if pred in ('eq', 'ne') else pred[1:]])
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison with undef')
        if isinstance(a, AnfZero) or isinstance(b, AnfZero):
            c, k = (a, b) if isinstance(a, AnfZero) else (b, a)
            if isinstance(k, int) and pred in ('eq', 'ne'):
                flip = (k == 0) == (pred == 'eq')
                return AnfZero(c.polys, not c.neg) if flip else c
            raise Unsupported('ANF cond cmp')
        if isinstance(a, Anf) or isinstance(b, Anf):
            A, B = to_anf(a, n).bits, to_anf(b, n).bits
            if pred in ('eq', 'ne'):
                d = [x ^ y for x, y in zip(A, B) if x != y]
                if not d:
                    return int(pred == 'eq')
                if len(d) == 1:
                    return anf_norm(Anf([d[0] if pred == 'ne' else d[0] ^ P1]))
                if P1 in d:
                    return int(pred == 'ne')
                return AnfZero(d, pred == 'ne')
            # sign tests
            if pred == 'slt' and b == 0:
                return anf_norm(Anf([A[-1]]))
            if pred == 'sge' and b == 0:
                return anf_norm(Anf([A[-1] ^ P1]))
            if pred == 'sgt' and b == mask(n):
                return anf_norm(Anf([A[-1] ^ P1]))
            raise Unsupported('ANF icmp ' + pred)
        h = getattr(a, 'icmp', None) or getattr(b, 'icmp', None)
        if h:
            return h(self, st, pred, n, a, b)
        if n == 1:
            A, B = to_bool(a), to_bool(b)
            if pred == 'eq':
                return simp(A == B)
            if pred == 'ne':
                return simp(z3.Xor(A, B))
            raise Unsupported('i1 cmp')
        if is_bv(a) or is_bv(b):
            A, B = bv(a, n), bv(b, n)
            f = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
                 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B,
                 'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]
            return simp(f())
        if pred in ('eq', 'ne'):
            A, B = to_int(a, n), to_int(b, n)
            return simp(A == B if pred == 'eq' else A != B)
        if pred[0] == 'u':
            A, B = self.unsigned(st, a, n), self.unsigned(st, b, n)
        else:
            A, B = to_int(a, n), to_int(b, n)
        o = pred[1:]
        return simp({'gt': A > B, 'ge': A >= B, 'lt': A < B, 'le': A <= B}[o])

    def ptr_cmp(self, st, pred, a, b):
        if isinstance(a, int):
            a = Ptr(None, (), a)
        if isinstance(b, int):
            b = Ptr(None, (), b)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer comparison')
        sym = [self.objs[x.obj].get('maybe_null') for x in (a, b) if x.obj is not None]
        if a.obj is None or b.obj is None:
            if a.obj is None and b.obj is None:
                r = a.off == b.off
            else:
                x = a if a.obj is not None else b
                nn = self.objs[x.obj].get('is_null')
                if nn is not None and not x.steps:
                    return simp(nn if pred == 'eq' else z3.Not(nn))
                r = False
            if pred == 'eq':
                return int(r)
            if pred == 'ne':
                return int(not r)
            raise Unsupported('ordered comparison with null')
        if a.obj != b.obj:
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            raise Unsupported('ordered pointer comparison across objects')
        if [s[0] for s in a.steps] != [s[0] for s in b.steps]:
            raise Unsupported('pointer comparison shape')
        if not a.steps:
            x, y = a.off, b.off
            return int({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y}[pred])
        pre = []
        for s, t in zip(a.steps[:-1], b.steps[:-1]):
            if not eqv(s[1], t[1]):
                pre.append(to_int(s[1], 64) == to_int(t[1], 64))
        x, y = to_int(a.steps[-1][1], 64), to_int(b.steps[-1][1], 64)
        ox, oy = a.off, b.off
        es = a.steps[-1][2]
        x, y = x * es + ox, y * es + oy
        if pre:
            if pred == 'eq':
                return simp(z3.And(*pre, x == y))
            if pred == 'ne':
                return simp(z3.Not(z3.And(*pre, x == y)))
            raise Unsupported('ordered pointer comparison')
        return simp({'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y}[pred])

    def cast(self, st, op, fty, v, tty, fl):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj is None:
                return v.off
            return v           # kept symbolic as a pointer
        if op == 'inttoptr':
            if isinstance(v, int):
                return Ptr(None, (), v)
            return v
        if isinstance(v, Ptr):
            raise Unsupported('cast of pointer')
        if op in ('zext', 'sext', 'trunc'):
            if fty.k == 'vec':
                return self.vec_cast(op, fty, v, tty)
            n, m = fty.n, tty.n
            if isinstance(v, int):
                if op == 'zext':
                    return v
                if op == 'sext':
                    return to_signed(v, n) & mask(m)
                return v & mask(m)
            if isinstance(v, AnfZero):
                return v        # i1 condition widened; compared or truncated later
            if isinstance(v, Anf):
                if op == 'zext':
                    return Anf(v.bits + (P0,) * (m - n))
                if op == 'sext':
                    return Anf(v.bits + (v.bits[-1],) * (m - n))
                return anf_norm(Anf(v.bits[:m]))
            h = getattr(v, 'cast', None)
            if h:
                return h(self, st, op, n, m)
            if is_bool(v):
                if op == 'trunc':
                    raise Unsupported('trunc of bool')
                if op == 'sext':
                    return bv(v, m) * z3.BitVecVal(mask(m), m)
                if self.mode == 'bv':
                    return bv(v, m)
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if is_bv(v):
                if op == 'zext':
                    return simp(z3.ZeroExt(m - n, v))
                if op == 'sext':
                    return simp(z3.SignExt(m - n, v))
                if m == 1:
                    return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(m - 1, 0, v))
            if is_int(v):
                if m > 64 and op != 'trunc':
                    raise Unsupported('128-bit arithmetic in integer mode')
                if op == 'sext':
                    return v
                if op == 'zext':
                    return self.unsigned(st, v, n)
                if m == 1:
                    return simp(v % 2 == 1)
                return self.wrap(st, v, m)
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return self.fcast(st, op, fty, v, tty)
        raise Unsupported('cast ' + op)

    def vec_cast(self, op, fty, v, tty):
        n, m = fty.el.n, tty.el.n
        parts = []
        for i in range(fty.n):
            e = extract(v, i * n, n, n * fty.n)
            parts.append((self.cast(None, op, fty.el, e, tty.el, ()), m))
        return concat(parts)

    # floats: concrete doubles are computed, symbolic ones go to hooks
    def fcast(self, st, op, fty, v, tty):
        if isinstance(v, (int, float)):
            if op == 'sitofp':
                return float(to_signed(v, fty.n))
            if op == 'uitofp':
                return float(v)
            if op in ('fptosi', 'fptoui'):
                return int(v) & mask(tty.n)
            if op in ('fpext', 'fptrunc'):
                return v if (tty.name != 'float') else float(__import__('struct').unpack('f', __import__('struct').pack('f', v))[0])
        if op in ('fpext', 'fptrunc'):
            return v
        if op in ('sitofp', 'uitofp'):
            if is_bv(v):
                return z3.ToReal(z3.BV2Int(v, is_signed=(op == 'sitofp')))
            return z3.ToReal(to_int(v, fty.n) if op == 'sitofp' else self.unsigned(st, v, fty.n))
        if op in ('fptosi', 'fptoui'):
            if z3.is_expr(v):
                r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                if getattr(self, 'check_arith', False) and self.mode == 'int':
                    lo, hi = (-(1 << (tty.n - 1)), 1 << (tty.n - 1)) if op == 'fptosi' else (0, 1 << tty.n)
                    self.oblige('floating-point value fits the integer type', st, z3.And(r >= lo, r < hi), kind='arith')
                self.assumptions.add('floating-point values treated as exact reals')
                return r
        raise Unsupported(op)

    def real(self, v):
        if isinstance(v, float):
            from fractions import Fraction
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('non-finite float')
            f = Fraction(v)
            return z3.RealVal(f.numerator) / f.denominator if f.denominator != 1 else z3.RealVal(f.numerator)
        if isinstance(v, int):
            return z3.RealVal(v)
        return v

    def fbin(self, st, op, a, b):
        if isinstance(a, float) and isinstance(b, float):
            try:
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
            except ZeroDivisionError:
                raise Unsupported('float division by zero')
        h = getattr(a, 'fbin', None) or getattr(b, 'fbin', None)
        if h:
            return h(self, op, a, b)
        self.assumptions.add('floating-point values treated as exact reals')
        A, B = self.real(a), self.real(b)
        return {'fadd': A + B, 'fsub': A - B, 'fmul': A * B, 'fdiv': A / B}[op]

    def fcmp(self, st, pred, a, b):
        if isinstance(a, float) and isinstance(b, float):
            un = a != a or b != b
            o = pred[1:]
            r = {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}.get(o)
            if pred in ('uno', 'ord'):
                return int(un == (pred == 'uno'))
            return int((r and not un) if pred[0] == 'o' else (r or un))
        h = getattr(a, 'fcmp', None) or getattr(b, 'fcmp', None)
        if h:
            return h(self, pred, a, b)
        self.assumptions.add('floating-point values treated as exact reals')
        A, B = self.real(a), self.real(b)
        return simp({'eq': A == B, 'ne': A != B, 'gt': A > B, 'ge': A >= B, 'lt': A < B, 'le': A <= B}[pred[1:]])

    # ------------------------------------------------------------ calls
    def handler_for(self, name):
        if name in self._hcache:
            return self._hcache[name]
        d = self.mod.dem(name)
        h = None
        for r, f in reversed(self.handlers):
            if r.search(d):
                h = f
                break
        self._hcache[name] = h
        return h

    def on(self, regex, f=None):
        """Register a contract handler for functions whose demangled name matches."""
        if f is None:
            def deco(g):
                self.handlers.append((re.compile(regex), g))
                self._hcache.clear()
                return g
            return deco
        self.handlers.append((re.compile(regex), f))
        self._hcache.clear()

    def call_fn(self, name, args, st, ins=None, fr=None):
        """returns list of (state, value)"""
        h = self.handler_for(name)
        dn = self.mod.dem(name)
        if h is not None:
            r = h(self, st, args, dn)
            if r is not NotImplemented:
                self.called.setdefault(dn, 'contract')
                if isinstance(r, Results):
                    return r.lst
                return [(st, r)]
        if name.startswith('llvm.'):
            r = self.intrinsic(name, st, args, ins)
            return [(st, r)]
        f = self.mod.functions.get(name)
        if f is None and dn in ('memcmp', 'bcmp') and isinstance(args[2], int) and args[2] <= 64:
            return [(st, self.memcmp(st, *args[:3]))]
        if f is None:
            raise Unsupported('call to external function ' + dn)
        self.called.setdefault(dn, 'inlined')
        return self.run_fn(f, args, st, (fr.depth if fr else 0) + 1)

    def memcmp(self, st, p, q, n):
        """zero exactly when the bytes are equal; the sign of other results is left open"""
        eqs, o = [], 0
        while o < n:
            k = 8 if n - o >= 8 else 1
            x, y = self.load(st, p.field(o), 8 * k), self.load(st, q.field(o), 8 * k)
            eqs.append(bv(x, 8 * k) == bv(y, 8 * k))
            o += k
        r = self.fresh('memcmp', z3.BitVecSort(32))
        st.pc.append(r != 0)
        return z3.If(z3.And(*eqs), z3.BitVecVal(0, 32), r)

    def intrinsic(self, name, st, args, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.memset'):
            d, v, n = args[:3]
            if not isinstance(n, int):
                raise Unsupported('memset symbolic size')
            if n:
                if not isinstance(v, int):
                    raise Unsupported('memset value')
                # zero-fill cell by cell (8-byte words)
                if d.steps:
                    for o in range(0, n, 8):
                        k = min(8, n - o)
                        self.store(st, d.field(o), 8 * k, int.from_bytes(bytes([v]) * k, 'little'))
                else:
                    self.store(st, d, 8 * n, int.from_bytes(bytes([v]) * n, 'little'))
            return None
        if name.startswith(('llvm.lifetime', 'llvm.invariant', 'llvm.assume', 'llvm.prefetch', 'llvm.stack', 'llvm.experimental.noalias')):
            return NULL if 'stacksave' in name else None
        if name.startswith('llvm.expect'):
            return args[0]
        if name.startswith('llvm.threadlocal.address'):
            return args[0]
        if name.startswith('llvm.x86.pclmulqdq'):
            return self.pclmul(args[0], args[1], args[2])
        if name.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow')):
            n = ins.ty.fields[0].n
            a, b = args
            op = name[6:9] if name[5] != 'u' else name[6:9]
            op = {'mul': 'mul', 'add': 'add', 'sub': 'sub'}[name[6:9]]
            if isinstance(a, int) and isinstance(b, int):
                full = {'mul': a * b, 'add': a + b, 'sub': a - b}[op]
                return [full & mask(n), int(not 0 <= full <= mask(n))]
            A, B = self.unsigned(st, a, n), self.unsigned(st, b, n)
            full = {'mul': A * B, 'add': A + B, 'sub': A - B}[op]
            return [self.wrap(st, full, n), simp(z3.Or(full < 0, full > mask(n)))]
        if name.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
            n = int(name.rsplit('.i', 1)[1])
            v = args[0]
            if isinstance(v, int):
                if 'ctlz' in name:
                    return n - v.bit_length()
                if 'ctpop' in name:
                    return bin(v).count('1')
                return n if v == 0 else (v & -v).bit_length() - 1
            if is_bv(v):
                if 'ctlz' in name:
                    r = z3.BitVecVal(n, n)
                    for i in range(n):
                        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(n - 1 - i, n), r)
                    return r
                if 'cttz' in name:
                    r = z3.BitVecVal(n, n)
                    for i in reversed(range(n)):
                        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, n), r)
                    return r
                r = z3.BitVecVal(0, n)
                for i in range(n):
                    r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, v))
                return r
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', name)
        if m:
            n = int(m.group(2))
            a, b, c = args
            if isinstance(c, int):
                c %= n
                w = concat([(b, n), (a, n)])
                return extract(w, n - c if m.group(1) == 'fshl' else c, n, 2 * n) if not (c == 0) else (a if m.group(1) == 'fshl' else b)
        m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)', name)
        if m:
            n = int(m.group(2))
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[m.group(1)]
            c = self.icmp(st, n, pred, args[0], args[1])
            return self.ite(c, args[0], args[1], n)
        if name.startswith('llvm.trap'):
            raise PathEnd('trap')
        if name.startswith('llvm.eh.typeid'):
            return 1
        if name in ('llvm.ceil.f64', 'llvm.floor.f64'):
            x, k = self.real(args[0]), z3.FreshInt('ceil')
            r = z3.ToReal(k)
            st.pc += [r >= x, r < x + 1] if 'ceil' in name else [r <= x, r > x - 1]
            return r
        raise Unsupported('intrinsic ' + name)

    def pclmul(self, a, b, imm):
        if not isinstance(imm, int):
            raise Unsupported('pclmul immediate')
        x = extract(a, 64 * (imm & 1), 64, 128)
        y = extract(b, 64 * ((imm >> 4) & 1), 64, 128)
        if isinstance(x, int) and isinstance(y, int):
            r = 0
            for i in range(64):
                if (y >> i) & 1:
                    r ^= x << i
            return r
        if isinstance(x, Anf) or isinstance(y, Anf):
            X, Y = to_anf(x, 64).bits, to_anf(y, 64).bits
            out = [P0] * 128
            for i in range(64):
                if X[i]:
                    for j in range(64):
                        if Y[j]:
                            out[i + j] = out[i + j] ^ p_mul(X[i], Y[j])
            return anf_norm(Anf(out))
        X, Y = z3.ZeroExt(64, bv(x, 64)), bv(y, 64)
        r = z3.BitVecVal(0, 128)
        for i in range(64):
            r = r ^ z3.If(z3.Extract(i, i, Y) == 1, X << i, z3.BitVecVal(0, 128))
        return r

    def ite(self, c, a, b, n=None):
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(c, int):
                return a if c else b
            if a == b:
                return a
            return z3.If(c, self.real(a), self.real(b))
        r = ite(c, a, b, n)
        if isinstance(r, tuple) and r and r[0] == 'K':
            _, c, a, b, n = r
            if self.mode == 'bv' or n > 64:
                return z3.If(c, z3.BitVecVal(a, n), z3.BitVecVal(b, n))
            return z3.If(c, to_int(a, n), to_int(b, n))
        return r

    # ------------------------------------------------------------ functions
    def run_fn(self, f, args, st, depth=0):
        if depth > 200:
            raise Unsupported('recursion too deep')
        f.parse()
        fr = Frame(f, depth)
        regs = {}
        for (ty, nm), a in zip(f.params, args):
            if nm in f.byval and isinstance(a, Ptr):
                o = self.new_obj('byval', self.mod.size(f.byval[nm]))
                self.memcpy(st, Ptr(o), a, self.mod.size(f.byval[nm]))
                a = Ptr(o)
            regs[nm] = a
        self.where.append(self.short(f.name))
        try:
            self.go(fr, st, regs, f.entry, None, 0, ())
        finally:
            self.where.pop()
        if self.mode == 'int':
            dead = {p.obj for p in fr.allocas.values()}
            for s, v in fr.rets:
                for k in [k for k in s.mem if k[0] in dead]:
                    del s.mem[k]
        return fr.rets

    def short(self, name):
        d = self.mod.dem(name)
        d = re.sub(r'distributed_vector_ole::', '', d)
        return d.split('(')[0][-70:] if '(' in d else d

    def nbits(self, ty):
        if ty.k == 'i':
            return ty.n
        if ty.k == 'vec' and ty.el.k == 'i':
            return ty.n * ty.el.n
        return 8 * self.mod.size(ty)

    def set_phis(self, fr, st, regs, bb, prev):
        blk = fr.fn.blocks[bb]
        vals = {}
        k = 0
        for ins in blk:
            if ins.op != 'phi':
                break
            k += 1
            for v, b in ins.a:
                if b == prev:
                    try:
                        vals[ins.dst] = self.operand(regs, ins.ty, v, st)
                    except Unsupported:
                        vals[ins.dst] = UNDEF
                    break
            else:
                raise Unsupported('phi without predecessor')
        regs.update(vals)
        return k

    def go(self, fr, st, regs, bb, prev, idx, stops, enter=False):
        """Executes from (bb, idx). Returns the list of (st, regs, block) for the paths that reach a block of `stops`
        (its phis already done).  `enter`: do not stop at, or apply a loop contract to, the first block."""
        fn = fr.fn
        while True:
            if idx == 0:
                if not enter and bb in stops:
                    self.set_phis(fr, st, regs, bb, prev)
                    return [(st, regs, bb)]
                idx = self.set_phis(fr, st, regs, bb, prev)
                if not enter and bb in fn.loops:
                    sp = self.loop_spec(fr, bb)
                    if sp is not None:
                        outs = sp(self, fr, st, regs, bb, prev)
                        res = []
                        for o in outs:
                            res += self.resume(fr, o, stops)
                        return res
                    c = fr.iters.get(bb, 0) + 1
                    fr.iters[bb] = c
                    if c > self.max_unroll:
                        raise Unsupported('loop without contract exceeds the unrolling limit in ' + self.short(fn.name))
                enter = False
            blk = fn.blocks[bb]
            n = len(blk)
            while idx < n:
                ins = blk[idx]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('step limit')
                op = ins.op
                if op == 'call' or op == 'invoke':
                    try:
                        res = self.do_call(fr, st, regs, ins)
                    except PathEnd as e:
                        self.ends.append((st, e.kind, e.info))
                        return []
                    if len(res) == 1:
                        st, rv = res[0]
                        if ins.dst is not None:
                            regs[ins.dst] = rv
                        if op == 'invoke':
                            break
                        idx += 1
                        continue
                    out = []
                    for s2, rv in res:
                        r2 = dict(regs)
                        if ins.dst is not None:
                            r2[ins.dst] = rv
                        if op == 'invoke':
                            out += self.go(fr, s2, r2, ins.x['to'], bb, 0, stops)
                        else:
                            out += self.go(fr, s2, r2, bb, prev, idx + 1, stops)
                    return out
                if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                    break
                try:
                    self.step(fr, st, regs, ins)
                except Infeasible:
                    return []
                idx += 1
            # terminator
            if op == 'invoke':
                prev, bb, idx = bb, ins.x['to'], 0
                continue
            if op == 'ret':
                v = None if ins.a is None else self.operand(regs, ins.ty, ins.a, st)
                fr.rets.append((st, v))
                return []
            if op == 'unreachable' or op == 'resume':
                self.ends.append((st, op, None))
                return []
            if op == 'br':
                if ins.a is None:
                    prev, bb, idx = bb, ins.x[0], 0
                    continue
                c = self.operand(regs, IntTy(1), ins.a, st)
                if isinstance(c, int):
                    prev, bb, idx = bb, ins.x[0 if c else 1], 0
                    continue
                if c is UNDEF:
                    raise Unsupported('branch on undef')
                alts = [(c, ins.x[0]), (self.neg(c), ins.x[1])]
            else:
                v = self.operand(regs, ins.ty, ins.a, st)
                d, cases = ins.x
                if isinstance(v, int):
                    prev, bb, idx = bb, dict(cases).get(v, d), 0
                    continue
                alts = []
                others = []
                for cv, lb in cases:
                    e = self.icmp(st, ins.ty.n, 'eq', v, cv)
                    if isinstance(e, int):
                        continue
                    alts.append((e, lb))
                    others.append(self.neg(e))
                alts.append((z3.And(*others) if len(others) != 1 else others[0], d))
            r = self.branch(fr, st, regs, bb, alts, stops)
            if r[0] == 'goto':
                _, st, regs, nb, np, nidx = r
                bb, prev, idx = nb, np, nidx
                continue
            return r[1]

    def resume(self, fr, o, stops):
        """continue after a loop contract: o = (state, regs, block, predecessor[, instruction index])"""
        s, r, b, p = o[:4]
        i = o[4] if len(o) > 4 else 0
        if i and b in stops:
            return [(s, r, b)]
        return self.go(fr, s, r, b, p, i, stops)

    def neg(self, c):
        if isinstance(c, Anf):
            return Anf([c.bits[0] ^ P1])
        if isinstance(c, AnfZero):
            return AnfZero(c.polys, not c.neg)
        if hasattr(c, 'neg_cond'):
            return c.neg_cond()
        return z3.Not(to_bool(c))

    def branch(self, fr, st, regs, bb, alts, stops):
        live = []
        if self.traps and self.traps[-1][0] is fr and bb in self.traps[-1][1] and any(lb not in self.traps[-1][1] for _, lb in alts):
            inside = self.traps[-1][1]
            if self.mode != 'int' or any(lb not in inside and not (z3.is_expr(c) and self.check(self.zpc(st) + [to_bool(c)], 3000) == z3.unsat) for c, lb in alts):
                raise SymExit()
            # the paths that would leave the loop are infeasible
            alts = [(c, lb) for c, lb in alts if lb in inside]
        for c, lb in alts:
            if z3.is_expr(c):
                c = to_bool(c)
                if self.feasible(st, c):
                    live.append((c, lb))
            elif hasattr(c, 'feasible'):
                if c.feasible(self, st):
                    live.append((c, lb))
            else:
                live.append((c, lb))
        if not live:
            return ('done', [])
        if len(live) == 1:
            # condition implied by the path
            s = st
            c = live[0][0]
            if z3.is_expr(c):
                s.pc.append(c)
            elif hasattr(c, 'assume'):
                c.assume(self, s)
            return ('goto', s, regs, live[0][1], bb, 0)
        ipd = fr.fn.ipdom.get(bb)
        sub = ipd if (self.merge and ipd is not None and len(live) == 2) else None
        inner = stops if sub is None or sub in stops else (sub,) + tuple(stops)
        outs = []
        for c, lb in live:
            s2 = st.copy()
            if hasattr(c, 'assume'):
                c.assume(self, s2)
            else:
                s2.pc.append(c if not isinstance(c, Anf) else AnfZero([c.bits[0] ^ P1], False))
            outs.append(self.go(fr, s2, dict(regs), lb, bb, 0, inner))
        if len(live) != 2 or not self.merge:
            res = [x for o in outs for x in o]
        else:
            res = []
            for t in dict.fromkeys(x[2] for o in outs for x in o):
                a, b = ([x for x in o if x[2] == t] for o in outs)
                if len(a) == 1 and len(b) == 1:
                    try:
                        s2, r2 = self.merge_states(live[0][0], st, a[0][:2], b[0][:2], fr, t)
                        res.append((s2, r2, t))
                        continue
                    except (Unmergeable, Unsupported) as e:
                        if self.debug:
                            print('unmerged', fr.fn.name, t, repr(e))
                res += a + b
        if sub is None or sub in stops:
            return ('done', res)
        at = [x for x in res if x[2] == sub]
        rest = [x for x in res if x[2] != sub]
        nphi = sum(1 for i in fr.fn.blocks[sub] if i.op == 'phi')
        lp = sub in fr.fn.loops and self.loop_spec(fr, sub) is not None
        if not rest and len(at) == 1 and nphi and not lp:
            return ('goto', at[0][0], at[0][1], sub, None, nphi)
        for s2, r2, _ in at:
            if lp:
                sp = self.loop_spec(fr, sub)
                for o in sp(self, fr, s2, r2, sub, None):
                    rest += self.resume(fr, o, stops)
            elif nphi:
                rest += self.go(fr, s2, r2, sub, None, nphi, stops)
            else:
                rest += self.go(fr, s2, r2, sub, '#merged', 0, stops)
        return ('done', rest)

    def merge_states(self, c, base, A, B, fr, bb):
        (sa, ra), (sb, rb) = A, B
        if isinstance(c, AnfZero):
            raise Unmergeable()
        if not isinstance(c, Anf) and not z3.is_expr(c):
            raise Unmergeable()
        s = State()
        s.pc = list(base.pc)
        nb = len(base.pc)
        # extra facts gathered on either side
        ea = [x for x in sa.pc[nb + 1:] if z3.is_expr(x)]
        eb = [x for x in sb.pc[nb + 1:] if z3.is_expr(x)]
        if z3.is_expr(c):
            if ea:
                s.pc.append(z3.Implies(c, z3.And(*ea)))
            if eb:
                s.pc.append(z3.Implies(z3.Not(c), z3.And(*eb)))
        if sa.ghost != sb.ghost:
            g = {}
            for k in set(sa.ghost) | set(sb.ghost):
                x, y = sa.ghost.get(k), sb.ghost.get(k)
                if x is y or eqv(x, y):
                    g[k] = x
                else:
                    if not (z3.is_expr(x) and z3.is_expr(y)):
                        raise Unmergeable()
                    g[k] = z3.If(c, x, y)
            s.ghost = g
        else:
            s.ghost = dict(sa.ghost)
        for key in set(sa.mem) | set(sb.mem):
            xa, xb = sa.mem.get(key), sb.mem.get(key)
            if xa is xb:
                s.mem[key] = xa
                continue
            obj = key[0]
            if xa is None or xb is None:
                other = sb if xa is None else sa
                inbase = (key in base.mem) or any(k[0] == obj for k in base.mem) or self.objs[obj].get('lazy') or obj in self.objs and self.objs[obj].get('param')
                present = xa if xa is not None else xb
                if not inbase:
                    s.mem[key] = present
                    continue
                missing = {}
                src = sb if xa is None else sa
                for off, (sz, v) in present.items():
                    missing[off] = None
                if xa is None:
                    xa = {}
                else:
                    xb = {}
            reg = {}
            if not key[1] and {o: c[0] for o, c in xa.items()} != {o: c[0] for o, c in xb.items()}:
                xa, xb = self.align_cells(xa, xb)
            for off in set(xa) | set(xb):
                if off in xa and off in xb:
                    (na, va), (nb_, vb) = xa[off], xb[off]
                    if na != nb_:
                        raise Unmergeable()
                else:
                    src, st_o = (xa, sb) if off in xa else (xb, sa)
                    na, v0 = src[off]
                    if key[1]:
                        p = Ptr(key[0], tuple((t, 0, 1, None) for t in key[1]), off)
                        v1 = self.init_arr(p, off, na, _elem_sort(v0, len(key[1])))
                    else:
                        v1 = self.load(st_o, Ptr(key[0], (), off), 8 * na)
                    va, vb = (v0, v1) if off in xa else (v1, v0)
                if va is vb or eqv(va, vb):
                    reg[off] = (na, va)
                else:
                    if (va is UNDEF or vb is UNDEF) and self.mode == 'int':
                        d = vb if va is UNDEF else va
                        if not key[1] and z3.is_expr(c) and (z3.is_expr(d) or isinstance(d, int)):
                            # an uninitialised value on one side: arbitrary there
                            if isinstance(d, int):
                                d = z3.IntVal(d) if na <= 8 else z3.BitVecVal(d, 8 * na)
                            u = self.fresh('uninit', d.sort())
                            reg[off] = (na, z3.If(c, u, d) if va is UNDEF else z3.If(c, d, u))
                        else:
                            if isinstance(d, Ptr) and not key[1]:
                                o_ = self.objs[obj]
                                if o_.get('alloca') is None or 'StatusOr' in str(o_.get('ty')) or 'unique_ptr' in str(o_.get('ty')):
                                    raise Unmergeable()
                            reg[off] = (na, UNDEF)
                        continue
                    try:
                        reg[off] = (na, self.ite(c, va, vb, 8 * na))
                    except Unsupported:
                        if va is UNDEF or vb is UNDEF:
                            reg[off] = (na, UNDEF)
                        else:
                            raise Unmergeable()
            s.mem[key] = reg
        regs = {}
        for k in ra:
            if k in rb:
                x, y = ra[k], rb[k]
                if x is y or eqv(x, y):
                    regs[k] = x
                else:
                    try:
                        n = self.reg_width(fr, k)
                        regs[k] = self.ite(c, x, y, n)
                    except (Unsupported, AssertionError):
                        if any(i.op == 'phi' and i.dst == k for i in fr.fn.blocks[bb]):
                            raise Unmergeable()
        return s, regs

    def align_cells(self, xa, xb):
        cuts = set()
        for x in (xa, xb):
            for o, (n, v) in x.items():
                if isinstance(o, int):
                    cuts.add(o)
                    cuts.add(o + n)
        out = []
        for x in (xa, xb):
            y = {}
            for o, (n, v) in x.items():
                if not isinstance(o, int):
                    y[o] = (n, v)
                    continue
                cs = sorted(c for c in cuts if o <= c <= o + n)
                for lo, hi in zip(cs, cs[1:]):
                    try:
                        y[lo] = (hi - lo, v if hi - lo == n else extract(v, 8 * (lo - o), 8 * (hi - lo), 8 * n))
                    except (Unsupported, AttributeError):
                        raise Unmergeable()
            out.append(y)
        return out

    def reg_width(self, fr, k):
        w = fr.fn.__dict__.get('_w')
        if w is None:
            w = {}
            for b in fr.fn.order:
                for i in fr.fn.blocks[b]:
                    if i.dst is not None:
                        if i.op in ('icmp', 'fcmp'):
                            w[i.dst] = 1
                        elif i.ty is not None and i.ty.k == 'i':
                            w[i.dst] = i.ty.n
                        elif i.ty is not None and i.ty.k == 'vec' and i.op in BIN:
                            w[i.dst] = self.nbits(i.ty)
            for ty, nm in fr.fn.params:
                if ty.k == 'i':
                    w[nm] = ty.n
            fr.fn._w = w
        return w.get(k)

    def loop_spec(self, fr, bb):
        for r, sel, spec in self.loop_specs:
            if r.search(self.mod.dem(fr.fn.name)):
                if sel is None or sel(self, fr, bb):
                    return spec
        return None

    def do_call(self, fr, st, regs, ins):
        callee, args = ins.a
        vals = []
        for ty, v, bvt in args:
            x = self.operand(regs, ty, v, st) if ty.k != 'meta' else UNDEF
            if bvt is not None and isinstance(x, Ptr):
                o = self.new_obj('byval', self.mod.size(bvt))
                self.memcpy(st, Ptr(o), x, self.mod.size(bvt))
                x = Ptr(o)
            vals.append(x)
        if callee[0] == 'g':
            name = callee[1]
        else:
            t = self.operand(regs, PTR, callee, st)
            if not isinstance(t, Fn):
                raise Unsupported('indirect call')
            name = t.name
        if name in self.mod.globals:
            gi = self.mod.global_init(name)
            if gi and gi[0] == 'alias' and gi[2][0] == 'g':
                name = gi[2][1]
        return self.call_fn(name, vals, st, ins, fr)

    def step(self, fr, st, regs, ins):
        op = ins.op
        if op == 'load':
            p = self.operand(regs, PTR, ins.a[1], st)
            regs[ins.dst] = self.load_ty(st, p, ins.ty)
        elif op == 'store':
            v = self.operand(regs, ins.ty, ins.a[0], st)
            p = self.operand(regs, PTR, ins.a[1], st)
            self.store_ty(st, p, ins.ty, v)
        elif op == 'alloca':
            n = 1
            if ins.a is not None:
                n = self.operand(regs, ins.a[0], ins.a[1], st)
            if not isinstance(n, int):
                raise Unsupported('variable-length array')
            key = ins.dst
            o = self.new_obj('%' + ins.dst, self.mod.size(ins.ty) * n, alloca=ins.dst, ty=ins.ty, fn=fr.fn.name)
            regs[ins.dst] = Ptr(o)
            fr.allocas[ins.dst] = Ptr(o)
        elif op == 'getelementptr':
            base = self.operand(regs, PTR, ins.a[0][1], st)
            regs[ins.dst] = self.gep(st, ins.ty, base, [(t, self.operand(regs, t, v, st)) for t, v in ins.a[1:]])
        elif op in BIN:
            a = self.operand(regs, ins.ty, ins.a[0], st)
            b = self.operand(regs, ins.ty, ins.a[1], st)
            if op[0] == 'f':
                regs[ins.dst] = self.fbin(st, op, a, b)
            elif ins.ty.k == 'vec':
                if op in ('xor', 'and', 'or'):
                    regs[ins.dst] = self.binop(st, ins, self.nbits(ins.ty), op, a, b, ins.x)
                else:
                    n = ins.ty.el.n
                    tot = n * ins.ty.n
                    regs[ins.dst] = concat([(self.binop(st, ins, n, op, extract(a, i * n, n, tot), extract(b, i * n, n, tot), ins.x), n) for i in range(ins.ty.n)])
            else:
                if isinstance(a, Ptr) or isinstance(b, Ptr):
                    regs[ins.dst] = self.ptr_arith(st, op, a, b)
                else:
                    regs[ins.dst] = self.binop(st, ins, ins.ty.n, op, a, b, ins.x)
        elif op == 'icmp':
            a = self.operand(regs, ins.ty, ins.a[0], st)
            b = self.operand(regs, ins.ty, ins.a[1], st)
            if ins.ty.k == 'vec':
                raise Unsupported('vector icmp')
            regs[ins.dst] = self.icmp(st, ins.ty.n if ins.ty.k == 'i' else 64, ins.x, a, b)
        elif op == 'fcmp':
            a = self.operand(regs, ins.ty, ins.a[0], st)
            b = self.operand(regs, ins.ty, ins.a[1], st)
            regs[ins.dst] = self.fcmp(st, ins.x, a, b)
        elif op in CAST:
            v = self.operand(regs, ins.a[0], ins.a[1], st)
            regs[ins.dst] = self.cast(st, op, ins.a[0], v, ins.ty, ins.x)
        elif op == 'select':
            c = self.operand(regs, ins.a[0][0], ins.a[0][1], st)
            a = self.operand(regs, ins.ty, ins.a[1], st)
            b = self.operand(regs, ins.ty, ins.a[2], st)
            regs[ins.dst] = self.ite(c, a, b, ins.ty.n if ins.ty.k == 'i' else self.nbits(ins.ty) if ins.ty.k == 'vec' else None)
        elif op == 'extractvalue':
            v = self.operand(regs, ins.ty, ins.a, st)
            if v is UNDEF:
                regs[ins.dst] = UNDEF
            else:
                for i in ins.x:
                    v = v[i]
                regs[ins.dst] = v
        elif op == 'insertvalue':
            v = self.operand(regs, ins.ty, ins.a[0], st)
            e = self.operand(regs, ins.a[1], ins.a[2], st)
            regs[ins.dst] = self.insertv(ins.ty, v, ins.x, e)
        elif op == 'extractelement':
            v = self.operand(regs, ins.ty, ins.a[0], st)
            i = self.operand(regs, IntTy(32), ins.a[1], st)
            eb = self.nbits(ins.ty.el)
            if not isinstance(i, int):
                raise Unsupported('symbolic element index')
            regs[ins.dst] = extract(v, i * eb, eb, eb * ins.ty.n)
        elif op == 'insertelement':
            v = self.operand(regs, ins.ty, ins.a[0], st)
            e = self.operand(regs, ins.ty.el, ins.a[1], st)
            i = self.operand(regs, IntTy(32), ins.a[2], st)
            eb = self.nbits(ins.ty.el)
            if not isinstance(i, int):
                raise Unsupported('symbolic element index')
            tot = eb * ins.ty.n
            parts = []
            for k in range(ins.ty.n):
                x = e if k == i else (0 if v is UNDEF else extract(v, k * eb, eb, tot))
                parts.append((x, eb))
            regs[ins.dst] = concat(parts)
        elif op == 'shufflevector':
            v = self.operand(regs, ins.ty, ins.a[0], st)
            w = self.operand(regs, ins.ty, ins.a[1], st)
            mk = ins.a[3]
            n = ins.ty.n
            eb = self.nbits(ins.ty.el)
            if mk[0] == 'zero':
                idxs = [0] * ins.a[2].n
            else:
                idxs = [e[1] if e[0] == 'c' else None for _, e in mk[1]]
            parts = []
            for k in idxs:
                if k is None:
                    parts.append((0, eb))
                    continue
                src = v if k < n else w
                kk = k if k < n else k - n
                if src is UNDEF:
                    parts.append((0, eb))
                else:
                    parts.append((extract(src, kk * eb, eb, n * eb), eb))
            regs[ins.dst] = concat(parts)
        elif op == 'landingpad':
            regs[ins.dst] = UNDEF
        elif op == 'freeze':
            regs[ins.dst] = self.operand(regs, ins.ty, ins.a, st)
        elif op == 'fneg':
            v = self.operand(regs, ins.ty, ins.a, st)
            regs[ins.dst] = -v if isinstance(v, float) else -self.real(v)
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + op)

    def insertv(self, ty, v, ix, e):
        if v is UNDEF:
            v = [UNDEF] * (len(ty.fields) if ty.k == 'struct' else ty.n)
        v = list(v)
        if len(ix) == 1:
            v[ix[0]] = e
        else:
            sub = ty.fields[ix[0]] if ty.k == 'struct' else ty.el
            v[ix[0]] = self.insertv(sub, v[ix[0]], ix[1:], e)
        return v

    def load_ty(self, st, p, ty):
        if ty.k == 'struct':
            return [self.load_ty(st, p.field(self.mod.field_off(ty, i)), f) for i, f in enumerate(ty.fields)]
        if ty.k == 'arr':
            s = self.mod.size(ty.el)
            return [self.load_ty(st, p.field(i * s), ty.el) for i in range(ty.n)]
        v = self.load(st, p, 8 * self.mod.size(ty), ty)
        if ty.k == 'i' and ty.n % 8 and v is not UNDEF:
            # sub-byte integers are stored zero-extended
            if isinstance(v, (int, Anf)):
                v = extract(v, 0, ty.n, 8 * self.mod.size(ty))
            elif is_bv(v):
                v = simp(z3.Extract(0, 0, v) == 1) if ty.n == 1 else extract(v, 0, ty.n, v.size())
            elif is_int(v) and ty.n == 1:
                v = simp(v != 0)
        if ty.k == 'ptr' and isinstance(v, int):
            v = Ptr(None, (), v)
        if ty.k == 'f' and isinstance(v, int):
            v = _bits_to_float(v, ty)
        return v

    def store_ty(self, st, p, ty, v):
        if ty.k == 'struct':
            for i, f in enumerate(ty.fields):
                self.store_ty(st, p.field(self.mod.field_off(ty, i)), f, UNDEF if v is UNDEF else v[i])
            return
        if ty.k == 'arr':
            s = self.mod.size(ty.el)
            for i in range(ty.n):
                self.store_ty(st, p.field(i * s), ty.el, UNDEF if v is UNDEF else v[i])
            return
        if ty.k == 'i' and ty.n < 8:
            if isinstance(v, Anf):
                v = Anf(v.bits + (P0,) * (8 - ty.n))
            elif is_bool(v) and p.steps:
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0)) if self.mode == 'int' else bv(v, 8)
        self.store(st, p, 8 * self.mod.size(ty), v, ty)

    def ptr_arith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is None and b.obj is None:
                return (a.off - b.off) & mask(64)
            if a.obj != b.obj or [s[0] for s in a.steps] != [s[0] for s in b.steps]:
                raise Unsupported('difference of unrelated pointers')
            if not a.steps:
                return (a.off - b.off) & mask(64)
            for s, t in zip(a.steps[:-1], b.steps[:-1]):
                if not eqv(s[1], t[1]):
                    raise Unsupported('difference across containers')
            es = a.steps[-1][2]
            x, y = a.steps[-1][1], b.steps[-1][1]
            if isinstance(x, int) and isinstance(y, int):
                return ((x - y) * es + a.off - b.off) & mask(64)
            return PtrDiff(z3.simplify(to_int(x, 64) - to_int(y, 64)), es, a.off - b.off)
        if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, int):
            return self.ptr_add(st, a, to_signed(b, 64) * (1 if op == 'add' else -1))
        if op == 'and' and isinstance(b, int):
            return self.ptr_align(a, b)
        raise Unsupported('pointer arithmetic ' + op)

    def ptr_align(self, a, b):
        raise Unsupported('alignment test on pointer')


class PtrDiff:
    """(index difference * element size + byte offset), from pointer subtraction"""
    __slots__ = ('d', 'es', 'o')

    def __init__(self, d, es, o):
        self.d, self.es, self.o = d, es, o

    def term(self):
        return self.d * self.es + self.o

    def binop(self, ex, st, op, n, a, b):
        if op == 'sdiv' and a is self and isinstance(b, int) and self.o == 0 and b == self.es:
            return norm_int(self.d, n)
        A = a.term() if isinstance(a, PtrDiff) else a
        B = b.term() if isinstance(b, PtrDiff) else b
        return ex.int_bin(st, op, n, norm_int(A, n) if z3.is_expr(A) else A, norm_int(B, n) if z3.is_expr(B) else B, ())

    def icmp(self, ex, st, pred, n, a, b):
        A = a.term() if isinstance(a, PtrDiff) else a
        B = b.term() if isinstance(b, PtrDiff) else b
        return ex.icmp(st, n, pred, A, B)


class Infeasible(Exception):
    pass


class SymExit(Exception):
    """the exit decision of a loop being unrolled is symbolic"""


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info


class Results:
    """Returned by a handler that forks: list of (state, value)."""

    def __init__(self, lst):
        self.lst = lst


def _elem_sort(arr, k):
    s = arr.sort()
    for _ in range(k):
        s = s.range()
    return s


def _bits_to_float(v, ty):
    import struct
    if ty.name == 'double':
        return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
    if ty.name == 'float':
        return struct.unpack('<f', v.to_bytes(4, 'little'))[0]
    raise Unsupported('float reinterpretation')
