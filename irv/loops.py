"""Loop contracts found automatically (closed forms as a function of the iteration number), or given by the check.

Every candidate is checked: the base case holds by construction, the step S(k) -> S(k+1) is an obligation discharged
by the solver ("loop contract is inductive"), the trip count is verified.  A loop for which no contract is found makes
the proof undecided, never refuted."""
import re
import z3
from core import *

I = z3.IntSort()


_CC = {}


def consts(e):
    """uninterpreted constants in e: dict name -> expr"""
    k = e.get_id()
    hit = _CC.get(k)
    if hit is not None:
        return hit[1]
    seen, out, todo = set(), {}, [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            todo += x.children()
    if len(_CC) > 200000:
        _CC.clear()
    _CC[k] = (e, out)
    return out


def subst(e, pairs):
    if not z3.is_expr(e) or not pairs:
        return e
    return z3.substitute(e, *pairs)


def atoms(e, out=None, seen=None):
    """comparison atoms in a Bool expression (or in the conditions of If)"""
    if out is None:
        out, seen = [], set()
    if e.get_id() in seen:
        return out
    seen.add(e.get_id())
    if z3.is_quantifier(e):
        return out
    if z3.is_app(e):
        if e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or (z3.is_eq(e) and z3.is_int(e.arg(0))):
            out.append(e)
        for c in e.children():
            atoms(c, out, seen)
    return out


def linear_in(e, k):
    """e = a*k + b with a an integer constant, b free of k -> (a, b) or None"""
    e0 = z3.simplify(z3.substitute(e, (k, z3.IntVal(0))))
    e1 = z3.simplify(z3.substitute(e, (k, z3.IntVal(1))))
    a = z3.simplify(e1 - e0)
    if k.decl().name() in consts(a):
        return None
    chk = z3.simplify(e - e0 - a * k, som=True)
    if z3.is_int_value(chk) and chk.as_long() == 0:
        return a, e0
    s = z3.Solver()
    s.set('timeout', 1000)
    s.add(e != e0 + a * k)
    if s.check() == z3.unsat:
        return a, e0
    return None


def select(a, j):
    """a[j], with stores, lambdas and constant arrays expanded"""
    if z3.is_store(a):
        i = a.arg(1)
        c = z3.simplify(i == j)
        if z3.is_true(c):
            return a.arg(2)
        r = select(a.arg(0), j)
        return r if z3.is_false(c) else z3.If(c, a.arg(2), r)
    if z3.is_K(a):
        return a.arg(0)
    if z3.is_quantifier(a) and a.is_lambda():
        return rw(z3.substitute_vars(a.body(), j))
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return z3.If(a.arg(0), select(a.arg(1), j), select(a.arg(2), j))
    return z3.Select(a, j)


def rw(e):
    """expand every read"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_app(x) and x.num_args():
            ch = [go(y) for y in x.children()]
            if z3.is_select(x) and len(ch) == 2:
                r = select(ch[0], ch[1])
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = z3.substitute(x, *[(y, c) for y, c in zip(x.children(), ch) if not y.eq(c)]) if False else rebuild(x, ch)
        else:
            r = x
        memo[k] = (x, r)
        return r
    return z3.simplify(go(e))


def rebuild(x, ch):
    d = x.decl()
    k = d.kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    if len(ch) > d.arity():
        r = ch[0]
        for y in ch[1:]:
            r = d(r, y)
        return r
    return d(*ch)


class Cell:
    __slots__ = ('key', 'off', 'n', 'init', 'var', 'kind', 'close', 'new', 'sort', 'nidx', 'ptr')

    def __init__(self, key, off, n, init):
        self.key, self.off, self.n, self.init = key, off, n, init
        self.kind = None
        self.close = None
        self.new = None


class Abort(Exception):
    pass


class LoopAuto:
    def __init__(self, ex):
        self.ex = ex
        ex.loop_specs.append((re.compile(''), None, self.run))
        ex.loops = self
        self.mine = 0
        self.hints = []           # (function regex, fn(auto, fr, bb, st) -> hint or None)
        self.nk = 0
        self.kstack = []
        self.log = []
        self.debug = False

    # ------------------------------------------------------------ helpers
    def pcz(self, st):
        return [c for c in st.pc if z3.is_expr(c)]

    def proves(self, st, g, extra=(), timeout=4000):
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        return self.ex.check(self.pcz(st) + list(extra) + [z3.Not(g)], timeout) == z3.unsat

    def quiet(self, f, *a):
        ex = self.ex
        no, ne, q = len(ex.obls), len(ex.ends), getattr(ex, 'quiet', 0)
        ex.quiet = q + 1
        try:
            return f(*a)
        finally:
            del ex.obls[no:]
            del ex.ends[ne:]
            ex.quiet = q

    def iterate(self, fr, st, regs, bb, stops):
        """one iteration from the header -> (back states, exit outs)"""
        outs = self.ex.go(fr, st, dict(regs), bb, '#loop', 0, stops, enter=True)
        return [o for o in outs if o[2] == bb], [o for o in outs if o[2] != bb]

    def exit_result(self, fr, o):
        st, regs, b = o
        nphi = sum(1 for i in fr.fn.blocks[b] if i.op == 'phi')
        return (st, regs, b, '#merged', nphi)

    # ------------------------------------------------------------ entry
    def run(self, ex, fr, st, regs, bb, prev):
        fn = fr.fn
        if any(i.op == 'phi' for i in fn.blocks[bb]):
            raise Unsupported('phi at a loop header of ' + ex.mod.dem(fn.name)[:80])
        body = fn.loops[bb]
        exits = []
        for b in body:
            for s in fn.succs(b):
                if s not in body and s not in exits:
                    exits.append(s)
        stops = (bb,) + tuple(exits)
        hint = None
        for r, f in self.hints:
            if re.search(r, ex.mod.dem(fn.name)):
                hint = f(self, fr, bb, st)
                if hint is not None:
                    break
        # 0. run while the exit decision is concrete
        peeled = 0
        results = []
        while True:
            no, ne, oc = len(ex.obls), len(ex.ends), ex.nobj
            if hint and not hint.get('unroll'):
                break
            nt = len(ex.traps)
            ex.traps.append((fr, body))
            try:
                back, out = self.iterate(fr, st.copy(), regs, bb, stops)
            except SymExit:
                del ex.obls[no:]
                del ex.ends[ne:]
                break
            finally:
                del ex.traps[nt:]
            results += [self.exit_result(fr, o) for o in out]
            if not back:
                return results
            if len(back) > 1:
                raise Unsupported('several paths through an unrolled iteration')
            st, regs = back[0][0], back[0][1]
            self.gc(st, oc, regs)
            peeled += 1
            if peeled > ex.max_unroll:
                raise Unsupported('loop does not terminate in ' + ex.short(fn.name))
        try:
            return results + self.alternatives(fr, st, regs, bb, stops, hint or {})
        except Unsupported as e:
            if 'undef' in str(e) and not (hint or {}).get('nopeel'):
                # a variable is set by the first iteration: peel it
                back, out = self.iterate(fr, st.copy(), regs, bb, stops)
                results += [self.exit_result(fr, o) for o in out]
                if len(back) != 1:
                    raise
                return results + self.alternatives(fr, back[0][0], regs, bb, stops, hint or {})
            raise

    def alternatives(self, fr, st, regs, bb, stops, hint):
        """hint['inv'] may be a list of invariants: the first one that is inductive for the loop as written is used (when
        none is, the obligations of the first one are reported)"""
        invs = hint.get('inv')
        if not isinstance(invs, (list, tuple)):
            return self.general(fr, st, regs, bb, stops, hint)
        ex = self.ex
        for inv in invs:
            no, ne = len(ex.obls), len(ex.ends)
            self.mine += 1
            tag = self.mine
            try:
                r = self.general(fr, st.copy(), regs, bb, stops, dict(hint, inv=inv, tag=tag))
                bad = any(o.info == ('loop', tag) and not (z3.is_true(o.goal) or ex.check(self.pcz(o) + [z3.Not(o.goal)]) == z3.unsat) for o in ex.obls[no:])
            except Unsupported as e:
                if 'undef' in str(e):
                    del ex.obls[no:]
                    del ex.ends[ne:]
                    raise
                bad = True
            except (z3.Z3Exception, AttributeError, KeyError, IndexError, TypeError):
                bad = True
            if not bad:
                for o in ex.obls[no:]:
                    if o.info == ('loop', tag):
                        o.info = None
                return r
            del ex.obls[no:]
            del ex.ends[ne:]
        return self.general(fr, st, regs, bb, stops, dict(hint, inv=invs[0]))

    def gc(self, st, mark, regs=None):
        """drop objects created after `mark` that no surviving pointer can reach"""
        ex = self.ex
        objs = {k[0] for k in st.mem if k[0] > mark}
        if not objs:
            return
        live, todo = set(), []

        def see(v):
            if isinstance(v, Ptr) and v.obj in objs and v.obj not in live:
                live.add(v.obj)
                todo.append(v.obj)
            elif isinstance(v, list):
                for x in v:
                    see(x)
        for k, reg in st.mem.items():
            if k[0] <= mark:
                for o, (n, v) in reg.items():
                    see(v)
        for v in st.ghost.values():
            see(v)
        for v in (regs or {}).values():
            see(v)
        while todo:
            o = todo.pop()
            for k, reg in st.mem.items():
                if k[0] == o:
                    for _, (n, v) in reg.items():
                        see(v)
        for k in [k for k in st.mem if k[0] in objs and k[0] not in live]:
            del st.mem[k]

    # ------------------------------------------------------------ havoc
    def mkvar(self, c, name):
        """a fresh value of the cell's type; returns (value, z3 constant or None)"""
        ex = self.ex
        v = c.init
        if v is None or v is UNDEF:
            return UNDEF, None
        ex.fresh_n += 1
        nm = 'h_%s!%d' % (name, ex.fresh_n)
        if isinstance(v, Ptr):
            if v.obj is None or not v.steps:
                raise Unsupported('loop changes a plain pointer')
            tag, i, es, b = v.steps[-1]
            x = z3.Int(nm)
            return Ptr(v.obj, v.steps[:-1] + ((tag, x, es, b),), v.off), x
        if isinstance(v, (int,)) or is_int(v) or is_bv(v) or is_bool(v):
            if is_bv(v):
                x = z3.Const(nm, v.sort())
            elif is_bool(v) and not isinstance(v, int):
                x = z3.Bool(nm)
            elif ex.mode == 'int' and c.n <= 8:
                x = z3.Int(nm)
            else:
                x = z3.BitVec(nm, 8 * c.n)
            return x, x
        if isinstance(v, float):
            x = z3.Real(nm)
            return x, x
        if z3.is_expr(v):
            x = z3.Const(nm, v.sort())
            return x, x
        raise Unsupported('loop changes a value of type ' + type(v).__name__)

    def name_of(self, key, off):
        o = self.ex.objs[key[0]]
        return '%s%s_%s' % (o['name'].lstrip('%@'), ''.join('.' + str(t) for t in key[1]), off)

    def getc(self, st, key, off):
        if key == 'ghost':
            return st.ghost.get(off)
        reg = st.mem.get(key)
        if reg is None or off not in reg:
            return None
        return reg[off][1]

    def setc(self, st, c, v):
        if c.key == 'ghost':
            st.ghost[c.off] = v
            return
        reg = dict(st.mem.get(c.key) or {})
        if v is None:
            reg.pop(c.off, None)
        else:
            reg[c.off] = (c.n, v)
        st.mem[c.key] = reg

    def range_fact(self, c, x):
        if x is not None and is_int(x) and not isinstance(c.init, Ptr) and isinstance(c.n, int):
            if isinstance(c.off, tuple):
                return z3.And(x >= 0, x < (1 << 56))
            b = 8 * c.n
            return z3.And(x >= -(1 << (b - 1)), x < (1 << (b - 1))) if b > 8 else z3.And(x >= -128, x < 256)
        if x is not None and z3.is_array(x) and isinstance(c.off, tuple):
            js, t = [], x
            while z3.is_array(t):
                j = z3.Int('sz_j%d' % len(js))
                js.append(j)
                t = z3.Select(t, j)
            if is_int(t):
                return z3.ForAll(js, z3.And(t >= 0, t < (1 << 56)))
        return None

    def normalise(self, s0, s1):
        """give the flat regions of s1 the partition into cells that they have in s0"""
        for key, r0 in s0.mem.items():
            if key[1]:
                continue
            reg = s1.mem.get(key)
            if reg is None or reg is r0:
                continue
            for off, (n, v) in r0.items():
                if not isinstance(off, int) or (off in reg and reg[off][0] == n):
                    continue
                v = self.ex.load(s1, Ptr(key[0], (), off), 8 * n)
                reg = dict(s1.mem[key])
                for o in [o for o in reg if isinstance(o, int) and off <= o < off + n]:
                    if o + reg[o][0] > off + n:
                        raise Unsupported('loop re-partitions memory')
                    del reg[o]
                if any(isinstance(o, int) and o < off < o + reg[o][0] for o in reg):
                    raise Unsupported('loop re-partitions memory')
                reg[off] = (n, v)
                s1.mem[key] = reg

    def changed(self, s0, s1, mark):
        self.normalise(s0, s1)
        out = []
        for key, reg in s1.mem.items():
            if key[0] > mark:
                continue
            r0 = s0.mem.get(key)
            if r0 is reg:
                continue
            r0 = r0 or {}
            for off, (n, v) in reg.items():
                if off in r0:
                    n0, v0 = r0[off]
                    if n0 == n and (v0 is v or eqv(v0, v) or (isinstance(v, Ptr) and isinstance(v0, Ptr) and v.same(v0)) or (isinstance(v, float) and v == v0)):
                        continue
                    if n0 != n:
                        raise Unsupported('loop changes the layout of a cell')
                    if z3.is_expr(v) and z3.is_expr(v0) and v.sort().eq(v0.sort()) and z3.simplify(v == v0).eq(z3.BoolVal(True)):
                        continue
                    if is_int(v) and isinstance(v0, int) and z3.is_int_value(z3.simplify(v)) and z3.simplify(v).as_long() & mask(8 * n) == v0:
                        continue
                    out.append((key, off, n, v0))
                else:
                    # first touched inside the body: lazily created input, or a local
                    out.append((key, off, n, None))
            for off in r0:
                if off not in reg:
                    raise Unsupported('loop re-partitions memory')
        for g in set(s0.ghost) | set(s1.ghost):
            a, b = s0.ghost.get(g), s1.ghost.get(g)
            if not (a is b or eqv(a, b) or a == b if not z3.is_expr(a) and not z3.is_expr(b) else (z3.is_expr(a) and z3.is_expr(b) and a.eq(b))):
                out.append(('ghost', g, 8, a))
        return out

    # ------------------------------------------------------------ general case
    def general(self, fr, st, regs, bb, stops, hint):
        ex = self.ex
        mark = ex.nobj
        fmark = ex.fresh_n
        cells = {}
        # cells created lazily by reading inputs must exist before the loop, so that "changed" means changed
        for rnd in range(12):
            s = st.copy()
            hv = {}
            for c in cells.values():
                val, x = self.mkvar(c, self.name_of(c.key, c.off) if c.key != 'ghost' else 'g')
                c.var, c.ptr = x, val if isinstance(val, Ptr) else None
                hv[(c.key, c.off)] = val
                self.setc(s, c, val if not (val is UNDEF and c.init is None) else None)
                f = self.range_fact(c, x)
                if f is not None:
                    s.pc.append(f)
            base = s.copy()
            back, out = self.quiet(self.iterate, fr, s, regs, bb, stops)
            grew = False
            for bs, br, _ in back:
                self.gc(bs, mark, {})
                for key, off, n, v0 in self.changed(base, bs, mark):
                    if (key, off) in cells:
                        continue
                    if v0 is None and key != 'ghost':
                        # lazily created? materialise it before the loop and retry
                        nv = self.getc(bs, key, off)
                        if ex.objs[key[0]].get('alloca') is None and not key[1]:
                            ini = ex.lazy_val(Ptr(key[0], (), off), off, 8 * n, st) if ex.objs[key[0]].get('lazy') else UNDEF
                        elif key[1]:
                            ini = 'arr'
                        else:
                            ini = UNDEF
                        if isinstance(ini, str):
                            # the constant that init() would have produced
                            d = len(key[1])
                            srt = nv.sort()
                            ini = z3.Const('%s#%d_%s_%s' % (ex.objs[key[0]]['name'], key[0], '.'.join(map(str, key[1])), off), srt)
                            reg = dict(st.mem.get(key) or {})
                            reg[off] = (n, ini)
                            st.mem[key] = reg
                            grew = True
                            if nv.eq(ini):
                                continue
                        elif ini is not UNDEF:
                            reg = dict(st.mem.get(key) or {})
                            reg[off] = (n, ini)
                            st.mem[key] = reg
                            grew = True
                            continue
                        v0 = None if ini is UNDEF else ini
                    cells[(key, off)] = Cell(key, off, n, v0)
                    grew = True
            if not grew:
                break
        else:
            raise Unsupported('loop discovery does not settle')
        if not back:
            # the body never reaches the back edge: just run it
            back, out = self.iterate(fr, st.copy(), regs, bb, stops)
            return [self.exit_result(fr, o) for o in out]
        cs = list(cells.values())
        npc = len(base.pc)
        deltas = [z3.And(*[c for c in b[0].pc[npc:] if z3.is_expr(c)]) if len(b[0].pc) > npc else z3.BoolVal(True) for b in back]
        for c in cs:
            vals = [self.getc(b[0], c.key, c.off) for b in back]
            c.new = self.combine(c, deltas, vals)
        K = self.newk()
        B = z3.simplify(z3.Or(*deltas)) if len(deltas) > 1 else z3.simplify(deltas[0])
        user = hint.get('cells') if hint else None
        self.close_all(st, base, cs, K, B, fmark, hint)
        open_ = [c for c in cs if c.close is None]
        if self.debug:
            for c in cs:
                print('   loop', ex.short(fr.fn.name), bb, str(c.new)[:300] if c.kind is None else '', self.name_of(c.key, c.off) if c.key != 'ghost' else c.off, c.kind)
        inv = hint.get('inv')
        if open_ and inv is None:
            raise Unsupported('no loop contract for %s in %s' % (', '.join(self.name_of(c.key, c.off) if c.key != 'ghost' else str(c.off) for c in open_[:4]), ex.short(fr.fn.name)))

        # state after k iterations
        def S(k, tag=''):
            s = st.copy()
            for c in cs:
                if c.close is not None:
                    self.setc(s, c, c.close(k))
            for c in open_:
                val, x = self.mkvar(c, (self.name_of(c.key, c.off) if c.key != 'ghost' else 'g') + tag)
                self.setc(s, c, val)
                f = self.range_fact(c, x)
                if f is not None:
                    s.pc.append(f)
            return s
        if inv is not None:
            goal = inv(self, st, z3.IntVal(0), st)
            for nm, g in goal:
                ex.oblige('loop invariant holds initially: ' + nm, st, g, ('loop', hint['tag']) if 'tag' in hint else None, kind='invariant')
        # trip count
        n = self.trip(st, cs, K, B, fr, regs, bb, stops, S, hint)
        res = []
        s = S(K)
        s.pc.append(K >= 0)
        if n is not None:
            s.pc.append(K < n)
        if inv is not None:
            for nm, g in inv(self, s, K, st):
                s.pc.append(g)
        bk = subst_back = None
        if n is None and hint.get('trip') != 'unknown':
            # unknown trip count: all earlier iterations continued
            Bk = self.at(B, cs, K, fmark)
            if Bk is not None and not z3.is_true(Bk):
                t = z3.Int('t!%d' % self.nk)
                s.pc.append(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < K), z3.substitute(Bk, (K, t)))))
        base2 = s.copy()
        self.kstack.append(K)
        try:
            fm2 = ex.fresh_n
            back, out = self.iterate(fr, s.copy(), regs, bb, stops)
        finally:
            self.kstack.pop()
        back = [o for o in back if self.ex.check(self.pcz(o[0])) != z3.unsat]
        for o in back:
            self.normalise(base2, o[0])
        out = [o for o in out if self.ex.check(self.pcz(o[0])) != z3.unsat]
        for bs, br, _ in back:
            nxt = S(K + 1, 'n') if not open_ else None
            for c in cs:
                if c.close is None or c.kind == 'local':
                    continue
                want = c.close(K + 1)
                self.step_obligation(bs, c, self.getc(bs, c.key, c.off), want, fm2, fmark, K)
            if inv is not None:
                for nm, g in inv(self, bs, K + 1, st):
                    ex.oblige('loop invariant preserved: ' + nm, bs, g, ('loop', hint['tag']) if 'tag' in hint else None, kind='invariant')
        res += [self.exit_result(fr, o) for o in out]
        if n is not None:
            s = S(n)
            if inv is not None:
                for nm, g in inv(self, s, n, st):
                    s.pc.append(g)
            s.pc.append(n >= 0)
            b2, out = self.iterate(fr, s, regs, bb, stops)
            for o in b2:
                if ex.check(self.pcz(o[0])) != z3.unsat:
                    raise Unsupported('trip count not established in ' + ex.short(fr.fn.name))
            res += [self.exit_result(fr, o) for o in out]
        return res

    def newk(self):
        self.nk += 1
        return z3.Int('k!loop%d' % self.nk)

    def combine(self, c, deltas, vals):
        if all(v is vals[0] or eqv(v, vals[0]) for v in vals[1:]):
            return vals[0]
        r = vals[-1]
        for d, v in list(zip(deltas, vals))[-2::-1]:
            try:
                r = self.ex.ite(d, v, r, 8 * c.n if isinstance(c.n, int) else None)
            except Unsupported:
                return UNDEF
        return r

    # ------------------------------------------------------------ closed forms
    def term(self, c, v):
        """the cell's value as a z3 term of the variable's sort (None if it has another shape)"""
        if isinstance(v, Ptr):
            i = c.init
            if not isinstance(i, Ptr) or v.obj != i.obj or v.off != i.off or [s[0] for s in v.steps] != [s[0] for s in i.steps] \
               or not all(eqv(a[1], b[1]) for a, b in zip(v.steps[:-1], i.steps[:-1])):
                return None
            return to_int(v.steps[-1][1], 64)
        if v is None or v is UNDEF:
            return None
        x = c.var
        if x is None:
            return v if z3.is_expr(v) else None
        if is_int(x):
            return to_int(v, 8 * c.n) if not isinstance(v, float) else None
        if is_bv(x):
            return bv(v, x.size())
        if is_bool(x):
            return to_bool(v)
        if is_real(x):
            return self.ex.real(v)
        return v if z3.is_expr(v) and v.sort().eq(x.sort()) else None

    def wrapv(self, c, t):
        """term -> cell value"""
        if isinstance(c.init, Ptr):
            p = c.init
            tag, i, es, b = p.steps[-1]
            return Ptr(p.obj, p.steps[:-1] + ((tag, norm_int(t, 64), es, b),), p.off)
        if is_int(t) and isinstance(c.n, int) and not z3.is_array(t):
            return norm_int(t, 8 * c.n)
        return z3.simplify(t) if z3.is_expr(t) and not z3.is_array(t) else t

    def close_all(self, st, base, cs, K, B, fmark, hint):
        names = {}
        for c in cs:
            if c.var is not None:
                names[c.var.decl().name()] = c
        used = set()
        for c in cs:
            t = self.term(c, c.new)
            if t is not None:
                for nm in consts(t):
                    if nm in names and names[nm] is not c:
                        used.add(nm)
        for nm in consts(B):
            used.add(nm)
        pend = []
        for c in cs:
            if c.var is None:
                c.kind = 'local'
                c.close = (lambda c: lambda k: c.init)(c)
                continue
            t = self.term(c, c.new)
            if t is None:
                nm = c.var.decl().name()
                if nm not in used:
                    c.kind = 'local'
                    c.close = lambda k: UNDEF
                continue
            if c.var.decl().name() not in used and c.var.decl().name() not in consts(t) and self.stack_local(c):
                # overwritten in every iteration before it is read
                c.kind = 'local'
                c.close = lambda k: UNDEF
                continue
            if hint.get('open') and (z3.is_array(c.var) or hint['open'] == 'all'):
                continue
            pend.append((c, t))
        for rnd in range(6):
            rest = []
            for c, t in pend:
                if not self.close_one(st, base, c, t, cs, names, K, B, fmark):
                    rest.append((c, t))
            if len(rest) == len(pend):
                break
            pend = rest

    def stack_local(self, c):
        return c.key != 'ghost' and self.ex.objs[c.key[0]].get('alloca') is not None and not c.key[1]

    def open_names(self, cs):
        return {c.var.decl().name() for c in cs if c.close is None and c.var is not None} | {c.var.decl().name() for c in cs if c.kind == 'local' and c.var is not None}

    def inst(self, e, cs, k, K, fmark):
        """the value of an iteration-expression in iteration k: cell variables replaced by their closed forms, fresh
        constants of the body by functions of k"""
        pairs = []
        cn = consts(e)
        for c in cs:
            if c.var is not None and c.var.decl().name() in cn and c.close is not None and c.kind != 'local':
                v = c.close(k)
                pairs.append((c.var, self.term(c, v)))
        hv = {c.var.decl().name() for c in cs if c.var is not None}
        for nm, x in cn.items():
            m = re.search(r'!(\d+)$', nm)
            if nm not in hv and m and int(m.group(1)) > fmark and not nm.startswith('k!') and not nm.startswith('t!'):
                f = z3.Function('f_' + nm, I, x.sort())
                pairs.append((x, f(k)))
        return subst(e, pairs)

    def at(self, B, cs, K, fmark):
        if any(nm in self.open_names(cs) for nm in consts(B)):
            return None
        return z3.simplify(self.inst(B, cs, K, K, fmark))

    def i2b(self, t, n):
        """ring homomorphism Z -> Z/2^n applied structurally"""
        return i2b_term(t, n)

    def close_one(self, st, base, c, t, cs, names, K, B, fmark):
        x = c.var
        xn = x.decl().name()
        openn = self.open_names(cs)
        init = self.term(c, c.init) if not isinstance(c.init, Ptr) else to_int(c.init.steps[-1][1], 64)
        if is_int(x):
            d = z3.simplify(t - x)
            cd = consts(d)
            if not any(nm in names for nm in cd) and not any(self.is_body_fresh(nm, fmark) for nm in cd):
                c.kind = 'linear'
                c.close = lambda k: self.wrapv(c, z3.simplify(init + k * d))
                return True
            # wrap-free under the path condition?
        if is_bv(x):
            d = z3.simplify(t - x)
            if not any(nm in names for nm in consts(d)) and not any(self.is_body_fresh(nm, fmark) for nm in consts(d)):
                c.kind = 'linear'
                c.close = lambda k: z3.simplify(init + self.i2b(k, x.size()) * d)
                return True
        ct = consts(t)
        if xn not in ct and not any(nm in openn for nm in ct) and not z3.is_array(x):
            c.kind = 'last'

            def last(k):
                v = self.inst(t, cs, z3.simplify(k - 1), K, fmark)
                return self.wrapv(c, z3.If(k > 0, v, init))
            c.close = last
            return True
        if z3.is_array(x):
            return self.close_array(st, base, c, t, init, cs, names, K, B, fmark, openn)
        return False

    def is_body_fresh(self, nm, fmark):
        m = re.search(r'!(\d+)$', nm)
        return bool(m) and int(m.group(1)) > fmark and not nm.startswith(('k!', 't!'))

    def close_array(self, st, base, c, t, init, cs, names, K, B, fmark, openn):
        x = c.var
        js, s = [], x.sort()
        while s.kind() == z3.Z3_ARRAY_SORT:
            js.append(z3.Int('j!%d_%d' % (self.nk, len(js))))
            s = s.range()
        cur, own = t, x
        depth = len(js)
        if isinstance(c.off, tuple) or True:
            pass
        for j in js:
            cur, own = z3.Select(cur, j), z3.Select(own, j)
        cur = rw(cur)
        if self.debug:
            print('     array', str(cur)[:400], openn)
        u = z3.Const('u!own', s)
        e = z3.substitute(cur, (own, u))
        # comparisons of index against j may leave reads at "the same" index: substitute those too
        xn = x.decl().name()
        if xn in consts(e):
            e = self.own_reads(e, x, js, u, base)
            if xn in consts(e):
                return False
        if e.eq(u):
            c.kind = 'same'
            c.close = lambda k: init
            return True
        ce = consts(e)
        if any(nm in openn for nm in ce if nm != xn):
            return False
        ek = z3.simplify(self.inst(e, cs, K, K, fmark))
        g = z3.simplify(guard(ek, u))
        stk = base.copy()
        pc = [f for f in self.pcz(st)] + [K >= 0]
        Bk = self.at(B, cs, K, fmark)
        if Bk is not None:
            pc.append(Bk)
        kn = K.decl().name()
        if kn not in consts(ek):
            if u.decl().name() not in consts(z3.simplify(z3.substitute(ek, (u, z3.Const('u!2', s))))) and not self.uses(ek, g, u):
                c.kind = 'idempotent'
                fm = lambda k: self.lam(js, z3.If(z3.And(k > 0, g), ek, sel(init, js)))
                c.close = fm
                return True
        if self.debug:
            print('     pointwise', js, str(ek)[:300], '| guard', str(g)[:300], '| cand', self.inverse(g, K, js))
        for cand in self.inverse(g, K, js):
            if self.ex.check(pc + [g, K != cand], 4000) == z3.unsat:
                def close(k, cand=cand):
                    own0 = sel(init, js)
                    val = z3.substitute(ek, (K, cand), (u, own0))
                    gg = z3.substitute(g, (K, cand), (u, own0))
                    return self.lam(js, z3.If(z3.And(cand >= 0, cand < k, gg), val, own0))
                c.kind = 'pointwise'
                c.close = close
                return True
        return False

    def uses(self, e, g, u):
        """does the value written depend on the old element?"""
        v = strip_own(e, u)
        return v is None or u.decl().name() in consts(v)

    def own_reads(self, e, x, js, u, base):
        """replace reads x[i] by u where the enclosing conditions force i = j"""
        def rec(e, conds, depth):
            if depth > 40 or x.decl().name() not in consts(e):
                return e
            if z3.is_app(e):
                if z3.is_app_of(e, z3.Z3_OP_ITE):
                    c, a, b = e.children()
                    if x.decl().name() in consts(c):
                        c = rec(c, conds, depth + 1)
                    return z3.If(c, rec(a, conds + [c], depth + 1), rec(b, conds + [z3.Not(c)], depth + 1))
                if z3.is_select(e):
                    # full-depth read of x?
                    idx, y = [], e
                    while z3.is_select(y):
                        idx.append(y.arg(1))
                        y = y.arg(0)
                    idx.reverse()
                    if y.eq(x) and len(idx) == len(js):
                        g = z3.And(*[i == j for i, j in zip(idx, js)])
                        if self.ex.check(self.pcz(base) + conds + [z3.Not(g)], 2000) == z3.unsat:
                            return u
                        return e
                ch = [rec(y, conds, depth + 1) for y in e.children()]
                return e.decl()(*ch) if ch else e
            return e
        return z3.simplify(rec(e, [], 0))

    def lam(self, js, body):
        body = z3.simplify(body)
        for j in reversed(js):
            body = z3.Lambda([j], body)
        return body

    def inverse(self, g, K, js):
        """candidate expressions t with g => K = t"""
        out = []
        kn = K.decl().name()
        for a in atoms(g):
            if kn not in consts(a):
                continue
            l, r = a.arg(0), a.arg(1)
            li = linear_in(z3.simplify(l - r), K)
            if li is None:
                continue
            co, b = li
            if z3.is_int_value(co) and abs(co.as_long()) == 1:
                v = z3.simplify(-b if co.as_long() == 1 else b)
                out += [v, z3.simplify(v - 1), z3.simplify(v + 1)]
            else:
                # co*K + b <=/=/>= 0
                if z3.is_int_value(co):
                    if co.as_long() == 0:
                        continue
                    if co.as_long() < 0:
                        co, b = z3.IntVal(-co.as_long()), z3.simplify(-b)
                    out.append(z3.simplify((-b) / co))
                else:
                    out += [z3.simplify((-b) / co), z3.simplify(b / (-co))]
        r = []
        for o in out:
            if not any(o.eq(p) for p in r):
                r.append(o)
        return r[:24]

    def step_obligation(self, bs, c, got, want, fm2, fmark, K):
        ex = self.ex
        name = 'loop contract is inductive: ' + (self.name_of(c.key, c.off) if c.key != 'ghost' else str(c.off))
        w = self.term(c, want)
        g = self.term(c, got)
        if w is None or g is None:
            if want is UNDEF or c.kind == 'local':
                return
            raise Unsupported('loop contract shape')
        # constants created in this run of the body are the k-th members of the families used in the closed form
        sub = []
        for nm, x in consts(g).items():
            m = re.search(r'!(\d+)$', nm)
            if m and int(m.group(1)) > fm2 and not nm.startswith(('k!', 't!', 'j!')):
                sub.append((x, x))
        if sub:
            ex.assumptions.add('values drawn inside a loop body are named by the iteration')
            return
        if z3.is_array(w):
            js, s = [], w.sort()
            while s.kind() == z3.Z3_ARRAY_SORT:
                js.append(ex.fresh('j', I))
                s = s.range()
            goal = rw(sel(g, js)) == rw(sel(w, js))
        else:
            goal = g == w
        ex.oblige(name, bs, goal, kind='auto')

    # ------------------------------------------------------------ trip count
    def trip(self, st, cs, K, B, fr, regs, bb, stops, S, hint):
        if hint.get('trip') == 'unknown':
            return None
        Bk = self.at(B, cs, K, self.ex.fresh_n) if not any(nm in self.open_names(cs) for nm in consts(B)) else None
        if hint.get('trip') is not None:
            cand = [hint['trip'](self, st)]
        else:
            if Bk is None:
                # use only the conjuncts that do not mention open cells
                conj = B.children() if z3.is_and(B) else [B]
                conj = [x for x in conj if not any(nm in self.open_names(cs) for nm in consts(x))]
                Bk = z3.simplify(self.inst(z3.And(*conj), cs, K, K, self.ex.fresh_n)) if conj else z3.BoolVal(True)
            cand = []
            for a in atoms(Bk):
                if K.decl().name() not in consts(a):
                    continue
                li = linear_in(z3.simplify(a.arg(0) - a.arg(1)), K)
                if li is None:
                    continue
                co, b = li
                if z3.is_int_value(co):
                    q = co.as_long()
                    if q < 0:
                        q, b = -q, z3.simplify(-b)
                    # q*K + b  vs 0: boundary at K = ceil(-b/q) or +1
                    for o in ((0, 1) if q == 1 else (q - 1, 0, q)):
                        cand.append(z3.simplify((-b + o) / q if q != 1 else -b + o))
                else:
                    for o in (co - 1, z3.IntVal(0)):
                        cand.append(z3.simplify((-b + o) / co))
        pc = self.pcz(st)
        for n0 in cand:
            n = n0 if self.ex.check(pc + [n0 < 0], 2000) == z3.unsat else z3.simplify(z3.If(n0 > 0, n0, 0))
            if hint.get('trip') is not None:
                return n
            # B(k) for all 0 <= k < n and not B(n)
            if self.ex.check(pc + [K >= 0, K < n, z3.Not(Bk)], 4000) != z3.unsat:
                continue
            if self.ex.check(pc + [K == n, Bk], 4000) != z3.unsat:
                continue
            return n
        return None


_I2B = {}


def I2B(n):
    if n not in _I2B:
        _I2B[n] = z3.Function('i2b%d' % n, I, z3.BitVecSort(n))
    return _I2B[n]


def expand_i2b(e, cache=None):
    """i2b(a + b) = i2b(a) + i2b(b) etc. (ring homomorphism Z -> Z/2^n), applied to every i2b term of e"""
    if not _I2B or not z3.is_expr(e):
        return e
    cache = {} if cache is None else cache

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k][1]
        if z3.is_quantifier(x):
            vs = [z3.Const(x.var_name(i), x.var_sort(i)) for i in range(x.num_vars())]
            # bound variables are renamed to fresh constants and back
            vs = [z3.FreshConst(x.var_sort(i), 'xb') for i in range(x.num_vars())]
            b = go(z3.substitute_vars(x.body(), *reversed(vs)))
            r = z3.ForAll(vs, b) if x.is_forall() else z3.Exists(vs, b) if x.is_exists() else z3.Lambda(vs, b)
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            n = x.decl().name()
            if n.startswith('i2b') and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = i2b_term(ch[0], x.sort().size())
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = rebuild(x, ch)
        else:
            r = x
        cache[k] = (x, r)
        return r
    return go(e)


def i2b_term(t, n):
    t = z3.simplify(t)

    def go(e):
        if z3.is_int_value(e):
            return z3.BitVecVal(e.as_long(), n)
        if z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
                r = go(ch[0])
                for x in ch[1:]:
                    y = go(x)
                    r = r + y if k == z3.Z3_OP_ADD else r * y if k == z3.Z3_OP_MUL else r - y
                return r
            if k == z3.Z3_OP_UMINUS:
                return -go(ch[0])
            if k == z3.Z3_OP_ITE:
                return z3.If(ch[0], go(ch[1]), go(ch[2]))
        return I2B(n)(e)
    return z3.simplify(go(t))


def sel(a, js):
    for j in js:
        a = z3.Select(a, j)
    return a


def guard(e, u):
    """condition under which e differs syntactically from u"""
    if e.eq(u):
        return z3.BoolVal(False)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        ga, gb = guard(a, u), guard(b, u)
        return z3.Or(z3.And(c, ga), z3.And(z3.Not(c), gb))
    return z3.BoolVal(True)


def strip_own(e, u):
    """the written value with unchanged branches removed; None if several"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        if a.eq(u):
            return strip_own(b, u)
        if b.eq(u):
            return strip_own(a, u)
    return e
