"""C08: modulus-dependent helpers follow the installed NTL modulus."""
from sccommon import *

FUNCTIONS = ['NTLNumBitsCached<NTL::ZZ_p>', 'NTLNumBits<NTL::ZZ_p>', 'NTLNumBits<NTL::zz_p>', 'NTLTemp<NTL::ZZ>', 'NTLContext<T>::save', 'NTLContext<T>::restore']
ASSUMPTIONS = ['a new thread starts with the initial value of every thread_local variable',
               'other code does not write the function-local thread_local caches (they are local to the two helper functions)']
TRUSTED = ntlmodel.TRUSTED + [HEAP, 'NTL::ZZ_pContext / zz_pContext: save() stores the modulus installed on this thread, restore() installs the stored one']
H = PRE + r'''extern "C" {
int h_bits_ZZp() { return NTLNumBits<ZZp>(); }
int h_bits_zzp() { return NTLNumBits<zzp>(); }
int h_size_ZZp() { return ScalarHelper<ZZp>::SizeOf(); }
NTL::ZZ* h_temp() { return NTLTemp<NTL::ZZ>(); }
void h_save_ZZp(NTLContext<ZZp>* c) { c->save(); }
void h_restore_ZZp(NTLContext<ZZp>* c) { c->restore(); }
void h_save_zzp(NTLContext<zzp>* c) { c->save(); }
void h_restore_zzp(NTLContext<zzp>* c) { c->restore(); }
void h_save_U64(NTLContext<U64>* c) { c->save(); }
void h_restore_U64(NTLContext<U64>* c) { c->restore(); }
void h_save_au128(NTLContext<au128>* c) { c->save(); }
void h_restore_au128(NTLContext<au128>* c) { c->restore(); }
void h_save_gf128(NTLContext<gf128>* c) { c->save(); }
void h_restore_gf128(NTLContext<gf128>* c) { c->restore(); }
}
'''
P0_, P1_ = z3.BitVec('p_before', W), z3.BitVec('p_now', W)


def nbits_spec(P, v):
    """v is the bit length of P-1"""
    n = z3.SignExt(W - 32, bv(v, 32))
    return z3.And(n >= 1, z3.ULT(n, W), z3.LShR(P - 1, n) == 0, z3.LShR(P - 1, n - 1) == 1)


def globals_written(ex, before, st):
    out = []
    for (o, sh), reg in st.mem.items():
        g = ex.objs[o].get('global')
        if g and before.mem.get((o, sh)) is not reg and not ex.objs[o].get('const'):
            old = before.mem.get((o, sh)) or {}
            if any(k not in old or not (old[k][1] is v[1] or eqv(old[k][1], v[1])) for k, v in reg.items()):
                out.append(g)
    return out


def same_state(ex, N, a, b):
    """formula: every written global has the same value in both states (bigint handles compared by value)"""
    f = []
    keys = {k for s in (a, b) for k in s.mem if ex.objs[k[0]].get('global') and not ex.objs[k[0]].get('const')}
    for k in keys:
        offs = {o for s in (a, b) for o in (s.mem.get(k) or {})}
        for o in offs:
            n = max(s.mem.get(k, {}).get(o, (0,))[0] for s in (a, b))
            x, y = (ex.load(s, Ptr(k[0], (), o), 8 * n) for s in (a, b))
            if x is UNDEF or y is UNDEF:
                if x is not y:
                    return z3.BoolVal(False)
            elif isinstance(x, Ptr) or isinstance(y, Ptr) or (n == 8 and x == 0 and isinstance(y, Ptr)):
                px = x if isinstance(x, Ptr) else NULL
                py = y if isinstance(y, Ptr) else NULL
                f.append(N.val(a, px) == N.val(b, py))
            elif isinstance(x, int) and isinstance(y, int):
                f.append(z3.BoolVal(x == y))
            elif is_bool(x) or is_bool(y):
                f.append(to_bool(x) == to_bool(y))
            else:
                f.append(bv(x, 8 * n) == bv(y, 8 * n))
    return z3.And(*f) if f else z3.BoolVal(True)


def cached(ctx):
    m = ctx.ir(None, ['-DUSE_ASM'], name='c08', text=H)
    ex, N = new_exec(ctx, m, True)
    ex.facts += [z3.UGE(P0_, 2), z3.UGE(P1_, 2), z3.ULT(P0_, 1 << (W - 2)), z3.ULT(P1_, 1 << (W - 2))]

    def case(mm):
        a, b = ev(mm, P0_), ev(mm, P1_)
        return ('scalar', 'i%x,i%x,i%x' % (a, b, a))

    def query(st, P, name):
        N.P = P
        out = []
        for s, v in run_h(ex, 'h_bits_ZZp', [], st.copy()):
            ctx.prove(ex, 'NTLNumBits<ZZ_p> %s: bit length of the installed modulus - 1' % name, s, nbits_spec(P, v), case=case, timeout=60000)
            for g in globals_written(ex, st, s):
                ctx.check('NTLNumBits<ZZ_p> %s: writes only thread-local state (%s)' % (name, m.dem(g)), 'thread_local' in m.globals.get(g, ''), case=None)
            out.append(s)
        ctx.cover(name, len(out) > 0)
        return out
    st0 = State()
    # first query on a thread, then a query after any modulus change: the reachable cache states are the initial one and those left by a query
    for s1 in query(st0, P0_, 'on a fresh thread'):
        for s2 in query(s1, P1_, 'after an earlier query under another modulus'):
            fresh = query_state(ex, N, st0, P1_)
            alts = [z3.And(*(ex.zpc(f) + [same_state(ex, N, s2, f)])) for f in fresh]
            alts.append(z3.And(P0_ == P1_, same_state(ex, N, s2, s1)))
            ctx.prove(ex, 'closure: the cache state after any query is the one a fresh thread has after a query under the same modulus', s2, z3.Or(*alts), case=case, timeout=60000)
            query(s2, P0_, 'after switching back')
    ctx.absorb(ex, case)


def query_state(ex, N, st0, P):
    N.P = P
    return [s for s, v in run_h(ex, 'h_bits_ZZp', [], st0.copy())]


def plain(ctx):
    m = ctx.ir(None, ['-DUSE_ASM'], name='c08b', text=H)
    ex, N = new_exec(ctx, m, True)
    q2 = z3.BitVec('q2', 64)
    ex.facts += [q2 >= 2, q2 < (1 << 60)]

    def case(mm):
        return ('scalar', 'j%x,j%x' % (ev(mm, z3.BitVec('q', 64)), ev(mm, q2)))
    st0 = State()
    for s, v in run_h(ex, 'h_bits_zzp', [], st0.copy()):
        ctx.prove(ex, 'NTLNumBits<zz_p>: bit length of the installed modulus - 1', s, nbits_spec(z3.ZeroExt(W - 64, N.q), v), case=case, timeout=60000)
        N.q = q2
        for s2, v2 in run_h(ex, 'h_bits_zzp', [], s):
            ctx.prove(ex, 'NTLNumBits<zz_p> after a modulus change', s2, nbits_spec(z3.ZeroExt(W - 64, q2), v2), case=case, timeout=60000)
            ctx.cover('zz_p queries', True)
        for g in globals_written(ex, st0, s):
            ctx.check('NTLNumBits<zz_p>: writes only thread-local state (%s)' % m.dem(g), 'thread_local' in m.globals.get(g, ''))
    for s, v in run_h(ex, 'h_temp', [], st0.copy()):
        ctx.check('NTLTemp<ZZ>: returns an object', isinstance(v, Ptr) and v.obj is not None)
        ctx.check('NTLTemp<ZZ>: the object belongs to this thread', isinstance(v, Ptr) and 'thread_local' in m.globals.get(ex.objs[v.obj].get('global') or '', ''))
    ctx.absorb(ex, case)


def contexts(ctx):
    m = ctx.ir(None, ['-DUSE_ASM'], name='c08c', text=H)
    for t in ('ZZp', 'zzp', 'U64', 'au128', 'gf128'):
        ex, N = new_exec(ctx, m, True)
        log = []
        ex.on(r'^NTL::(ZZ_pContext|zz_pContext)::(save|restore)\(\)', lambda e, st, a, d: log.append((d.replace(' const', ''), a[0])) or None)
        c = ex.new_obj('ctx', 64)
        st = State()
        nat = ('scalar', 'i1fff1,s,i100000001,r,x,j10001,t,j11,u,x')
        (s, _), = run_h(ex, 'h_save_' + t, [Ptr(c)], st)
        n1 = list(log)
        (s, _), = run_h(ex, 'h_restore_' + t, [Ptr(c)], s)
        n2 = log[len(n1):]
        if t in ('ZZp', 'zzp'):
            k = 'NTL::%s_pContext::' % t[:2]
            ctx.check(t + ': NTLContext::save saves the modulus context', len(n1) >= 1 and n1[-1][0] == k + 'save()' and all(x[0] == k + 'save()' for x in n1), info=n1, case=nat)
            ctx.check(t + ': NTLContext::restore restores from the same context', len(n2) >= 1 and n2[-1][0] == k + 'restore()' and all(x[0] == k + 'restore()' for x in n2)
                      and n2[-1][1].same(n1[-1][1]), info=n2, case=nat)
        else:
            ctx.check(t + ': NTLContext save/restore call nothing', not log)
            ctx.check(t + ': NTLContext save/restore write nothing', not [k for k in s.mem if not ex.objs[k[0]].get('alloca')])
        ctx.absorb(ex)


def proof(ctx):
    ctx.parallel([('cached bit count', cached), ('plain helpers', plain), ('contexts', contexts)])


def native(ctx):
    sc_native(ctx, 8)
