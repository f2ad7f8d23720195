"""Contracts of the scalar types as an abstract commutative ring (int mode): one cell of sort Real per element.

Every identity proved from these contracts is a polynomial identity, so it holds in every commutative ring; that gf128 and the
integers mod p have ring operations is C01/C02 and the trusted NTL contract."""
import re
import z3
from core import *
from containers import qualified, split_args

R = z3.RealSort()


class Ring:
    def __init__(self, ex, C, types=('NTL::ZZ_p',), size=8):
        self.ex, self.C = ex, C
        self.types = set(types)
        for t in types:
            C.layouts[t] = (size, [((), 0, size, R, z3.RealVal(0))])
        alt = '|'.join(re.escape(t) for t in types)
        ex.on(r'^(%s)::' % alt, self.method)
        ex.on(r'^NTL::(operator|add\(|sub\(|mul\(|negate\(|clear\(|set\(|conv<|conv\(|IsZero\(|sqr|power|random)|^distributed_vector_ole::gf128::operator', self.func)
        self.tapes = []

    def get(self, st, p):
        v = self.C.read(st, p, next(iter(self.types)))[0]
        if v is UNDEF:
            v = self.ex.fresh('uninit', R)
        return v

    def put(self, st, p, v):
        self.C.write(st, p, next(iter(self.types)), [v])

    def arg_types(self, d):
        q, args = qualified(d)
        return q, [re.sub(r'(\s*const)?\s*&{0,2}$', '', a).strip() for a in split_args(args)], split_args(args)

    def value(self, st, a, t, raw):
        """a ring value from an argument of C++ type t"""
        if t in self.types:
            return self.get(st, a)
        if t in ('long', 'int', 'unsigned long', 'unsigned int'):
            if '&' in raw:
                a = self.ex.load(st, a, 64 if 'long' in t else 32)
            n = 64 if 'long' in t else 32
            if isinstance(a, int):
                return z3.RealVal(sgn(a, n) if not t.startswith('unsigned') else a)
            return z3.ToReal(a)
        raise Unsupported('ring argument ' + t)

    def method(self, ex, st, a, d):
        q, ts, raw = self.arg_types(d)
        cls, _, m = q.rpartition('::')
        if q not in self.types and cls not in self.types:
            # e.g. NTL::ZZ_p::ZZ_p
            return NotImplemented
        short = cls.split('::')[-1]
        if m == short:
            if not ts:
                self.put(st, a[0], z3.RealVal(0))
            elif len(ts) == 1 and ts[0] in self.types:
                self.put(st, a[0], self.get(st, a[1]))
            elif ts[0] in ('long', 'int', 'unsigned long'):
                self.put(st, a[0], self.value(st, a[1], ts[0], raw[0]))
            else:
                return NotImplemented
            return None
        if m == '~' + short:
            return None
        if m == 'operator=':
            self.put(st, a[0], self.value(st, a[1], ts[0], raw[0]))
            return a[0]
        return NotImplemented

    OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}

    def func(self, ex, st, a, d):
        q, ts, raw = self.arg_types(d)
        m = q.split('::')[-1] if '<' not in q else q
        if not any(t in self.types for t in ts):
            return NotImplemented
        if m.startswith('operator'):
            o = m[len('operator'):]
            if o in ('+', '-', '*') and len(ts) == 2:
                self.put(st, a[0], self.OPS[o](self.value(st, a[1], ts[0], raw[0]), self.value(st, a[2], ts[1], raw[1])))
                return None
            if o == '-' and len(ts) == 1:
                self.put(st, a[0], -self.get(st, a[1]))
                return None
            if o in ('+=', '-=', '*=') and ts[0] in self.types:
                self.put(st, a[0], self.OPS[o[0]](self.get(st, a[0]), self.value(st, a[1], ts[1], raw[1])))
                return a[0]
            if o in ('==', '!='):
                c = self.value(st, a[0], ts[0], raw[0]) == self.value(st, a[1], ts[1], raw[1])
                return c if o == '==' else z3.Not(c)
            return NotImplemented
        if m in ('add', 'sub', 'mul') and len(ts) == 3:
            self.put(st, a[0], self.OPS[{'add': '+', 'sub': '-', 'mul': '*'}[m]](self.value(st, a[1], ts[1], raw[1]), self.value(st, a[2], ts[2], raw[2])))
            return None
        if m == 'negate':
            self.put(st, a[0], -self.get(st, a[1]))
            return None
        if m == 'clear':
            self.put(st, a[0], z3.RealVal(0))
            return None
        if m == 'set':
            self.put(st, a[0], z3.RealVal(1))
            return None
        return NotImplemented


def sgn(a, n):
    a &= (1 << n) - 1
    return a - (1 << n) if a >> (n - 1) else a


TRUSTED = ['NTL::ZZ_p: value type with exact ring operations mod p (+ - * unary -, copies and moves keep the value)']
