"""Harness API (vf_*), libm, libc and LLVM-intrinsic models.  Each entry is part of
the claim: what is not listed here is executed from the real code's IR."""
import math, struct
from fractions import Fraction
import z3
from .llvmir import UNDEF
from .reals import *


def install(e):
    from . import engine as E
    from . import checks as C
    Undef, Inf, is_undef, PathEnd, Unsupported = E.Undef, E.Inf, E.is_undef, E.PathEnd, E.Unsupported
    B = e.builtins

    def reg(*names):
        def d(f):
            for n in names:
                B[n] = f
            return f
        return d

    # ---------------------------------------------------------------- harness API
    def real_input(p, name, lo=None, hi=None, kind='real'):
        name = uniq(p, name)
        g = e.new_gen(('in', name), name, 'in', None)
        p.inputs.append((name, kind, g, lo, hi))
        n = e.pool.mk('gen', g)
        if lo is not None:
            f = p.frac(e.sub(n, lo))
            p.add_cond(f.n, '>=')
        if hi is not None:
            f = p.frac(e.sub(n, hi))
            p.add_cond(f.n, '<=')
        return n

    @reg('vf_real')
    def _(p, a, t, r):
        return real_input(p, p.cstr(a[0]))

    @reg('vf_range')
    def _(p, a, t, r):
        return real_input(p, p.cstr(a[0]), a[1], a[2])

    @reg('vf_reals')
    def _(p, a, t, r):
        name = p.cstr(a[0])
        n = p.concretize(a[1], 64, 'n')
        for i in range(n):
            p.store(a[2] + 8 * i, E._F64, real_input(p, '%s[%d]' % (name, i)))

    @reg('vf_unit')
    def _(p, a, t, r):
        name = p.cstr(a[0])
        n = p.concretize(a[1], 64, 'n')
        gs = []
        for i in range(n):
            el = uniq(p, '%s[%d]' % (name, i))
            gs.append(e.new_gen(('in', el), el, 'in', None))
        p.inputs.append((name, 'unit', gs, None, None))
        g = gs[-1]
        rhs = {0: 1}
        for h in gs[:-1]:
            rhs[2 << (FB * h)] = -1
        p.ring.add_rel(g, 2, rhs)
        gi = e.gens[g]
        if not gi.facts:
            fact = z3.Sum([e.gens[h].z3 * e.gens[h].z3 for h in gs]) == 1
            for h in gs:
                e.gens[h].facts = [fact]
                e.gens[h].deps = [k for k in gs if k != h]
        for i, h in enumerate(gs):
            p.store(a[2] + 8 * i, E._F64, e.pool.mk('gen', h))

    def uniq(p, name):
        # a second input of the same name is name#1, ... (same rule in vf_native.c)
        k = p.namecount.get(name, 0)
        p.namecount[name] = k + 1
        return name if not k else '%s#%d' % (name, k)

    @reg('vf_int')
    def _(p, a, t, r):
        name = uniq(p, p.cstr(a[0]))
        x = z3.BitVec('i_' + name, 64)
        lo, hi = a[1], a[2]
        lo = lo - (1 << 64) if lo >> 63 else lo
        hi = hi - (1 << 64) if hi >> 63 else hi
        p.iconds += [x >= lo, x <= hi]
        p.inputs.append((name, 'int', x, lo, hi))
        return x

    @reg('vf_pick')
    def _(p, a, t, r):
        """structural choice 0..n-1: every value is explored as its own path"""
        name = uniq(p, p.cstr(a[0]))
        n = p.concretize(a[1], 64, 'n')
        v = p.decide([(i, None, None) for i in range(n)])
        p.inputs.append((name, 'pick', v, None, None))
        return v

    @reg('vf_assume')
    def _(p, a, t, r):
        c = a[0]
        if is_undef(c):
            raise PathEnd('assume')
        if not isinstance(c, int):
            c = p.tobool(c)
            if not p.isat(c):
                raise PathEnd('assume')
            p.iconds.append(c)
            return
        if not c:
            raise PathEnd('assume')

    @reg('vf_assume_le', 'vf_assume_lt', 'vf_assume_ne', 'vf_assume_eq')
    def _(p, a, t, r):
        raise Unsupported('vf_assume_rel used without name')
    for nm, rel in (('vf_assume_le', '<='), ('vf_assume_lt', '<'), ('vf_assume_ne', '!='), ('vf_assume_eq', '==')):
        def mk(rel):
            def f(p, a, t, r):
                d = e.sub(a[0], a[1])
                if is_undef(d):
                    raise PathEnd('assume')
                if isinstance(d, Fraction):
                    if not p.decide_rel(d, rel):
                        raise PathEnd('assume')
                    return
                fr = p.frac(d)
                if fr.is_const():
                    if not p.decide_rel(fr.const(), rel):
                        raise PathEnd('assume')
                    return
                q = fr.n if rel in ('!=', '==') else p.cmp_poly(fr)
                i = len(p.trail)
                if i < len(p.prefix):
                    ok = p.prefix[i]
                else:
                    ok = 0 if p.query([(q, rel)], e.t_branch)[0] == 'unsat' else 1
                p.trail.append(ok)
                if not ok:
                    raise PathEnd('assume')
                p.add_cond(q, rel)
            return f
        B[nm] = mk(rel)

    @reg('vf_eq')
    def _(p, a, t, r):
        C.check_eq(p, p.cstr(a[0]), a[1], a[2])

    @reg('vf_eqn')
    def _(p, a, t, r):
        lab = p.cstr(a[0])
        n = p.concretize(a[1], 64, 'n')
        for i in range(n):
            C.check_eq(p, '%s[%d]' % (lab, i), p.load(a[2] + 8 * i, E._F64), p.load(a[3] + 8 * i, E._F64))

    @reg('vf_near')
    def _(p, a, t, r):
        C.check_eq(p, p.cstr(a[0]), a[1], a[2], tol=a[3])

    @reg('vf_le')
    def _(p, a, t, r):
        C.check_le(p, p.cstr(a[0]), a[1], a[2])

    @reg('vf_true')
    def _(p, a, t, r):
        C.check_true(p, p.cstr(a[0]), a[1])

    @reg('vf_block')
    def _(p, a, t, r):
        C.check_true(p, p.cstr(a[0]), z3.simplify(p.inside_live(a[1], a[2])))

    @reg('vf_live')
    def _(p, a, t, r):
        return sum(1 for o in p.objs if o.alive and o.kind == 'heap')

    @reg('vf_reach')
    def _(p, a, t, r):
        C.reach(p, p.cstr(a[0]))

    @reg('vf_hint_root')
    def _(p, a, t, r):
        if not is_undef(a[0]):
            p.root_hints.append(a[0])

    @reg('vf_note')
    def _(p, a, t, r):
        p.notes.append(p.cstr(a[0]))

    @reg('vf_symbolic')
    def _(p, a, t, r):
        return 1

    # ---------------------------------------------------------------- libm
    @reg('sqrt', 'sqrtf', 'llvm.sqrt.f64', 'llvm.sqrt.f32')
    def _(p, a, t, r):
        return p.sqrt(a[0])

    @reg('fabs', 'fabsf', 'llvm.fabs.f64', 'llvm.fabs.f32')
    def _(p, a, t, r):
        return p.fabs(a[0])

    @reg('sin', 'sinf', 'llvm.sin.f64')
    def _(p, a, t, r):
        return p.sincos(a[0])[0]

    @reg('cos', 'cosf', 'llvm.cos.f64')
    def _(p, a, t, r):
        return p.sincos(a[0])[1]

    @reg('tan')
    def _(p, a, t, r):
        s, c = p.sincos(a[0])
        return p.div(s, c)

    @reg('sincos')
    def _(p, a, t, r):
        s, c = p.sincos(a[0])
        p.store(a[1], E._F64, s)
        p.store(a[2], E._F64, c)

    @reg('atan2')
    def _(p, a, t, r):
        return p.atan2(a[0], a[1])

    @reg('atan')
    def _(p, a, t, r):
        return p.atan2(a[0], Fraction(1))

    def one_minus_sq(p, x):
        v = e.sub(Fraction(1), e.mul(x, x))
        return p.sqrt(v)

    @reg('acos')
    def _(p, a, t, r):
        s = one_minus_sq(p, a[0])
        return s if is_undef(s) else p.atan2(s, a[0])

    @reg('asin')
    def _(p, a, t, r):
        s = one_minus_sq(p, a[0])
        return s if is_undef(s) else p.atan2(a[0], s)

    @reg('llvm.va_start', 'llvm.va_start.p0')
    def _(p, a, t, r):
        # System V x86-64 va_list with every register slot already consumed
        b = p.alloc(max(8 * len(p.va), 1), 'stack')
        for i, v in enumerate(p.va):
            p.store_raw(p.objs[-1], 8 * i, 8, v)
        p.store(a[0], E._I32, 48)
        p.store(a[0] + 4, E._I32, 176)
        p.store(a[0] + 8, E._I64, b)

    @reg('llvm.va_end', 'llvm.va_end.p0')
    def _(p, a, t, r):
        return None

    @reg('creal')
    def _(p, a, t, r):
        return a[0]

    @reg('cimag')
    def _(p, a, t, r):
        return a[1]

    @reg('hypot')
    def _(p, a, t, r):
        return p.sqrt(e.add(e.mul(a[0], a[0]), e.mul(a[1], a[1])))

    @reg('fmin', 'llvm.minnum.f64')
    def _(p, a, t, r):
        return a[0] if p.fcmp('ole', a[0], a[1]) else a[1]

    @reg('fmax', 'llvm.maxnum.f64')
    def _(p, a, t, r):
        return a[0] if p.fcmp('oge', a[0], a[1]) else a[1]

    @reg('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma')
    def _(p, a, t, r):
        return e.add(e.mul(a[0], a[1]), a[2])

    @reg('llvm.copysign.f64', 'copysign')
    def _(p, a, t, r):
        m = p.fabs(a[0])
        if is_undef(a[1]):
            return a[1]
        return m if p.decide_rel(a[1], '>=') else e.neg(m)

    @reg('pow', 'llvm.pow.f64')
    def _(p, a, t, r):
        b, x = a
        if isinstance(x, Fraction) and x.denominator == 1 and isinstance(b, Fraction) and b and -400 <= x <= 400:
            return b ** int(x)
        if isinstance(x, Fraction) and x.denominator == 1 and 0 <= x <= 16:
            v = Fraction(1)
            for _ in range(int(x)):
                v = e.mul(v, b)
            return v
        if isinstance(x, Fraction) and x == Fraction(1, 2):
            return p.sqrt(b)
        raise Unsupported('pow')

    @reg('llvm.powi.f64.i32')
    def _(p, a, t, r):
        v = Fraction(1)
        k = a[1]
        for _ in range(k):
            v = e.mul(v, a[0])
        return v

    def transc(name, pyf, facts):
        def f(p, a, t, r):
            x = a[0]
            if is_undef(x):
                return x
            fr = p.frac(x)
            g = e.new_gen((name, pkey(fr.n), fr.d), name, 'fun', (pyf, [x]))
            gi = e.gens[g]
            if not gi.facts:
                gi.facts = facts(gi.z3, p, fr)
                gi.deps = pgens(fr.n)
            return e.pool.mk('gen', g)
        return f

    B['exp_'] = transc('exp', math.exp, lambda z, p, fr: [z > 0])

    @reg('exp')
    def _(p, a, t, r):
        x = a[0]
        if is_undef(x):
            return x
        if isinstance(x, Fraction) and x == 0:
            return Fraction(1)
        # exp(log(y)) = y ; exp(-x) = 1/exp(x); exp(sum) = prod
        fr = p.frac(x)
        if fr.is_const() and fr.const() == 0:
            return Fraction(1)
        if not fr.d:
            out = Fraction(1)
            for m, c in fr.n.items():
                gm = gens_of_mono(m)
                c = Fraction(c)
                if len(gm) == 1 and gm[0][1] == 1 and e.gens[gm[0][0]].kind == 'fun' and e.gens[gm[0][0]].name == 'log' and c.denominator in (1, 2):
                    y = e.gens[gm[0][0]].data[1][0]
                    if c.denominator == 2:
                        y = p.sqrt(y)
                        c = c * 2
                    base = y
                else:
                    k = Fraction(1, c.denominator)
                    base = B['exp_'](p, [p.poly_node({m: k})], t, r)
                    c = Fraction(c.numerator)
                for _ in range(abs(int(c))):
                    out = e.mul(out, base) if c > 0 else p.div(out, base)
            return out
        return B['exp_'](p, a, t, r)

    @reg('log')
    def _(p, a, t, r):
        x = a[0]
        if is_undef(x):
            return x
        if isinstance(x, Fraction):
            if x == 1:
                return Fraction(0)
            if x == 0:
                return Inf(-1)
            if x <= 0:
                return Undef('log of nonpositive')
        if not p.decide_rel(x, '>'):
            return Undef('log of nonpositive')
        fr = p.frac(x)
        if not fr.d and len(fr.n) == 1:
            m = next(iter(fr.n))
            gm = gens_of_mono(m)
            if fr.n[m] == 1 and len(gm) == 1 and e.gens[gm[0][0]].kind == 'fun' and e.gens[gm[0][0]].name == 'exp':
                return e.mul(e.gens[gm[0][0]].data[1][0], Fraction(gm[0][1]))
        q = p.cmp_poly(p.frac(e.sub(x, Fraction(1))))
        return transc('log', math.log, lambda z, p, fr: [(p.zpoly(q) < 0) == (z < 0), (p.zpoly(q) == 0) == (z == 0)] + ([z <= p.zpoly(fr.n) - 1] if not fr.d else []))(p, a, t, r)

    @reg('log2')
    def _(p, a, t, r):
        x = a[0]
        if isinstance(x, Fraction) and x == 0:
            return Inf(-1)
        if isinstance(x, Fraction) and x > 0:
            return Fraction(math.log2(x))
        if is_undef(x):
            return x
        raise Unsupported('log2 of a symbolic value')

    @reg('fmod')
    def _(p, a, t, r):
        x, y = a
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            q = x / y
            k = int(q)
            return x - k * y
        # enumerated quotient (|k| <= 3), y>0 assumed by query
        opts = []
        for k in (0, 1, -1, 2, -2, 3, -3):
            rem = e.sub(x, e.mul(y, Fraction(k)))
            fl = p.frac(rem)
            fh = p.frac(e.sub(rem, y))
            fl2 = p.frac(e.add(rem, y))
            pl, ph, pl2 = p.cmp_poly(fl), p.cmp_poly(fh), p.cmp_poly(fl2)
            px = p.cmp_poly(p.frac(x))
            if k == 0:
                cs = [(ph, '<'), (pl2, '>')]
            elif k > 0:
                cs = [(px, '>'), (pl, '>='), (ph, '<')]
            else:
                cs = [(px, '<'), (pl, '<='), (pl2, '>')]

            def fe(cs=cs):
                return p.query(cs, e.t_branch)[0] != 'unsat'

            def ap(cs=cs):
                for q, rl in cs:
                    p.add_cond(q, rl)
            opts.append((rem, fe, ap))

        def die():
            raise PathEnd('cut', 'fmod quotient beyond 3')
        opts.append((None, lambda: p.query([(px, '!=')], 300)[0] != 'unsat' and False, die))
        return p.decide(opts)

    @reg('remainder')
    def _(p, a, t, r):
        """IEEE remainder: x - n*y, n nearest, ties to even; |n| <= 4 enumerated"""
        x, y = a
        if is_undef(x) or is_undef(y):
            return x if is_undef(x) else y
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return x - round(x / y) * y
        h = e.mul(y, Fraction(1, 2))
        opts = []
        for k in (0, 1, -1, 2, -2, 3, -3, 4, -4):
            rem = e.sub(x, e.mul(y, Fraction(k)))
            pl = p.cmp_poly(p.frac(e.add(rem, h)))
            ph = p.cmp_poly(p.frac(e.sub(rem, h)))
            cs = [(pl, '>='), (ph, '<=')] if k % 2 == 0 else [(pl, '>'), (ph, '<')]

            def fe(cs=cs):
                return all(not pis_const(q) or p.decide_rel(Fraction(q.get(0, 0)), rl) for q, rl in cs) and p.query(cs, e.t_branch)[0] != 'unsat'

            def ap(cs=cs):
                for q, rl in cs:
                    p.add_cond(q, rl)
            opts.append((rem, fe, ap))
        lo = p.cmp_poly(p.frac(e.add(x, e.mul(h, Fraction(9)))))
        hi = p.cmp_poly(p.frac(e.sub(x, e.mul(h, Fraction(9)))))

        def die():
            raise PathEnd('cut', 'remainder quotient beyond 4')
        opts.append((None, lambda: p.query([(lo, '<')], e.t_branch)[0] != 'unsat' or p.query([(hi, '>')], e.t_branch)[0] != 'unsat', die))
        return p.decide(opts)

    def rnd(f):
        def g(p, a, t, r):
            x = a[0]
            if isinstance(x, N):
                fr = p.frac(x)
                if fr.is_const():
                    x = fr.const()
            if isinstance(x, Fraction):
                return Fraction(f(x))
            if isinstance(x, Inf):
                return x
            raise Unsupported('rounding of symbolic real')
        return g
    B['floor'] = B['llvm.floor.f64'] = rnd(math.floor)
    B['ceil'] = B['llvm.ceil.f64'] = rnd(math.ceil)
    B['trunc'] = B['llvm.trunc.f64'] = rnd(math.trunc)
    B['round'] = B['llvm.round.f64'] = rnd(lambda x: math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))

    @reg('__isnan', 'isnan')
    def _(p, a, t, r):
        return 1 if is_undef(a[0]) and not isinstance(a[0], Inf) else 0

    @reg('__isinf', 'isinf')
    def _(p, a, t, r):
        return 1 if is_undef(a[0]) else 0

    @reg('llvm.is.fpclass.f64')
    def _(p, a, t, r):
        mask = a[1]
        if is_undef(a[0]):
            return 1 if mask & 0x3 or mask & 0x204 else 0
        if mask & 0x1f8 == 0x1f8:
            return 1
        if mask & ~0x207 == 0:
            return 0
        raise Unsupported('is.fpclass')

    @reg('__muldc3')
    def _(p, a, t, r):
        x, y, z, w = a
        return [e.sub(e.mul(x, z), e.mul(y, w)), e.add(e.mul(x, w), e.mul(y, z))]

    # ---------------------------------------------------------------- libc
    @reg('malloc', '_Znwm', '_Znam', 'valloc')
    def _(p, a, t, r):
        if isinstance(a[0], z3.BitVecRef) and not e.opts.get('concrete_malloc'):
            return p.alloc_sym(a[0], 'heap')
        n = p.concretize(a[0], 64, 'malloc size')
        if n > 1 << 28:
            raise PathEnd('memerr', 'huge allocation %d' % n)
        return p.alloc(n, 'heap')

    @reg('calloc')
    def _(p, a, t, r):
        n = p.concretize(a[0], 64, 'n') * p.concretize(a[1], 64, 'n')
        x = p.alloc(n, 'heap')
        p.memset(x, 0, n)
        return x

    @reg('aligned_alloc', 'memalign')
    def _(p, a, t, r):
        return p.alloc(p.concretize(a[1], 64, 'n'), 'heap', max(64, a[0]))

    @reg('posix_memalign')
    def _(p, a, t, r):
        x = p.alloc(p.concretize(a[2], 64, 'n'), 'heap', max(64, a[1]))
        p.store(a[0], E._I64, x)
        return 0

    @reg('realloc')
    def _(p, a, t, r):
        n = p.concretize(a[1], 64, 'n')
        x = p.alloc(n, 'heap')
        if a[0]:
            o, off = p.obj(a[0], 0, 'realloc')
            p.memcpy(x, a[0], min(n, o.size))
            o.alive = False
        return x

    @reg('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
    def _(p, a, t, r):
        if a[0] == 0:
            return
        if is_undef(a[0]):
            raise PathEnd('memerr', 'free of undefined pointer')
        o, off = p.obj(a[0], 0, 'free')
        if off or not o.alive:
            raise PathEnd('memerr', 'invalid free in ' + p.cur_fn)
        if o.kind != 'heap':
            raise PathEnd('memerr', 'free of non-heap memory in ' + p.cur_fn)
        o.alive = False

    def memcpy_(p, a, t, r):
        n = p.concretize(a[2], 64, 'memcpy size')
        p.memcpy(a[0], a[1], n)
        return a[0]

    def memset_(p, a, t, r):
        n = p.concretize(a[2], 64, 'memset size')
        v = a[1]
        p.memset(a[0], v, n)
        return a[0]
    for n in ('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk'):
        B[n] = memcpy_
    for n in ('memset', '__memset_chk'):
        B[n] = memset_

    @reg('bzero')
    def _(p, a, t, r):
        p.memset(a[0], 0, p.concretize(a[1], 64, 'n'))

    CMP = {0: 0, 1: 1, -1: 0xffffffff}

    @reg('strlen')
    def _(p, a, t, r):
        return len(p.cbytes(a[0]))

    @reg('strcmp')
    def _(p, a, t, r):
        return CMP[p.cmpbytes(p.cbytes(a[0]) + [0], p.cbytes(a[1]) + [0])]

    @reg('strncmp')
    def _(p, a, t, r):
        n = p.concretize(a[2], 64, 'n')
        return CMP[p.cmpbytes((p.cbytes(a[0]) + [0])[:n], (p.cbytes(a[1]) + [0])[:n])]

    @reg('strcasecmp')
    def _(p, a, t, r):
        x, y = p.cstr(a[0]).lower(), p.cstr(a[1]).lower()
        return 0 if x == y else (1 if x > y else 0xffffffff)

    @reg('memcmp', 'bcmp')
    def _(p, a, t, r):
        n = p.concretize(a[2], 64, 'n')
        for i in range(n):
            k = p.cmpbytes([p.load(a[0] + i, E._I8)], [p.load(a[1] + i, E._I8)])
            if k:
                return CMP[k]
        return 0

    @reg('memchr')
    def _(p, a, t, r):
        for i in range(p.concretize(a[2], 64, 'n')):
            if p.load(a[0] + i, E._I8) == a[1] & 255:
                return a[0] + i
        return 0

    def setstr(p, addr, s):
        for i, ch in enumerate((list(s.encode('latin1')) if isinstance(s, str) else s) + [0]):
            p.store(addr + i, E._I8, ch)

    @reg('strdup')
    def _(p, a, t, r):
        s = p.cbytes(a[0])
        x = p.alloc(len(s) + 1, 'heap')
        setstr(p, x, s)
        return x

    @reg('strcpy', '__strcpy_chk')
    def _(p, a, t, r):
        setstr(p, a[0], p.cbytes(a[1]))
        return a[0]

    @reg('strcat', '__strcat_chk')
    def _(p, a, t, r):
        setstr(p, a[0] + len(p.cstr(a[0])), p.cstr(a[1]))
        return a[0]

    @reg('strncpy', '__strncpy_chk')
    def _(p, a, t, r):
        s = p.cstr(a[1])[:a[2]]
        for i in range(a[2]):
            p.store(a[0] + i, E._I8, ord(s[i]) if i < len(s) else 0)
        return a[0]

    @reg('strchr', 'index')
    def _(p, a, t, r):
        s = p.cstr(a[0]) + '\0'
        k = s.find(chr(a[1] & 255))
        return a[0] + k if k >= 0 else 0

    @reg('strrchr', 'rindex')
    def _(p, a, t, r):
        s = p.cstr(a[0]) + '\0'
        k = s.rfind(chr(a[1] & 255))
        return a[0] + k if k >= 0 else 0

    @reg('strstr')
    def _(p, a, t, r):
        k = p.cstr(a[0]).find(p.cstr(a[1]))
        return a[0] + k if k >= 0 else 0

    def noop(p, a, t, r):
        return 0
    for n in ('printf', 'fprintf', 'puts', 'fputs', 'fputc', 'putchar', 'fflush', 'fwrite', 'perror', 'vfprintf', 'vprintf',
              'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_init', 'pthread_mutex_destroy',
              'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock',
              '__cxa_atexit', 'atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', 'aa_dump_vec', 'aa_dump_mat',
              '__cxa_guard_release', 'syslog', 'openlog'):
        B[n] = noop

    def format_(p, fmt, args):
        import re
        args = list(args)

        def one(m):
            c = m.group(0)[-1]
            if c == '%':
                return '%'
            v = args.pop(0) if args else 0
            if c == 's':
                s_ = p.cstr(v)
                return s_ if isinstance(s_, str) else s_.decode('latin1')
            if c in 'diuxXcp' and isinstance(v, int):
                return chr(v) if c == 'c' else ('%x' % v if c in 'xXp' else str(v if v < 1 << 63 else v - (1 << 64)))
            raise Unsupported('printf formatting of a symbolic value')
        return re.sub(r'%[-+ #0-9.]*(?:hh|h|ll|l|z|j|t)?[a-zA-Z%]', one, fmt)

    @reg('snprintf')
    def _(p, a, t, r):
        s_ = format_(p, p.cstr(a[2]), a[3:])
        n = p.concretize(a[1], 64, 'snprintf size')
        if n:
            setstr(p, a[0], s_[:n - 1])
        return len(s_)

    @reg('llvm.va_copy', 'llvm.va_copy.p0')
    def _(p, a, t, r):
        for k in (0, 8, 16):
            p.store(a[0] + k, E._I64, p.load(a[1] + k, E._I64) if k < 16 else 0)

    @reg('vsnprintf')
    def _(p, a, t, r):
        import re
        fmt = p.cstr(a[2])
        ov = p.load(a[3] + 8, E._I64)
        k = len([x for x in re.findall(r'%[-+ #0-9.]*(?:hh|h|ll|l|z|j|t)?[a-zA-Z%]', fmt) if x[-1] != '%'])
        s_ = format_(p, fmt, [p.load(ov + 8 * i, E._I64) for i in range(k)])
        n = p.concretize(a[1], 64, 'vsnprintf size')
        if n:
            setstr(p, a[0], s_[:n - 1])
        return len(s_)

    @reg('pthread_key_create')
    def _(p, a, t, r):
        k = len(p.tls)
        p.tls[k] = 0
        from .engine import _T
        ty = _T()
        ty.k = 'i'
        ty.w = 32
        ty.size = 4
        p.store(a[0], ty, k)
        return 0

    @reg('pthread_getspecific')
    def _(p, a, t, r):
        return p.tls.get(a[0], 0)

    @reg('pthread_setspecific')
    def _(p, a, t, r):
        p.tls[a[0]] = a[1]
        return 0

    @reg('__cxa_guard_acquire')
    def _(p, a, t, r):
        return 1

    def die(p, a, t, r):
        raise PathEnd('abort', 'abort() in ' + p.cur_fn)
    for n in ('abort', 'exit', '_exit', '__assert_fail', '_ZSt9terminatev', '__cxa_throw', '_ZSt20__throw_length_errorPKc',
              '_ZSt17__throw_bad_allocv', '_ZSt19__throw_logic_errorPKc', '_ZSt20__throw_out_of_rangePKc',
              '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt28__throw_bad_array_new_lengthv', '__cxa_pure_virtual',
              '_ZSt16__throw_bad_castv', '__clang_call_terminate'):
        B[n] = die

    # ---------------------------------------------------------------- stdio over memory, pipes
    @reg('fmemopen')
    def _(p, a, t, r):
        h = p.alloc(16, 'FILE')
        p.files[h] = dict(buf=a[0], n=p.concretize(a[1], 64, 'n'), pos=0, eof=False)
        return h

    @reg('fopen', 'fopen64')
    def _(p, a, t, r):
        name = p.cstr(a[0])
        f = p.named_files.get(name)
        if f is None:
            return 0
        h = p.alloc(16, 'FILE')
        p.files[h] = dict(buf=f[0], n=f[1], pos=0, eof=False)
        return h

    def getfile(p, h):
        f = p.files.get(h)
        if f is None:
            raise PathEnd('memerr', 'bad FILE handle in ' + p.cur_fn)
        return f

    @reg('fgetc', 'getc', '_IO_getc', 'getc_unlocked')
    def _(p, a, t, r):
        f = getfile(p, a[0])
        if f['pos'] >= f['n']:
            f['eof'] = True
            return 0xffffffff
        c = p.load(f['buf'] + f['pos'], E._I8)
        f['pos'] += 1
        return c if isinstance(c, int) else z3.ZeroExt(24, c)

    @reg('ungetc')
    def _(p, a, t, r):
        f = getfile(p, a[1])
        if a[0] == 0xffffffff:
            return a[0]
        f['pos'] -= 1
        f['eof'] = False
        return a[0]

    @reg('fread')
    def _(p, a, t, r):
        f = getfile(p, a[3])
        n = min(a[1] * a[2], f['n'] - f['pos'])
        p.memcpy(a[0], f['buf'] + f['pos'], n)
        f['pos'] += n
        if n < a[1] * a[2]:
            f['eof'] = True
        return n // a[1]

    @reg('feof')
    def _(p, a, t, r):
        return 1 if getfile(p, a[0])['eof'] else 0

    @reg('ferror')
    def _(p, a, t, r):
        return 0

    @reg('fclose')
    def _(p, a, t, r):
        getfile(p, a[0])
        del p.files[a[0]]
        p.obj(a[0], 1, 'fclose')[0].alive = False
        return 0

    @reg('pipe')
    def _(p, a, t, r):
        q = []
        k = 100 + 2 * len(p.pipes)
        p.pipes[k] = p.pipes[k + 1] = q
        p.store(a[0], E._I32, k)
        p.store(a[0] + 4, E._I32, k + 1)
        return 0

    @reg('write')
    def _(p, a, t, r):
        if a[0] in p.pipes:
            for i in range(a[2]):
                p.pipes[a[0]].append(p.load(a[1] + i, E._I8))
        return a[2]

    @reg('read')
    def _(p, a, t, r):
        q = p.pipes.get(a[0])
        if q is None:
            return (1 << 64) - 1
        n = p.concretize(a[2], 64, 'read size')
        k = min(n, len(q))
        for i in range(k):
            p.store(a[1] + i, E._I8, q.pop(0))
        return k

    @reg('close')
    def _(p, a, t, r):
        return 0

    @reg('__ctype_b_loc')
    def _(p, a, t, r):
        if not p.ctype:
            import ctypes
            lc = ctypes.CDLL(None)
            lc.__ctype_b_loc.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_ushort))
            tb = lc.__ctype_b_loc().contents
            x = p.alloc(384 * 2, 'const')
            o = p.objs[-1]
            for i in range(384):
                o.cells[2 * i] = (2, tb[i - 128] if True else 0)
            q = p.alloc(8, 'ctype')
            p.objs[-1].cells[0] = (8, x + 256)
            p.ctype = q
        return p.ctype

    @reg('__ctype_tolower_loc', '__ctype_toupper_loc')
    def _(p, a, t, r):
        raise Unsupported('ctype case table')

    def isc(chars):
        def f(p, a, t, r):
            c = a[0]
            if isinstance(c, int):
                return 1 if 0 <= c < 256 and chr(c) in chars else 0
            return z3.If(z3.Or([c == ord(x) for x in chars]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        return f
    B['isblank'] = isc(' \t')
    B['isspace'] = isc(' \t\n\r\v\f')
    B['isdigit'] = isc('0123456789')
    B['isalpha'] = isc('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
    B['isalnum'] = isc('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')

    import re as _re
    NUM = _re.compile(r'[ \t\n\v\f\r]*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)')

    def ctext(p, addr):
        s = ''
        while True:
            c = p.concretize(p.load(addr + len(s), E._I8), 8, 'character')
            if c == 0:
                return s
            s += chr(c)

    @reg('strtod', '__strtod')
    def _(p, a, t, r):
        s = ctext(p, a[0])
        m = NUM.match(s)
        if _re.match(r'\s*[-+]?(0[xX]|[iI][nN][fF]|[nN][aA][nN])', s):
            raise Unsupported('strtod of hex/inf/nan')
        if a[1]:
            p.store(a[1], E._I64, a[0] + (m.end() if m else 0))
        return e.const_fp(float(m.group(1))) if m else Fraction(0)

    @reg('atof')
    def _(p, a, t, r):
        m = NUM.match(ctext(p, a[0]))
        return e.const_fp(float(m.group(1))) if m else Fraction(0)

    INTRE = _re.compile(r'[ \t\n\v\f\r]*([-+]?\d+)')

    @reg('strtol', 'strtoll', '__isoc23_strtol')
    def _(p, a, t, r):
        if a[2] != 10:
            raise Unsupported('strtol base')
        m = INTRE.match(ctext(p, a[0]))
        if a[1]:
            p.store(a[1], E._I64, a[0] + (m.end() if m else 0))
        return int(m.group(1)) & ((1 << 64) - 1) if m else 0

    @reg('atoi')
    def _(p, a, t, r):
        m = INTRE.match(ctext(p, a[0]))
        return int(m.group(1)) & 0xffffffff if m else 0

    @reg('__errno_location')
    def _(p, a, t, r):
        if not p.errno:
            p.errno = p.alloc(8, 'errno')
            p.store(p.errno, E._I32, 0)
        return p.errno

    # ---------------------------------------------------------------- llvm.*
    def llvm_any(p, name, a, t, r):
        b = name.split('.')[1]
        if b in ('lifetime', 'dbg', 'assume', 'donothing', 'va_start', 'va_end', 'experimental', 'invariant', 'prefetch',
                 'stackrestore', 'var', 'trap'):
            if b == 'trap':
                raise PathEnd('abort', 'trap')
            return None
        if b == 'load' and name.startswith('llvm.load.relative'):
            v = p.load(p.iadd64(a[0], a[1]), E._I32)
            return (a[0] + (v - (1 << 32) if v >> 31 else v)) & ((1 << 64) - 1)
        if b == 'stacksave':
            return 0
        if b == 'threadlocal':
            return a[0]
        if b in ('memcpy', 'memmove'):
            return memcpy_(p, a, t, r)
        if b == 'memset':
            return memset_(p, a, t, r)
        if b == 'objectsize':
            return (1 << 64) - 1
        if b == 'expect':
            return a[0]
        if b == 'is':
            return 0
        w = r.w if r is not None and r.k == 'i' else 0
        if b in ('smax', 'smin', 'umax', 'umin'):
            pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[b]
            return p.select(p.icmp(pr, r, a[0], a[1]), r, a[0], a[1])
        if b == 'abs':
            return p.select(p.icmp('slt', r, a[0], 0), r, p.ibin('sub', w, 0, a[0]), a[0])
        if b in ('uadd', 'umul', 'usub', 'sadd', 'smul', 'ssub') and name.split('.')[2] == 'with':
            x, y = a
            x = p.concretize(x, 64, 'ovf')
            y = p.concretize(y, 64, 'ovf')
            ww = t[0].w
            if b[0] == 's':
                x = x - (1 << ww) if x >> (ww - 1) else x
                y = y - (1 << ww) if y >> (ww - 1) else y
            v = {'add': x + y, 'mul': x * y, 'sub': x - y}[b[1:]]
            if b[0] == 's':
                ov = not (-(1 << (ww - 1)) <= v < (1 << (ww - 1)))
            else:
                ov = v < 0 or v >> ww
            return [v & ((1 << ww) - 1), 1 if ov else 0]
        if b in ('usub', 'uadd') and 'sat' in name:
            x, y = a
            v = x - y if b == 'usub' else x + y
            return max(0, min(v, (1 << w) - 1))
        if b in ('ctpop', 'ctlz', 'cttz') and isinstance(a[0], int):
            if b == 'ctpop':
                return bin(a[0]).count('1')
            if b == 'ctlz':
                return w - a[0].bit_length()
            return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        if b == 'bswap':
            x = a[0]
            n = w // 8
            if isinstance(x, int):
                return int.from_bytes(x.to_bytes(n, 'little'), 'big')
            return z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)]))
        if b in ('fshl', 'fshr'):
            x, y, s = a
            if isinstance(x, int) and isinstance(y, int) and isinstance(s, int):
                s %= w
                v = (x << w) | y
                return (v >> (w - s)) & ((1 << w) - 1) if b == 'fshl' else (v >> s) & ((1 << w) - 1)
            c = z3.Concat(p.bv(x, w), p.bv(y, w))
            s = p.concretize(s, w, 'shift') % w
            sh = (w - s) if b == 'fshl' else s
            return z3.simplify(z3.Extract(w - 1, 0, z3.LShR(c, sh)))
        if b in ('fmuladd', 'fma') and r is not None and r.k == 'v':
            return [e.add(e.mul(x, y), z) for x, y, z in zip(*a)]
        if b == 'vector' and name.split('.')[2] == 'reduce':
            k = name.split('.')[3]
            if k == 'fadd':
                acc = a[0]
                for x in a[1]:
                    acc = e.add(acc, x)
                return acc
        if b == 'fabs' and r.k == 'v':
            return [p.fabs(x) for x in a[0]]
        raise Unsupported('intrinsic ' + name)
    B['llvm.*'] = llvm_any
