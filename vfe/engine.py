"""Symbolic executor for LLVM IR (see llvmir.py) over exact reals (reals.py) and
bit-vectors, with z3 as the deciding solver.  Paths are explored by re-execution
with a decision trail; every fork is checked for feasibility by the solver."""
import bisect, math, struct, sys, time, random, os
from fractions import Fraction
import z3
from .llvmir import Module, UNDEF
from .reals import *
from .reals import _c

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class IConds(list):
    """the path condition over integers: remembers which conditions are part of it (so that a repeated
    test needs no solver) and recent models satisfying all of it"""

    def __init__(self):
        list.__init__(self)
        self.known = {}
        self.keep = []
        self.models = []

    def note(self, c):
        v = True
        while z3.is_not(c):
            c, v = c.arg(0), not v
        self.known[c.get_id()] = v
        self.keep.append(c)
        if v and z3.is_and(c):
            for x in c.children():
                self.note(x)
        elif not v and z3.is_or(c):
            for x in c.children():
                self.note(z3.Not(x))

    def append(self, c):
        list.append(self, c)
        if not isinstance(c, bool):
            self.note(c)
            self.models = [m for m in self.models if z3.is_true(m.eval(c, model_completion=True))]

    def __iadd__(self, l):
        for c in l:
            self.append(c)
        return self

    def known_value(self, c):
        v = True
        while z3.is_not(c):
            c, v = c.arg(0), not v
        k = self.known.get(c.get_id())
        return None if k is None else (k == v)


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Undef:
    """undefined / NaN / infinite value; carries the reason"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'UNDEF(%s)' % self.why


class Inf(Undef):
    """IEEE infinity: comparable, absorbed by additions and products; any other use is undefined"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.why = 'inf constant'
        self.s = s

    def __repr__(self):
        return 'INF(%+d)' % self.s


class PUndef(Undef):
    """integer with some undefined bits: bits in mask k are known, with value v (0 elsewhere)"""
    __slots__ = ('w', 'k', 'v')

    def __init__(self, w, k, v, why):
        self.why = why
        self.w = w
        self.k = k
        self.v = v


class RByte:
    """byte i of the n-byte storage of the symbolic real v (may only be copied)"""
    __slots__ = ('v', 'i', 'n')

    def __init__(self, v, i, n):
        self.v = v
        self.i = i
        self.n = n


def is_undef(v):
    return v is UNDEF or isinstance(v, Undef)


PI_K = {}
for _n in range(1, 25):
    for _d in (1, 2, 3, 4, 6, 8, 12, 180, 360):
        if math.gcd(_n, _d) == 1:
            PI_K[math.pi * _n / _d] = Fraction(_n, _d)
            PI_K[math.pi / _d * _n] = Fraction(_n, _d)
            PI_K[_n * (math.pi / _d)] = Fraction(_n, _d)
RPI_K = {}
for _n in (1, 2, 180, 90, 360):
    RPI_K[_n / math.pi] = Fraction(_n)


class GenInfo:
    __slots__ = ('name', 'kind', 'data', 'z3', 'facts', 'deps', 'td')


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.ring = 0
        self.xring = 0
        self.paths = 0
        self.insts = 0
        self.checks = 0


class Engine:
    def __init__(self, bcpath, seed=1, timeouts=(1500, 8000), opts=None):
        self.mod = Module(bcpath)
        self.xbudget = (opts or {}).get('xbudget', 2.0)
        self.seed = seed
        self.t_branch, self.t_check = timeouts
        self.st = Stats()
        self.opts = opts or {}
        self.pool = Pool()
        self.nonneg_cache = {}
        self.gens = []
        self.gen_by_key = {}
        self.denoms = []
        self.denom_by_key = {}
        self.atomK = {}
        self.fns_executed = set()
        self.fnaddr = {}
        self.addrfn = {}
        self.max_paths = self.opts.get('max_paths', 400)
        self.deadline = None
        self.zcache = {}
        self.builtins = {}
        self.call_hooks = {}
        from . import models
        models.install(self)
        self.pi = self.pool.mk('gen', self.new_gen(('pi',), 'pi', 'pi', None))
        g = self.gens[0]
        g.facts = [g.z3 > z3.Q(314159265358979, 10**14), g.z3 < z3.Q(314159265358980, 10**14)]

    # ------------------------------------------------------------ generators
    def new_gen(self, key, name, kind, data):
        g = self.gen_by_key.get(key)
        if g is not None:
            return g
        gi = GenInfo()
        gi.name = name
        gi.kind = kind
        gi.data = data
        gi.z3 = z3.Real('g%d_%s' % (len(self.gens), name))
        gi.facts = []
        gi.deps = []
        self.gens.append(gi)
        g = len(self.gens) - 1
        self.gen_by_key[key] = g
        return g

    # ------------------------------------------------------------ addresses
    def fn_addr(self, name):
        a = self.fnaddr.get(name)
        if a is None:
            a = 0x10000 + 16 * len(self.fnaddr)
            self.fnaddr[name] = a
            self.addrfn[a] = name
        return a

    def const_fp(self, x):
        if x != x:
            return Undef('nan constant')
        if x in (math.inf, -math.inf):
            return Inf(1 if x > 0 else -1)
        if self.opts.get('fpconst'):
            return Fraction(x)
        ax = abs(x)
        if ax > 0 and ax in PI_K:
            k = PI_K[ax]
            if x < 0:
                k = -k
            return self.mul(Fraction(k), self.pi)
        if ax > 0 and ax in RPI_K:
            k = RPI_K[ax]
            return self.pool.mk('/', Fraction(k if x > 0 else -k), self.pi)
        f = Fraction(x)
        if f.denominator > 10000:      # the rational a constant was written as, when it is unmistakable
            g = f.limit_denominator(400000)
            if float(g) == x:
                return g
        return f

    # ------------------------------------------------------------ node arithmetic
    def add(self, a, b):
        if is_undef(a):
            if isinstance(a, Inf) and is_undef(b) and not (isinstance(b, Inf) and b.s == a.s):
                return Undef('inf - inf is nan') if isinstance(b, Inf) else b
            return a
        if is_undef(b):
            return b
        fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
        if fa and fb:
            return a + b
        if fa:
            if a == 0:
                return b
            a, b = b, a
            fa, fb = fb, fa
        elif fb and b == 0:
            return a
        if not fb and b.id < a.id:
            a, b = b, a
        return self.pool.mk('+', a, b)

    def neg(self, a):
        if is_undef(a):
            return Inf(-a.s) if isinstance(a, Inf) else a
        if isinstance(a, Fraction):
            return -a
        if a.op == 'neg':
            return a.args[0]
        return self.pool.mk('neg', a)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if isinstance(b, Inf):
            a, b = b, a
        if isinstance(a, Inf):
            if isinstance(b, Inf):
                return Inf(a.s * b.s)
            if isinstance(b, Fraction):
                return Inf(a.s if b > 0 else -a.s) if b else Undef('0 * inf is nan')
            return b if is_undef(b) else Undef('infinity times a symbolic value')
        if is_undef(a):
            return a
        if is_undef(b):
            return b
        fa, fb = isinstance(a, Fraction), isinstance(b, Fraction)
        if fa and fb:
            return a * b
        if fa:
            a, b = b, a
            fa, fb = fb, fa
        if fb:
            if b == 0:
                return Fraction(0)
            if b == 1:
                return a
            if b == -1:
                return self.neg(a)
        elif b.id < a.id:
            a, b = b, a
        return self.pool.mk('*', a, b)

    # ------------------------------------------------------------ running
    def run(self, fname, deadline=None):
        """explore all paths of harness fname; returns list of Path results"""
        self.deadline = deadline
        while True:
            try:
                return self._run(fname)
            except Restart:
                self.gen_by_key_reset()
                continue

    def gen_by_key_reset(self):
        # keep atomK, drop everything else that depends on angle units
        pi = self.gens[0]
        self.gens = [pi]
        self.gen_by_key = {('pi',): 0}
        self.pool = Pool()
        self.nonneg_cache = {}
        self.pi = self.pool.mk('gen', 0)
        self.denoms = []
        self.denom_by_key = {}
        self.zcache = {}
        self.__dict__['lower_cache'] = {}

    def _run(self, fname):
        work = [[]]
        self.results = []
        self.incomplete = None
        npaths = 0
        while work:
            if npaths >= self.max_paths:
                self.incomplete = 'path limit %d' % self.max_paths
                break
            if self.deadline and time.time() > self.deadline:
                self.incomplete = 'deadline'
                break
            prefix = work.pop()
            p = Path(self, prefix)
            p.work = work
            try:
                p.execute(fname)
                p.status = 'done'
            except PathEnd as e:
                p.status = e.kind
                p.msg = e.msg
            except TooBig:
                p.status = 'toobig'
                p.msg = 'polynomial term budget exceeded'
            npaths += 1
            self.st.paths += 1
            self.results.append(p)
            if self.on_path:
                if self.on_path(p) == 'stop':
                    self.incomplete = 'stopped'
                    break
            p.mem = None
            p.fcache = {}
        return self.results

    on_path = None


class Obj:
    __slots__ = ('base', 'size', 'alive', 'cells', 'kind', 'symsize', 'known')

    def __init__(self, base, size, kind):
        self.symsize = None      # bit-vector size of a symbolic allocation (size is then its maximum)
        self.known = 0           # prefix already shown to be inside
        self.base = base
        self.size = size
        self.alive = True
        self.cells = {}
        self.kind = kind


RCMP = {'<': lambda e: e < 0, '<=': lambda e: e <= 0, '==': lambda e: e == 0, '!=': lambda e: e != 0,
        '>': lambda e: e > 0, '>=': lambda e: e >= 0}
RNEG = {'<': '>=', '<=': '>', '==': '!=', '!=': '==', '>': '<=', '>=': '<'}
RFLIP = {'<': '>', '<=': '>=', '==': '==', '!=': '!=', '>': '<', '>=': '<='}


class Path:
    def __init__(self, eng, prefix):
        self.e = eng
        self.trail = []
        self.prefix = prefix
        self.ring = Ring()
        self.fcache = {}
        self.conds = []        # (poly numerator, rel)  rel in < <= == != > >=
        self.iconds = IConds()       # z3 bool over BV
        self.inputs = []       # (name, kind, payload)
        self.picks = {}
        self.namecount = {}
        self.checks = []       # recorded obligations
        self.status = None
        self.msg = ''
        self.bases = []
        self.objs = []
        self.brk = 0x100000000
        self.gaddr = {}
        self.angles = []       # list of (node) args of trig functions seen
        self.possign = {}
        self.root_hints = []
        self.steps = 0
        self.denneq = []
        self.notes = []
        self.tls = {}
        self.depth = 0
        self.frames = []
        self.files = {}
        self.named_files = {}
        self.pipes = {}
        self.ctype = None
        self.errno = None
        self.cur_fn = ''

    # ------------------------------------------------------------ memory
    def alloc(self, size, kind='heap', align=64):
        base = (self.brk + align - 1) & ~(align - 1)
        o = Obj(base, size, kind)
        self.brk = base + size + 64
        self.bases.append(base)
        self.objs.append(o)
        return base

    def alloc_sym(self, size, kind='heap'):
        """allocation whose size is a symbolic integer"""
        size = z3.simplify(size)
        if z3.is_bv_value(size):
            return self.alloc(size.as_long(), kind)
        i = len(self.trail)
        if i < len(self.prefix):
            m = self.prefix[i]
        else:
            if self.isat(z3.UGT(size, 1 << 20)):
                m = -1
            else:
                lo, m = 0, 1 << 20
                while lo < m:
                    mid = (lo + m) // 2
                    if self.isat(z3.UGT(size, mid)):
                        lo = mid + 1
                    else:
                        m = mid
        self.trail.append(m)
        if m < 0:
            raise Unsupported('symbolic allocation may exceed 1 MB')
        base = self.alloc(m, kind)
        self.objs[-1].symsize = size
        return base

    def inside_live(self, a, n):
        """Bool: [a, a+n) lies inside one live object"""
        a, n = self.bv(a, 64), self.bv(n, 64)
        alts = [n == 0]
        for o in self.objs:
            if o.alive and o.kind != 'code':
                alts.append(z3.And(z3.UGE(a, o.base), z3.ULE(n, o.size), z3.ULE(a - o.base, (o.symsize if o.symsize is not None else o.size) - n),
                                   z3.ULE(n, o.symsize if o.symsize is not None else o.size)))
        return z3.Or(alts)

    def obj(self, addr, n, what):
        if not isinstance(addr, int):
            addr = self.concretize(addr, 64, 'address')
        i = bisect.bisect_right(self.bases, addr) - 1
        if i >= 0:
            o = self.objs[i]
            off = addr - o.base
            if off + n <= o.size:
                if not o.alive:
                    raise PathEnd('memerr', 'use after free (%s) in %s' % (what, self.cur_fn))
                if o.symsize is not None and off + n > o.known:
                    if not self.decide_int(z3.UGE(o.symsize, off + n)):
                        raise PathEnd('memerr', 'out of bounds %s of %d bytes in %s' % (what, n, self.cur_fn))
                    o.known = off + n
                return o, off
        if addr in self.e.addrfn:
            raise PathEnd('memerr', 'data access to function address')
        raise PathEnd('memerr', 'out of bounds %s of %d bytes at %#x in %s' % (what, n, addr, self.cur_fn))

    def global_addr(self, g):
        a = self.gaddr.get(g)
        if a is None:
            m = self.e.mod
            from . import llvmir as ll
            ty = m.ty(ll.GlobalValueType(g))
            name = m.globals[g]
            if ll.IsDeclaration(g):
                a = self.alloc(max(ty.size, 8), 'extern:' + name)
                self.gaddr[g] = a
                o = self.objs[-1]
                ini = self.e.opts.get('extern_globals', {}).get(name)
                if ini is not None:
                    self.store_raw(o, 0, ini[0], ini[1])
                elif name in ('stderr', 'stdout', 'stdin'):
                    h = self.alloc(16, 'FILE')
                    o.cells[0] = (8, h)
                else:
                    for k in range(0, max(ty.size, 8), 8):
                        o.cells[k] = (8, 0)
                return a
            a = self.alloc(max(ty.size, 1), 'global:' + name)
            self.gaddr[g] = a
            o = self.objs[-1]
            init = m.const(ll.GetInitializer(g), self)
            self.store_agg(o, 0, ty, init)
        return a

    # env interface used by Module.const
    def fn_addr(self, name):
        return self.e.fn_addr(name)

    def const_fp(self, x):
        return self.e.const_fp(x)

    def store_agg(self, o, off, ty, v):
        if is_undef(v):
            return
        if ty.k == 's':
            for e, t, of in zip(v, ty.elems, ty.offs):
                self.store_agg(o, off + of, t, e)
        elif ty.k in ('a', 'v'):
            es = ty.elem.size
            for i, e in enumerate(v):
                self.store_agg(o, off + i * es, ty.elem, e)
        else:
            o.cells[off] = (ty.size, v)

    def clear_range(self, o, off, n):
        cells = o.cells
        # exact hit fast
        c = cells.get(off)
        if c is not None and c[0] == n:
            return
        end = off + n
        for k in range(max(0, off - 15), end):
            c = cells.get(k)
            if c is None:
                continue
            if k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= end:
                del cells[k]
            else:
                # split
                bs = self.cell_bytes(c)
                del cells[k]
                for j, b in enumerate(bs):
                    if not (off <= k + j < end):
                        cells[k + j] = (1, b)

    def cell_bytes(self, c):
        n, v = c
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if is_undef(v):
            return [v] * n
        if isinstance(v, Fraction):
            bs = struct.pack('<d', float(v)) if n == 8 else struct.pack('<f', float(v))
            return list(bs)
        if isinstance(v, z3.BitVecRef):
            w = v.size()
            if w < 8 * n:
                v = z3.ZeroExt(8 * n - w, v)
            return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]
        if isinstance(v, z3.BoolRef):
            return [z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))] + [0] * (n - 1)
        if isinstance(v, RByte):
            return [v]
        if isinstance(v, N):
            return [RByte(v, i, n) for i in range(n)]
        raise Unsupported('byte split of symbolic real')

    def store_raw(self, o, off, n, v):
        self.clear_range(o, off, n)
        o.cells[off] = (n, v)

    def store(self, addr, ty, v):
        if ty.k in ('s', 'a', 'v'):
            if ty.k == 'v' and ty.elem.k == 'i' and ty.elem.w < 8:
                raise Unsupported('i1 vector store')
            o, off = self.obj(addr, ty.size, 'write')
            self._store_agg2(addr, ty, v)
            return
        o, off = self.obj(addr, ty.size, 'write')
        if o.kind.startswith('const'):
            raise PathEnd('memerr', 'write to constant')
        self.clear_range(o, off, ty.size)
        o.cells[off] = (ty.size, v)

    def _store_agg2(self, addr, ty, v):
        if ty.k == 's':
            for i, (t, of) in enumerate(zip(ty.elems, ty.offs)):
                self.store(addr + of, t, v[i] if not is_undef(v) else v)
        else:
            for i in range(ty.n):
                self.store(addr + i * ty.elem.size, ty.elem, v[i] if not is_undef(v) else v)

    def load(self, addr, ty):
        k = ty.k
        if k in ('s', 'a', 'v'):
            if not isinstance(addr, int):
                addr = self.concretize(addr, 64, 'address')
            if k == 's':
                return [self.load(addr + of, t) for t, of in zip(ty.elems, ty.offs)]
            return [self.load(addr + i * ty.elem.size, ty.elem) for i in range(ty.n)]
        n = ty.size
        o, off = self.obj(addr, n, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(c[1], ty)
        # compose from bytes
        bs = []
        i = 0
        while i < n:
            c = o.cells.get(off + i)
            if c is not None:
                b = self.cell_bytes(c)
                take = min(len(b), n - i)
                bs.extend(b[:take])
                i += take
                continue
            found = False
            for back in range(1, 16):
                c = o.cells.get(off + i - back)
                if c is not None:
                    if c[0] > back:
                        b = self.cell_bytes(c)[back:]
                        take = min(len(b), n - i)
                        bs.extend(b[:take])
                        i += take
                        found = True
                    break
            if not found:
                bs.append(Undef('uninitialised memory'))
                i += 1
        for b in bs:
            if is_undef(b):
                return b
        if any(isinstance(b, RByte) for b in bs):
            b0 = bs[0]
            if n == 1:
                return b0
            if isinstance(b0, RByte) and b0.n == n and all(isinstance(b, RByte) and b.v is b0.v and b.i == j and b.n == n for j, b in enumerate(bs)):
                return self.coerce(b0.v, ty)
            raise Unsupported('mixed bytes of symbolic reals')
        if all(isinstance(b, int) for b in bs):
            v = int.from_bytes(bytes(bs), 'little')
            return self.coerce(v, ty)
        bv = [z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in bs]
        v = bv[0] if n == 1 else z3.simplify(z3.Concat(*reversed(bv)))
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        if is_undef(v) or isinstance(v, RByte):
            return v
        if ty.k in ('f', 'f32'):
            if isinstance(v, int):
                bits = v.to_bytes(ty.size, 'little')
                return self.e.const_fp(struct.unpack('<d' if ty.size == 8 else '<f', bits)[0])
            if isinstance(v, z3.ExprRef):
                return v        # raw copy; arithmetic on it is refused
            return v
        if ty.k in ('i', 'p'):
            if isinstance(v, Fraction):
                return int.from_bytes(struct.pack('<d' if ty.size == 8 else '<f', float(v)), 'little')
            if isinstance(v, N):
                if ty.size == 8:
                    return v        # raw copy of a double through an i64 register
                raise Unsupported('symbolic real reinterpreted as int')
            if ty.k == 'i' and ty.w == 1 and isinstance(v, int):
                return v & 1
            if ty.k == 'i' and isinstance(v, z3.BitVecRef) and v.size() != ty.w:
                if ty.w == 1:
                    return z3.simplify(z3.Extract(0, 0, v)) == 1
                if v.size() > ty.w:
                    return z3.simplify(z3.Extract(ty.w - 1, 0, v))
        return v

    def cstr(self, addr):
        if not isinstance(addr, int):
            raise Unsupported('symbolic string pointer')
        o, off = self.obj(addr, 1, 'read')
        out = []
        while True:
            c = o.cells.get(off)
            if c is not None and c[0] == 1:
                b = c[1]
            else:
                b = self.load(o.base + off, _I8)
            if not isinstance(b, int):
                raise Unsupported('symbolic string byte')
            if b == 0:
                return bytes(out).decode('latin1')
            out.append(b)
            off += 1
            if off >= o.size:
                raise PathEnd('memerr', 'unterminated string')

    def cbytes(self, addr):
        """bytes of a C string, symbolic bytes allowed (forks on where it ends)"""
        if not isinstance(addr, int):
            addr = self.concretize(addr, 64, 'string pointer')
        out = []
        while True:
            o, off = self.obj(addr + len(out), 1, 'read')
            b = self.load(addr + len(out), _I8)
            if is_undef(b):
                raise PathEnd('undef', 'string byte is undefined')
            if isinstance(b, int):
                if b == 0:
                    return out
            elif isinstance(b, z3.ExprRef):
                if self.decide_int(z3.simplify(b == 0)):
                    return out
            else:
                raise Unsupported('string byte')
            out.append(b)

    def cmpbytes(self, xs, ys):
        """-1/0/1 comparing byte lists, forking where symbolic"""
        for x, y in zip(xs, ys):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return 1 if x > y else -1
                continue
            if is_undef(x) or is_undef(y):
                raise PathEnd('undef', 'comparison of undefined bytes')
            bx, by = self.bv(x, 8), self.bv(y, 8)
            e = z3.simplify(bx == by)
            if z3.is_true(e) or (not z3.is_false(e) and self.decide_int(e)):
                continue
            g = z3.simplify(z3.UGT(bx, by))
            if z3.is_true(g) or (not z3.is_false(g) and self.decide_int(g)):
                return 1
            return -1
        return 0

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        so, soff = self.obj(src, n, 'read')
        do, doff = self.obj(dst, n, 'write')
        items = []
        end = soff + n
        for k in range(max(0, soff - 15), end):
            c = so.cells.get(k)
            if c is None:
                continue
            if k >= soff and k + c[0] <= end:
                items.append((k - soff, c))
            elif k + c[0] > soff:
                for j, b in enumerate(self.cell_bytes(c)):
                    if soff <= k + j < end:
                        items.append((k + j - soff, (1, b)))
        # clear the destination
        for k in range(max(0, doff - 15), doff + n):
            c = do.cells.get(k)
            if c is not None and k + c[0] > doff:
                self.clear_range(do, max(k, doff), min(k + c[0], doff + n) - max(k, doff)) if (k < doff or k + c[0] > doff + n) else do.cells.pop(k)
        for of, c in items:
            do.cells[doff + of] = c

    def memset(self, dst, b, n):
        if n == 0:
            return
        o, off = self.obj(dst, n, 'write')
        for k in range(max(0, off - 15), off + n):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                if k < off or k + c[0] > off + n:
                    self.clear_range(o, max(k, off), min(k + c[0], off + n) - max(k, off))
                else:
                    del o.cells[k]
        i = 0
        if isinstance(b, int):
            b &= 255
            w8 = int.from_bytes(bytes([b]) * 8, 'little')
            while i < n and (off + i) % 8:
                o.cells[off + i] = (1, b)
                i += 1
            while i + 8 <= n:
                o.cells[off + i] = (8, w8)
                i += 8
        while i < n:
            o.cells[off + i] = (1, b)
            i += 1

    # ------------------------------------------------------------ fractions
    def gen_poly(self, g):
        p = {1 << (FB * g): 1}
        return self.ring.nf(p)

    def intern_den(self, p):
        """returns (const, tuple) for denominators polynomial p (nonzero)"""
        k, pp = pcontent(p)
        # normalise sign by the smallest monomial
        m0 = max(pp)
        if pp[m0] < 0:
            pp = pscale(pp, -1)
            k = -k
        if pis_const(pp):
            return k * pp[0], ()
        # split monomial factors
        res = []
        if len(pp) == 1:
            m = next(iter(pp))
            k = k * pp[m]
            for g, ex in gens_of_mono(m):
                res.append((self._den_id({1 << (FB * g): 1}), ex))
            return k, tuple(sorted(res))
        mg = mono_gcd(pp)
        if mg:
            pp = {m - mg: c for m, c in pp.items()}
            for g, ex in gens_of_mono(mg):
                res.append((self._den_id({1 << (FB * g): 1}), ex))
        res.append((self._den_id(pp), 1))
        return k, tuple(sorted(res))

    def _den_id(self, p):
        k = pkey(p)
        e = self.e
        i = e.denom_by_key.get(k)
        if i is None:
            i = len(e.denoms)
            e.denoms.append(p)
            e.denom_by_key[k] = i
        return i

    def fmulf(self, a, b):
        n = self.ring.mul(a.n, b.n)
        return self.fsimp(n, self._dmerge(a.d, b.d))

    def _dmerge(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, v in b:
            d[k] = d.get(k, 0) + v
        return tuple(sorted(d.items()))

    def dpoly(self, d):
        r = {0: 1}
        for k, ex in d:
            for _ in range(ex):
                r = self.ring.mul(r, self.e.denoms[k])
        return r

    def faddf(self, a, b):
        if a.d == b.d:
            return self.fsimp(padd(a.n, b.n), a.d)
        da, db = dict(a.d), dict(b.d)
        l = dict(da)
        for k, v in db.items():
            if v > l.get(k, 0):
                l[k] = v
        ma = tuple((k, v - da.get(k, 0)) for k, v in l.items() if v > da.get(k, 0))
        mb = tuple((k, v - db.get(k, 0)) for k, v in l.items() if v > db.get(k, 0))
        na = self.ring.mul(a.n, self.dpoly(ma)) if ma else a.n
        nb = self.ring.mul(b.n, self.dpoly(mb)) if mb else b.n
        return self.fsimp(padd(na, nb), tuple(sorted(l.items())))

    def fsimp(self, n, d):
        if len(n) > Budget.max_terms:
            raise TooBig()
        if not n:
            return Frac({}, ())
        if not d:
            return Frac(n, ())
        out = []
        for k, ex in d:
            dp = self.e.denoms[k]
            if len(dp) == 1:
                m = next(iter(dp))
                g = (m.bit_length() - 1) // FB
                sh = FB * g
                lo = min((mm >> sh) & FM for mm in n)
                c = min(lo, ex)
                if c:
                    n = {mm - (c << sh): cc for mm, cc in n.items()}
                    ex -= c
                # g^2 = rel: n divisible by rel poly?  N = rel*q -> N/g = g*q
                while ex:
                    r = self.ring.rel.get(g)
                    if r is None or r[0] != 2:
                        break
                    q = self.pdiv_exact(n, r[1])
                    if q is None:
                        break
                    # n/g = g*q
                    n = self.ring.nf({mm + (1 << sh): cc for mm, cc in q.items()})
                    ex -= 1
            else:
                while ex:
                    q = self.pdiv_exact(n, dp)
                    if q is None:
                        break
                    n = q
                    ex -= 1
            if ex:
                out.append((k, ex))
        return Frac(n, tuple(out))

    def pdiv_exact(self, n, d):
        """exact polynomial division (no relations), None if not divisible"""
        if len(n) < len(d) or len(n) > 3000:
            if not (len(n) == len(d)):
                return None
        ld = max(d)
        cd = d[ld]
        r = dict(n)
        q = {}
        dg = gens_of_mono(ld)
        steps = 0
        while r:
            lr = max(r)
            for g, ex in dg:
                if ((lr >> (FB * g)) & FM) < ex:
                    return None
            m = lr - ld
            if m < 0:
                return None
            c = _cdiv(r[lr], cd)
            q[m] = c
            for md, cdd in d.items():
                mm = m + md
                v = r.get(mm, 0) - c * cdd
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
            steps += 1
            if steps > 2000 or len(r) > 4 * len(n) + 50:
                return None
        return q

    def frac(self, v):
        """canonical fraction of a value under this path's ring"""
        if isinstance(v, Fraction):
            return Frac(pconst(v), ())
        r = self.fcache.get(v.id)
        if r is not None:
            return r
        # iterative post-order to avoid deep recursion
        stack = [v]
        fc = self.fcache
        while stack:
            n = stack[-1]
            if n.id in fc:
                stack.pop()
                continue
            pend = [a for a in n.args if isinstance(a, N) and a.id not in fc]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            fc[n.id] = self._frac1(n)
        return fc[v.id]

    def _frac1(self, n):
        op = n.op
        if op == 'gen':
            return Frac(self.gen_poly(n.args[0]), ())
        a = [Frac(pconst(x), ()) if isinstance(x, Fraction) else self.fcache[x.id] for x in n.args]
        if op == '+':
            return self.faddf(a[0], a[1])
        if op == '*':
            return self.fmulf(a[0], a[1])
        if op == 'neg':
            return Frac(pscale(a[0].n, -1), a[0].d)
        if op == '/':
            if not a[1].n:
                raise PathEnd('divzero', 'identically zero denominator')
            k, d = self.intern_den(a[1].n)
            num = a[0].n
            if a[1].d:
                num = self.ring.mul(num, self.dpoly(a[1].d))
            num = pscale(num, 1 / Fraction(k))
            return self.fsimp(num, self._dmerge(a[0].d, d))
        raise Unsupported('node ' + op)

    def frac_node(self, f):
        """node for an explicit fraction"""
        e = self.e
        key = ('fr', pkey(f.n), f.d)
        nd = self.e_frac_nodes.get(key)
        if nd is not None:
            return nd
        if f.is_const():
            return f.const()
        n = self.poly_node(f.n)
        for k, ex in f.d:
            d = self.poly_node(self.e.denoms[k])
            for _ in range(ex):
                n = e.pool.mk('/', n, d) if not isinstance(d, Fraction) else e.mul(n, 1 / d)
        self.e_frac_nodes[key] = n
        return n

    @property
    def e_frac_nodes(self):
        d = self.__dict__.get('_fn')
        if d is None:
            d = self.__dict__['_fn'] = {}
        return d

    def poly_node(self, p):
        e = self.e
        r = Fraction(0)
        for m, c in sorted(p.items()):
            t = Fraction(c)
            for g, ex in gens_of_mono(m):
                gn = e.pool.mk('gen', g)
                for _ in range(ex):
                    t = e.mul(t, gn)
            r = e.add(r, t)
        return r

    # ------------------------------------------------------------ solver
    def zpoly(self, p):
        k = pkey(p)
        c = self.e.zcache
        r = c.get(k)
        if r is None:
            terms = []
            for m, co in p.items():
                t = None
                for g, ex in gens_of_mono(m):
                    x = self.e.gens[g].z3
                    for _ in range(ex):
                        t = x if t is None else t * x
                co = Fraction(co)
                cz = z3.RatVal(co.numerator, co.denominator)
                terms.append(cz if t is None else (t if co == 1 else cz * t))
            r = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
            c[k] = r
        return r

    def trans_deps(self, g):
        c = self.e.gens[g]
        td = getattr(c, 'td', None)
        if td is not None and td[0] == len(c.deps):
            return td[1]
        seen = {g}
        todo = [g]
        while todo:
            for d in self.e.gens[todo.pop()].deps:
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
        seen.discard(0)
        c.td = (len(c.deps), seen)
        return seen

    def closure(self, gens, conds, wide=False):
        """facts and conditions sharing generators, transitively"""
        gset = set(gens)
        todo = list(gset)
        chosen = set()
        cg = [(i, set(pgens(c[0]))) for i, c in enumerate(conds)]
        if wide:
            cg = [(i, set().union(s, *[self.trans_deps(g) for g in s])) for i, s in cg]
        facts = []
        done = set()
        changed = True
        while changed:
            changed = False
            while todo:
                g = todo.pop()
                if g in done:
                    continue
                done.add(g)
                gi = self.e.gens[g]
                facts.extend(gi.facts)
                for d in gi.deps:
                    if d not in gset:
                        gset.add(d)
                        todo.append(d)
            for i, s in cg:
                if i not in chosen and s & gset:
                    chosen.add(i)
                    changed = True
                    for g in s:
                        if g not in gset:
                            gset.add(g)
                            todo.append(g)
        return facts, [conds[i] for i in sorted(chosen)], gset

    def query(self, extra, timeout, conds=None, want_model=False):
        """extra: list of (poly, rel).  Is path-condition & extra satisfiable?"""
        conds = self.conds if conds is None else conds
        gens = set()
        for p, r in extra:
            if pis_const(p):
                v = p.get(0, 0)
                if not {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0, '>': v > 0, '>=': v >= 0}[r]:
                    return ('unsat', None)
            gens.update(pgens(p))
        facts, cs, gset = self.closure(gens, conds)
        key = None
        if not want_model:
            key = (frozenset((pkey(p), r) for p, r in extra), frozenset((pkey(p), r) for p, r in cs), frozenset(gset))
            hit = self.e.zcache.get(key)
            if hit is not None:
                return (hit, None)
        if not want_model and sum(len(p) for p, r in extra) > 8 and self.linear_unsat(cs, extra):
            self.e.zcache[key] = 'unsat'
            return ('unsat', None)
        r, m = self.z3check([RCMP[r](self.zpoly(p)) for p, r in cs] + facts +
                            [RCMP[r](self.zpoly(p)) for p, r in extra], timeout, want_model)
        if r != 'unsat' and len(cs) < len(conds):
            facts, cs2, gset = self.closure(gens, conds, wide=True)
            if len(cs2) > len(cs):
                r2, m2 = self.z3check([RCMP[r](self.zpoly(p)) for p, r in cs2] + facts +
                                      [RCMP[r](self.zpoly(p)) for p, r in extra], timeout, want_model)
                if r2 != 'unknown' or r == 'unknown':
                    r, m = r2, m2
        if key is not None and r != 'unknown':
            self.e.zcache[key] = r
        return (r, m)

    def linear_unsat(self, cs, extra):
        """unsatisfiable already with every monomial an independent real (even powers >= 0)?"""
        ms = set()
        for p, r in extra:
            ms.update(p)
        use = [(p, r) for p, r in cs if any(m and m in ms for m in p)]
        if not use:
            return False
        vs = {}

        def lin(p):
            t = []
            for m, c in p.items():
                if m == 0:
                    t.append(z3.RealVal(c))
                else:
                    if m not in vs:
                        vs[m] = z3.Real('m%d' % len(vs))
                    t.append(z3.RealVal(c) * vs[m])
            return z3.Sum(t)
        a = [RCMP[r](lin(p)) for p, r in use + list(extra)]
        for m, v in vs.items():
            if all(ex % 2 == 0 or self.e.gens[g].kind == 'sqrt' for g, ex in gens_of_mono(m)):
                a.append(v >= 0)
        return self.z3check(a, 1000)[0] == 'unsat'

    def z3check(self, asserts, timeout, want_model=False):
        st = self.e.st
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*asserts)
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        st.time += time.time() - t
        st.queries += 1
        if r == 'sat':
            st.sat += 1
            return r, (s.model() if want_model else None)
        if r == 'unsat':
            st.unsat += 1
        else:
            st.unknown += 1
        return r, None

    # ------------------------------------------------------------ decisions
    def decide(self, options):
        """options: list of (value, feasible_fn, apply_fn). Returns value of the chosen option."""
        i = len(self.trail)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.trail.append(k)
            v, _, ap = options[k]
            if ap:
                ap()
            return v
        feas = []
        for k, (v, fe, ap) in enumerate(options):
            if k == len(options) - 1 and not feas:
                feas.append(k)      # at least one must be possible
                break
            if fe is None or fe():
                feas.append(k)
        if len(feas) > 1 and os.environ.get('VF_TRACE_FORK'):
            print('FORK', self.cur_fn, len(feas), file=sys.stderr)
        for k in reversed(feas[1:]):
            self.work.append(self.trail + [k])
        k = feas[0]
        self.trail.append(k)
        v, _, ap = options[k]
        if ap:
            ap()
        return v

    def add_cond(self, p, rel):
        if pis_const(p):
            return
        self.conds.append((p, rel))
        if rel == '==':
            self.add_equality(p)

    def add_equality(self, p):
        """teach the ring simple consequences of p == 0"""
        # sum of squares of single generators with coefficients of one sign, no constant -> all zero
        k, pp = pcontent(p)
        if 0 in pp:
            # linear in one generator with constant coefficient?
            pass
        ok = all(len(gens_of_mono(m)) == 1 and gens_of_mono(m)[0][1] == 2 for m in pp)
        if ok and (all(c > 0 for c in pp.values()) or all(c < 0 for c in pp.values())):
            gs = [gens_of_mono(m)[0][0] for m in pp]
            self.ring = self.ring.clone()
            for g in gs:
                if g not in self.ring.rel:
                    self.ring.add_rel(g, 1, {})
            self._refresh()
            return
        # monomial == 0 with a single generator
        if len(pp) == 1:
            m = next(iter(pp))
            gm = gens_of_mono(m)
            if len(gm) == 1:
                g = gm[0][0]
                r = self.ring.rel.get(g)
                if r is not None and r[0] == 2:
                    # sqrt generator is zero -> radicand zero
                    rad = r[1]
                    self.ring = self.ring.clone()
                    del self.ring.rel[g]
                    self.ring.m2 &= ~(FM << (FB * g))
                    self.ring.add_rel(g, 1, {})
                    self._refresh()
                    self.add_cond(rad, '==')
                elif r is None:
                    self.ring = self.ring.clone()
                    self.ring.add_rel(g, 1, {})
                    self._refresh()
                return
        # linear, solvable for the highest generator with constant coefficient
        mx = max(pp)
        gm = gens_of_mono(mx)
        if len(gm) == 1 and gm[0][1] == 1:
            g = gm[0][0]
            if g not in self.ring.rel and all(((m >> (FB * g)) & FM) == 0 for m in pp if m != mx) \
               and self.e.gens[g].kind in ('in',):
                rhs = {m: _cdiv(-c, pp[mx]) for m, c in pp.items() if m != mx}
                self.ring = self.ring.clone()
                self.ring.add_rel(g, 1, rhs)
                self._refresh()

    def _refresh(self):
        self.fcache = {}
        self.__dict__['_fn'] = {}

    def den_sign_poly(self, d):
        """product of odd-power denominators whose sign is not known positive"""
        r = {0: 1}
        for k, ex in d:
            if ex % 2 == 0:
                continue
            s = self.den_sign(k)
            if s > 0:
                continue
            if s < 0:
                r = pscale(r, -1)
                continue
            r = self.ring.mul(r, self.ring.nf(self.e.denoms[k]))
        return r

    def den_sign(self, k):
        s = self.possign.get(k)
        if s is None:
            p = self.ring.nf(self.e.denoms[k])
            s = 0
            if len(p) == 1:
                m = next(iter(p))
                gm = gens_of_mono(m)
                if all(self.e.gens[g].kind == 'sqrt' or ex % 2 == 0 for g, ex in gm):
                    s = 1 if p[m] > 0 else -1
            if s == 0:
                key = ('ds', k)
                # deterministic via the trail
                v = self.decide([(1, lambda: self.query([(p, '<')], self.e.t_branch)[0] == 'unsat', None),
                                 (-1, lambda: self.query([(p, '>')], self.e.t_branch)[0] == 'unsat', None),
                                 (0, None, None)]) if False else self._entail_sign(p)
                s = v
            self.possign[k] = s
        return s

    def _entail_sign(self, p):
        """deterministic across re-execution: result recorded on the trail"""
        i = len(self.trail)
        if i < len(self.prefix):
            s = self.prefix[i]
        else:
            if self.query([(p, '<')], self.e.t_branch)[0] == 'unsat':
                s = 1
            elif self.query([(p, '>')], self.e.t_branch)[0] == 'unsat':
                s = -1
            else:
                s = 0
        self.trail.append(s)
        return s

    def _entailed(self, conds):
        """is the conjunction of extra conds infeasible? (recorded on the trail)"""
        i = len(self.trail)
        if i < len(self.prefix):
            s = self.prefix[i]
        else:
            s = 1 if self.query(conds, self.e.t_branch)[0] == 'unsat' else 0
        self.trail.append(s)
        return bool(s)

    def cmp_poly(self, f):
        """polynomial with the sign of fraction f"""
        if not f.d:
            return f.n
        s = self.den_sign_poly(f.d)
        return self.ring.mul(f.n, s)

    def struct_nonneg(self, v, depth=0):
        """visibly >= 0: sums and products of squares, roots and nonnegative constants"""
        if isinstance(v, Fraction):
            return v >= 0
        if is_undef(v) or depth > 60:
            return False
        c = self.e.nonneg_cache.get(v.id)
        if c is not None:
            return c
        o, a = v.op, v.args
        if o == '*':
            r = a[0] is a[1] or (self.struct_nonneg(a[0], depth + 1) and self.struct_nonneg(a[1], depth + 1))
        elif o in ('+', '/'):
            r = self.struct_nonneg(a[0], depth + 1) and self.struct_nonneg(a[1], depth + 1)
        elif o == 'gen':
            r = self.e.gens[a[0]].kind in ('sqrt', 'pi')
        else:
            r = False
        self.e.nonneg_cache[v.id] = r
        return r

    def decide_rel(self, v, rel):
        """decide v REL 0 for a value, forking when both are possible"""
        if isinstance(v, Fraction):
            return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0, '>': v > 0, '>=': v >= 0}[rel]
        if rel in ('<', '>=') and self.struct_nonneg(v):
            return rel == '>='
        f = self.frac(v)
        return self.decide_frac(f, rel)

    def decide_frac(self, f, rel):
        if f.is_const():
            return self.decide_rel(f.const(), rel)
        p = f.n if rel in ('==', '!=') else self.cmp_poly(f)
        k, pp = pcontent(p)
        p = pp
        if pis_const(p):
            return self.decide_rel(Fraction(p.get(0, 0)), rel)
        # quick sign by structure
        q = self.quick_sign(p)
        if q is not None:
            if q == '+':
                return rel in ('>', '>=', '!=')
            if q == '-':
                return rel in ('<', '<=', '!=')
            if q == '0+' and rel in ('>=',):
                return True
            if q == '0+' and rel in ('<',):
                return False
        t = self.e.t_branch
        return self.decide([
            (True, lambda: self.query([(p, rel)], t)[0] != 'unsat', lambda: self.add_cond(p, rel)),
            (False, lambda: self.query([(p, RNEG[rel])], t)[0] != 'unsat', lambda: self.add_cond(p, RNEG[rel]))])

    def quick_sign(self, p):
        """'+', '-', '0+' for polynomials that are visibly so"""
        pos = True
        strict = False
        for m, c in p.items():
            if m == 0:
                if c > 0:
                    strict = True
                    continue
                return None
            if c < 0:
                return None
            for g, ex in gens_of_mono(m):
                kd = self.e.gens[g].kind
                if ex % 2 and kd not in ('sqrt', 'pi'):
                    return None
        return '+' if strict else '0+'

    def decide_int(self, b):
        """b: z3 Bool over bit-vectors"""
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False

        kn = self.iconds.known_value(b)
        if kn is not None:
            return kn

        def fe(c):
            return lambda: self.isat(c)
        return self.decide([(True, fe(b), lambda: self.iconds.append(b)),
                            (False, fe(z3.Not(b)), lambda: self.iconds.append(z3.Not(b)))])

    def isat(self, *c):
        if len(c) == 1:
            # a recent model of the path condition may decide it
            for m in self.iconds.models:
                if z3.is_true(m.eval(c[0], model_completion=True)):
                    return True
        r, m = self.z3check(list(self.iconds) + list(c), 10000, True)
        if m is not None:
            self.iconds.models.insert(0, m)
            del self.iconds.models[6:]
        return r != 'unsat'

    def concretize(self, v, w, what):
        """enumerate the feasible values of a symbolic integer (forks)"""
        if isinstance(v, int):
            return v
        if is_undef(v):
            raise PathEnd('undef', '%s is undefined (%s)' % (what, getattr(v, 'why', '')))
        if isinstance(v, z3.BoolRef):
            return 1 if self.decide_int(v) else 0
        if isinstance(v, N):
            raise Unsupported('real used as ' + what)
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        # enumerate
        if os.environ.get('VF_TRACE_CONC') and len(self.trail) >= len(self.prefix):
            print('CONC', what, self.cur_fn, v.sexpr()[:300], file=sys.stderr)
        i = len(self.trail)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.trail.append(k)
            self.iconds.append(v == k)
            return k
        vals = []
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*self.iconds)
        while True:
            r = s.check()
            self.e.st.queries += 1
            if str(r) != 'sat':
                break
            k = s.model().eval(v, model_completion=True).as_long()
            vals.append(k)
            s.add(v != k)
            if len(vals) > 300:
                raise Unsupported('too many values for symbolic ' + what)
        if not vals:
            raise PathEnd('infeasible')
        vals.sort()
        for k in reversed(vals[1:]):
            self.work.append(self.trail + [k])
        self.trail.append(vals[0])
        self.iconds.append(v == vals[0])
        return vals[0]

    # ------------------------------------------------------------ real functions
    def div(self, a, b):
        e = self.e
        if is_undef(a):
            return a
        if is_undef(b):
            return b
        if isinstance(b, Fraction):
            if b == 0:
                return Undef('division by zero')
            return e.mul(a, 1 / b)
        fb = self.frac(b)
        if fb.is_const():
            c = fb.const()
            if c == 0:
                return Undef('division by zero')
            return e.mul(a, 1 / c)
        if self.decide_frac(fb, '=='):
            return Undef('division by zero')
        if isinstance(a, Fraction) and a == 0:
            return a
        return e.pool.mk('/', a, b)

    def fabs(self, a):
        if is_undef(a):
            return Inf(1) if isinstance(a, Inf) else a
        if isinstance(a, Fraction):
            return abs(a)
        return a if self.decide_rel(a, '>=') else self.e.neg(a)

    def sqrt(self, a):
        e = self.e
        if is_undef(a):
            return a
        if isinstance(a, Fraction):
            if a < 0:
                return Undef('sqrt of negative')
            r = isqrt_frac(a)
            if r is not None:
                return r
            if a.denominator > 10000 or a.numerator > 10**6 or self.e.opts.get('fpconst'):
                return Fraction(math.sqrt(float(a)))
            f = Frac(pconst(a), ())
        else:
            f = self.frac(a)
            if f.is_const():
                return self.sqrt(f.const())
        for h in self.root_hints:       # a root proposed by the harness, accepted when its square is identically a
            if not self.frac(e.sub(a, e.mul(h, h))).n:
                return self.fabs(h)
        # value = N/D ; sqrt = sqrt(N*Dodd)/ (|D| parts)
        if not (f.is_const()) and not self.struct_nonneg(a):
            if self.decide_frac(f, '<'):
                return Undef('sqrt of negative')
        num = f.n
        outd = Fraction(1)
        outn = Fraction(1)
        for k, ex in f.d:
            half = (ex + 1) // 2
            dn = self.poly_node(self.ring.nf(e.denoms[k]))
            if ex % 2:
                num = self.ring.mul(num, e.denoms[k])
            s = self.den_sign(k)
            if s == 0:
                # fork on the sign
                if not self.decide_rel(dn, '>'):
                    dn = e.neg(dn)
                    self.possign[k] = -1
                else:
                    self.possign[k] = 1
            elif s < 0:
                dn = e.neg(dn)
            for _ in range(half):
                outd = e.mul(outd, dn)
        r = self.sqrt_poly(num)
        if isinstance(outd, Fraction):
            return e.mul(r, 1 / outd)
        if isinstance(r, Fraction) and r == 0:
            return r
        return e.pool.mk('/', r, outd)

    def sqrt_poly(self, p):
        """sqrt of a polynomial known to be >= 0"""
        e = self.e
        if not p:
            return Fraction(0)
        k, pp = pcontent(p)
        out = Fraction(1)
        # even monomial content
        mg = mono_gcd(pp)
        if mg:
            take = 0
            for g, ex in gens_of_mono(mg):
                if ex >= 2:
                    take |= (ex - ex % 2) << (FB * g)
            if take:
                pp = {m - take: c for m, c in pp.items()}
                for g, ex in gens_of_mono(take):
                    gn = e.pool.mk('gen', g)
                    for _ in range(ex // 2):
                        out = e.mul(out, self.fabs(gn))
        # rational content
        r = isqrt_frac(k)
        if r is not None:
            out = e.mul(out, r)
        else:
            # move non-square part inside
            a, b = k.numerator, k.denominator
            pp = pscale(pp, a * b)
            out = e.mul(out, Fraction(1, b))
            # pull squares of small primes out
            c, _ = pcontent(pp)
            c = int(c)
            f = 2
            while f * f <= c and f < 1000:
                while c % (f * f) == 0:
                    c //= f * f
                    pp = {m: v // (f * f) for m, v in pp.items()}
                    out = e.mul(out, Fraction(f))
                f += 1
        if pis_const(pp) and pp[0] == 1:
            return out
        # equal to (product of generators)^2 modulo relations?
        c = self.sqrt_known(pp)
        if c is not None:
            return e.mul(out, c)
        # polynomial square?
        q = self.poly_sqrt(pp)
        if q is not None:
            return e.mul(out, self.fabs(self.poly_node(q)))
        g = e.new_gen(('sqrt', pkey(pp)), 'sqrt', 'sqrt', pp)
        gi = e.gens[g]
        if not gi.facts:
            gi.facts = [gi.z3 >= 0, gi.z3 * gi.z3 == self.zpoly(pp)]
            gi.deps = pgens(pp)
        if g not in self.ring.rel:
            mx = pgens(pp)
            if mx and max(mx) >= g:
                raise Unsupported('sqrt generator order')
            self.ring.add_rel(g, 2, pp)
        return e.mul(out, e.pool.mk('gen', g))

    def sqrt_known(self, pp):
        e = self.e
        cand = []
        kk = pkey(pp)
        for g, (deg, rp) in list(self.ring.rel.items()):
            if deg == 2 and pgens_sub(rp, pp):
                cand.append(g)
        for g in cand:
            rp = self.ring.rel[g][1]
            c, q = pcontent(rp)
            if pkey(q) == kk:
                # g^2 = c*pp
                s = isqrt_frac(c)
                if s is not None:
                    return e.mul(self.fabs(e.pool.mk('gen', g)), 1 / s)
        # products of two related generators
        for i, g in enumerate(cand):
            for h in cand[:i]:
                c, q = pcontent(self.ring.mul(self.ring.rel[g][1], self.ring.rel[h][1]))
                if pkey(q) == kk:
                    s = isqrt_frac(c)
                    if s is not None:
                        return e.mul(e.mul(self.fabs(e.pool.mk('gen', g)), self.fabs(e.pool.mk('gen', h))), 1 / s)
        # times a quotient: pp = rp * q with q a square
        for g in cand:
            rp = self.ring.rel[g][1]
            if len(pp) > len(rp):
                q = self.pdiv_exact(pp, rp)
                if q is not None:
                    c, qq = pcontent(q)
                    s = isqrt_frac(c)
                    if s is None:
                        continue
                    r = self.poly_sqrt(qq)
                    if r is None:
                        r2 = self.sqrt_known(qq)
                        if r2 is None:
                            continue
                        return e.mul(e.mul(self.fabs(e.pool.mk('gen', g)), s), r2)
                    return e.mul(e.mul(self.fabs(e.pool.mk('gen', g)), s), self.fabs(self.poly_node(r)))
        return None

    def poly_sqrt(self, p):
        """r with r*r == p as polynomials, or None"""
        if len(p) > 400:
            return None
        r = {}
        rest = dict(p)
        lead = None
        for _ in range(60):
            if not rest:
                return r
            m = max(rest)
            c = rest[m]
            if lead is None:
                for g, ex in gens_of_mono(m):
                    if ex % 2:
                        return None
                s = isqrt_frac(Fraction(c)) if c > 0 else None
                if s is None:
                    return None
                lm = 0
                for g, ex in gens_of_mono(m):
                    lm |= (ex // 2) << (FB * g)
                lead = (lm, _c(s))
                r[lm] = lead[1]
            else:
                mm = m - lead[0]
                if mm < 0:
                    return None
                for g, ex in gens_of_mono(lead[0]):
                    if ((m >> (FB * g)) & FM) < ex:
                        return None
                if mm >= lead[0]:
                    return None
                r[mm] = _cdiv(c, 2 * lead[1])
            rest = psub(p, pmul_raw(r, r))
            rest = {a: _c(b) for a, b in rest.items()}
        return None

    # ---- angles
    def angle_terms(self, v):
        """decompose an angle value into list of (atom key, coef, node) + pi coefficient"""
        f = self.frac(v)
        terms = []
        pik = Fraction(0)
        if f.d:
            # single opaque atom with rational scale: normalise content
            c, n = pcontent(f.n)
            if n[max(n)] < 0:
                n = pscale(n, -1)
                c = -c
            key = ('fr', pkey(n), f.d)
            terms.append((key, c, Frac(n, f.d)))
            return terms, pik
        for m, c in f.n.items():
            if m == 1:      # pi generator has index 0
                pik += Fraction(c)
                continue
            if m == 0:
                terms.append((('m', 0, Fraction(c)), Fraction(1), Frac({0: c}, ())))
                continue
            c = Fraction(c)
            if c.denominator > 12 or abs(c.numerator) > 24:
                key = ('m', m, c)
                terms.append((key, Fraction(1), Frac({m: _c(c)}, ())))
            else:
                terms.append((('m', m, Fraction(1)), c, Frac({m: 1}, ())))
        return terms, pik

    def base_trig(self, key, fr, k):
        """(sin,cos) fractions of k/K * atom"""
        e = self.e
        K = e.atomK.get(key)
        if K is None:
            K = e.atomK[key] = e.opts.get('atomK', 2)
        num = k * K
        if num.denominator != 1:
            e.atomK[key] = K * num.denominator
            raise Restart()
        n = int(num)
        # atan-type generators carry their own trig values at unit 1
        sg = e.new_gen(('sin', key, K), 'sin', 'trig', ('sin', key, K))
        cg = e.new_gen(('cos', key, K), 'cos', 'trig', ('cos', key, K))
        if not e.gens[sg].facts:
            s, c = e.gens[sg].z3, e.gens[cg].z3
            a = self.zpoly(fr.n)
            if fr.d:
                q = z3.Real('ang%d' % sg)
                dz = self.zpoly(self.dpoly(fr.d))
                facts = [q * dz == a]
                a = q
            else:
                facts = []
            a = a / K
            pi = e.gens[0].z3
            facts += [s * s + c * c == 1,
                      z3.Implies(z3.And(a > 0, a < pi), s > 0),
                      z3.Implies(z3.And(a < 0, a > -pi), s < 0),
                      z3.Implies(z3.And(a > pi, a < 2 * pi), s < 0),
                      z3.Implies(z3.And(a < -pi, a > -2 * pi), s > 0),
                      z3.Implies(a == 0, z3.And(s == 0, c == 1)),
                      z3.Implies(z3.And(a > -pi / 2, a < pi / 2), c > 0),
                      z3.Implies(z3.And(a > pi / 2, a < 3 * pi / 2), c < 0),
                      z3.Implies(z3.And(a < -pi / 2, a > -3 * pi / 2), c < 0),
                      z3.Implies(a == pi, z3.And(s == 0, c == -1)),
                      z3.Implies(a >= 0, z3.And(s <= a, s >= a - a * a * a / 6, s <= a - a * a * a / 6 + a * a * a * a * a / 120)),
                      z3.Implies(a <= 0, z3.And(s >= a, s <= a - a * a * a / 6, s >= a - a * a * a / 6 + a * a * a * a * a / 120)),
                      c >= 1 - a * a / 2, c <= 1 - a * a / 2 + a * a * a * a / 24]
            if self.e.opts.get('taylor'):
                a2 = a * a
                facts += [z3.Implies(a >= 0, s >= a - a * a2 / 6 + a * a2 * a2 / 120 - a * a2 * a2 * a2 / 5040),
                          c >= 1 - a2 / 2 + a2 * a2 / 24 - a2 * a2 * a2 / 720]
            e.gens[sg].facts = facts
            e.gens[cg].facts = [s * s + c * c == 1]
            dd = pgens(fr.n)
            for kk, _ in fr.d:
                dd = dd + pgens(e.denoms[kk])
            e.gens[sg].deps = [cg, 0] + dd
            e.gens[cg].deps = [sg]
        if cg not in self.ring.rel:
            self.ring.add_rel(cg, 2, {0: 1, 2 << (FB * sg): -1})
        return self.multi(Frac({1 << (FB * sg): 1}, ()), Frac({1 << (FB * cg): 1}, ()), n)

    def multi(self, s, c, n):
        if n < 0:
            a, b = self.multi(s, c, -n)
            return Frac(pscale(a.n, -1), a.d), b
        rs, rc = Frac({}, ()), Frac({0: 1}, ())
        for _ in range(n):
            rs, rc = self.addang(rs, rc, s, c)
        return rs, rc

    def addang(self, s1, c1, s2, c2):
        s = self.faddf(self.fmulf(s1, c2), self.fmulf(c1, s2))
        cc = self.fmulf(s1, s2)
        c = self.faddf(self.fmulf(c1, c2), Frac(pscale(cc.n, -1), cc.d))
        return s, c

    def sincos_frac(self, v):
        if isinstance(v, Fraction) and v == 0:
            return Frac({}, ()), Frac({0: 1}, ())
        terms, pik = self.angle_terms(v)
        s, c = Frac({}, ()), Frac({0: 1}, ())
        e = self.e
        for key, k, fr in terms:
            s2 = None
            if key[0] == 'm' and key[1]:
                gm = gens_of_mono(key[1])
                if len(gm) == 1 and gm[0][1] == 1 and e.gens[gm[0][0]].kind == 'atan2':
                    s2, c2 = self.atan_trig(gm[0][0], k * key[2])
            if s2 is None:
                s2, c2 = self.base_trig(key, fr, k)
            s, c = self.addang(s, c, s2, c2)
        if pik:
            q = pik * 4
            if q.denominator != 1:
                raise Unsupported('trig of a multiple of pi/%d' % (4 * q.denominator))
            q = int(q) % 8
            if q % 2 == 0:
                ss, cc = [(0, 1), (1, 0), (0, -1), (-1, 0)][q // 2]
                s, c = self.addang(s, c, Frac(pconst(ss), ()), Frac(pconst(cc), ()))
            else:
                r2 = self.frac(self.sqrt(Fraction(1, 2)))
                sg = [(1, 1), (1, -1), (-1, -1), (-1, 1)][q // 2]
                s, c = self.addang(s, c, Frac(pscale(r2.n, sg[0]), r2.d), Frac(pscale(r2.n, sg[1]), r2.d))
        return s, c

    def sincos(self, v):
        if is_undef(v):
            return v, v
        if isinstance(v, N):
            f = self.frac(v)
            if f.is_const():
                v = f.const()
        if isinstance(v, Fraction) and v == 0:
            return Fraction(0), Fraction(1)
        if isinstance(v, Fraction) and self.e.opts.get('fpconst'):      # constants as libm gives them
            return Fraction(math.sin(float(v))), Fraction(math.cos(float(v)))
        s, c = self.sincos_frac(v)
        if all(x is not v for x in self.angles):
            self.angles.append(v)
        return self.frac_node(s), self.frac_node(c)

    def atan_trig(self, g, k):
        """(sin,cos)(k * atan2-generator)"""
        e = self.e
        y, x, r = self.atan_data[g]
        S = self.frac(self.div_nz(y, r))
        C = self.frac(self.div_nz(x, r))
        if k.denominator == 1:
            return self.multi(S, C, int(k))
        if k.denominator == 2:
            # half angle: phi/2 in (-pi/2, pi/2]; cos(phi/2)=sqrt((1+C)/2) >= 0
            h = self.atan_half.get(g)
            if h is None:
                cn = self.frac_node(C)
                ch = self.sqrt(e.mul(e.add(cn, Fraction(1)), Fraction(1, 2)))
                if self.decide_rel(ch, '==') if not isinstance(ch, Fraction) else ch == 0:
                    sh, ch = Fraction(1), Fraction(0)
                else:
                    sh = self.div(self.frac_node(S), e.mul(ch, Fraction(2)))
                h = self.atan_half[g] = (sh, ch)
            return self.multi(self.frac(h[0]), self.frac(h[1]), int(2 * k))
        raise Unsupported('atan2 angle divided by %d' % k.denominator)

    def div_nz(self, a, b):
        if isinstance(b, Fraction):
            return self.e.mul(a, 1 / b)
        if isinstance(a, Fraction) and a == 0:
            return a
        return self.e.pool.mk('/', a, b)

    @property
    def atan_data(self):
        d = self.__dict__.get('_ad')
        if d is None:
            d = self.__dict__['_ad'] = {}
        return d

    @property
    def atan_half(self):
        d = self.__dict__.get('_ah')
        if d is None:
            d = self.__dict__['_ah'] = {}
        return d

    def atan2(self, y, x):
        e = self.e
        if is_undef(y):
            return y
        if is_undef(x):
            return x
        if self.e.opts.get('fpconst') and isinstance(y, Fraction) and isinstance(x, Fraction):
            return Fraction(math.atan2(float(y), float(x)))
        fy, fx = self.frac(y), self.frac(x)
        if not fy.n:
            # y == 0
            if self.decide_rel(x, '>='):
                return Fraction(0)
            return e.pi
        if not fx.n:
            return e.mul(e.pi, Fraction(1, 2)) if self.decide_rel(y, '>') else e.mul(e.pi, Fraction(-1, 2))
        if fy.is_const() and fx.is_const() and abs(fy.const()) == abs(fx.const()):
            k = {(1, 1): Fraction(1, 4), (1, -1): Fraction(3, 4), (-1, 1): Fraction(-1, 4), (-1, -1): Fraction(-3, 4)}[
                (1 if fy.const() > 0 else -1, 1 if fx.const() > 0 else -1)]
            return e.mul(e.pi, k)
        # known angle?
        for a in list(self.angles):
            for sc in (Fraction(1), Fraction(1, 2), Fraction(2)):
                av = e.mul(a, sc)
                try:
                    if sc == Fraction(1, 2) and not self.unit_ok(av):
                        continue
                    s, c = self.sincos_frac(av)
                except (Restart, Unsupported):
                    continue
                for comp in (False, True):
                    if comp:                      # the complement pi/2 - a
                        s, c = c, s
                        av = e.sub(e.mul(e.pi, Fraction(1, 2)), av)
                    cross = psub_f(self, self.fmulf(fy, c), self.fmulf(fx, s))
                    if cross.n:
                        continue
                    dot = self.faddf(self.fmulf(fx, c), self.fmulf(fy, s))
                    if not dot.n:
                        continue
                    if not self.decide_frac(dot, '>'):
                        # opposite direction or zero
                        if self.decide_frac(dot, '=='):
                            return Fraction(0)
                        av = e.add(av, e.pi)
                    return self.principal(av)
        r = self.sqrt(e.add(e.mul(y, y), e.mul(x, x)))
        if isinstance(r, Fraction):
            if r == 0:
                return Fraction(0)
        elif is_undef(r):
            return r
        elif self.decide_rel(r, '=='):
            return Fraction(0)
        key = ('atan2', pkey(fy.n), fy.d, pkey(fx.n), fx.d)
        g = e.new_gen(key, 'atan2', 'atan2', None)
        gi = e.gens[g]
        if not gi.facts:
            pi = e.gens[0].z3
            zy = self.zpoly(self.cmp_poly(fy))
            zx = self.zpoly(self.cmp_poly(fx))
            t = gi.z3
            gi.facts = [t > -pi, t <= pi, (t > 0) == z3.Or(zy > 0, z3.And(zy == 0, zx < 0)), (t < 0) == (zy < 0),
                        z3.Implies(zx > 0, z3.And(t > -pi / 2, t < pi / 2)),
                        z3.Implies(zx == 0, z3.Or(t == pi / 2, t == -pi / 2)),
                        z3.Implies(zx < 0, z3.Or(t > pi / 2, t < -pi / 2))]
            gi.deps = [0] + pgens(fy.n) + pgens(fx.n)
            fr = self.frac(r)
            if not fy.d and not fx.d and not fr.d:
                # |sin t| <= |t| and, right of the axis, |t| <= |tan t|
                ay, at, zr = z3.If(zy < 0, -zy, zy), z3.If(t < 0, -t, t), self.zpoly(fr.n)
                gi.facts += [at * zr >= ay, z3.Implies(zx > 0, at * zx <= ay)]
                gi.deps = gi.deps + pgens(fr.n)
            for d in (fy.d, fx.d):
                for k, _ in d:
                    gi.deps = gi.deps + pgens(e.denoms[k])
        self.atan_data[g] = (y, x, r)
        gi.data = (y, x)
        nd = e.pool.mk('gen', g)
        self.angles.append(nd)
        return nd

    def unit_ok(self, av):
        terms, pik = self.angle_terms(av)
        for key, k, fr in terms:
            K = self.e.atomK.get(key)
            if K is None or (k * K).denominator != 1:
                if key[0] == 'm' and key[1]:
                    gm = gens_of_mono(key[1])
                    if len(gm) == 1 and self.e.gens[gm[0][0]].kind == 'atan2' and (k * key[2]).denominator <= 2:
                        continue
                return False
        return (pik * 4).denominator == 1

    def principal(self, av):
        """value equal to av modulo 2 pi within (-pi, pi]"""
        e = self.e
        f = self.frac(av)
        opts = []
        for k in (0, 1, -1, 2, -2):
            n = e.add(av, e.mul(e.pi, Fraction(2 * k)))
            fl = self.frac(e.add(n, e.pi))
            fh = self.frac(e.sub(n, e.pi))
            pl, ph = self.cmp_poly(fl), self.cmp_poly(fh)

            def fe(pl=pl, ph=ph):
                return self.query([(pl, '>'), (ph, '<=')], e.t_branch)[0] != 'unsat'

            def ap(pl=pl, ph=ph):
                self.add_cond(pl, '>')
                self.add_cond(ph, '<=')
            opts.append((n, fe, ap))
        return self.decide(opts)

    # ------------------------------------------------------------ execution
    def execute(self, fname):
        ctors = self.e.opts.get('ctors') or []
        for c in ctors:
            self.call(c, [])
        return self.call(fname, [])

    def call(self, name, args):
        e = self.e
        fn = self.lowered(name)
        e.fns_executed.add(name)
        if len(args) < len(fn.params):
            raise Unsupported('arity of ' + name)
        regs = [None] * fn.nslots
        for s, a in zip(fn.params, args):
            regs[s] = a
        self.depth += 1
        if self.depth > 200:
            raise PathEnd('recursion', name)
        saved_va = self.__dict__.get('va', [])
        self.va = args[len(fn.params):]
        saved = self.cur_fn
        self.cur_fn = name
        allocas = []
        blk = 0
        prev = -1
        blocks = fn.blocks
        maxsteps = e.opts.get('max_steps', 4000000)
        symgep = e.opts.get('symgep')
        try:
            while True:
                phis, ins = blocks[blk]
                if phis:
                    vals = []
                    for s, d in phis:
                        o = d[prev]
                        vals.append(o[1] if o[0] else regs[o[1]])
                    for (s, d), v in zip(phis, vals):
                        regs[s] = v
                self.steps += len(ins)
                e.st.insts += len(ins)
                if self.steps > maxsteps:
                    raise PathEnd('steps', 'instruction budget in ' + name)
                nxt = None
                for I in ins:
                    op = I[0]
                    if op == 'load':
                        o = I[3]
                        regs[I[1]] = self.load(o[1] if o[0] else regs[o[1]], I[2])
                    elif op == 'store':
                        o = I[2]
                        a = I[3]
                        self.store(a[1] if a[0] else regs[a[1]], I[1], o[1] if o[0] else regs[o[1]])
                    elif op == 'gep':
                        o = I[2]
                        b = o[1] if o[0] else regs[o[1]]
                        if I[3]:
                            b = self.iadd64(b, I[3])
                        for o, sc, w in I[4]:
                            v = o[1] if o[0] else regs[o[1]]
                            if isinstance(v, int):
                                if v >> (w - 1):
                                    v -= 1 << w
                                b = self.iadd64(b, v * sc)
                            else:
                                if is_undef(v):
                                    b = v
                                    continue
                                if symgep and isinstance(v, z3.BitVecRef):
                                    v = z3.SignExt(64 - w, v) if w < 64 else v
                                    b = z3.simplify(self.bv(b, 64) + v * z3.BitVecVal(sc, 64))
                                    if z3.is_bv_value(b):
                                        b = b.as_long()
                                    continue
                                v = self.concretize(v, w, 'index')
                                if v >> (w - 1):
                                    v -= 1 << w
                                b = self.iadd64(b, v * sc)
                        regs[I[1]] = b
                    elif op == 'jmp':
                        nxt = I[1]
                        break
                    elif op == 'br':
                        o = I[1]
                        c = o[1] if o[0] else regs[o[1]]
                        if not isinstance(c, int):
                            if is_undef(c):
                                raise PathEnd('undef', 'branch on undefined value (%s) in %s' % (getattr(c, 'why', ''), name))
                            c = self.decide_int(self.tobool(c))
                        nxt = I[2] if c else I[3]
                        break
                    elif op == 'call':
                        r = self.do_call(I, regs)
                        if I[1] is not None:
                            regs[I[1]] = r
                    elif op == 'ret':
                        o = I[1]
                        r = None
                        if o is not None:
                            r = o[1] if o[0] else regs[o[1]]
                        return r
                    elif op == 'alloca':
                        cnt = I[3][1] if I[3][0] else regs[I[3][1]]
                        cnt = self.concretize(cnt, 64, 'alloca size')
                        a = self.alloc(max(I[2] * cnt, 1), 'stack')
                        allocas.append(self.objs[-1])
                        regs[I[1]] = a
                    elif op == 'switch':
                        o = I[1]
                        v = o[1] if o[0] else regs[o[1]]
                        if is_undef(v):
                            raise PathEnd('undef', 'switch on undefined value')
                        nxt = I[3]
                        if isinstance(v, z3.BitVecRef):
                            # one path per target block, not per value
                            by = {}
                            for c, t in I[4]:
                                by.setdefault(t, []).append(c)
                            by.pop(nxt, None)
                            for t, cs in by.items():
                                if self.decide_int(z3.Or([v == c for c in cs])):
                                    nxt = t
                                    break
                            break
                        v = self.concretize(v, I[2].w, 'switch')
                        for c, t in I[4]:
                            if c == v:
                                nxt = t
                                break
                        break
                    elif op == 'unreachable':
                        raise PathEnd('unreachable', 'reached unreachable in ' + name)
                    else:
                        self.exec1(I, regs)
                prev = blk
                blk = nxt
        finally:
            self.depth -= 1
            self.cur_fn = saved
            self.va = saved_va
            for o in allocas:
                o.alive = False

    def lowered(self, name):
        # lowering resolves global addresses per path: cache per path
        lc = self.__dict__.get('_lc')
        if lc is None:
            lc = self.__dict__['_lc'] = {}
        fn = lc.get(name)
        if fn is None:
            e = self.e
            gl = e.__dict__.setdefault('lower_cache', {})
            ent = gl.get(name)
            if ent is None:
                rec = GlobalRecorder(self)
                fn = e.mod._lower(e.mod.funcs[name], name, rec)
                gl[name] = (fn, rec.used)
            else:
                fn, used = ent
                for g, a in used:
                    # re-create globals at the same addresses
                    if self.global_addr_at(g, a) != a:
                        raise RuntimeError('global address drift')
            lc[name] = fn
        return fn

    def global_addr_at(self, g, a):
        cur = self.gaddr.get(g)
        if cur is not None:
            return cur
        return self.global_addr_fixed(g)

    def global_addr_fixed(self, g):
        e = self.e
        fixed = e.__dict__.setdefault('gfixed', {})
        if g not in fixed:
            m = e.mod
            from . import llvmir as ll
            ty = m.ty(ll.GlobalValueType(g))
            nb = e.__dict__.get('gbrk', 0x1000000)
            fixed[g] = nb
            e.__dict__['gbrk'] = (nb + max(ty.size, 8) + 64 + 63) & ~63
        a = fixed[g]
        if g not in self.gaddr:
            save = self.brk
            self.brk = a
            # insert keeping self.bases sorted: globals live below the heap
            m = e.mod
            from . import llvmir as ll
            ty = m.ty(ll.GlobalValueType(g))
            name = m.globals[g]
            o = Obj(a, max(ty.size, 8) if ll.IsDeclaration(g) else max(ty.size, 1), 'global:' + name)
            i = bisect.bisect_right(self.bases, a)
            self.bases.insert(i, a)
            self.objs.insert(i, o)
            self.brk = save
            self.gaddr[g] = a
            # stack indices shift: handled by address-based liveness below
            for fr in self.frames:
                pass
            if ll.IsDeclaration(g):
                if name in ('stderr', 'stdout', 'stdin'):
                    o.cells[0] = (8, self.alloc(16, 'FILE'))
                else:
                    for k in range(0, o.size, 8):
                        o.cells[k] = (8, 0)
            else:
                init = m.const(ll.GetInitializer(g), GlobalRecorder(self))
                self.store_agg(o, 0, ty, init)
        return a

    def iadd64(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & M64
        if is_undef(a):
            return a
        if is_undef(b):
            return b
        return a + b

    def val(self, o, regs):
        return o[1] if o[0] else regs[o[1]]

    def tobool(self, c):
        if isinstance(c, z3.BoolRef):
            return c
        if isinstance(c, z3.BitVecRef):
            return c != 0
        if isinstance(c, int):
            return z3.BoolVal(bool(c))
        raise Unsupported('tobool')

    def do_call(self, I, regs):
        callee = I[2]
        args = [o[1] if o[0] else regs[o[1]] for o in I[3]]
        if not isinstance(callee, str):
            a = callee[1] if callee[0] else regs[callee[1]]
            if a == ('asm',):
                return None
            if is_undef(a):
                raise PathEnd('undef', 'call through undefined pointer')
            if not isinstance(a, int):
                a = self.concretize(a, 64, 'function pointer')
            callee = self.e.addrfn.get(a)
            if callee is None:
                raise PathEnd('memerr', 'call through invalid pointer %#x' % a)
        return self.invoke(callee, args, I[4], I[5])

    def invoke(self, callee, args, atys=None, rty=None):
        b = self.e.builtins.get(callee)
        if b is not None:
            return b(self, args, atys, rty)
        if callee in self.e.mod.funcs:
            return self.call(callee, args)
        if callee.startswith('llvm.'):
            return self.e.builtins['llvm.*'](self, callee, args, atys, rty)
        raise Unsupported('external function ' + callee)

    def bv(self, v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if is_undef(v):
            raise PathEnd('undef', 'undefined integer')
        if isinstance(v, N):
            raise Unsupported('real bits in integer op')
        return v

    def exec1(self, I, regs):
        op = I[0]
        if op == 'icmp':
            ty = I[3]
            a = self.val(I[4], regs)
            b = self.val(I[5], regs)
            if ty.k == 'v':
                regs[I[1]] = [self.icmp(I[2], ty.elem, x, y) for x, y in zip(a, b)]
            else:
                regs[I[1]] = self.icmp(I[2], ty, a, b)
        elif op == 'fcmp':
            a = self.val(I[4], regs)
            b = self.val(I[5], regs)
            if I[3].k == 'v':
                regs[I[1]] = [self.fcmp(I[2], x, y) for x, y in zip(a, b)]
            else:
                regs[I[1]] = self.fcmp(I[2], a, b)
        elif op == 'select':
            c = self.val(I[3], regs)
            a = self.val(I[4], regs)
            b = self.val(I[5], regs)
            ty = I[2]
            if isinstance(c, list):
                regs[I[1]] = [self.select(x, ty.elem, y, z) for x, y, z in zip(c, a, b)]
            else:
                regs[I[1]] = self.select(c, ty, a, b)
        elif op == 'extractvalue':
            v = self.val(I[2], regs)
            for i in I[3]:
                v = v[i] if not is_undef(v) else v
            regs[I[1]] = v
        elif op == 'insertvalue':
            v = self.val(I[2], regs)
            x = self.val(I[3], regs)
            regs[I[1]] = self.insv(v, x, I[4])
        elif op == 'extractelement':
            v = self.val(I[4], regs)
            i = self.concretize(self.val(I[5], regs), 64, 'index')
            regs[I[1]] = v[i] if not is_undef(v) else v
        elif op == 'insertelement':
            v = self.val(I[4], regs)
            if is_undef(v):
                v = [UNDEF] * I[2].n
            v = list(v)
            i = self.concretize(self.val(I[6], regs), 64, 'index')
            v[i] = self.val(I[5], regs)
            regs[I[1]] = v
        elif op == 'shufflevector':
            a = self.val(I[2], regs)
            b = self.val(I[3], regs)
            n = I[5]
            a = a if not is_undef(a) else [UNDEF] * n
            b = b if not is_undef(b) else [UNDEF] * n
            ab = list(a) + list(b)
            regs[I[1]] = [ab[m] if 0 <= m < len(ab) else UNDEF for m in I[4]]
        elif op == 'atomicrmw':
            ty = I[3]
            p = self.val(I[4], regs)
            x = self.val(I[5], regs)
            old = self.load(p, ty)
            if I[2] == 'xchg':
                new = x
            else:
                new = self.ibin(I[2], ty.w, old, x)
            self.store(p, ty, new)
            regs[I[1]] = old
        elif op == 'cmpxchg':
            ty = I[2]
            p = self.val(I[3], regs)
            old = self.load(p, ty)
            eq = self.icmp('eq', ty, old, self.val(I[4], regs))
            if not isinstance(eq, int):
                eq = int(self.decide_int(eq))
            if eq:
                self.store(p, ty, self.val(I[5], regs))
            regs[I[1]] = [old, eq]
        elif op in ('landingpad', 'resume'):
            raise PathEnd('exception', 'C++ exception path')
        elif op == 'fence':
            pass
        else:
            ty, sty = I[2], I[3]
            ops = [o[1] if o[0] else regs[o[1]] for o in I[4:]]
            if ty.k == 'v' and op != 'bitcast':
                regs[I[1]] = [self.scalar(op, ty.elem, sty.elem, [o[i] if not is_undef(o) else o for o in ops]) for i in range(ty.n)]
            else:
                regs[I[1]] = self.scalar(op, ty, sty, ops)

    def insv(self, v, x, idx):
        v = list(v) if not is_undef(v) else [UNDEF] * 8
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insv(v[idx[0]], x, idx[1:])
        return v

    def select(self, c, ty, a, b):
        if is_undef(c):
            return c
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        if ty.k in ('i', 'p') and not isinstance(a, (N,)) and not isinstance(b, N) and not is_undef(a) and not is_undef(b) \
           and ty.k == 'i':
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            if ty.w == 1:
                return z3.simplify(z3.If(self.tobool(c), self.tobool(a), self.tobool(b)))
            return z3.simplify(z3.If(self.tobool(c), self.bv(a, ty.w), self.bv(b, ty.w)))
        return a if self.decide_int(self.tobool(c)) else b

    def icmp(self, pred, ty, a, b):
        if is_undef(a):
            return a if isinstance(a, Undef) else Undef('undef icmp')
        if is_undef(b):
            return b if isinstance(b, Undef) else Undef('undef icmp')
        w = ty.w
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                if a >> (w - 1):
                    a -= 1 << w
                if b >> (w - 1):
                    b -= 1 << w
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            p = pred[1:]
            return int(a > b if p == 'gt' else a >= b if p == 'ge' else a < b if p == 'lt' else a <= b)
        if isinstance(a, N) or isinstance(b, N):
            raise Unsupported('icmp on real bits')
        if w == 1 and (isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef)) and pred in ('eq', 'ne'):
            r = self.tobool(a) == self.tobool(b)
            return z3.simplify(r if pred == 'eq' else z3.Not(r))
        x, y = self.bv(a, w), self.bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if is_undef(a) or is_undef(b):
            u = a if is_undef(a) else b
            why = getattr(u, 'why', 'undef')
            ia, ib = isinstance(a, Inf), isinstance(b, Inf)
            if (ia or ib) and (ia or not is_undef(a)) and (ib or not is_undef(b)):
                if pred in ('ord', 'uno'):
                    return int(pred == 'ord')
                x, y = a.s if ia else 0, b.s if ib else 0
                return int({'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[pred[1:]])
            why = getattr(b, 'why', 'undef') if ia else why
            if 'nan' in why or 'negative' in why:
                return 0 if pred[0] == 'o' else 1
            return Undef('comparison of undefined value: ' + why)
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        p = pred[1:]
        d = self.e.sub(a, b)
        rel = {'eq': '==', 'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<=', 'ne': '!='}[p]
        return int(self.decide_rel(d, rel))

    def scalar(self, op, ty, sty, ops):
        e = self.e
        a = ops[0]
        if op == 'fadd':
            return e.add(a, ops[1])
        if op == 'fsub':
            return e.sub(a, ops[1])
        if op == 'fmul':
            return e.mul(a, ops[1])
        if op == 'fdiv':
            return self.div(a, ops[1])
        if op == 'fneg':
            return e.neg(a)
        if op == 'fptrunc' and isinstance(a, Fraction) and e.opts.get('fpconst') and abs(a) < 10**38:
            return Fraction(struct.unpack('f', struct.pack('f', float(a)))[0])
        if op in ('fpext', 'fptrunc'):
            return a
        if op == 'freeze':
            return a
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return self.ibin(op, ty.w, a, ops[1])
        if op == 'trunc':
            if isinstance(a, PUndef):
                return self.pundef('and', ty.w, a, (1 << ty.w) - 1)
            if is_undef(a):
                return a
            if isinstance(a, int):
                return a & ((1 << ty.w) - 1)
            if ty.w == 1:
                return z3.simplify(z3.Extract(0, 0, a) == 1)
            return z3.simplify(z3.Extract(ty.w - 1, 0, a))
        if op == 'zext':
            if is_undef(a) and not isinstance(a, Inf):
                return self.pundef('and', ty.w, a, (1 << sty.w) - 1)
            if is_undef(a) or isinstance(a, int):
                return a
            if isinstance(a, z3.BoolRef):
                return z3.If(a, z3.BitVecVal(1, ty.w), z3.BitVecVal(0, ty.w))
            return z3.simplify(z3.ZeroExt(ty.w - sty.w, a))
        if op == 'sext':
            if is_undef(a):
                return a
            if isinstance(a, int):
                if a >> (sty.w - 1):
                    a -= 1 << sty.w
                return a & ((1 << ty.w) - 1)
            if isinstance(a, z3.BoolRef):
                return z3.If(a, z3.BitVecVal((1 << ty.w) - 1, ty.w), z3.BitVecVal(0, ty.w))
            return z3.simplify(z3.SignExt(ty.w - sty.w, a))
        if op in ('uitofp', 'sitofp'):
            if is_undef(a):
                return a
            if not isinstance(a, int):
                if isinstance(a, z3.BoolRef):
                    a = int(self.decide_int(a))
                else:
                    a = self.concretize(a, sty.w, 'int to double')
            if op == 'sitofp' and a >> (sty.w - 1):
                a -= 1 << sty.w
            return Fraction(a)
        if op in ('fptosi', 'fptoui'):
            if is_undef(a):
                return a
            if isinstance(a, N):
                f = self.frac(a)
                if f.is_const():
                    a = f.const()
            if isinstance(a, Fraction):
                return int(a) & ((1 << ty.w) - 1)
            if isinstance(a, N) and not is_undef(a):
                # truncation: locate the value by comparisons, forking where several integers are possible
                neg = self.decide_rel(a, '<')
                x = self.e.neg(a) if neg else a
                hi = 1
                while not self.decide_rel(self.e.sub(x, Fraction(hi)), '<'):
                    hi *= 2
                    if hi > 1 << 20:
                        raise Unsupported('large symbolic real to int')
                lo = hi // 2 if hi > 1 else 0
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if self.decide_rel(self.e.sub(x, Fraction(mid)), '<'):
                        hi = mid
                    else:
                        lo = mid
                return (-lo if neg else lo) & ((1 << ty.w) - 1)
            raise Unsupported('symbolic real to int')
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            if is_undef(a) or isinstance(a, int):
                return a & ((1 << ty.w) - 1) if isinstance(a, int) else a
            if isinstance(a, N):
                return a
            if op == 'ptrtoint' and ty.w < 64:
                return z3.Extract(ty.w - 1, 0, a)
            return a
        if op == 'bitcast':
            if is_undef(a):
                return a
            if isinstance(a, list) and ty.k == 'v':
                if ty.n == len(a):
                    return [self.coerce(x, ty.elem) for x in a]
            if isinstance(a, list):
                if all(isinstance(x, int) for x in a):
                    w = sty.elem.w
                    return sum(x << (w * i) for i, x in enumerate(a))
                raise Unsupported('vector bitcast')
            if ty.k == 'v':
                if isinstance(a, int) and ty.elem.k == 'i':
                    w = ty.elem.w
                    return [(a >> (w * i)) & ((1 << w) - 1) for i in range(ty.n)]
                raise Unsupported('bitcast to vector')
            return self.coerce(a, ty)
        if op == 'frem':
            if isinstance(a, Fraction) and isinstance(ops[1], Fraction):
                return Fraction(math.fmod(float(a), float(ops[1])))
            raise Unsupported('frem')
        raise Unsupported('op ' + op)

    def pundef(self, op, w, a, b):
        """bitwise operation with undefined bits: keep track of the bits that are known"""
        m = (1 << w) - 1

        def parts(x):
            if isinstance(x, int):
                return m, x & m
            if isinstance(x, PUndef):
                return x.k & m, x.v & m
            return 0, 0
        why = getattr(a if is_undef(a) else b, 'why', 'undef')
        if op in ('shl', 'lshr'):
            if not isinstance(b, int) or b >= w:
                return Undef(why)
            k, v = parts(a)
            if op == 'shl':
                k, v = ((k << b) | ((1 << b) - 1)) & m, (v << b) & m
            else:
                k, v = (k >> b) | (m & ~(m >> b)), v >> b
        else:
            (ka, va), (kb, vb) = parts(a), parts(b)
            if op == 'and':
                k = (ka & kb) | (ka & ~va) | (kb & ~vb)
                v = va & vb
            elif op == 'or':
                k = (ka & kb) | va | vb
                v = va | vb
            else:
                k = ka & kb
                v = (va ^ vb) & k
        k &= m
        if k == m:
            return v & m
        return PUndef(w, k, v & k, why) if k else Undef(why)

    def ibin(self, op, w, a, b):
        m = (1 << w) - 1
        if is_undef(a) or is_undef(b):
            if op == 'and' and (a == 0 or b == 0):
                return 0
            if op == 'or' and w == 1 and (a == 1 or b == 1):
                return 1
            if op in ('and', 'or', 'xor', 'shl', 'lshr') and (is_undef(a) or isinstance(a, int)) and (is_undef(b) or isinstance(b, int)):
                return self.pundef(op, w, a, b)
            return a if is_undef(a) else b
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else Undef('shift')
            if op == 'lshr':
                return a >> b if b < w else Undef('shift')
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'ashr':
                return (sa >> b) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise PathEnd('memerr', 'integer division by zero in ' + self.cur_fn)
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return q & m if op == 'sdiv' else (sa - q * sb) & m
        if isinstance(a, N) or isinstance(b, N):
            # sign-bit tricks on doubles
            if op == 'and' and b == (1 << 63) - 1:
                return self.fabs(a)
            if op == 'xor' and b == 1 << 63:
                return self.e.neg(a)
            raise Unsupported('integer op %s on real bits' % op)
        if w == 1:
            x, y = self.tobool(a), self.tobool(b)
            r = {'and': lambda: z3.And(x, y), 'or': lambda: z3.Or(x, y), 'xor': lambda: z3.Xor(x, y),
                 'add': lambda: z3.Xor(x, y), 'sub': lambda: z3.Xor(x, y), 'mul': lambda: z3.And(x, y)}[op]()
            return self.bsimp(r)
        x, y = self.bv(a, w), self.bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if self.decide_int(y == 0):
                raise PathEnd('memerr', 'integer division by zero in ' + self.cur_fn)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
             'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
             'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def bsimp(self, r):
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    # ------------------------------------------------------------ numeric evaluation
    def numeric(self, asg):
        """float values of all generators from input assignment (dict gen->float)"""
        return NumEval(self, asg)


class GlobalRecorder:
    def __init__(self, path):
        self.p = path
        self.used = []

    def global_addr(self, g):
        a = self.p.global_addr_fixed(g)
        self.used.append((g, a))
        return a

    def fn_addr(self, n):
        return self.p.e.fn_addr(n)

    def const_fp(self, x):
        return self.p.e.const_fp(x)


def psub_f(p, a, b):
    return p.faddf(a, Frac(pscale(b.n, -1), b.d))


def pgens_sub(a, b):
    return True


def _cdiv(a, b):
    if type(a) is int and type(b) is int and a % b == 0:
        return a // b
    return _c(Fraction(a) / Fraction(b))


class _T:
    pass


_I8 = _T()
_I8.k = 'i'
_I8.w = 8
_I8.size = 1
_F64 = _T()
_F64.k = 'f'
_F64.w = 0
_F64.size = 8
_I32 = _T()
_I32.k = 'i'
_I32.w = 32
_I32.size = 4
_I64 = _T()
_I64.k = 'i'
_I64.w = 64
_I64.size = 8


class NumEval:
    """floating evaluation of generators/polynomials from input values; used only to
    concretise counterexamples and to validate the encoding, never to decide"""

    def __init__(self, path, asg):
        self.p = path
        self.v = dict(asg)
        self.v[0] = math.pi

    def gen(self, g):
        if g in self.v:
            return self.v[g]
        gi = self.p.e.gens[g]
        if gi.kind == 'sqrt':
            x = self.poly(gi.data)
            r = math.sqrt(x) if x > 0 else (0.0 if x > -1e-12 else float('nan'))
        elif gi.kind == 'trig':
            fn, key, K = gi.data
            if key[0] == 'm':
                a = float(key[2])
                for gg, ex in gens_of_mono(key[1]):
                    a *= self.gen(gg) ** ex
            else:
                n = sum(float(c) * self.mono(m) for m, c in key[1])
                for k, ex in key[2]:
                    n /= self.poly(self.p.e.denoms[k]) ** ex
                a = n
            r = math.sin(a / K) if fn == 'sin' else math.cos(a / K)
        elif gi.kind == 'atan2':
            y, x = gi.data
            r = math.atan2(self.node(y), self.node(x))
        elif gi.kind == 'fun':
            r = gi.data[0](*[self.node(a) for a in gi.data[1]])
        else:
            raise KeyError('input generator %s has no value' % gi.name)
        self.v[g] = r
        return r

    def mono(self, m):
        t = 1.0
        for g, ex in gens_of_mono(m):
            t *= self.gen(g) ** ex
        return t

    def poly(self, p):
        return sum(float(c) * self.mono(m) for m, c in p.items())

    def frac(self, f):
        r = self.poly(f.n)
        for k, ex in f.d:
            r /= self.poly(self.p.e.denoms[k]) ** ex
        return r

    def node(self, n):
        if isinstance(n, Fraction):
            return float(n)
        return self.frac(self.p.frac(n))

    def holds(self, cond):
        p, rel = cond
        v = self.poly(p)
        return {'<': v < 0, '<=': v <= 1e-12, '==': abs(v) < 1e-9, '!=': v != 0, '>': v > 0, '>=': v >= -1e-12}[rel]
