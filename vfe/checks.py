"""Obligations: recorded on the path where they are reached and decided there."""
import math, random, time
from fractions import Fraction
import z3
from .reals import *

TOL = Fraction(1, 10**7)


class Ob:
    __slots__ = ('label', 'kind', 'status', 'how', 'cands', 'detail', 'path')

    def __init__(self, label, kind):
        self.label = label
        self.kind = kind
        self.status = 'open'
        self.how = ''
        self.cands = []
        self.detail = ''
        self.path = None


def _new(p, label, kind):
    o = Ob(label, kind)
    p.checks.append(o)
    p.e.st.checks += 1
    return o


def reach(p, label):
    o = _new(p, label, 'reach')
    o.status = 'proved'
    o.how = 'reach'


def check_eq(p, label, a, b, tol=None):
    from .engine import is_undef
    e = p.e
    o = _new(p, label, 'eq')
    if is_undef(a) or is_undef(b):
        u = a if is_undef(a) else b
        o.status = 'cex?'
        o.detail = 'undefined value: %s' % getattr(u, 'why', 'undef')
        o.cands = concretise(p, None)
        return
    d = e.sub(a, b)
    f = p.frac(d)
    if not f.n:
        o.status = 'proved'
        o.how = 'ring'
        e.st.ring += 1
        r = zcross(p, d)
        if r == 'unsat':
            o.how = 'ring+z3'
        elif r == 'sat':
            o.status = 'unknown'
            o.detail = 'normal form is zero but z3 disagrees'
        return
    t = tol if tol is not None else TOL
    if f.is_const():
        c = f.const()
        if abs(c) <= t:
            o.status = 'proved'
            o.how = 'const'
            return
        o.status = 'cex?'
        o.detail = 'constant difference %g' % float(c)
        o.cands = concretise(p, None)
        return
    # cheap concretisation first: a normal form that is not zero is usually a real difference
    cs = concretise(p, lambda ev: abs(ev.frac(f)), thresh=max(1e-5, 10 * float(t)), tries=40)
    if cs:
        # confirm with the solver where it can follow
        o.status = 'cex?'
        o.cands = cs
        o.detail = 'difference not identically zero'
        return
    up = p.cmp_poly(p.frac(e.sub(d, t)))
    lo = p.cmp_poly(p.frac(e.add(d, t)))
    r1, m1 = p.query([(up, '>')], e.t_check, want_model=True)
    r2, m2 = (None, None)
    if r1 != 'sat':
        r2, m2 = p.query([(lo, '<')], e.t_check, want_model=True)
    if r1 == 'unsat' and r2 == 'unsat':
        o.status = 'proved'
        o.how = 'smt'
        return
    m = m1 or m2
    if m is not None:
        o.status = 'cex?'
        o.cands = from_model(p, m) + concretise(p, lambda ev: abs(ev.frac(f)), thresh=float(t), tries=400)
        o.detail = 'solver model'
        return
    o.cands = concretise(p, lambda ev: abs(ev.frac(f)), thresh=float(t), tries=600)
    o.status = 'cex?' if o.cands else 'unknown'
    o.detail = 'solver %s/%s' % (r1, r2)


def zcross(p, d, timeout=250):
    """independent z3 verdict on the unnormalised difference of a ring-closed obligation"""
    e = p.e
    if isinstance(d, Fraction) or e.xbudget <= 0:
        return None
    t0 = time.time()
    memo = {}
    gens = set()
    side = []
    stack = [d]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        pend = [a for a in n.args if isinstance(a, N) and a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        if len(memo) > 3000:
            return None
        if n.op == 'gen':
            g = n.args[0]
            gens.add(g)
            memo[n.id] = e.gens[g].z3
            continue
        a = [z3.RatVal(x.numerator, x.denominator) if isinstance(x, Fraction) else memo[x.id] for x in n.args]
        if n.op == '+':
            z = a[0] + a[1]
        elif n.op == '*':
            z = a[0] * a[1]
        elif n.op == 'neg':
            z = -a[0]
        elif n.op == '/':
            z = z3.Real('dv%d' % n.id)
            side.append(z * a[1] == a[0])
            side.append(a[1] != 0)
        else:
            return None
        memo[n.id] = z
    from .engine import RCMP
    facts, cs, _ = p.closure(gens, p.conds)
    facts = facts + [RCMP[r](p.zpoly(q)) for q, r in cs]
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*facts)
    s.add(*side)
    s.add(memo[d.id] != 0)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    dt = time.time() - t0
    e.xbudget -= dt
    e.st.time += dt
    e.st.queries += 1
    if r == 'unsat':
        e.st.unsat += 1
        e.st.xring += 1
    elif r == 'unknown':
        e.st.unknown += 1
    return r


def check_le(p, label, a, b):
    from .engine import is_undef
    e = p.e
    o = _new(p, label, 'le')
    if is_undef(a) or is_undef(b):
        o.status = 'cex?'
        o.cands = concretise(p, None)
        o.detail = 'undefined value'
        return
    d = e.sub(a, b)
    f = p.frac(d)
    if f.is_const():
        if f.const() <= 0:
            o.status = 'proved'
            o.how = 'const'
        else:
            o.status = 'cex?'
            o.cands = concretise(p, None)
        return
    q = p.cmp_poly(f)
    r, m = p.query([(q, '>')], e.t_check, want_model=True)
    if r == 'unsat':
        o.status = 'proved'
        o.how = 'smt'
        return
    o.cands = (from_model(p, m) if m is not None else []) + concretise(p, lambda ev: ev.frac(f), thresh=1e-6, tries=200)
    o.status = 'cex?' if (m is not None or o.cands) else 'unknown'
    o.detail = 'solver ' + r


def check_true(p, label, c):
    from .engine import is_undef
    o = _new(p, label, 'true')
    if is_undef(c):
        o.status = 'cex?'
        o.detail = 'undefined condition'
        o.cands = concretise(p, None)
        return
    if isinstance(c, int):
        if c:
            o.status = 'proved'
            o.how = 'const' if not p.conds and not p.iconds else 'smt-path'
            return
        # path condition itself is the query: is this path feasible?
        o.status = 'cex?'
        o.detail = 'condition false on path'
        o.cands = concretise(p, None)
        return
    b = p.tobool(c)
    r, m = p.z3check(p.iconds + [z3.Not(b)], 60000, True)
    if r == 'unsat':
        o.status = 'proved'
        o.how = 'smt'
        return
    if m is not None:
        o.status = 'cex?'
        o.cands = concretise(p, None, imodel=m)
        o.detail = 'solver model'
    else:
        o.status = 'unknown'


# ------------------------------------------------------------------ concretisation
UNITS3 = [(1, 2, 2, 3), (2, 3, 6, 7), (4, 4, 7, 9), (2, 6, 9, 11), (1, 4, 8, 9), (6, 6, 7, 11), (3, 4, 12, 13), (2, 5, 14, 15)]


def rnd_input(rng, lo, hi):
    if lo is not None and hi is not None:
        lo, hi = float_of(lo), float_of(hi)
        r = rng.random()
        if r < .2:
            # near zero / endpoints
            x = rng.choice([lo, hi, lo + (hi - lo) * 1e-6, hi - (hi - lo) * 1e-6, (lo + hi) / 2])
            if lo < 0 < hi and rng.random() < .5:
                x = rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2)
            return x
        return rng.uniform(lo, hi)
    r = rng.random()
    if r < .1:
        return 0.0
    if r < .2:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -1)
    if r < .3:
        return float(rng.randint(-3, 3))
    x = rng.gauss(0, 1.5)
    if lo is not None:
        x = float_of(lo) + abs(x)
    if hi is not None:
        x = float_of(hi) - abs(x)
    return x


def float_of(v):
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, N):
        if v.op == 'gen' and v.args[0] == 0:
            return math.pi
        if v.op == '*':
            return float_of(v.args[0]) * float_of(v.args[1])
        if v.op == 'neg':
            return -float_of(v.args[0])
        if v.op == '+':
            return float_of(v.args[0]) + float_of(v.args[1])
        if v.op == '/':
            return float_of(v.args[0]) / float_of(v.args[1])
    return float(v)


def base_inputs(p, imodel=None):
    vals = {}
    need_int = any(i[1] == 'int' for i in p.inputs)
    if need_int and imodel is None:
        r, imodel = p.z3check(p.iconds, 5000, True)
    for name, kind, g, lo, hi in p.inputs:
        if kind == 'int':
            if imodel is not None:
                v = imodel.eval(g, model_completion=True).as_long()
                vals[name] = v - (1 << 64) if v >> 63 else v
            else:
                vals[name] = lo
        elif kind == 'pick':
            vals[name] = g
    return vals


def concretise(p, score, thresh=0.0, tries=60, imodel=None, want=3):
    """float inputs satisfying the path condition (numerically) with score>thresh"""
    rng = random.Random(p.e.seed * 7919 + len(p.trail))
    out = []
    base = base_inputs(p, imodel)
    rin = [i for i in p.inputs if i[1] in ('real', 'unit')]
    if not rin:
        if score is not None:
            try:
                s = score(p.numeric({}))
                if not s > thresh:
                    return []
            except (ZeroDivisionError, KeyError, ValueError, OverflowError):
                pass
        return [base]
    best = []
    for _ in range(tries):
        asg = {}
        vals = dict(base)
        for name, kind, g, lo, hi in rin:
            if kind == 'unit':
                v = [rng.gauss(0, 1) for _ in g]
                r = rng.random()
                if r < .15:
                    j = rng.randrange(len(g))
                    v = [(1.0 if k == j else rng.choice([0, 1]) * rng.gauss(0, 1e-5)) for k in range(len(g))]
                    if rng.random() < .5:
                        v = [-x for x in v]
                elif r < .3:
                    v[rng.randrange(len(g))] = 0.0
                nrm = math.sqrt(sum(x * x for x in v)) or 1.0
                v = [x / nrm for x in v]
                for gg, x in zip(g, v):
                    asg[gg] = x
                for k, x in enumerate(v):
                    vals[p.e.gens[g[k]].name] = x
            else:
                x = rnd_input(rng, lo, hi)
                asg[g] = x
                vals[name] = x
        try:
            ev = p.numeric(asg)
            if not all(ev.holds(c) for c in p.conds):
                continue
            s = score(ev) if score else 1.0
        except (ZeroDivisionError, KeyError, ValueError, OverflowError):
            continue
        if s == s and s > thresh:
            best.append((s, vals))
            if len(best) >= 12:
                break
    best.sort(key=lambda t: -t[0])
    out = [v for s, v in best[:want]]
    if not out and score is None:
        # ask the solver for a model of the path condition
        gens = set()
        for c in p.conds:
            gens.update(pgens(c[0]))
        facts, cs, gset = p.closure(gens, p.conds)
        from .engine import RCMP
        r, m = p.z3check([RCMP[r](p.zpoly(q)) for q, r in cs] + facts, p.e.t_check, True)
        if m is not None:
            out = from_model(p, m, base)
        elif r == 'unsat':
            return []
    return out


def zval(m, x):
    v = m.eval(x, model_completion=True)
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return v.numerator_as_long() / v.denominator_as_long()
    return 0.0


def from_model(p, m, base=None):
    """candidate inputs from a z3 model; angles are also re-derived from their sin/cos"""
    base = base or base_inputs(p)
    vals = dict(base)
    alt = dict(base)
    changed = False
    for name, kind, g, lo, hi in p.inputs:
        if kind == 'real':
            x = zval(m, p.e.gens[g].z3)
            vals[name] = x
            alt[name] = x
            mono = 1 << (FB * g)
            for key in p.e.atomK:
                if key[0] == 'm' and key[1] == mono:
                    K = p.e.atomK[key]
                    sg = p.e.gen_by_key.get(('sin', key, K))
                    cg = p.e.gen_by_key.get(('cos', key, K))
                    if sg is not None:
                        a = K * math.atan2(zval(m, p.e.gens[sg].z3), zval(m, p.e.gens[cg].z3))
                        # same branch as the model's own angle value
                        k = round((x - a) / (2 * math.pi * K))
                        alt[name] = (a + 2 * math.pi * K * k) / float(key[2])
                        changed = True
        elif kind == 'unit':
            v = [zval(m, p.e.gens[h].z3) for h in g]
            nrm = math.sqrt(sum(x * x for x in v)) or 1.0
            for k, x in enumerate(v):
                vals[p.e.gens[g[k]].name] = x / nrm
                alt[p.e.gens[g[k]].name] = x / nrm
    return [vals, alt] if changed else [vals]
