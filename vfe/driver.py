"""Build harness + /repo sources to IR and natively, run the engine per harness, replay
counterexamples, write evidence."""
import os, sys, re, json, time, subprocess, shutil, tempfile, hashlib, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
INC = ['-I', LIB + '/config', '-I', REPO + '/include', '-I', REPO, '-I', REPO + '/src', '-I', REPO + '/src/mac', '-I', LIB, '-I', VERIF + '/harness',
       '-DHAVE_CONFIG_H']
IRFLAGS = ['-w', '-O1', '-Xclang', '-disable-lifetime-markers', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-builtin',
           '-fno-math-errno', '-fno-strict-aliasing', '-fno-exceptions', '-DNDEBUG_VF', '-DVF_IR']
# libstdc++ templates are instantiated in the module; what stays out of line is in lib/cxx_model.cpp
CXXIR = ['-fno-rtti', '-fno-threadsafe-statics', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0']
NATFLAGS = ['-w', '-O1', '-g', '-fno-strict-aliasing', '-ffunction-sections', '-fdata-sections']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def is_cpp(s):
    return s.endswith('.cpp') or s.endswith('.cc')


def src_path(s, work):
    if s.startswith('gen:'):
        return os.path.join(work, s[4:])
    if s.startswith('verif:'):
        return os.path.join(VERIF, s[6:])
    return os.path.join(REPO, s)


def compile_ir(work, unit):
    """-> path of the linked bitcode"""
    srcs = [os.path.join(VERIF, 'harness', unit['h'])] + [src_path(s, work) for s in unit['src']] + \
           [os.path.join(LIB, m) for m in ['once_model.c'] + unit.get('models', []) + (['cxx_model.cpp'] if any(is_cpp(x) for x in unit['src']) else [])]
    outs = []
    procs = []
    for i, s in enumerate(srcs):
        o = os.path.join(work, '%s.%d.bc' % (unit['name'], i))
        cc = ['clang++', '-std=gnu++14'] if is_cpp(s) else ['clang', '-std=gnu99']
        cmd = cc + IRFLAGS + (CXXIR if is_cpp(s) else []) + INC + unit.get('flags', []) + unit.get('irflags', []) + ['-c', '-emit-llvm', s, '-o', o]
        procs.append((s, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        outs.append(o)
    for s, cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError('clang failed on %s\n%s\n%s' % (s, ' '.join(cmd), out[-3000:]))
    bc = os.path.join(work, unit['name'] + '.bc')
    # definitions in later files (models) override nothing: they only fill externals
    rc, out = sh(['llvm-link-18', '-o', bc] + outs)
    if rc:
        raise BuildError('llvm-link: ' + out[-3000:])
    return bc


def harness_names(unit):
    t = open(os.path.join(VERIF, 'harness', unit['h'])).read()
    names = re.findall(r'^\s*(?:VF_API\s+)?void\s+(h_\w+)\s*\(\s*void\s*\)', t, re.M)
    m = re.findall(r'^\s*VF_HARNESS\(\s*(\w+)', t, re.M)
    names += ['h_' + x for x in m]
    only = unit.get('only')
    if only:
        names = [n for n in names if re.match(only, n)]
    return names


def harness_opts(unit):
    """options from comments:  // vf: <harness> key=value ..."""
    t = open(os.path.join(VERIF, 'harness', unit['h'])).read()
    r = {}
    for m in re.finditer(r'//\s*vf:\s*(h_\w+)\s+(.*)', t):
        d = {}
        for kv in m.group(2).split():
            k, v = kv.split('=', 1)
            try:
                v = int(v)
            except ValueError:
                pass
            d[k] = v
        r[m.group(1)] = d
    return r


def build_native(work, unit, names, san=False):
    srcs = [os.path.join(VERIF, 'harness', unit['h'])] + [src_path(s, work) for s in unit['src'] + unit.get('natsrc', [])] + \
           [os.path.join(LIB, 'vf_native.c')] + [os.path.join(LIB, m) for m in unit.get('natmodels', [])]
    tab = os.path.join(work, unit['name'] + '_tab.c')
    with open(tab, 'w') as f:
        for n in names:
            f.write('extern void %s(void);\n' % n)
        f.write('struct vf_ent { const char *name; void (*fn)(void); };\nstruct vf_ent vf_table[] = {\n')
        for n in names:
            f.write('{"%s", %s},\n' % (n, n))
        f.write('{0,0}};\n')
    srcs.append(tab)
    sanf = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero,alignment,shift,signed-integer-overflow'] if san else []
    objs = []
    procs = []
    for i, s in enumerate(srcs):
        o = os.path.join(work, '%s.n%d.o' % (unit['name'], i))
        cc = ['g++', '-std=gnu++14'] if is_cpp(s) else ['gcc', '-std=gnu99']
        if s.endswith('.F90') or s.endswith('.f90') or s.endswith('.f'):
            cc = ['gfortran']
            cmd = cc + ['-O1', '-g', '-w', '-J', work] + INC + ['-c', s, '-o', o]
        else:
            cmd = cc + NATFLAGS + sanf + INC + unit.get('flags', []) + ['-c', s, '-o', o]
        procs.append((s, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    for s, cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError('native compile failed on %s\n%s' % (s, out[-3000:]))
    exe = os.path.join(work, unit['name'] + '.exe')
    link = 'g++' if any(is_cpp(s) for s in srcs) else 'gcc'
    rc, out = sh([link] + sanf + objs + ['-Wl,--gc-sections', '-o', exe] + unit.get('libs', ['-llapack', '-lblas']) + ['-lpthread', '-lm'])
    if rc:
        raise BuildError('native link failed\n' + out[-3000:])
    return exe


def write_inputs(path, vals, header=''):
    with open(path, 'w') as f:
        if header:
            f.write('# %s\n' % header.replace('\n', ' '))
        for k, v in sorted(vals.items()):
            f.write('%s %s\n' % (k, repr(v) if isinstance(v, int) else '%.17g' % v))


def replay(exe, fn, inp, tol=None, loose=None):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=3'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=3'
    if tol:
        env['VF_TOL'] = str(tol)
    if loose:
        env['VF_LOOSE'] = str(loose)
    try:
        r = subprocess.run([exe, fn, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=90, preexec_fn=unlimit)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    out = r.stdout.decode('utf8', 'replace')
    if r.returncode == 0:
        return 'ok', out
    if r.returncode == 1 and 'VF-VIOLATION' in out:
        return 'violation', out
    if r.returncode == 4:
        return 'assume', out
    if r.returncode == 5:
        return 'timeout', out
    if r.returncode == 3 or r.returncode < 0 or 'VF-CRASH' in out or r.returncode == 1:
        return 'crash', out + r.stderr.decode('utf8', 'replace')[-1500:]
    return 'other%d' % r.returncode, out


def unlimit():
    import resource      # the sanitizer reserves a large shadow range
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


class Timeout(Exception):
    pass


def run_one(job):
    """worker: one harness function"""
    unit, fn, bc, exe, work, opts, seed, budget = job
    import signal
    res = dict(harness=fn, unit=unit['name'], obligations=[], violations=[], unknown=[], status='ok', paths=0)
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.RLIM_INFINITY))
    except Exception:
        pass

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(budget) + 5)
    eng = None
    try:
        from . import engine as E
        Budget = __import__('vfe.reals', fromlist=['Budget']).Budget
        if 'max_terms' in opts:
            Budget.max_terms = opts['max_terms']
        eng = E.Engine(bc, seed=seed, timeouts=(opts.get('tb', 1500), opts.get('tc', 8000)), opts=opts)
        labels = {}
        nrep = [0]
        wit = dict(tried=0, ok=0)

        def confirm(o, vals):
            nrep[0] += 1
            inp = os.path.join(work, '%s_%s_%d.in' % (unit['name'], fn, nrep[0]))
            write_inputs(inp, vals, 'harness %s label %s' % (fn, o))
            r, out = replay(exe, fn, inp, opts.get('tol'), 1e-4 if o == 'witness' else None)
            if os.environ.get("VF_SHOW_CONFIRM"):
                sys.stderr.write("%s -> %s\n%s\n%s\n" % (o, r, open(inp).read()[:1500], out[-800:]))
            return r, out, inp

        def on_path(p):
            res['paths'] += 1
            for o in p.checks:
                L = labels.setdefault(o.label, dict(proved=0, how={}, cex=0, unknown=0))
                if o.status == 'proved':
                    L['proved'] += 1
                    L['how'][o.how] = L['how'].get(o.how, 0) + 1
                elif o.status == 'cex?':
                    conf = False
                    for vals in o.cands[:6]:
                        r, out, inp = confirm(o.label, vals)
                        if r in ('violation', 'crash'):
                            res['violations'].append(dict(harness=fn, label=o.label, input=inp, out=out[-1500:], detail=o.detail, values=vals))
                            conf = True
                            break
                    if conf:
                        L['cex'] += 1
                        if len(res['violations']) >= opts.get('max_viol', 4):
                            return 'stop'
                    elif not o.cands and o.detail.startswith('condition false'):
                        L['proved'] += 1     # path condition unsatisfiable
                        L['how']['smt-path'] = L['how'].get('smt-path', 0) + 1
                    else:
                        L['unknown'] += 1
                        res['unknown'].append('%s: %s (candidate not reproduced)' % (o.label, o.detail))
                else:
                    L['unknown'] += 1
                    res['unknown'].append('%s: %s' % (o.label, o.detail))
            if p.status in ('memerr', 'abort', 'undef', 'unreachable', 'exception', 'recursion', 'divzero'):
                from . import checks as C
                conf = False
                for vals in C.concretise(p, None)[:6]:
                    r, out, inp = confirm(p.status, vals)
                    if r in ('violation', 'crash'):
                        res['violations'].append(dict(harness=fn, label=p.status, input=inp, out=out[-1500:], detail=p.msg, values=vals))
                        conf = True
                        break
                if conf:
                    if len(res['violations']) >= opts.get('max_viol', 4):
                        return 'stop'
                else:
                    # was the path feasible at all?
                    res['unknown'].append('%s: %s (not reproduced)' % (p.status, p.msg))
            elif p.status == 'steps' and res.setdefault('steps_tried', 0) < 3:
                # possibly an endless loop: run the path's inputs natively
                from . import checks as C
                res['steps_tried'] += 1
                for vals in C.concretise(p, None)[:2]:
                    r, out, inp = confirm('steps', vals)
                    if r in ('violation', 'crash', 'timeout'):
                        res['violations'].append(dict(harness=fn, label='does not terminate' if r == 'timeout' else 'steps', input=inp, out=out[-1500:], detail=p.msg, values=vals))
                        return 'stop'
                res['unknown'].append('%s: %s' % (p.status, p.msg))
            elif p.status in ('steps', 'cut', 'toobig'):
                res['unknown'].append('%s: %s' % (p.status, p.msg))
            elif p.status == 'done' and p.checks and wit['ok'] < 1 and wit['tried'] < 6:
                from . import checks as C
                wit['tried'] += 1
                for vals in C.concretise(p, None, tries=200)[:2]:
                    r, out, inp = confirm('witness', vals)
                    if r == 'ok' and 'reach=0' not in out:
                        wit['ok'] += 1
                        res['witness'] = vals
                        break
                    if r in ('violation', 'crash'):
                        # the native run disagrees with the symbolic verdict on this path
                        res['violations'].append(dict(harness=fn, label='witness', input=inp, out=out[-1500:], detail='native witness run', values=vals))
                        break
        eng.on_path = on_path
        eng.run(fn, deadline=t0 + budget)
        if eng.incomplete and eng.incomplete != 'stopped':
            res['unknown'].append('exploration incomplete: ' + eng.incomplete)
        res['labels'] = labels
        res['vacuous'] = (wit['ok'] == 0)
        if not labels:
            res['unknown'].append('no obligation reached')
        for f in os.listdir(work):
            if f.startswith('%s_%s_' % (unit['name'], fn)) and f.endswith('.in'):
                if not any(v['input'].endswith('/' + f) for v in res['violations']):
                    os.unlink(os.path.join(work, f))
    except Timeout:
        res['status'] = 'timeout'
        res['unknown'].append('harness budget exceeded')
        res.setdefault('labels', {})
    except MemoryError:
        res['status'] = 'memory'
        res['unknown'].append('memory budget exceeded')
    except Exception as ex:
        res['status'] = 'error'
        res['unknown'].append('%s: %s' % (type(ex).__name__, ex))
        res['trace'] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
    if eng is not None:
        s = eng.st
        res['stats'] = dict(queries=s.queries, unsat=s.unsat, sat=s.sat, unknown=s.unknown, ring=s.ring, ring_confirmed_by_z3=s.xring, insts=s.insts, checks=s.checks,
                            solver_s=round(s.time, 3))
        res['fns'] = sorted(eng.fns_executed)
    res['wall'] = round(time.time() - t0, 2)
    return res


def run_units(units, work, seed, tier, budget_default=None, only=None, jobs=8):
    jobsl = []
    for u in units:
        bc = compile_ir(work, u)
        names = harness_names(u)
        if only:
            names = [n for n in names if re.search(only, n)]
        allnames = harness_names(u)
        exe = build_native(work, u, allnames, san=u.get('san', False))
        ho = harness_opts(u)
        for n in names:
            o = dict(u.get('opts', {}))
            o.update(ho.get(n, {}))
            if o.get('tier') == 'thorough' and tier != 'thorough':
                continue
            b = o.get('budget', budget_default or (150 if tier == 'quick' else 600))
            if tier == 'thorough':
                b *= 3
                o['tc'] = o.get('tc', 8000) * 4
                o['xbudget'] = 20.0
            jobsl.append((u, n, bc, exe, work, o, seed, b))
    out = []
    # longest first is unknown: keep order, one process per harness (memory and solver state isolated)
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_one, jobsl):
            out.append(r)
    return out
