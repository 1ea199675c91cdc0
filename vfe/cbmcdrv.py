"""CBMC units: bounded model checking of the real C functions; counterexamples are replayed on an
ASan/UBSan build of the same sources."""
import os, re, json, time, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import driver as D

IGNORE = re.compile(r'same object violation|arithmetic overflow on unsigned|enum-range')
BASE = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check', '--unwinding-assertions', '--no-malloc-may-fail', '--object-bits', '10',
        '--json-ui', '--trace', '--trace-hex', '--slice-formula', '--drop-unused-functions']


def harness_names(u):
    return D.harness_names(u)


def build(work, u):
    srcs = [os.path.join(D.VERIF, 'harness', u['h'])] + [D.src_path(s, work) for s in u['src']] + \
           [os.path.join(D.LIB, 'vf_cbmc.c')] + [os.path.join(D.LIB, m) for m in u.get('models', [])]
    objs, ps = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(work, '%s.%d.gb' % (u['name'], i))
        cmd = ['goto-cc', '-std=gnu99', '-w', '-DVF_CBMC'] + D.INC + u.get('flags', []) + ['-c', s, '-o', o]
        ps.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    for s, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise D.BuildError('goto-cc failed on %s\n%s' % (s, out[-3000:]))
    gb = os.path.join(work, u['name'] + '.gb')
    rc, out = D.sh(['goto-cc', '-w'] + objs + ['-o', gb])
    if rc:
        raise D.BuildError('goto-cc link: ' + out[-2000:])
    return gb


def trace_inputs(tr):
    vals = []
    for s in tr:
        if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_in_value' and s.get('assignmentType') == 'variable':
            v = s['value']
            b = v.get('binary')
            if b is None:
                continue
            x = int(b, 2)
            if len(b) == 64 and b[0] == '1':
                x -= 1 << 64
            if not s.get('hidden') or True:
                vals.append((s.get('stepType'), s['sourceLocation'].get('line'), x))
    return [v[2] for v in vals]


def run_one(gb, exe, work, u, h, o, tier):
    t0 = time.time()
    res = dict(harness=h, unit=u['name'], violations=[], unknown=[], status='ok', paths=1, labels={}, stats={}, vacuous=True)
    unwind = str(o.get('unwind_thorough' if tier == 'thorough' and 'unwind_thorough' in o else 'unwind', u.get('unwind', 6)))
    cmd = ['cbmc', gb, '--function', h, '--unwind', unwind] + BASE + u.get('cbmcflags', [])
    if 'unwindset' in o:
        cmd += ['--unwindset', o['unwindset']]
    if o.get('solver', u.get('solver')):
        cmd += ['--' + o.get('solver', u.get('solver'))]
    if o.get('leak'):
        cmd += ['--memory-leak-check']
    if tier == 'thorough':
        cmd += u.get('thorough', [])
    budget = int(o.get('budget', 200 if tier == 'quick' else 800))
    res['bounds'] = dict(unwind=unwind, unwindset=o.get('unwindset', ''), note=o.get('note', ''))
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec "$@"', '-'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget)
    except subprocess.TimeoutExpired:
        res['status'] = 'timeout'
        res['unknown'].append('cbmc budget of %d s exceeded' % budget)
        res['wall'] = round(time.time() - t0, 2)
        return res
    try:
        js = json.loads(r.stdout)
    except Exception:
        res['unknown'].append('cbmc gave no result: ' + (r.stdout[-300:] + r.stderr[-300:]).replace('\n', ' '))
        res['wall'] = round(time.time() - t0, 2)
        return res
    nrep = 0
    st = dict(queries=0, unsat=0, sat=0, solver_s=0.0, insts=0)
    got = False
    for m in js:
        if 'messageText' in m:
            t = m['messageText']
            k = re.search(r'Runtime (?:Solver|decision procedure): ([\d.]+)s', t)
            if k:
                st['solver_s'] = round(st['solver_s'] + float(k.group(1)), 3)
                st['queries'] += 1
            k = re.search(r'size of program expression: (\d+) steps', t)
            if k:
                st['insts'] += int(k.group(1))
            if m.get('messageType') == 'ERROR':
                res['unknown'].append('cbmc: ' + t[:300])
        for p in m.get('result', []):
            got = True
            desc = p.get('description', '')
            if desc == 'VFREACH':
                if p['status'] == 'FAILURE' and res['vacuous']:
                    inp = os.path.join(work, '%s_%s_w.in' % (u['name'], h))
                    vals = trace_inputs(p.get('trace', []))
                    D.write_inputs(inp, {'@%d' % i: v for i, v in enumerate(vals)}, h)
                    rr, out = D.replay(exe, h, inp)
                    if rr == 'ok':
                        res['vacuous'] = False
                        res['witness'] = vals
                    elif rr in ('violation', 'crash'):
                        res['violations'].append(dict(harness=h, label='witness', input=inp, out=out[-1500:], detail='native witness run: ' + rr, values=vals))
                    else:
                        res['unknown'].append('witness replay: %s' % rr)
                continue
            if IGNORE.search(desc):
                continue
            user = p.get('property', '').startswith(h + '.') or '.assertion.' in p.get('property', '')
            label = desc if '.assertion.' in p.get('property', '') else 'memory safety / termination'
            L = res['labels'].setdefault(label, dict(proved=0, how={}, cex=0, unknown=0))
            if p['status'] == 'SUCCESS':
                L['proved'] += 1
                L['how']['sat'] = L['how'].get('sat', 0) + 1
                st['unsat'] += 1
            elif p['status'] == 'FAILURE':
                st['sat'] += 1
                nrep += 1
                if len(res['violations']) >= 3 or nrep > 12:
                    L['cex'] += 1
                    continue
                vals = trace_inputs(p.get('trace', []))
                inp = os.path.join(work, '%s_%s_%d.in' % (u['name'], h, nrep))
                D.write_inputs(inp, {'@%d' % i: v for i, v in enumerate(vals)}, 'harness %s: %s' % (h, desc))
                rr, out = D.replay(exe, h, inp)
                if rr in ('violation', 'crash', 'timeout'):
                    L['cex'] += 1
                    lab = label
                    k = re.search(r'VF-VIOLATION (.*) \S+ \S+$', out, re.M)
                    if k:
                        lab = k.group(1)
                    res['violations'].append(dict(harness=h, label=lab, input=inp, out=(rr + '\n' + out)[-1500:], detail='%s (%s)' % (desc, p.get('property')), values=vals))
                else:
                    L['unknown'] += 1
                    res['unknown'].append('%s: %s: counterexample not reproduced natively (%s)' % (p.get('property'), desc, rr))
            else:
                L['unknown'] += 1
                res['unknown'].append('%s: %s' % (desc, p['status']))
    if not got:
        res['unknown'].append('cbmc produced no property results: ' + r.stderr[-200:])
    res['stats'] = st
    res['fns'] = u.get('fns', []) + [os.path.basename(s) for s in u['src']]
    res['wall'] = round(time.time() - t0, 2)
    return res


def run(units, work, tier, only=None, jobs=8):
    out = []
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        fs = []
        for u in units:
            gb = build(work, u)
            allnames = harness_names(u)
            exe = D.build_native(work, u, allnames, san=u.get('san', True))
            ho = D.harness_opts(u)
            for n in allnames:
                if only and not re.search(only, n):
                    continue
                o = ho.get(n, {})
                if o.get('tier') == 'thorough' and tier != 'thorough':
                    continue
                fs.append(ex.submit(run_one, gb, exe, work, u, n, o, tier))
        for f in fs:
            out.append(f.result())
    return out


def replay(work, u, h, inp):
    return D.replay(D.build_native(work, u, harness_names(u), san=u.get('san', True)), h, inp)
