#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] [-v]
Decide one property (see suites.py) on /repo's current working tree."""
import os, sys, json, time, shutil, tempfile, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vfe import driver as D
import suites


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = suites.PROPS[a.prop]
    wroot = os.path.join(HERE, '.work')
    os.makedirs(wroot, exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.prop + '-', dir=wroot)
    rc = 2
    try:
        rc = run(a, P, work, seed, t0)
    except D.BuildError as ex:
        print('BUILD-ERROR', ex)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known():
    f = os.path.join(HERE, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else {'known': [], 'fixed': []}


def run(a, P, work, seed, t0):
    res = []
    cb = []
    if P.get('prepare'):
        P['prepare'](work)
    if P.get('units'):
        res = D.run_units([dict(u) for u in P['units']], work, seed, a.tier, only=a.only, jobs=a.j)
    if P.get('cbmc'):
        from vfe import cbmcdrv
        cb = cbmcdrv.run(P['cbmc'], work, a.tier, only=a.only, jobs=a.j)
    viol = []
    unknown = []
    for r in res + cb:
        viol += [dict(v, unit=r['unit']) for v in r['violations']]
        unknown += ['%s: %s' % (r['harness'], u) for u in r['unknown']]
        if r.get('vacuous') and not r['violations']:
            unknown.append('%s: no native witness found for a completed path' % r['harness'])
        if a.v:
            n = sum(l['proved'] for l in r.get('labels', {}).values())
            print('  %-34s paths=%-4d proved=%-5d viol=%d unk=%d %s %.1fs q=%s' % (
                r['harness'], r['paths'], n, len(r['violations']), len(r['unknown']), r['status'], r['wall'],
                r.get('stats', {}).get('queries')))
            for u in r['unknown'][:6]:
                print('      ?', u[:300])
            if r.get('trace'):
                print(r['trace'])
            for v in r['violations'][:6]:
                print('      !', v['label'], v['detail'], '|', v['out'].strip()[:300])
    kf = known()
    newviol = []
    seen = set()
    for v in viol:
        k = next((k for k in kf['known'] if k['property'] == a.prop and k['harness'] == v['harness'] and
                  (k['label'] == '*' or v['label'] == k['label'] or v['label'].startswith(k['label'] + '['))), None)
        if k:
            if (k['harness'], k['label']) not in seen:
                seen.add((k['harness'], k['label']))
                print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
        else:
            newviol.append(v)
    rdir = os.path.join(HERE, 'replays', a.prop)
    if newviol:
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(newviol[:5]):
            dst = os.path.join(rdir, '%s_%d.in' % (v['harness'], i))
            if os.path.exists(v['input']):
                shutil.copy(v['input'], dst)
            with open(dst + '.txt', 'w') as f:
                f.write('property %s\nharness %s (unit %s)\nlabel %s\n%s\n\nnative replay output:\n%s\n\nreplay with: %s/replay.py %s %s %s\n' % (
                    a.prop, v['harness'], v['unit'], v['label'], v['detail'], v['out'], HERE, a.prop, v['harness'], dst))
            print('  violated: %s %s: %s' % (v['harness'], v['label'], v['detail']))
            print('   ', '\n    '.join(v['out'].strip().splitlines()[:4]))
            print('VIOLATION property=%s replay=%s' % (a.prop, dst))
    tot = sum(sum(l['proved'] for l in r.get('labels', {}).values()) for r in res + cb)
    if not a.only:
        evidence(a, P, res, cb, viol, newviol, unknown, seed, t0)
    for u in unknown[:20]:
        print('INCONCLUSIVE', u[:300])
    print('%s: %d harnesses, %d obligations discharged, %d violations, %d inconclusive, %.1fs' % (
        a.prop, len(res) + len(cb), tot, len(newviol), len(unknown), time.time() - t0))
    if newviol:
        return 1
    if tot == 0:
        return 2
    return 0


def evidence(a, P, res, cb, viol, newviol, unknown, seed, t0):
    fns = set()
    st = dict(queries=0, unsat=0, sat=0, unknown=0, ring=0, insts=0, checks=0, solver_s=0.0)
    for r in res + cb:
        fns.update(r.get('fns', []))
        for k, v in r.get('stats', {}).items():
            st[k] = round(st.get(k, 0) + v, 3)
    ob = sum(st2['proved'] + st2['cex'] + st2['unknown'] for r in res + cb for st2 in r.get('labels', {}).values())
    dis = sum(st2['proved'] for r in res + cb for st2 in r.get('labels', {}).values())
    samples = []
    for r in (res + cb)[:400]:
        if r.get('witness') and len(samples) < 4:
            samples.append(dict(harness=r['harness'], reachability_witness_inputs=r['witness']))
    cov = dict(obligations=ob, discharged=dis, evaluations=sum(r['paths'] for r in res + cb),
               distinct_nontrivial=sum(len(r.get('labels', {})) for r in res + cb),
               rule='one evaluation = one feasible symbolic path of a harness (or one CBMC property set); non-trivial = a distinct assertion label reached with a solver verdict',
               samples=samples,
               explanation='symbolic execution of clang IR of the listed functions over exact reals/bit-vectors; z3 decides path feasibility and assertions not closed by ring normal form; CBMC (SAT) for the integer/memory units',
               functions_encoded=sorted(f for f in fns if not f.startswith('h_')),
               harnesses=[dict(name=r['harness'], paths=r['paths'], wall_s=r['wall'], labels={k: v['proved'] for k, v in r.get('labels', {}).items()},
                               unknown=r['unknown'][:5], stats=r.get('stats'), bounds=r.get('bounds'), vacuity_witness=bool(r.get('witness'))) for r in res + cb],
               solver=st, inconclusive=unknown[:50],
               bounds=P.get('bounds', ''),
               checker_cmd='python3-vt check.py %s --tier %s' % (a.prop, a.tier),
               trusted_base=['clang 18 front end', 'z3 5.3 / CBMC 6.11', 'vfe engine and its libm/libc/BLAS models', 'doubles idealised as exact reals where stated'])
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level=P.get('level', 'model_checking'),
              coverage=cov, assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(newviol))
    if ev['level'] == 'model_checking':
        cov['states'] = int(st['insts'])
        cov['transitions'] = int(st['queries'])
        cov['traces_validated_against_impl'] = sum(1 for r in res + cb if r.get('witness')) + len(viol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    main()
