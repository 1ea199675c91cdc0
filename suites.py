TF = ['src/tf/quat.c', 'src/tf/conv.c', 'src/tf/tfmatrix.c', 'src/tf.c']
LA = ['src/la.c', 'src/la2.c', 'src/mat.c', 'src/mem.c', 'src/math.c']
M = ['blas_model.c']


def u(name, h, src, **kw):
    return dict(name=name, h=h, src=src, models=M, **kw)


def euler_gen(work):
    """regenerate euler.c from the maxima sources, as the build does"""
    import shutil, subprocess, os, glob
    from vfe.driver import REPO, BuildError
    d = os.path.join(work, 'mac')
    os.makedirs(d)
    for f in glob.glob(REPO + '/src/mac/*.mac'):
        shutil.copy(f, d)
    r = subprocess.run(['maxima', '--very-quiet', '-b', 'euler77.mac'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if not os.path.exists(d + '/euler.f'):
        raise BuildError('maxima produced no euler.f: ' + r.stdout.decode('utf8', 'replace')[-800:])
    with open(d + '/euler.f') as i, open(work + '/euler.c', 'w') as o:
        if subprocess.run(['f2c'], stdin=i, stdout=o, stderr=subprocess.PIPE).returncode:
            raise BuildError('f2c failed on euler.f')
    s = open(work + '/euler.c').read().replace('__(', '_(')     # one trailing underscore, as gfortran emits
    open(work + '/euler.c', 'w').write(s)


def flex_gen(work):
    """regenerate the Wavefront scanners as the build does; their stdio calls are redirected to the harness"""
    import subprocess
    from vfe.driver import REPO, BuildError
    for n in ('wavefront', 'mtl'):
        r = subprocess.run(['flex', '-t', '%s/src/wavefront/%s.l' % (REPO, n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise BuildError('flex failed: ' + r.stderr.decode('utf8', 'replace')[-800:])
        pre = '#include <stdio.h>\n#include <unistd.h>\nFILE *wf_fopen(const char *, const char *); int wf_fclose(FILE *); int wf_fileno(FILE *); ssize_t wf_read(int, void *, size_t);\n'
        pre += ''.join('#define %s wf_%s\n' % (f, f) for f in ('fopen', 'fclose', 'fileno', 'read')) + '#line 1 "%s.c"\n' % n
        open(work + '/%s.c' % n, 'w').write(pre + r.stdout.decode())


RX = ['src/rx/sg_api.cpp', 'src/rx/scenegraph.cpp', 'src/rx/scene_sub.cpp', 'src/rx/scene_kin.c', 'src/rx/scene_geom.c', 'src/rx/geom_opt.c', 'src/refcount.c'] + TF + LA

import os
FCL = ['-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'fclstub'), '-I', '/usr/include/eigen3', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_MAX_ALIGN_BYTES=0', '-DEIGEN_NO_DEBUG', '-fno-sanitize=vptr']

MP = ['-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'omplstub'), '-I', os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'include/amino/ompl-compat2'), '-fno-sanitize=vptr']

PROPS = {
 'P01': dict(units=[u('qalg', 'qalg.c', TF), u('dalg', 'se3.c', TF + LA, only='h_(duqu_(mul|mat|norm|vnorm)|pure)$')]),
 'P02': dict(units=[u('rotrep', 'rotrep.c', TF + LA)]),
 'P03': dict(units=[u('se3', 'se3.c', TF + LA)]),
 'P04': dict(units=[u('explog', 'explog.c', TF + LA)]),
 'P05': dict(units=[u('vel', 'vel.c', TF + LA)]),
 'P06': dict(units=[u('integ', 'integ.c', TF + LA)]),
 'P07': dict(prepare=euler_gen, units=[u('euler', 'euler.c', TF + LA + ['gen:euler.c', 'src/mac/euler_f2c.c'])]),
 'P08': dict(units=[u('planar', 'planar.c', TF + LA + ['src/tf/tfp.c'])]),
 'P09': dict(units=[u('dh', 'dh.c', TF + LA)]),
 'P10': dict(units=[u('slerp', 'slerp.c', TF + LA)]),
 'P11': dict(units=[u('frames', 'frames.c', TF + LA + ['src/heap.c'])]),
 'P12': dict(units=[u('jac', 'jac.c', TF + LA)]),
 'P13': dict(units=[u('la', 'la.c', LA + ['src/are.c', 'src/heap.c'])]),
 'P14': dict(units=[u('mat', 'mat.c', LA, san=True)]),
 'P15': dict(units=[u('assign', 'assign.c', LA, san=True)]),
 'P16': dict(units=[u('stat', 'stat.c', LA + ['src/heap.c', 'src/cv.c'])]),
 'P17': dict(units=[u('region', 'region.c', ['src/mem.c'], san=True, opts=dict(budget=100, symgep=1))]),
 'P18': dict(units=[u('poollist', 'poollist.c', ['src/mem.c'], san=True, opts=dict(symgep=1))]),
 'P19': dict(units=[u('bits', 'bits.c', ['src/mem.c'], san=True)]),
 'P20': dict(units=[u('heap', 'heap.c', ['src/heap.c'], san=True)]),
 'P21': dict(units=[u('tm', 'tm.c', ['src/time.c', 'src/validate.c', 'src/math.c', 'src/la.c', 'src/mem.c'])]),
 'P22': dict(units=[u('endian', 'endian.c', [])]),
 'P25': dict(units=[u('valid', 'valid.c', LA + ['src/validate.c', 'src/time.c'])]),
 'P24': dict(cbmc=[dict(name='refm', h='refcnt.c', src=['src/refcount.c']), dict(name='refa', h='refcnt.c', src=['src/refcount.c'], flags=['-DATOMIC', '-std=gnu11'])]),
 'P31': dict(units=[u('ode', 'ode.c', LA + ['src/sigsys.c', 'src/diffeq.c', 'src/kin.c'])]),
 'P26': dict(units=[u('sg', 'sg.c', RX, san=True)]),
 'P28': dict(units=[u('sub', 'sub.c', RX + ['src/rx/sg_capi.c'], san=True)]),
 'P29': dict(units=[u('rxjac', 'rxjac.c', RX, san=True)]),
 'P27': dict(units=[u('fk', 'fk.c', RX, san=True)]),
 'P30': dict(units=[u('geom', 'geom.c', RX + ['src/rx/collision_set.cpp'], san=True)]),
 'P32': dict(units=[u('traj', 'traj.c', ['src/ct/traj.cpp', 'src/ct/state.c'] + TF + LA, san=True)]),
 'P23': dict(units=[u('io', 'io.c', ['src/io.c', 'src/mem.c'], san=True, opts=dict(symgep=1))]),
 'P33': dict(units=[u('lp', 'lp.c', ['src/opt/opt.c', 'src/opt/opt_glpk.c', 'src/opt/opt_lpsolve.c', 'src/opt/opt_clp.cpp', 'verif:harness/clpstub.cpp'] + LA, san=True, flags=['-fno-sanitize=vptr'], irflags=['-fexceptions'])]),
 'P34': dict(units=[u('wk', 'wk.c', RX + ['src/rx/scene_wk.c', 'src/rx/lc3.c', 'src/rx/sg_capi.c'], san=True)]),
 'P35': dict(units=[u('ik', 'ik.c', RX + ['src/rx/scene_wk.c', 'src/rx/scene_ik.c', 'src/rx/ik_opt.c', 'src/rx/sg_capi.c', 'src/diffeq.c'], san=True),
  u('rxct', 'rxct.c', RX + ['src/rx/scene_wk.c', 'src/rx/scene_ik.c', 'src/rx/ik_opt.c', 'src/rx/sg_capi.c', 'src/rx/rx_ct.c', 'src/ct/traj.cpp', 'src/ct/state.c', 'src/diffeq.c', 'verif:harness/rxct_stub.c'], san=True)]),
 'P38': dict(units=[u('mpseq', 'mpseq.c', RX + ['src/rx/mp_seq.cpp'], san=True)]),
 'P39': dict(units=[u('mp', 'mp.c', RX + ['src/rx/mp/%s.cpp' % x for x in ('scene_ompl', 'scene_state_space', 'scene_state_validity_checker', 'workspace_goal', 'ompl_rrt', 'ompl_sbl', 'ompl_kpiece')], san=True, flags=MP, irflags=['-fexceptions'])]),
 'P40': dict(units=[u('gl', 'gl.c', RX + ['src/amino_gl.c'], san=True, flags=['-I/usr/include/SDL2', '-D_REENTRANT'], opts=dict(fpconst=1))]),
 'P41': dict(units=[u('err', 'err.c', ['src/rx/errstr.c', 'src/rx/rxerr.c', 'src/mem.c'], san=True)]),
 'P37': dict(prepare=flex_gen, units=[u('wf', 'wf.c', ['src/wavefront/wf_obj.c', 'src/wavefront/wf_mtl.c', 'gen:wavefront.c', 'gen:mtl.c', 'src/mem.c'], san=True)]),
 'P36': dict(units=[u('fcl', 'fcl.c', RX + ['src/rx/amino_fcl.cpp', 'src/rx/collision_set.cpp'], san=True, flags=FCL)]),
}
