"""Builds drivers from /repo's current working tree into /verif/build (git-ignored), with ninja."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
LL = '/usr/lib/x86_64-linux-gnu'
CXX = ('-include /opt/vp/compat/trilinos13.hpp -std=c++14 -fopenmp -DNDEBUG -DPARTICLE_SIMULATOR_MPI_PARALLEL '
       '-DPARTICLE_SIMULATOR_THREAD_PARALLEL -Dkiss_fft_scalar=double -I%s -I%s/stub -I%s/drivers '
       '-I/usr/include/trilinos -isystem /usr/include/vtk-9.1 -isystem /usr/include/eigen3 -w '
       '--param ggc-min-expand=400 --param ggc-min-heapsize=1500000' % (REPO, V, V))
LIBS = ('-Wl,-rpath,/opt/vp/compat /opt/vp/compat/libtpetra_int_int.so ' +
        ' '.join('%s/libtrilinos_%s.so' % (LL, x) for x in
                 'belostpetra belos tpetra tpetraclassic zoltan teuchoscomm teuchoscore teuchosnumerics '
                 'teuchosparameterlist teuchosremainder kokkoscore kokkoscontainers kokkoskernels'.split()) +
        ' ' + ' '.join('-lvtk%s-9.1' % x for x in 'IOXML CommonCore CommonDataModel IOCore CommonExecutionModel '
                       'IOXMLParser IOGeometry FiltersCore'.split()) + ' -lyaml-cpp')
CON = ['Constraint/%s.cpp' % x for x in ('BCQPSolver', 'ConstraintCollector', 'ConstraintOperator', 'ConstraintSolver')]
TP = ['Trilinos/TpetraUtil.cpp']
B64 = ['Util/Base64.cpp']
BND = ['Boundary/Boundary.cpp']
# driver -> repository sources it is linked with
DRIVERS = {
    'drv_sys': ['Sylinder/%s.cpp' % x for x in ('SylinderSystem', 'SylinderConfig', 'Sylinder')] + CON + TP + BND + B64,
    'drv_con': CON + TP + B64,
    'drv_mpi': ['Util/PointDistribution.cpp'],
    'drv_util': BND + B64 + ['Sylinder/Sylinder.cpp'],
    'drv_mix': [],
    'drv_rng': [],
    'drv_lcp': ['Collision/CPSolver.cpp'] + TP,
    'drv_cfg': ['Sylinder/SylinderConfig.cpp'] + BND,
}

class BuildError(Exception):
    pass

def build(names):
    os.makedirs(B, exist_ok=True)
    L = ['ninja_required_version = 1.3', 'builddir = %s' % B, 'cxx = mpicxx %s -O1' % CXX,
         'rule cc', '  command = $cxx -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule ld', '  command = mpicxx -fopenmp $in -o $out %s' % LIBS]
    seen, outs = set(), []
    # the longest compilation first
    for n in names:
        objs = []
        for s in DRIVERS[n]:
            o = '%s/repo/%s.o' % (B, s)
            if o not in seen:
                seen.add(o)
                L.append('build %s: cc %s/%s' % (o, REPO, s))
            objs.append(o)
        o = '%s/%s.o' % (B, n)
        L.append('build %s: cc %s/drivers/%s.cpp' % (o, V, n))
        L.append('build %s/%s: ld %s %s' % (B, n, o, ' '.join(objs)))
        outs.append('%s/%s' % (B, n))
    f = '%s/build-%s.ninja' % (B, '-'.join(names))
    open(f, 'w').write('\n'.join(L) + '\n')
    r = subprocess.run(['ninja', '-f', f, '-j8'] + outs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-6000:])
    return r.stdout

def java():
    d = os.path.join(B, 'cls')
    src = os.path.join(V, 'tools/java/FltOverrides.java')
    c = os.path.join(d, 'FltOverrides.class')
    if not os.path.exists(c) or os.path.getmtime(c) < os.path.getmtime(src):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(['javac', '-cp', '/opt/veriftools/tla/tla2tools.jar', '-d', d, src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout)
    return d

if __name__ == '__main__':
    try:
        print(build(sys.argv[1:]))
    except BuildError as e:
        print(e); sys.exit(2)
