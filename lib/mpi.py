"""Runs a driver under MPI with a time limit and a private temporary directory."""
import os, shutil, signal, subprocess, tempfile
from lib import build
ENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1',
           OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_mpi_yield_when_idle='1',
           OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_rmaps_base_mapping_policy='', OMP_PROC_BIND='false',
           OMP_WAIT_POLICY='passive')

def run(driver, args, ranks, threads, timeout=120, cwd=None, log=None, extra=None):
    """-> (exit status or None on timeout, tail of the output)"""
    tmp = tempfile.mkdtemp(prefix='mpi', dir='/tmp')
    env = dict(os.environ)
    env.update({k: v for k, v in ENV.items() if v})
    env.update(OMP_NUM_THREADS=str(threads), TMPDIR=tmp)
    env.update(extra or {})
    cmd = ['mpirun', '--oversubscribe', '-n', str(ranks), '%s/%s' % (build.B, driver)] + [str(a) for a in args]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=cwd,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        for s in (signal.SIGTERM, signal.SIGKILL):
            try:
                os.killpg(p.pid, s)
            except ProcessLookupError:
                pass
        out, _ = p.communicate()
        rc = None
    shutil.rmtree(tmp, ignore_errors=True)
    if log:
        open(log, 'w').write(out)
    return rc, out[-4000:]
