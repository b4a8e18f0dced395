#!/opt/venv/bin/python
"""Entry point of every check:  run.py P07 [--tier quick|thorough] [--replay FILE]

Sets up a deterministic environment, re-executes itself in it and runs checks/<id>.py.
Exit codes: 0 property held on everything explored, 1 violation (VIOLATION line), 2 error of the check.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def launch():
    scratch = tempfile.mkdtemp(prefix='vf_')
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
               QT_QPA_PLATFORM='offscreen', XDG_RUNTIME_DIR=scratch, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', HDF5_USE_FILE_LOCKING='FALSE', VF_SCRATCH=scratch, VF_CHILD='1',
               HOME=scratch, TMPDIR=scratch, PYTHONWARNINGS='ignore', LC_ALL='C.UTF-8',
               GIT_OPTIONAL_LOCKS='0', HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, 'hyp'))
    env.setdefault('VERIF_SEED', '1')
    env.setdefault('VERIF_TIER', 'quick')
    env['PYTHONPATH'] = HERE
    try:
        return subprocess.call([PY, os.path.join(HERE, 'run.py')] + sys.argv[1:], env=env, cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    if os.environ.get('VF_CHILD') != '1':
        sys.exit(launch())
    from vf import core
    sys.exit(core.main(sys.argv[1:]))
