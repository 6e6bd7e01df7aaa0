"""Checks that what the checks need is there: a C compiler, the project's venv, Hypothesis."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix='vf-setup-')
try:
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', os.path.join(d, 'x.so'),
                    os.path.join(V, 'lib', 'fakeclock.c'), '-ldl'], check=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
os.environ.setdefault('VF_SCRATCH', '/nonexistent')
sys.path.insert(0, os.path.join(V, 'lib'))
import vf  # noqa
vf.setup_paths()
import hypothesis  # noqa
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('hypothesis', hypothesis.__version__)
