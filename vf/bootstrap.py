"""Makes hypothesis importable for /opt/venv/bin/python without network access."""
import glob
import os
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, '.deps')
WHEELS = '/opt/veriftools/wheels'
FALLBACK = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ABI = '-cp%d%d-' % sys.version_info[:2]
NEEDED = ['hypothesis', 'sortedcontainers', 'attrs']


def ensure():
    def importable():
        try:
            import hypothesis
            return os.path.dirname(hypothesis.__file__)
        except ImportError:
            return None

    if importable():
        return importable()
    if not os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        try:
            wheels = [w for n in NEEDED for w in sorted(glob.glob(os.path.join(WHEELS, n + '-*.whl')))
                      if ABI in w or '-none-any' in w]
            if wheels:
                os.makedirs(DEPS, exist_ok=True)
                with tempfile.TemporaryDirectory(dir=DEPS) as tmp:
                    for w in wheels:
                        zipfile.ZipFile(w).extractall(tmp)
                    for entry in os.listdir(tmp):
                        if entry != 'hypothesis' and not os.path.exists(os.path.join(DEPS, entry)):
                            os.rename(os.path.join(tmp, entry), os.path.join(DEPS, entry))
                    if not os.path.exists(os.path.join(DEPS, 'hypothesis')):
                        os.rename(os.path.join(tmp, 'hypothesis'), os.path.join(DEPS, 'hypothesis'))
        except OSError:
            pass
    if os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        sys.path.append(DEPS)
        if importable():
            return importable()
        sys.path.remove(DEPS)
    sys.path.append(FALLBACK)
    import hypothesis
    return os.path.dirname(hypothesis.__file__)
