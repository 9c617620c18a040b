"""
Makes the code under test importable:
  - /repo first on sys.path, so that the current working tree is what is tested;
  - hypothesis comes from the verification tool venv, appended at the END of sys.path (numpy and friends stay those of /opt/venv);
  - the Cython extension is compiled from the current utils.pyx into a cache keyed by its content (never taken from /repo's .so);
  - pystan, which is not installed, is replaced by a stand-in (it is only needed to sample from Stan).
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXT_NAME = 'aideme.active_learning.factorization.utils'
PYX = os.path.join(REPO, 'aideme/active_learning/factorization/utils.pyx')


class BuildError(Exception):
    pass


def _build_ext():
    with open(PYX, 'rb') as f:
        src = f.read()
    key = hashlib.sha256(src + sys.version.encode() + b'v1').hexdigest()[:20]
    cache = os.path.join(VERIF, 'build')
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    so = os.path.join(cache, key, 'utils' + suffix)
    if os.path.exists(so):
        return so
    os.makedirs(os.path.join(cache, key), exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        # same options as setup.py: language level 3, and the compiler flags Python itself was built with
        pkg = os.path.join(tmp, 'aideme/active_learning/factorization')
        os.makedirs(pkg)
        with open(os.path.join(pkg, 'utils.pyx'), 'wb') as f:
            f.write(src)
        d = tmp
        for part in ('aideme', 'active_learning', 'factorization'):
            d = os.path.join(d, part)
            open(os.path.join(d, '__init__.py'), 'w').close()
        code = ("import sys; from setuptools import setup; from setuptools.extension import Extension; "
                "from Cython.Build import cythonize; "
                "setup(name='x', ext_modules=cythonize([Extension(%r, ['aideme/active_learning/factorization/utils.pyx'])], "
                "language_level='3', quiet=True), script_args=['-q', 'build_ext', '--inplace'])") % EXT_NAME
        env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], cwd=tmp, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        built = os.path.join(pkg, 'utils' + suffix)
        if p.returncode != 0 or not os.path.exists(built):
            raise BuildError(p.stdout.decode(errors='replace')[-2000:])
        with open(built, 'rb') as f:
            data = f.read()
        part = '%s.%d' % (so, os.getpid())
        with open(part, 'wb') as f:
            f.write(data)
        os.replace(part, so)
    return so


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == EXT_NAME:
            loader = importlib.machinery.ExtensionFileLoader(name, self.so)
            return importlib.util.spec_from_file_location(name, self.so, loader=loader)
        return None


def _stub_pystan():
    try:
        import pystan  # noqa
        return
    except ImportError:
        pass
    m = types.ModuleType('pystan')

    class StanModel:
        """ Stands for a compiled model: keeps its code, and leaves sampling to 'pystan.handler' (see checks/C39.py). """

        def __init__(self, file=None, charset='utf-8', model_name='anon_model', model_code=None, **kwargs):
            if not isinstance(model_code, str):
                raise ValueError('model_code must be a string')
            self.model_code = model_code

        def sampling(self, data=None, pars=None, chains=4, iter=2000, warmup=None, thin=1, **kwargs):
            if m.handler is None:
                raise RuntimeError('pystan is not available')
            return m.handler(self, data, chains, iter, iter // 2 if warmup is None else warmup, thin, kwargs)

    StanModel.__module__ = 'pystan'
    StanModel.__qualname__ = 'StanModel'
    m.StanModel = StanModel
    m.handler = None
    sys.modules['pystan'] = m


def boot():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') not in (REPO,)]
    sys.path.insert(0, REPO)
    for d in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        if d not in sys.path:
            sys.path.append(d)
    _stub_pystan()
    if os.path.exists(PYX):
        sys.meta_path.insert(0, _ExtFinder(_build_ext()))
    import numpy  # noqa
    import sklearn  # noqa
    assert '/opt/venv' in numpy.__file__
    import aideme  # noqa
    assert os.path.abspath(aideme.__file__).startswith(REPO), aideme.__file__
