"""Puts the code under test and hypothesis on the import path.

The code under test runs in the environment the repository is built with
(/opt/venv).  hypothesis is not installed there; it is pure python plus one
optional extension and is borrowed from the pre-installed tooling venv, whose
site-packages directory is on sys.path only while hypothesis is imported, so that
numpy/torch/... always come from /opt/venv.
"""
import importlib
import os
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.path.realpath(os.environ.get('OCNN_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

warnings.filterwarnings('ignore')


def import_hypothesis():
  try:
    import hypothesis  # noqa
    return hypothesis
  except ImportError:
    pass
  sys.path.append(TOOL_SITE)
  try:
    import sortedcontainers  # noqa
    import hypothesis
    for m in ('hypothesis.strategies', 'hypothesis.internal.conjecture.engine',
              'hypothesis.core', 'hypothesis.errors', 'hypothesis.stateful'):
      importlib.import_module(m)
    return hypothesis
  finally:
    sys.path.remove(TOOL_SITE)


def import_repo():
  # /repo first, so that `ocnn` is the working tree whatever is installed
  for p in (os.path.join(REPO, 'projects'), REPO):
    if p in sys.path:
      sys.path.remove(p)
  sys.path.insert(0, REPO)
  import torch
  torch.set_num_threads(1)
  import ocnn
  where = os.path.realpath(ocnn.__file__)
  assert where.startswith(REPO + os.sep), where
  return ocnn


def import_project(name):
  """Imports a module of /repo/projects (e.g. 'segmentation', 'datascts.utils')."""
  proj = os.path.join(REPO, 'projects')
  if proj not in sys.path:
    sys.path.insert(1, proj)
  mod = importlib.import_module(name)
  assert os.path.realpath(mod.__file__).startswith(REPO + os.sep), mod.__file__
  return mod


def load_check(prop):
  """Another check module, for its generators."""
  import glob
  import importlib.util
  name = 'check_' + prop.lower()
  if name not in sys.modules:
    path = glob.glob(os.path.join(VERIF, 'checks', prop.lower() + '_*.py'))[0]
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
  return sys.modules[name]
