"""Entry point of every check:  /opt/venv/bin/python run_check.py C01 [options]

Options: --tier quick|thorough, --seed N, --replay FILE, --facet NAME, --jobs N,
--scale X.  VERIF_SEED and VERIF_TIER give the defaults.
"""
import glob
import importlib.util
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ['CUDA_VISIBLE_DEVICES'] = ''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import boot  # noqa: E402


def load(prop):
  files = glob.glob(os.path.join(boot.VERIF, 'checks', prop.lower() + '_*.py'))
  assert len(files) == 1, files
  spec = importlib.util.spec_from_file_location('check_' + prop, files[0])
  mod = importlib.util.module_from_spec(spec)
  sys.modules[spec.name] = mod
  spec.loader.exec_module(mod)
  return mod


if __name__ == '__main__':
  if len(sys.argv) < 2:
    print(__doc__)
    sys.exit(2)
  boot.import_hypothesis()
  boot.import_repo()
  from vlib import core
  try:
    rc = core.main(load(sys.argv[1]), sys.argv[2:])
  except SystemExit:
    raise
  except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
  sys.stdout.flush()
  os._exit(rc)
