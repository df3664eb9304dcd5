"""Runs the scripts of projects/tools on copies inside a scratch directory."""
import contextlib
import io
import os
import shlex
import shutil
import subprocess
import sys
import tempfile
import types
from unittest import mock

from . import boot, cmp


class Tools:
  """A scratch directory with a copy of projects/tools; nothing outside of it is touched.

  `load(name, args)` executes the script like `python tools/name.py args` up to (not
  including) its main part and returns its namespace; `script(name, args)` executes it as
  the main program."""

  def __init__(self, prefix='verif-tool-', parts=('tools',)):
    self.prefix, self.parts = prefix, parts

  def __enter__(self):
    self.dir = tempfile.mkdtemp(prefix=self.prefix)
    self.tools = os.path.join(self.dir, 'projects', 'tools')
    for p in self.parts:
      shutil.copytree(os.path.join(boot.REPO, 'projects', p),
                      os.path.join(self.dir, 'projects', p),
                      ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    self.cwd = os.getcwd()
    os.chdir(self.dir)
    self.old = sys.stdout, sys.stderr
    self.out = io.StringIO()
    sys.stdout, sys.stderr = self.out, io.StringIO()
    return self

  def __exit__(self, *a):
    sys.modules.pop('utils', None)
    sys.stdout, sys.stderr = self.old
    os.chdir(self.cwd)
    shutil.rmtree(self.dir, ignore_errors=True)

  def path(self, *parts):
    p = os.path.join(self.dir, *parts)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p

  def load(self, name, args=(), main=False, stubs=()):
    sys.modules.pop('utils', None)
    for s, attrs in dict(stubs).items():
      m = types.ModuleType(s)
      m.__dict__.update(attrs)
      sys.modules[s] = m
    path = os.path.join(os.path.dirname(self.tools), name + '.py') if '/' in name else \
        os.path.join(self.tools, name + '.py')
    with open(path) as f:
      code = compile(f.read(), path, 'exec')
    argv, sys.argv = sys.argv, [path] + [str(a) for a in args]
    ns = types.ModuleType('__main__' if main else 'tool_' + name.replace('/', '_'))
    ns.__file__ = path
    sys.path.insert(0, self.tools)
    try:
      exec(code, ns.__dict__)
    except SystemExit as e:
      if e.code not in (None, 0):
        cmp.fail('%s %s exited with %s: %s', name, ' '.join(str(a) for a in args), e.code,
                 sys.stderr.getvalue()[-300:])
    finally:
      sys.argv = argv
      sys.path.remove(self.tools)
    return ns

  def script(self, name, args=(), stubs=()):
    return self.load(name, args, True, stubs)

  def printed(self):
    s = self.out.getvalue()
    self.out.seek(0)
    self.out.truncate()
    return s


class Done(object):
  """What a finished command looks like, whichever way it was started."""
  stdout, stderr, pid = '', '', 0

  def __init__(self, rc):
    self.returncode = rc

  def wait(self, timeout=None):
    return self.returncode

  poll = wait
  check_returncode = wait

  def communicate(self, *a, **k):
    return '', ''

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass


@contextlib.contextmanager
def commands(fn):
  """Every command a script starts is given to `fn` as a line (`python ...`) instead."""
  def line(cmd):
    w = shlex.split(cmd) if isinstance(cmd, str) else [str(c) for c in cmd]
    while w and '=' in w[0] and '/' not in w[0].split('=')[0]:
      w = w[1:]                                       # variables of the environment
    if w and (w[0] == sys.executable or w[0].startswith('python3')):
      w[0] = 'python'
    return shlex.join(w)

  P = mock.patch.object
  ps = [P(os, 'system', lambda cmd: fn(line(cmd)) or 0),
        P(subprocess, 'run', lambda cmd, *a, **k: Done(fn(line(cmd)) or 0)),
        P(subprocess, 'Popen', lambda cmd, *a, **k: Done(fn(line(cmd)) or 0)),
        P(subprocess, 'call', lambda cmd, *a, **k: fn(line(cmd)) or 0),
        P(subprocess, 'check_call', lambda cmd, *a, **k: fn(line(cmd)) or 0),
        P(subprocess, 'check_output', lambda cmd, *a, **k: fn(line(cmd)) and '' or '')]
  with contextlib.ExitStack() as st:
    for q in ps:
      st.enter_context(q)
    yield


class Project(Tools):
  """A scratch copy of tools, scripts and configs; the current directory is its `projects`.

  `solve(module, args)` is `python module.py args` with the module of the working tree, on
  the CPU and in this process.  It returns the solver."""

  def __init__(self):
    super().__init__(parts=('tools', 'scripts', 'configs'))

  def __enter__(self):
    import torch
    import thsolver.config
    from ocnn.octree import Octree, Points
    super().__enter__()
    os.chdir(os.path.dirname(self.tools))
    ident = lambda self, *a, **k: self   # noqa: E731
    load = torch.load
    P = mock.patch.object
    self.ps = [P(c, 'cuda', ident) for c in (torch.Tensor, torch.nn.Module, Octree, Points)]
    self.ps += [P(torch.cuda, 'current_device', lambda: 'cpu'),
                P(torch.cuda, 'set_device', lambda *a: None),
                P(torch, 'load', lambda f, *a, **k: load(f, *a, **dict(k, map_location='cpu')))]
    for p in self.ps:
      p.start()
    if not hasattr(thsolver.config, 'verif_default'):
      thsolver.config.verif_default = thsolver.config.FLAGS.clone()
    return self

  def __exit__(self, *a):
    for p in self.ps:
      p.stop()
    super().__exit__(*a)

  def solve(self, module, args):
    import thsolver
    import thsolver.config
    mod = boot.import_project(module)
    cls = [c for c in vars(mod).values() if isinstance(c, type) and
           issubclass(c, thsolver.Solver) and c.__module__ == mod.__name__]
    assert len(cls) == 1, cls
    made, init = [], thsolver.Solver.__init__

    def record(solver, *a, **k):
      made.append(solver)
      init(solver, *a, **k)
    argv, sys.argv = sys.argv, [module + '.py'] + [str(a) for a in args]
    thsolver.config.FLAGS = thsolver.config.verif_default.clone()
    try:
      with mock.patch.object(thsolver.Solver, '__init__', record):
        cls[0].main()
    except SystemExit as e:
      cmp.fail('%s exited with %s', module, e.code)
    finally:
      sys.argv = argv
    for s in made:
      if s.summary_writer is not None:
        s.summary_writer.close()
    return made[0]
