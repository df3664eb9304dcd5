"""Property runner: generated-input search with shrinking, sharded over processes.

A check module defines

  PROPERTY  the id
  RULE      text: how cases are made and what makes one non-trivial
  FACETS    list of Facet

A facet has a hypothesis strategy that yields a JSON-serialisable case and a
function `check(case)` which builds the inputs, runs the code under test, compares
with the oracle and returns a list of tags.  It raises Mismatch when the property is
broken.  A case is counted non-trivial when the check's tags contain 'nt'.
A replay file is the case itself, so a violation is reproduced without hypothesis.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import signal
import sys
import time
import traceback
import types
import zlib

from . import boot

CASE_TIMEOUT = 240      # seconds, for one case; a typical case takes milliseconds
QUICK_BUDGET = 240.0    # soft limit of the search in seconds, quick tier
THOROUGH_BUDGET = 800.0


class Mismatch(AssertionError):
  """The observed behaviour differs from the oracle."""


class HarnessError(Exception):
  pass


class CaseTimeout(BaseException):
  pass


class StopShard(KeyboardInterrupt):
  """Leaves hypothesis at once (it re-raises KeyboardInterrupt unchanged)."""


class Facet:

  def __init__(self, name, strategy, check, quick, thorough=None, examples=(),
               heavy=False):
    self.name = name
    self.strategy = strategy      # callable returning a strategy
    self.check = check
    self.quick = quick            # number of generated cases, quick tier
    self.thorough = thorough if thorough is not None else quick * 20
    self.examples = list(examples)
    self.heavy = heavy


def large(facet, quick, thorough, limit=100000):
  """The same check on far larger inputs (see gen.large)."""
  from . import gen
  return Facet(facet.name + '-large', lambda: gen.large(facet.strategy, limit), facet.check,
               quick, thorough, heavy=True)


def case_hash(facet, case):
  s = facet + '|' + json.dumps(case, sort_keys=True, separators=(',', ':'))
  return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), 'big')


def in_repo(tb):
  """True if the traceback passes through the code under test."""
  for f in traceback.extract_tb(tb):
    if os.path.realpath(f.filename).startswith(boot.REPO + os.sep):
      return True
    if '/verif-tool-' in f.filename and '/projects/' in f.filename:     # see tool.py
      return True
  return False


def classify(exc):
  """'violation' or 'error' for an exception raised by a facet's check.

  On the unchanged tree no check raises anything.  An exception inside the code under test,
  or while the check evaluates what that code returned or wrote (None instead of a tensor, a
  missing file or key), is a violation; a missing module, lack of memory or a failing
  machine is not."""
  if isinstance(exc, Mismatch):
    return 'violation'
  if isinstance(exc, (MemoryError, ImportError, HarnessError)) or 'allocate memory' in str(exc):
    return 'error'
  if in_repo(exc.__traceback__):
    return 'violation'
  if isinstance(exc, AttributeError) and isinstance(getattr(exc, 'obj', None), types.ModuleType):
    return 'error'
  if isinstance(exc, OSError):
    return 'violation' if isinstance(exc, (FileNotFoundError, NotADirectoryError)) else 'error'
  if isinstance(exc, (TypeError, AttributeError, LookupError, ValueError, ArithmeticError,
                      AssertionError, RuntimeError)):
    return 'violation'
  return 'error'


def short_case(case, limit=1500):
  s = json.dumps(case, sort_keys=True)
  return s if len(s) <= limit else s[:limit] + '...(%d chars)' % len(s)


def fresh_state():
  """Everything a facet could be influenced by is reset before every case."""
  import random
  import numpy as np
  import torch
  torch.manual_seed(0)
  np.random.seed(0)
  random.seed(0)
  torch.set_grad_enabled(True)
  torch.set_default_dtype(torch.float32)


def _alarm(signum, frame):
  raise CaseTimeout()


def run_case(facet, case):
  """Runs one case; returns tags, raises Mismatch or whatever the code raised."""
  # the check gets its own copy: a case must never be changed by running it
  case = json.loads(json.dumps(case))
  fresh_state()
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(CASE_TIMEOUT)
  try:
    tags = facet.check(case)
  except CaseTimeout as e:
    if in_repo(e.__traceback__):
      raise Mismatch('did not terminate within %d s' % CASE_TIMEOUT) from None
    raise HarnessError('case timed out outside of the code under test') from None
  finally:
    signal.alarm(0)
  return tags or []


# ----------------------------------------------------------------------------
# worker
# ----------------------------------------------------------------------------

def run_shard(facet, n, seed, stop, deadline, curfile):
  """Generates n cases of a facet.  Returns a result dictionary."""
  hyp = boot.import_hypothesis()
  import hypothesis.internal.conjecture.engine as engine
  engine.MAX_SHRINKING_SECONDS = 40
  from hypothesis import HealthCheck, Phase, settings

  res = {'facet': facet.name, 'seed': seed, 'evals': 0, 'hashes': set(),
         'tags': {}, 'samples': [], 'fail': None, 'error': None, 'cut': False}
  state = {'first': None, 'last': None}

  def body(case):
    if state['first'] is None:
      if stop.value:
        res['cut'] = True
        raise StopShard()
      if time.monotonic() > deadline:
        res['cut'] = True
        raise StopShard()
    elif time.monotonic() > state['t_first'] + 90:
      raise StopShard()            # shrinking takes too long, keep what we have
    if curfile is not None:
      data = json.dumps([facet.name, case]).encode()
      curfile.seek(0)
      curfile.write(data)
      curfile.truncate(len(data))
      curfile.flush()
    try:
      tags = run_case(facet, case)
    except Exception as e:
      kind = classify(e)
      rec = {'case': case, 'kind': kind,
             'msg': '%s: %s' % (type(e).__name__, str(e)[:2000]),
             'trace': ''.join(traceback.format_exception(e))[-4000:]}
      if state['first'] is None:
        state['first'] = rec
        state['t_first'] = time.monotonic()
      size = len(json.dumps(case))
      if state['last'] is None or kind == state['first']['kind'] and (
              size <= len(json.dumps(state['last']['case']))):
        state['last'] = rec
      traceback.clear_frames(e.__traceback__)    # they hold the data of the case
      raise
    res['evals'] += 1
    for t in tags:
      res['tags'][t] = res['tags'].get(t, 0) + 1
    if 'nt' in tags:
      res['hashes'].add(case_hash(facet.name, case))
      if len(res['samples']) < 3 or (res['evals'] % 997 == 0 and len(res['samples']) < 8):
        s = json.dumps(case)
        if len(s) < 1200:
          res['samples'].append(case)

  test = hyp.given(facet.strategy())(body)
  test = settings(
      max_examples=n, database=None, deadline=None, print_blob=False,
      phases=(Phase.generate, Phase.target, Phase.shrink),
      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
      verbosity=hyp.Verbosity.quiet)(test)
  test = hyp.seed(seed)(test)
  try:
    test()
  except (StopShard, Exception):
    pass
  if state['first'] is not None:
    rec = state['last'] if state['last']['kind'] == state['first']['kind'] else state['first']
    rec = dict(rec, first_case=state['first']['case'], facet=facet.name, shard_seed=seed)
    res['fail'] = rec
  return res


def stuck(curfile):
  """True if a worker is far beyond the time limit of a single case."""
  try:
    return time.time() - os.path.getmtime(curfile) > 2 * CASE_TIMEOUT
  except OSError:
    return False


def worker_main(wid, facets, jobs, results, stop, deadline, scratch):
  signal.signal(signal.SIGINT, signal.SIG_IGN)
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)
  try:
    import resource
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
  except Exception:
    pass
  cur = open(os.path.join(scratch, 'cur_%d.json' % wid), 'wb+')
  by_name = {f.name: f for f in facets}
  while True:
    try:
      job = jobs.get(timeout=5)
    except queue_mod.Empty:
      continue
    if job is None:
      break
    name, n, seed = job
    try:
      res = run_shard(by_name[name], n, seed, stop, deadline, cur)
    except BaseException as e:   # a harness failure
      res = {'facet': name, 'seed': seed, 'evals': 0, 'hashes': set(), 'tags': {},
             'samples': [], 'fail': None, 'cut': True,
             'error': ''.join(traceback.format_exception(e))[-4000:]}
    if res['fail'] is not None:
      stop.value = 1
    results.put((wid, res))
  cur.close()
  results.put((wid, None))
  results.close()
  results.join_thread()
  os._exit(0)


# ----------------------------------------------------------------------------
# known findings
# ----------------------------------------------------------------------------

def load_findings(prop):
  """Entries: {"property":..., "facet":..., "case":..., "what":...} per `finding:` line."""
  out = []
  path = os.path.join(boot.VERIF, 'KNOWN_FINDINGS')
  if os.path.exists(path):
    for line in open(path):
      if line.startswith('finding:'):
        e = json.loads(line[len('finding:'):])
        if e['property'] == prop:
          out.append(e)
  return out


# ----------------------------------------------------------------------------
# main
# ----------------------------------------------------------------------------

def report_violation(prop, rec, out_dir):
  os.makedirs(out_dir, exist_ok=True)
  tag = '%016x' % case_hash(rec['facet'], rec['case'])
  path = os.path.join(out_dir, '%s-%s-%s.json' % (prop, rec['facet'], tag))
  with open(path, 'w') as f:
    json.dump({'property': prop, 'facet': rec['facet'], 'case': rec['case'],
               'message': rec['msg'], 'trace': rec['trace'],
               'first_case': rec.get('first_case'),
               'shard_seed': rec.get('shard_seed')}, f, indent=1)
  print('--- %s / %s' % (prop, rec['facet']))
  print(rec['msg'])
  print('minimal case: ' + short_case(rec['case']))
  print(rec['trace'])
  print('VIOLATION property=%s replay=%s' % (prop, path))


def main(module, argv):
  ap = argparse.ArgumentParser()
  ap.add_argument('--replay')
  ap.add_argument('--facet', help='only this facet (development)')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1') or 1))
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')))
  ap.add_argument('--scale', type=float, default=1.0, help='multiplies case counts')
  args = ap.parse_args(argv)
  tier = 'thorough' if args.tier == 'thorough' else 'quick'
  prop = module.PROPERTY
  facets = module.FACETS
  t0 = time.monotonic()
  replay_dir = os.path.join(boot.VERIF, 'evidence', 'replays')
  findings = load_findings(prop)

  if args.replay:
    rep = json.load(open(args.replay))
    facet = {f.name: f for f in facets}[rep['facet']]
    try:
      tags = run_case(facet, rep['case'])
    except Exception as e:
      traceback.print_exc()
      if classify(e) == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, args.replay))
        return 1
      return 2
    print('replay: the property holds on this case, tags %s' % tags)
    return 0

  if args.facet:
    facets = [f for f in facets if f.name == args.facet]

  ncpu = args.jobs or max(1, min(8, os.cpu_count() or 1))
  budget = QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET
  deadline = time.monotonic() + budget
  stop = mp.Value('i', 0, lock=False)
  evals, hashes, tags, samples, cut = {}, set(), {}, [], []
  fails, errors = [], []

  # 1. fixed examples (regression cases of repaired defects and corner cases), with
  #    the listed known findings, in this process
  n_examples = 0
  found = []
  for f in facets:
    for ex in f.examples:
      try:
        tg = run_case(f, ex)
        n_examples += 1
        evals[f.name] = evals.get(f.name, 0) + 1
        for t in tg:
          k = f.name + ':' + t
          tags[k] = tags.get(k, 0) + 1
        if 'nt' in tg:
          hashes.add(case_hash(f.name, ex))
      except Exception as e:
        rec = {'facet': f.name, 'case': ex, 'kind': classify(e),
               'msg': '%s: %s' % (type(e).__name__, str(e)[:2000]),
               'trace': ''.join(traceback.format_exception(e))[-4000:]}
        fails.append(rec)
        break
  for e in findings:
    f = {f.name: f for f in module.FACETS}.get(e['facet'])
    if f is None:
      continue
    try:
      run_case(f, e['case'])
    except Exception as ex:
      if classify(ex) == 'violation':
        found.append(e)
  for e in found:
    print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))

  # 2. generated cases
  if not fails:
    jobs = []
    for f in facets:
      n = int((f.quick if tier == 'quick' else f.thorough) * args.scale)
      shards = ncpu if n >= 8 * ncpu or f.heavy else max(1, min(ncpu, n // 8))
      if tier == 'thorough':
        shards *= 4          # hypothesis slows down in very long runs
      for s in range(shards):
        m = (n + shards - 1) // shards
        seed = zlib.crc32(('%s/%s/%d/%d' % (prop, f.name, args.seed, s)).encode())
        jobs.append((f.name, m, seed))
    # spread the facets, the heavy ones first
    order = {f.name: (0 if f.heavy else 1) for f in facets}
    jobs.sort(key=lambda j: (order[j[0]], j[2]))
    import tempfile
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    ctx = mp.get_context('fork')
    jq, rq = ctx.Queue(), ctx.Queue()
    for j in jobs:
      jq.put(j)
    procs = []
    for w in range(min(ncpu, len(jobs))):
      jq.put(None)
    for w in range(min(ncpu, len(jobs))):
      p = ctx.Process(target=worker_main,
                      args=(w, facets, jq, rq, stop, deadline, scratch))
      p.start()
      procs.append(p)
    alive = set(range(len(procs)))
    done_jobs = 0
    while alive:
      try:
        wid, res = rq.get(timeout=1.0)
      except queue_mod.Empty:
        for w in list(alive):
          p = procs[w]
          if stuck(os.path.join(scratch, 'cur_%d.json' % w)):
            p.kill()         # the alarm did not get through: hanging in native code
            p.join(timeout=10)
          if p.exitcode is not None:
            # give late results a chance
            try:
              wid, res = rq.get(timeout=1.0)
            except queue_mod.Empty:
              alive.discard(w)
              if p.exitcode != 0:
                sig = -p.exitcode
                try:
                  name, case = json.load(open(os.path.join(scratch, 'cur_%d.json' % w)))
                except Exception:
                  name, case = None, None
                if name is not None and sig in (signal.SIGSEGV, signal.SIGABRT,
                                                signal.SIGFPE, signal.SIGBUS):
                  fails.append({'facet': name, 'case': case, 'kind': 'violation',
                                'msg': 'the process was ended by signal %d' % sig,
                                'trace': ''})
                  stop.value = 1
                else:
                  errors.append('worker %d ended with %s (last case: %s)'
                                % (w, p.exitcode, short_case([name, case], 400)))
              continue
            break
        else:
          continue
        if wid not in alive:
          continue
      if res is None:
        alive.discard(wid)
        continue
      done_jobs += 1
      f = res['facet']
      evals[f] = evals.get(f, 0) + res['evals']
      hashes |= res['hashes']
      for t, c in res['tags'].items():
        k = f + ':' + t
        tags[k] = tags.get(k, 0) + c
      have = sum(1 for s in samples if s['facet'] == f)
      for s in res['samples'][-2:]:
        if have < 3:
          samples.append({'facet': f, 'case': s})
          have += 1
      if res['cut']:
        cut.append(f)
      if res['error']:
        errors.append(res['error'])
      if res['fail']:
        fails.append(res['fail'])
    for p in procs:
      p.join(timeout=10)
      if p.is_alive():
        p.kill()
    for fn in os.listdir(scratch):
      os.unlink(os.path.join(scratch, fn))
    os.rmdir(scratch)

  # 3. verdict
  violations = [f for f in fails if f['kind'] == 'violation']
  errors += [f['trace'] for f in fails if f['kind'] == 'error']
  known = []
  for e in findings:
    for v in list(violations):
      if e['facet'] == v['facet'] and matches_finding(e, v):
        violations.remove(v)
        known.append(e)
  wall = time.monotonic() - t0
  n_eval = sum(evals.values())
  ev = {
      'property': prop, 'tier': tier, 'seed': args.seed, 'level': 'exploration',
      'coverage': {
          'evaluations': n_eval,
          'distinct_nontrivial': len(hashes),
          'rule': module.RULE,
          'samples': samples or [{'facet': f['facet'], 'case': f['case']} for f in fails],
          'per_facet': evals,
          'distribution': dict(sorted(tags.items())),
          'fixed_examples': n_examples,
          'shards_cut_by_time': len(cut),
      },
      'assumptions': getattr(module, 'ASSUMPTIONS', []),
      'wall_s': round(wall, 2),
      'violations': len(violations),
  }
  os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
  path = os.path.join(boot.VERIF, 'evidence', prop + '.json')
  with open(path + '.tmp', 'w') as f:
    json.dump(ev, f, indent=1)
  os.replace(path + '.tmp', path)

  if violations:
    # the smallest of each facet
    best = {}
    for v in violations:
      k = v['facet']
      if k not in best or len(json.dumps(v['case'])) < len(json.dumps(best[k]['case'])):
        best[k] = v
    for v in best.values():
      report_violation(prop, v, replay_dir)
    return 1
  if errors:
    print('ERROR: the check itself failed\n' + errors[0])
    return 2
  if n_eval == 0:
    print('ERROR: nothing was evaluated')
    return 2
  print('%s: held on %d cases (%d distinct non-trivial) in %.1f s%s' % (
      prop, n_eval, len(hashes), wall,
      ', %d shards cut by the time limit' % len(cut) if cut else ''))
  return 0


def matches_finding(entry, violation):
  return entry['case'] == violation['case']
