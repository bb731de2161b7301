#!/usr/bin/env python3
"""Decides one property: model checks its specification with TLC, generates
programs from the specification with TLC, runs them on the t3f of /repo and has
TLC validate the recorded traces.

usage: check.py PROPERTY            (VERIF_SEED, VERIF_TIER in the environment)
       check.py --replay FILE       (re-runs a recorded violation)

exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: broken check.
"""
import collections
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
OUT = os.environ.get('T3F_VERIF_OUT', VERIF)    # where evidence/ and replays/ go
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import config

PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/'
CP = TLA + 'tla2tools.jar:' + TLA + 'CommunityModules-deps.jar'
NPROC = max(2, min(8, os.cpu_count() or 2))
DRIVER_DEADLINE = {'quick': 420, 'thorough': 5000}
TLC_DEADLINE = {'quick': 600, 'thorough': 9000}


class Broken(Exception):
  pass


def log(*a):
  print(*a, flush=True)


def tlc_cmd(work, module, cfg, workers, heap='3g', extra=()):
  meta = tempfile.mkdtemp(prefix='meta-', dir=work)
  return ['java', '-XX:+UseParallelGC', '-Xss16m', '-Xmx' + heap, '-XX:ParallelGCThreads=4',
          '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE',
          '-workers', str(workers), '-metadir', meta, '-fpmem', '0.2', '-config', cfg,
          *extra, os.path.join(SPEC, module + '.tla')]


def start_tlc(work, module, cfgtext, workers, name, heap='3g', extra=()):
  cfg = os.path.join(work, name + '.cfg')
  with open(cfg, 'w') as f:
    f.write(cfgtext)
  out = open(os.path.join(work, name + '.out'), 'w+')
  p = subprocess.Popen(tlc_cmd(work, module, cfg, workers, heap, extra), stdout=out,
                       stderr=subprocess.STDOUT, cwd=work, start_new_session=True)
  p.outfile, p.name = out, name
  return p


def finish_tlc(p, deadline):
  try:
    p.wait(timeout=deadline)
  except subprocess.TimeoutExpired:
    os.killpg(p.pid, signal.SIGKILL)
    p.wait()
    raise Broken('TLC run %s did not finish in %d s' % (p.name, deadline))
  p.outfile.seek(0)
  text = p.outfile.read()
  p.outfile.close()
  m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
  if p.returncode != 0 or 'No error has been found' not in text or not m:
    raise Broken('TLC run %s failed (exit %s):\n%s' % (p.name, p.returncode, text[-6000:]))
  return text, int(m.group(1)), int(m.group(2))


def tla(v):
  if isinstance(v, bool):
    return 'TRUE' if v else 'FALSE'
  if isinstance(v, (int,)):
    return str(v)
  if isinstance(v, str):
    return '"%s"' % v
  if isinstance(v, (set, frozenset)):
    return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
  raise TypeError(v)


def cfg_text(consts, spec='Spec', invariants=(), properties=(), extra=''):
  s = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec
  if consts:
    s += 'CONSTANTS\n' + ''.join('  %s = %s\n' % (k, tla(v)) for k, v in consts.items())
  for i in invariants:
    s += 'INVARIANT %s\n' % i
  for i in properties:
    s += 'PROPERTY %s\n' % i
  return s + extra


def driver_env():
  env = dict(os.environ)
  env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', CUDA_VISIBLE_DEVICES='-1',
             TF_CPP_MIN_LOG_LEVEL='3', OMP_NUM_THREADS='1', TF_ENABLE_ONEDNN_OPTS='0',
             OPENBLAS_NUM_THREADS='1', KERAS_BACKEND='tensorflow')
  env.pop('PYTHONPATH', None)
  return env


def drive(work, progdir, tier, nshards):
  """Runs the programs; returns the list of traces (dicts)."""
  procs = []
  errs = []
  for i in range(nshards):
    out = os.path.join(work, 'trace%d.ndjson' % i)
    err = open(os.path.join(work, 'driver%d.err' % i), 'w+')
    p = subprocess.Popen([PY, os.path.join(HERE, 'driver.py'), progdir, out, str(i), str(nshards)],
                         stdout=err, stderr=subprocess.STDOUT, cwd=work, env=driver_env(),
                         start_new_session=True)
    procs.append((p, out, err))
  end = time.time() + DRIVER_DEADLINE[tier]
  for p, out, err in procs:
    try:
      p.wait(timeout=max(1, end - time.time()))
    except subprocess.TimeoutExpired:
      os.killpg(p.pid, signal.SIGKILL)
      p.wait()
      p.late = True
  traces = []
  for i, (p, out, err) in enumerate(procs):
    err.seek(0)
    text = err.read()
    err.close()
    got = []
    if os.path.exists(out):
      for line in open(out):
        try:
          got.append(json.loads(line))
        except ValueError:
          pass
    traces += got
    if p.returncode == 0:
      continue
    if p.returncode > 0:
      raise Broken('driver failed:\n' + text[-3000:])
    # The process was killed or crashed inside the code under test: the program
    # it was running has no acceptable outcome.
    cur = out + '.cur'
    if not os.path.exists(cur):
      raise Broken('driver died before running anything:\n' + text[-3000:])
    prog = json.load(open(os.path.join(progdir, open(cur).read().strip() + '.json')))
    what = 'Timeout' if getattr(p, 'late', False) else 'Crash'
    traces.append({'idx': prog['idx'], 'calls': prog['calls'][:1],
                   'evs': [{'ok': False, 'err': what, 'r': {'t': 'none'}, 'chg': []}],
                   'whole': prog['calls']})
  return traces


def validate(work, traces, ignore, tier, workers, module='Trace', name='trace', keep=False,
             always=()):
  verdicts = {}
  tally = collections.Counter()
  gen = distinct = 0
  todo = list(traces)
  failure = None
  for attempt in range(12):
    path = os.path.join(work, '%s%d.ndjson' % (name, attempt))
    with open(path, 'w') as f:
      for t in todo:
        f.write(json.dumps({'idx': t['idx'], 'calls': t['calls'], 'evs': t['evs']}) + '\n')
    p = start_tlc(work, module, cfg_text({'TraceFile': path, 'Ignore': frozenset(ignore),
                                            'KeepGoing': keep, 'Always': frozenset(always)}),
                  workers, '%s%d' % (name, attempt), heap='6g')
    error = None
    try:
      text, g, d = finish_tlc(p, TLC_DEADLINE[tier])
      gen, distinct = gen + g, distinct + d
    except Broken as e:
      # the judgement of one trace could not be evaluated: judge the others without it
      error = failure = e
      text = open(os.path.join(work, '%s%d.out' % (name, attempt))).read()
    for m in re.finditer(r'VERDICT (\d+) (ok|fail|cut) (\d+)(.*)', text):
      verdicts[int(m.group(1))] = (m.group(2), int(m.group(3)), m.group(4).strip().strip('"'))
    for m in re.finditer(r'TALLY (\d+) \[(.*?)\]', text):
      if int(m.group(1)) < 1000000:
        for f in m.group(2).split(','):
          k, v = f.split('|->')
          tally[k.strip()] += int(v)
    if error is None:
      break
    culprit = re.findall(r'^/\\ tid = (\d+)', text, re.M)
    if not culprit:
      break
    bad = todo[int(culprit[-1]) - 1]['idx']
    todo = [t for t in todo if t['idx'] not in verdicts and t['idx'] != bad]
    if not todo:
      break
  missing = [t['idx'] for t in traces if t['idx'] not in verdicts]
  if missing:
    if not any(v[0] == 'fail' and i < 1000000 for i, v in verdicts.items()):
      raise failure or Broken('no verdict for traces %s' % missing[:10])
    for i in missing:
      verdicts[i] = ('cut', 0, 'no verdict')
  return verdicts, gen, distinct, tally


def corrupt(traces, seed, kinds, n=6):
  """Copies of recorded traces with one recorded observation falsified: a number
  changed by 1.0 (value), another dtype (dtype), a wrong reported TT-rank
  (meta), an operand marked as modified (frame), a failure instead of a result
  (raise), doubled mean squares (moment).  The specification must reject each of them."""
  rnd = random.Random(seed)
  cand = {k: [] for k in kinds}
  for t in traces:
    for k, ev in enumerate(t['evs']):
      r = ev['r']
      if not ev['ok']:
        continue
      if 'moment' in cand and 'm2' in ev:
        cand['moment'].append((t, k))
      tt = r.get('t') in ('tt', 'batch')
      if t['calls'][k]['op'] in config.MAY_TRUNCATE and t['calls'][k]['cap'] < 40:
        continue
      if 'value' in cand and (tt or r.get('t') == 'num') and not r.get('bad') and \
          r.get('dt') == 'f64' and 'kx' not in r and r.get('v') and t['calls'][k]['op'] in config.EXACT_OPS:
        cand['value'].append((t, k))
      if 'dtype' in cand and tt:
        cand['dtype'].append((t, k))
      if 'meta' in cand and tt:
        cand['meta'].append((t, k))
      if 'frame' in cand:
        cand['frame'].append((t, k))
      if 'raise' in cand and t['calls'][k]['op'] in config.EXACT_OPS:
        cand['raise'].append((t, k))
  res = []
  for kind in kinds:
    for t, k in rnd.sample(cand[kind], min(max(1, n // len(kinds)), len(cand[kind]))):
      c = json.loads(json.dumps(t))
      ev = c['evs'][k]
      if kind == 'value':
        v = ev['r']['v']
        while isinstance(v[0], list):
          v = v[rnd.randrange(len(v))]
        if not v:
          continue
        if c['calls'][k]['op'] in config.LOOSE_OPS:    # may be judged with a tolerance
          v[rnd.randrange(len(v))] += 3 * (max(abs(z) for z in v) + ev['r']['S'])
        else:
          v[rnd.randrange(len(v))] += ev['r']['S']
      elif kind == 'moment':
        ev['m2'] = [2 * z for z in ev['m2']]
      elif kind == 'dtype':
        ev['r']['dt'] = 'f64' if ev['r']['dt'] == 'f32' else 'f32'
      elif kind == 'meta':
        ev['r']['rk'][-1] += 1
      elif kind == 'frame':
        ev['chg'] = [1]
      elif kind == 'raise':
        ev.update(ok=False, err='RuntimeError', r={'t': 'none'})
      c['idx'] = 1000000 + len(res)
      c['of'] = t['idx']
      c['how'] = kind
      res.append(c)
  return res


def shape_key(t):
  """What makes a program different from another for the coverage report."""
  return json.dumps([[c.get('op'), c.get('kind'), c.get('mat'), c.get('rows'), c.get('cols'),
                      c.get('rk'), c.get('bs'), c.get('dt'), c.get('a')] for c in t['calls']])


def write_evidence(prop, tier, seed, cov, wall, violations):
  os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
  ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': cov, 'wall_s': round(wall, 2), 'violations': violations,
        'assumptions': config.ASSUMPTIONS}
  tmp = os.path.join(OUT, 'evidence', '.%s.tmp' % prop)
  with open(tmp, 'w') as f:
    json.dump(ev, f, indent=1)
  os.replace(tmp, os.path.join(OUT, 'evidence', prop + '.json'))


def known_findings(prop):
  res = []
  path = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(path):
    for line in open(path):
      m = re.match(r'known: property=(\S+) match=(\S+) (.*)', line.strip())
      if m and m.group(1) == prop:
        res.append((m.group(2), m.group(3)))
  return res


def run(prop, tier, seed):
  t0 = time.time()
  cf = config.PROPS[prop]
  n = cf[tier]
  work = tempfile.mkdtemp(prefix='t3fcheck-')
  procs = []
  try:
    # 1. model checking of the specification (in the background)
    mcs = []
    for i, (module, consts, invs, props) in enumerate(cf['mc_' + tier]):
      mcs.append(start_tlc(work, module, cfg_text(consts, invariants=invs, properties=props), 2,
                           'mc%d-%s' % (i, module), heap='2g'))
      mcs[-1].what = list(invs) + list(props)
    # 2. programs from the specification
    progdir = os.path.join(work, 'progs')
    os.makedirs(progdir)
    g = start_tlc(work, 'Gen', cfg_text({'Seed': seed, 'Prop': prop, 'Lo': 1, 'Hi': n,
                                         'OutDir': progdir}), NPROC, 'gen', heap='6g')
    _, gen_states, _ = finish_tlc(g, TLC_DEADLINE[tier])
    t1 = time.time()
    nprog = len(os.listdir(progdir))
    if nprog != n:
      raise Broken('generated %d programs instead of %d' % (nprog, n))
    # 3. run them on the implementation
    traces = drive(work, progdir, tier, cf.get('shards', min(6, NPROC)))
    if len(traces) != n and not any('whole' in t for t in traces):
      raise Broken('%d traces of %d programs' % (len(traces), n))
    t2 = time.time()
    # 4. validate the traces (together with corrupted copies)
    probes = corrupt(traces, seed, cf.get('probes', ('value', 'raise')))
    verdicts, val_states, val_distinct, tally = validate(
        work, traces + probes, cf.get('ignore', ()), tier, NPROC, keep=cf.get('keep', False),
        always=cf.get('always', ()))
    t3 = time.time()
    byidx = {t['idx']: t for t in traces}
    fails = [(i, v) for i, v in sorted(verdicts.items()) if v[0] == 'fail' and i < 1000000]
    cuts = [(i, v) for i, v in sorted(verdicts.items()) if v[0] == 'cut' and i < 1000000]
    caught = [p for p in probes if verdicts[p['idx']][0] == 'fail']
    undetected = [p for p in probes if verdicts[p['idx']][0] == 'ok']
    if not probes and not fails:
      raise Broken('no corrupted traces could be made')
    if undetected and not fails:
      raise Broken('corrupted trace accepted: program %s (%s)' % (undetected[0]['of'], undetected[0]['how']))
    mc_states = mc_trans = 0
    mc_info = []
    for p in mcs:
      text, gen, distinct = finish_tlc(p, TLC_DEADLINE[tier])
      mc_states += distinct
      mc_trans += gen
      mc_info.append({'module': p.name.split('-')[1], 'holds': p.what, 'distinct': distinct,
                      'generated': gen})
    # 5. report
    hist = collections.Counter()
    rejected = 0
    for t in traces:
      for c, ev in zip(t['calls'], t['evs']):
        hist[c['op']] += 1
        rejected += not ev['ok']
    events = sum(hist.values())
    rnd = random.Random(seed)
    samples = []
    for t in rnd.sample(traces, min(2, len(traces))):
      samples.append({'program': t['idx'], 'verdict': verdicts[t['idx']][0],
                      'calls': [{k: v for k, v in c.items() if k != 'e'} for c in t['calls']][:8]})
    known = known_findings(prop)
    violations = []
    for i, v in fails:
      key = 'program-%d-step-%d' % (i, v[1])
      hit = [k for k in known if re.search(k[0], v[2]) and seed == 1]
      (violations if not hit else []).append((i, v, key))
    cov = {'states': mc_states + val_distinct, 'transitions': mc_trans + val_states,
           'traces_validated_against_impl': len(traces),
           'distinct_programs': len({shape_key(t) for t in traces}),
           'events_judged': events, 'events_rejected_by_impl': rejected,
           'events_per_expected_kind': dict(sorted(tally.items())),
           'events_per_call': dict(sorted(hist.items())),
           'spec_model_checking': mc_info, 'corrupted_traces_rejected': len(caught),
           'traces_cut': len(cuts), 'samples': samples,
           'phase_s': {'generate': round(t1 - t0, 1), 'run': round(t2 - t1, 1),
                       'validate': round(t3 - t2, 1)}}
    for k in known:
      log('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    for i, v, key in violations[:int(os.environ.get('T3F_VERIF_SHOW', '5'))]:
      path = os.path.join(OUT, 'replays', '%s-%s.json' % (prop, key))
      t = byidx[i]
      with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'verdict': list(v),
                   'program': {'idx': i, 'calls': t.get('whole', t['calls'])},
                   'failing_event': t['evs'][v[1] - 1]}, f, indent=1)
      c = t['calls'][v[1] - 1]
      log('  program %d call %d (%s): violated clause(s) %s; outcome: %s %s' % (
          i, v[1], c['op'], v[2], 'returned' if t['evs'][v[1] - 1]['ok'] else
          t['evs'][v[1] - 1]['err'], t['evs'][v[1] - 1].get('msg', '')[:200].replace('\n', ' ')))
      log('VIOLATION property=%s replay=%s' % (prop, path))
    write_evidence(prop, tier, seed, cov, time.time() - t0, len(violations))
    log('%s %s seed %d: %d programs, %d events, %d states, %d violation(s), %d cut, %.1f s' % (
        prop, tier, seed, len(traces), events, cov['states'], len(violations), len(cuts),
        time.time() - t0))
    return 1 if violations else 0
  finally:
    shutil.rmtree(work, ignore_errors=True)


def replay(path):
  rec = json.load(open(path))
  cf = config.PROPS[rec['property']]
  work = tempfile.mkdtemp(prefix='t3fcheck-')
  try:
    progdir = os.path.join(work, 'progs')
    os.makedirs(progdir)
    with open(os.path.join(progdir, '%d.json' % rec['program']['idx']), 'w') as f:
      json.dump(rec['program'], f)
    traces = drive(work, progdir, 'quick', 1)
    verdicts, _, _, _ = validate(work, traces, cf.get('ignore', ()), 'quick', 2,
                                keep=cf.get('keep', False),
        always=cf.get('always', ()))
    v = verdicts[rec['program']['idx']]
    log(v)
    if v[0] == 'fail':
      log(json.dumps(traces[0]['evs'][v[1] - 1])[:2000])
      log('VIOLATION property=%s replay=%s' % (rec['property'], path))
      return 1
    return 0
  finally:
    shutil.rmtree(work, ignore_errors=True)


def main():
  if sys.argv[1] == '--replay':
    return replay(sys.argv[2])
  prop = sys.argv[1]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if len(sys.argv) > 2:
    tier = sys.argv[2]
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  try:
    seed = int(os.environ.get('VERIF_SEED', '1'))
  except ValueError:
    seed = 1
  try:
    return run(prop, tier, seed)
  except Broken as e:
    log('BROKEN CHECK: %s' % e)
    return 2


if __name__ == '__main__':
  sys.exit(main())
