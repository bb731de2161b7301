"""Runs the checks against planted bugs, in throwaway copies of /repo.

  python tools/try_bugs.py [-a] [id ...]

For each bug the check of its own property runs (with -a: all checks).  The
checks normally work on /repo; T3F_VERIF_REPO points them at a copy here so that
several bugs can be tried at once without touching /repo.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def attempt(job):
  bug, prop = job
  tmp = tempfile.mkdtemp(prefix='try-')
  try:
    work = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', os.environ.get('T3F_SOURCE', '/repo'), work])
    subprocess.check_call(['git', '-C', work, 'checkout', '-q', '--', '.'])
    subprocess.check_call(['git', '-C', work, 'apply',
                           os.path.join(ROOT, 'seeded', bug, 'patch.diff')])
    env = dict(os.environ, T3F_VERIF_REPO=work, VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
               T3F_VERIF_OUT=tmp)
    t = time.time()
    p = subprocess.run([sys.executable, os.path.join(ROOT, 'harness', 'check.py'), prop],
                       env=env, capture_output=True, text=True)
    line = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION property=' + prop)]
    verdict = 'CAUGHT' if p.returncode == 1 and line else 'quiet' if p.returncode == 0 else 'BROKEN'
    extra = '' if verdict != 'BROKEN' else '\n' + p.stdout[-1500:] + p.stderr[-1500:]
    why = [l for l in p.stdout.splitlines() if l.startswith('  ')][:1]
    return '%-28s %s %s %.0fs %s%s' % (bug, prop, verdict, time.time() - t, ' '.join(why)[:140], extra)
  finally:
    shutil.rmtree(tmp)


if __name__ == '__main__':
  args = [a for a in sys.argv[1:] if a != '-a']
  bugs = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
  claimed = [c['property'] if 'property' in c else c['id'] for c in
             json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
  jobs = []
  for b in bugs:
    own = json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))['property']
    jobs += [(b, p) for p in (claimed if '-a' in sys.argv else [own])]
  with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", 4))) as pool:
    for msg in pool.map(attempt, jobs):
      print(msg, flush=True)
