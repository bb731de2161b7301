"""Writes planted bugs into seeded/ after trying each in a scratch copy.

  python tools/plant.py bugs.py [id ...]

bugs.py (outside /verif) defines BUGS, a list of dicts with keys id, property,
needs, what_it_breaks, edits ([(file, old, new), ...]) and demo (Python source
that exits nonzero when the property is broken).  A bug is kept when the demo
passes on the unchanged tree, fails with the change, and the stable tests of
/opt/vp/BASELINE.json pass with it.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# Run from the root of the source tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def stable_failures(cwd):
  base = json.load(open('/opt/vp/BASELINE.json'))
  xml = os.path.join(cwd, 'junit.xml')
  env = dict(os.environ, PYTHONPATH=cwd, TF_CPP_MIN_LOG_LEVEL='3')
  run([PY, '-m', 'pytest', 't3f', '-q', '-n', '2', '-p', 'no:cacheprovider',
       '--junitxml', xml], cwd, env=env, timeout=1500)
  import xml.etree.ElementTree as ET
  ok = set()
  for c in ET.parse(xml).getroot().iter('testcase'):
    if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
      ok.add(c.get('classname') + '::' + c.get('name'))
  return sorted(set(base['stable']) - ok)


def plant(bug):
  tmp = tempfile.mkdtemp(prefix='plant-')
  try:
    work = os.path.join(tmp, 'repo')
    subprocess.check_call(['cp', '-a', os.environ.get('T3F_SOURCE', '/repo'), work])
    subprocess.check_call(['git', '-C', work, 'checkout', '-q', '--', '.'])
    out = os.path.join(tmp, 'seeded')
    os.mkdir(out)
    open(os.path.join(out, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    demo = ['bash', os.path.join(out, 'demo.sh')]
    before = run(demo, work)
    if before.returncode:
      return bug['id'], 'demo fails on the unchanged tree:\n' + before.stdout[-1500:] + before.stderr[-1500:]
    for path, old, new in bug['edits']:
      p = os.path.join(work, path)
      text = open(p).read()
      if text.count(old) != 1:
        return bug['id'], 'edit matches %d times in %s: %r' % (text.count(old), path, old)
      open(p, 'w').write(text.replace(old, new))
    diff = run(['git', 'diff'], work).stdout
    after = run(demo, work)
    if after.returncode == 0:
      return bug['id'], 'demo passes with the change'
    bad = stable_failures(work)
    if bad:
      return bug['id'], 'stable tests fail: %s' % bad[:4]
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')},
              open(os.path.join(out, 'meta.json'), 'w'), indent=2)
    dest = os.path.join(ROOT, 'seeded', bug['id'])
    if os.path.isdir(dest):
      shutil.rmtree(dest)
    shutil.copytree(out, dest)
    last = (after.stderr or after.stdout).strip().splitlines()[-1:]
    return bug['id'], 'ok: ' + ' '.join(last)[:150]
  finally:
    shutil.rmtree(tmp)


if __name__ == '__main__':
  ns = {}
  exec(open(sys.argv[1]).read(), ns)
  bugs = [b for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
  with concurrent.futures.ThreadPoolExecutor(3) as pool:
    for name, msg in pool.map(plant, bugs):
      print(name, msg, flush=True)
