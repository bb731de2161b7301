"""Runs programs generated from the specification on the real t3f and records
what happened.

usage: driver.py PROGDIR OUT.ndjson SHARD NSHARDS

The recorder knows nothing about expected results.  Real numbers are recorded
as fixed-point integers round(x * S) with a power of two S.
"""
import contextlib
import json
import math
import os
import resource
import signal
import sys
import warnings

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
warnings.filterwarnings('ignore')
REPO = os.environ.get('T3F_VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np
import tensorflow as tf
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)
tf.get_logger().setLevel('ERROR')
import t3f
assert os.path.abspath(t3f.__file__).startswith(os.path.abspath(REPO) + os.sep), t3f.__file__
from t3f.tensor_train import TensorTrain
from t3f.tensor_train_batch import TensorTrainBatch
from t3f.tensor_train_base import TensorTrainBase

CALL_TIMEOUT = 120
DT = {'f32': tf.float32, 'f64': tf.float64, 'i32': tf.int32, 'i64': tf.int64}
NPDT = {'f32': np.float32, 'f64': np.float64, 'i32': np.int32, 'i64': np.int64}
DTN = {tf.float32: 'f32', tf.float64: 'f64', tf.int32: 'i32', tf.int64: 'i64'}
NONE = 99999


class CallTimeout(Exception):
  pass


def _alarm(signum, frame):
  raise CallTimeout()


SESSION = None      # the session of a program that runs in a TF 1 graph


def val(t):
  """The current value of a tensor or variable."""
  if SESSION is not None and not isinstance(t, np.ndarray):
    return np.asarray(SESSION.run(t))
  return np.asarray(t)


# --------------------------------------------------------------------------
# observation
# --------------------------------------------------------------------------
def fix(arrs, bits=27):
  """Fixed-point integers of a list of flat float arrays with a common scale."""
  arrs = [np.asarray(a, dtype=np.float64).reshape(-1) for a in arrs]
  m = 0.0
  for a in arrs:
    if a.size:
      if not np.all(np.isfinite(a)):
        return 1, None
      m = max(m, float(np.max(np.abs(a))))
  if m > 2.0 ** (bits - 1):
    return 1, None
  k = bits if m <= 1.0 else bits - int(math.ceil(math.log2(m)))
  s = 2 ** k
  return s, [[int(v) for v in np.rint(a * s)] for a in arrs]


SCALED = False      # some cores of the program have binary exponents


def fix_each(arrs, bits=27):
  """Each array with its own scale: the exponents of the scales, the integers."""
  ks, vs = [], []
  for a in arrs:
    a = np.asarray(a, dtype=np.float64).reshape(-1)
    if not np.all(np.isfinite(a)):
      return [], None
    m = float(np.max(np.abs(a))) if a.size else 0.0
    k = bits if m == 0.0 else bits - int(math.ceil(math.log2(m)))
    ks.append(k)
    vs.append([int(v) for v in np.rint(np.ldexp(a, k))])
  return ks, vs


def dtname(dt):
  dt = tf.as_dtype(dt)
  return DTN.get(dt, dt.name)


def dims(ts):
  """A TensorShape / list of dimensions as ints, -1 when unknown."""
  if isinstance(ts, tf.TensorShape):
    if ts.rank is None:
      return [-1]
    ts = ts.as_list()
  return [-1 if v is None else int(v) for v in ts]


def np_dense(cores, mat):
  """Contraction of numpy cores of one object, as an N x M matrix."""
  res = np.ones((1, 1, 1))
  for c in cores:
    c = np.asarray(c, dtype=np.float64)
    if not mat:
      c = c[:, :, None, :]
    res = np.einsum('NMa,aijb->NiMjb', res, c)
    n, i, m, j, b = res.shape
    res = res.reshape(n * i, m * j, b)
  return res.sum(axis=2)


def meta_tt(x):
  return {
      'dt': dtname(x.dtype),
      'cdt': [dtname(c.dtype) for c in x.tt_cores],
      'nd': int(x.ndims()),
      'mat': bool(x.is_tt_matrix()),
      'raw': [dims(s) for s in x.get_raw_shape()],
      'rk': dims(x.get_tt_ranks()),
      'shape': dims(x.get_shape()),
      'bs': (-1 if x.batch_size is None else int(x.batch_size))
            if isinstance(x, TensorTrainBatch) else 0,
  }


V1 = tf.compat.v1
UNKNOWN = 0         # what the function being compiled does not know of its dense arguments
PROBES = None       # the positions at which very large objects are recorded
PRIMES = (46337, 46327)


def np_elements(cores, mat):
  """The elements of one object at the positions PROBES."""
  cores = [np.asarray(c, dtype=np.float64) for c in cores]
  res = []
  for p in PROBES:
    v = np.ones((1, 1))
    for c, i, j in zip(cores, p['i'], p['j']):
      v = v @ (c[:, i, j] if mat else c[:, i])
    res.append(float(v.sum()))
  return np.array(res)


def obs_tt(x, cores=None, meta=None):
  batch = isinstance(x, TensorTrainBatch)
  if meta is None:
    meta = getattr(x, 'verif_meta', None) or meta_tt(x)
  r = dict(meta)
  if cores is None:
    cores = [val(c) for c in x.tt_cores]
  r['t'] = 'batch' if batch else 'tt'
  off = 1 if batch else 0
  cs = [list(c.shape) for c in cores]
  amat = len(cs[0]) - off == 4
  r['cs'] = cs
  r['amat'] = amat
  r['abs'] = cs[0][0] if batch else 1
  r['arows'] = [s[off + 1] if len(s) > off + 1 else -1 for s in cs]
  r['acols'] = [s[off + 2] if amat and len(s) > off + 2 else 1 for s in cs]
  r['ark'] = [s[off] if len(s) > off else -1 for s in cs] + [cs[-1][-1]]
  vals = None
  dense = np_dense
  if PROBES is not None:
    dense = np_elements
    r['long'] = True
    r['shape'] = [n % p for p in PRIMES for n in r['shape']]
  try:
    if batch:
      vals = [dense([c[b] for c in cores], amat) for b in range(cs[0][0])]
    else:
      vals = [dense(cores, amat)]
  except Exception:
    vals = None
  if vals is None:
    r['S'], r['v'], r['bad'] = 1, [], True
  else:
    if SCALED:
      s = 1
      r['kx'], v = fix_each(vals)
    else:
      s, v = fix(vals)
    r['S'], r['bad'] = s, v is None
    r['v'] = v if v is not None else []
  return r


def obs_num(y):
  if isinstance(y, (int, float, np.integer, np.floating, bool)):
    y = np.asarray(y)
  if isinstance(y, np.ndarray):
    dt = dtname(y.dtype)
  else:
    dt = dtname(y.dtype)
    y = val(y)
  if SCALED:
    y = np.asarray(y)
    kx, v = fix_each(y if y.ndim else [y])
    return {'t': 'num', 'shp': [int(k) for k in y.shape], 'dt': dt, 'S': 1, 'kx': kx,
            'v': [z for b in v for z in b] if v is not None else [], 'bad': v is None}
  s, v = fix([y])
  return {'t': 'num', 'shp': [int(k) for k in y.shape], 'dt': dt, 'S': s,
          'v': v[0] if v is not None else [], 'bad': v is None}


def observe(y):
  if y is None:
    return {'t': 'none'}
  if isinstance(y, TensorTrainBase):
    return obs_tt(y)
  if isinstance(y, (tf.Tensor, tf.Variable, np.ndarray, int, float, np.number, bool)):
    return obs_num(y)
  return {'t': type(y).__name__}


def snap(x):
  """A fingerprint of a register: values, metadata and the projection tag."""
  if isinstance(x, tf.keras.layers.Layer):
    return ('layer', tuple(np.array(w).tobytes() for w in x.weights))
  if isinstance(x, TensorTrainBase):
    return (type(x).__name__, tuple(val(c).tobytes() for c in x.tt_cores),
            json.dumps(meta_tt(x), sort_keys=True), id(getattr(x, 'projection_on', None)))
  return None


# --------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------
OPS = {}     # the call itself
POST = {}    # what is recorded of its result y, if not just observe(y)


def op(name):
  def deco(f):
    OPS[name] = f
    return f
  return deco


def post(name):
  def deco(f):
    POST[name] = f
    return f
  return deco


GIVEN = []


def given(x):
  """Remembers an argument that is not a register, to see whether it is changed."""
  if isinstance(x, (list, np.ndarray)):
    GIVEN.append((x, list(x) if isinstance(x, list) else x.copy()))
  return x


def given_changed():
  for x, y in GIVEN:
    if isinstance(x, list):
      if len(x) != len(y) or any(p is not q and not (isinstance(p, (int, float, str)) and p == q) for p, q in zip(x, y)):
        return True
    elif not np.array_equal(x, y):
      return True
  return False


def np_cores(c):
  """Numpy cores of a `new' call."""
  res = []
  d = len(c['rows'])
  for k in range(d):
    shp = [c['rk'][k], c['rows'][k]] + ([c['cols'][k]] if c['mat'] else []) + [c['rk'][k + 1]]
    parts = [np.array(c['e'][b][k], dtype=np.float64).reshape(shp) for b in range(c['bs'])]
    if 'sx' in c:
      parts = [q * 2.0 ** c['sx'][b][k] for b, q in enumerate(parts)]
    arr = np.stack(parts) if c['kind'] == 'batch' else parts[0]
    res.append(arr.astype(NPDT[c['dt']]))
  return res


@op('new')
def _new(c, a):
  cores = np_cores(c)
  via = c.get('via', 0)
  kw = {}
  if via in (1, 2):
    cores = [tf.constant(k) for k in cores]
  if via in (2, 3):
    kw['shape'] = (c['rows'], c['cols']) if c['mat'] else c['rows']
    kw['tt_ranks'] = c['rk']
    if c['kind'] == 'batch':
      kw['batch_size'] = c['bs']
  if via == 4:
    kw['tt_ranks'] = c['rk']
  if via == 5:
    cores = tuple(cores)
  if via == 6:       # equal cores are one and the same tensor
    pool = {}
    cores = [pool.setdefault((k.shape, k.tobytes()), tf.constant(k)) for k in cores]
  cls = TensorTrainBatch if c['kind'] == 'batch' else TensorTrain
  y = cls(given(cores), **kw)
  if isinstance(cores, list) and not given_changed():
    GIVEN.clear()
    cores.clear()    # the object does not depend on the list any more
  return y


@op('full')
def _full(c, a):
  return t3f.full(a[0])


@op('add')
def _add(c, a):
  return a[0] + a[1] if c['form'] == 'op' else t3f.add(a[0], a[1])


@op('sub')
def _sub(c, a):
  return a[0] - a[1]


@op('neg')
def _neg(c, a):
  return -a[0]


@op('mul')
def _mul(c, a):
  return a[0] * a[1] if c['form'] == 'op' else t3f.multiply(a[0], a[1])


@op('scale')
def _scale(c, a):
  v = c['num'] / c['den'] * 2.0 ** c.get('sx', 0)
  st = c['st']
  dt = a[0].dtype
  s = {'float': lambda: float(v), 'int': lambda: int(v), 'np32': lambda: np.float32(v),
       'np64': lambda: np.float64(v), 'npint': lambda: np.int64(v),
       'tf': lambda: tf.constant(v, dtype=dt), 'tfvar': lambda: (tf.constant if c.get('m') else tf.Variable)(v, dtype=dt)}[st]()
  if 'arg' in c:
    s = c['arg']
  if c['form'] == 'fn':
    return t3f.multiply(a[0], s)
  if c['form'] == 'right':
    return a[0] * s
  return s * a[0]


@op('transpose')
def _transpose(c, a):
  return t3f.transpose(a[0])


@op('matmul')
def _matmul(c, a):
  return t3f.matmul(a[0], a[1])


def blurred(x, keep=0):
  """The tensor with unknown dimensions, but for the last `keep`, where the
  compiled function is to know little."""
  if not UNKNOWN:
    return x
  n = len(x.shape) - keep
  dims = [None if UNKNOWN == 1 or (i + UNKNOWN) % 2 else d for i, d in enumerate(x.shape[:n])]
  return V1.placeholder_with_default(x, dims + list(x.shape[n:]))


def dense_arg(c, dt):
  if 'arg' in c:
    return c['arg']
  return blurred(tf.constant(np.array(c['v'], dtype=np.float64).reshape(c['n'], c['mm']), dtype=dt))


@op('mat_dense')
def _mat_dense(c, a):
  return t3f.matmul(a[0], dense_arg(c, a[0].dtype))


@op('dense_mat')
def _dense_mat(c, a):
  return t3f.matmul(dense_arg(c, a[0].dtype), a[0])


@op('inner')
def _inner(c, a):
  return t3f.flat_inner(a[0], a[1])


@op('inner_sparse')
def _inner_sparse(c, a):
  x = a[0]
  shp = x.get_shape().as_list()
  if isinstance(x, TensorTrainBatch):
    shp = shp[1:]
  ix = np.array(c['ix'], dtype=np.int64)
  idx = np.stack(np.unravel_index(ix, shp), axis=1) if len(ix) else np.zeros((0, len(shp)))
  if c.get('dsh', 0):                      # another shape, with or without an element outside of x
    k = c['dsh'] % len(shp)
    shp = list(shp)
    shp[k] += 1
    if c['dsh'] < 0 and len(ix):
      idx[-1, k] = shp[k] - 1
  w = c['arg'] if 'arg' in c else blurred(tf.constant(c['w'], dtype=x.dtype))
  sp = tf.SparseTensor(blurred(tf.constant(idx, dtype=tf.int64), 1), w, shp)
  return t3f.flat_inner(x, sp)


@op('norm2')
def _norm2(c, a):
  return t3f.frobenius_norm_squared(a[0], differentiable=c['diff'])


@op('norm')
def _norm(c, a):
  kw = {} if c['default'] else {'epsilon': c['eps'] / c['epsden']}
  return t3f.frobenius_norm(a[0], differentiable=c['diff'], **kw)


@post('norm')
def _norm_post(c, a, y):
  v = y.numpy().astype(np.float64)
  r = obs_num(v * v)
  r['dt'] = dtname(y.dtype)
  r['neg'] = bool(np.any(v < 0))
  return r, {}


@op('bilin')
def _bilin(c, a):
  f = t3f.quadratic_form if c['f'] == 'quad' else t3f.bilinear_form
  return f(a[0], a[1], a[2])


@op('bilin2')
def _bilin2(c, a):
  return t3f.ops.bilinear_form_two_mat(a[0], a[1], a[2], a[3])


@op('concat')
def _concat(c, a):
  return t3f.concat_along_batch_dim(given(a) if c.get('f', 0) == 0 else tuple(a))


@op('scale_batch')
def _scale_batch(c, a):
  w = [v / c['wden'] * 2.0 ** c.get('sx', 0) for v in c['w']]
  f = c['f']
  if f == 2 or UNKNOWN:
    w = blurred(tf.constant(w, dtype=a[0].dtype))
  elif f == 1:
    w = np.array(w)
  if 'arg' in c:
    w = c['arg']
  return t3f.multiply_along_batch_dim(a[0], given(w))


@op('gram')
def _gram(c, a):
  return t3f.gram_matrix(a[0])


@op('pair')
def _pair(c, a):
  return t3f.pairwise_flat_inner(a[0], a[1])


@op('gram_mat')
def _gram_mat(c, a):
  return t3f.gram_matrix(a[0], a[1])


@op('pair_mat')
def _pair_mat(c, a):
  return t3f.pairwise_flat_inner(a[0], a[1], a[2])


def py_item(it, f):
  if it['k'] == 'i':
    return [int, np.int64, tf.constant][f](it['v'])
  return slice(*[None if it[f] == NONE else it[f] for f in ('lo', 'hi', 'st')])


@op('slice')
def _slice(c, a):
  items = [py_item(i, c['f']) for i in c['ix']]
  if c['bare'] and len(items) == 1 and isinstance(a[0], TensorTrainBatch):
    return a[0][items[0]]
  return a[0][tuple(items)]


@op('gather')
def _gather(c, a):
  ix = np.array(c['ix'], dtype=np.int64).reshape(c['ish'])
  f = c['f']
  if f == 1:
    ix = ix.astype(np.int32)
  elif f == 2 or UNKNOWN:
    ix = blurred(tf.constant(ix), 1)
  elif f == 3 and ix.size:
    ix = ix.tolist()
  return t3f.gather_nd(a[0], given(ix))


@op('cast')
def _cast(c, a):
  return t3f.cast(a[0], DT[c['dt']])


@op('expand')
def _expand(c, a):
  return t3f.expand_batch_dim(a[0])


@op('squeeze')
def _squeeze(c, a):
  return t3f.squeeze_batch_dim(a[0])


@op('bcast')
def _bcast(c, a):
  return np.asarray(int(bool(t3f.is_batch_broadcasting_possible(a[0], a[1]))))


@op('construct')
def _construct(c, a):
  rnd = np.random.RandomState(7)
  cores = [rnd.randint(-2, 3, size=s).astype(NPDT[d]) for s, d in zip(c['cs'], c['cdt'])]
  if c['via'] == 1:
    cores = [tf.constant(k) for k in cores]
  kw = {}
  if c['hasshp']:
    shp = c['shp']
    f = c['shpf']
    if len(shp) == 1 and f == 0:
      kw['shape'] = shp[0]
    elif len(shp) == 1 and f == 1:
      kw['shape'] = np.array(shp[0])
    elif len(shp) == 1 and f == 2:
      kw['shape'] = tf.TensorShape(shp[0])
    elif f == 0:
      kw['shape'] = shp
    elif f == 1:
      kw['shape'] = tuple(tuple(x) for x in shp)
    else:
      kw['shape'] = tuple(tf.TensorShape(x) for x in shp)
  if c['hasrk']:
    kw['tt_ranks'] = [c['rkx'], tuple(c['rkx']), tf.TensorShape(c['rkx']), np.array(c['rkx'])][c['rkf']]
  if c['kind'] == 'batch' and c['hasbs']:
    kw['batch_size'] = c['bsx']
  for v in kw.values():
    given(v)
  cls = TensorTrainBatch if c['kind'] == 'batch' else TensorTrain
  return cls(given(cores), **kw)


def ints(y):
  if isinstance(y, tf.TensorShape):
    y = dims(y)
  elif isinstance(y, (tuple, list)):
    y = [dims(z) if isinstance(z, tf.TensorShape) else z for z in y]
  elif isinstance(y, tf.Tensor):
    y = y.numpy()
  return np.asarray(y).astype(np.int64)


@op('shapefn')
def _shapefn(c, a):
  f, x = c['f'], a[0]
  if f in ('get_shape', 'get_raw_shape', 'get_tt_ranks', 'ndims', 'is_tt_matrix'):
    return getattr(x, f)()
  return getattr(t3f, f)(x)


@post('shapefn')
def _shapefn_post(c, a, y):
  return obs_num(ints(y)), {}


# --------------------------------------------------------------------------
# decompositions
# --------------------------------------------------------------------------
def py_cap(cap, f=0):
  k = cap['k']
  if k == 'none':
    return None
  if k == 'inf':
    return np.inf if f % 2 == 0 else float('inf')
  if k == 'num':
    return cap['v']
  return given([cap['v'], tuple(cap['v']), np.array(cap['v'])][f % 3])


def weave(m, rows, cols):
  d = len(rows)
  t = np.asarray(m, dtype=np.float64).reshape(list(rows) + list(cols))
  perm = [q for k in range(d) for q in (k, d + k)]
  return t.transpose(perm).reshape([r * q for r, q in zip(rows, cols)])


def unfolding_sv2(vals, rows, cols):
  """Squared singular values of all unfoldings of all elements, fixed-point."""
  res = []
  for m in vals:
    t = weave(m, rows, cols)
    for k in range(1, len(rows)):
      u = t.reshape(int(np.prod(t.shape[:k])), -1)
      res.append(np.sort(np.linalg.svd(u, compute_uv=False) ** 2)[::-1])
  n = len(rows) - 1
  if SCALED:
    svk, v = fix_each([np.concatenate(res[b * n:(b + 1) * n]) if n else np.zeros(0) for b in range(len(vals))])
    if v is None:
      return {'sv2': [], 'Ssv': 0}
    sv2 = []
    for b in range(len(vals)):
      ends = np.cumsum([len(q) for q in res[b * n:(b + 1) * n]])
      sv2.append([v[b][e - len(q):e] for e, q in zip(ends, res[b * n:(b + 1) * n])])
    return {'sv2': sv2, 'Ssv': 1, 'svk': svk}
  s, v = fix(res)
  if v is None:
    return {'sv2': [], 'Ssv': 0}
  return {'sv2': [v[b * n:(b + 1) * n] for b in range(len(vals))], 'Ssv': s}


def vals_of(x):
  cores = [np.asarray(c) for c in x.tt_cores]
  if isinstance(x, TensorTrainBatch):
    return [np_dense([c[b] for c in cores], x.is_tt_matrix()) for b in range(cores[0].shape[0])]
  return [np_dense(cores, x.is_tt_matrix())]


def modes_of(x):
  off = 2 if isinstance(x, TensorTrainBatch) else 1
  rows = [int(c.shape[off]) for c in x.tt_cores]
  cols = [int(c.shape[off + 1]) if x.is_tt_matrix() else 1 for c in x.tt_cores]
  return rows, cols


@contextlib.contextmanager
def svd_of(c):
  """With c.np: numpy's singular value decomposition instead of TensorFlow's."""
  if not c.get('np') or 'm' in c:
    yield
    return
  before = tf.linalg.svd
  t3f.utils.replace_tf_svd_with_np_svd()
  try:
    yield
  finally:
    tf.linalg.svd = before
    if hasattr(tf, 'original_svd'):
      del tf.original_svd


@op('round')
def _round(c, a):
  kw = {'max_tt_rank': py_cap(c['cap'], c['f'])}
  if c['cap']['k'] == 'none' and c['f'] == 0:
    kw = {}
  if c['eps'] != 0:
    kw['epsilon'] = {2: 0.0, 3: 1e-12}.get(c['eps'], float(c['eps']))
  with svd_of(c):
    return t3f.round(a[0], **kw)


@post('round')
def _round_post(c, a, y):
  if PROBES is not None:
    return observe(y), {}
  rows, cols = modes_of(a[0])
  return observe(y), unfolding_sv2(vals_of(a[0]), rows, cols)


@op('to_tt')
def _to_tt(c, a):
  rows, cols = c['rows'], c['cols']
  v = np.array(c['v'], dtype=np.float64) * 2.0 ** c.get('sx', 0)
  kw = {'max_tt_rank': py_cap(c['cap'], c['f'])}
  if c['cap'] == {'k': 'num', 'v': 10}:
    kw = {}
  if c['eps'] != 0:
    kw['epsilon'] = {2: 0.0, 3: 1e-12}.get(c['eps'], float(c['eps']))
  if c['mat']:
    m = v.reshape(int(np.prod(rows)), int(np.prod(cols))).astype(NPDT[c['dt']])
    if c['f'] % 2 or UNKNOWN:
      m = blurred(tf.constant(m))
    shp = [(rows, cols), [rows, cols], np.array([rows, cols])][c['f'] % 3]
    if c.get('noshape'):
      shp = [tuple, list][c['f'] % 2]([(None, cols), (rows, None)][c['noshape'] - 1])
    with svd_of(c):
      return t3f.to_tt_matrix(given(m), shape=given(shp), **kw)
  m = v.reshape(rows).astype(NPDT[c['dt']])
  if c['f'] % 2 or UNKNOWN:
    m = blurred(tf.constant(m))
  with svd_of(c):
    return t3f.to_tt_tensor(given(m), **kw)


@post('to_tt')
def _to_tt_post(c, a, y):
  rows, cols = c['rows'], c['cols']
  v = np.array(c['v'], dtype=np.float64).reshape(int(np.prod(rows)), int(np.prod(cols))) * 2.0 ** c.get('sx', 0)
  return observe(y), unfolding_sv2([v], rows, cols)


def elt_cores(x):
  cores = [np.asarray(c, dtype=np.float64) for c in x.tt_cores]
  if isinstance(x, TensorTrainBatch):
    return [[c[b] for c in cores] for b in range(cores[0].shape[0])]
  return [cores]


@op('orth')
def _orth(c, a):
  kw = {} if c['l2r'] and c['f'] == 0 else {'left_to_right': c['l2r']}
  return t3f.orthogonalize_tt_cores(a[0], **kw)


@post('orth')
def _orth_post(c, a, y):
  flat, count = [], []
  for cores in elt_cores(y):
    count.append(len(cores))
    for core in cores:
      if c['l2r']:
        m = core.reshape(-1, core.shape[-1])
        g = m.T @ m
      else:
        m = core.reshape(core.shape[0], -1)
        g = m @ m.T
      flat.append(np.clip(g, -60, 60) if np.all(np.isfinite(g)) else g)
  s, v = fix(flat)
  ex = {'gbad': v is None, 'Sg': s, 'gr': []}
  if v is not None:
    d = count[0]
    ex['gr'] = [v[b * d:(b + 1) * d] for b in range(len(count))]
  return observe(y), ex


@op('renorm')
def _renorm(c, a):
  return t3f.renormalize_tt_cores(a[0])


@post('renorm')
def _renorm_post(c, a, y):
  n_in = [[float(np.sum(q ** 2)) for q in cores] for cores in elt_cores(a[0])]
  n_out = [[float(np.sum(q ** 2)) for q in cores] for cores in elt_cores(y)]
  # relative to the largest of each element
  s, v = fix([[q / (max(e) or 1.0) for q in e] for e in n_out])
  return observe(y), {'gbad': v is None, 'Sn': s, 'cn': v if v is not None else [],
                      'zc': [[q < 1e-5 for q in e] for e in n_in]}


# --------------------------------------------------------------------------
# Riemannian geometry and automatic differentiation
# --------------------------------------------------------------------------
def coef_arg(w, dt, cols=None):
  """Weights of a sum: none, vector or matrix, as list / numpy / tf."""
  if w['k'] == 'none':
    return None
  v = [float(z) for z in w['v']]
  if w['k'] == 'mat':
    v = np.array(v).reshape(-1, cols if cols is not None else w['n']).tolist()
  f = w.get('f', 0)
  if f == 2 or UNKNOWN:
    return blurred(tf.constant(v, dtype=dt))
  if f == 1:
    return given(np.array(v, dtype=dt.as_numpy_dtype))
  return given(v)


@op('project')
def _project(c, a):
  return t3f.project(a[0], a[1])


@op('project_sum')
def _project_sum(c, a):
  w = coef_arg(c['wt'], a[1].dtype)
  if w is None and c['wt'].get('f', 0) == 0:
    return t3f.project_sum(a[0], a[1])
  return t3f.project_sum(a[0], a[1], weights=w)


@op('project_matmul')
def _project_matmul(c, a):
  return t3f.project_matmul(a[0], a[1], a[2])


@op('pair_proj')
def _pair_proj(c, a):
  return t3f.pairwise_flat_inner_projected(a[0], a[1])


@op('add_proj')
def _add_proj(c, a):
  bs = a[0].batch_size if isinstance(a[0], TensorTrainBatch) else 1
  w = coef_arg(c['cf'], a[0].dtype, bs)
  if w is None:
    return t3f.add_n_projected(given(a))
  return t3f.add_n_projected(given(a), coef=w)


@op('deltas')
def _deltas(c, a):
  deltas = t3f.tangent_space_to_deltas(a[0])
  kw = {}
  if c['f'] > 0:
    t = t3f.orthogonalize_tt_cores(a[1], left_to_right=False)
    kw['left'] = t3f.orthogonalize_tt_cores(t)
  if c['f'] > 1:
    kw['right'] = t3f.orthogonalize_tt_cores(kw['left'], left_to_right=False)
  return t3f.riemannian.deltas_to_tangent_space(deltas, a[1], **kw)


@op('t_inner')
def _t_inner(c, a):
  return t3f.flat_inner(a[0], a[1])


@op('t_full')
def _t_full(c, a):
  return t3f.full(a[0])


def scalar_part(p, regs, dt):
  """The function of a TT object described by a part."""
  k = p['p']
  args = [regs[i] for i in p['a']]
  if k == 'inner':
    return lambda x: t3f.flat_inner(x, args[0])
  if k == 'norm2':
    return lambda x: t3f.frobenius_norm_squared(x, differentiable=True)
  if k == 'frob2':
    return lambda x: t3f.frobenius_norm(x, differentiable=True) ** 2
  if k == 'quad':
    return lambda x: t3f.bilinear_form(args[0], x, x)
  if k == 'had':
    return lambda x: t3f.flat_inner(x * x, args[0])
  if k == 'cube':
    return lambda x: t3f.flat_inner(x * x, x)
  if k == 'dist':
    def dist(x):
      y = x + p['s'] * args[0]
      return t3f.flat_inner(y, y)
    return dist
  if k == 'mm':
    return lambda x: t3f.flat_inner(t3f.matmul(args[0], x), args[1])
  if k == 'gram':
    return lambda x: t3f.flat_inner(t3f.matmul(t3f.transpose(x), x), args[0])
  w = tf.constant(p['w'], dtype=dt)
  ix = np.array(p['ix'], dtype=np.int64) - 1

  def gather(x):
    if x.is_tt_matrix():
      rows, cols = [s.as_list() for s in x.get_raw_shape()]
      n = int(np.prod(cols))
      sub = np.stack([np.stack(np.unravel_index(ix // n, rows), -1),
                      np.stack(np.unravel_index(ix % n, cols), -1)], -1)
      return tf.reduce_sum(w * t3f.gather_nd(x, sub))
    return tf.reduce_sum(w * t3f.gather_nd(x, np.stack(np.unravel_index(ix, x.get_shape().as_list()), -1)))

  def sparse(x):
    shp = x.get_shape().as_list()
    sub = np.stack(np.unravel_index(ix, shp), axis=1)
    return t3f.flat_inner(x, tf.SparseTensor(sub, w, shp))

  def fullw(x):
    return tf.reduce_sum(w * tf.gather(tf.reshape(t3f.full(x), [-1]), ix))
  return {'gather': gather, 'sparse': sparse, 'fullw': fullw}[k]


def scalar_fn(c, a):
  regs = dict(zip(c['a'], a))
  dt = a[0].dtype
  parts = [scalar_part(p, regs, dt) for p in c['parts']]

  def base(x):
    if c['comb'] == 'sq':
      return parts[0](x) ** 2
    if c['comb'] == 'prod':
      return parts[0](x) * parts[1](x)
    return tf.add_n([w * f(x) for w, f in zip(c['cw'], parts)])
  if c['rep']:
    return lambda x: base(x) * float(sum(dims(x.get_tt_ranks())))
  return base


@op('grad')
def _grad(c, a):
  kw = {} if c['check'] and c['f'] == 0 else {'runtime_check': c['check']}
  return t3f.gradients(scalar_fn(c, a), a[0], **kw)


@op('hvp')
def _hvp(c, a):
  kw = {} if c['check'] and c['f'] == 0 else {'runtime_check': c['check']}
  return t3f.hessian_vector_product(scalar_fn(c, a), a[0], a[1], **kw)


# --------------------------------------------------------------------------
# approximate sums
# --------------------------------------------------------------------------
@op('add_n')
def _add_n(c, a):
  return t3f.approximate.add_n(given(a) if c['f'] == 0 else tuple(a), c['cap'])


@op('reduce_sum')
def _reduce_sum(c, a):
  cf = c['cf']
  if cf['k'] == 'cube':
    w = np.ones((a[0].batch_size, 1, 2)).tolist()
  else:
    w = coef_arg(cf, a[0].dtype)
  if w is None and c['f'] == 0:
    return t3f.approximate.reduce_sum_batch(a[0], c['cap'])
  return t3f.approximate.reduce_sum_batch(a[0], c['cap'], w)


# --------------------------------------------------------------------------
# Kronecker products
# --------------------------------------------------------------------------
@op('kdet')
def _kdet(c, a):
  return t3f.kronecker.determinant(a[0])


@op('kslog')
def _kslog(c, a):
  return t3f.kronecker.slog_determinant(a[0])


@post('kslog')
def _kslog_post(c, a, y):
  sign, logdet = [z.numpy() for z in y]
  if PROBES is not None:
    size = math.prod(a[0].get_raw_shape()[0].as_list())
    r = obs_num(np.asarray(logdet, dtype=np.float64) / (size * math.log(2.0)))
    r['dt'] = dtname(logdet.dtype)
  elif SCALED and np.all(logdet < np.inf):
    # the determinant itself may be out of range
    lg = np.asarray(logdet, dtype=np.float64) / math.log(2.0)
    up = np.where(np.isfinite(lg), np.ceil(lg), 0.0)
    r = obs_num(np.asarray(sign * np.exp2(lg - up), dtype=logdet.dtype))
    r['kx'] = [k - int(u) for k, u in zip(r['kx'], up.reshape(-1))]
  else:
    r = obs_num(np.asarray(sign * np.exp(logdet)))
  sg = np.asarray(sign, dtype=np.float64).reshape(-1)
  if sign.shape != logdet.shape or sign.dtype != logdet.dtype or not np.all(np.isin(sg, (-1, 0, 1))):
    r['t'] = 'mismatch'
  return r, {'sg': [int(z) for z in sg] if np.all(np.isfinite(sg)) else []}


@op('kinv')
def _kinv(c, a):
  return t3f.kronecker.inv(a[0])


@op('kchol')
def _kchol(c, a):
  return t3f.kronecker.cholesky(a[0])


# --------------------------------------------------------------------------
# very large objects
# --------------------------------------------------------------------------
VARS = 0


@op('l_sparse')
def _l_sparse(c, a):
  x = a[0]
  rows, cols = modes_of(x)

  def linear(ix, n):
    r = 0
    for i, k in zip(ix, n):
      r = r * k + i
    return r
  if x.is_tt_matrix():
    idx = [[linear(p['i'], rows), linear(p['j'], cols)] for p in c['at']]
    shp = [math.prod(rows), math.prod(cols)]
  else:
    idx, shp = [p['i'] for p in c['at']], rows
  return t3f.flat_inner(x, tf.SparseTensor(np.array(idx, dtype=np.int64), tf.constant(c['w'], dtype=x.dtype), shp))


@op('l_shape')
def _l_shape(c, a):
  return a[0].get_shape().as_list() if c['f'] == 'get_shape' else t3f.lazy_shape(a[0])


@post('l_shape')
def _l_shape_post(c, a, y):
  return obs_num(np.array([int(n) % p for p in PRIMES for n in y], dtype=np.int64)), {}


@op('l_var')
def _l_var(c, a):
  global VARS
  VARS += 1
  return t3f.get_variable('long%d' % VARS, initializer=a[0], dtype=a[0].dtype)


@op('l_like')
def _l_like(c, a):
  return t3f.ones_like(a[0]) if c['one'] else t3f.zeros_like(a[0])


@op('l_const')
def _l_const(c, a):
  shape = c['rows'] if c['f'].startswith('tensor') or c['f'] == 'eye' else [c['rows'], c['cols']]
  return getattr(t3f, c['f'])(shape, dtype=DT[c['dt']])


@op('l_rand')
def _l_rand(c, a):
  tf.random.set_seed(c['seed'])
  return getattr(t3f, c['f'])([c['rows'], c['cols']], tt_rank=c['rank'], dtype=tf.float64)


@post('l_rand')
def _l_rand_post(c, a, y):
  """log2 of the mean square of the elements."""
  res = []
  for cores in elt_cores(y):
    g, log = np.ones((1, 1)), 0.0
    for k in cores:
      k = k.reshape(k.shape[0], -1, k.shape[-1])
      g = np.einsum('ab,anc,bnd->cd', g, k, k) / k.shape[1]
      m = float(np.max(np.abs(g)))
      g, log = g / m, log + np.log2(m)
    res.append(log + np.log2(float(g[0, 0])))
  return obs_num(np.asarray(np.mean(res))), {}


# --------------------------------------------------------------------------
# initializers
# --------------------------------------------------------------------------
INITS = {}


def seq_form(v, sf):
  return given([list, tuple, lambda z: np.array(z)][sf](v))


def init_args(c):
  f = c['f']
  rows, cols = list(c['rows']), list(c['cols'])
  if c['frac'] == 'shape':
    rows[-1] = rows[-1] + 0.5
  matrix = 'matrix' in f or f in ('glorot_initializer', 'he_initializer', 'lecun_initializer')
  if matrix:
    parts = [None if c['rnone'] else rows, None if c['cnone'] else cols]
    if c['nest']:
      shape = rows
    elif c['sf'] == 2 and None not in parts and len(rows) == len(cols):
      shape = np.array(parts)
    else:
      given(rows), given(cols)
      shape = given([list, tuple][c['sf'] % 2](parts))
  else:
    shape = [rows, rows] if c['nest'] else seq_form(rows, c['sf'])
  kw = {}
  if c['dt'] != 'default':
    kw['dtype'] = DT[c['dt']]
  if f in ('tensor_ones', 'tensor_zeros', 'eye', 'matrix_ones', 'matrix_zeros'):
    return shape, kw
  if c['rkk'] == 'num':
    kw['tt_rank'] = [int, int, np.int64][c['sf']](c['rkv'][0])
    if c['frac'] == 'rank':
      kw['tt_rank'] = c['rkv'][0] + 0.5
  elif c['rkk'] == 'vec':
    kw['tt_rank'] = seq_form(c['rkv'], c['sf'])
    if c['frac'] == 'rank':
      kw['tt_rank'] = [r + 0.5 for r in c['rkv']]
  elif c['frac'] == 'rank':
    kw['tt_rank'] = 1.5
  if 'batch' in f:
    if c['bsk'] == 'num':
      kw['batch_size'] = c['bsv']
    if c['frac'] == 'bs':
      kw['batch_size'] = 2.5
  if 'initializer' not in f:
    if c['mean'] != 0:
      kw['mean'] = float(c['mean'])
    if c['sd'] != 0:
      kw['stddev'] = c['sn'] / c['sd']
  return shape, kw


@op('init')
def _init(c, a):
  shape, kw = init_args(c)
  return getattr(t3f, c['f'])(shape, **kw)


@op('like')
def _like(c, a):
  return (t3f.ones_like if c['one'] else t3f.zeros_like)(a[0])


@op('like_bad')
def _like_bad(c, a):
  v = [np.ones((2, 3)), tf.ones((2, 3)), [1, 2], None, 3.0][c['v']]
  return (t3f.ones_like if c['one'] else t3f.zeros_like)(v)


@op('moments')
def _moments(c, a):
  tf.random.set_seed(c['seed'])
  if c['f'] == 'keras':
    return [t3f.nn.KerasDense(c['rows'], c['cols'], **layer_kwargs(c)).matrix for _ in range(c['draws'])]
  shape, kw = init_args(c)
  return [getattr(t3f, c['f'])(shape, **kw) for _ in range(c['draws'])]


@post('moments')
def _moments_post(c, a, ys):
  up = float(c['up'])
  prints = [(k, q.tobytes()) for y in ys for e in elt_cores(y)
            for k, q in enumerate(e) if q.size > 1]
  distinct = len(set(prints)) == len(prints)     # no core is drawn twice
  if c['cores']:
    d = len(ys[0].tt_cores)
    m1, m2 = [], []
    for k in range(d):
      z = np.concatenate([np.asarray(y.tt_cores[k].numpy(), np.float64).reshape(-1) for y in ys]) * up
      m1.append(z.mean())
      m2.append(z.var())
  else:
    z = np.stack([v * up for y in ys for v in vals_of(y)])
    m1, m2 = [z.mean()], [(z ** 2).mean()]
  s, v = fix([m1, m2])
  return {'t': 'moments'}, {'bad': v is None, 'S': s, 'm1': v[0] if v else [], 'm2': v[1] if v else [],
                            'distinct': bool(distinct)}


# --------------------------------------------------------------------------
# regularizers
# --------------------------------------------------------------------------
CORE_PEN = {'sumsq': lambda q: tf.reduce_sum(q ** 2), 'sumabs': lambda q: tf.reduce_sum(tf.abs(q)),
            'sum': lambda q: tf.reduce_sum(q), 'max': lambda q: tf.reduce_max(tf.abs(q))}


@op('reg')
def _reg(c, a):
  unit = 2.0 ** c.get('se', 0)
  v = c['num'] / c['den'] * unit
  scale = {'float': float, 'np32': np.float32, 'np64': np.float64, 'int': int, 'npint': np.int64,
           'bool': bool}[c['st']](v)
  if c['f'] == 'l2':
    res = t3f.l2_regularizer(scale)(a[0])
  else:
    res = t3f.cores_regularizer(CORE_PEN[c['f']], scale)(a[0])
  return res if res is None else res / unit


# --------------------------------------------------------------------------
# the Keras layer
# --------------------------------------------------------------------------
ACTS = {'none': None, 'relu': 'relu', 'linear': 'linear', 'square': tf.square, 'abs': tf.abs}
K_OPS = {'k_set', 'k_train'}      # calls that change their first argument


def layer_kwargs(c):
  kw = {}
  if c['rkk'] == 'num':
    kw['tt_rank'] = c['rkv'][0]
  elif c['rkk'] == 'vec':
    kw['tt_rank'] = c['rkv']
  if c['ki'] != 'default':
    kw['kernel_initializer'] = c['ki']
  return kw


@op('k_new')
def _k_new(c, a):
  kw = layer_kwargs(c)
  if c['act'] != 'none' or c['f'] == 1:
    kw['activation'] = ACTS[c['act']]
  if not c['bias'] or c['f'] == 1:
    kw['use_bias'] = c['bias']
  if c['dt'] != 'default':
    kw['dtype'] = DT[c['dt']].name
  if c['nm']:
    kw['name'] = c['nm']
  rows, cols = seq_form(c['rows'], c['f']), seq_form(c['cols'], c['f'])
  layer = t3f.nn.KerasDense(rows, cols, bias_initializer=c['bi'] / c['bden'], **kw)
  if not c['nm']:
    fresh = layer.name not in LAYER_NAMES
    LAYER_NAMES.add(layer.name)
  layer_names[id(layer)] = (layer, layer.name == c['nm'] if c['nm'] else fresh)
  return layer


LAYER_NAMES = set()               # names not given by a program
layer_names = {}                  # layers and whether their names are right


@op('k_copy')
def _k_copy(c, a):
  if c['f'] == 0:
    layer = type(a[0]).from_config(a[0].get_config())
  else:
    layer = tf.keras.models.clone_model(layer_model(a[0])).layers[-1]
  if c['mv']:
    layer.set_weights(a[0].get_weights())
  layer_names[id(layer)] = (layer, layer.name == a[0].name)
  return layer


@op('k_get')
def _k_get(c, a):
  return a[0]


def layer_weights(layer, cores, b):
  """The given weights in the order of layer.weights."""
  cores = list(cores)
  res = []
  for w in layer.weights:
    res.append(np.array(b, layer.dtype) if len(w.shape) == 1 else
               np.array(cores.pop(0), layer.dtype).reshape(w.shape))
  return res


@op('k_set')
def _k_set(c, a):
  a[0].set_weights(layer_weights(a[0], c['e'], c['b']))
  return a[0]


def layer_model(layer):
  n = int(np.prod(layer.tt_shape[0]))
  return tf.keras.Sequential([tf.keras.Input((n,)), layer])


@op('k_call')
def _k_call(c, a):
  f = c['f']
  x = np.array(c['x'], np.float32 if f == 3 else a[0].dtype).reshape(c['n'], -1)
  if f == 1:
    return layer_model(a[0])(x)
  if f == 2:
    return tf.function(lambda z: a[0](z), autograph=False)(tf.constant(x))
  return a[0](x if f == 0 else tf.constant(x))


@op('k_train')
def _k_train(c, a):
  layer = a[0]
  x = np.array(c['x'], layer.dtype).reshape(c['n'], -1)
  w = np.array(c['w'], layer.dtype).reshape(c['n'], -1)
  if c['f'] == 1:
    model = layer_model(layer)
    model.compile(optimizer=tf.keras.optimizers.SGD(1.0), loss=lambda t, y: tf.reduce_sum(t * y),
                  run_eagerly=True)     # compiled training steps race in this Keras, see DESIGN.md
    model.train_on_batch(x, w)
    return layer
  with tf.GradientTape() as tape:
    loss = tf.reduce_sum(w * layer(x))
  ws = layer.trainable_weights
  tf.keras.optimizers.SGD(1.0).apply_gradients(zip(tape.gradient(loss, ws), ws))
  return layer


def _layer_post(c, a, y):
  ex = {'ws': [[int(k) for k in w.shape] for w in y.trainable_weights], 'nnt': len(y.non_trainable_weights),
        'os': [int(k) for k in y.compute_output_shape((7, int(np.prod(y.tt_shape[0]))))]}
  vec = [w for w in y.weights if len(w.shape) == 1]
  ex['hasb'] = len(vec) > 0
  s, v = fix([np.array(vec[0])]) if vec else (1, [[]])
  ex.update(bS=s, b=v[0] if v is not None else [], bbad=v is None)
  ex['nmok'] = layer_names[id(y)][1]
  dts = sorted(set(DTN.get(tf.as_dtype(np.array(w).dtype), 'other') for w in y.weights))
  ex['wdt'] = dts[0] if len(dts) == 1 else 'mixed'
  m = y.matrix
  ex['w'] = obs_tt(m, cores=[np.array(k) for k in m.tt_cores])
  return {'t': 'layer'}, ex


for _n in ('k_new', 'k_get', 'k_set', 'k_train', 'k_copy'):
  POST[_n] = _layer_post


# --------------------------------------------------------------------------
# variables
# --------------------------------------------------------------------------


@op('v_get')
def _v_get(c, a):
  kw = {}
  if a:
    kw['initializer'] = a[0]
  if c['dt'] != 'default':
    kw['dtype'] = DT[c['dt']]
  if not c['tr'] or c['f'] == 1:
    kw['trainable'] = c['tr']
  if c['coll']:
    kw['collections'] = ['mine']
  if c['reg']:
    kw['regularizer'] = t3f.l2_regularizer(c['reg'][0] / c['reg'][1])

  def get(scopes):
    if not scopes:
      if c['reuse']:
        with V1.variable_scope(V1.get_variable_scope(), reuse=True):
          return t3f.get_variable(c['name'], **kw)
      return t3f.get_variable(c['name'], **kw)
    with V1.variable_scope(scopes[0], reuse=True if c['reuse'] and len(scopes) == 1 else None):
      if len(scopes) == 1:
        return t3f.get_variable(c['name'], **kw)
      return get(scopes[1:])
  v = get(c['scope'])
  if SESSION is not None:
    for core in v.tt_cores:
      if not SESSION.run(V1.is_variable_initialized(core)):
        SESSION.run(core.initializer)
  return v


@post('v_get')
def _v_get_post(c, a, y):
  if SESSION is not None:
    names = [set(v.name for v in V1.get_collection(k)) for k in
             (V1.GraphKeys.TRAINABLE_VARIABLES, V1.GraphKeys.GLOBAL_VARIABLES, 'mine')]
    tr, glob, mine = [[q.name in n for q in y.tt_cores] for n in names]
  else:
    tr = [bool(q.trainable) for q in y.tt_cores]
    glob, mine = [True], [False]
  return observe(y), {'tr': 'all' if all(tr) else 'none' if not any(tr) else 'some',
                      'glob': any(glob), 'mine': all(mine), 'vname': str(y.name)}


@op('v_assign')
def _v_assign(c, a):
  return t3f.assign(a[0], a[1], **({'name': 'put'} if c['f'] else {}))


@op('v_read')
def _v_read(c, a):
  return a[0]


@op('v_op')
def _v_op(c, a):
  f, v = c['f'], a[0]
  if f == 'full':
    return t3f.full(v)
  if f == 'norm2':
    return t3f.frobenius_norm_squared(v)
  if f == 'inner':
    return t3f.flat_inner(v, a[1])
  return t3f.full({'add': lambda: v + a[1], 'sub': lambda: v - a[1], 'mul': lambda: v * a[1],
                   'round': lambda: t3f.round(v), 'orth': lambda: t3f.orthogonalize_tt_cores(v),
                   'renorm': lambda: t3f.renormalize_tt_cores(v),
                   'proj': lambda: t3f.project(v + v, v), 'projsum': lambda: t3f.project_sum(v + v, v),
                   'grad': lambda: t3f.gradients(lambda x: t3f.frobenius_norm_squared(x, differentiable=True), v)}[f]())


@op('v_node')
def _v_node(c, a):
  return t3f.full(a[0])


@post('v_node')
def _v_node_post(c, a, y):
  return {'t': 'node'}, {}


@op('v_eval')
def _v_eval(c, a):
  return a[0]


def store_state():
  """Core variables and regularization losses of the current graph."""
  cores = {v.name for v in V1.global_variables() + V1.get_collection('mine') + V1.trainable_variables()}
  return {'nv': len(cores), 'lv': [obs_num(t) for t in V1.get_collection(V1.GraphKeys.REGULARIZATION_LOSSES)]}


# --------------------------------------------------------------------------
# derivatives with respect to cores
# --------------------------------------------------------------------------
DIFFS = 0


def diff_arg(z):
  """The numbers given to call z."""
  if z['op'] == 'scale':
    return np.array(z['num'] / z['den'])
  if z['op'] in ('scale_batch', 'inner_sparse'):
    return np.array(z['w'], np.float64) / z.get('wden', 1)
  return np.array(z['v'], np.float64).reshape(z['n'], z['mm'])


@op('diff')
def _diff(c, a):
  global DIFFS
  DIFFS += 1
  f = c['f']
  nw = next(z for z in c['seq'] if z['op'] == 'new' and z['o'] == c['x'])
  cls = TensorTrainBatch if nw['kind'] == 'batch' else TensorTrain
  if c['arg']:
    init = [tf.constant(diff_arg(c['seq'][c['arg'] - 1]), DT[nw['dt']])]
  else:
    init = [tf.constant(k) for k in np_cores(nw)]

  def value(x):
    regs = {}
    y = None
    for i, z in enumerate(c['seq']):
      if z is nw and not c['arg']:
        y = x
      else:
        if f == 2:
          z = dict(z, m='graph')
        if i + 1 == c['arg']:
          z = dict(z, arg=tf.convert_to_tensor(x) if f == 1 else x)
        y = OPS[z['op']](z, [regs[i] for i in z['a']])
      regs[z['o']] = y
    if c['seq'][-1]['op'] == 'norm':
      y = y * y
    return tf.reduce_sum(tf.reshape(y, [-1]) * tf.constant(c['w'], y.dtype))

  def dense(g, q):
    return tf.zeros_like(q) if g is None else tf.convert_to_tensor(g)

  if f == 2:         # symbolic derivatives of a compiled function
    def body(*xs):
      y = value(xs[0] if c['arg'] else cls(xs, convert_to_tensors=False))
      return [dense(g, q) for q, g in zip(xs, tf.gradients(y, list(xs)))]
    return [np.asarray(g) for g in tf.function(body, autograph=False)(*init)]
  if f == 1:         # variables
    init = [tf.Variable(k) for k in init]
  if c['arg']:
    x, xs = init[0], init
  else:
    x = cls(init, convert_to_tensors=f != 1)
    if f == 3:       # a TT-variable
      x = t3f.get_variable('diff%d' % DIFFS, initializer=x, dtype=DT[nw['dt']])
    xs = list(x.tt_cores)
  with tf.GradientTape() as tape:
    tape.watch(xs)
    y = value(x)
  return [np.asarray(dense(g, q)) for q, g in zip(xs, tape.gradient(y, xs))]


@post('diff')
def _diff_post(c, a, y):
  nw = next(z for z in c['seq'] if z['op'] == 'new' and z['o'] == c['x'])
  dirs = [np.array(c['D'], np.float64).reshape(y[0].shape)] if c['arg'] else np_cores(dict(nw, e=c['D']))
  r = obs_num(np.array([np.sum(g.astype(np.float64) * k) for g, k in zip(y, dirs)]))
  r['dt'] = dtname(y[0].dtype)
  return r, {}


# --------------------------------------------------------------------------
# compiled functions
# --------------------------------------------------------------------------
def in_graph(c, args):
  """The call inside a tf.function whose inputs are the cores of the arguments,
  with an unknown batch size (of all batches, or of one only) and unknown shapes
  of the other tensors in mode "dyn";
  the arguments themselves are captured for g = 2 in mode "graph"."""
  objs = []                    # the arguments and the points they are tangent at
  for x in args:
    for z in (x, getattr(x, 'projection_on', None)):
      if z is not None and not any(z is q for q in objs):
        objs.append(z)
  dyn = c['m'] == 'dyn'
  batches = [z for z in objs if isinstance(z, TensorTrainBatch)]
  known = [z for i, z in enumerate(batches) if not dyn or c['g'] and len(batches) > 1 and i != c['g'] - 1]
  captured = c.get('g', 0) == 2 and not dyn
  sig = [] if captured else [
      tf.TensorSpec(q.shape if isinstance(z, TensorTrain) or any(z is k for k in known) else [None] + list(q.shape[1:]), q.dtype)
      for z in objs for q in z.tt_cores]
  trace = {}

  def body(*flat):
    flat = list(flat)
    new = []
    for z in objs:
      if captured:
        new.append(z)
        continue
      cores = [flat.pop(0) for _ in z.tt_cores]
      kw = {'convert_to_tensors': False}
      if c.get('g', 0) == 1 and not dyn:
        kw.update(shape=z.get_raw_shape(), tt_ranks=z.get_tt_ranks())
      new.append(type(z)(cores, **kw))

    def there(x):
      return next(n for z, n in zip(objs, new) if z is x)
    for z, n in zip(objs, new):
      if getattr(z, 'projection_on', None) is not None and not captured:
        n.projection_on = there(z.projection_on)
    global UNKNOWN
    UNKNOWN = 1 + c['g'] if dyn else 0
    try:
      y = OPS[c['op']](c, [there(x) for x in args])
    finally:
      UNKNOWN = 0
    trace['y'] = y
    if isinstance(y, TensorTrainBase):
      trace['meta'] = meta_tt(y)
      tag = getattr(y, 'projection_on', None)
      trace['tag'] = next((z for z, n in zip(objs, new) if n is tag), None)
      return list(y.tt_cores)
    if isinstance(y, (tuple, list)) and all(isinstance(q, tf.Tensor) for q in y) or isinstance(y, tf.Tensor):
      return y
    return tf.constant(0)
  flat = [] if captured else [tf.constant(val(q)) for z in objs for q in z.tt_cores]
  res = tf.function(body, input_signature=sig, autograph=False)(*flat)
  y = trace['y']
  if isinstance(y, TensorTrainBase):
    out = type(y)(res)
    out.verif_meta = trace['meta']
    if trace['tag'] is not None:
      out.projection_on = trace['tag']
    return out
  if isinstance(y, tf.Tensor) or isinstance(y, (tuple, list)) and all(isinstance(q, tf.Tensor) for q in y):
    return res
  return y


# --------------------------------------------------------------------------
def run_call(c, regs):
  """Executes one call; returns the event."""
  ev = {'ok': True, 'err': '', 'r': {'t': 'none'}, 'chg': []}
  before = {i: snap(x) for i, x in regs.items()}
  told = json.dumps(c)
  GIVEN.clear()
  global PROBES
  PROBES = c.get('pr')
  out = None
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(CALL_TIMEOUT)
  try:
    args = [regs[i] for i in c.get('a', [])]
    out = in_graph(c, args) if c.get('m') in ('graph', 'dyn') else OPS[c['op']](c, args)
    if c['op'] in POST:
      ev['r'], extra = POST[c['op']](c, args, out)
      ev.update(extra)
    else:
      ev['r'] = observe(out)
  except CallTimeout:
    ev.update(ok=False, err='Timeout', r={'t': 'none'})
  except Exception as e:
    ev.update(ok=False, err=type(e).__name__, r={'t': 'none'}, msg=str(e)[:300])
    out = None
  finally:
    signal.alarm(0)
  if SESSION is not None and c['op'].startswith('v_'):
    ev.update(store_state())
  own = c['a'][:1] if c['op'] in K_OPS else []
  ev['chg'] = [i for i, x in regs.items() if i not in own and snap(x) != before[i]]
  if given_changed() or json.dumps(c) != told:
    ev['chg'].append(0)          # a list or array given to the call
  if hasattr(out, 'verif_meta'):
    del out.verif_meta           # what was known in this trace only
  if ev['ok'] and c.get('o', 0):
    regs[c['o']] = out
  return ev


def limit_memory():
  """Nothing in programs with very large objects needs much memory."""
  with open('/proc/self/statm') as f:
    size = int(f.read().split()[0]) * resource.getpagesize()
  soft, hard = resource.getrlimit(resource.RLIMIT_AS)
  if soft == resource.RLIM_INFINITY:
    resource.setrlimit(resource.RLIMIT_AS, (size + 3 * 2 ** 30, hard))


def run_program(p):
  global SESSION
  if any(c.get('m') == 'v1' for c in p['calls']):
    with tf.Graph().as_default(), V1.Session() as SESSION:
      try:
        return run_calls(p)
      finally:
        SESSION = None
  return run_calls(p)


def run_calls(p):
  global SCALED
  SCALED = any('sx' in c for c in p['calls'])
  if any('pr' in c for c in p['calls']):
    limit_memory()
  regs = {}
  evs = []
  calls = []
  for c in p['calls']:
    if any(i not in regs for i in c.get('a', [])):
      break
    calls.append(c)
    evs.append(run_call(c, regs))
    if not isinstance(regs.get(c.get('o', 0), None), (TensorTrainBase, type(None))) and \
        evs[-1]['r']['t'] not in ('tt', 'batch', 'layer', 'node'):
      regs.pop(c['o'], None)
  return {'idx': p['idx'], 'calls': calls, 'evs': evs}


def main():
  progdir, out, shard, nshards = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
  names = sorted((int(f[:-5]) for f in os.listdir(progdir) if f.endswith('.json')))
  with open(out, 'w') as f:
    for i, n in enumerate(names):
      if i % nshards != shard:
        continue
      with open(out + '.cur', 'w') as g:
        g.write(str(n))
      with open(os.path.join(progdir, '%d.json' % n)) as g:
        p = json.load(g)
      f.write(json.dumps(run_program(p)) + '\n')
      f.flush()


if __name__ == '__main__':
  main()
