"""Per-property configuration of the checks."""

ASSUMPTIONS = [
    'the observation function (numpy contraction of the returned cores) and the fixed-point '
    'recording in harness/driver.py are trusted',
    'programs are sampled from the specification by a deterministic function of the seed; '
    'coverage is bounded by the generator (see DESIGN.md)',
]

# Calls whose recorded numbers are compared with integers computed by TLC: used
# to check that corrupted traces are rejected.
EXACT_OPS = {'diff', 'v_get', 'v_assign', 'v_read', 'v_op', 'v_eval', 'k_call', 'add_n', 'reduce_sum', 'kdet', 'kinv', 'kchol', 'like', 'reg', 'full', 'add', 'sub', 'neg', 'mul', 'transpose', 'matmul', 'inner', 'gather',
             'slice', 'concat', 'pair', 'gram', 'bilin', 'bilin2', 'round', 'to_tt', 'orth', 'renorm', 'project', 'project_sum',
             'project_matmul', 'add_proj', 'deltas', 'grad', 'hvp', 'pair_proj', 't_full'}

LOOSE_OPS = {'round', 'to_tt', 'project', 'project_sum', 'project_matmul', 'add_proj', 'deltas',
             'grad', 'hvp', 'pair_proj', 't_full'}

# calls whose result has an unspecified value unless the rank cap is large
MAY_TRUNCATE = {'add_n', 'reduce_sum'}

FRAME = {'operand_modified'}

VALUE = {'value', 'value_not_finite', 'raised', 'not_rejected', 'error_type', 'kind', 'result_shape',
         'matrix_or_tensor', 'raw_shape', 'batch_size', 'rank_bound', 'ranks', 'core_shapes',
         'boundary_ranks', 'ndims', 'is_tt_matrix', 'reported_tt_ranks', 'reported_raw_shape',
         'reported_batch_size', 'reported_shape', 'negative_norm', 'approximation', 'orthogonality',
         'equal_core_norms', 'not_in_tangent_space', 'projection_orthogonality', 'sign'}

PROPS = {
    'C01': dict(quick=1500, thorough=5000, ignore=FRAME),
    'C02': dict(quick=1500, thorough=6000, ignore=FRAME, probes=('meta', 'dtype')),
    'C03': dict(quick=1600, thorough=8000, ignore=FRAME),
    'C04': dict(quick=1500, thorough=6000, ignore=FRAME),
    'C05': dict(quick=1500, thorough=6000, ignore=FRAME),
    'C06': dict(quick=1500, thorough=6000, ignore=FRAME),
    'C07': dict(quick=1500, thorough=6000, ignore=FRAME),
    'C08': dict(quick=1800, thorough=6000, ignore=FRAME),
    'C09': dict(quick=1800, thorough=6000, ignore=FRAME),
    'C10': dict(quick=1800, thorough=5000, ignore=FRAME),
    'C11': dict(quick=1500, thorough=5000, ignore=FRAME),
    'C12': dict(quick=1500, thorough=5000, ignore=FRAME),
    'C13': dict(quick=1000, thorough=4000, ignore=FRAME),
    'C14': dict(quick=1000, thorough=4000, ignore=FRAME),
    'C15': dict(quick=1000, thorough=4000, ignore=FRAME),
    'C16': dict(quick=900, thorough=4000, ignore=FRAME),
    'C17': dict(quick=1500, thorough=5000, ignore=FRAME),
    'C18': dict(quick=1500, thorough=5000, ignore=FRAME),
    'C19': dict(quick=1500, thorough=5000, ignore=FRAME, probes=('meta', 'dtype')),
    'C20': dict(quick=182, thorough=1300, shards=8, ignore=FRAME, probes=('moment',)),
    'C21': dict(quick=700, thorough=4000, probes=('value', 'raise', 'frame')),
    'C23': dict(quick=2000, thorough=4000, ignore=FRAME),
    'C24': dict(quick=240, thorough=2400, probes=('value', 'raise', 'frame')),
    'C25': dict(quick=1500, thorough=5000, ignore=FRAME),
    'C22': dict(quick=1200, thorough=5000, ignore=VALUE, keep=True, always={'cast', 'construct'},
                probes=('dtype', 'frame')),
    'C26': dict(quick=1400, thorough=8000, ignore=set(), probes=('value', 'raise', 'frame')),
    'C27': dict(quick=600, thorough=5000, ignore=set(), probes=('value', 'raise')),
    'C28': dict(quick=176, thorough=3000, ignore=FRAME),
}
NOT_APPLICABLE = {}


def sweep(ops, depth, big):
  return ('MC_Sweep', dict(Ops=frozenset(ops), Depth=depth, Big3=big), ['LoopInv', 'Done'], ['Terminates'])


def machine(start, acts, depth, laws=('Laws1', 'Laws2')):
  return ('MC_Machine', dict(Start=start, Acts=frozenset(acts), Depth=depth),
          ['TypeOK', 'RankSound', 'MagSound', 'NoLoss'] + list(laws), ['Unchanged', 'Rejected'])


def scale(start, acts, depth):
  return ('MC_Scale', dict(Start=start, Acts=frozenset(acts), Depth=depth), ['Homogeneous', 'Some'], [])


def dense(mode, invs, deep=False):
  return ('MC_Dense', dict(Mode=mode, Deep=deep), invs, [])


ALG = ('add', 'sub', 'mul', 'neg', 'scale')
BATCH = ('add', 'mul', 'concat', 'expand', 'squeeze', 'slice', 'add_n')
MATS = ('add', 'mul', 'matmul', 'transpose', 'scale')
MIXED = ('add', 'mul', 'matmul', 'transpose', 'neg', 'slice', 'concat')
L3 = ('Laws1', 'Laws2', 'Laws3')
GRAD = ['Applies', 'GradIs', 'CombIs']
HESS = ['Applies', 'HessIs', 'HessSym', 'CombIs']
VARS = (['KeysAre', 'CreatedOnce', 'Coherent', 'LossesAre', 'FormFixed'], ['Rejected', 'Keeps', 'ValuesStay'])
TANGENT = ['LoopInv', 'BlockDone', 'Spaces', 'Members', 'Pairing']
DIFF = ['Linear', 'Euler', 'Substitution', 'Products', 'ByFactor', 'Some', 'Judged']
SLICE = ['LoopInv', 'SliceDone', 'ElementDone', 'PySlice', 'Digit']
LONG = ['Refines', 'Covered', 'RanksAre', 'SparseIs', 'SelfProjected', 'KronIs', 'InvIs']
GAUGE = ['Kept1', 'RanksBound']

# The models of the specification that are checked in the same run (module,
# constants, invariants, temporal properties): quick and thorough.
MC = {
    'C01': ([sweep(['full'], 3, 2)],
            [sweep(['full'], 3, 2), dense('weave', ['WeaveIs'])]),
    'C02': ([machine('mixed', BATCH, 1), sweep(['full', 'trans'], 2, 1)],
            [machine('mixed', BATCH, 2)]),
    'C03': ([sweep(['add'], 3, 2), sweep(['mul'], 2, 1), machine('tensors', ALG, 1, L3),
             scale('tensors', ALG, 1)],
            [sweep(['add', 'mul'], 3, 2), machine('tensors', ALG, 2, L3), scale('tensors', ALG, 2)]),
    'C04': ([sweep(['matmul', 'trans'], 2, 1), machine('matrices', MATS, 1, L3),
             scale('matrices', MATS, 1)],
            [sweep(['matmul', 'trans'], 3, 2), machine('matrices', MATS, 2, L3), scale('matrices', MATS, 1)]),
    'C05': ([sweep(['inner'], 3, 1), machine('mixed', ('add', 'mul'), 1)],
            [sweep(['inner'], 3, 2), machine('mixed', ('add', 'mul'), 2)]),
    'C06': ([sweep(['bilin'], 2, 1)], [sweep(['bilin'], 3, 1)]),
    'C07': ([machine('tensors', BATCH, 1, L3), ('MC_Tree', dict(MaxN=33), ['Conserved'], ['Ends'])],
            [machine('tensors', BATCH, 2)]),
    'C08': ([('MC_Slice', dict(Deep=False), SLICE, [])], [('MC_Slice', dict(Deep=True), SLICE, [])]),
    'C09': ([('MC_Slice', dict(Deep=False), SLICE, [])], [('MC_Slice', dict(Deep=True), SLICE, [])]),
    'C10': ([dense('rank', ['RankIs', 'SpacesAre']), dense('weave', ['WeaveIs'])],
            [dense('rank', ['RankIs', 'SpacesAre'], True), dense('weave', ['WeaveIs'])]),
    'C11': ([dense('rank', ['RankIs', 'SpacesAre']), ('MC_Gauge', dict(N=100), GAUGE, [])],
            [dense('rank', ['RankIs', 'SpacesAre'], True), ('MC_Gauge', dict(N=600), GAUGE, [])]),
    'C12': ([('MC_Gauge', dict(N=100), GAUGE, [])], [('MC_Gauge', dict(N=600), GAUGE, [])]),
    'C13': ([('MC_Tangent', dict(Deep=False, N=100), TANGENT, [])],
            [('MC_Tangent', dict(Deep=True, N=500), TANGENT, [])]),
    'C14': ([('MC_Tangent', dict(Deep=False, N=100), TANGENT, [])],
            [('MC_Tangent', dict(Deep=True, N=500), TANGENT, [])]),
    'C15': ([('MC_Grad', dict(N=120), GRAD, [])], [('MC_Grad', dict(N=1200), GRAD, [])]),
    'C16': ([('MC_Grad', dict(N=96), HESS, [])], [('MC_Grad', dict(N=960), HESS, [])]),
    'C17': ([('MC_Tree', dict(MaxN=33), ['Conserved', 'Neighbours', 'Rounds'], ['Ends']),
             dense('rank', ['RankIs'])],
            [('MC_Tree', dict(MaxN=200), ['Conserved', 'Neighbours', 'Rounds'], ['Ends']),
             dense('rank', ['RankIs'], True)]),
    'C18': ([dense('kron', ['DetIs', 'InvIs', 'Singular']), dense('chol', ['CholIs', 'NoChol'])],
            [dense('kron', ['DetIs', 'InvIs', 'Singular'], True), dense('chol', ['CholIs', 'NoChol'], True)]),
    'C19': ([('MC_Init', dict(Mode='const', Deep=False), ['ConstIs'], [])],) * 2,
    'C20': ([('MC_Init', dict(Mode='moments', Deep=False), ['MomentsAre'], [])],
            [('MC_Init', dict(Mode='moments', Deep=True), ['MomentsAre'], [])]),
    'C21': ([('MC_Vars', dict(Depth=3, EagerToo=True)) + VARS], [('MC_Vars', dict(Depth=4, EagerToo=True)) + VARS]),
    'C22': ([machine('mixed', MIXED, 1)], [machine('mixed', MIXED, 2)]),
    'C23': ([machine('mixed', MIXED, 1), sweep(['full', 'add', 'inner'], 2, 1)], [machine('mixed', MIXED, 2)]),
    'C24': ([('MC_Grad', dict(N=160), ['LayerIs'], [])], [('MC_Grad', dict(N=1600), ['LayerIs'], [])]),
    'C25': ([sweep(['inner'], 2, 1)], [sweep(['inner'], 3, 2)]),
    'C26': ([machine('mixed', MIXED, 1, L3), machine('matrices', ('add', 'matmul', 'transpose'), 2, ()),
             scale('mixed', ('mul', 'slice', 'concat'), 1)],
            [machine('mixed', MIXED, 2, L3), machine('matrices', MATS, 3, ())]),
    'C27': ([('MC_Diff', dict(Keys=12, Shapes=5), DIFF, [])], [('MC_Diff', dict(Keys=150, Shapes=5), DIFF, [])]),
    'C28': ([('MC_Long', dict(Keys=20), LONG, []), sweep(['add', 'matmul'], 2, 1)],
            [('MC_Long', dict(Keys=400), LONG, []), sweep(['add', 'mul', 'matmul', 'trans', 'inner', 'bilin'], 3, 1)]),
}
for _p in PROPS:
  PROPS[_p]['mc_quick'], PROPS[_p]['mc_thorough'] = MC[_p]
