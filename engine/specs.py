def scal(mode, cx=(0,), bins=(1, 2, 3, 4, 5, 6, 7), uns=(1, 2, 3, 4, 5)):
    v = '-DVMODE=%d' % (1 << mode)
    return ([dict(file='scal_bin.cpp', suffix='%d_%d' % (i, mode), defs=['-DOPN=%d' % i, v], modes=cx) for i in bins] +
            [dict(file='scal_un.cpp', suffix='%d_%d' % (i, mode), defs=['-DOPN=%d' % i, v], modes=cx) for i in uns])


def misc(ops, cx=(0,), vmode=15):
    return [dict(file='scal_misc.cpp', suffix='%d_%d' % (i, vmode), defs=['-DOPN=%d' % i, '-DVMODE=%d' % vmode], modes=cx) for i in ops]


NOCUST_B, NOCUST_U = (1, 2, 3, 4, 5, 6), (1, 2, 3, 4)
PROG = [dict(file='scal_prog.cpp', modes=(0,))]
PROGC = [dict(file='scal_prog.cpp', modes=(1,))]
DERIV = [dict(file='scal_deriv.cpp', modes=(0,))]


def mat(file, ops, modes, back=1, cx=(0,)):
    return [dict(file=file, suffix='%d_%d_%d' % (i, m, back), defs=['-DOPN=%d' % i, '-DMMODE=%d' % m, '-DBACK=%d' % back], modes=cx) for i in ops for m in modes]


def par(hs):   # the parallel-execution build
    return [dict(h, suffix=h.get('suffix', '') + 'p', defs=list(h.get('defs', [])) + ['-DSYMX_PAR']) for h in hs]


def flat(hs, cut=()):   # the build with flat hash maps
    return [dict(h, suffix=h.get('suffix', '') + 'f', defs=list(h.get('defs', [])) + ['-DSYMX_FLAT']) for h in hs]


ALG = range(1, 8)


def shape(ops, modes, back=1, cx=(0,)):   # the operations on many more shapes
    return mat('mat_shape.cpp', ops, modes, back, cx)


PROPS = {
 'C20': dict(harness=mat('mat_op.cpp', ALG, [1]) + shape([1, 2], [1])),
 'C21': dict(harness=mat('mat_op.cpp', ALG, [7], 0) + mat('mat_op2.cpp', [8, 10, 12, 13, 17, 19, 21, 24, 28], [7], 0) + shape([1, 2, 3, 4, 6], [7], 0),
             thorough=mat('mat_op2.cpp', [9, 11, 14, 15, 16, 18, 20, 22, 23], [7], 0)),
 'C22': dict(harness=mat('mat_op.cpp', ALG, [2]) + shape([1, 2], [2])),
 'C23': dict(harness=mat('mat_op.cpp', ALG, [4]) + shape([1, 2], [4])),
 'C25': dict(harness=mat('mat_op.cpp', [6], [7]) + mat('mat_op2.cpp', [18, 19, 20, 24], [1, 2, 4]) + shape([2, 7], [1, 2, 4])),
 'C26': dict(harness=mat('mat_op2.cpp', [25, 26, 27], [1, 2, 4]) + shape([8], [1, 2, 4]), skip=['rev:A%B:II:*']),
 'C27': dict(harness=mat('mat_op2.cpp', [13, 14, 15, 23, 28], [1, 2, 4]) + shape([4, 5], [1, 2, 4])),
 'C28': dict(harness=mat('mat_conv.cpp', range(1, 7), [1], 1) + mat('mat_conv.cpp', range(1, 7), [1], 0) + shape([9], [1], 1) + shape([9], [1], 0)),
 'C29': dict(harness=mat('mat_conv.cpp', range(1, 7), [2, 4], 1) + mat('mat_conv.cpp', [2, 4, 6], [6], 0) + shape([9], [2, 4], 1) + shape([9], [6], 0)),
 'C30': dict(harness=mat('mat_op2.cpp', [16, 17, 21, 22], [1, 2, 4]) + shape([6], [1, 2, 4])),
 'C38': dict(harness=mat('mat_op2.cpp', range(8, 13), [1, 2, 4]) + shape([3], [1, 2, 4])),
 'C40': dict(harness=mat('mat_op.cpp', [1, 3, 5, 6], [7], 1, (1,)) + mat('mat_op.cpp', [3, 5, 6], [7], 0, (1,)) + mat('mat_op2.cpp', [8, 16, 21], [7], 1, (1,)), maxspecial=1),
 'C24': dict(harness=mat('mat_named.cpp', range(1, 8), [1, 2, 4])),
 'C31': dict(harness=mat('mat_prim.cpp', [1, 2], [1], 1) + mat('mat_prim.cpp', [1, 2], [1], 0)),
 'C32': dict(harness=mat('mat_prim.cpp', [3], [1])),
 'C33': dict(harness=mat('mat_hist.cpp', [1, 2], [7]) + mat('mat_hist.cpp', [1, 2], [7], 0), maxspecial=1, maxpaths=20),
 'C35': dict(harness=mat('mat_obj.cpp', [1], [1])),
 'C36': dict(harness=mat('mat_obj.cpp', [2, 4], [1])),
 'C37': dict(harness=mat('mat_obj.cpp', [3], [1])),
 'C39': dict(harness=mat('mat_ex.cpp', [1], [1])),
 'C34': dict(harness=mat('mat_ex.cpp', [3], [1])),
 'C41': dict(harness=mat('mat_ex.cpp', [2], [1])),
 'C42': dict(harness=par(mat('mat_prim.cpp', [1, 2], [1], 0) + mat('mat_prim.cpp', [3], [1]) + mat('mat_op.cpp', [1, 3, 5, 6, 7], [7], 0) + mat('mat_op2.cpp', [9, 20, 21], [7], 0) + mat('mat_conv.cpp', [2], [7], 0) + mat('mat_ex.cpp', [3], [1]) + DERIV), maxspecial=1, maxpaths=20),
 'C43': dict(harness=flat(PROG + DERIV + scal(2, bins=(1, 2, 5), uns=(1,)) + mat('mat_named.cpp', range(1, 8), [4]) + mat('mat_op.cpp', [3, 5], [4]) + mat('mat_hist.cpp', [1], [7]) + mat('mat_obj.cpp', [2], [1])), maxspecial=1, maxpaths=30),
 'SMK': dict(harness=[dict(file='smoke.cpp', modes=(0,))], bounds='smoke'),
 'C01': dict(harness=scal(0) + PROG, cases=['eval:*']),
 'C02': dict(harness=scal(1) + PROG, cases=['fwd:*']),
 'C03': dict(harness=scal(2) + PROG, cases=['rev:*']),
 'C04': dict(harness=scal(3, bins=NOCUST_B, uns=NOCUST_U) + PROG, cases=['sym:*']),
 'C05': dict(harness=scal(4, bins=NOCUST_B, uns=NOCUST_U)),
 'C06': dict(harness=DERIV, cases=['tab:hess*', 'tab:symhess*'], maxspecial=1, maxpaths=30),
 'C07': dict(harness=DERIV, cases=['tab:jac*', 'tab:symgrad*', 'tab:symmat*', 'tab:mat*', 'tab:template*'], maxspecial=1, maxpaths=30),
 'C08': dict(harness=PROG + DERIV, cases=['hist:*'], maxspecial=1, maxpaths=40),
 'C09': dict(harness=PROG + misc((4, 6, 7)), cases=['reas:*', 'recu:*', 'handle:loop*'], maxspecial=1, maxpaths=40),
 'C10': dict(harness=misc((4,)), cases=['indep:*', 'leaf:*']),
 'C11': dict(harness=misc((4,)), cases=['handle:*']),
 'C12': dict(harness=misc((1, 2))),
 'C13': dict(harness=misc((3, 5), cx=(1,)) + misc((3,), cx=(0,)), maxspecial=1),
 'C14': dict(harness=[dict(h, defs=[h['defs'][0], '-DVMODE=15']) for h in scal(9, cx=(1,), bins=(1, 2, 3, 4, 6, 7), uns=(1, 2))] + PROGC + misc((6, 7), cx=(1,)), maxspecial=1, maxpaths=24),
}

import catalog
for _p in catalog.N:
    if _p['id'] in PROPS:
        PROPS[_p['id']]['bounds'] = _p['bounds']
for _v in PROPS.values():
    _v.setdefault('bounds', 'draft')
