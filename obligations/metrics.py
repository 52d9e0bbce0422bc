OBLIGATIONS = []
A = ['labels are below label_count; scores are asked after at least one observation']
def ob(prop, name, bound, **k):
    d = {x: k.pop(x) for x in list(k) if x.isupper()}
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='metrics.cpp', engine='symx', defs=d, bound=bound, assume=A, reach=['end'], **k))
for r in ('false', 'true'):
    ob('E01', 'error_' + r, 'every history of 4 operations, any labels, any tree size up to 64, use_ratio=%s' % r, M_ERR=1, OPS=4, RATIO=r)
    ob('E02', 'kappa2_' + r, '2 labels, every history of 4 operations, use_ratio=%s' % r, M_KAPPA=1, L=2, OPS=4, RATIO=r, procs=2)
ob('E02', 'kappa3', '3 labels, every history of 3 operations', M_KAPPA=1, L=3, OPS=3, procs=2)
ob('E02', 'kappa3_bulk', '3 labels, histories starting with up to 3 errors', M_KAPPA=1, L=3, OPS=3, BULK=1, procs=2)
ob('E02', 'kappa3_4', '3 labels, every history of 4 operations', M_KAPPA=1, L=3, OPS=4, procs=8, tier='thorough', timeout=2000)
ob('E01', 'error_6', 'every history of 6 operations', M_ERR=1, OPS=6, procs=8, tier='thorough', timeout=2000)
ob('E01', 'reservoir_metrics', '2 sampled elements and the last one, every history of 3 resets and copies', M_RES=1, L=2, OPS=3)
