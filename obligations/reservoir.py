A = ['func::random returns any double in [0,1], both ends included (its contract: a random number between 0 and 1); func::floor is the mathematical floor']
OBLIGATIONS = []
def ob(prop, name, k, n, engine='cbmc', **x):
    d = dict(K=k, N=n)
    d.update({y: x.pop(y) for y in list(x) if y.isupper()})
    if prop == 'R02': d['UNIFORM'] = 1
    if prop == 'R03': d['EXPO'] = 1; d['UNIFORM'] = 1
    if x.pop('index', 0): d['INDEX'] = 1
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='reservoir.cpp', engine=engine, defs=d, unwind=max(k, n) + 2, assume=A, reach=['end'] + (['replace'] if n > k else []),
        bound='reservoir of %d, every history of %d additions%s, every sequence of draws' % (k, n, ', the first %d of them refused' % d['PREFIX'] if 'PREFIX' in d else ''), **x))
for p in ('R01', 'R02', 'R03'):
    ob(p, 'k1_n4', 1, 4); ob(p, 'k3_n5', 3, 5); ob(p, 'k3_n5_index', 3, 5, index=1); ob(p, 'k2_n6', 2, 6); ob(p, 'k5_n7', 5, 7)
    ob(p, 'k2_double', 2, 4, ET='double'); ob(p, 'k2_char', 2, 4, ET='signed char')
    if p != 'R03': ob(p, 'k3_late', 3, 62, PREFIX=60); ob(p, 'k4_n9', 4, 9, tier='thorough', timeout=2500)
    else: ob(p, 'k4_n8', 4, 8, tier='thorough', timeout=2500)
ob('R01', 'exp_k3_n5', 3, 5, EXPO=1); ob('R01', 'exp_k1_n3', 1, 3, EXPO=1); ob('R01', 'exp_k4_n5', 4, 5, EXPO=1, index=1)
