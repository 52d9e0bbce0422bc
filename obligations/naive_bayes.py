OBLIGATIONS = []
A = ['double arithmetic is treated as real arithmetic; exp of a symbolic argument is an unknown value constrained by true facts (sign, monotony, exp(x) >= 1+x)', 'func::log is an affine function, func::sqrt a recorded constant (the code is parametric in both)']
def ob(prop, name, bound, **k):
    d = {x: k.pop(x) for x in list(k) if x.isupper()}
    if prop == 'N01': d['STATS'] = 1
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='naive_bayes.cpp', engine='symx', defs=d, bound=bound, assume=A, reach=['end'], real=1, procs=2, **k))
for p in ('N01', 'N02'):
    ob(p, 'l2_f1_n3', '2 labels, 1 feature, every training set of 3 points', L=2, F=1, N=3)
    ob(p, 'l2_f2_n2', '2 labels, 2 features, every training set of 2 points', L=2, F=2, N=2)
    ob(p, 'l1_f1_n4', '1 label, 1 feature, every training set of 4 points', L=1, F=1, N=4)
    ob(p, 'l3_f1_n3', '3 labels, 1 feature, every training set of 3 points', L=3, F=1, N=3)
    ob(p, 'weights', '2 labels, 1 feature, every training set of 3 points of weight 1 or 3', L=2, F=1, N=3, WEIGHTS=1)
    ob(p, 'constant_feature', 'no deviation (all values equal the mean or not)', L=2, F=2, N=2, SD0='0.0', LA='2.0', LB='5.0')
    ob(p, 'float_features', 'float features', L=2, F=2, N=2, FT='float', SD0='0.5', LA='3.0', LB='-1.0')
