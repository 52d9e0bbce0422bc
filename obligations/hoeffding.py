OBLIGATIONS = []
A = ['the square of the difference of mean gains is not within 1e-9 of the Hoeffding bound', 'func::log2 and log are the logarithms']
def ob(prop, name, bound, **k):
    d = {x: k.pop(x) for x in list(k) if x.isupper()}
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='hoeffding.cpp', engine='symx', defs=d, bound=bound, assume=A, reach=k.pop('reach', ['end', 'split']), procs=k.pop('procs', 2), **k))
T = 'T01'
ob(T, 'f1_n4', 'every 4 points of 1 feature from 3 values, 2 labels, any query', BIG=1, N=4, LIMITS='{0.5,1.5}', SYMQ=1, procs=4)
ob(T, 'f1_sym', 'any 3 real points of 1 feature, 2 labels', BIG=1, N=3, LIMITS='{0.25,1.5}', SYM=1, SYMQ=1, procs=4)
ob(T, 'f2_32', 'every 3 points of 2 features of 3 and 2 bins, 2 labels, any query', BIG=1, F=2, BINS='{3,2}', N=3, LIMITS='{0.5,1.5,0.5}', SYMQ=1, procs=4)
ob(T, 'f2_23', 'every 3 integer points of 2 features of 2 and 3 bins, 3 labels', BIG=1, F=2, L=3, FT='int', BINS='{2,3}', VALS='{0,2}', N=3, LIMITS='{1,0.5,1.5}', procs=4)
ob(T, 'one_candidate', 'every 4 points, a single possible split', BIG=1, F=1, BINS='{2}', VALS='{0,1}', N=4, LIMITS='{0.5}', SYMQ=1)
ob(T, 'bins4', 'a point, then every 3 points of 1 feature of 4 bins', BIG=1, BINS='{4}', N=4, DELTA='0.9', LIMITS='{0.5,1.5,2.5}', VALS='{0,1,2,3}', POINTS='{{3}}', LABELS='{1}', procs=4)
ob(T, 'default_limits', 'every 3 integer points of 2 binary features, limits left at 0', BIG=1, F=2, BINS='{2,2}', VALS='{0,1}', N=3, FT='int', procs=4)
ob(T, 'no_candidate', 'features of one bin', BIG=1, F=1, BINS='{1}', N=2, reach=['end'])
ob(T, 'deep', 'a root split, then every 3 points of 3 values: the leaves split in turn', BIG=1, N=5, LIMITS='{0.5,1.5}', VALS='{0,0.6,0.7,1}', POINTS='{{0},{1}}', LABELS='{0,1}', reach=['end', 'split', 'split again'], procs=4)
ob(T, 'deep_sym', 'a root split, then any 2 real points', BIG=1, N=5, LIMITS='{0.5,1.5}', POINTS='{{0},{1},{0.6}}', LABELS='{0,1,0}', SYM=1, SYMQ=1, reach=['end', 'split', 'split again'], procs=4)
ob(T, 'strict', 'low probability of error: splits need several points', BIG=1, N=7, DELTA='0.6', LIMITS='{0.5,1.5}', VALS='{0,1,2}', POINTS='{{0},{1},{0},{1}}', LABELS='{0,1,0,1}', procs=4)
ob(T, 'n6', 'every 6 points of 1 feature from 3 values, 2 labels', BIG=1, N=6, LIMITS='{0.5,1.5}', tier='thorough', procs=8, timeout=2500, reach=['end', 'split', 'split again'])
ob(T, 'f2_n4', 'every 4 points of 2 features of 3 and 2 bins', BIG=1, F=2, BINS='{3,2}', N=4, LIMITS='{0.5,1.5,0.5}', tier='thorough', procs=8, timeout=2500)
T = 'T02'
ob(T, 'room1', 'room for the root only, every 4 points', NODES=1, N=4, LIMITS='{0.5,1.5}', reach=['end', 'memory'])
ob(T, 'room1_spare', 'room for the root and a bit', NODES=1, SLACK='(2*sizeof(T0<64>::Node)+CNT-1)', N=4, LIMITS='{0.5,1.5}', reach=['end', 'memory'])
ob(T, 'room1_exact', 'room for the root only, not a byte more', NODES=1, SLACK=0, N=3, LIMITS='{0.5,1.5}', reach=['end', 'memory'])
ob(T, 'room3_exact', 'room for one split, not a byte more', NODES=3, SLACK=0, N=5, LIMITS='{0.5,1.5}', VALS='{0,0.6,0.7}', POINTS='{{0},{1}}', LABELS='{0,1}', reach=['end', 'split', 'memory'], procs=4)
ob(T, 'room3', 'room for one split, a root split then every 3 points', NODES=3, N=5, LIMITS='{0.5,1.5}', VALS='{0,0.6,0.7,1}', POINTS='{{0},{1}}', LABELS='{0,1}', reach=['end', 'split', 'memory'], procs=4)
ob(T, 'room3_f2', 'room for one split, 2 features', NODES=3, F=2, BINS='{3,2}', N=6, LIMITS='{0.5,1.5,0.5}', VALS='{0.6,2}', POINTS='{{0,1},{1,1},{0.6,1},{0.7,0.9}}', LABELS='{0,1,0,1}', reach=['end', 'split', 'memory'], procs=4)
ob(T, 'room5', 'room for two splits', NODES=5, N=9, LIMITS='{0.5,1.5}', VALS='{0,0.45,0.52,0.7}', POINTS='{{0},{1},{0.6},{0.7},{0.55},{0.65},{0.6}}', LABELS='{0,1,0,1,1,0,1}', reach=['end', 'split', 'split again', 'memory'], procs=4)
