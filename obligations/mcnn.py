OBLIGATIONS = []
A = ['double arithmetic is treated as real arithmetic']
def ob(prop, name, bound, **k):
    d = {x: k.pop(x) for x in list(k) if x.isupper()}
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='mcnn.cpp', engine='symx', defs=d, bound=bound, assume=A, reach=k.pop('reach', ['end']), real=1, procs=k.pop('procs', 2), **k))
# M01: classification
ob('M01', 'far_f1_n2', 'every 2 integer points up to 5000, 1 feature, 2 labels, any query', F=1, N=2, RANGE=5000, FT='int')
ob('M01', 'double_f1_n3', 'every 3 points, 1 feature, 2 labels, any query', F=1, N=3, procs=4)
ob('M01', 'double_f2_n2', 'every 2 points, 2 features, 2 labels, any query', F=2, N=2, procs=4)
ob('M01', 'grid_n4', 'every 4 points from a set of 4 values, 2 labels', F=1, N=4, VALS='{0,1,3,-2}', procs=4)
ob('M01', 'grid_f2_n3', 'every 3 points of 2 features from a set of 3 values, 2 labels', F=2, N=3, VALS='{0,1.5,-2}', procs=4)
# M02: life of the clusters
ob('M02', 'split', 'two classes, points that force a split, last point and query from a set of 5 values', FT='int', F=1, N=6, POINTS='{0,30,21,21}', LABELS='{0,1,0,0,0,0}', VALS='{21,0,-7,30,25}', reach=['end', 'split'])
ob('M02', 'split_negative', 'two classes of negative integers', FT='int', F=1, N=6, POINTS='{-100,-70,-79,-79}', LABELS='{0,1,0,0,0,1}', VALS='{-79,-100,-70,-85}', reach=['end', 'split'])
ob('M02', 'split_full', 'at most 2 clusters, cleaning method 0', F=1, N=6, MAXC=2, THR=1, POINTS='{0,10}', LABELS='{0,1,0,1,0,1}', VALS='{0,7,10,-3}', reach=['end', 'split'], procs=4)
ob('M02', 'split_one', 'one cluster at most', F=1, N=4, MAXC=1, THR=1, VALS='{0,7,-3}', procs=2, reach=['end', 'evict'])
ob('M02', 'split_f2', 'two features, cleaning method 0', F=2, N=5, THR=1, POINTS='{0,0,10,0}', LABELS='{0,1,0,0,1}', VALS='{0,7,9}', reach=['end', 'split'], procs=4)
ob('M02', 'clean1', 'cleaning method 1, at most 3 clusters', F=1, N=6, MAXC=3, THR=2, CLEAN=1, POINTS='{0,10,20}', LABELS='{0,1,2,0,3,1}', VALS='{0,6,10,21}', reach=['end'])
ob('M02', 'clean1_perf', 'cleaning method 1, low participation', F=1, N=7, MAXC=4, THR=2, CLEAN=1, POINTS='{0,10,10,10,10}', LABELS='{0,0,1,1,1,0,1}', VALS='{0,6,10,21}', reach=['end', 'clean'])
ob('M02', 'clean2', 'cleaning method 2, at most 2 clusters', F=1, N=6, MAXC=2, THR=1, CLEAN=2, PERF=60, POINTS='{0,10,4}', LABELS='{0,1,0,2,1,0}', VALS='{0,6,10,-3}', reach=['end'])
ob('M02', 'evict', 'at most 2 clusters, 3 labels, cleaning method 0', F=1, N=5, MAXC=2, L=3, VALS='{0,10}', reach=['end', 'evict'], procs=4)
ob('M02', 'refuse', 'at most 2 clusters, 3 labels, cleaning method 1', F=1, N=4, MAXC=2, L=3, CLEAN=1, VALS='{0,10}', procs=2)
ob('M02', 'deep', 'every 5 points from 3 values, 2 labels, at most 3 clusters', F=1, N=5, MAXC=3, THR=1, VALS='{0,4,10}', tier='thorough', procs=8, timeout=2500, reach=['end', 'split'])
