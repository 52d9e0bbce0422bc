OBLIGATIONS = []
A = ['draws are in [0,1[; the exponential variate is any non-negative number on a grid of 1/256 (or from the stated set), divided by the rate']
def ob(prop, name, bound, **k):
    d = {x: k.pop(x) for x in list(k) if x.isupper()}
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='mondrian.cpp', engine='symx', defs=d, bound=bound, assume=A, reach=k.pop('reach', ['end', 'split']), real=1, procs=k.pop('procs', 4), **k))
HUGE = '1e9'   # no smoothing: the scores of a point inside its leaf are the label frequencies of the leaf
for w, nm in ((0, 'bounded'), (1, 'unbound')):
    ob('T03', nm + '_f1_n3', 'every 3 points of 1 feature', W=w, F=1, N=3, GAMMA=HUGE, LOGS='{0,-0.5,-9}')
    ob('T03', nm + '_f1_sym', 'every 3 points of 1 feature, any exponential variates', W=w, F=1, N=3, GAMMA=HUGE, VALS='{0,2}', ABSTRACT=1)
    ob('T03', nm + '_f2_n2', 'every 2 points of 2 features', W=w, F=2, N=2, GAMMA=HUGE, LOGS='{-0.5,-9}', VALS='{0,1,3}')
    ob('T03', nm + '_f2_n3', '3 points of 2 features, the last two any', W=w, F=2, N=3, GAMMA=HUGE, LOGS='{-0.5}', VALS='{0,2}', ALT=1)
    ob('T03', nm + '_deep', '3 fixed points, then any point', W=w, F=1, N=4, GAMMA=HUGE, LOGS='{-0.25,-1.95,-9}', VALS='{-1,1,2.5,7}', POINTS='{{0},{4},{2}}', LABELS='{0,1,0}')
    ob('T03', nm + '_t2', '2 trees, every 2 points', W=w, F=1, N=2, TREES=2, GAMMA=HUGE, LOGS='{-0.5,-9}')
    ob('T04', nm + '_g1', '3 points, discount 1', W=w, F=1, N=3, GAMMA='1.0', LOGS='{-0.5,-2}', POINTS='{{0},{2}}', LABELS='{0,1}', VALS='{0,1,5,-1}')
    ob('T04', nm + '_g0', '3 points, no discount', W=w, F=1, N=3, GAMMA='0.0', LOGS='{-0.5,-2}', POINTS='{{0},{2}}', LABELS='{0,1}', VALS='{0,1,5,-1}')
    ob('T04', nm + '_base', '3 labels, non-uniform base measure', W=w, F=1, N=3, L=3, GAMMA='0.5', BASE='0.25', LOGS='{-0.5,-2}', POINTS='{{0},{2}}', LABELS='{0,1}', VALS='{0,1,5}')
    ob('T04', nm + '_f2', '2 features', W=w, F=2, N=2, GAMMA='0.5', LOGS='{-1}', POINTS='{{0,1}}', LABELS='{0}', VALS='{0,2}')
    ob('T04', nm + '_each', 'predictions between the points', W=w, F=1, N=4, GAMMA='0.5', EACH=1, LOGS='{-0.25}', VALS='{-1,2.5,7}', POINTS='{{0},{4}}', LABELS='{0,1}')
    ob('T04', nm + '_empty', 'untrained and single point', W=w, F=1, N=1, GAMMA='0.5', EMPTY=1, reach=['end'], procs=1)
    ob('T04', nm + '_q', 'any query around 2 points', W=w, F=1, N=2, GAMMA='0.5', LOGS='{-1}', POINTS='{{0},{2}}', LABELS='{0,1}', SYMQ=1, ABSTRACT=1)
ob('T05', 'room3', 'room for 3 nodes', W=0, F=1, N=3, ROOM=3, GAMMA=HUGE, LOGS='{-0.5,-9}', reach=['end', 'split', 'full'])
ob('T05', 'room4', 'room for 4 nodes, 2 trees', W=0, F=1, N=3, TREES=2, ROOM=4, GAMMA=HUGE, LOGS='{-0.5}', VALS='{0,1}', ALT=1, reach=['end', 'split', 'full'])
ob('T05', 'room2', 'room for 2 nodes', W=0, F=1, N=3, ROOM=2, GAMMA=HUGE, LOGS='{-0.5}', reach=['end', 'full'])
ob('T05', 'room1_t2', 'room for 1 node, 2 trees', W=0, F=1, N=2, TREES=2, ROOM=1, GAMMA=HUGE, LOGS='{-0.5}', reach=['end', 'full'])
ob('T05', 'room5', 'room for 5 nodes, 4 points', W=0, F=1, N=4, ROOM=5, GAMMA=HUGE, LOGS='{-0.25}', VALS='{-1,1,2.5,7}', POINTS='{{0},{4},{2}}', LABELS='{0,1,0}', reach=['end', 'split', 'full'])
ob('T05', 'unbound_freed', 'the unbounded forest, destroyed after 4 points', W=1, F=1, N=4, TREES=2, GAMMA='0.5', LOGS='{-0.25}', VALS='{-1,2.5,7}', POINTS='{{0},{4}}', LABELS='{0,1}', ALT=1)
ob('T05', 'copy', 'a copied forest', W=0, F=1, N=2, COPY=1, GAMMA='0.5', LOGS='{-0.5}', VALS='{0,2}')

w = 2
ob('T06', 'f1_n3', 'every 3 points of 1 feature', W=w, F=1, N=3, GAMMA=HUGE, LOGS='{0,-0.5,-9}')
ob('T06', 'f1_sym', 'every 3 points of 1 feature, any exponential variates', W=w, F=1, N=3, GAMMA=HUGE, VALS='{0,2}', ABSTRACT=1)
ob('T06', 'f2_n2', 'every 2 points of 2 features', W=w, F=2, N=2, GAMMA=HUGE, LOGS='{-0.5,-9}', VALS='{0,1,3}')
ob('T06', 'deep', '3 fixed points, then any point', W=w, F=1, N=4, GAMMA=HUGE, LOGS='{-0.25,-1.95,-9}', VALS='{-1,1,2.5,7}', POINTS='{{0},{4},{2}}', LABELS='{0,1,0}')
ob('T06', 't2', '2 trees, every 2 points', W=w, F=1, N=2, TREES=2, GAMMA=HUGE, LOGS='{-0.5,-9}')
ob('T06', 'g1', '3 points, discount 1', W=w, F=1, N=3, GAMMA='1.0', LOGS='{-0.5,-2}', POINTS='{{0},{2}}', LABELS='{0,1}', VALS='{0,1,5,-1}')
ob('T06', 'g0', '3 points, no discount', W=w, F=1, N=3, GAMMA='0.0', LOGS='{-0.5,-2}', POINTS='{{0},{2}}', LABELS='{0,1}', VALS='{0,1,5,-1}')
ob('T06', 'base', '3 labels, non-uniform base measure', W=w, F=1, N=3, L=3, GAMMA='0.5', BASE='0.25', LOGS='{-0.5,-2}', POINTS='{{0},{2}}', LABELS='{0,1}', VALS='{0,1,5}')
ob('T06', 'each', 'predictions between the points', W=w, F=1, N=4, GAMMA='0.5', EACH=1, LOGS='{-0.25}', VALS='{-1,2.5,7}', POINTS='{{0},{4}}', LABELS='{0,1}')
ob('T06', 'empty', 'untrained and single point', W=w, F=1, N=1, GAMMA='0.5', EMPTY=1, reach=['end'], procs=1)
ob('T06', 'q', 'any query around 2 points', W=w, F=1, N=2, GAMMA='0.5', LOGS='{-1}', POINTS='{{0},{2}}', LABELS='{0,1}', SYMQ=1, ABSTRACT=1)
ob('T06', 'opt', 'counts kept up to date while training', W=w, F=1, N=4, UNBOUND_OPTIMIZE=1, GAMMA='0.5', LOGS='{-0.25,-9}', VALS='{-1,1,2.5,7}', POINTS='{{0},{4},{2}}', LABELS='{0,1,0}')
ob('T06', 'opt_t2', 'counts kept up to date while training, 2 trees', W=w, F=1, N=2, TREES=2, UNBOUND_OPTIMIZE=1, GAMMA='0.5', LOGS='{-0.5,-9}')
FULL = ['end', 'split', 'full']
for e, nm in ((0, 'stop'), (1, 'extend'), (2, 'ghost'), (3, 'partial'), (4, 'count'), (5, 'plain')):
    X = dict(W=w, EXT=e)
    ob('T07', nm + '_room3', 'room for 3 nodes, every 3 points', F=1, N=3, ROOM=3 + (e == 0), GAMMA=HUGE, LOGS='{-0.5,-9}', reach=FULL if e else ['end', 'split'], **X)
    ob('T07', nm + '_room4_t2', 'room for 4 nodes, 2 trees', F=1, N=3, TREES=2, ROOM=4 + (e == 0), GAMMA=HUGE, LOGS='{-0.5}', VALS='{0,1}', ALT=1, reach=FULL if e else ['end', 'split'], **X)
    ob('T07', nm + '_room5', 'room for 5 nodes, 4 points, discount', F=1, N=4, ROOM=5 + (e == 0), GAMMA='0.5', LOGS='{-0.25}', VALS='{-1,1,2.5,7}', POINTS='{{0},{4},{2}}', LABELS='{0,1,0}', reach=FULL if e else ['end', 'split'], **X)
    ob('T07', nm + '_depth2', 'trees of 2 levels', F=1, N=4, DEPTH=2, GAMMA='0.5', LOGS='{-0.25}', VALS='{-1,1,2.5,7}', POINTS='{{0},{4},{2}}', LABELS='{0,1,0}', reach=FULL, **X)
ob('T07', 'depth3', 'trees of 3 levels', W=w, EXT=1, F=1, N=5, DEPTH=3, GAMMA='0.5', LOGS='{-0.25}', VALS='{-1,1,7}', POINTS='{{0},{4},{2},{9}}', LABELS='{0,1,0,1}', ALT=1, reach=FULL)
ob('T07', 'room1_t2', 'room for 1 node, 2 trees', W=w, F=1, N=2, TREES=2, ROOM=1, GAMMA=HUGE, LOGS='{-0.5}', reach=['end', 'full'])
ob('T07', 'opt_room1_t2', 'room for 1 node, 2 trees, counts kept up to date', W=w, F=1, N=2, TREES=2, ROOM=1, UNBOUND_OPTIMIZE=1, GAMMA=HUGE, LOGS='{-0.5}', reach=['end', 'full'])
