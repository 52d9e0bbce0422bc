OBLIGATIONS = []
R = ['end', 'trimmed']
A = ['draws are from the stated set; the exponential variate is from the stated set, divided by the rate']
def ob(prop, name, bound, **k):
    d = {x: k.pop(x) for x in list(k) if x.isupper()}
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='coarse.cpp', engine='symx', defs=d, bound=bound, assume=A, reach=k.pop('reach', ['end']), real=1, timeout=200, procs=k.pop('procs', 4), **k))
P4 = dict(POINTS='{{0},{4},{2}}', LABELS='{0,1,0}', VALS='{-1,1,2.5,7}', LOGS='{-0.25,-9}', DRAWS='{0.1,0.6}')
for tr, nm in (('TRIM_RANDOM', 'random'), ('TRIM_FADING', 'fading'), ('TRIM_COUNT', 'count')):
    ob('T08', 'trim_' + nm, 'a full tree, 100 points, then trimming and any point', TRIM=tr, ROOM=5, PRE=95, N=2, POINTS='{{0},{4},{2},{6},{-3}}', LABELS='{0,1,0,1,0}', VALS='{-1,1,7}', LOGS='{-0.25}', DRAWS='{0.1,0.6}', ALT=1, reach=R)
for fes in ('SPLIT_TRIGGER_POSITIVE', 'SPLIT_TRIGGER_TOTAL', 'SPLIT_TRIGGER_SFE'):
    for fed in ('ZERO', 'SPLIT', 'PROPORTIONAL', 'DECREMENT'):
        ob('T08', '%s_%s' % (fes[14:].lower(), fed.lower()), 'splits triggered by forced extensions', EXT='EXTEND_BARYCENTER', FES=fes, FED='FE_DISTRIBUTION_' + fed, TRIM='TRIM_COUNT', ROOM=5, PRE=95, N=2, POINTS='{{0},{4},{2},{6},{-3}}', LABELS='{0,1,0,1,0}', VALS='{-1,1,7}', LOGS='{-0.25}', DRAWS='{0.1,0.6}', ALT=1, reach=R)
for h in ('AVG', 'WEIGHTED'):
    ob('T08', 'bary_' + h.lower(), 'splits around the barycenter', EXT='EXTEND_BARYCENTER', HELP='SPLIT_HELPER_' + h, TRIM='TRIM_COUNT', ROOM=5, PRE=95, N=2, POINTS='{{0},{4},{2},{6},{-3}}', LABELS='{0,1,0,1,0}', VALS='{-1,1,7}', LOGS='{-0.25}', DRAWS='{0.1,0.6}', ALT=1, reach=['end', 'full'])
for fes in ('POSITIVE', 'TOTAL', 'SFE'):
    ob('T08', 'deep_' + fes.lower(), 'splits of inner nodes triggered by forced extensions', EXT='EXTEND_BARYCENTER', FES='SPLIT_TRIGGER_' + fes, FED='FE_DISTRIBUTION_SPLIT', TRIM='TRIM_COUNT', ROOM=9, PRE=89, N=2, POINTS='{{0},{4},{2},{6},{-3},{3},{5},{-4},{7},{9},{1}}', LABELS='{0,1,0,1,0,0,1,1,0,1,0}', VALS='{-5,1,11}', LOGS='{-0.25}', DRAWS='{0.1,0.6}' if fes != 'SFE' else '{0.4}', ALT=1, reach=R)
def cyc(name, fes, fed, pts, labs, vals, room=9, n=2, pre=101, **k):
    ob('T08', 'cycle_' + name, 'forced splits in a full memory', EXT='EXTEND_BARYCENTER', FES='SPLIT_TRIGGER_' + fes, FED='FE_DISTRIBUTION_' + fed, TRIM='TRIM_COUNT', ROOM=room, PRE=pre - len(labs), CYCLE=1, N=n, POINTS='{' + ','.join('{%d}' % x for x in pts) + '}', LABELS='{' + ','.join(labs) + '}', VALS=vals, LOGS='{-0.25}', ALT=1, reach=k.pop('reach', ['end', 'forced split']), **dict(dict(DRAWS='{0.1,0.6}'), **k))
cyc('a', 'POSITIVE', 'SPLIT', [4,6,8,9,4,3,-1], '1110101', '{2,13,-6}')
cyc('b', 'SFE', 'ZERO', [10,8,-5,-4,-2,8,2], '1100011', '{-2,-8,11}')
cyc('c', 'POSITIVE', 'PROPORTIONAL', [0,-4,-4,-5,2,0,1,10], '01110010', '{14,10,9}')
cyc('d', 'POSITIVE', 'DECREMENT', [8,10,8,4,1,2,-3,6,4,2], '1110101000', '{13,-6,12}')
cyc('e', 'POSITIVE', 'PROPORTIONAL', [1,-5,7,-1,-4,6,10,10,3,7], '0001001001', '{5,10,2}', reach=['end'])
cyc('flat', 'POSITIVE', 'ZERO', [11,-5,-4,4,9,5], '100110', '{-5,13,5}', FEP='0.0', reach=['end'])
for g in ('ROBUR', 'PAUSING_PHOENIX', 'OPTIMISTIC_COBBLE'):
    ob('T08', 'mgmt_' + g.lower(), 'tree management', MGMT=g + '_MANAGEMENT', LIMIT=3, ROOM=7, N=1, TREES=2, ALT=1, **P4)
ob('T08', 'node_copy', 'any node', NODECOPY=1, F=2, L=3, LOGS='{0}', procs=1)
