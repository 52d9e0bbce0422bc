A = ['func::random returns any multiple of 2^-20 in [0,1], both ends included; func::malloc succeeds and returns fresh memory; timestamps strictly increase']
OBLIGATIONS = []
def ob(prop, name, k, pat, ts0=1, gap=1, **x):
    d = dict(K=k, PAT='"%s"' % pat, TS0=ts0, GAP=gap)
    if x.pop('arena', 0): d['ARENA'] = 1
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='chained.cpp', engine='symx', defs=d, assume=A, reach=x.pop('reach', ['end']), real=1,
        bound='reservoir of %d, histories %s (a addition, o expiration of any timestamp), first timestamp %d, gap %d' % (k, pat, ts0, gap), procs=x.pop('procs', 2), **x))
ob('H01', 'k2_aaaaoo', 2, 'aaaaoo', reach=['end', 'expire', 'live', 'chained', 'replace'], procs=4)
ob('H01', 'k1_aaaaoo', 1, 'aaaaoo', reach=['end', 'expire', 'chained'])
ob('H01', 'k2_aaaoao', 2, 'aaaoao', arena=1, reach=['end', 'expire', 'live'], procs=4)
ob('H01', 'k3_aaaaao', 3, 'aaaaao', gap=3, reach=['end', 'expire'], procs=4)
ob('H01', 'k2_ts0', 2, 'aaaao', ts0=0, reach=['end', 'expire'])
ob('H01', 'k1_long', 1, 'aaaaaoaoo', reach=['end', 'expire'])
ob('H03', 'k1_a4', 1, 'aaaa', reach=['end', 'replace'])
ob('H03', 'k2_a5', 2, 'aaaaa', reach=['end', 'replace'])
ob('H03', 'k3_a5', 3, 'aaaaa', reach=['end', 'replace'], arena=1, procs=4)
ob('H03', 'k4_a6_ts0', 4, 'aaaaa', reach=['end', 'replace'], ts0=0, procs=4)
ob('H01', 'k2_deep', 2, 'aaaaaoaoo', tier='thorough', procs=8, timeout=2500)
ob('H03', 'k3_a7', 3, 'aaaaaaa', tier='thorough', procs=8, timeout=2500)
