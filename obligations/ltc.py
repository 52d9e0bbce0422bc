A = ['values lie in [min_value, max_value], timestamps strictly increase (the gaps and the first timestamp are chosen from the listed sets), reals: double arithmetic is treated as real arithmetic (no rounding), tolerance 1e-6']
OBLIGATIONS = []
def ob(prop, name, n, slack=0, et='int', **k):
    d = dict(N=n, ET=et, SLACK=slack)
    for x in ('TT', 'EPS', 'TUD', 'VMAX', 'FRAC', 'GAPS', 'T0', 'RANGE', 'FLUSH'):
        if x in k: d[x] = k.pop(x)
    if prop == 'L01': d['RECON'] = 1
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='ltc.cpp', engine='symx', real=1, defs=d, assume=A, reach=['end', 'transmit'],
        bound='%d points of type %s, epsilon %s, time unit %s, values within +-%s, gaps %s%s' % (n, et, d.get('EPS', 3), d.get('TUD', 1), d.get('VMAX', 1000), d.get('GAPS', '{1,3}'), ', integer rounding slack %s' % slack if slack else ''), **k))
for p in ('L01', 'L02'):
    ob(p, 'int_n4', 4, 1, procs=2, T0='{100}')
    ob(p, 'int_n5_unit', 5, 1, procs=4, GAPS='{1}', T0='{0}', RANGE=50)
    ob(p, 'int_n6_unit', 6, 1, GAPS='{1}', T0='{0}', procs=8, tier='thorough', timeout=2500, RANGE=50)
    ob(p, 'double_n5', 5, et='double', FRAC=4, procs=4, T0='{0}', GAPS='{1,3}' if p == 'L01' else '{1}')
    ob(p, 'int_tud', 4, 1, TUD=2, GAPS='{1,2}', T0='{7}', procs=2)
    ob(p, 'double_tud', 4, et='double', TUD=4, GAPS='{1,4,8}', T0='{4}', procs=2)
    ob(p, 'short_clamp', 4, 1, et='short', VMAX=8, GAPS='{1,2}', T0='{0}', procs=2)
    ob(p, 'ulong_time', 4, 1, TT='unsigned long', EPS=5, GAPS='{1,60}', T0='{1000000000}', procs=2)
    ob(p, 'double_time', 4, et='double', TT='double', EPS=1, GAPS='{1,2}', T0='{0}', procs=2)
    ob(p, 'int_eps0', 5, 1, EPS=0, GAPS='{1}', T0='{0}', procs=2)
    ob(p, 'int_n7', 7, 1, tier='thorough', procs=8, timeout=2500)
    ob(p, 'double_n6', 6, et='double', FRAC=4, tier='thorough', procs=8, timeout=2500)
    ob(p, 'flush_int', 4, 1, GAPS='{1,2}', T0='{10}', RANGE=60, FLUSH=1, procs=4)
    ob(p, 'flush_double', 5, et='double', FRAC=4, GAPS='{1,3}', T0='{0}', RANGE=40, FLUSH=1, procs=4)
    ob(p, 'flush_double6', 6, et='double', FRAC=2, GAPS='{1}', T0='{0}', RANGE=40, FLUSH=1, procs=8, EPS=10, tier='thorough', timeout=2500)
    ob(p, 'flush_tud', 4, et='double', FRAC=4, TUD=5, GAPS='{1,3}', T0='{3}', RANGE=40, FLUSH=1, procs=2)
