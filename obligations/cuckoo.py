A = ['the hash functions are pure; hash values are below bucket_count, bucket_count is a power of two, fingerprints fit entry_size and differ from empty_value (any such functions: their value tables are symbolic)', 'random_function returns 1/8, 3/8, 5/8 or 7/8 (it is compared with 0.5 and scaled by bucket_size-1)']
OBLIGATIONS = []
def ob(prop, name, bc, bs, es, pat, el, empty=0, draws=4, **k):
    d = dict(BC=bc, BS=bs, ES=es, PAT='"%s"' % pat, ELEMS=el, EMPTY=empty, DRAWS=draws)
    if prop == 'C02': d['EXACT'] = 1
    full = k.pop('full', 0); ops = len(pat)
    if full: d['FULL'] = 1
    u = max(es, bs, 2) + 1
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='cuckoo.cpp', engine=k.pop('engine', 'cbmc'), defs=d, unwind=u,
        unwindset={r'::add\(int const\*\)': 501 if full else draws//2 + 2, r'^vf_main': max(ops, 1 << es, el) + 1, r'::clear|::CuckooFilter': bc*bs*es + 2}, assume=A, reach=['end'],
        bound='%d buckets of %d entries of %d bits, empty_value %d, %d elements, histories %s, %s' % (bc, bs, es, empty, el, pat, 'through all 500 evictions (draws of period two)' if full else 'at most %d random draws per insertion' % draws), **k))
for p in ('C01', 'C02'):
    ob(p, 'b2x2_e3_AAA', 2, 2, 3, 'AAA', 3)
    ob(p, 'b2x2_e2_AARA', 2, 2, 2, 'AARA', 3, cost=50)
    ob(p, 'b2x1_e2_AARA', 2, 1, 2, 'AARA', 3, draws=6)
    ob(p, 'b2x1_e2_ALCAR', 2, 1, 2, 'ALCAR', 3)
    ob(p, 'b1x2_e8_AAR', 1, 2, 8, 'AAR', 2)
    ob(p, 'b4x1_e4_AA', 4, 1, 4, 'AA', 2)
    ob(p, 'b2x1_empty2_AACA', 2, 1, 2, 'AACA', 3, empty=2)
    for bc, bs, n in ((1, 1, 2), (1, 2, 3), (2, 1, 3)):
        ob(p, 'full_b%dx%d' % (bc, bs), bc, bs, 2, 'A'*n, n, full=1, cost=50, engine='symx', procs=2)
    ob(p, 'full_b2x2', 2, 2, 2, 'AAAAA', 3, full=1, tier='thorough', engine='symx', procs=8, timeout=1500)
    ob(p, 'deep', 2, 2, 3, 'AAARAR', 4, tier='thorough', timeout=3000)
