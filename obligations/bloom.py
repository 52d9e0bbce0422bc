A = ['hash functions are pure and return a position below bit_size (any such functions: their value tables are symbolic)']
def ob(prop, name, d, b, **k):
    return dict(prop=prop, name=name, harness='bloom.cpp', engine='cbmc', defs=d, unwind=max(d['BITS'], d['OPS'], d['ELEMS'], 4) + 2, bound=b, assume=A, reach=['end'], **k)
OBLIGATIONS = []
for prop, ex in (('B01', {}), ('B02', {'EXACT': 1})):
    cfgs = [(11, 3, 5, 3), (8, 2, 5, 4), (1, 1, 3, 2), (17, 2, 4, 3)]
    for bits, h, ops, el in cfgs:
        OBLIGATIONS.append(ob(prop, 'bits%d_h%d_ops%d' % (bits, h, ops), dict(BITS=bits, HASHES=h, OPS=ops, ELEMS=el, **ex), 'bit_size=%d, %d hash functions, %d elements, every history of %d operations' % (bits, h, el, ops)))
    OBLIGATIONS.append(ob(prop, 'deep', dict(BITS=24, HASHES=3, OPS=9, ELEMS=5, **ex), 'bit_size=24, 3 hash functions, 5 elements, every history of 9 operations', tier='thorough', timeout=3000))
