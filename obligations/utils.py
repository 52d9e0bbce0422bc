A = ['rand_uniform returns any double in [0,1[ (its contract)']
OBLIGATIONS = []
def ob(prop, name, engine, bound, a=[], **k):
    d = {x: k.pop(x) for x in list(k) if x.isupper()}
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='utils.cpp', engine=engine, defs=d, unwind=max(d.get('SIZE', 3), 3) + 2, bound=bound, assume=A + a, reach=['end'], **k))
for n in (1, 2, 4): ob('U01', 'pick_%d' % n, 'cbmc', 'every cumulative distribution of %d doubles' % n, M_PICK=1, SIZE=n)
ob('U01', 'pick_rounded', 'cbmc', 'every cumulative distribution of 3 doubles whose last value may fall short of one', M_PICK=1, SIZE=3, ROUNDED=1)
R = ['double arithmetic is treated as real arithmetic (tolerance 1e-9)']
for n in (1, 2, 3, 4):
    ob('U01', 'turn_%d' % n, 'symx', 'every array of %d multiples of 1/16 up to 64' % n, R, M_TURN=1, SIZE=n, WMAX=1024, WBITS=4, real=1)
    ob('U01', 'turn_given_%d' % n, 'symx', 'every array of %d multiples of 1/16 up to 64, sum given' % n, R, M_TURN=1, SIZE=n, WMAX=1024, WBITS=4, GIVEN=1, real=1)
ob('U01', 'turn_pick_3', 'symx', 'every array of 3 multiples of 1/16 up to 64', R, M_TURN=1, SIZE=3, WMAX=1024, WBITS=4, THENPICK=1, real=1)
ob('U01', 'turn_pick_bits', 'cbmc', 'every array of 2 integers up to 3, bit-precise doubles', M_TURN=1, SIZE=2, WMAX=3, WBITS=0, THENPICK=1)
for n in (0, 1, 2, 3, 4): ob('U02', 'shuffle_%d' % n, 'symx', 'arrays of %d elements, every sequence of draws' % n, M_SHUFFLE=1, SIZE=n, real=1)
ob('U02', 'shuffle_5', 'symx', 'arrays of 5 elements, every sequence of draws', M_SHUFFLE=1, SIZE=5, real=1, procs=4)
ob('U02', 'numeric', 'cbmc', 'all ints and doubles, arrays of 3', M_NUM=1)
ob('U02', 'abs', 'cbmc', 'all floats', M_NUM=1, M_ABS=1)
ob('U02', 'round', 'cbmc', 'all doubles in the range of int', M_NUM=1, M_ROUND=1)
ob('U02', 'div_int', 'symx', 'dividend up to 2^20, divisor up to 2^10', M_DIV=1)
ob('U02', 'exponential', 'symx', 'every draw, rate up to 16, any value of the logarithm', R, M_EXP=1, real=1)
