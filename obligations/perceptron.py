OBLIGATIONS = []
A = ['double arithmetic is treated as real arithmetic (tolerance 1e-6)', 'the activation and derivative functions are the polynomials given (the code is parametric in both)', 'max_size is large enough for the weights and outputs of the network']
def ob(prop, name, bound, **k):
    d = {x: k.pop(x) for x in list(k) if x.isupper()}
    if prop == 'P02': d['BACK'] = 1
    d.setdefault('ACT', '(2*x+1)'); d.setdefault('DER', '(3*x-1)'); d.setdefault('SETTER', 0); d.setdefault('WEIGHT', 'nd_grid(-16,16,2)'); d.setdefault('BYTES', 256)
    OBLIGATIONS.append(dict(prop=prop, name=name, harness='perceptron.cpp', engine='symx', defs=d, bound=bound, assume=A, reach=['end'], real=1, som=1, **k))
for p in ('P01', 'P02'):
    ob(p, '2_2', 'layers 2-2, any weights and inputs in the grid', SIZES='{2,2}')
    ob(p, '2_2_1', 'layers 2-2-1', SIZES='{2,2,1}', SETTER=1)
    ob(p, '1_2_2', 'layers 1-2-2', SIZES='{1,2,2}', SETTER=2)
    ob(p, '2_3_1', 'layers 2-3-1', SIZES='{2,3,1}', ACT='(x)', DER='(1-x)')
    ob(p, '3_1_2', 'layers 3-1-2', SIZES='{3,1,2}', ACT='(x-3)', DER='(x+2)', SETTER=1)
    ob(p, '1_2_1_2', 'layers 1-2-1-2', SIZES='{1,2,1,2}', ACT='(x)', DER='(x+2)', SETTER=2)
    ob(p, '2_1_tight', 'layers 2-1, smallest capacity', SIZES='{2,1}', BYTES=48)
    ob(p, '2_2_1_two_steps', 'layers 2-2-1, two steps, concrete initial weights', SIZES='{2,2,1}', STEPS=2, ACT='(x)', DER='1', WEIGHT='((double)(((7*l+5*j+3*i)%5)-2)*0.5)')
ob('P01', 'relu', 'layers 2-2-2, rectified linear activation', SIZES='{2,2,2}', ACT='(x>0?x:0)', procs=2, WEIGHT='((double)(((7*l+5*j+3*i)%5)-2)*0.5)')
