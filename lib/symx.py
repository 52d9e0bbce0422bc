#!/usr/bin/env python3
"""Path-forking symbolic executor over LLVM IR (the IR clang emits for a
harness that includes the real OrpailleCC headers).

* every memory address is concrete on a path; a symbolic address, switch value
  or bit-twiddled operand is split by the solver into all its feasible values;
* integers are exact (mathematical Int terms plus explicit wrap);
* doubles are exact dyadic rationals as long as the result provably fits the
  53-bit significand (so real arithmetic == IEEE arithmetic), and otherwise a
  fresh real constrained to the exact result +- one rounding error (an
  over-approximation: unsat stays sound, sat is confirmed by native replay);
* a symbolic branch forks, both sides checked by z3; assertions, memory safety,
  use of uninitialised values, overflow of signed arithmetic, float->int range,
  division by zero are queries on the path condition.
"""
import sys, os, struct, math, re, time, json, signal, pickle
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir2c
from ir2c import Unsupported, P, lex, parse_type, parse_value, parse_attrs, mangle, Module
import z3

sys.setrecursionlimit(20000)

class Undef:
    __slots__ = ()
    def __repr__(s): return 'UNDEF'
UNDEF = Undef()

def nxt_up(x): return math.nextafter(x, math.inf)
def nxt_dn(x): return math.nextafter(x, -math.inf)

class SI:
    """symbolic n-bit integer: bits == e mod 2^n ; lo<=e<=hi ; b: optional bool source"""
    __slots__ = ('e', 'lo', 'hi', 'n', 'b')
    def __init__(s, e, lo, hi, n, b=None): s.e, s.lo, s.hi, s.n, s.b = e, lo, hi, n, b
class SB:
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
class SD:
    """symbolic finite double; g = grid exponent (value is an integer multiple of 2^-g) or None"""
    __slots__ = ('e', 'lo', 'hi', 'g')
    def __init__(s, e, lo, hi, g): s.e, s.lo, s.hi, s.g = e, lo, hi, g

class SDB:
    """byte k of a symbolic double of n bytes"""
    __slots__ = ('v', 'k', 'n')
    def __init__(s, v, k, n): s.v, s.k, s.n = v, k, n

def rv(x):
    """exact z3 rational of a python float/int"""
    f = Fraction(x)
    if f.denominator == 1: return z3.RealVal(f.numerator)
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator))
def grid_of(x):
    """smallest g with x*2^g integer for a float"""
    return Fraction(x).denominator.bit_length() - 1
def f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(math.inf, x)
def sgn(v, n): return v - (1 << n) if v >> (n-1) else v

class Violation(Exception):
    def __init__(s, kind, msg, model=None): s.kind, s.msg, s.model = kind, msg, model
class PathEnd(Exception): pass
class Fork(Exception): pass
class Budget(Exception): pass

class Obj:
    __slots__ = ('size', 'cells', 'alive', 'kind', 'own', 'name', 'sym')
    def __init__(s, size, kind, name): s.size, s.cells, s.alive, s.kind, s.own, s.name = size, {}, True, kind, None, name
    def clone(s, own):
        o = Obj(s.size, s.kind, s.name); o.cells = dict(s.cells); o.alive = s.alive; o.own = own; return o

class Frame:
    __slots__ = ('fn', 'r', 'code', 'pc', 'ret', 'allocs', 'blk')
    def copy(s):
        f = Frame(); f.fn, f.r, f.code, f.pc, f.ret, f.allocs, f.blk = s.fn, s.r[:], s.code, s.pc, s.ret, s.allocs[:], s.blk; return f

class State:
    __slots__ = ('frames', 'mem', 'pc', 'inputs', 'own', 'nobj', 'conc', 'steps', 'obs', 'model', 'reach', 'depth', 'approx', 'nd', 'lazy')
    def fork(s):
        t = State()
        t.frames = [f.copy() for f in s.frames]
        t.mem = dict(s.mem); s.own = object(); t.own = object()
        t.pc = s.pc[:]; t.inputs = s.inputs[:]; t.nobj = s.nobj; t.conc = dict(s.conc)
        t.steps = s.steps; t.obs = s.obs[:]; t.model = s.model; t.reach = s.reach; t.depth = s.depth; t.approx = s.approx; t.nd = s.nd
        t.lazy = s.lazy[:]
        return t

class CFn:
    pass

FPREC = {'double': 53, 'float': 24}

class Engine:
    def __init__(s, text, entry='vf_main', **o):
        s.m = Module(text)
        s.g = ir2c.Gen(s.m, entry)   # for sizes
        s.entry = entry
        s.fns = {}
        s.fnobj = {}; s.objfn = {}
        s.gobj = {}; s.rtti = {}
        s.base = State(); b = s.base
        b.frames = []; b.mem = {}; b.pc = []; b.inputs = []; b.own = object(); b.nobj = 1; b.conc = {}; b.steps = 0; b.obs = []; b.model = None; b.reach = frozenset(); b.depth = 0; b.approx = False; b.nd = 0
        b.lazy = []
        s.encoded = []
        s.ninstr = 0
        s.opt = dict(max_steps=3000000, solver_ms=20000, check_uninit=True, max_paths=10**9, deadline=None, sample=0)
        s.opt.update(o)
        s.solver = z3.Solver()
        s.solver.set('timeout', s.opt['solver_ms'])
        s.sstack = []
        s.stats = dict(paths=0, killed=0, forks=0, queries=0, solver_s=0.0, steps=0, unknown=0, maxdepth=0, checks=0, checks_sym=0, concretised=0)
        s.reached = set()
        s.violations = []
        s.samples = []
        s.inconclusive = []
        s.fresh = 0
        s.memo = {}
        s.work = []

    # ------------------------------------------------------------ solving
    def sync(s, pc):
        st = s.sstack
        i = 0; n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]: i += 1
        if len(st) > i:
            s.solver.pop(len(st) - i); del st[i:]
        for c in pc[i:]:
            s.solver.push(); s.solver.add(c); st.append(c)
    def query(s, pc, extra=None):
        """returns model or None; raises Budget on unknown"""
        s.sync(pc)
        s.stats['queries'] += 1
        t = time.time()
        if extra is not None:
            s.solver.push(); s.solver.add(extra)
        try:
            r = s.solver.check()
            if r == z3.unknown:
                # second opinion, non-incremental
                s2 = z3.Solver(); s2.set('timeout', s.opt['solver_ms'])
                for c in s.solver.assertions(): s2.add(c)
                r = s2.check()
                if r == z3.sat: return s2.model()
                # polynomials of high degree: look for a model with all but one input fixed
                if r == z3.unknown and s.opt.get('som') and (m := s.query_fixed(s.solver.assertions())) is not None: return m
            if r == z3.sat: return s.solver.model()
            if r == z3.unsat: return None
            s.stats['unknown'] += 1
            raise Budget('solver unknown')
        finally:
            if extra is not None: s.solver.pop()
            s.stats['solver_s'] += time.time() - t
    def query_fixed(s, cs, tries=60):
        import random
        cs = list(cs); vs = {}; todo = list(cs); seen = set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: vs[str(e)] = e
            todo += e.children()
        rnd = random.Random(1); names = sorted(vs)
        for k in range(tries):
            keep = rnd.choice(names) if k % 2 else None; s3 = z3.Solver(); s3.set('timeout', 500)
            sub = [(vs[n], z3.IntVal(rnd.choice([1, 2, 3, 5, 7] if k % 3 < 2 else [-3, -2, -1, 1, 2, 3])) if z3.is_int(vs[n]) else z3.RealVal(rnd.choice([1, 3]))) for n in names if n != keep and z3.is_arith(vs[n])]
            for c in cs: s3.add(z3.simplify(z3.substitute(c, *sub)))
            for v, x in sub: s3.add(v == x)
            s.stats['queries'] += 1
            if s3.check() == z3.sat: return s3.model()
        return None
    def model_true(s, st, c):
        if st.model is None: return None
        v = st.model.eval(c, model_completion=True)
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        return None
    def add(s, st, c): st.pc.append(c)

    def decide(s, st, c):
        """(can be true, can be false) with models"""
        mt = mf = None; m = s.model_true(st, c)
        if m is True: mt = st.model
        if m is False: mf = st.model
        nc = z3.Not(c)
        if mt is None: 
            mt = s.query(st.pc, c)
        if mf is None: mf = s.query(st.pc, nc)
        return mt, mf, nc

    def branch(s, st, c):
        """boolean decision on the current path; forks the other side by re-executing the instruction"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k in st.conc: return st.conc[k][1]
        mt, mf, nc = s.decide(st, c)
        if mt is not None and mf is not None:
            s.stats['forks'] += 1
            t = st.fork(); t.model = mf; t.pc.append(nc); t.conc[k] = (c, False); t.depth += 1
            t.frames[-1].pc -= 1
            s.work.append(t)
            st.model = mt; st.pc.append(c); st.depth += 1; st.conc[k] = (c, True)
            return True
        if mt is not None:
            st.model = mt; st.conc[k] = (c, True); return True
        if mf is not None:
            st.model = mf; st.conc[k] = (c, False); return False
        raise PathEnd('infeasible')

    def concretize(s, st, v, limit=4096):
        """all feasible values of a symbolic int, one path each"""
        if type(v) is int: return v
        if type(v) is SB: return 1 if s.branch(st, v.e) else 0
        if v is UNDEF: raise Violation('uninit', 'use of an uninitialised value')
        if type(v) is SD: raise Unsupported('concretize double')
        e = z3.simplify(v.e)
        if z3.is_int_value(e): return e.as_long() & ((1 << v.n) - 1)
        k = e.get_id()
        if k in st.conc: return st.conc[k][1]
        mask = (1 << v.n) - 1
        m = st.model
        if m is None: m = s.query(st.pc)
        if m is None: raise PathEnd('infeasible')
        x = m.eval(e, model_completion=True).as_long()
        c = e == x
        # the rest is explored separately
        m2 = s.query(st.pc, e != x)
        if m2 is not None:
            s.stats['concretised'] += 1
            t = st.fork(); t.pc.append(e != x); t.model = m2; t.frames[-1].pc -= 1; t.depth += 1
            s.work.append(t)
            st.pc.append(c); st.depth += 1
        st.model = m
        st.conc[k] = (e, x & mask)
        return x & mask

    def require(s, st, c, kind, msg):
        """obligation: c must hold on every completion of the path condition"""
        s.stats['checks'] += 1
        if c is True: return
        if c is False: raise Violation(kind, msg, s.get_model(st))
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Violation(kind, msg, s.get_model(st))
        if s.opt.get('som'):   # polynomial identities: normalise to sums of monomials
            t0 = time.time(); d = c
            m = s.query_fixed(list(st.pc) + [z3.Not(c)], 4)
            if m is not None: raise Violation(kind, msg, m)
            for _ in range(5):
                d2 = z3.simplify(d, som=True, arith_lhs=True, som_blowup=200000)
                if d2.eq(d): break
                d = d2
            s.stats['solver_s'] += time.time() - t0; s.stats['queries'] += 1
            if z3.is_true(d): return
        s.stats['checks_sym'] += 1
        if s.model_true(st, c) is False: m = st.model
        else: m = s.query(st.pc, z3.Not(c))
        if m is not None:
            if st.lazy:
                m = s.refine(st, z3.Not(c), m)
            if m is not None: raise Violation(kind, msg, m)
        st.pc.append(c)
    def refine(s, st, nc, m):
        """add the exact definitions of abstracted operations"""
        s2 = z3.Solver(); s2.set('timeout', s.opt['solver_ms'])
        for c in st.pc: s2.add(c)
        for c in st.lazy: s2.add(c)
        s2.add(nc); t = time.time(); s.stats['queries'] += 1
        r = s2.check(); s.stats['solver_s'] += time.time() - t
        if r == z3.sat: return s2.model()
        if r == z3.unsat: return None
        return m
    def get_model(s, st):
        if st.lazy:
            s2 = z3.Solver(); s2.set('timeout', s.opt['solver_ms'])
            for c in st.pc: s2.add(c)
            for c in st.lazy: s2.add(c)
            s.stats['queries'] += 1; r = s2.check()
            if r == z3.sat: return s2.model()
            if r == z3.unsat: raise PathEnd('spurious')
        if st.model is not None and not st.pc: return st.model
        m = s.query(st.pc)
        if m is None: raise PathEnd('infeasible')
        return m
    def inputs_of(s, st, m):
        out = []
        for kind, e in st.inputs:
            if type(e) is int: v = e
            else: v = m.eval(e, model_completion=True).as_long()
            if kind == 'u': v = struct.unpack('<Q', struct.pack('<d', v / (1 << s.opt.get('unit_grid', 20))))[0]
            out.append(v)
        return out

    # ------------------------------------------------------------ numbers
    def sval(s, v):
        """signed math value (expr, lo, hi) of SI"""
        n = v.n; h = 1 << (n-1)
        if v.lo >= -h and v.hi < h: return v.e, v.lo, v.hi
        if v.lo >= 0 and v.hi < 2*h: return z3.If(v.e >= h, v.e - 2*h, v.e), -h, h-1
        e = (v.e + h) % (2*h) - h
        return e, -h, h-1
    def uval(s, v):
        n = v.n; M = 1 << n
        if v.lo >= 0 and v.hi < M: return v.e, v.lo, v.hi
        if v.lo >= -(M >> 1) and v.hi < (M >> 1): return z3.If(v.e < 0, v.e + M, v.e), 0, M-1
        return v.e % M, 0, M-1
    def mk(s, e, lo, hi, n):
        if lo == hi: return lo & ((1 << n)-1)
        if lo >= -(1 << (n-1)) and hi < (1 << (n-1)): return SI(e, lo, hi, n)
        if lo >= 0 and hi < (1 << n): return SI(e, lo, hi, n)
        M = 1 << n
        return SI(e % M, 0, M-1, n)
    def toSI(s, v, n):
        if type(v) is int: 
            x = sgn(v, n); return SI(z3.IntVal(x), x, x, n)
        if type(v) is SB: return SI(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), 0, 1, n, v)
        return v
    def boolof(s, v):
        if type(v) is int: return z3.BoolVal(bool(v & 1))
        if type(v) is SB: return v.e
        if type(v) is SI:
            if v.b is not None: return v.b.e
            return (v.e % 2) == 1
        raise Violation('uninit', 'branch on an uninitialised value')

    def newreal(s, tag):
        s.fresh += 1
        return z3.Real('%s!%d.%d' % (tag, os.getpid(), s.fresh))
    def newint(s, tag):
        s.fresh += 1
        return z3.Int('%s!%d.%d' % (tag, os.getpid(), s.fresh))

    def mkd(s, st, e, lo, hi, g, prec):
        """wrap an exact real result into a double, rounding if it may be inexact"""
        B = max(abs(lo), abs(hi))
        if B > 1e300 if prec == 53 else B > 1e38: raise Unsupported('possible float overflow')
        if g is not None and g <= 1000 and B <= math.ldexp(1.0, prec - g):
            if lo == hi: return float(lo)
            return SD(e, lo, hi, g)
        if s.opt.get('real'):   # documented abstraction: real arithmetic, no rounding
            st.approx = True
            return SD(z3.simplify(e), lo, hi, None)
        key = ('rnd', e.get_id(), prec, lo, hi)
        if key in s.memo:
            r, c0, keep = s.memo[key]
            if key not in st.conc:
                st.conc[key] = True; st.pc.append(c0); st.approx = True; st.model = None
            return SD(r, lo, hi, None)
        r = s.newreal('rnd')
        d = Fraction(B) * Fraction(1, 1 << prec) + Fraction(1, 1 << 1074)
        dv = z3.RealVal(str(d.numerator) + '/' + str(d.denominator))
        cs = [r - e <= dv, e - r <= dv, z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0)]
        if lo > -math.inf:
            lo2, hi2 = nxt_dn(lo), nxt_up(hi)
        # rounding is monotone and fixes representable numbers
        if g is not None:   # result is still a multiple of 2^-g only if no rounding; keep no grid
            pass
        cs += [r >= rv(lo), r <= rv(hi)]
        for c in (1.0, -1.0):
            if lo < c < hi: cs += [z3.Implies(e <= rv(c), r <= rv(c)), z3.Implies(e >= rv(c), r >= rv(c))]
        c0 = z3.And(*cs)
        s.memo[key] = (r, c0, e); st.conc[key] = True
        st.pc.append(c0); st.approx = True
        if st.model is not None: st.model = None
        return SD(r, lo, hi, None)

    def fp_op(s, st, op, x, y, prec):
        if x is UNDEF or y is UNDEF: return UNDEF
        tx, ty = type(x), type(y)
        if tx is float and ty is float:
            try:
                if op == 'fadd': v = x + y
                elif op == 'fsub': v = x - y
                elif op == 'fmul': v = x * y
                elif op == 'fdiv':
                    if y == 0:
                        v = math.nan if (x == 0 or x != x) else math.copysign(math.inf, math.copysign(1, x) * math.copysign(1, y))
                    else: v = x / y
            except OverflowError: v = math.inf
            return f32(v) if prec == 24 else v
        # specials
        for a in (x, y):
            if type(a) is float and a != a: return math.nan
        if tx is float and math.isinf(x):
            if op in ('fadd', 'fsub'): return x
            if op == 'fmul':
                if s.branch(st, y.e == 0): return math.nan
                return x if s.branch(st, y.e > 0) else -x
            if op == 'fdiv': return x if s.branch(st, y.e >= 0) else -x
        if ty is float and math.isinf(y):
            if op == 'fadd': return y
            if op == 'fsub': return -y
            if op == 'fmul':
                if s.branch(st, x.e == 0): return math.nan
                return y if s.branch(st, x.e > 0) else -y
            if op == 'fdiv': return 0.0
        # exact identities
        if ty is float and y == 0 and op in ('fadd', 'fsub'): return x
        if tx is float and x == 0 and op == 'fadd': return y
        if op == 'fmul':
            if (tx is float and x == 0) or (ty is float and y == 0): return 0.0   # sign of zero not tracked
            if tx is float and x == 1: return y
            if ty is float and y == 1: return x
        if op == 'fdiv' and ty is float and y == 1: return x
        if tx is float: x = SD(rv(x), x, x, grid_of(x)); xc = True
        else: xc = False
        if ty is float: y0 = y; y = SD(rv(y), y, y, grid_of(y)); yc = True
        else: yc = False
        if op in ('fadd', 'fsub'):
            if op == 'fadd': e = x.e + y.e; lo, hi = x.lo + y.lo, x.hi + y.hi
            else: e = x.e - y.e; lo, hi = x.lo - y.hi, x.hi - y.lo
            g = None if x.g is None or y.g is None else max(x.g, y.g)
            if g is None or g > 40: lo, hi = nxt_dn(lo), nxt_up(hi)
            return s.mkd(st, e, lo, hi, g, prec)
        if op == 'fmul':
            ps = [x.lo*y.lo, x.lo*y.hi, x.hi*y.lo, x.hi*y.hi]; lo, hi = min(ps), max(ps)
            g = None if x.g is None or y.g is None else x.g + y.g
            if g is None or g > 40: lo, hi = nxt_dn(lo), nxt_up(hi)
            if xc or yc or not s.opt.get('lazy_mul'):
                return s.mkd(st, x.e * y.e, lo, hi, g, prec)
            key = ('mul', x.e.get_id(), y.e.get_id())
            if key in s.memo:
                e, c0, lz, keep = s.memo[key]
                if key not in st.conc: st.conc[key] = True; st.pc.append(c0); st.model = None; st.lazy.append(lz); st.approx = True
                return s.mkd(st, e, lo, hi, g, prec)
            e = s.newreal('mul')
            ax = [z3.Implies(z3.Or(x.e == 0, y.e == 0), e == 0),
                  z3.Implies(z3.Or(z3.And(x.e > 0, y.e > 0), z3.And(x.e < 0, y.e < 0)), e > 0),
                  z3.Implies(z3.Or(z3.And(x.e > 0, y.e < 0), z3.And(x.e < 0, y.e > 0)), e < 0),
                  e >= rv(lo), e <= rv(hi)]
            # |x|<=1 => |e|<=|y|
            if x.lo >= 0 and x.hi <= 1: ax += [z3.If(y.e >= 0, e <= y.e, e >= y.e), z3.Implies(z3.And(x.e < 1, y.e > 0), e < y.e), z3.Implies(z3.And(x.e < 1, y.e < 0), e > y.e)]
            if y.lo >= 0 and y.hi <= 1: ax += [z3.If(x.e >= 0, e <= x.e, e >= x.e), z3.Implies(z3.And(y.e < 1, x.e > 0), e < x.e), z3.Implies(z3.And(y.e < 1, x.e < 0), e > x.e)]
            # McCormick
            for (a, b) in ((x.lo, y.lo), (x.hi, y.hi)): ax.append(e >= rv(a)*y.e + rv(b)*x.e - rv(a)*rv(b))
            for (a, b) in ((x.lo, y.hi), (x.hi, y.lo)): ax.append(e <= rv(a)*y.e + rv(b)*x.e - rv(a)*rv(b))
            c0 = z3.And(*ax); lz = (e == x.e * y.e); s.memo[key] = (e, c0, lz, (x.e, y.e)); st.conc[key] = True
            st.pc.append(c0); st.model = None; st.lazy.append(lz); st.approx = True
            return s.mkd(st, e, lo, hi, g, prec)
        if op == 'fdiv':
            if yc:
                if y0 == 0:
                    if s.branch(st, x.e == 0): return math.nan
                    v = math.copysign(math.inf, y0)
                    return v if s.branch(st, x.e > 0) else -v
                m, ex = math.frexp(y0)
                ps = [x.lo/y0, x.hi/y0]; lo, hi = min(ps), max(ps)
                if abs(m) == 0.5:
                    g = None if x.g is None else max(0, x.g + ex - 1)
                    return s.mkd(st, x.e / rv(y0), lo, hi, g, prec)
                return s.mkd(st, x.e / rv(y0), nxt_dn(lo), nxt_up(hi), None, prec)
            if y.lo <= 0 <= y.hi and s.branch(st, y.e == 0):
                if xc: zero = (x.lo == 0)
                else: zero = s.branch(st, x.e == 0)
                if zero: return math.nan
                pos = s.branch(st, x.e > 0) if not xc else x.lo > 0
                # the sign of a symbolic zero is not tracked: both outcomes are explored
                b = z3.Bool('zsign!%d.%d' % (id(y), len(st.pc)))
                st.approx = True
                return math.inf if s.branch(st, b) == pos else -math.inf
            # nonlinear: abstract with sign / magnitude axioms, exact definition kept for refinement
            ypos = s.branch(st, y.e > 0) if y.lo < 0 < y.hi else (y.hi > 0 and y.lo >= 0)
            key = ('div', x.e.get_id(), y.e.get_id(), ypos)
            q = s.memo[key][0] if key in s.memo else s.newreal('div')
            yl, yh = y.lo, y.hi
            if ypos: yl = max(yl, 0.0)
            else: yh = min(yh, 0.0)
            mg = math.ldexp(1.0, -y.g) if y.g is not None else None
            small = (yl if ypos else -yh)
            if mg is not None: small = max(small, mg)
            if small <= 0: small = None
            X, Y = x.e, y.e
            if not ypos: X, Y = -X, -Y
            ax = [z3.Implies(X == 0, q == 0), z3.Implies(X > 0, q > 0), z3.Implies(X < 0, q < 0),
                  z3.Implies(X >= Y, q >= 1), z3.Implies(X > Y, q > 1), z3.Implies(X <= Y, q <= 1), z3.Implies(X < Y, q < 1),
                  z3.Implies(X >= -Y, q >= -1), z3.Implies(X <= -Y, q <= -1)]
            BX = max(abs(x.lo), abs(x.hi))
            if small is not None:
                B = nxt_up(BX / small)
            else: B = 1e290; 
            lo, hi = -B, B
            if ypos and x.lo >= 0 or (not ypos and x.hi <= 0): lo = 0.0
            if ypos and x.hi <= 0 or (not ypos and x.lo >= 0): hi = 0.0
            ax += [q >= rv(lo), q <= rv(hi)]
            # y bounds give linear bounds on q
            ym = max(abs(yl), abs(yh))
            if ym < 1e300:
                ax += [z3.Implies(X >= 0, q >= X / rv(ym)), z3.Implies(X <= 0, q <= X / rv(ym))]
            if small is not None: ax += [z3.Implies(X >= 0, q <= X / rv(small)), z3.Implies(X <= 0, q >= X / rv(small))]
            if key not in s.memo: s.memo[key] = (q, z3.And(*ax), q * Y == X, (x.e, y.e))
            if key not in st.conc:
                st.conc[key] = True; st.pc.append(s.memo[key][1]); st.model = None; st.lazy.append(s.memo[key][2]); st.approx = True
            return s.mkd(st, q, lo, hi, None, prec)
        raise Unsupported(op)

    def fcmp(s, st, c, x, y):
        if x is UNDEF or y is UNDEF: return UNDEF
        if c == 'true': return 1
        if c == 'false': return 0
        if type(x) is float and type(y) is float:
            nan = x != x or y != y
            if c == 'ord': return int(not nan)
            if c == 'uno': return int(nan)
            if nan: return int(c[0] == 'u')
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[c[1:]])
        for a in (x, y):
            if type(a) is float and a != a: return int(c[0] == 'u')
        if c == 'ord': return 1
        if c == 'uno': return 0
        k = c[1:]
        # infinities and interval pre-check
        xl, xh = (x, x) if type(x) is float else (x.lo, x.hi)
        yl, yh = (y, y) if type(y) is float else (y.lo, y.hi)
        if k == 'lt':
            if xh < yl: return 1
            if xl >= yh: return 0
        elif k == 'le':
            if xh <= yl: return 1
            if xl > yh: return 0
        elif k == 'gt':
            if xl > yh: return 1
            if xh <= yl: return 0
        elif k == 'ge':
            if xl >= yh: return 1
            if xh < yl: return 0
        elif k == 'eq':
            if xh < yl or yh < xl: return 0
        elif k == 'ne':
            if xh < yl or yh < xl: return 1
        X = rv(x) if type(x) is float else x.e
        Y = rv(y) if type(y) is float else y.e
        return SB({'eq': X == Y, 'ne': X != Y, 'lt': X < Y, 'le': X <= Y, 'gt': X > Y, 'ge': X >= Y}[k])

    # ------------------------------------------------------------ memory
    def new_obj(s, st, size, kind, name):
        i = st.nobj; st.nobj += 1
        o = Obj(size, kind, name); o.own = st.own
        st.mem[i] = o
        return i << 32
    def access(s, st, p, n, write):
        if p is UNDEF: raise Violation('uninit', 'access through an uninitialised pointer')
        oid = p >> 32; off = p & 0xffffffff
        o = st.mem.get(oid)
        if p < (1 << 32) or o is None:
            raise Violation('memory', ('write' if write else 'read') + (' through a null pointer' if p < 4096 else ' outside any object'), None)
        if o.kind == 'extern': raise Unsupported('access to the external ' + o.name)
        if not o.alive: raise Violation('memory', 'access to a dead object ' + o.name)
        if off + n > o.size: raise Violation('memory', '%s of %d bytes at offset %d of %s (%d bytes)' % ('write' if write else 'read', n, off if off < 1 << 31 else off - (1 << 32), o.name, o.size))
        if write and o.own is not st.own:
            o = o.clone(st.own); st.mem[oid] = o
        return o, off

    def tobytes(s, st, cell):
        n, v = cell
        if v is UNDEF: return [UNDEF] * n
        if type(v) is float:
            v = int.from_bytes(struct.pack('<d' if n == 8 else '<f', v), 'little')
        if type(v) is int: return [(v >> (8*k)) & 255 for k in range(n)]
        if type(v) is SI:
            e, lo, hi = s.uval(v)
            return [SI((e / (1 << (8*k))) % 256, 0, 255, 8) if k else SI(e % 256, 0, 255, 8) for k in range(n)]
        if type(v) is SB: return [SI(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), 0, 1, 8, v)] + [0]*(n-1)
        if type(v) is SD: return [SDB(v, k, n) for k in range(n)]
        raise Unsupported('byte access into a symbolic value')
    def explode(s, st, o, off, n):
        """split any cell overlapping [off,off+n) into byte cells"""
        c = o.cells
        for a in range(off - 15, off + n):
            x = c.get(a)
            if x is not None and x[0] > 1 and a + x[0] > off:
                del c[a]
                for k, b in enumerate(s.tobytes(st, x)): c[a+k] = (1, b)
    def load(s, st, p, n, kind):
        o, off = s.access(st, p, n, False)
        x = o.cells.get(off)
        if x is not None and x[0] == n: v = x[1]
        else:
            # overlapping cells?
            v = None
            if x is None:
                for a in range(off - 15, off + n):
                    y = o.cells.get(a)
                    if y is not None and a + y[0] > off: v = 1; break
                if v is None: return UNDEF
            if o.own is not st.own:
                o = o.clone(st.own); st.mem[p >> 32] = o
            s.explode(st, o, off, n)
            bs = [o.cells.get(off+k, (1, UNDEF))[1] for k in range(n)]
            if any(b is UNDEF for b in bs): return UNDEF
            if any(type(b) is SDB for b in bs):
                if not all(type(b) is SDB and b.v is bs[0].v and b.k == k and b.n == n for k, b in enumerate(bs)): raise Unsupported('byte access into a symbolic double')
                v = bs[0].v
            elif all(type(b) is int for b in bs): v = sum(b << (8*k) for k, b in enumerate(bs))
            else:
                e = 0
                for k, b in enumerate(bs):
                    e = e + (b if type(b) is int else b.e) * (1 << (8*k))
                v = SI(e, 0, (1 << (8*n)) - 1, 8*n)
        if v is UNDEF: return v
        if kind == 'd':
            if type(v) is int: v = struct.unpack('<d', v.to_bytes(8, 'little'))[0]
            elif type(v) is SI: raise Unsupported('symbolic int read as double')
        elif kind == 'f':
            if type(v) is int: v = struct.unpack('<f', v.to_bytes(4, 'little'))[0]
        else:
            if type(v) is float: v = int.from_bytes(struct.pack('<d' if n == 8 else '<f', v), 'little')
            elif type(v) is SD:
                return v   # moved as raw bits (memcpy-like); arithmetic on it is refused
        return v
    def store(s, st, p, n, v):
        o, off = s.access(st, p, n, True)
        if o.kind == 'const': raise Violation('memory', 'write to constant ' + o.name)
        c = o.cells
        x = c.get(off)
        if x is not None and x[0] == n: c[off] = (n, v); return
        # remove overlaps
        for a in range(off - 15, off + n):
            y = c.get(a)
            if y is not None and a + y[0] > off:
                if a >= off and a + y[0] <= off + n: del c[a]
                else:
                    del c[a]
                    for k, b in enumerate(s.tobytes(st, y)):
                        if not (off <= a + k < off + n): c[a+k] = (1, b)
        c[off] = (n, v)
    def memcpy(s, st, d, p, n):
        if n == 0: return
        so, soff = s.access(st, p, n, False)
        # split partial cells at the borders
        for a in range(soff - 15, soff + n):
            y = so.cells.get(a)
            if y is not None and ((a < soff < a + y[0]) or (a < soff + n < a + y[0])):
                if so.own is not st.own: so = so.clone(st.own); st.mem[p >> 32] = so
                s.explode(st, so, a, y[0])
        cells = [(a - soff, so.cells[a]) for a in range(soff, soff + n) if a in so.cells]
        do, doff = s.access(st, d, n, True)
        if do.kind == 'const': raise Violation('memory', 'write to constant')
        s.clear(st, do, doff, n)
        for a, y in cells: do.cells[doff + a] = y
    def clear(s, st, o, off, n):
        c = o.cells
        for a in range(off - 15, off + n):
            y = c.get(a)
            if y is not None and a + y[0] > off:
                del c[a]
                if not (a >= off and a + y[0] <= off + n):
                    for k, b in enumerate(s.tobytes(st, y)):
                        if not (off <= a + k < off + n): c[a+k] = (1, b)
    def memset(s, st, d, v, n):
        if n == 0: return
        v = s.concretize(st, v) & 255
        o, off = s.access(st, d, n, True)
        s.clear(st, o, off, n)
        a = off; end = off + n
        while a < end:
            k = 8
            while k > 1 and (a % k or a + k > end): k //= 2
            o.cells[a] = (k, int.from_bytes(bytes([v]) * k, 'little')); a += k

    # ------------------------------------------------------------ loading
    def gaddr(s, n):
        if n in s.m.globals and s.m.globals[n][0] == 'alias': n = s.m.globals[n][1][1]
        if n in s.m.funcs or n in s.m.decls:
            if n not in s.fnobj:
                a = s.new_obj(s.base, 0, 'func', n); s.fnobj[n] = a; s.objfn[a] = n
            return s.fnobj[n]
        if n in s.gobj: return s.gobj[n]
        kind, t, v = s.m.globals[n]
        if v is None and n.startswith('_ZTVN10__cxxabiv1'):   # vtable of a type_info class: only its address is used
            a = s.new_obj(s.base, 64, 'const', n); s.gobj[n] = a; s.rtti[a] = n
            return a
        if v is None:   # opaque: its address may be passed around, an access is refused
            a = s.new_obj(s.base, 0, 'extern', n); s.gobj[n] = a
            return a
        a = s.new_obj(s.base, s.g.size(t), 'global', n); s.gobj[n] = a
        s.ginit(a, t, v)
        if kind == 'constant': s.base.mem[a >> 32].kind = 'const'
        return a
    def ginit(s, a, t, v):
        t = s.g.resolve(t); k = v[0]; sz = s.g.size(t)
        if k == 'undef': return
        if k == 'zero':
            if sz:
                s.memset(s.base, a, 0, sz)
            return
        if k == 'str':
            for i, b in enumerate(v[1]): s.base.mem[a >> 32].cells[(a & 0xffffffff) + i] = (1, b)
            return
        if k == 'agg':
            off = 0
            for i, (tt, x) in enumerate(v[1]):
                if t.k == 'struct':
                    al = 1 if t.b else s.g.align(tt); off = (off + al - 1)//al*al
                s.ginit(a + off, tt, x); off += s.g.size(tt)
            return
        s.store(s.base, a, sz, s.const(v, t))
    def const(s, v, t):
        k = v[0]
        if k == 'int': return v[1] & ((1 << t.a) - 1) if t.k == 'int' else v[1]
        if k == 'fp': return float(v[1])
        if k == 'null': return 0
        if k == 'undef': return UNDEF
        if k == 'zero':
            t = s.g.resolve(t)
            if t.k in ('struct', 'arr', 'vec'):
                ts = t.a if t.k == 'struct' else [t.b]*t.a
                return tuple(s.const(('zero',), x) for x in ts)
            return 0.0 if t.k in ('double', 'float') else 0
        if k == 'glob': return s.gaddr(v[1])
        if k == 'gep':
            base = s.const(v[2][0][1], v[2][0][0]); off, dyn = s.gepoff(v[1], v[2][1:])
            return base + off
        if k == 'cast':
            x = s.const(v[3], v[2])
            if v[1] in ('bitcast', 'ptrtoint', 'inttoptr', 'zext'): return x
        if k == 'agg': return tuple(s.const(x, tt) for tt, x in v[1])
        raise Unsupported('const ' + k)
    def gepoff(s, t, idx):
        """constant byte offset and list of (operand, scale, bits, bound)"""
        off = 0; dyn = []
        tt, v = idx[0]
        if v[0] == 'int': off += v[1] * s.g.size(t)
        else: dyn.append((v, s.g.size(t), tt.a, None))
        cur = t
        for tt, v in idx[1:]:
            cur = s.g.resolve(cur)
            if cur.k == 'struct':
                n = v[1]; o = 0
                for i, f in enumerate(cur.a):
                    al = 1 if cur.b else s.g.align(f); o = (o + al - 1)//al*al
                    if i == n: break
                    o += s.g.size(f)
                off += o; cur = cur.a[n]
            else:
                sz = s.g.size(cur.b)
                if v[0] == 'int': off += v[1] * sz
                else: dyn.append((v, sz, tt.a, cur.a if cur.a > 1 else None))
                cur = cur.b
        return off, dyn

    def fn(s, name):
        if name in s.fns: return s.fns[name]
        f = s.m.funcs[name]
        c = CFn(); s.fns[name] = c; c.name = name
        s.encoded.append(name)
        slots = {}; tmpl = []; constslot = {}
        def reg(n):
            if n not in slots: slots[n] = len(tmpl); tmpl.append(UNDEF)
            return slots[n]
        def opnd(v, t):
            if v[0] == 'reg': return reg(v[1])
            x = s.const(v, t)
            k = (type(x).__name__, repr(x), t.k)
            if k not in constslot: constslot[k] = len(tmpl); tmpl.append(x)
            return constslot[k]
        c.params = []; unnamed = 0
        for (t, a, n) in f.params:
            if n is None: n = str(unnamed)
            if re.fullmatch(r'\d+', n): unnamed = int(n) + 1
            c.params.append((reg(n), s.g.size(a['byval']) if 'byval' in a else None))
        blocks = []; cur = str(unnamed); lines = []
        for L in f.body:
            m = re.match(r'^("?[-a-zA-Z$._0-9]+"?):', L)
            if m: blocks.append((cur, lines)); cur = m.group(1).strip('"'); lines = []
            elif L.strip(): lines.append(L)
        blocks.append((cur, lines))
        if not blocks[0][1] and len(blocks) > 1: blocks = blocks[1:]
        phis = {}; parsed = []
        for bn, ls in blocks:
            ins = []
            for L in ls:
                toks = lex(L)
                if not toks: continue
                p = P(toks); dst = None
                if p.peek()[0] == 'loc' and p.v(1) == '=': dst = p.next()[1][1:]; p.next()
                op = p.next()[1]; s.ninstr += 1
                if op == 'phi':
                    t = parse_type(p); inc = {}
                    while True:
                        p.need('['); v = parse_value(p, t); p.need(','); b = p.next()[1][1:]; p.need(']'); inc[b] = v
                        if not p.eat(','): break
                    phis.setdefault(bn, []).append((dst, t, inc)); continue
                ins.append((dst, op, p, L))
            parsed.append((bn, ins))
        index = {}; code = []; fix = []
        def edge(frm, to):
            ph = phis.get(to, [])
            return [to, tuple((reg(d), opnd(inc[frm], t)) for d, t, inc in ph)]
        for bn, ins in parsed:
            index[bn] = len(code)
            for dst, op, p, L in ins:
                try: I = s.decode(f, bn, dst, op, p, reg, opnd, edge)
                except Unsupported as e: raise Unsupported('%s in %s: %s' % (e, name, L.strip()))
                except (KeyError, IndexError, TypeError, AttributeError) as e: raise Unsupported('%r in %s: %s' % (e, name, L.strip()))
                if I is not None: code.append(I)
        # resolve labels
        out = []
        for I in code:
            if I[0] is Engine.x_br: I = (I[0], index[I[1][0]], I[1][1])
            elif I[0] is Engine.x_cbr: I = (I[0], I[1], (index[I[2][0]], I[2][1]), (index[I[3][0]], I[3][1]))
            elif I[0] is Engine.x_switch: I = (I[0], I[1], (index[I[2][0]], I[2][1]), {k: (index[e[0]], e[1]) for k, e in I[3].items()}, I[4])
            out.append(I)
        c.code = out; c.tmpl = tmpl; c.noret = f.ret.k == 'void'
        return c

    def kindof(s, t):
        if t.k == 'double': return 'd', 8
        if t.k == 'float': return 'f', 4
        if t.k == 'ptr': return 'i', 8
        if t.k == 'int': return ('b' if t.a == 1 else 'i'), s.g.size(t)
        raise Unsupported('memory type ' + t.k)

    def decode(s, f, bn, dst, op, p, reg, opnd, edge):
        E = Engine
        D = reg(dst) if dst is not None else None
        def ty(): return parse_type(p)
        def val(t): return opnd(parse_value(p, t), t)
        if op == 'alloca':
            t = ty(); n = 1
            if p.eat(',') and p.v() != 'align':
                tt = ty(); v = parse_value(p, tt)
                if v[0] != 'int': return (E.x_vla, D, s.g.size(t), opnd(v, tt))
                n = v[1]
            return (E.x_alloca, D, s.g.size(t)*n, '%s:%%%s' % (f.name, dst))
        if op == 'load':
            p.eat('volatile'); t = ty(); p.need(','); pt = ty(); a = val(pt); k, n = s.kindof(t)
            return (E.x_load, D, a, n, k)
        if op == 'store':
            p.eat('volatile'); t = ty(); v = val(t); p.need(','); pt = ty(); a = val(pt); k, n = s.kindof(t)
            return (E.x_store, v, a, n)
        if op == 'getelementptr':
            while p.v() in ('inbounds', 'nuw', 'nusw'): p.next()
            t = ty(); p.need(','); pt = ty(); base = val(pt); idx = []
            while p.eat(','):
                tt = ty(); idx.append((tt, parse_value(p, tt)))
            off, dyn = s.gepoff(t, idx)
            if not dyn: return (E.x_gep0, D, base, off)
            return (E.x_gep, D, base, off, tuple((opnd(v, INTT(b)), sz, b, bound) for v, sz, b, bound in dyn))
        if op == 'br':
            if p.eat('label'): return (E.x_br, edge(bn, p.next()[1][1:]))
            t = ty(); c = val(t); p.need(','); p.need('label'); a = p.next()[1][1:]; p.need(','); p.need('label'); b = p.next()[1][1:]
            return (E.x_cbr, c, edge(bn, a), edge(bn, b))
        if op == 'switch':
            t = ty(); v = val(t); p.need(','); p.need('label'); d = edge(bn, p.next()[1][1:]); p.need('['); cs = {}
            while not p.eat(']'):
                tt = ty(); c = parse_value(p, tt); p.need(','); p.need('label'); cs[c[1] & ((1 << tt.a)-1)] = edge(bn, p.next()[1][1:])
            return (E.x_switch, v, d, cs, t.a)
        if op == 'ret':
            t = ty()
            return (E.x_ret, None if t.k == 'void' else val(t))
        if op == 'unreachable': return (E.x_unreach,)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            nsw = False
            while p.v() in ('nsw', 'nuw', 'exact', 'disjoint'):
                if p.next()[1] == 'nsw': nsw = True
            t = ty(); a = val(t); p.need(','); b = val(t)
            return (E.x_iop, D, op, a, b, t.a, nsw and t.a >= 32)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            t = ty(); a = val(t); p.need(','); b = val(t)
            return (E.x_fop, D, op, a, b, FPREC[t.k])
        if op == 'fneg':
            t = ty(); return (E.x_fneg, D, val(t))
        if op == 'icmp':
            c = p.next()[1]; t = ty(); a = val(t); p.need(','); b = val(t)
            return (E.x_icmp, D, c, a, b, 64 if t.k == 'ptr' else t.a)
        if op == 'fcmp':
            c = p.next()[1]; t = ty(); a = val(t); p.need(','); b = val(t)
            return (E.x_fcmp, D, c, a, b)
        if op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            while p.v() in ('nneg', 'nuw', 'nsw'): p.next()
            t = ty(); v = val(t); p.need('to'); t2 = ty()
            def w(x): return 64 if x.k == 'ptr' else (x.a if x.k == 'int' else {'double':64,'float':32}[x.k])
            return (E.x_cast, D, op, v, w(t), w(t2))
        if op == 'select':
            t = ty(); c = val(t); p.need(','); ta = ty(); a = val(ta); p.need(','); tb = ty(); b = val(tb)
            return (E.x_select, D, c, a, b)
        if op == 'freeze':
            t = ty(); return (E.x_copy, D, val(t))
        if op == 'extractvalue':
            t = ty(); v = val(t); ix = []
            while p.eat(','): ix.append(int(p.next()[1]))
            return (E.x_extract, D, v, ix)
        if op == 'insertvalue':
            t = ty(); v = val(t); p.need(','); t2 = ty(); x = val(t2); ix = []
            while p.eat(','): ix.append(int(p.next()[1]))
            rt = s.g.resolve(t)
            return (E.x_insert, D, v, x, ix, len(rt.a) if rt.k == 'struct' else rt.a)
        if op in ('call', 'tail'):
            if op == 'tail': p.need('call')
            while p.peek()[0] == 'word' and p.v() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'fastcc'): p.next()
            parse_attrs(p); rt = ty()
            if p.v() == '(':
                d = 0
                while True:
                    x = p.next()[1]; d += (x == '(') - (x == ')')
                    if d == 0: break
            k, v = p.next()
            ind = None; callee = None
            if k == 'glob': callee = v[1:]
            else: ind = reg(v[1:])
            p.need('('); args = []; raw = []
            while not p.eat(')'):
                t = ty()
                if t.k == 'metadata':
                    d = 0
                    while not (d == 0 and p.v() in (',', ')')):
                        x = p.next()[1]; d += (x == '(') - (x == ')')
                    p.eat(','); continue
                parse_attrs(p); v = parse_value(p, t); raw.append(v)
                if callee and callee in ('vf_check', '__assert_fail', 'vf_reach') and v[0] == 'glob': args.append(None)
                else: args.append(opnd(v, t))
                p.eat(',')
            if callee and callee.startswith(ir2c.BUILTIN_IGNORE): return None
            if ind is not None: return (E.x_callind, D, ind, args)
            if callee in s.m.globals and s.m.globals[callee][0] == 'alias': callee = s.m.globals[callee][1][1]
            if callee in s.m.funcs: return (E.x_call, D, callee, args)
            n = callee
            if n == '__assert_fail':
                return (E.x_fail, 'repo', '%s:%s: assert(%s)' % (s.g.gstr(raw[1]).split('/')[-1], raw[2][1], s.g.gstr(raw[0])))
            if n == 'vf_check': return (E.x_check, args[0], s.g.gstr(raw[1]))
            if n == 'vf_reach': return (E.x_reach, s.g.gstr(raw[0]))
            if n in ('abort', 'exit', '_ZSt9terminatev', 'llvm.trap'): return (E.x_fail, 'repo', n + ' called')
            return (E.x_ext, D, n, args)
        raise Unsupported('instruction ' + op)

    # ------------------------------------------------------------ execution
    def x_alloca(s, st, fr, I):
        a = s.new_obj(st, I[2], 'stack', I[3]); fr.allocs.append(a >> 32); fr.r[I[1]] = a
    def x_vla(s, st, fr, I):
        n = s.concretize(st, fr.r[I[3]])
        a = s.new_obj(st, I[2]*n, 'stack', 'vla'); fr.allocs.append(a >> 32); fr.r[I[1]] = a
    def x_load(s, st, fr, I):
        p = fr.r[I[2]]
        if type(p) is not int: p = s.concretize(st, p)
        v = s.load(st, p, I[3], I[4])
        if I[4] == 'b' and v is not UNDEF: v = v & 1 if type(v) is int else SB(s.boolof(v))
        fr.r[I[1]] = v
    def x_store(s, st, fr, I):
        p = fr.r[I[2]]
        if type(p) is not int: p = s.concretize(st, p)
        v = fr.r[I[1]]
        if type(v) is SB: v = SI(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), 0, 1, 8*I[3], v)
        s.store(st, p, I[3], v)
    def x_gep0(s, st, fr, I):
        b = fr.r[I[2]]
        if type(b) is int: fr.r[I[1]] = b + I[3]
        elif b is UNDEF: fr.r[I[1]] = UNDEF
        else: fr.r[I[1]] = SI(b.e + I[3], b.lo + I[3], b.hi + I[3], 64)
    def x_gep(s, st, fr, I):
        b = fr.r[I[2]]; off = I[3]
        for (sl, sz, bits, bound) in I[4]:
            i = fr.r[sl]
            if type(i) is int:
                i = sgn(i, bits)
                if bound is not None and not 0 <= i < bound: raise Violation('memory', 'array index %d out of bounds [0,%d)' % (i, bound))
                off = off + i*sz
            elif i is UNDEF: raise Violation('uninit', 'array index is an uninitialised value')
            else:
                if type(i) is SB: i = s.toSI(i, bits)
                e, lo, hi = s.sval(i)
                if bound is not None and not (lo >= 0 and hi < bound):
                    s.require(st, z3.And(e >= 0, e < bound), 'memory', 'array index out of bounds [0,%d)' % bound)
                i = sgn(s.concretize(st, i), bits)
                off = off + i*sz
        if b is UNDEF: raise Violation('uninit', 'pointer arithmetic on an uninitialised pointer')
        if type(b) is not int: b = s.concretize(st, b)
        fr.r[I[1]] = b + off
    def goto(s, fr, tgt, ph):
        if ph:
            r = fr.r
            if len(ph) == 1: r[ph[0][0]] = r[ph[0][1]]
            else:
                vs = [r[b] for _, b in ph]
                for (a, _), v in zip(ph, vs): r[a] = v
        fr.pc = tgt
    def x_br(s, st, fr, I): 
        if I[2]: s.goto(fr, I[1], I[2])
        else: fr.pc = I[1]
    def x_cbr(s, st, fr, I):
        c = fr.r[I[1]]
        if type(c) is not int:
            if c is UNDEF: raise Violation('uninit', 'branch on an uninitialised value')
            c = s.branch(st, s.boolof(c))
        e = I[2] if c else I[3]
        s.goto(fr, e[0], e[1])
    def x_switch(s, st, fr, I):
        v = s.concretize(st, fr.r[I[1]]); e = I[3].get(v, I[2]); s.goto(fr, e[0], e[1])
    def x_ret(s, st, fr, I):
        v = fr.r[I[1]] if I[1] is not None else None
        for a in fr.allocs:
            if a in st.mem: del st.mem[a]
        st.frames.pop()
        if not st.frames: raise PathEnd('done')
        if fr.ret is not None: st.frames[-1].r[fr.ret] = v
    def x_unreach(s, st, fr, I): raise Violation('memory', 'reached code the compiler proved undefined (unreachable)')
    def x_copy(s, st, fr, I): fr.r[I[1]] = fr.r[I[2]]
    def x_extract(s, st, fr, I):
        v = fr.r[I[2]]
        for i in I[3]: v = v[i] if v is not UNDEF else v
        fr.r[I[1]] = v
    def x_insert(s, st, fr, I):
        v = fr.r[I[2]]
        if v is UNDEF: v = (UNDEF,) * I[5]
        if len(I[4]) != 1: raise Unsupported('nested insertvalue')
        v = list(v); v[I[4][0]] = fr.r[I[3]]; fr.r[I[1]] = tuple(v)
    def x_select(s, st, fr, I):
        c = fr.r[I[2]]
        if type(c) is int: fr.r[I[1]] = fr.r[I[3]] if c & 1 else fr.r[I[4]]; return
        if c is UNDEF: raise Violation('uninit', 'select on an uninitialised value')
        c = s.branch(st, s.boolof(c))
        fr.r[I[1]] = fr.r[I[3]] if c else fr.r[I[4]]
    def x_fneg(s, st, fr, I):
        x = fr.r[I[2]]
        if type(x) is float: x = -x
        elif x is not UNDEF: x = SD(-x.e, -x.hi, -x.lo, x.g)
        fr.r[I[1]] = x
    def x_fop(s, st, fr, I):
        a, b = fr.r[I[3]], fr.r[I[4]]
        fr.r[I[1]] = s.fp_op(st, I[2], a, b, I[5])
    def x_fcmp(s, st, fr, I): fr.r[I[1]] = s.fcmp(st, I[2], fr.r[I[3]], fr.r[I[4]])
    def x_icmp(s, st, fr, I):
        c, n = I[2], I[5]; x, y = fr.r[I[3]], fr.r[I[4]]
        if type(x) is int and type(y) is int:
            if c == 'eq': v = x == y
            elif c == 'ne': v = x != y
            else:
                if c[0] == 's': x, y = sgn(x, n), sgn(y, n)
                k = c[1:]
                v = x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y
            fr.r[I[1]] = int(v); return
        if x is UNDEF or y is UNDEF: fr.r[I[1]] = UNDEF; return
        if type(x) is SB or (type(x) is SI and x.b is not None):
            if type(y) is int and y in (0, 1) and c in ('eq', 'ne'):
                b = x.e if type(x) is SB else x.b.e
                fr.r[I[1]] = SB(b if (c == 'ne') == (y == 0) else z3.Not(b)); return
        x, y = s.toSI(x, n), s.toSI(y, n)
        if type(x) is SD or type(y) is SD: raise Unsupported('int compare of double bits')
        f = s.uval if c[0] == 'u' else s.sval
        (xe, xl, xh), (ye, yl, yh) = f(x), f(y)
        if c == 'eq' or c == 'ne':
            if xh < yl or yh < xl: fr.r[I[1]] = int(c == 'ne'); return
            e = xe == ye
            fr.r[I[1]] = SB(e if c == 'eq' else z3.Not(e)); return
        k = c[1:]
        if k in ('gt', 'ge'):
            xe, xl, xh, ye, yl, yh = ye, yl, yh, xe, xl, xh; k = 'l' + k[1]
        if k == 'lt':
            if xh < yl: v = 1
            elif xl >= yh: v = 0
            else: v = SB(xe < ye)
        else:
            if xh <= yl: v = 1
            elif xl > yh: v = 0
            else: v = SB(xe <= ye)
        fr.r[I[1]] = v
    def x_iop(s, st, fr, I):
        op, n, nsw = I[2], I[5], I[6]; x, y = fr.r[I[3]], fr.r[I[4]]; M = (1 << n) - 1
        if type(x) is int and type(y) is int:
            if op == 'add' or op == 'sub' or op == 'mul':
                if nsw:
                    a, b = sgn(x, n), sgn(y, n)
                    v = a + b if op == 'add' else a - b if op == 'sub' else a * b
                    if not -(1 << (n-1)) <= v < (1 << (n-1)): raise Violation('overflow', 'signed integer overflow in ' + op)
                else: v = x + y if op == 'add' else x - y if op == 'sub' else x * y
            elif op == 'and': v = x & y
            elif op == 'or': v = x | y
            elif op == 'xor': v = x ^ y
            elif op in ('shl', 'lshr', 'ashr'):
                if y >= n: raise Violation('overflow', 'shift amount out of range')
                v = x << y if op == 'shl' else x >> y if op == 'lshr' else sgn(x, n) >> y
            else:
                if y == 0: raise Violation('divzero', 'integer division by zero')
                if op == 'udiv': v = x // y
                elif op == 'urem': v = x % y
                else:
                    a, b = sgn(x, n), sgn(y, n); q = abs(a) // abs(b)
                    if (a < 0) != (b < 0): q = -q
                    v = q if op == 'sdiv' else a - q*b
            fr.r[I[1]] = v & M; return
        if x is UNDEF or y is UNDEF: fr.r[I[1]] = UNDEF; return
        if n == 1:
            a, b = s.boolof(x), s.boolof(y)
            fr.r[I[1]] = SB({'and': z3.And(a, b), 'or': z3.Or(a, b), 'xor': z3.Xor(a, b), 'add': z3.Xor(a, b)}[op]); return
        if type(x) is SD or type(y) is SD: raise Unsupported('int arithmetic on double bits')
        x0, y0 = x, y
        x, y = s.toSI(x, n), s.toSI(y, n)
        if op in ('add', 'sub', 'mul'):
            if nsw: (xe, xl, xh), (ye, yl, yh) = s.sval(x), s.sval(y)
            else: xe, xl, xh, ye, yl, yh = x.e, x.lo, x.hi, y.e, y.lo, y.hi
            if op == 'add': e, lo, hi = xe + ye, xl + yl, xh + yh
            elif op == 'sub': e, lo, hi = xe - ye, xl - yh, xh - yl
            else:
                e = xe * ye; ps = [xl*yl, xl*yh, xh*yl, xh*yh]; lo, hi = min(ps), max(ps)
            if nsw:
                h = 1 << (n-1)
                if lo < -h or hi >= h:
                    s.require(st, z3.And(e >= -h, e < h), 'overflow', 'signed integer overflow in ' + op)
                    lo, hi = max(lo, -h), min(hi, h-1)
            fr.r[I[1]] = s.mk(e, lo, hi, n); return
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            f = s.uval if op[0] == 'u' else s.sval
            (xe, xl, xh), (ye, yl, yh) = f(x), f(y)
            if yl <= 0 <= yh: s.require(st, ye != 0, 'divzero', 'integer division by zero')
            if xl >= 0 and yl >= 0:
                if op[1:] == 'div': fr.r[I[1]] = s.mk(xe / ye, 0, xh // max(1, yl), n)
                else: fr.r[I[1]] = s.mk(xe % ye, 0, min(xh, yh), n)
                return
            ax = z3.If(xe >= 0, xe, -xe); ay = z3.If(ye >= 0, ye, -ye); q = ax / ay
            q = z3.If((xe >= 0) == (ye >= 0), q, -q); B = max(abs(xl), abs(xh))
            if op == 'sdiv': fr.r[I[1]] = s.mk(q, -B, B, n)
            else: fr.r[I[1]] = s.mk(xe - q*ye, -B, B, n)
            return
        if op == 'and' and (type(y0) is int or type(x0) is int):
            k, v = (y0, x) if type(y0) is int else (x0, y)
            if k == 0: fr.r[I[1]] = 0; return
            if k & (k+1) == 0:
                e, lo, hi = s.uval(v); fr.r[I[1]] = s.mk(e if hi <= k else e % (k+1), 0, min(hi, k), n); return
        if op == 'shl' and type(y0) is int: fr.r[I[1]] = s.mk(x.e * (1 << y0), x.lo << y0, x.hi << y0, n); return
        if op == 'lshr' and type(y0) is int:
            e, lo, hi = s.uval(x); fr.r[I[1]] = s.mk(e / (1 << y0), lo >> y0, hi >> y0, n); return
        if op == 'ashr' and type(y0) is int:
            e, lo, hi = s.sval(x); fr.r[I[1]] = s.mk(e / (1 << y0), lo >> y0, hi >> y0, n); return
        if op == 'xor' and type(y0) is int and y0 == M:
            e, lo, hi = s.sval(x); fr.r[I[1]] = s.mk(-e-1, -hi-1, -lo-1, n); return
        if op == 'or' and (type(x0) is int and x0 == 0 or type(y0) is int and y0 == 0):
            fr.r[I[1]] = x0 if y0 == 0 else y0; return
        if op in ('and', 'or', 'xor') and (type(x0) is int and x0 in (0, 1) or x.b is not None) and (type(y0) is int and y0 in (0, 1) or y.b is not None):
            a, b = s.boolof(x0), s.boolof(y0); r = z3.simplify({'and': z3.And(a, b), 'or': z3.Or(a, b), 'xor': z3.Xor(a, b)}[op])
            fr.r[I[1]] = SI(z3.If(r, z3.IntVal(1), z3.IntVal(0)), 0, 1, n, SB(r)); return
        # anything else: split on the operand values
        x = s.concretize(st, x0); fr.r[I[3]] = x
        y = s.concretize(st, y0)
        fr2 = fr.r[I[4]]; fr.r[I[4]] = y
        s.x_iop(st, fr, I)
    def x_cast(s, st, fr, I):
        op, v, n, m = I[2], fr.r[I[3]], I[4], I[5]
        if v is UNDEF: fr.r[I[1]] = UNDEF; return
        if op == 'trunc':
            if type(v) is int: r = v & ((1 << m)-1)
            elif type(v) is SD: raise Unsupported('trunc of double bits')
            elif m == 1: r = SB(s.boolof(v))
            elif v.b is not None: r = SI(v.e, v.lo, v.hi, m, v.b)
            else: r = s.mk(v.e, v.lo, v.hi, m) if v.lo >= -(1 << (m-1)) and v.hi < (1 << m) and (v.lo >= 0 or v.hi < (1 << (m-1))) else SI(v.e % (1 << m), 0, (1 << m)-1, m)
        elif op == 'zext':
            if type(v) is int: r = v
            elif type(v) is SB: r = SI(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), 0, 1, m, v)
            else: e, lo, hi = s.uval(v); r = SI(e, lo, hi, m, v.b)
        elif op == 'sext':
            if type(v) is int: r = sgn(v, n) & ((1 << m)-1)
            elif type(v) is SB: r = SI(z3.If(v.e, z3.IntVal(-1), z3.IntVal(0)), -1, 0, m)
            else: e, lo, hi = s.sval(v); r = SI(e, lo, hi, m)
        elif op in ('bitcast', 'ptrtoint', 'inttoptr'):
            r = v
            if type(v) is float and op == 'bitcast': r = int.from_bytes(struct.pack('<d' if n == 64 else '<f', v), 'little')
            elif type(v) is int and op == 'bitcast' : raise Unsupported('bitcast int->fp')
        elif op == 'sitofp' or op == 'uitofp':
            if type(v) is int:
                r = float(sgn(v, n) if op == 'sitofp' else v)
                if m == 32: r = f32(r)
            else:
                v = s.toSI(v, n); e, lo, hi = s.sval(v) if op == 'sitofp' else s.uval(v)
                r = s.mkd(st, z3.ToReal(e), float(lo), float(hi), 0, 53 if m == 64 else 24)
        elif op == 'fpext': r = v
        elif op == 'fptrunc':
            if type(v) is float: r = f32(v)
            else: r = s.mkd(st, v.e, v.lo, v.hi, v.g, 24)
        elif op in ('fptosi', 'fptoui'):
            lo_, hi_ = (-(1 << (m-1)), (1 << (m-1)) - 1) if op == 'fptosi' else (0, (1 << m) - 1)
            if type(v) is float:
                if v != v or math.isinf(v) or not lo_ <= math.trunc(v) <= hi_: raise Violation('fpcast', 'float value %r out of range in conversion to integer' % v)
                r = math.trunc(v) & ((1 << m)-1)
            else:
                if not (v.lo > lo_ - 1 and v.hi < hi_ + 1):
                    s.require(st, z3.And(v.e > lo_ - 1, v.e < hi_ + 1), 'fpcast', 'float value out of range in conversion to integer')
                if v.lo >= 0: e = z3.ToInt(v.e)
                elif v.hi <= 0: e = -z3.ToInt(-v.e)
                else: e = z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e))
                r = s.mk(e, max(lo_, math.trunc(v.lo)), min(hi_, math.trunc(v.hi)), m)
        else: raise Unsupported(op)
        fr.r[I[1]] = r
    def push_call(s, st, D, name, vals):
        if len(st.frames) > 400: raise Budget('recursion deeper than 400')
        c = s.fn(name)
        f = Frame(); f.fn = c; f.r = c.tmpl[:]; f.code = c.code; f.pc = 0; f.ret = D; f.allocs = []; f.blk = None
        for (sl, bv), v in zip(c.params, vals):
            if bv is not None:
                a = s.new_obj(st, bv, 'stack', 'byval'); f.allocs.append(a >> 32)
                s.memcpy(st, a, s.concretize(st, v), bv); v = a
            f.r[sl] = v
        st.frames.append(f)
    def x_call(s, st, fr, I): s.push_call(st, I[1], I[2], [fr.r[a] for a in I[3]])
    def x_callind(s, st, fr, I):
        p = s.concretize(st, fr.r[I[2]])
        n = s.objfn.get(p)
        if n is None or n not in s.m.funcs: raise Violation('memory', 'call through an invalid function pointer')
        s.push_call(st, I[1], n, [fr.r[a] for a in I[3]])
    def x_fail(s, st, fr, I): raise Violation(I[1], I[2])
    def x_reach(s, st, fr, I): st.reach = st.reach | {I[1]}
    def x_check(s, st, fr, I):
        c = fr.r[I[1]]
        if type(c) is int:
            s.stats['checks'] += 1
            if not c & 1: raise Violation('check', I[2])
            return
        if c is UNDEF: raise Violation('uninit', 'uninitialised value decides: ' + I[2])
        s.require(st, s.boolof(c), 'check', I[2])
    def x_ext(s, st, fr, I):
        n = I[2]; A = [fr.r[a] for a in I[3]]; D = I[1]
        r = None
        if n == 'vf_assume':
            c = A[0]
            if type(c) is int:
                if not c & 1: raise PathEnd('assume')
            elif c is UNDEF: raise Violation('uninit', 'assume on an uninitialised value')
            else:
                c = z3.simplify(s.boolof(c))
                if z3.is_false(c): raise PathEnd('assume')
                if not z3.is_true(c):
                    if s.model_true(st, c) is not True:
                        m = s.query(st.pc, c)
                        if m is None: raise PathEnd('assume')
                        st.model = m
                    st.pc.append(c)
        elif n == 'nd_irange':
            lo, hi = sgn(A[0], 32), sgn(A[1], 32)
            if lo == hi: st.inputs.append(('i', lo)); r = lo & 0xffffffff
            else:
                k = z3.Int('in%d' % st.nd); st.nd += 1
                st.inputs.append(('i', k)); st.pc.append(z3.And(k >= lo, k <= hi)); st.model = s.ext_model(st)
                r = SI(k, lo, hi, 32)
        elif n == 'nd_grid':
            lo, hi, sc = sgn(A[0], 32), sgn(A[1], 32), A[2]
            k = z3.Int('in%d' % st.nd); st.nd += 1
            st.inputs.append(('i', k)); st.pc.append(z3.And(k >= lo, k <= hi)); st.model = s.ext_model(st)
            r = SD(z3.ToReal(k) * z3.RealVal('1/%d' % (1 << sc)), lo / (1 << sc), hi / (1 << sc), sc)
        elif n in ('nd_unit', 'nd_unit_closed'):
            k = z3.Int('in%d' % st.nd); st.nd += 1; G = s.opt.get('unit_grid', 20)
            hi = (1 << G) - (n == 'nd_unit')
            st.inputs.append(('u', k)); st.pc.append(z3.And(k >= 0, k <= hi)); st.model = s.ext_model(st)
            r = SD(z3.ToReal(k) * z3.RealVal('1/%d' % (1 << G)), 0.0, hi / (1 << G), G)
        elif n == 'nd_u32' or n == 'nd_u8':
            b = int(n[4:]); k = z3.Int('in%d' % st.nd); st.nd += 1
            st.inputs.append(('i', k)); st.pc.append(z3.And(k >= 0, k < 1 << b)); st.model = s.ext_model(st)
            r = SI(k, 0, (1 << b) - 1, b)
        elif n == 'vf_live': r = sum(o.kind == 'heap' for o in st.mem.values())
        elif n == 'vf_obs':
            st.obs.append(('i', A[0]))
        elif n == 'vf_obsd':
            st.obs.append(('d', A[0]))
        elif n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            s.memcpy(st, s.concretize(st, A[0]), s.concretize(st, A[1]), s.concretize(st, A[2])); r = A[0]
        elif n.startswith('llvm.memset') or n == 'memset':
            s.memset(st, s.concretize(st, A[0]), A[1], s.concretize(st, A[2])); r = A[0]
        elif n in ('_Znwm', '_Znam', 'malloc'):
            r = s.new_obj(st, s.concretize(st, A[0]), 'heap', 'heap')
        elif n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'):
            p = s.concretize(st, A[0])
            if p:
                o = st.mem.get(p >> 32)
                if o is None or o.kind != 'heap' or p & 0xffffffff: raise Violation('memory', 'bad free')
                del st.mem[p >> 32]
        elif n in ('fabs', 'llvm.fabs.f64', 'fabsf', 'llvm.fabs.f32'):
            x = A[0]
            if type(x) is float: r = abs(x)
            elif x is UNDEF: r = x
            else: r = x if x.lo >= 0 else SD(z3.If(x.e >= 0, x.e, -x.e), max(0.0, x.lo, -x.hi), max(abs(x.lo), abs(x.hi)), x.g)
        elif n == '__dynamic_cast': r = s.dynamic_cast(st, *[s.concretize(st, a) for a in A])
        elif n == '__cxa_pure_virtual': raise Violation('memory', 'pure virtual call')
        elif n in ('floor', 'llvm.floor.f64', 'ceil', 'llvm.ceil.f64', 'trunc', 'llvm.trunc.f64'):
            x = A[0]; k = n.replace('llvm.', '').split('.')[0]
            if type(x) is float: r = float(getattr(math, k)(x)) if math.isfinite(x) else x
            elif x is UNDEF: r = x
            elif k == 'floor': r = SD(z3.ToReal(z3.ToInt(x.e)), math.floor(x.lo), math.floor(x.hi), 0)
            elif k == 'ceil': r = SD(z3.ToReal(-z3.ToInt(-x.e)), math.ceil(x.lo), math.ceil(x.hi), 0)
            else: r = SD(z3.ToReal(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))), math.trunc(x.lo), math.trunc(x.hi), 0)
            if type(r) is SD: r.lo, r.hi = float(r.lo), float(r.hi)
        elif n in ('sqrt', 'exp', 'log', 'llvm.sqrt.f64', 'llvm.exp.f64', 'llvm.log.f64', 'pow', 'log2', 'expm1', 'log1p'):
            k = n.replace('llvm.', '').split('.')[0]
            if any(x is UNDEF for x in A): fr.r[D] = UNDEF; return
            if k in ('exp', 'log', 'sqrt') and type(A[0]) is SD:
                fr.r[D] = s.transcendental(st, k, A[0]); return
            if any(type(x) is not float for x in A): raise Unsupported('symbolic ' + n)
            try: r = getattr(math, k)(*A)
            except (ValueError, OverflowError): r = math.nan if k != 'log' or A[0] < 0 else -math.inf
        elif n in ('fmax', 'fmin', 'llvm.maxnum.f64', 'llvm.minnum.f64'):
            c = s.fcmp(st, 'ogt' if 'max' in n else 'olt', A[0], A[1])
            if type(c) is not int: c = s.branch(st, c.e)
            r = A[0] if c else A[1]
        elif n.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow')):
            if any(type(x) is not int for x in A): raise Unsupported(n)
            v = A[0]*A[1] if 'umul' in n else A[0]+A[1]
            r = (v & (2**64-1), int(v >> 64 != 0))
        elif n.startswith('llvm.is.fpclass'):
            x = A[0]; mask = A[1]
            if x is UNDEF: r = x
            else:
                if type(x) is not float: r = int(bool(mask & 0x1f8)) if (mask & 0x1f8) in (0, 0x1f8) else None
                elif x != x: r = int(bool(mask & 3))
                elif math.isinf(x): r = int(bool(mask & (0x200 if x > 0 else 4)))
                else: r = int(bool(mask & 0x1f8))
                if r is None: raise Unsupported(n)
        elif n in ('llvm.stacksave.p0', 'llvm.stacksave'): r = 0
        elif n.startswith('llvm.stackrestore') or n.startswith('llvm.assume'): pass
        elif n.startswith('llvm.expect'): r = A[0]
        elif n in ('abs', 'llvm.abs.i32'):
            x = A[0]
            if type(x) is int: r = abs(sgn(x, 32)) & 0xffffffff
            else:
                e, lo, hi = s.sval(x); r = s.mk(z3.If(e >= 0, e, -e), 0, max(abs(lo), abs(hi)), 32)
        elif n.startswith(('_ZStlsI', '_ZNSols', '_ZNSo9_M_insert', '_ZNSo3put', '_ZNSo5flush', '_ZSt16__ostream_insert', '_ZSt4endl')): r = A[0]   # printing
        else: raise Unsupported('external ' + n)
        if D is not None: fr.r[D] = r

    def dynamic_cast(s, st, p, src, dst, hint):
        """single, non-virtual inheritance only: the base chain of the dynamic type"""
        vp = s.concretize(st, s.load(st, p, 8, 'ptr'))
        ti = s.concretize(st, s.load(st, vp - 8, 8, 'ptr')); top = s.concretize(st, s.load(st, vp - 16, 8, 'i64'))
        p = (p + sgn(top, 64)) & (2**64 - 1)
        while ti:
            if ti == dst: return p
            k = s.rtti.get(s.concretize(st, s.load(st, ti, 8, 'ptr')) - 16, '')
            if 'si_class_type_info' in k: ti = s.concretize(st, s.load(st, ti + 16, 8, 'ptr'))
            elif 'class_type_info' in k and 'vmi' not in k: return 0
            else: raise Unsupported('dynamic_cast over ' + (k or 'an unknown type_info'))
        return 0
    def transcendental(s, st, k, x):
        """exp/log/sqrt of a symbolic argument: an unknown value constrained by true facts about the function"""
        e = z3.simplify(x.e)
        if k != 'exp' and x.lo < 0 and s.branch(st, e < 0): return math.nan
        if k == 'log' and x.lo <= 0 and s.branch(st, e == 0): return -math.inf
        st.approx = True
        key = (k, e.get_id())
        B = dict(exp=1e280, log=800.0, sqrt=1e160)[k]
        lo = -B if k == 'log' else 0.0
        hi = B
        if k == 'exp' and x.hi < 700: hi = nxt_up(math.exp(x.hi)*1.0001)
        if k == 'exp' and x.lo > -700: lo = math.exp(x.lo)*0.9999
        if k == 'sqrt': hi = nxt_up(math.sqrt(max(x.hi, 0.0)))
        if k == 'log' and x.hi > 1e-300: hi = nxt_up(math.log(x.hi) + 1e-9)
        if key not in s.memo: s.memo[key] = (s.newreal(k), e)
        r = s.memo[key][0]
        if key in st.conc: return SD(r, lo, hi, None)
        if k == 'exp': ax = [r > 0, z3.Implies(e == 0, r == 1), z3.Implies(e > 0, r > 1), z3.Implies(e < 0, r < 1), r >= 1 + e]
        elif k == 'log': ax = [z3.Implies(e == 1, r == 0), z3.Implies(e > 1, r > 0), z3.Implies(e < 1, r < 0), r <= e - 1]
        else:
            ax = [r >= 0, z3.Implies(e == 0, r == 0), z3.Implies(e > 0, r > 0), z3.Implies(e >= 1, z3.And(r >= 1, r <= e)), z3.Implies(e <= 1, z3.And(r <= 1, r >= e))]
            st.lazy.append(r * r == e)
        ax += [r >= rv(lo), r <= rv(hi)]
        for q, v in list(st.conc.items()):   # the same function, monotone
            if type(q) is tuple and q[0] == k and v is True and q in s.memo:
                r2, e2 = s.memo[q]
                ax += [z3.Implies(e == e2, r == r2), z3.Implies(e < e2, r < r2), z3.Implies(e > e2, r > r2)]
        st.conc[key] = True; st.pc.append(z3.And(*ax)); st.model = None
        return SD(r, lo, hi, None)
    def ext_model(s, st):
        return None

    def run_state(s, st):
        """run one state to its end; forks go to s.work"""
        steps0 = st.steps
        lim = s.opt['max_steps']; dl = s.opt['deadline']
        try:
            while True:
                fr = st.frames[-1]
                I = fr.code[fr.pc]; fr.pc += 1; st.steps += 1
                I[0](s, st, fr, I)
                if st.steps & 0x3ff == 0:
                    if st.steps > lim: raise Violation('hang', 'no end after %d instructions' % st.steps)
                    if dl and time.time() > dl: raise Budget('deadline')
        except PathEnd as e:
            if e.args[0] == 'done':
                s.stats['paths'] += 1; s.reached |= st.reach
                if s.opt['sample'] and (s.stats['paths'] % s.opt['sample'] == 1 or s.opt['sample'] == 1) and len(s.samples) < s.opt.get('max_samples', 40): s.take_sample(st)
            else: s.stats['killed'] += 1
        except Violation as v:
            try:
                m = v.model or s.get_model(st)
                fn = [f.fn.name for f in st.frames]
                s.violations.append(dict(kind=v.kind, msg=v.msg, inputs=s.inputs_of(st, m), stack=fn[-4:], approx=st.approx))
            except PathEnd: s.stats['killed'] += 1
            except Budget as b: s.inconclusive.append('candidate %s: %s' % (v.msg, b))
        except Budget as b:
            s.inconclusive.append(str(b))
        except Unsupported as u:
            s.inconclusive.append('unsupported: %s in %s' % (u, st.frames[-1].fn.name if st.frames else '?'))
        finally:
            s.stats['steps'] += st.steps - steps0
            s.stats['maxdepth'] = max(s.stats['maxdepth'], st.depth)
    def take_sample(s, st):
        try: m = s.get_model(st)
        except (PathEnd, Budget): return
        inp = s.inputs_of(st, m); obs = []
        for k, v in st.obs:
            if v is UNDEF: obs.append(None); continue
            if k == 'i':
                if type(v) is int: obs.append(sgn(v, 32) if v < 1 << 32 else v)
                else:
                    e = v.e if type(v) is SI else z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
                    obs.append(m.eval(e, model_completion=True).as_long())
            else:
                if type(v) is float: obs.append(v)
                else:
                    q = m.eval(v.e, model_completion=True)
                    try: obs.append(float(q.as_fraction()))
                    except Exception: obs.append(None)
        s.samples.append(dict(inputs=inp, obs=obs, approx=st.approx))

    def start(s):
        st = s.base.fork()
        s.fn(s.entry)
        st = s.base   # globals may have been added while loading
        for c in [c for c in s.m.ctors if c in s.m.funcs][::-1]: pass
        return st

    def preload(s):
        """decode everything reachable so that globals live in the base state"""
        todo = [s.entry] + [c for c in s.m.ctors if c in s.m.funcs]; seen = set()
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n); c = s.fn(n)
            for I in c.code:
                if I[0] is Engine.x_call: todo.append(I[2])
            todo += [f for f in s.fnobj if f in s.m.funcs and f not in seen]

    def explore(s, procs=8, stop_on_violation=True, split=48):
        t0 = time.time()
        s.preload()
        st = s.base
        for c in [c for c in s.m.ctors if c in s.m.funcs] :
            s.push_call(st, None, c, [])
            # run ctor to completion
            depth = 1
            try:
                while st.frames:
                    fr = st.frames[-1]; I = fr.code[fr.pc]; fr.pc += 1; I[0](s, st, fr, I)
            except PathEnd: pass
        st = s.base.fork()
        s.push_call(st, None, s.entry, [])
        s.work = [st]
        # breadth-first until there is enough to share
        while s.work and (procs <= 1 or len(s.work) < split):
            if s.violations and stop_on_violation: break
            if s.opt['deadline'] and time.time() > s.opt['deadline']:
                s.inconclusive.append('deadline'); break
            st = s.work.pop() if procs <= 1 else s.work.pop(0)
            s.run_state(st)
        if not s.work or (s.violations and stop_on_violation) or procs <= 1 or s.inconclusive:
            return
        # parallel phase: fork one process per pending state, bounded
        pend = s.work; s.work = []
        running = {}
        def reap(block=True):
            import select
            fds = list(running)
            r, _, _ = select.select(fds, [], [], None if block else 0)
            for fd in r:
                data = running[fd][1]
                ch = os.read(fd, 1 << 20)
                if ch: data.append(ch); continue
                pid = running.pop(fd)[0]; os.close(fd); _, rc = os.waitpid(pid, 0)
                try: res = pickle.loads(b''.join(data))
                except Exception: s.inconclusive.append('worker died (rc %s)' % rc); continue
                for k, v in res['stats'].items():
                    if k == 'maxdepth': s.stats[k] = max(s.stats[k], v)
                    else: s.stats[k] += v
                s.violations += res['violations']; s.samples += res['samples']; s.inconclusive += res['inc']; s.reached |= set(res['reached'])
        while pend or running:
            while pend and len(running) < procs and not (s.violations and stop_on_violation):
                st = pend.pop()
                rfd, wfd = os.pipe()
                pid = os.fork()
                if pid == 0:
                    rc = 0
                    try:
                        os.close(rfd)
                        for fd in running: os.close(fd)
                        for k in s.stats: s.stats[k] = 0
                        s.violations, s.samples, s.inconclusive, s.reached = [], [], [], set()
                        s.opt['max_samples'] = 4
                        s.work = [st]
                        while s.work:
                            if s.violations and stop_on_violation: break
                            if s.inconclusive and len(s.inconclusive) > 5: break
                            s.run_state(s.work.pop())
                        out = pickle.dumps(dict(stats=s.stats, violations=s.violations, samples=s.samples, inc=s.inconclusive[:5], reached=list(s.reached)))
                        with os.fdopen(wfd, 'wb') as f: f.write(out)
                    except BaseException as e:
                        try:
                            import traceback; traceback.print_exc()
                        except Exception: pass
                        rc = 3
                    os._exit(rc)
                os.close(wfd); running[rfd] = (pid, [])
            if s.violations and stop_on_violation:
                for fd, (pid, _) in list(running.items()):
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
                    os.waitpid(pid, 0); os.close(fd)
                running.clear(); break
            if running: reap()

def INTT(b): return ir2c.INT(b)

if __name__ == '__main__':
    t = time.time()
    e = Engine(open(sys.argv[1]).read(), sample=int(os.environ.get('SAMPLE', '0')), deadline=time.time() + float(os.environ.get('TO', '600')))
    e.explore(procs=int(os.environ.get('PROCS', '8')))
    print(json.dumps(e.stats)); print('reached', e.reached, 'wall', round(time.time() - t, 2), 'fns', len(e.encoded))
    for v in e.violations[:3]: print('VIOL', v)
    for v in e.inconclusive[:5]: print('INC', v)
    for v in e.samples[:3]: print('SAMPLE', v)
