#!/usr/bin/env python3
"""Translate the textual LLVM IR clang emits for a harness (which includes the
real OrpailleCC headers) into C that CBMC can decide and gcc can run.

Only functions reachable from the entry point are translated.  The memory
layout is preserved (LLVM struct types become C structs), every load/store is a
typed access, so that CBMC's pointer/bounds checks apply to the real accesses.
Anything outside the supported subset raises Unsupported: a check never
silently skips an instruction.
"""
import re, sys, struct, json

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ lexer
TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<qglob>@"[^"]*")|(?P<qloc>%"[^"]*")
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<glob>@[-a-zA-Z$._0-9]+)
 |(?P<loc>%[-a-zA-Z$._0-9]+)
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#[0-9]+)
 |(?P<comdat>\$[-a-zA-Z$._0-9]+)
 |(?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 |(?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 |(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
 |(?P<punct>\.\.\.|[][(){}<>,=*:|])
''', re.X)

def lex(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('lex: ' + s[i:i+60])
        k = m.lastgroup
        if k != 'ws':
            v = m.group()
            if k == 'qglob' or k == 'qloc':
                v = v[0] + v[2:-1]
                k = k[1:]
            out.append((k, v))
        i = m.end()
    return out

# ------------------------------------------------------------------ types
class T:
    __slots__ = ('k', 'a', 'b')
    def __init__(s, k, a=None, b=None): s.k, s.a, s.b = k, a, b
    def key(s):
        if s.k == 'int': return 'i%d' % s.a
        if s.k == 'arr': return 'A%d_%s' % (s.a, s.b.key())
        if s.k == 'named': return 'N' + s.a
        if s.k == 'struct': return ('P' if s.b else 'S') + '_'.join(t.key() for t in s.a) + 'E'
        return s.k
VOID, PTR, F32, F64 = T('void'), T('ptr'), T('float'), T('double')
def INT(n): return T('int', n)

class P:
    """token cursor"""
    def __init__(s, toks): s.t, s.i = toks, 0
    def peek(s, o=0): return s.t[s.i+o] if s.i+o < len(s.t) else ('eof', '')
    def v(s, o=0): return s.peek(o)[1]
    def next(s):
        r = s.peek(); s.i += 1; return r
    def eat(s, v):
        if s.v() == v:
            s.i += 1; return True
        return False
    def need(s, v):
        if not s.eat(v): raise Unsupported('expected %s got %r in %r' % (v, s.peek(), s.t))
    def eof(s): return s.i >= len(s.t)

INTT = re.compile(r'i[0-9]+$')

def parse_type(p):
    k, v = p.peek()
    if k == 'word':
        if v == 'void': p.next(); return VOID
        if v == 'ptr': p.next(); return PTR
        if v == 'float': p.next(); return F32
        if v == 'double': p.next(); return F64
        if v == 'x86_fp80': raise Unsupported('x86_fp80')
        if v == 'metadata': p.next(); return T('metadata')
        if INTT.match(v): p.next(); return INT(int(v[1:]))
        raise Unsupported('type ' + v)
    if k == 'loc': p.next(); return T('named', v[1:])
    if v == '[':
        p.next(); n = int(p.next()[1]); p.need('x'); t = parse_type(p); p.need(']')
        return T('arr', n, t)
    if v == '{':
        p.next(); fs = []
        while not p.eat('}'):
            fs.append(parse_type(p)); p.eat(',')
        return T('struct', fs, False)
    if v == '<':
        p.next()
        if p.eat('{'):
            fs = []
            while not p.eat('}'):
                fs.append(parse_type(p)); p.eat(',')
            p.need('>')
            return T('struct', fs, True)
        n = int(p.next()[1]); p.need('x'); t = parse_type(p); p.need('>')
        return T('vec', n, t)
    raise Unsupported('type tok %r' % (p.peek(),))

PATTRS = {'noundef','nonnull','zeroext','signext','inreg','noalias','nocapture','readonly','writeonly',
          'readnone','returned','nofree','nest','immarg','swiftself','noreturn','dead_on_unwind','writable','allocptr','nofpclass'}
PATTRS_P = {'dereferenceable','dereferenceable_or_null','align','sret','byval','elementtype','range','memory','initializes'}

def parse_attrs(p):
    """skip parameter/return attributes; returns dict with sret/byval types"""
    d = {}
    while True:
        k, v = p.peek()
        if k == 'word' and v in PATTRS:
            p.next()
            if p.v() == '(':
                depth = 0
                while True:
                    x = p.next()[1]
                    if x == '(': depth += 1
                    if x == ')':
                        depth -= 1
                        if depth == 0: break
            continue
        if k == 'word' and v in PATTRS_P:
            p.next()
            if v == 'align' and p.peek()[0] == 'num': p.next(); continue
            if p.eat('('):
                if v in ('sret', 'byval'): d[v] = parse_type(p); p.need(')')
                else:
                    depth = 1
                    while depth:
                        x = p.next()[1]
                        depth += (x == '(') - (x == ')')
            continue
        return d

# ------------------------------------------------------------------ values
# ('reg', name) ('glob', name) ('int', n) ('fp', text) ('null',) ('undef',) ('zero',)
# ('agg', [(T,V)...]) ('str', bytes) ('gep', T, [(T,V)...]) ('cast', op, T, V, T2)

def parse_value(p, ty):
    k, v = p.peek()
    if k == 'loc': p.next(); return ('reg', v[1:])
    if k == 'glob': p.next(); return ('glob', v[1:])
    if k == 'num' or k == 'hex':
        p.next()
        if ty.k in ('float', 'double'):
            if k == 'hex': return ('fp', struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0])
            return ('fp', float(v))
        return ('int', int(v))
    if k == 'cstr':
        p.next(); s = v[2:-1]; out = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i+1] == '\\': out.append(92); i += 2
                else: out.append(int(s[i+1:i+3], 16)); i += 3
            else: out.append(ord(s[i])); i += 1
        return ('str', bytes(out))
    if k == 'word':
        if v in ('true', 'false'): p.next(); return ('int', 1 if v == 'true' else 0)
        if v in ('null', 'none'): p.next(); return ('null',)
        if v in ('undef', 'poison'): p.next(); return ('undef',)
        if v == 'zeroinitializer': p.next(); return ('zero',)
        if v == 'getelementptr':
            p.next(); 
            while p.v() in ('inbounds', 'nuw', 'nusw'): p.next()
            p.need('('); t = parse_type(p); p.need(','); ops = []
            while True:
                if p.eat('inrange'): 
                    pass
                tt = parse_type(p); ops.append((tt, parse_value(p, tt)))
                if not p.eat(','): break
            p.need(')')
            return ('gep', t, ops)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.next(); p.need('('); t = parse_type(p); x = parse_value(p, t); p.need('to'); t2 = parse_type(p); p.need(')')
            return ('cast', v, t, x, t2)
        if v in ('sub', 'add', 'mul'):
            p.next()
            while p.v() in ('nsw', 'nuw'): p.next()
            p.need('('); t = parse_type(p); x = parse_value(p, t); p.need(','); t2 = parse_type(p); y = parse_value(p, t2); p.need(')')
            return ('binop', v, t, x, y)
    if v in ('[', '{', '<'):
        packed = False
        p.next()
        if v == '<' and p.v() == '{': p.next(); packed = True
        close = {'[': ']', '{': '}', '<': '>'}[v] if not packed else '}'
        el = []
        while not p.eat(close):
            t = parse_type(p); el.append((t, parse_value(p, t))); p.eat(',')
        if packed: p.need('>')
        return ('agg', el)
    raise Unsupported('value %r' % (p.t[p.i:p.i+6],))

def mangle(n):
    return re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group()), n)

class Fn: pass

BUILTIN_IGNORE = ('llvm.dbg.', 'llvm.lifetime.', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.var.annotation')
MATHMAP = {  # C library functions CBMC models / gcc links
    'fabs':1,'fabsf':1,'floor':1,'floorf':1,'ceil':1,'ceilf':1,'sqrt':1,'sqrtf':1,'exp':1,'log':1,'pow':2,'round':1,'trunc':1,'fmod':2,
    'fmax':2,'fmin':2,'log2':1,'log10':1,'expm1':1,'log1p':1,'roundf':1,'truncf':1,'fmaxf':2,'fminf':2,'expf':1,'logf':1,'powf':2,'copysign':2,
    'lround':1,'rint':1,'nearbyint':1,
}

class Module:
    def __init__(s, text):
        s.types, s.globals, s.funcs, s.decls, s.ctors = {}, {}, {}, {}, []
        s.warn = set()
        s.parse(text)

    def parse(s, text):
        lines = text.split('\n'); i = 0
        while i < len(lines):
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                p = P(lex(L)); n = p.next()[1][1:]; p.need('='); p.need('type')
                s.types[n] = None if p.v() == 'opaque' else parse_type(p)
            elif L.startswith('@'):
                s.parse_global(L)
            elif L.startswith('declare '):
                f = s.parse_sig(P(lex(L[8:]))); s.decls[f.name] = f
            elif L.startswith('define '):
                body = []; i += 1
                while lines[i] != '}':
                    l2 = lines[i]
                    if re.search(r'\bswitch .* \[$', l2):
                        while not lines[i].strip() == ']':
                            i += 1; l2 += ' ' + lines[i].strip()
                    body.append(l2); i += 1
                hdr = L[7:]
                f = s.parse_sig(P(lex(hdr.rstrip('{ '))))
                f.body = body
                s.funcs[f.name] = f
            i += 1

    def parse_global(s, L):
        toks = lex(L); p = P(toks); name = p.next()[1][1:]; p.need('=')
        ext = False
        while p.v() not in ('global', 'constant', 'alias'):
            if p.v() in ('external', 'extern_weak'): ext = True
            p.next()
            if p.eof(): return
        kind = p.next()[1]
        if kind == 'alias':
            t = parse_type(p); p.need(','); t2 = parse_type(p); s.globals[name] = ('alias', parse_value(p, t2)); return
        t = parse_type(p)
        v = None if ext else parse_value(p, t)
        if name == 'llvm.global_ctors':
            for (tt, el) in v[1]:
                s.ctors.append(el[1][1][1][1])
            return
        s.globals[name] = (kind, t, v)

    def parse_sig(s, p):
        f = Fn(); f.body = None
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('dso_local','linkonce_odr','weak_odr','internal','private','local_unnamed_addr','unnamed_addr','weak','hidden','external','available_externally','linkonce','fastcc','ccc','dso_preemptable'):
                p.next(); continue
            break
        parse_attrs(p)
        f.ret = parse_type(p)
        f.name = p.next()[1][1:]
        p.need('('); f.params = []; f.vararg = False
        while not p.eat(')'):
            if p.eat('...'): f.vararg = True; continue
            t = parse_type(p); a = parse_attrs(p)
            n = None
            if p.peek()[0] == 'loc': n = p.next()[1][1:]
            f.params.append((t, a, n)); p.eat(',')
        rest = [x[1] for x in p.t[p.i:]]
        f.noreturn = False
        return f

class Gen:
    def __init__(s, m, entry='vf_main', check_fpcast=True):
        s.m, s.entry = m, entry
        s.check_fpcast = check_fpcast
        s.structs = {}; s.struct_order = []
        s.out_funcs = []; s.protos = []
        s.need_globals = []; s.seen_g = set()
        s.work = []; s.seen_f = set()
        s.externs = {}
        s.ninstr = 0
        s.encoded = []
        s.helpers = {}
        s.naccess = 0; s.alloc_a = set(); s.alloc_t = {}

    # ---------------- types
    def ct(s, t):
        k = t.k
        if k == 'int':
            n = t.a
            if n == 1: return '_Bool'
            if n in (8, 16, 32, 64): return {8:'u8',16:'u16',32:'u32',64:'u64'}[n]
            if n == 128: return 'u128'
            raise Unsupported('i%d' % n)
        if k == 'float': return 'float'
        if k == 'double': return 'double'
        if k == 'ptr': return 'ptr'
        if k == 'void': return 'void'
        if k in ('named', 'struct', 'arr', 'vec'): return s.agg(t)
        raise Unsupported('ctype ' + k)
    def st(s, t):
        return {8:'i8',16:'i16',32:'i32',64:'i64',128:'i128',1:'_Bool'}[t.a]
    def agg(s, t):
        key = t.key()
        if key in s.structs: return s.structs[key]
        if t.k == 'named':
            d = s.m.types[t.a]
            if d is None: raise Unsupported('opaque ' + t.a)
            nm = 'struct T%d' % len(s.structs); s.structs[key] = nm
            fs, packed = d.a, d.b
        elif t.k == 'struct':
            nm = 'struct T%d' % len(s.structs); s.structs[key] = nm; fs, packed = t.a, t.b
        elif t.k == 'arr':
            el = s.ct(t.b)
            nm = 'A%d' % len(s.structs); s.structs[key] = nm
            s.struct_order.append('typedef %s %s[%d];' % (el, nm, t.a)); return nm
        elif t.k == 'vec':
            el = s.ct(t.b); nm = 'struct T%d' % len(s.structs); s.structs[key] = nm
            s.struct_order.append('%s { %s f0[%d]; } __attribute__((aligned(%d)));' % (nm, el, t.a, t.a*s.size(t.b))); return nm
        parts = []
        for i, f in enumerate(fs): parts.append('%s f%d;' % (s.ct(f), i))
        s.struct_order.append('%s { %s }%s;' % (nm, ' '.join(parts) or 'char dummy[0];', ' __attribute__((packed))' if packed else ''))
        return nm
    def resolve(s, t):
        return s.m.types[t.a] if t.k == 'named' else t
    def size(s, t):
        t = s.resolve(t)
        if t.k == 'int': return max(1, (t.a+7)//8)
        if t.k == 'float': return 4
        if t.k in ('double', 'ptr'): return 8
        if t.k in ('arr', 'vec'): return t.a * s.size(t.b)
        if t.k == 'struct':
            o = 0; al = 1
            for f in t.a:
                a = 1 if t.b else s.align(f); al = max(al, a)
                o = (o + a - 1)//a*a + s.size(f)
            return (o + al - 1)//al*al
        raise Unsupported('size')
    def align(s, t):
        t = s.resolve(t)
        if t.k == 'struct': return 1 if t.b else max([s.align(f) for f in t.a] or [1])
        if t.k == 'arr': return s.align(t.b)
        return min(16, s.size(t))

    # ---------------- constants / operands
    def fpc(s, x, t):
        if x != x: return '(%s)VF_NAN' % t.k
        if x in (float('inf'), float('-inf')): return '(%s)(%sVF_INF)' % (t.k, '-' if x < 0 else '')
        return '(%s)(%s)' % (t.k, x.hex()) if t.k == 'float' else '(%s)' % x.hex()
    def intc(s, n, t):
        if t.a == 1: return '1' if n else '0'
        n &= (1 << t.a) - 1
        if t.a == 128:
            return '(((u128)%dUL<<64)|%dUL)' % (n >> 64, n & (2**64-1))
        return '((%s)%d%s)' % (s.ct(t), n, 'UL' if t.a == 64 else 'U')
    def gname(s, n): return 'g_' + mangle(n)
    def fname(s, n): 
        return s.entry if n == s.entry else 'f_' + mangle(n)
    def ref_global(s, n):
        if n in s.m.funcs or n in s.m.decls:
            s.ref_func(n); return '((ptr)&%s)' % s.callname(n)
        if n not in s.m.globals: raise Unsupported('global ' + n)
        g = s.m.globals[n]
        if g[0] == 'alias': return s.val(g[1], PTR)
        if n not in s.seen_g:
            s.seen_g.add(n)
            s.need_globals.append(n)
        return '((ptr)&%s)' % s.gname(n)
    def ref_func(s, n):
        if n in s.m.globals and s.m.globals[n][0] == 'alias':
            n = s.m.globals[n][1][1]
        if n in s.seen_f: return
        s.seen_f.add(n)
        if n in s.m.funcs: s.work.append(n)
        else: s.externs[n] = 1
    def callname(s, n):
        if n in s.m.globals and s.m.globals[n][0] == 'alias': n = s.m.globals[n][1][1]
        if n in s.m.funcs: return s.fname(n)
        return 'x_' + mangle(n)

    def val(s, v, t):
        k = v[0]
        if k == 'reg': return ('((ptr)&a_%s)' if v[1] in s.alloc_a else 'r_%s') % mangle(v[1])
        if k == 'glob': return s.ref_global(v[1])
        if k == 'int': return s.intc(v[1], t)
        if k == 'fp': return s.fpc(v[1], t)
        if k == 'null': return '((ptr)0)'
        if k == 'undef':
            if t.k in ('struct', 'named', 'arr', 'vec'):
                return s.helper('undef', t)
            return 'vf_undef_%s()' % s.ct(t).replace(' ', '_')
        if k == 'zero':
            if t.k == 'ptr': return '((ptr)0)'
            if t.k in ('int', 'float', 'double'): return '0'
            return s.helper('zero', t)
        if k == 'gep': return s.gep(v[1], [(tt, s.val(x, tt), x) for tt, x in v[2]], True)
        if k == 'cast': return s.cast(v[1], v[2], s.val(v[3], v[2]), v[4])
        if k == 'binop':
            op = {'add':'+','sub':'-','mul':'*'}[v[1]]
            return '(%s)(%s %s %s)' % (s.ct(v[2]), s.val(v[3], v[2]), op, s.val(v[4], v[2]))
        if k == 'agg' and t.k in ('struct', 'named'):
            return '(%s){%s}' % (s.ct(t), ', '.join(s.val(x, tt) for tt, x in v[1]))
        raise Unsupported('val %s %s' % (k, t.k))
    def helper(s, kind, t):
        c = s.ct(t); key = (kind, c)
        if t.k == 'arr': raise Unsupported('array by value')
        if key not in s.helpers:
            nm = 'vf_%s_%d' % (kind, len(s.helpers))
            s.helpers[key] = (nm, 'static %s %s(void){ %s v%s; return v; }' % (c, nm, c, '={0}' if kind == 'zero' else ''))
        return s.helpers[key][0] + '()'

    def ginit(s, v, t):
        t0 = t; t = s.resolve(t); k = v[0]
        if k == 'zero': return '{0}' if t.k in ('struct', 'arr', 'vec') else '0'
        if k == 'undef': return '{0}' if t.k in ('struct', 'arr', 'vec') else '0'
        if k == 'str': return '{' + ','.join(map(str, v[1])) + '}'
        if k == 'agg':
            if not v[1]: return '{0}'
            return '{' + ', '.join(s.ginit(x, tt) for tt, x in v[1]) + '}'
        return s.val(v, t)

    # ---------------- expressions
    def cast(s, op, t, x, t2):
        if op in ('bitcast', 'addrspacecast'):
            if t.k == 'ptr': return x
            if t.k == 'int' and t2.k in ('float', 'double'): return 'vf_bits_%s(%s)' % (t2.k, x)
            if t2.k == 'int' and t.k in ('float', 'double'): return 'vf_tobits_%s(%s)' % (t.k, x)
            raise Unsupported('bitcast')
        if op == 'ptrtoint': return '((%s)(u64)%s)' % (s.ct(t2), x)
        if op == 'inttoptr': return '((ptr)(u64)%s)' % x
        if op == 'trunc':
            if t2.a == 1: return '((_Bool)(%s & 1))' % x
            return '((%s)%s)' % (s.ct(t2), x)
        if op == 'zext': return '((%s)%s)' % (s.ct(t2), x)
        if op == 'sext':
            if t.a == 1: return '((%s)(%s ? -1 : 0))' % (s.ct(t2), x)
            return '((%s)(%s)(%s)%s)' % (s.ct(t2), s.st(t2), s.st(t), x)
        if op == 'fpext' or op == 'fptrunc': return '((%s)%s)' % (t2.k, x)
        if op == 'sitofp':
            return '((%s)(%s)%s)' % (t2.k, s.st(t), x)
        if op == 'uitofp': return '((%s)%s)' % (t2.k, x)
        if op == 'fptosi':
            if t2.a < 8: raise Unsupported('fptosi')
            return '((%s)vf_fptosi%d(%s))' % (s.ct(t2), t2.a, x)
        if op == 'fptoui': return '((%s)vf_fptoui%d(%s))' % (s.ct(t2), t2.a, x)
        raise Unsupported('cast ' + op)

    def gep(s, t, ops, const=False):
        base = ops[0][1]; idx = ops[1:]
        def sidx(o):
            tt, c, raw = o
            if raw[0] == 'int': return str(raw[1])
            return '(i64)(%s)%s' % (s.st(tt), c)
        first = idx[0]
        iszero = first[2][0] == 'int' and first[2][1] == 0
        if t.k == 'int' and t.a == 8 and len(idx) == 1:
            return base if iszero else '((ptr)((char*)%s + %s))' % (base, sidx(first))
        c = s.ct(t)
        e = '((%s*)%s)' % (c, base)
        if len(idx) == 1:
            return base if iszero else '((ptr)(%s + %s))' % (e, sidx(first))
        expr = '(*%s)' % e if iszero else '%s[%s]' % (e, sidx(first))
        cur = t
        for o in idx[1:]:
            cur = s.resolve(cur)
            if cur.k == 'struct':
                n = o[2][1]; expr += '.f%d' % n; cur = cur.a[n]
            elif cur.k == 'arr':
                if o[2][0] == 'int': 
                    expr += '[%d]' % o[2][1]
                else:
                    # array subscript of a C array: the index itself is checked
                    if cur.a > 1 and not const:
                        expr += '[vf_idx(%s,%d)]' % (sidx(o), cur.a)
                        s.naccess += 1
                    else: expr += '[%s]' % sidx(o)
                cur = cur.b
            elif cur.k == 'vec':
                expr += '.f0[%s]' % sidx(o); cur = cur.b
            else: raise Unsupported('gep into ' + cur.k)
        return '((ptr)&%s)' % expr

    # ---------------- functions
    def gen_func(s, f):
        regs = {}   # name -> ctype
        code = []; allocas = []
        s.alloc_t = {}; s.alloc_a = set()
        s.encoded.append(f.name)
        params = []
        unnamed = 0
        pre = []
        for (t, a, n) in f.params:
            if n is None: n = str(unnamed)
            if re.fullmatch(r'\d+', n): unnamed = int(n) + 1
            if 'byval' in a:
                c = s.ct(a['byval'])
                params.append('ptr p_%s' % mangle(n))
                allocas.append('%s b_%s;' % (c, mangle(n)))
                pre.append('b_%s = *(%s*)p_%s; r_%s = (ptr)&b_%s;' % ((mangle(n), c, mangle(n), mangle(n), mangle(n))))
                regs[n] = 'ptr'
            else:
                params.append('%s r_%s' % (s.ct(t), mangle(n)))
        # entry label
        blocks = []; cur = str(unnamed); lines = []
        for L in f.body:
            m = re.match(r'^("?[-a-zA-Z$._0-9]+"?):', L)
            if m:
                blocks.append((cur, lines)); cur = m.group(1).strip('"'); lines = []
            elif L.strip(): lines.append(L)
        blocks.append((cur, lines))
        if blocks and not blocks[0][1] and len(blocks) > 1 and True:
            blocks = blocks[1:]
        parsed = []
        phis = {}   # block -> list of (reg, type, {pred: val})
        for bn, ls in blocks:
            ins = []
            for L in ls:
                toks = lex(L)
                if not toks: continue
                p = P(toks); dst = None
                if p.peek()[0] == 'loc' and p.v(1) == '=':
                    dst = p.next()[1][1:]; p.next()
                op = p.next()[1]
                s.ninstr += 1
                if op == 'phi':
                    t = parse_type(p); inc = {}
                    while True:
                        p.need('['); v = parse_value(p, t); p.need(','); b = p.next()[1][1:]; p.need(']')
                        inc[b] = v
                        if not p.eat(','): break
                    phis.setdefault(bn, []).append((dst, t, inc)); regs[dst] = s.ct(t); regs['phi.' + dst] = s.ct(t)
                    continue
                ins.append((dst, op, p, L))
            parsed.append((bn, ins))
        def lab(b): return 'L_' + mangle(b)
        def edge(frm, to):
            o = ''
            ph = phis.get(to, [])
            if len(ph) == 1:
                dst, t, inc = ph[0]
                o += 'r_%s = %s; ' % (mangle(dst), s.val(inc[frm], t))
            else:
                for dst, t, inc in ph: o += 'r_%s = %s; ' % (mangle('phi.' + dst), s.val(inc[frm], t))
                for dst, t, inc in ph: o += 'r_%s = r_%s; ' % (mangle(dst), mangle('phi.' + dst))
            return o + 'goto %s;' % lab(to)
        for bn, ins in parsed:
            code.append('%s: ;' % lab(bn))
            for dst, op, p, L in ins:
                try:
                    s.instr(f, regs, allocas, code, bn, dst, op, p, edge)
                except Unsupported as e:
                    raise Unsupported('%s in %s: %s' % (e, f.name, L.strip()))
                except Exception as e:
                    raise Unsupported('%r in %s: %s' % (e, f.name, L.strip()))
        hdr = '%s %s(%s)' % (s.ct(f.ret), s.fname(f.name), ', '.join(params) or 'void')
        s.protos.append(hdr + ';')
        body = [hdr + ' { /* %s */' % f.name]
        body += ['  ' + a for a in allocas]
        for r, c in regs.items(): body.append('  %s r_%s;' % (c, mangle(r)))
        body += ['  ' + x for x in pre]
        body += ['  ' + x for x in code]
        body.append('}')
        s.out_funcs.append('\n'.join(body))

    def instr(s, f, regs, allocas, code, bn, dst, op, p, edge):
        R = 'r_' + mangle(dst) if dst is not None else None
        def setr(t, e):
            regs[dst] = s.ct(t); code.append('%s = %s;' % (R, e))
        if op == 'alloca':
            p.eat('inalloca'); t = parse_type(p); n = None
            if p.eat(',') and p.v() != 'align':
                tt = parse_type(p); n = parse_value(p, tt)
                if n[0] != 'int': raise Unsupported('vla')
            c = s.ct(t)
            allocas.append('%s a_%s%s;' % (c, mangle(dst), '' if n is None or n[1] == 1 else '[%d]' % n[1]))
            if n is None or n[1] == 1: s.alloc_t[dst] = t
            s.alloc_a.add(dst)
        elif op == 'load':
            p.eat('volatile'); p.eat('atomic'); t = parse_type(p); p.need(','); pt = parse_type(p); v = parse_value(p, pt)
            if v[0] == 'reg' and v[1] in s.alloc_t and s.alloc_t[v[1]].key() == t.key() and not (t.k == 'int' and t.a == 1):
                setr(t, 'a_' + mangle(v[1])); return
            if t.k == 'int' and t.a == 1: setr(t, '(_Bool)(*(u8*)%s & 1)' % s.val(v, pt))
            else: setr(t, '*(%s*)%s' % (s.ct(t), s.val(v, pt)))
            s.naccess += 1
        elif op == 'store':
            p.eat('volatile'); t = parse_type(p); v = parse_value(p, t); p.need(','); pt = parse_type(p); q = parse_value(p, pt)
            if q[0] == 'reg' and q[1] in s.alloc_t and s.alloc_t[q[1]].key() == t.key() and not (t.k == 'int' and t.a == 1):
                code.append('a_%s = %s;' % (mangle(q[1]), s.val(v, t))); return
            if t.k == 'int' and t.a == 1: code.append('*(u8*)%s = %s;' % (s.val(q, pt), s.val(v, t)))
            else: code.append('*(%s*)%s = %s;' % (s.ct(t), s.val(q, pt), s.val(v, t)))
            s.naccess += 1
        elif op == 'getelementptr':
            while p.v() in ('inbounds', 'nuw', 'nusw'): p.next()
            t = parse_type(p); p.need(','); ops = []
            while True:
                tt = parse_type(p); v = parse_value(p, tt); ops.append((tt, s.val(v, tt), v))
                if not p.eat(','): break
            setr(PTR, s.gep(t, ops))
        elif op == 'br':
            if p.eat('label'): code.append(edge(bn, p.next()[1][1:]))
            else:
                t = parse_type(p); v = parse_value(p, t); p.need(','); p.need('label'); a = p.next()[1][1:]; p.need(','); p.need('label'); b = p.next()[1][1:]
                code.append('if (%s) { %s } else { %s }' % (s.val(v, t), edge(bn, a), edge(bn, b)))
        elif op == 'switch':
            t = parse_type(p); v = parse_value(p, t); p.need(','); p.need('label'); d = p.next()[1][1:]; p.need('[')
            o = ''
            while not p.eat(']'):
                tt = parse_type(p); c = parse_value(p, tt); p.need(','); p.need('label'); l = p.next()[1][1:]
                o += 'if (%s == %s) { %s } else ' % (s.val(v, t), s.val(c, tt), edge(bn, l))
            code.append(o + '{ %s }' % edge(bn, d))
        elif op == 'ret':
            t = parse_type(p)
            if t.k == 'void': code.append('return;')
            else: code.append('return %s;' % s.val(parse_value(p, t), t))
        elif op == 'unreachable':
            code.append('VF_UNREACHABLE;')
            code.append('return%s;' % ('' if f.ret.k == 'void' else ' ' + s.val(('undef',), f.ret)))
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = set()
            while p.v() in ('nsw', 'nuw', 'exact', 'disjoint'): fl.add(p.next()[1])
            t = parse_type(p); a = s.val(parse_value(p, t), t); p.need(','); b = s.val(parse_value(p, t), t)
            if t.k != 'int': raise Unsupported('vector arith')
            C = s.ct(t)
            if t.a == 1:
                o = {'and':'&','or':'|','xor':'^','add':'^','sub':'^','mul':'&'}.get(op)
                if not o: raise Unsupported('i1 ' + op)
                setr(t, '(_Bool)(%s %s %s)' % (a, o, b)); return
            S = s.st(t)
            if op in ('add', 'sub', 'mul'):
                o = {'add':'+','sub':'-','mul':'*'}[op]
                if 'nsw' in fl and t.a >= 32: setr(t, '(%s)((%s)%s %s (%s)%s)' % (C, S, a, o, S, b))
                else: setr(t, '(%s)(%s %s %s)' % (C, a, o, b))
            elif op in ('udiv', 'urem'): setr(t, '(%s)(%s %s %s)' % (C, a, '/' if op == 'udiv' else '%', b))
            elif op in ('sdiv', 'srem'): setr(t, '(%s)((%s)%s %s (%s)%s)' % (C, S, a, '/' if op == 'sdiv' else '%', S, b))
            elif op in ('and', 'or', 'xor'): setr(t, '(%s)(%s %s %s)' % (C, a, {'and':'&','or':'|','xor':'^'}[op], b))
            elif op == 'shl': setr(t, '(%s)(%s << %s)' % (C, a, b))
            elif op == 'lshr': setr(t, '(%s)(%s >> %s)' % (C, a, b))
            elif op == 'ashr': setr(t, '(%s)((%s)%s >> %s)' % (C, S, a, b))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            t = parse_type(p); 
            if t.k not in ('float', 'double'): raise Unsupported('fp type')
            a = s.val(parse_value(p, t), t)
            if op == 'fneg': setr(t, '-(%s)' % a); return
            p.need(','); b = s.val(parse_value(p, t), t)
            if op == 'frem': setr(t, 'fmod(%s, %s)' % (a, b)); return
            setr(t, '%s %s %s' % (a, {'fadd':'+','fsub':'-','fmul':'*','fdiv':'/'}[op], b))
        elif op == 'icmp':
            c = p.next()[1]; t = parse_type(p); a = s.val(parse_value(p, t), t); p.need(','); b = s.val(parse_value(p, t), t)
            if t.k == 'ptr':
                o = {'eq':'==','ne':'!=','ult':'<','ule':'<=','ugt':'>','uge':'>='}.get(c)
                if o in ('==', '!='): setr(INT(1), '%s %s %s' % (a, o, b))
                else: setr(INT(1), '(char*)%s %s (char*)%s' % (a, o, b))
                return
            o = {'eq':'==','ne':'!=','ult':'<','ule':'<=','ugt':'>','uge':'>=','slt':'<','sle':'<=','sgt':'>','sge':'>='}[c]
            if c[0] == 's' and t.a > 1: a, b = '(%s)%s' % (s.st(t), a), '(%s)%s' % (s.st(t), b)
            setr(INT(1), '%s %s %s' % (a, o, b))
        elif op == 'fcmp':
            c = p.next()[1]; t = parse_type(p); a = s.val(parse_value(p, t), t); p.need(','); b = s.val(parse_value(p, t), t)
            E = {'oeq':'(A==B)','ogt':'(A>B)','oge':'(A>=B)','olt':'(A<B)','ole':'(A<=B)','one':'((A<B)||(A>B))','ord':'((A==A)&&(B==B))',
                 'ueq':'!((A<B)||(A>B))','ugt':'!(A<=B)','uge':'!(A<B)','ult':'!(A>=B)','ule':'!(A>B)','une':'(A!=B)','uno':'((A!=A)||(B!=B))','true':'1','false':'0'}[c]
            setr(INT(1), re.sub(r'[AB]', lambda m: a if m.group() == 'A' else b, E))
        elif op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            while p.v() in ('nneg', 'nuw', 'nsw'): p.next()
            t = parse_type(p); v = s.val(parse_value(p, t), t); p.need('to'); t2 = parse_type(p)
            setr(t2, s.cast(op, t, v, t2))
        elif op == 'select':
            t = parse_type(p); c = s.val(parse_value(p, t), t); p.need(','); ta = parse_type(p); a = s.val(parse_value(p, ta), ta); p.need(','); tb = parse_type(p); b = s.val(parse_value(p, tb), tb)
            setr(ta, '%s ? %s : %s' % (c, a, b))
        elif op == 'freeze':
            t = parse_type(p); setr(t, s.val(parse_value(p, t), t))
        elif op == 'extractvalue':
            t = parse_type(p); v = s.val(parse_value(p, t), t); e = v; cur = t
            while p.eat(','):
                n = int(p.next()[1]); cur = s.resolve(cur)
                if cur.k == 'struct': e += '.f%d' % n; cur = cur.a[n]
                else: e += '[%d]' % n; cur = cur.b
            setr(cur, e)
        elif op == 'insertvalue':
            t = parse_type(p); v = s.val(parse_value(p, t), t); p.need(','); t2 = parse_type(p); x = s.val(parse_value(p, t2), t2)
            e = R; cur = t
            while p.eat(','):
                n = int(p.next()[1]); cur = s.resolve(cur)
                if cur.k == 'struct': e += '.f%d' % n; cur = cur.a[n]
                else: e += '[%d]' % n; cur = cur.b
            setr(t, v); code.append('%s = %s;' % (e, x))
        elif op in ('call', 'tail', 'musttail', 'notail'):
            if op != 'call': p.need('call')
            s.call(f, regs, code, dst, R, p, setr)
        elif op == 'fence': pass
        else:
            raise Unsupported('instruction ' + op)

    def call(s, f, regs, code, dst, R, p, setr):
        while p.peek()[0] == 'word' and p.v() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc', 'coldcc'): p.next()
        parse_attrs(p)
        rt = parse_type(p)
        if p.v() == '(':   # full function type (varargs)
            d = 0
            while True:
                x = p.next()[1]; d += (x == '(') - (x == ')')
                if d == 0: break
        k, v = p.peek()
        if k == 'glob': p.next(); callee = v[1:]; ind = None
        elif k == 'loc': p.next(); callee = None; ind = 'r_' + mangle(v[1:])
        else: raise Unsupported('callee %r' % (p.peek(),))
        p.need('('); args = []
        while not p.eat(')'):
            t = parse_type(p)
            if t.k == 'metadata':
                d = 0
                while not (d == 0 and p.v() in (',', ')')):
                    x = p.next()[1]; d += (x == '(') - (x == ')')
                p.eat(','); continue
            parse_attrs(p); v = parse_value(p, t); args.append((t, v)); p.eat(',')
        if callee and any(callee.startswith(x) for x in BUILTIN_IGNORE): return
        A = [s.val(v, t) for t, v in args]
        if callee and callee in s.m.globals and s.m.globals[callee][0] == 'alias': callee = s.m.globals[callee][1][1]
        if ind:
            e = '((%s(*)(%s))%s)(%s)' % (s.ct(rt), ', '.join(s.ct(t) for t, _ in args) or 'void', ind, ', '.join(A))
        elif callee.startswith('llvm.'):
            e = s.intrinsic(callee, rt, args, A, code, dst)
            if e is None: return
        elif callee in s.m.funcs and not callee.startswith('vf_stub_'):
            s.ref_func(callee); e = '%s(%s)' % (s.callname(callee), ', '.join(A))
        else:
            e = s.extcall(callee, rt, args, A)
        if dst is None or rt.k == 'void': code.append(e + ';')
        else: setr(rt, e)

    def intrinsic(s, n, rt, args, A, code, dst):
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            ln = args[2][1]
            code.append('VF_MEMCPY(%s, %s, %s);' % tuple(A[:3])); return None
        if n.startswith('llvm.memset'):
            code.append('VF_MEMSET(%s, %s, %s);' % tuple(A[:3])); return None
        if n == 'llvm.trap' or n == 'llvm.ubsantrap': code.append('VF_UNREACHABLE;'); return None
        if n.startswith('llvm.assume'): return None
        if n.startswith('llvm.expect'): return A[0]
        m = re.match(r'llvm\.(floor|ceil|fabs|sqrt|exp|log|pow|round|trunc|maxnum|minnum|copysign|rint|nearbyint|exp2|log2|log10)\.f(32|64)$', n)
        if m:
            fn = {'maxnum':'fmax','minnum':'fmin'}.get(m.group(1), m.group(1))
            return '%s%s(%s)' % (fn, 'f' if m.group(2) == '32' else '', ', '.join(A))
        if n.startswith('llvm.fmuladd') or n.startswith('llvm.fma.'): return '(%s * %s + %s)' % tuple(A)
        m = re.match(r'llvm\.(s|u)(max|min)\.i(\d+)$', n)
        if m:
            S = s.st(rt) if m.group(1) == 's' else s.ct(rt)
            o = '>' if m.group(2) == 'max' else '<'
            return '((%s)%s %s (%s)%s ? %s : %s)' % (S, A[0], o, S, A[1], A[0], A[1])
        if n.startswith('llvm.abs.'):
            return '((%s)%s < 0 ? (%s)(0-%s) : %s)' % (s.st(rt), A[0], s.ct(rt), A[0], A[0])
        m = re.match(r'llvm\.(u|s)(mul|add|sub)\.with\.overflow\.i64$', n)
        if m and m.group(1) == 'u':
            o = {'mul':'*','add':'+','sub':'-'}[m.group(2)]
            return '(%s){(u64)(%s %s %s), (_Bool)(((u128)%s %s (u128)%s) >> 64 != 0)}' % (s.ct(rt), A[0], o, A[1], A[0], o, A[1])
        m = re.match(r'llvm\.is\.fpclass\.f(32|64)$', n)
        if m:
            mask = args[1][1][1]; x = A[0]; parts = []
            if mask & 3: parts.append('(%s != %s)' % (x, x))
            if mask & 0x4: parts.append('(%s == -VF_INF)' % x)
            if mask & 0x200: parts.append('(%s == VF_INF)' % x)
            if mask & ~(3|0x204) : 
                if mask & ~(3|0x204) == 0x1f8: parts.append('(%s-%s == 0)' % (x, x))
                elif mask & ~(3|0x204): raise Unsupported('fpclass %x' % mask)
            return '(%s)' % ('||'.join(parts) or '0')
        if n in ('llvm.stacksave.p0', 'llvm.stacksave'): return '((ptr)0)'
        if n.startswith('llvm.stackrestore'): return None
        raise Unsupported('intrinsic ' + n)

    def extcall(s, n, rt, args, A):
        """calls to functions without a body in the module"""
        if n == '__assert_fail' or n == '__assert':
            g = args[0][1]; txt = s.gstr(g); ln = args[2][1]
            fl = s.gstr(args[1][1])
            return 'VF_ASSERT_FAIL("%s:%s: assert(%s)")' % (fl.split('/')[-1], ln[1] if ln[0] == 'int' else '?', txt.replace('\\', ' ').replace('"', "'"))
        if n == 'vf_check':
            txt = s.gstr(args[1][1])
            return 'VF_CHECK(%s, "%s")' % (A[0], txt.replace('"', "'"))
        if n == 'vf_reach':
            txt = s.gstr(args[0][1])
            return 'VF_REACH("%s")' % txt
        if n in ('vf_assume', 'abort', 'exit', '_ZSt9terminatev', '__cxa_pure_virtual'):
            return {'vf_assume': 'VF_ASSUME(%s)' % (A[0] if A else '')}.get(n, 'VF_ASSERT_FAIL("%s called")' % n)
        if n.startswith('nd_') or n in ('vf_obs', 'vf_obsd'): return '%s(%s)' % (n, ', '.join(A))
        if n in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'): return 'VF_MALLOC(%s)' % A[0]
        if n == 'calloc': return 'VF_CALLOC(%s, %s)' % (A[0], A[1])
        if n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'): return 'VF_FREE(%s)' % A[0]
        if n in MATHMAP: return '%s(%s)' % (n, ', '.join(A))
        if n in ('memcpy', 'memmove'): return '(VF_MEMCPY(%s, %s, %s), %s)' % (A[0], A[1], A[2], A[0])
        if n == 'memset': return '(VF_MEMSET(%s, %s, %s), %s)' % (A[0], A[1], A[2], A[0])
        if n in ('abs', 'labs'):
            S = s.st(rt); return '(%s)((%s)%s < 0 ? -(%s)%s : (%s)%s)' % (s.ct(rt), S, A[0], S, A[0], S, A[0])
        if n in ('printf', 'puts', 'putchar'): return '0'
        raise Unsupported('external ' + n)
    def gstr(s, v):
        if v[0] == 'glob' and v[1] in s.m.globals:
            iv = s.m.globals[v[1]][2]
            if iv and iv[0] == 'str': return iv[1].rstrip(b'\0').decode('latin1')
        return '?'

    def run(s):
        if s.entry not in s.m.funcs: raise Unsupported('no entry')
        s.ref_func(s.entry)
        ctors = [c for c in s.m.ctors if c in s.m.funcs]
        for c in ctors: s.ref_func(c)
        while s.work:
            s.gen_func(s.m.funcs[s.work.pop()])
        # globals (initialisers may pull in more functions)
        gl = []; i = 0; gdecl = []
        while i < len(s.need_globals) or s.work:
            while s.work: s.gen_func(s.m.funcs[s.work.pop()])
            if i < len(s.need_globals):
                n = s.need_globals[i]; i += 1
                kind, t, v = s.m.globals[n]
                if v is None: raise Unsupported('external global ' + n)
                c = s.ct(t)
                gdecl.append('extern %s %s;' % (c, s.gname(n)))
                gl.append('%s %s = %s;' % (c, s.gname(n), s.ginit(v, t)))
        # static asserts on layout are emitted for gcc validation
        o = ['#include "vf_rt.h"']
        o += s.struct_order
        o += s.protos + gdecl + gl
        o += [h[1] for h in s.helpers.values()]
        o += s.out_funcs
        o.append('int main(void) { VF_INIT; %s %s(); VF_DONE; return 0; }' % (' '.join(s.fname(c) + '();' for c in ctors), s.fname(s.entry)))
        return '\n'.join(o) + '\n'

def demangle(names):
    import subprocess
    try:
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        return out[:len(names)]
    except Exception:
        return list(names)

def translate(ll_text, entry='vf_main'):
    g = Gen(Module(ll_text), entry)
    c = g.run()
    return c, g

if __name__ == '__main__':
    c, g = translate(open(sys.argv[1]).read())
    open(sys.argv[2], 'w').write(c)
    print(len(g.encoded), 'functions', g.ninstr, 'instructions')
