"""Translates LLVM IR (lowered by clang from the real C++ sources) to the C that CBMC reads.

All pointers become `unsigned char *`, integers become unsigned C integers of the same width, struct and
array types are kept (so CBMC sees typed objects), phis become parallel copies on the edges, indirect calls
become a dispatch over the address-taken functions of the same signature.

Functions called v_thread_<k> are translated to resumable step functions (lazy sequentialisation): every call
of v_yield() is a point where the solver may preempt the thread, v_block(kind, obj) one where it must.
"""
import re, struct as pystruct
from ll import *

NATIVE_INTS = {8, 16, 32, 64, 128}


def mangle(n):
    r = re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group(0)), n)
    return r


# functions the C runtime (rt.h) provides; calls are emitted with a rt_ prefix
RT = {
    'strlen', 'strcmp', 'strncmp', 'memcmp', 'strcpy', 'strncpy', 'strchr', 'strcasecmp', 'abs', 'labs', 'tolower', 'toupper',
    'isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'floor', 'ceil', 'round', 'trunc', 'fabs', 'rint', 'nearbyint', 'lround', 'llround', 'lrint', 'fmod',
    'fmax', 'fmin', 'memcpy', 'memmove', 'memset', 'abort', 'exit', 'v_assert', 'v_assume', 'v_cover', 'malloc', 'free',
    'calloc', 'realloc', 'atoi', 'atol', 'strtol', 'strtoul', 'strtod', 'atof', '__cxa_pure_virtual', '__cxa_atexit', 'atexit', 'v_yield', 'v_wait', 'v_run_threads',
    'v_nondet_u8', 'v_nondet_u16', 'v_nondet_u32', 'v_nondet_u64', 'v_nondet_double', 'v_nondet_float', 'posix_memalign',
    'v_same_object', 'v_obj_size', 'v_ptr_offset', 'v_rw_ok', 'printf', 'puts', 'putchar', 'fprintf', '__assert_fail', 'v_unreachable', 'strdup',
    'v_garbage_u64', 'strtoll', 'strtoull', 'isinf', 'isnan', 'copysign', 'v_region', 'v_is_invalid',
}


class T2C:
    def __init__(self, m, opts=None):
        self.m = m
        self.o = opts or {}
        self.out = []
        self.tnames = {}
        self.tdefs = []
        self.tdone = set()
        self.warnings = []
        self.unknown = set()
        self.fsym = {}
        self.encoded = []
        self.sizecache = {}
        self.needed_unknown = {}
        self.indirect = {}
        self.fnids = {}
        self.itof = False
        self.nondet_types = {}
        self.subst = {}
        self.fn_alloca = None

    # ---------------------------------------------------------- types
    def resolve(self, t):
        while t[0] == 'named':
            t = self.m.types[t[1]]
        return t

    def ct(self, t):
        k = t[0]
        if k == 'int':
            n = t[1]
            if n == 1:
                return '_Bool'
            if n in NATIVE_INTS:
                return 'u%d' % n
            return 'BV(%d)' % n
        if k == 'ptr':
            return 'vptr'
        if k in ('double', 'float', 'void'):
            return k
        if k == 'x86_fp80':
            return 'long double'
        if k == 'func':
            return 'u8'
        if k in ('named', 'struct', 'array', 'vector'):
            key = self.tkey(t)
            if key not in self.tnames:
                self.tnames[key] = '%s%d' % ({'named': 'S', 'struct': 'L', 'array': 'A', 'vector': 'V'}[k], len(self.tnames))
                if k == 'named':
                    self.tnames[key] += '_' + mangle(t[1])[:60]
                self.deftype(t, self.tnames[key])
            return 'struct ' + self.tnames[key]
        raise IRError('ctype %r' % (t,))

    def tkey(self, t):
        return t

    def deftype(self, t, name):
        b = t
        if t[0] == 'named':
            b = self.m.types[t[1]]
        if b[0] == 'opaque':
            self.tdefs.append('struct %s { u8 dummy; };' % name)
            return
        if b[0] in ('array', 'vector'):
            e = self.ct(b[2])
            n = b[1]
            self.tdefs.append('struct %s { %s a[%d]; };' % (name, e, max(n, 1)))
            return
        if b[0] == 'struct':
            fs = [self.ct(x) for x in b[2]]
            body = ' '.join('%s f%d;' % (f, i) for i, f in enumerate(fs))
            if not fs:
                body = ''
            pk = ' __attribute__((packed))' if b[1] else ''
            self.tdefs.append('struct %s%s { %s };' % (pk, name, body))
            return
        # named alias of something else
        self.tdefs.append('struct %s { %s f0; };' % (name, self.ct(b)))

    def size_align(self, t):
        if t in self.sizecache:
            return self.sizecache[t]
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            r = (p, min(p, 16))
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'double':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'named':
            r = self.size_align(self.m.types[t[1]])
        elif k == 'opaque':
            r = (1, 1)
        elif k in ('array', 'vector'):
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'struct':
            off = 0
            al = 1
            for f in t[2]:
                s, a = self.size_align(f)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            r = (1, 1)
        self.sizecache[t] = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    # ---------------------------------------------------------- values
    def nondet(self, t):
        k = t[0]
        c = self.ct(t)
        if k == 'ptr':
            return '((vptr)0)'
        if k == 'int' and (t[1] in NATIVE_INTS or t[1] == 1):
            self.nondet_types['nondet_undef_%s' % c.replace('_Bool', 'bool')] = c
            return 'nondet_undef_%s()' % c.replace('_Bool', 'bool')
        nm = 'nondet_undef_' + re.sub(r'\W', '_', c)
        self.nondet_types[nm] = c
        return nm + '()'

    def fpconst(self, txt, ty):
        if txt.startswith('0xK'):
            raise IRError('x87 constant')
        if txt.startswith('0x'):
            d = pystruct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0]
        else:
            d = float(txt)
        c = '(float)' if ty[0] == 'float' else ''
        if d != d:
            return '(%s__builtin_nan(""))' % c
        if d in (float('inf'), float('-inf')):
            return '(%s%s__builtin_inf())' % (c, '-' if d < 0 else '')
        if d == int(d) and abs(d) < 1e15:
            return '(%s%s%r)' % (c, '', d)
        return '(%s%s)' % (c, d.hex())

    def v(self, t, v):
        k = v[0]
        if k == 'local':
            if self.fn_alloca is not None and v[1] in self.fn_alloca:
                return '((vptr)&%s)' % self.lname(v[1])
            if v[1] in self.subst:
                i = self.subst[v[1]]
                if i.op == 'select':
                    return '(%s ? %s : %s)' % (self.v(*i.d['c']), self.v(*i.d['a']), self.v(*i.d['b']))
                if len(i.d['idx']) == 1 and i.d['idx'][0][1] in (('int', 0), ('zero',)):
                    return self.v(*i.d['p'])
                x = self.lv(v)
                if x is not None:
                    return '((vptr)&%s)' % x[0]
                return self.gep(i.d['t'], self.v(*i.d['p']), i.d['idx'])
            return self.lname(v[1])
        if k == 'global':
            return self.gaddr(v[1])
        if k == 'int':
            n = t[1]
            x = v[1] & ((1 << n) - 1)
            if n == 1:
                return '((_Bool)%d)' % x
            if n <= 32:
                return '((%s)%dU)' % (self.ct(t), x)
            if n <= 64:
                return '((%s)%dULL)' % (self.ct(t), x)
            hi, lo = x >> 64, x & ((1 << 64) - 1)
            return '((((%s)%dULL)<<64)|%dULL)' % (self.ct(t), hi, lo)
        if k == 'fp':
            return self.fpconst(v[1], v[2])
        if k == 'null':
            return '((vptr)0)'
        if k == 'undef':
            return self.nondet(t)
        if k == 'zero':
            if t[0] == 'int':
                return '((%s)0)' % self.ct(t)
            if t[0] == 'ptr':
                return '((vptr)0)'
            if t[0] in ('double', 'float'):
                return '((%s)0)' % t[0]
            return '((%s){0})' % self.ct(t)
        if k == 'gep':
            if self.fn_alloca is not None:
                x = self.lv(v)
                if x is not None:
                    return '((vptr)&%s)' % x[0]
            return self.gep(v[1], self.v(('ptr',), v[2]), v[3])
        if k == 'cast':
            return self.cast(v[1], v[2], self.v(v[2], v[3]), v[4])
        if k == 'bin':
            return self.bin(v[1], v[2][0], self.v(*v[2]), self.v(*v[3]))
        if k == 'agg':
            return '((%s)%s)' % (self.ct(t), self.init(t, v))
        raise IRError('value %r' % (v,))

    def gaddr(self, n):
        g = self.m.globals.get(n)
        if g is not None:
            if g.init and g.init[0] == 'alias':
                return self.v(('ptr',), g.init[1])
            self.use_global(n)
            return '((vptr)&G_%s)' % mangle(n)
        return '((vptr)&%s)' % self.fname(n)

    def resolve_fn(self, n):
        g = self.m.globals.get(n)
        while g is not None and g.init and g.init[0] == 'alias' and g.init[1][0] == 'global':
            n = g.init[1][1]
            g = self.m.globals.get(n)
        return n

    def fname(self, n):
        n = self.resolve_fn(n)
        f = self.m.funcs.get(n)
        if f is not None and f.defined:
            return 'F_' + mangle(n)
        if n in RT:
            return 'rt_' + n
        self.use_unknown(n)
        return 'X_' + mangle(n)

    def use_global(self, n):
        self.gused[n] = 1

    def use_unknown(self, n):
        self.needed_unknown[n] = self.m.funcs.get(n)

    def lname(self, n):
        return 'v_' + mangle(n)

    # ---------------------------------------------------------- expressions
    def sidx(self, t, v):
        if v[0] == 'int':
            return '%d' % v[1]
        n = t[1]
        return '(s%d)%s' % (n, self.v(t, v)) if n in NATIVE_INTS else self.v(t, v)

    def gep(self, st, base, idx):
        if not idx:
            return base
        c = self.ct(st)
        t0, v0 = idx[0]
        zero0 = v0[0] == 'int' and v0[1] == 0 or v0[0] == 'zero'
        if len(idx) == 1:
            if zero0:
                return base
            if c == 'u8':
                return '(%s + %s)' % (base, self.sidx(t0, v0))
            return '((vptr)((%s*)%s + %s))' % (c, base, self.sidx(t0, v0))
        e = '(*(%s*)%s)' % (c, base) if zero0 else '((%s*)%s)[%s]' % (c, base, self.sidx(t0, v0))
        cur = st
        for t, v in idx[1:]:
            r = self.resolve(cur)
            if r[0] == 'struct':
                k = v[1] if v[0] == 'int' else 0
                e = '%s.f%d' % (e, k)
                cur = r[2][k]
            elif r[0] in ('array', 'vector'):
                e = '%s.a[%s]' % (e, self.sidx(t, v) if v[0] != 'zero' else '0')
                cur = r[2]
            else:
                raise IRError('gep into %r' % (r,))
        return '((vptr)&%s)' % e

    # ---- addresses as lvalues: (C lvalue, type) or None
    def lv(self, v):
        k = v[0]
        if k == 'local':
            n = v[1]
            if self.fn_alloca is not None and n in self.fn_alloca:
                return (self.lname(n), self.alloca_t[n])
            i = self.subst.get(n)
            if i is not None and i.op == 'getelementptr':
                return self.gep_lv(i.d['t'], i.d['p'][1], i.d['idx'])
            return None
        if k == 'global':
            g = self.m.globals.get(v[1])
            if g is not None and not (g.init and g.init[0] == 'alias'):
                self.use_global(v[1])
                return ('G_' + mangle(v[1]), g.ty)
            return None
        if k == 'gep':
            return self.gep_lv(v[1], v[2], v[3])
        return None

    def same(self, a, b):
        return a == b

    def descend(self, e, t, want):
        """the first member of lvalue e of type t that has type want"""
        for _ in range(12):
            if self.same(t, want):
                return e
            r = self.resolve(t)
            if r[0] == 'struct' and r[2]:
                e, t = e + '.f0', r[2][0]
            elif r[0] == 'array' and r[1] > 0:
                e, t = e + '.a[0]', r[2]
            else:
                return None
        return None

    def member_at(self, e, t, off, want=None):
        """the member of lvalue e (type t) at constant byte offset off, descending as far as needed"""
        for _ in range(16):
            r = self.resolve(t)
            if off == 0 and (want is None or self.same(t, want)):
                return e, t
            if r[0] == 'struct':
                o = 0
                hit = None
                for k, f in enumerate(r[2]):
                    sz, al = self.size_align(f)
                    if r[1]:
                        al = 1
                    o = (o + al - 1) // al * al
                    if o <= off < o + sz:
                        hit = (k, f, off - o)
                        break
                    o += sz
                if hit is None:
                    return None
                e, t, off = '%s.f%d' % (e, hit[0]), hit[1], hit[2]
            elif r[0] == 'array' and r[1] > 0 and self.sizeof(r[2]):
                s = self.sizeof(r[2])
                if off // s >= r[1]:
                    return None
                e, t, off = '%s.a[%d]' % (e, off // s), r[2], off % s
            else:
                return (e, t) if off == 0 and want is None else None
        return None

    def gep_lv(self, st, base, idx):
        if not idx:
            return None
        t0, v0 = idx[0]
        zero0 = v0[0] == 'int' and v0[1] == 0 or v0[0] == 'zero'
        b = self.lv(base)
        e = None
        if st == ('int', 8) and len(idx) == 1 and v0[0] == 'int' and b is not None and not b[1] == st:
            return self.member_at(b[0], b[1], v0[1]) if 0 <= v0[1] < self.sizeof(b[1]) else None
        if b is not None:
            if zero0:
                e = self.descend(b[0], b[1], st)
            else:
                # pointer arithmetic inside an array
                m = None
                r = self.resolve(b[1])
                if r[0] == 'array' and r[2] == st:
                    e = '%s.a[%s]' % (b[0], self.sidx(t0, v0))
                elif b[1] == st and b[0].endswith(']'):
                    d = 0
                    j = len(b[0]) - 1
                    while j >= 0:
                        if b[0][j] == ']':
                            d += 1
                        elif b[0][j] == '[':
                            d -= 1
                            if d == 0:
                                break
                        j -= 1
                    e = '%s[(%s) + %s]' % (b[0][:j], b[0][j + 1:-1], self.sidx(t0, v0))
                else:
                    # first element of an array inside the base
                    bb = b
                    for _ in range(8):
                        r = self.resolve(bb[1])
                        if r[0] == 'array' and r[2] == st:
                            e = '%s.a[%s]' % (bb[0], self.sidx(t0, v0))
                            break
                        if r[0] == 'struct' and r[2]:
                            bb = (bb[0] + '.f0', r[2][0])
                        elif r[0] == 'array' and r[1] > 0:
                            bb = (bb[0] + '.a[0]', r[2])
                        else:
                            break
        if e is None:
            c = self.ct(st)
            bs = self.v(('ptr',), base)
            if len(idx) == 1 and zero0:
                e = '(*(%s*)%s)' % (c, bs)
            else:
                e = '(*(%s*)%s)' % (c, bs) if zero0 else '((%s*)%s)[%s]' % (c, bs, self.sidx(t0, v0))
        cur = st
        for t, v in idx[1:]:
            r = self.resolve(cur)
            if r[0] == 'struct':
                k = v[1] if v[0] == 'int' else 0
                e = '%s.f%d' % (e, k)
                cur = r[2][k]
            elif r[0] in ('array', 'vector'):
                e = '%s.a[%s]' % (e, self.sidx(t, v) if v[0] != 'zero' else '0')
                cur = r[2]
            else:
                return None
        return (e, cur)

    def deref(self, t, pv):
        """lvalue of type t at address pv"""
        b = self.lv(pv)
        if b is not None:
            d = self.descend(b[0], b[1], t)
            if d is not None:
                return d
            if self.sizeof(b[1]) and self.ct(b[1]) != 'u8':
                return '*(%s*)&%s' % (self.ct(t), b[0])
        return '*(%s*)%s' % (self.ct(t), self.v(('ptr',), pv))

    def st(self, n):
        if n in NATIVE_INTS:
            return 's%d' % n
        return 'SBV(%d)' % n

    def cast(self, op, t, a, t2):
        if op == 'trunc':
            if t2 == ('int', 1):
                return '((_Bool)(%s & 1))' % a
            return '((%s)%s)' % (self.ct(t2), a)
        if op == 'zext':
            return '((%s)%s)' % (self.ct(t2), a)
        if op == 'sext':
            if t == ('int', 1):
                return '(%s ? (%s)-1 : (%s)0)' % (a, self.ct(t2), self.ct(t2))
            return '((%s)(%s)(%s)%s)' % (self.ct(t2), self.st(t2[1]), self.st(t[1]), a)
        if op in ('fptrunc', 'fpext'):
            return '((%s)%s)' % (self.ct(t2), a)
        if op == 'fptoui':
            return '((%s)%s)' % (self.ct(t2), a)
        if op == 'fptosi':
            return '((%s)(%s)%s)' % (self.ct(t2), self.st(t2[1]), a)
        if op == 'uitofp':
            return '((%s)%s)' % (self.ct(t2), a)
        if op == 'sitofp':
            if t == ('int', 1):
                return '(%s ? (%s)-1 : (%s)0)' % (a, self.ct(t2), self.ct(t2))
            return '((%s)(%s)%s)' % (self.ct(t2), self.st(t[1]), a)
        if op == 'ptrtoint':
            fm = re.fullmatch(r'\(\(vptr\)&(F_\w+)\)', a)
            if fm: # functions as members of pointers to member functions: a number that folds
                return '((%s)%dULL)' % (self.ct(t2), self.fnid(fm.group(1)))
            return '((%s)(u64)%s)' % (self.ct(t2), a)
        if op == 'inttoptr':
            self.itof = True
            return 'v_itof((u64)%s)' % a
        if op in ('bitcast', 'addrspacecast'):
            if t == t2 or (t[0] == 'ptr' and t2[0] == 'ptr'):
                return a
            if t == ('int', 64) and t2 == ('double',):
                return 'rt_u64_to_double(%s)' % a
            if t == ('double',) and t2 == ('int', 64):
                return 'rt_double_to_u64(%s)' % a
            if t == ('int', 32) and t2 == ('float',):
                return 'rt_u32_to_float(%s)' % a
            if t == ('float',) and t2 == ('int', 32):
                return 'rt_float_to_u32(%s)' % a
        raise IRError('cast %s %r %r' % (op, t, t2))

    def bin(self, op, t, a, b):
        c = self.ct(t)
        if op == 'fadd':
            return '(%s + %s)' % (a, b)
        if op == 'fsub':
            return '(%s - %s)' % (a, b)
        if op == 'fmul':
            return '(%s * %s)' % (a, b)
        if op == 'fdiv':
            return '(%s / %s)' % (a, b)
        if op == 'frem':
            return 'rt_fmod(%s, %s)' % (a, b)
        n = t[1]
        sym = {'add': '+', 'sub': '-', 'mul': '*', 'udiv': '/', 'urem': '%', 'shl': '<<', 'lshr': '>>', 'and': '&',
               'or': '|', 'xor': '^'}
        if n == 1:
            if op in ('add', 'sub', 'xor'):
                return '((_Bool)(%s ^ %s))' % (a, b)
            if op in ('and', 'mul'):
                return '((_Bool)(%s & %s))' % (a, b)
            if op == 'or':
                return '((_Bool)(%s | %s))' % (a, b)
            raise IRError('i1 ' + op)
        if op in sym:
            if n == 64 and op in ('udiv', 'urem', 'mul') and not (re.fullmatch(r'\(\(u64\)\d+ULL\)', a) or re.fullmatch(r'\(\(u64\)\d+ULL\)', b) and op == 'mul'):
                return 'rt_%s64(%s, %s)' % (op, a, b)
            if op in ('mul',) and n == 16:
                return '((%s)((u32)%s * (u32)%s))' % (c, a, b)
            return '((%s)(%s %s %s))' % (c, a, sym[op], b)
        s = self.st(n)
        if op == 'sdiv':
            return '((%s)((%s)%s / (%s)%s))' % (c, s, a, s, b)
        if op == 'srem':
            return '((%s)((%s)%s %% (%s)%s))' % (c, s, a, s, b)
        if op == 'ashr':
            return '((%s)((%s)%s >> %s))' % (c, s, a, b)
        raise IRError('bin ' + op)

    # ---------------------------------------------------------- initialisers
    def init(self, t, v):
        r = self.resolve(t)
        k = v[0]
        if k in ('zero', 'undef'):
            if r[0] in ('struct', 'array', 'vector'):
                return '{0}' if self.sizeof(t) else '{}'
            return '0'
        if k == 'cstr':
            return '{{%s}}' % ','.join('%d' % b for b in v[1])
        if k == 'agg':
            l = [self.init(tt, vv) for tt, vv in v[2]]
            if r[0] in ('array', 'vector'):
                return '{{%s}}' % ', '.join(l)
            return '{%s}' % ', '.join(l)
        return self.v(t, v)

    # ---------------------------------------------------------- reachability of code
    def refs_of_value(self, v, acc):
        k = v[0]
        if k == 'global':
            acc.add(v[1])
        elif k == 'gep':
            self.refs_of_value(v[2], acc)
            for _, x in v[3]:
                self.refs_of_value(x, acc)
        elif k == 'cast':
            self.refs_of_value(v[3], acc)
        elif k == 'bin':
            self.refs_of_value(v[2][1], acc)
            self.refs_of_value(v[3][1], acc)
        elif k == 'agg':
            for _, x in v[2]:
                self.refs_of_value(x, acc)
        elif k == 'alias':
            self.refs_of_value(v[1], acc)

    def ins_values(self, ins):
        d = ins.d
        for key in ('a', 'b', 'c', 'p', 'v', 'callee', 'n'):
            x = d.get(key)
            if x is None:
                continue
            if isinstance(x[0], tuple):
                yield x[1]
            else:
                yield x
        for key in ('idx', 'args'):
            for x in d.get(key, ()) or ():
                if isinstance(x, tuple):
                    yield x[1]
        for x, _ in d.get('inc', ()):
            yield x
        for x, _ in d.get('cases', ()):
            yield x

    # ---------------------------------------------------------- malloc typing
    def find_ptr_type(self, f, name, size, depth, seen, exact):
        """Type (from GEPs, stores, callee parameters) through which local pointer `name` of function f is used"""
        if depth > 6 or (f.name, name) in seen:
            return None
        seen.add((f.name, name))
        best = None
        for ins in self.uses(f).get(name, ()):
            op, d = ins.op, ins.d
            cand = None
            if op == 'getelementptr' and d['p'][1] == ('local', name):
                cand = d['t']
                if cand == ('int', 8):
                    cand = None
                    i0 = d['idx'][0][1]
                    if len(d['idx']) == 1 and not (i0[0] == 'int' and i0[1] != 0) and ins.res:
                        cand = self.find_ptr_type(f, ins.res, size, depth + 1, seen, exact)
                elif len(d['idx']) == 1 and not exact and ins.res is not None:
                    pass
            elif op == 'load' and d['p'][1] == ('local', name):
                cand = d['t'] if not exact else None
                if exact and self.sizeof(d['t']) == size:
                    cand = d['t']
            elif op == 'store' and d['p'][1] == ('local', name):
                cand = d['v'][0]
                if exact and self.sizeof(cand) != size:
                    cand = None
            elif op == 'store' and d['v'][1] == ('local', name):
                # stored to a field: find loads of the same field in the module
                cand = self.field_elem_type(f, d['p'][1], size, depth, seen, exact)
            elif op == 'call':
                cal = d['callee']
                if cal[0] == 'global':
                    g = self.m.funcs.get(self.resolve_fn(cal[1]))
                    if g is not None and g.defined:
                        for k, (at, av) in enumerate(d['args']):
                            if av == ('local', name) and k < len(g.args):
                                cand = self.find_ptr_type(g, g.args[k][1], size, depth + 1, seen, exact)
                                if cand is not None and self.ok_cand(cand, size, exact):
                                    break
                    if g is not None and not g.defined and cal[1].startswith('llvm.mem') and d['args'][0][1] == ('local', name):
                        pass
            elif op in ('phi', 'select') and ins.res:
                cand = self.find_ptr_type(f, ins.res, size, depth + 1, seen, exact)
            elif op == 'ret':
                for (cf, cins) in self.callers().get(f.name, ()):
                    if cins.res:
                        cand = self.find_ptr_type(cf, cins.res, size, depth + 1, seen, exact)
                        if cand is not None and self.ok_cand(cand, size, exact):
                            break
            if cand is not None and self.ok_cand(cand, size, exact):
                if best is None or self.better(cand, best, size, exact):
                    best = cand
        return best

    def better(self, c, b, size, exact):
        # aggregates say more than scalars
        agg = {'named', 'struct', 'array'}
        return (c[0] in agg and b[0] not in agg) or (c[0] == b[0] and self.sizeof(c) > self.sizeof(b))

    def ok_cand(self, c, size, exact):
        s = self.sizeof(c)
        if s == 0:
            return False
        if exact:
            return s == size
        return size is None or size % s == 0

    def callers(self):
        if not hasattr(self, '_callers'):
            self._callers = {}
            for f in self.m.funcs.values():
                for b in f.blocks:
                    for i in b.ins:
                        if i.op == 'call' and i.d['callee'][0] == 'global':
                            self._callers.setdefault(self.resolve_fn(i.d['callee'][1]), []).append((f, i))
        return self._callers

    def uses(self, f):
        if not hasattr(f, '_uses'):
            u = {}
            for b in f.blocks:
                for i in b.ins:
                    for v in self.ins_values(i):
                        if v[0] == 'local':
                            u.setdefault(v[1], []).append(i)
            f._uses = u
        return f._uses

    def defs(self, f):
        if not hasattr(f, '_defs'):
            f._defs = {i.res: i for b in f.blocks for i in b.ins if i.res}
        return f._defs

    def gep_field(self, f, v):
        """(struct type, constant field path) of a pointer value, if it is the address of a struct field"""
        if v[0] == 'local':
            i = self.defs(f).get(v[1])
            if i is not None and i.op == 'getelementptr' and len(i.d['idx']) >= 2:
                path = tuple((x[1][1] if x[1][0] == 'int' else '*') for x in i.d['idx'][1:])
                return (i.d['t'], path)
        if v[0] == 'gep' and len(v[3]) >= 2:
            return (v[1], tuple((x[1][1] if x[1][0] == 'int' else '*') for x in v[3][1:]))
        return None

    def field_loads(self):
        if not hasattr(self, '_fl'):
            self._fl = {}
            for f in self.m.funcs.values():
                for b in f.blocks:
                    for i in b.ins:
                        if i.op == 'load' and i.d['t'] == ('ptr',):
                            k = self.gep_field(f, i.d['p'][1])
                            if k:
                                self._fl.setdefault(k, []).append((f, i))
        return self._fl

    def field_elem_type(self, f, pv, size, depth, seen, exact):
        k = self.gep_field(f, pv)
        if not k:
            if pv[0] == 'local':
                # stored to a local/alloca pointer slot
                for ins in self.uses(f).get(pv[1], ()):
                    if ins.op == 'load' and ins.d['t'] == ('ptr',) and ins.res:
                        c = self.find_ptr_type(f, ins.res, size, depth + 1, seen, exact)
                        if c is not None and self.ok_cand(c, size, exact):
                            return c
            return None
        best = None
        for g, i in self.field_loads().get(k, ()):
            c = self.find_ptr_type(g, i.res, size, depth + 1, seen, exact)
            if c is not None and self.ok_cand(c, size, exact):
                if best is None or self.better(c, best, size, exact):
                    best = c
        return best

    def emit_alloc(self, f, ins, sz, sztxt):
        if sz is not None:
            c = self.find_ptr_type(f, ins.res, sz, 0, set(), True) if ins.res else None
            if c is not None:
                return '(vptr)rt_new(sizeof(%s))' % self.ct(c)
            c = self.find_ptr_type(f, ins.res, sz, 0, set(), False) if ins.res else None
            if c is not None and self.sizeof(c):
                return '(vptr)rt_new(sizeof(%s)*%d)' % (self.ct(c), sz // self.sizeof(c))
            for w in (8, 4):
                if sz % w == 0:
                    return '(vptr)rt_new(sizeof(u%d)*%d)' % (w * 8, sz // w)
            return '(vptr)rt_new(sizeof(u8)*%d)' % sz
        c = self.find_ptr_type(f, ins.res, None, 0, set(), False) if ins.res else None
        if c is not None and self.sizeof(c) > 1:
            s = self.sizeof(c)
            return '(%s %% %d == 0 ? (vptr)rt_new(sizeof(%s)*(%s/%d)) : (vptr)rt_new(%s))' % (sztxt, s, self.ct(c), sztxt, s, sztxt)
        return '(vptr)rt_new(%s)' % sztxt

    # ---------------------------------------------------------- functions
    def proto(self, f):
        args = ', '.join('%s %s' % (self.ct(t), self.lname(n)) for t, n in f.args) or 'void'
        return 'static %s %s(%s)' % (self.ct(f.ret), 'F_' + mangle(f.name), args)

    def emit_func(self, f):
        self.cur = f
        o = []
        thread = re.fullmatch(r'v_thread_(\d+)', f.name)
        self.thread = thread.group(1) if thread else None
        self.ysites = 0
        self.fn_alloca = set()
        self.alloca_t = {}
        self.subst = {}
        allocas = []
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'alloca' and i.d['n'] is None or (i.op == 'alloca' and i.d['n'][1] == ('int', 1)):
                    self.fn_alloca.add(i.res)
                    self.alloca_t[i.res] = i.d['t']
                    allocas.append(i)
                elif i.op == 'alloca':
                    raise IRError('dynamic alloca in ' + f.name)
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'getelementptr' or (i.op == 'select' and i.d['a'][0] == ('ptr',)):
                    self.subst[i.res] = i
        st = 'static ' if thread else ''
        if thread:
            o.append('static void v_step_%s(void) {' % self.thread)
            for t, n in f.args:
                o.append('  static %s %s;' % (self.ct(t), self.lname(n)))
        else:
            o.append(self.proto(f) + ' {')
        for i in allocas:
            o.append('  %s%s %s;' % (st, self.ct(i.d['t']), self.lname(i.res)))
        live = self.live_across_yields(f) if thread else None
        for b in f.blocks:
            for i in b.ins:
                if i.res is not None and i.op != 'alloca' and i.res not in self.subst:
                    t = self.restype(i)
                    o.append('  %s%s %s;' % (st if live is None or i.res in live else '', self.ct(t), self.lname(i.res)))
        body = []
        bb = {b.name: b for b in f.blocks}
        for b in f.blocks:
            body.append(' B_%s: ;' % mangle(b.name))
            for i in b.ins:
                if i.op == 'phi' or (i.res is not None and i.res in self.subst):
                    continue
                s = self.emit_ins(f, b, i, bb)
                if s:
                    body.append('  ' + s)
        if thread:
            sw = ' '.join('if(v_pc[%s]==%d) goto Y_%d;' % (self.thread, k, k) for k in range(1, self.ysites + 1))
            o.append('  ' + sw)
        o += body
        o.append('}')
        self.fn_alloca = None
        return o

    def live_across_yields(self, f):
        """values that are needed after a scheduling point"""
        bb = {b.name: b for b in f.blocks}
        succ = {}
        for b in f.blocks:
            t = b.ins[-1]
            s = []
            if t.op == 'br':
                s = t.d['dest']
            elif t.op == 'switch':
                s = [t.d['def']] + [x for _, x in t.d['cases']]
            succ[b.name] = s

        def uses_of(i):
            r = set()
            for v in self.ins_values(i):
                self.local_refs(v, r)
            return r
        livein = {b.name: set() for b in f.blocks}
        res = set()
        changed = True
        while changed:
            changed = False
            for b in reversed(f.blocks):
                live = set()
                for s in succ[b.name]:
                    tb = bb[s]
                    ph = [i for i in tb.ins if i.op == 'phi']
                    live |= livein[s] - {i.res for i in ph}
                    for i in ph:
                        # the phi variable itself is written on the edge
                        for v, frm in i.d['inc']:
                            if frm == b.name:
                                self.local_refs(v, live)
                for i in reversed(b.ins):
                    if i.op == 'phi':
                        continue
                    if i.op == 'call' and i.d['callee'] in (('global', 'v_yield'), ('global', 'v_block'), ('global', 'v_wait')):
                        res |= live
                    if i.res is not None:
                        live.discard(i.res)
                    if i.res is None or i.res not in self.subst:
                        live |= uses_of(i)
                # phis are defined at the top, before any scheduling point of the block
                if live != livein[b.name]:
                    livein[b.name] = live
                    changed = True
        return res

    def local_refs(self, v, acc):
        if v[0] == 'local':
            i = self.subst.get(v[1])
            if i is not None:
                for x in self.ins_values(i):
                    self.local_refs(x, acc)
            elif v[1] not in self.fn_alloca:
                acc.add(v[1])

    def restype(self, i):
        op, d = i.op, i.d
        if op in BINOPS or op in ('fneg', 'phi', 'freeze', 'load'):
            return d['t']
        if op in CASTOPS:
            return d['t2']
        if op in ('icmp', 'fcmp'):
            return ('int', 1)
        if op == 'select':
            return d['a'][0]
        if op in ('getelementptr', 'alloca'):
            return ('ptr',)
        if op == 'call':
            return d['t']
        if op == 'extractvalue':
            t = d['a'][0]
            for k in d['idx']:
                r = self.resolve(t)
                t = r[2][k] if r[0] == 'struct' else r[2]
            return t
        if op == 'insertvalue':
            return d['a'][0]
        if op == 'atomicrmw':
            return d['v'][0]
        if op == 'cmpxchg':
            return ('struct', False, (d['c'][0], ('int', 1)))
        raise IRError('restype ' + op)

    def edge(self, f, b, dest, bb):
        """code of the edge b -> dest"""
        tb = bb[dest]
        phis = [i for i in tb.ins if i.op == 'phi']
        s = ''
        if phis:
            asg = []
            for i in phis:
                for v, frm in i.d['inc']:
                    if frm == b.name:
                        asg.append((i, v))
                        break
            asg = [(i, v) for i, v in asg if v != ('local', i.res)]
            dests = {i.res for i, _ in asg}
            dep = any(v[0] == 'local' and v[1] in dests for _, v in asg)
            if len(asg) == 1 or not dep:
                for i, v in asg:
                    s += '%s = %s; ' % (self.lname(i.res), self.v(i.d['t'], v))
            elif asg:
                s += '{ '
                for k, (i, v) in enumerate(asg):
                    s += '%s t%d = %s; ' % (self.ct(i.d['t']), k, self.v(i.d['t'], v))
                for k, (i, v) in enumerate(asg):
                    s += '%s = t%d; ' % (self.lname(i.res), k)
                s += '} '
        return s + 'goto B_%s;' % mangle(dest)

    ICMP = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=', 'sgt': '>', 'sge': '>=', 'slt': '<',
            'sle': '<='}

    def emit_ins(self, f, b, i, bb):
        op, d = i.op, i.d
        R = self.lname(i.res) + ' = ' if i.res is not None else ''
        if op in BINOPS:
            return '%s%s;' % (R, self.bin(op, d['t'], self.v(d['t'], d['a']), self.v(d['t'], d['b'])))
        if op == 'fneg':
            return '%s-%s;' % (R, self.v(d['t'], d['a']))
        if op in CASTOPS:
            return '%s%s;' % (R, self.cast(op, d['t'], self.v(d['t'], d['a']), d['t2']))
        if op == 'icmp':
            a, c = self.v(d['t'], d['a']), self.v(d['t'], d['b'])
            if d['pred'][0] == 's':
                s = self.st(d['t'][1]) if d['t'][0] == 'int' else 's64'
                return '%s(%s)%s %s (%s)%s;' % (R, s, a, self.ICMP[d['pred']], s, c)
            return '%s%s %s %s;' % (R, a, self.ICMP[d['pred']], c)
        if op == 'fcmp':
            a, c = self.v(d['t'], d['a']), self.v(d['t'], d['b'])
            e = {'oeq': '({0} == {1})', 'une': '({0} != {1})', 'olt': '({0} < {1})', 'ole': '({0} <= {1})',
                 'ogt': '({0} > {1})', 'oge': '({0} >= {1})', 'ult': '!({0} >= {1})', 'ule': '!({0} > {1})',
                 'ugt': '!({0} <= {1})', 'uge': '!({0} < {1})', 'one': '({0} < {1} || {0} > {1})',
                 'ueq': '!({0} < {1} || {0} > {1})', 'ord': '({0} == {0} && {1} == {1})',
                 'uno': '({0} != {0} || {1} != {1})', 'true': '1', 'false': '0'}[d['pred']].format(a, c)
            return '%s%s;' % (R, e)
        if op == 'select':
            return '%s%s ? %s : %s;' % (R, self.v(*d['c']), self.v(*d['a']), self.v(*d['b']))
        if op == 'freeze':
            return '%s%s;' % (R, self.v(d['t'], d['a']))
        if op == 'alloca':
            return ''
        if op == 'load':
            return '%s%s;' % (R, self.deref(d['t'], d['p'][1]))
        if op == 'store':
            return '%s = %s;' % (self.deref(d['v'][0], d['p'][1]), self.v(*d['v']))
        if op == 'getelementptr':
            return '%s%s;' % (R, self.gep(d['t'], self.v(*d['p']), d['idx']))
        if op == 'br':
            if len(d['dest']) == 1:
                return self.edge(f, b, d['dest'][0], bb)
            return 'if (%s) { %s } else { %s }' % (self.v(*d['c']), self.edge(f, b, d['dest'][0], bb),
                                                   self.edge(f, b, d['dest'][1], bb))
        if op == 'switch':
            c = self.v(*d['c'])
            s = ''
            for v, dest in d['cases']:
                s += 'if (%s == %s) { %s } else ' % (c, self.v(d['c'][0], v), self.edge(f, b, dest, bb))
            return s + '{ %s }' % self.edge(f, b, d['def'], bb)
        if op == 'ret':
            if self.thread is not None:
                return 'v_done[%s] = 1; return;' % self.thread
            if d['t'][0] == 'void':
                return 'return;'
            return 'return %s;' % self.v(d['t'], d['a'])
        if op == 'unreachable':
            return 'RT_UNREACHABLE();'
        if op == 'extractvalue':
            e = self.v(*d['a'])
            t = d['a'][0]
            for k in d['idx']:
                r = self.resolve(t)
                if r[0] == 'struct':
                    e += '.f%d' % k
                    t = r[2][k]
                else:
                    e += '.a[%d]' % k
                    t = r[2]
            return '%s%s;' % (R, e)
        if op == 'insertvalue':
            e = self.lname(i.res)
            pre = '%s = %s; ' % (e, self.v(*d['a'])) if d['a'][1][0] != 'undef' else ''
            t = d['a'][0]
            for k in d['idx']:
                r = self.resolve(t)
                if r[0] == 'struct':
                    e += '.f%d' % k
                    t = r[2][k]
                else:
                    e += '.a[%d]' % k
                    t = r[2]
            return pre + '%s = %s;' % (e, self.v(*d['v']))
        if op == 'atomicrmw':
            c = self.ct(d['v'][0])
            p = '*(%s*)%s' % (c, self.v(*d['p']))
            x = self.v(*d['v'])
            e = {'xchg': x, 'add': '(%s)(%s + %s)' % (c, p, x), 'sub': '(%s)(%s - %s)' % (c, p, x),
                 'and': '%s & %s' % (p, x), 'or': '%s | %s' % (p, x), 'xor': '%s ^ %s' % (p, x)}[d['rmw']]
            return ('%s%s; ' % (R, p) if R else '') + '%s = %s;' % (p, e)
        if op == 'cmpxchg':
            c = self.ct(d['c'][0])
            p = '*(%s*)%s' % (c, self.v(*d['p']))
            r = self.lname(i.res)
            return '%s.f0 = %s; %s.f1 = (%s == %s); if (%s.f1) %s = %s;' % (r, p, r, p, self.v(*d['c']), r, p, self.v(*d['v']))
        if op == 'call':
            return self.emit_call(f, i, R)
        raise IRError('emit ' + op)

    def strlit(self, v):
        """the text of a constant C string argument"""
        if v[0] == 'global':
            g = self.m.globals.get(v[1])
            if g and g.init and g.init[0] == 'cstr':
                return g.init[1].rstrip(b'\0').decode('latin1')
        if v[0] == 'gep':
            return self.strlit(v[2])
        return '?'

    def typed_copy(self, f, d, n):
        """a struct type of size n known for source or destination of a memcpy"""
        for k in (0, 1):
            v = d['args'][k][1]
            if v[0] == 'local':
                i = self.defs(f).get(v[1])
                if i is not None and i.op == 'alloca' and self.sizeof(i.d['t']) == n:
                    return i.d['t']
                if i is not None and i.op == 'getelementptr':
                    t = i.d['t']
                    for tt, vv in i.d['idx'][1:]:
                        r = self.resolve(t)
                        t = r[2][vv[1] if vv[0] == 'int' else 0] if r[0] == 'struct' else r[2]
                    if self.sizeof(t) == n:
                        return t
            elif v[0] == 'global':
                g = self.m.globals.get(v[1])
                if g is not None and self.sizeof(g.ty) == n:
                    return g.ty
        # copies of strings (no padding, so the same bytes are copied whatever the objects are)
        t = ('named', 'class.std::string')
        if t[1] in self.m.types and self.sizeof(t) == n:
            return t
        return None

    def emit_call(self, f, i, R):
        d = i.d
        cal = d['callee']
        if cal[0] == 'asm':
            return ''
        A = [self.v(t, v) for t, v in d['args']] if not (cal[0] == 'global' and cal[1].startswith('llvm.dbg')) else []
        if cal[0] != 'global':
            return self.emit_indirect(f, i, R, A)
        n = self.resolve_fn(cal[1])
        if n.startswith('llvm.'):
            return self.emit_intrinsic(f, i, R, n, A)
        if n == 'v_yield':
            if self.thread is None:
                return ''
            self.ysites += 1
            k = self.ysites
            return 'if (rt_preempt(%s)) { v_pc[%s] = %d; return; } Y_%d: ;' % (self.thread, self.thread, k, k)
        if n == 'v_wait':
            if self.thread is None:
                return 'if (!(%s)) RT_BLOCKED_FOREVER();' % A[0]
            self.ysites += 1
            k = self.ysites
            t = self.thread
            return 'if (!(%s) || rt_preempt(%s)) { v_bkind[%s] = %s; v_bobj[%s] = %s; v_pc[%s] = %d; return; } Y_%d: v_bkind[%s] = 0;' % (
                A[0], t, t, A[1], t, A[2], t, k, k, t)
        if n == 'v_block':
            if self.thread is None:
                return 'RT_BLOCKED_FOREVER();'
            self.ysites += 1
            k = self.ysites
            t = self.thread
            return 'v_bkind[%s] = %s; v_bobj[%s] = %s; v_pc[%s] = %d; return; Y_%d: v_bkind[%s] = 0;' % (
                t, A[0], t, A[1], t, k, k, t)
        if n == 'v_assert':
            return 'RT_ASSERT(%s, %s);' % (A[0], self.cstr(self.strlit(d['args'][1][1])))
        if n == 'v_cover':
            return 'RT_COVER(%s);' % self.cstr('COVER ' + self.strlit(d['args'][0][1]))
        if n == 'v_assume':
            return 'RT_ASSUME(%s);' % A[0]
        if n in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            a0 = d['args'][0][1]
            return '%s%s;' % (R, self.emit_alloc(f, i, a0[1] if a0[0] == 'int' else None, A[0]))
        if n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t'):
            return 'rt_delete(%s);' % A[0]
        if n == '__dynamic_cast':
            dst = d['args'][2][1][1]
            eq = []
            for z in self.m.globals:
                if z.startswith('_ZTV') and not z.startswith('_ZTVN10__cxxabiv1') and self.derives('_ZTI' + z[4:], dst):
                    i32 = ('int', 32)
                    eq.append('dv == %s' % self.gep(self.m.globals[z].ty, self.gaddr(z), [(i32, ('int', 0)), (i32, ('int', 0)), (i32, ('int', 2))]))
            return '{ vptr dp = %s, dr = 0; if (dp) { vptr dv = *(vptr*)dp; if (%s) dr = dp; } %sdr; }' % (A[0], ' || '.join(eq) or '0', R)
        if n in ('__cxa_atexit', 'atexit'):
            return '%s0;' % R if R else ''
        fn = self.m.funcs.get(n)
        if fn is None or not fn.defined:
            if n not in RT:
                self.use_unknown(n)
                self.needed_unknown[n] = (d['t'], tuple(t for t, _ in d['args']))
                return '%sX_%s(%s);' % (R, mangle(n), ', '.join(A))
            if n in ('printf', 'fprintf', 'puts', 'putchar'):
                return '%s0;' % R if R else ''
            return '%srt_%s(%s);' % (R, n, ', '.join(A))
        return '%sF_%s(%s);' % (R, mangle(n), ', '.join(A))

    def derives(self, ti, dst):
        """class with type info ti is dst or derives from it (single inheritance)"""
        while ti is not None:
            if ti == dst:
                return True
            g = self.m.globals.get(ti)
            if g is None or not g.init or g.init[0] != 'agg':
                return False
            acc = set()
            self.refs_of_value(g.init, acc)
            if any('vmi_class' in r for r in acc):
                raise IRError('dynamic_cast with multiple inheritance')
            nxt = [r for r in acc if r.startswith('_ZTI')]
            ti = nxt[0] if nxt else None
        return False

    def cstr(self, s):
        return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', ' ')

    def fnid(self, name):
        if name not in self.fnids:
            self.fnids[name] = 0x7f00 + 16 * len(self.fnids)
        return self.fnids[name]

    def emit_indirect(self, f, i, R, A):
        d = i.d
        key = (d['t'], tuple(t for t, _ in d['args']))
        if key not in self.indirect:
            self.indirect[key] = 'v_icall_%d' % len(self.indirect)
        return '%s%s(%s);' % (R, self.indirect[key], ', '.join([self.v(('ptr',), d['callee'])] + A))

    def emit_intrinsic(self, f, i, R, n, A):
        d = i.d
        b = n.split('.')
        if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.invariant',
                         'llvm.prefetch', 'llvm.assume', 'llvm.donothing', 'llvm.va_end')):
            return ''
        if n.startswith('llvm.stacksave'):
            return '%s((vptr)0);' % R
        if n.startswith('llvm.expect') or n.startswith('llvm.launder') or n.startswith('llvm.strip.inv') or n.startswith('llvm.threadlocal'):
            return '%s%s;' % (R, A[0])
        if n in ('llvm.trap', 'llvm.debugtrap'):
            return 'RT_UB("trap");'
        if n == 'llvm.ubsantrap':
            kind = d['args'][0][1][1]
            names = {0: 'signed addition overflow', 1: 'builtin unreachable', 2: 'cfi', 3: 'integer division overflow or by zero',
                     5: 'float value out of range of the integer type', 6: 'function type mismatch', 8: 'invalid bool or enum value',
                     10: 'load of invalid value', 11: 'missing return', 12: 'signed multiplication overflow', 13: 'negation overflow',
                     18: 'array index out of bounds', 19: 'pointer overflow', 20: 'shift out of bounds', 21: 'signed subtraction overflow',
                     22: 'null or misaligned pointer', 24: 'vla bound'}
            return 'RT_UB("undefined behaviour: %s");' % names.get(kind, 'kind %d' % kind)
        if b[1] in ('memcpy', 'memmove', 'memset'):
            ln = d['args'][2][1]
            if b[1] == 'memset':
                if ln[0] == 'int':
                    if ln[1] == 0:
                        return ''
                    # typed zeroing
                    if d['args'][1][1] == ('int', 0):
                        t = self.typed_copy(f, {'args': [d['args'][0], d['args'][0]]}, ln[1])
                        if t is not None and t[0] in ('named', 'struct', 'array'):
                            return '{ %s z = {0}; *(%s*)%s = z; }' % (self.ct(t), self.ct(t), A[0])
                return 'rt_memset(%s, %s, %s);' % (A[0], A[1], A[2])
            if ln[0] == 'int':
                if ln[1] == 0:
                    return ''
                t = self.typed_copy(f, d, ln[1])
                if t is not None:
                    return '*(%s*)%s = *(%s*)%s;' % (self.ct(t), A[0], self.ct(t), A[1])
            return 'rt_%s(%s, %s, %s);' % (b[1], A[0], A[1], A[2])
        if b[1] in ('umax', 'umin'):
            return '%s%s %s %s ? %s : %s;' % (R, A[0], '>' if b[1] == 'umax' else '<', A[1], A[0], A[1])
        if b[1] in ('smax', 'smin'):
            s = self.st(d['t'][1])
            return '%s(%s)%s %s (%s)%s ? %s : %s;' % (R, s, A[0], '>' if b[1] == 'smax' else '<', s, A[1], A[0], A[1])
        if b[1] == 'abs':
            s = self.st(d['t'][1])
            return '%s((%s)%s < 0) ? (%s)-%s : %s;' % (R, s, A[0], self.ct(d['t']), A[0], A[0])
        if b[1] in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'roundeven', 'fabs', 'copysign', 'sqrt'):
            return '%srt_%s(%s);' % (R, b[1], ', '.join(A))
        if b[1] in ('lround', 'llround', 'lrint', 'llrint'):
            return '%srt_%s(%s);' % (R, b[1], ', '.join(A))
        if b[1] in ('maxnum', 'minnum', 'maximum', 'minimum'):
            return '%srt_%s(%s);' % (R, 'fmax' if b[1].startswith('max') else 'fmin', ', '.join(A))
        if b[1] in ('fmuladd', 'fma'):
            return '%s(%s * %s) + %s;' % (R, A[0], A[1], A[2])
        if b[1] == 'is' and b[2] == 'fpclass':
            m = d['args'][1][1][1]
            a = A[0]
            c = []
            if m & 3:
                c.append('(%s != %s)' % (a, a))
            if m & 4:
                c.append('(%s == -__builtin_inf())' % a)
            if m & 512:
                c.append('(%s == __builtin_inf())' % a)
            rest = m & ~(3 | 4 | 512)
            if rest == 0x1f8:
                c.append('(%s - %s == 0.0)' % (a, a))
            elif rest == 0x60:
                c.append('(%s == 0.0)' % a)
            elif rest:
                raise IRError('fpclass %x' % m)
            return '%s%s;' % (R, ' || '.join(c) or '0')
        if b[2] == 'with' and b[3] == 'overflow':
            w = d['args'][0][0][1]
            c = self.ct(('int', w))
            r = i.res and self.lname(i.res)
            op = b[1]
            x, y = A
            W = 2 * w
            u = 'u%d' % W if W in NATIVE_INTS else 'BV(%d)' % W
            s = 's%d' % W if W in NATIVE_INTS else 'SBV(%d)' % W
            so = {'add': '+', 'sub': '-', 'mul': '*'}[op[1:]]
            if op[0] == 'u':
                if op == 'uadd':
                    ov = '(%s)(%s + %s) < %s' % (c, x, y, x)
                elif op == 'usub':
                    ov = '%s < %s' % (x, y)
                else:
                    ov = '((%s)%s * (%s)%s) >> %d != 0' % (u, x, u, y, w)
                return '%s.f0 = (%s)(%s %s %s); %s.f1 = %s;' % (r, c, x, so, y, r, ov)
            n1 = self.st(w)
            return '%s.f0 = (%s)(%s %s %s); %s.f1 = ((%s)(%s)%s %s (%s)(%s)%s) != (%s)(%s)%s.f0;' % (
                r, c, x, so, y, r, s, n1, x, so, s, n1, y, s, n1, r)
        if b[1] in ('ctpop', 'ctlz', 'cttz', 'bswap'):
            return '%srt_%s%d(%s);' % (R, b[1], d['t'][1], A[0])
        if b[1] in ('fshl', 'fshr'):
            w = d['t'][1]
            if b[1] == 'fshl':
                return '%s(%s %% %d) ? (%s)((%s << (%s %% %d)) | (%s >> (%d - %s %% %d))) : %s;' % (
                    R, A[2], w, self.ct(d['t']), A[0], A[2], w, A[1], w, A[2], w, A[0])
            return '%s(%s %% %d) ? (%s)((%s >> (%s %% %d)) | (%s << (%d - %s %% %d))) : %s;' % (
                R, A[2], w, self.ct(d['t']), A[1], A[2], w, A[0], w, A[2], w, A[1])
        if b[1] == 'objectsize':
            return '%s(u64)-1;' % R
        if b[1] == 'usub' and b[2] == 'sat':
            return '%s%s > %s ? (%s)(%s - %s) : 0;' % (R, A[0], A[1], self.ct(d['t']), A[0], A[1])
        if b[1] == 'eh' and b[2] == 'typeid':
            return '%s0;' % R
        raise IRError('intrinsic ' + n)

    # ---------------------------------------------------------- driver
    def run(self, entry='v_main'):
        m = self.m
        self.gused = {}
        self.fn_alloca = None
        # reachable definitions
        work = [entry] + [c for _, c in m.ctors] + [n for n in m.funcs if re.fullmatch(r'v_thread_\d+', n)]
        if 'v_enabled' in m.funcs:
            work.append('v_enabled')
        seen = set()
        order = []
        addr_taken = set()
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            f = m.funcs.get(n)
            if f is None:
                g = m.globals.get(n)
                if g is not None and g.init:
                    acc = set()
                    self.refs_of_value(g.init, acc)
                    for r in acc:
                        work.append(r)
                        if m.funcs.get(self.resolve_fn(r)):
                            addr_taken.add(self.resolve_fn(r))
                continue
            if not f.defined:
                continue
            order.append(f)
            for b in f.blocks:
                for i in b.ins:
                    cal = i.d.get('callee') if i.op == 'call' else None
                    for v in self.ins_values(i):
                        acc = set()
                        self.refs_of_value(v, acc)
                        for r in acc:
                            work.append(r)
                            if not (v is cal and v[0] == 'global') and m.funcs.get(self.resolve_fn(r)):
                                addr_taken.add(self.resolve_fn(r))
        self.order = order
        self.addr_taken = addr_taken
        bodies = []
        threads = []
        for f in order:
            if re.fullmatch(r'v_thread_\d+', f.name):
                threads.append(f)
            bodies.append(self.emit_func(f))
        # globals (initialisers may use further globals)
        gout = []
        done = set()
        gdecl = []
        while True:
            todo = [n for n in self.gused if n not in done]
            if not todo:
                break
            for n in todo:
                done.add(n)
                g = m.globals[n]
                c = self.ct(g.ty)
                if g.extern or g.init is None:
                    gdecl.append('%s G_%s;' % (c, mangle(n)))
                    continue
                gdecl.append('extern %s G_%s;' % (c, mangle(n)))
                if self.sizeof(g.ty) == 0:
                    gout.append('%s G_%s;' % (c, mangle(n)))
                else:
                    gout.append('%s G_%s = %s;' % (c, mangle(n), self.init(g.ty, g.init)))
        protos = []
        for f in order:
            if f not in threads:
                protos.append(self.proto(f) + ';')
        # dispatchers
        disp = []
        for (rt, ats), nm in self.indirect.items():
            ps = ', '.join(['vptr fp'] + ['%s a%d' % (self.ct(t), k) for k, t in enumerate(ats)])
            protos.append('static %s %s(%s);' % (self.ct(rt), nm, ps))
            o = ['static %s %s(%s) {' % (self.ct(rt), nm, ps)]
            for n in sorted(addr_taken):
                f = m.funcs.get(n)
                if f is None or not f.defined or f in threads:
                    continue
                if f.sig() == (rt, ats):
                    cs = 'F_%s(%s)' % (mangle(n), ', '.join('a%d' % k for k in range(len(ats))))
                    if rt[0] == 'void':
                        o.append('  if (fp == (vptr)&F_%s) { %s; return; }' % (mangle(n), cs))
                    else:
                        o.append('  if (fp == (vptr)&F_%s) return %s;' % (mangle(n), cs))
            o.append('  RT_UB("call through an invalid function pointer");')
            if rt[0] != 'void':
                o.append('  { %s r; return r; }' % self.ct(rt))
            o.append('}')
            disp += o
        if self.itof:
            protos.append('static vptr v_itof(u64 v);')
            disp.append('static vptr v_itof(u64 v) { %sreturn (vptr)v; }' % ''.join('if (v == %dULL) return (vptr)&%s; ' % (k, n) for n, k in sorted(self.fnids.items())))
        unk = []
        for n, s in self.needed_unknown.items():
            if s is None:
                continue
            if isinstance(s, Func):
                s = s.sig()
            self.unknown.add(n)
            ps = ', '.join('%s a%d' % (self.ct(t), k) for k, t in enumerate(s[1])) or 'void'
            if s[0][0] == 'void':
                unk.append('static void X_%s(%s) { }' % (mangle(n), ps))
            elif s[0][0] == 'ptr':
                unk.append('static vptr X_%s(%s) { return 0; }' % (mangle(n), ps))
            else:
                unk.append('static %s X_%s(%s) { return %s; }' % (self.ct(s[0]), mangle(n), ps, self.nondet(s[0])))
        unknames = ['X_' + mangle(n) for n in self.needed_unknown if self.needed_unknown[n] is None]
        for n in unknames:
            unk.append('static void %s(void) { }' % n)
        nd = ['%s %s(void);' % (c, n) if not self.o.get('native') else 'static %s %s(void) { %s r; memset(&r,0,sizeof r); return r; }' % (c, n, c)
              for n, c in sorted(self.nondet_types.items())]
        o = ['#define V_NTHREADS %d' % max(1, len(threads))]
        o.append('#include "rt.h"')
        o += self.tdefs
        o += nd
        o += unk if False else []
        if threads:
            o.append('static _Bool F_v_enabled(u32 v_0, vptr v_1);' if False else '')
        o += protos
        o += gdecl
        o += unk
        o += gout
        for bd in bodies:
            o += bd
        o += disp
        if threads:
            o.append('static void v_step(u32 t) {')
            for f in threads:
                k = re.fullmatch(r'v_thread_(\d+)', f.name).group(1)
                o.append('  if (t == %s) { v_step_%s(); return; }' % (k, k))
            o.append('}')
            en = m.funcs['v_enabled']
            o.append('extern u32 G_v_tid;\nstatic _Bool v_is_enabled(u32 t) { if (v_bkind[t] == 0) return 1; G_v_tid = t; return F_v_enabled(v_bkind[t], v_bobj[t]); }')
            o.append('#include "sched.h"')
        else:
            o.append('void rt_v_run_threads(u32 n) { }')
        o.append('int main(void) {')
        for _, c in m.ctors:
            o.append('  F_%s();' % mangle(c))
        o.append('  F_%s();' % mangle(entry))
        o.append('  return 0;\n}')
        return '\n'.join(o) + '\n'


if __name__ == '__main__':
    import sys
    m = parse_module(open(sys.argv[1]).read())
    t = T2C(m)
    sys.stdout.write(t.run())
    sys.stderr.write('unknown: %s\n' % sorted(t.unknown))
