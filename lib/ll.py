"""Parser for the textual LLVM IR produced by clang 18 (opaque pointers)."""
import re, functools


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# types are tuples: ('int',n) ('ptr',) ('double',) ('float',) ('x86_fp80',)
# ('void',) ('struct',packed,(t..)) ('named',name) ('array',n,t) ('vector',n,t)
# ('func',ret,(args),vararg) ('label',) ('metadata',)
class P:
    """Cursor over a string"""
    __slots__ = ('s', 'i')

    def __init__(self, s, i=0):
        self.s = s
        self.i = i

    def ws(self):
        s = self.s
        n = len(s)
        while self.i < n and s[self.i] in ' \t\n':
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    _wordre = re.compile(r'[A-Za-z0-9_.$-]+')

    def peekword(self):
        self.ws()
        m = self._wordre.match(self.s, self.i)
        return m.group(0) if m else ''

    def eatword(self, w=None):
        self.ws()
        m = self._wordre.match(self.s, self.i)
        if not m:
            return None
        if w is not None and m.group(0) != w:
            return None
        self.i = m.end()
        return m.group(0)

    def need(self, t):
        if not self.eat(t):
            raise IRError("expected %r at %r" % (t, self.s[self.i:self.i + 60]))

    def end(self):
        self.ws()
        return self.i >= len(self.s)

    def rest(self):
        return self.s[self.i:]


_namere = re.compile(r'"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+')


def parse_name(p):
    """after a sigil"""
    m = _namere.match(p.s, p.i)
    if not m:
        raise IRError("name at %r" % p.s[p.i:p.i + 40])
    p.i = m.end()
    n = m.group(0)
    if n[0] == '"':
        n = n[1:-1]
    return n


def parse_type(p):
    p.ws()
    c = p.s[p.i]
    t = None
    if c == '%':
        p.i += 1
        t = ('named', parse_name(p))
    elif c == '{':
        p.i += 1
        t = ('struct', False, tuple(parse_tlist(p, '}')))
    elif c == '<':
        p.i += 1
        if p.eat('{'):
            l = tuple(parse_tlist(p, '}'))
            p.need('>')
            t = ('struct', True, l)
        else:
            n = int(p.eatword())
            p.need('x')
            e = parse_type(p)
            p.need('>')
            t = ('vector', n, e)
    elif c == '[':
        p.i += 1
        n = int(p.eatword())
        p.need('x')
        e = parse_type(p)
        p.need(']')
        t = ('array', n, e)
    else:
        w = p.eatword()
        if w is None:
            raise IRError("type at %r" % p.s[p.i:p.i + 40])
        if re.fullmatch(r'i\d+', w):
            t = ('int', int(w[1:]))
        elif w == 'ptr':
            t = ('ptr',)
        elif w in ('double', 'float', 'void', 'x86_fp80', 'label', 'metadata', 'half', 'token'):
            t = (w,)
        elif w == 'opaque':
            t = ('opaque',)
        else:
            raise IRError("type %r at %r" % (w, p.s[max(0, p.i - 40):p.i + 40]))
    while True:
        p.ws()
        if p.peek('('):
            p.i += 1
            va = False
            args = []
            if not p.eat(')'):
                while True:
                    if p.eat('...'):
                        va = True
                    else:
                        args.append(parse_type(p))
                    if p.eat(')'):
                        break
                    p.need(',')
            t = ('func', t, tuple(args), va)
        else:
            break
    return t


def parse_tlist(p, close):
    r = []
    if p.eat(close):
        return r
    while True:
        r.append(parse_type(p))
        if p.eat(close):
            return r
        p.need(',')


# ---------------------------------------------------------------- values
# ('local',name) ('global',name) ('int',v) ('fp',text,type) ('null',) ('undef',)
# ('zero',) ('cstr',bytes) ('agg',kind,[(type,val)..]) ('gep',srcT,base,[(t,v)..])
# ('cast',op,t,v,t2) ('bin',op,(t,v),(t,v))
_numre = re.compile(r'-?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?|0x[KHMLR]?[0-9A-Fa-f]+')
CASTS = {'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'}


def parse_value(p, ty):
    p.ws()
    c = p.s[p.i]
    if c == '%':
        p.i += 1
        return ('local', parse_name(p))
    if c == '@':
        p.i += 1
        return ('global', parse_name(p))
    if c == 'c' and p.s.startswith('c"', p.i):
        j = p.s.index('"', p.i + 2)
        raw = p.s[p.i + 2:j]
        p.i = j + 1
        out = bytearray()
        k = 0
        while k < len(raw):
            if raw[k] == '\\':
                if raw[k + 1] == '\\':
                    out.append(92)
                    k += 2
                else:
                    out.append(int(raw[k + 1:k + 3], 16))
                    k += 3
            else:
                out.append(ord(raw[k]))
                k += 1
        return ('cstr', bytes(out))
    if c == '[':
        p.i += 1
        return ('agg', 'array', parse_tvlist(p, ']'))
    if c == '{':
        p.i += 1
        return ('agg', 'struct', parse_tvlist(p, '}'))
    if c == '<':
        if p.s.startswith('<{', p.i):
            p.i += 2
            l = parse_tvlist(p, '}')
            p.need('>')
            return ('agg', 'struct', l)
        p.i += 1
        return ('agg', 'vector', parse_tvlist(p, '>'))
    if c in '-0123456789':
        # hexadecimal fp
        if p.s.startswith('0x', p.i):
            m = re.compile(r'0x[KHMLR]?[0-9A-Fa-f]+').match(p.s, p.i)
        else:
            m = re.compile(r'-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?').match(p.s, p.i)
        p.i = m.end()
        txt = m.group(0)
        if ty and ty[0] in ('double', 'float', 'x86_fp80', 'half'):
            return ('fp', txt, ty)
        return ('int', int(txt))
    w = p.eatword()
    if w == 'true':
        return ('int', 1)
    if w == 'false':
        return ('int', 0)
    if w == 'null':
        return ('null',)
    if w in ('undef', 'poison'):
        return ('undef',)
    if w == 'zeroinitializer':
        return ('zero',)
    if w == 'none':
        return ('zero',)
    if w == 'getelementptr':
        while True:
            if p.eatword('inbounds') or p.eatword('nuw') or p.eatword('nusw'):
                continue
            if p.peek('inrange('):
                p.i = p.s.index(')', p.i) + 1
                continue
            break
        p.need('(')
        st = parse_type(p)
        p.need(',')
        l = []
        while True:
            p.eatword('inrange')
            t = parse_type(p)
            v = parse_value(p, t)
            l.append((t, v))
            if p.eat(')'):
                break
            p.need(',')
        return ('gep', st, l[0][1], l[1:])
    if w in CASTS:
        p.eatword('nuw'); p.eatword('nneg')
        p.need('(')
        t = parse_type(p)
        v = parse_value(p, t)
        if not p.eatword('to'):
            raise IRError('cast')
        t2 = parse_type(p)
        p.need(')')
        return ('cast', w, t, v, t2)
    if w in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
        while p.eatword('nuw') or p.eatword('nsw'):
            pass
        p.need('(')
        t = parse_type(p)
        v = parse_value(p, t)
        p.need(',')
        t2 = parse_type(p)
        v2 = parse_value(p, t2)
        p.need(')')
        return ('bin', w, (t, v), (t2, v2))
    if w in ('dso_local_equivalent', 'no_cfi'):
        return parse_value(p, ty)
    raise IRError("value %r at %r" % (w, p.s[max(0, p.i - 60):p.i + 40]))


def parse_tvlist(p, close):
    r = []
    if p.eat(close):
        return r
    while True:
        t = parse_type(p)
        r.append((t, parse_value(p, t)))
        if p.eat(close):
            return r
        p.need(',')


# ---------------------------------------------------------------- module
class Global:
    def __init__(self, name, ty, init, const, extern):
        self.name, self.ty, self.init, self.const, self.extern = name, ty, init, const, extern


class Func:
    def __init__(self, name, ret, args, vararg):
        self.name, self.ret, self.args, self.vararg = name, ret, args, vararg
        self.blocks = []   # list of Block
        self.defined = False

    def sig(self):
        return (self.ret, tuple(t for t, _ in self.args))


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []      # list of Ins


class Ins:
    __slots__ = ('res', 'op', 'd', 'text')

    def __init__(self, res, op, d, text):
        self.res, self.op, self.d, self.text = res, op, d, text


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.ctors = []


_attrword = re.compile(
    r'(?:noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|writeonly|readnone|returned|immarg|'
    r'inreg|nest|noinline|writable|dead_on_unwind|allocptr|allocalign|swiftself|nofree|inalloca)\b')
_attrparen = re.compile(r'(?:dereferenceable|dereferenceable_or_null|align|sret|byval|memory|range|nofpclass|initializes|elementtype|byref|preallocated)\(')


def skip_attrs(p):
    byval = None
    while True:
        p.ws()
        m = _attrword.match(p.s, p.i)
        if m:
            p.i = m.end()
            continue
        m = _attrparen.match(p.s, p.i)
        if m:
            start = m.end()
            d = 1
            j = start
            while d:
                if p.s[j] == '(':
                    d += 1
                elif p.s[j] == ')':
                    d -= 1
                j += 1
            if p.s.startswith('byval', p.i):
                byval = parse_type(P(p.s[start:j - 1]))
            p.i = j
            continue
        m = re.compile(r'align \d+').match(p.s, p.i)
        if m:
            p.i = m.end()
            continue
        m = re.compile(r'"[^"]*"(="[^"]*")?').match(p.s, p.i)
        if m:
            p.i = m.end()
            continue
        break
    return byval


LINK = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'common', 'appending',
        'available_externally', 'extern_weak', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
        'local_unnamed_addr', 'unnamed_addr', 'thread_local', 'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail',
        'externally_initialized'}


def skip_link(p):
    ws = []
    while True:
        w = p.peekword()
        if w in LINK:
            p.eatword()
            ws.append(w)
            if w == 'thread_local' and p.peek('('):
                p.i = p.s.index(')', p.i) + 1
            continue
        m = re.compile(r'\s*comdat(\([^)]*\))?').match(p.s, p.i)
        if w == 'comdat' and m:
            p.i = m.end()
            continue
        break
    return ws


def strip_comment(l):
    # ';' outside of strings starts a comment
    if ';' not in l:
        return l
    q = False
    for i, c in enumerate(l):
        if c == '"':
            q = not q
        elif c == ';' and not q:
            return l[:i]
    return l


def parse_header(line):
    p = P(line)
    p.eatword()  # define/declare
    skip_link(p)
    skip_attrs(p)
    skip_link(p)
    skip_attrs(p)
    ret = parse_ret_type(p)
    p.need('@')
    name = parse_name(p)
    p.need('(')
    args = []
    va = False
    if not p.eat(')'):
        while True:
            if p.eat('...'):
                va = True
            else:
                t = parse_type(p)
                skip_attrs(p)
                nm = None
                if p.eat('%'):
                    nm = parse_name(p)
                args.append((t, nm))
            if p.eat(')'):
                break
            p.need(',')
    return Func(name, ret, args, va)


def parse_ret_type(p):
    # like parse_type, but "T @f(" / "T (args) %x" handled by the caller
    return parse_type(p)


def parse_module(text):
    m = Module()
    cur = None
    blk = None
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        i += 1
        if cur is None:
            if not l or l[0] in ';!':
                continue
            if l.startswith('%'):
                p = P(l, 1)
                nm = parse_name(p)
                p.need('=')
                p.eatword('type')
                m.types[nm] = parse_type(p)
                continue
            if l.startswith('@'):
                parse_global(m, strip_comment(l))
                continue
            if l.startswith('declare'):
                f = parse_header(l)
                m.funcs[f.name] = f
                continue
            if l.startswith('define'):
                f = parse_header(l)
                f.defined = True
                # unnamed arguments are numbered, and so is the entry block
                k = 0
                args = []
                for t, nm in f.args:
                    if nm is None:
                        nm = str(k)
                        k += 1
                    elif nm.isdigit():
                        k = int(nm) + 1
                    args.append((t, nm))
                f.args = args
                m.funcs[f.name] = f
                cur = f
                blk = Block(str(k))
                cur.blocks.append(blk)
                continue
            continue
        if l == '}':
            cur = None
            continue
        if not l.strip():
            continue
        if l[0] not in ' \t':
            if l[0] == ';':
                continue
            p = P(l)
            nm = parse_name(p)
            p.need(':')
            if len(cur.blocks) == 1 and not blk.ins:
                blk.name = nm
            else:
                blk = Block(nm)
                cur.blocks.append(blk)
            continue
        l = strip_comment(l)
        # switch spans several lines
        if l.rstrip().endswith('[') and ' switch ' in l:
            while ']' not in lines[i]:
                l += ' ' + strip_comment(lines[i])
                i += 1
            l += ' ' + strip_comment(lines[i])
            i += 1
        ins = parse_ins(l.strip())
        if ins is not None:
            blk.ins.append(ins)
    return m


def parse_global(m, l):
    p = P(l, 1)
    name = parse_name(p)
    p.need('=')
    link = skip_link(p)
    w = p.eatword()
    if w == 'alias':
        t = parse_type(p)
        p.need(',')
        t = parse_type(p)
        v = parse_value(p, t)
        m.globals[name] = Global(name, t, ('alias', v), True, False)
        return
    if w not in ('global', 'constant'):
        raise IRError('global ' + l[:100])
    t = parse_type(p)
    ext = 'external' in link or 'extern_weak' in link or 'available_externally' in link
    init = None
    if not ext:
        init = parse_value(p, t)
    if name == 'llvm.global_ctors':
        for tt, e in init[2]:
            prio = e[2][0][1][1]
            m.ctors.append((prio, e[2][1][1][1]))
        m.ctors.sort(key=lambda x: x[0])
        return
    if name.startswith('llvm.'):
        return
    m.globals[name] = Global(name, t, init, w == 'constant', ext)


_resre = re.compile(r'%("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*=\s*')
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTOPS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
           'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds',
         'disjoint', 'nneg', 'volatile', 'atomic', 'inrange', 'weak', 'samesign', 'nusw'}


def flags(p):
    r = []
    while True:
        w = p.peekword()
        if w in FLAGS:
            r.append(w)
            p.eatword()
        else:
            return r


def tv(p):
    t = parse_type(p)
    return (t, parse_value(p, t))


_mdre = re.compile(r'(, ![\w.]+ ![0-9]+)+$')


def parse_ins(l):
    l = _mdre.sub('', l)
    res = None
    mm = _resre.match(l)
    i = 0
    if mm:
        res = mm.group(1)
        if res[0] == '"':
            res = res[1:-1]
        i = mm.end()
    p = P(l, i)
    op = p.eatword()
    if op in ('tail', 'musttail', 'notail'):
        op = p.eatword()
    d = {}
    if op in BINOPS:
        d['flags'] = flags(p)
        t = parse_type(p)
        a = parse_value(p, t)
        p.need(',')
        b = parse_value(p, t)
        d.update(t=t, a=a, b=b)
    elif op == 'fneg':
        flags(p)
        d['t'], d['a'] = tv(p)
    elif op in CASTOPS:
        flags(p)
        d['t'], d['a'] = tv(p)
        p.eatword('to')
        d['t2'] = parse_type(p)
    elif op in ('icmp', 'fcmp'):
        flags(p)
        d['pred'] = p.eatword()
        t = parse_type(p)
        a = parse_value(p, t)
        p.need(',')
        d.update(t=t, a=a, b=parse_value(p, t))
    elif op == 'select':
        flags(p)
        d['c'] = tv(p)
        p.need(',')
        d['a'] = tv(p)
        p.need(',')
        d['b'] = tv(p)
    elif op == 'freeze':
        d['t'], d['a'] = tv(p)
    elif op == 'alloca':
        flags(p)
        d['t'] = parse_type(p)
        d['n'] = None
        if p.eat(','):
            if not p.peek('align'):
                d['n'] = tv(p)
    elif op == 'load':
        d['flags'] = flags(p)
        d['t'] = parse_type(p)
        p.need(',')
        d['p'] = tv(p)
    elif op == 'store':
        d['flags'] = flags(p)
        d['v'] = tv(p)
        p.need(',')
        d['p'] = tv(p)
    elif op == 'getelementptr':
        flags(p)
        d['t'] = parse_type(p)
        p.need(',')
        d['p'] = tv(p)
        idx = []
        while p.eat(','):
            idx.append(tv(p))
        d['idx'] = idx
    elif op == 'phi':
        flags(p)
        d['t'] = parse_type(p)
        inc = []
        while True:
            p.need('[')
            v = parse_value(p, d['t'])
            p.need(',')
            p.need('%')
            b = parse_name(p)
            p.need(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        d['inc'] = inc
    elif op == 'br':
        if p.eatword('label'):
            p.need('%')
            d['dest'] = [parse_name(p)]
        else:
            d['c'] = tv(p)
            p.need(',')
            p.eatword('label')
            p.need('%')
            a = parse_name(p)
            p.need(',')
            p.eatword('label')
            p.need('%')
            b = parse_name(p)
            d['dest'] = [a, b]
    elif op == 'switch':
        d['c'] = tv(p)
        p.need(',')
        p.eatword('label')
        p.need('%')
        d['def'] = parse_name(p)
        p.need('[')
        cases = []
        while not p.eat(']'):
            t, v = tv(p)
            p.need(',')
            p.eatword('label')
            p.need('%')
            cases.append((v, parse_name(p)))
        d['cases'] = cases
    elif op == 'ret':
        t = parse_type(p)
        d['t'] = t
        if t[0] != 'void':
            d['a'] = parse_value(p, t)
    elif op == 'unreachable':
        pass
    elif op == 'call':
        flags(p)
        skip_link(p)
        skip_attrs(p)
        flags(p)
        t = parse_type(p)  # may include function type
        if t[0] == 'func':
            t = t[1]
        d['t'] = t
        if p.peekword() in ('asm',):
            d['callee'] = ('asm',)
            d['args'] = []
            return Ins(res, op, d, l)
        d['callee'] = parse_value(p, ('ptr',))
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                at = parse_type(p)
                if at[0] == 'metadata':
                    # skip metadata operand
                    d['meta'] = True
                    return None
                bv = skip_attrs(p)
                args.append((at, parse_value(p, at)))
                if p.eat(')'):
                    break
                p.need(',')
        d['args'] = args
    elif op == 'extractvalue':
        d['a'] = tv(p)
        idx = []
        while p.eat(','):
            p.ws()
            if p.s[p.i] == '!':
                break
            idx.append(int(p.eatword()))
        d['idx'] = idx
    elif op == 'insertvalue':
        d['a'] = tv(p)
        p.need(',')
        d['v'] = tv(p)
        idx = []
        while p.eat(','):
            p.ws()
            if p.s[p.i] == '!':
                break
            idx.append(int(p.eatword()))
        d['idx'] = idx
    elif op == 'atomicrmw':
        flags(p)
        d['rmw'] = p.eatword()
        d['p'] = tv(p)
        p.need(',')
        d['v'] = tv(p)
    elif op == 'cmpxchg':
        flags(p)
        d['p'] = tv(p)
        p.need(',')
        d['c'] = tv(p)
        p.need(',')
        d['v'] = tv(p)
    elif op == 'fence':
        return None
    elif op in ('va_arg', 'invoke', 'landingpad', 'resume', 'indirectbr', 'extractelement', 'insertelement',
                'shufflevector'):
        raise IRError('unsupported instruction: ' + l)
    else:
        raise IRError('unknown instruction: ' + l)
    return Ins(res, op, d, l)
