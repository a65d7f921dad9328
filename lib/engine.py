"""Solver-based checks of the real code: clang -> LLVM IR -> C -> CBMC -> (replay on the natively compiled code)"""
import os, sys, re, json, subprocess, time, tempfile, shutil, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('V_REPO', '/repo')
sys.path.insert(0, HERE)
import ll, ll2c

JOBS = int(os.environ.get('V_JOBS', '8'))
STD_UBSAN = 'array-bounds,float-cast-overflow,integer-divide-by-zero,shift,bool,return,unreachable,signed-integer-overflow'


RUNNING = set()
STOP = False # one query found a violation, the others need not go on
DEADLINE = None # time at which a quick check stops


class Query:
    """One harness under one configuration.

    unwind: first loop bound, doubled up to unwind_max while unwinding assertions fail
    pointer: also check every pointer dereference
    threads: number of sequentialised threads (0: sequential); contexts: bound on context switches + 1
    yields: 'sync' preempts at the modelled calls, 'all' also before every access to shared memory
    expect_hang: a loop that does not end is a violation of the property (confirmed natively by a timeout)
    """

    def __init__(self, name, harness, defs=None, unwind=3, unwind_max=48, pointer=False, ubsan=True, threads=0,
                 contexts=6, yields='sync', timeout=250, flags=(), unwindset=None, covers=True, inline=False,
                 bound='', std='gnu++11', mods='', solver='--sat-solver cadical', object_bits=10, opt=None, native=True, hang=True,
                 replay_timeout=20, uninit=False, small=8):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.defs = dict(defs or {})


def sh(cmd, timeout=None, cwd=None, env=None, memlimit=None):
    t0 = time.time()
    pre = []
    if memlimit:
        pre = ['prlimit', '--as=%d' % memlimit]
    p = subprocess.Popen(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env)
    if memlimit:
        RUNNING.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t0
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return -999, '', 'timeout', time.time() - t0
    finally:
        RUNNING.discard(p)


DEFAULTS = {'MAX_DIMENSIONS': 4, 'THREADSAFE': None, 'THREADSAFE_MPI': None, 'USE_PTHREAD': None, 'ROUND_ROBIN': None, 'NDEBUG': None,
            'OMPI_SKIP_MPICXX': None, 'DEBUG_LEVEL': 0}
UNDEF = '__undef__'


def defargs(q):
    r = []
    d = dict(DEFAULTS)
    d.update(q.defs)
    for k, v in d.items():
        if v == UNDEF:
            continue
        r.append('-D%s' % k if v is None else '-D%s=%s' % (k, v))
    if q.threads:
        r.append('-DV_THREADS')
        r.append('-DV_MAXTHREADS=%d' % max(2, q.threads))
    return r


def incargs(native_stl=False):
    return ['-I%s/stubs' % VERIF, '-I%s/harness' % VERIF, '-isystem', '%s/stubs/stl' % VERIF,
            '-I%s' % REPO, '-I%s/include' % REPO, '-DV_REPO="%s"' % REPO]


class Failure(Exception):
    pass


YCALL = '  call void @v_yield()'


def instrument(text, names_re=r'v_thread_\d+'):
    """insert a scheduling point before every load/store of the thread functions that may touch shared memory"""
    m = ll.parse_module(text)
    out = []
    cur = None
    local = None
    for l in text.split('\n'):
        if l.startswith('define'):
            f = ll.parse_header(l)
            if re.fullmatch(names_re, f.name):
                cur = m.funcs[f.name]
                defs = {i.res: i for b in cur.blocks for i in b.ins if i.res}

                def root(v, d=0, defs=defs):
                    if d > 40:
                        return 'unknown'
                    if v[0] == 'local':
                        i = defs.get(v[1])
                        if i is None:
                            return 'arg'
                        if i.op == 'alloca':
                            return 'alloca'
                        if i.op == 'getelementptr':
                            return root(i.d['p'][1], d + 1)
                        if i.op in ('phi',):
                            rs = {root(x, d + 1) for x, _ in i.d['inc']}
                            return 'alloca' if rs == {'alloca'} else 'unknown'
                        return 'unknown'
                    return 'shared'
                local = root
            else:
                cur = None
        elif l == '}':
            cur = None
        elif cur is not None and re.search(r'^\s+(%[^=]+= load |store )', l):
            i = ll.parse_ins(ll.strip_comment(l).strip())
            pv = i.d['p'][1]
            const = False
            if pv[0] == 'global' and m.globals.get(pv[1]) is not None and m.globals[pv[1]].const:
                const = True
            if local(pv) != 'alloca' and not const:
                out.append(YCALL)
        out.append(l)
    if not re.search(r'^declare void @v_yield\(', text, re.M):
        out.append('declare void @v_yield()')
    return '\n'.join(out)


def build_ir(q, wd):
    src = os.path.join(VERIF, 'harness', q.harness)
    base = os.path.join(wd, q.name)
    cmd = ['clang++', '-std=' + q.std, '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions',
           '-fno-threadsafe-statics', '-ffp-contract=off', '-fno-vectorize', '-w', '-fno-access-control' if False else '-w',
           '-fno-builtin-printf', '-fno-math-errno']
    if q.ubsan:
        cmd += ['-fsanitize=' + (q.ubsan if isinstance(q.ubsan, str) else STD_UBSAN), '-fsanitize-trap=all']
    cmd += incargs() + defargs(q) + ['-DV_CBMC', src, '-o', base + '.0.ll']
    rc, o, e, t = sh(cmd, 120)
    if rc:
        raise Failure('compile: ' + ' '.join(cmd) + '\n' + e[:3000])
    txt = open(base + '.0.ll').read()
    keep = 'v_main,v_enabled,v_tid,' + ','.join('v_thread_%d' % k for k in range(8))
    passes = 'internalize,globaldce,function(sroa)'
    if q.threads or q.inline:
        defgroups = set(re.findall(r'^define [^\n]*?#(\d+)[^\n#]*\{$', txt, flags=re.M))
        callgroups = set(re.findall(r'^\s[^\n]*call [^\n]*#(\d+)', txt, flags=re.M))
        both = defgroups & callgroups
        if both:
            raise Failure('attribute groups shared by definitions and calls: %s' % both)

        def fix(mm):
            l = mm.group(0)
            if 'noinline' in l or re.match(r'attributes #(\d+)', l).group(1) not in defgroups:
                return l
            return l.replace('{', '{ alwaysinline', 1)
        txt = re.sub(r'^attributes #\d+ = \{.*$', fix, txt, flags=re.M)
        passes = 'internalize,globaldce,function(sroa,early-cse),always-inline,function(sroa,early-cse),always-inline,function(sroa,simplifycfg),globaldce'
    else:
        passes += ',globaldce'
    if q.opt:
        passes = q.opt
    open(base + '.1.ll', 'w').write(txt)
    rc, o, e, t = sh(['opt', '-S', '-passes=' + passes, '-internalize-public-api-list=' + keep, base + '.1.ll', '-o', base + '.ll'], 120)
    if rc:
        raise Failure('opt: ' + e[:2000])
    if q.threads and q.yields == 'all':
        txt = open(base + '.ll').read()
        open(base + '.ll', 'w').write(instrument(txt))
    return base


def translate(q, base):
    m = ll.parse_module(open(base + '.ll').read())
    t = ll2c.T2C(m)
    c = t.run()
    # yields must be in the thread functions themselves
    if q.threads:
        for f in t.order:
            if re.fullmatch(r'v_thread_\d+', f.name):
                continue
            for b in f.blocks:
                for i in b.ins:
                    if i.op == 'call' and i.d['callee'] in (('global', 'v_yield'), ('global', 'v_block'), ('global', 'v_wait')):
                        if f.name not in getattr(q, 'noyield_ok', ()) and reach_from_threads(t, f.name):
                            raise Failure('scheduling point inside a function that was not inlined: ' + f.name)
    open(base + '.c', 'w').write(c)
    return t


def reach_from_threads(t, name):
    seen = set()
    work = [f.name for f in t.order if re.fullmatch(r'v_thread_\d+', f.name)]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        f = t.m.funcs.get(n)
        if not f:
            continue
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'call':
                    if i.d['callee'][0] == 'global':
                        work.append(t.resolve_fn(i.d['callee'][1]))
                    else:
                        # any address taken function of that signature
                        key = (i.d['t'], tuple(x for x, _ in i.d['args']))
                        for a in t.addr_taken:
                            g = t.m.funcs.get(a)
                            if g is not None and g.defined and g.sig() == key:
                                work.append(a)
    return name in seen


HINTS_FILE = os.path.join(HERE, 'hints.json')
try:
    HINTS = json.load(open(HINTS_FILE))
except Exception:
    HINTS = {}


def cbmc_cmd(q, base, unwind, extra=(), loops=None):
    cmd = ['cbmc', base + '.c', '-I', HERE, '--no-standard-checks', '--unwinding-assertions', '--unwind', str(unwind),
           '--no-malloc-may-fail', '--object-bits', str(q.object_bits), '--json-ui', '--verbosity', '8']
    if '--trace' not in extra:
        cmd.append('--slice-formula')
    if q.small:
        cmd += ['-DV_SMALL=%d' % q.small]
    if q.pointer:
        cmd += ['--pointer-check']
    if q.threads:
        cmd += ['-DV_CONTEXTS=%d' % q.contexts, '--unwindset', 'rt_v_run_threads.0:%d,rt_v_run_threads.1:17' % (q.contexts + 2)]
    if loops:
        cmd += ['--unwindset', ','.join('%s:%d' % (k, v + 1) for k, v in sorted(loops.items()))]
    if q.solver:
        cmd += q.solver.split()
    cmd += list(q.flags) + list(extra)
    return cmd


def parse_json(out):
    try:
        j = json.loads(out)
    except Exception:
        # truncated output
        return None
    return j


def run_cbmc(q, base, unwind, extra=(), timeout=None, loops=None):
    timeout = timeout or q.timeout
    stopped = {'rc': -999, 'time': 0, 'props': None, 'err': 'LIMIT: stopped, another query found a violation', 'vars': 0, 'clauses': 0, 'steps': 0, 'solver_s': 0.0}
    if STOP:
        return stopped
    if DEADLINE:
        timeout = min(timeout, DEADLINE - time.time())
        if timeout < 3:
            return {'rc': -999, 'time': 0, 'props': None, 'err': 'LIMIT: out of time', 'vars': 0, 'clauses': 0, 'steps': 0, 'solver_s': 0.0}
    rc, o, e, t = sh(cbmc_cmd(q, base, unwind, extra, loops), timeout, memlimit=14 << 30)
    if STOP:
        return stopped
    j = parse_json(o) if o else None
    res = {'rc': rc, 'time': t, 'props': None, 'err': '', 'vars': 0, 'clauses': 0, 'steps': 0, 'solver_s': 0.0}
    if rc == -999:
        res['err'] = 'LIMIT: timeout after %ds' % timeout
        return res
    if j is None:
        res['err'] = '%sno output: rc=%d %s' % ('LIMIT: memory? ' if rc in (-9, 137, 6, -6, 134) or 'bad_alloc' in e + o or 'emory' in e + o else '', rc, (o[-500:] + e[-500:]))
        return res
    for x in j:
        mt = x.get('messageText', '')
        m = re.search(r'(\d+) variables, (\d+) clauses', mt)
        if m:
            res['vars'], res['clauses'] = max(res['vars'], int(m.group(1))), max(res['clauses'], int(m.group(2)))
        m = re.search(r'size of program expression: (\d+) steps', mt)
        if m:
            res['steps'] = int(m.group(1))
        m = re.search(r'Runtime (?:Solver|decision procedure): ([0-9.e-]+)s', mt)
        if m:
            res['solver_s'] += float(m.group(1)) if 'Solver' in mt else 0
        if x.get('messageType') == 'ERROR':
            res['err'] += mt + ' '
        if 'result' in x:
            res['props'] = x['result']
    if res['props'] is None and not res['err']:
        res['err'] = 'no result: ' + o[-600:]
    return res


def trace_values(prop):
    vals = []
    for s in prop.get('trace', []):
        if s.get('stepType') == 'input':
            iid = s.get('inputID')
            v = s['values'][0]
            b = v.get('binary')
            if b is not None:
                vals.append(int(b, 2))
            else:
                d = str(v.get('data'))
                vals.append(1 if d in ('TRUE', 'true') else int(re.sub(r'[^0-9-]', '', d) or 0))
    return vals


class Outcome:
    def __init__(self, q):
        self.q = q
        self.status = None      # 'ok', 'violation', 'error'
        self.msg = ''
        self.replay = None
        self.covers = {}
        self.nassert = 0
        self.info = {}
        self.queries = []       # (unwind, result, time)
        self.functions = []
        self.unknown = []
        self.witness_ok = 0
        self.decided = []


_native_lock = threading.Lock()


def native_build(q, wd, base, mode):
    """the real code compiled for the machine (threads: the same instrumented IR, with a coroutine scheduler)"""
    exe = base + '.native-' + mode
    if os.path.exists(exe):
        return exe
    rtflags = ['-DV_CONTEXTS=%d' % q.contexts]
    if q.threads:
        rtflags.append('-DV_NATIVE_THREADS')
        cmd = ['clang++', '-w', '-O0', '-g', base + '.ll', os.path.join(HERE, 'vrt.cpp')] + rtflags + ['-o', exe]
    else:
        src = os.path.join(VERIF, 'harness', q.harness)
        cmd = ['clang++', '-std=' + q.std, '-w', '-O0', '-g', '-fno-exceptions', '-fno-math-errno']
        if mode == 'asan':
            cmd += ['-fsanitize=address', '-ftrivial-auto-var-init=pattern']
            if q.ubsan:
                cmd += ['-fsanitize=' + (q.ubsan if isinstance(q.ubsan, str) else STD_UBSAN), '-fno-sanitize-recover=all']
        elif mode == 'msan':
            cmd += ['-fsanitize=memory']
        elif mode == 'zero':
            cmd += ['-ftrivial-auto-var-init=zero']
        cmd += incargs() + defargs(q) + [src, os.path.join(HERE, 'vrt.cpp')] + rtflags + ['-o', exe]
    rc, o, e, t = sh(cmd, 180)
    if rc:
        raise Failure('native build: ' + e[:2000])
    return exe


def native_run(q, exe, rfile, timeout=None):
    env = dict(os.environ)
    env['V_REPLAY'] = rfile
    env['ASAN_OPTIONS'] = 'detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=%d:handle_abort=1' % 0xbe
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=43'
    return sh(['prlimit', '--core=0', exe], timeout or q.replay_timeout, env=env)


def write_replay(q, path, desc, vals, hang=False):
    with open(path, 'w') as f:
        f.write('# harness %s  query %s\n# defines %s\n# violated: %s\n' % (q.harness, q.name, ' '.join(defargs(q)), desc))
        f.write('# solver values in the order in which the harness draws them (bit patterns)\n')
        for v in vals:
            f.write('%d\n' % v)


def confirm(q, wd, base, prop, out):
    """replays one failed property natively; returns (confirmed, text)"""
    desc = prop.get('description', '')
    vals = trace_values(prop)
    rf = os.path.join(wd, '%s.%s.replay' % (q.name, re.sub(r'\W', '_', prop['property'])))
    write_replay(q, rf, desc, vals)
    isunw = 'unwinding assertion' in desc
    log = ''
    for mode in (['plain'] if q.threads else ['asan', 'msan', 'zero']):
        try:
            exe = native_build(q, wd, base, mode)
        except Failure as ex:
            log += str(ex)
            continue
        rc, o, e, t = native_run(q, exe, rf)
        log += '[%s] exit %s: %s %s\n' % (mode, rc, o[-300:], e[:1500])
        if isunw:
            if rc == -999 or 'stack-overflow' in e or rc == -14:
                return True, rf, log + 'does not end'
            if rc == 42 or (rc not in (0, 77, 78) and 'Sanitizer' in e):
                return True, rf, log
            continue
        if rc == 42:
            return True, rf, log
        if rc == -999 or rc == -14:
            return True, rf, log + 'native run does not end'
        if rc not in (0, 77, 78, 42):
            return True, rf, log
    return False, rf, log


def run_query(q, wd):
    out = Outcome(q)
    t0 = time.time()
    try:
        base = build_ir(q, wd)
        tr = translate(q, base)
    except (Failure, ll.IRError) as ex:
        out.status, out.msg = 'error', '%s: %s' % (q.name, ex)
        return out
    out.functions = [f.name for f in tr.order]
    out.unknown = sorted(tr.unknown)
    unwind = q.unwind
    known = set(re.findall(r'^(?:static )?[^\n;={}]*?\b((?:F|rt)_\w+)\(', open(base + '.c').read() + open(os.path.join(HERE, 'rt.h')).read(), flags=re.M))
    loops = {k: v for k, v in HINTS.get(q.name, {}).items() if k.rsplit('.', 1)[0] in known}
    out.loops = loops
    while True:
        r = run_cbmc(q, base, unwind, loops=loops)
        out.queries.append({'unwind': unwind, 'time': round(r['time'], 2), 'solver_s': round(r['solver_s'], 3), 'vars': r['vars'],
                            'clauses': r['clauses'], 'steps': r['steps'], 'err': r['err']})
        if r['props'] is None:
            out.status, out.msg = 'limit' if r['err'].startswith('LIMIT') else 'error', '%s (unwind %d): %s' % (q.name, unwind, r['err'])
            return out
        bad, unw, cap, undecided, small = [], [], [], [], []
        out.covers = {}
        out.nassert = 0
        for p in r['props']:
            d = p.get('description', '')
            fail = p['status'] == 'FAILURE'
            if p['status'] == 'UNKNOWN':
                undecided.append(p)
            elif p['status'] not in ('SUCCESS', 'FAILURE'):
                out.status, out.msg = 'error', '%s: %s is %s' % (q.name, d, p['status'])
                return out
            if d.startswith('COVER '):
                out.covers[d[6:]] = out.covers.get(d[6:], False) or fail
                continue
            out.nassert += 1
            if not fail:
                continue
            if 'unwinding assertion' in d or 'recursion unwinding' in d:
                unw.append(p)
            elif d.startswith('CAPDIV:'):
                small.append(p)
            elif d.startswith('CAP:'):
                cap.append(p)
            else:
                bad.append(p)
        out.decided = [(p['property'], p.get('description', ''), p['status']) for p in r['props']]
        if small:
            q.small = q.small * 2 if q.small < 32 else 0
            continue
        if bad:
            break
        if not unw and not cap:
            if undecided:
                out.status, out.msg = 'error', '%s: %s is undecided' % (q.name, undecided[0]['description'])
                return out
            break
        if cap:
            q.defs['V_CAP'] = int(q.defs.get('V_CAP', 8)) * 2
            if q.defs['V_CAP'] > 64:
                out.status, out.msg = 'error', '%s: model capacity exceeded: %s' % (q.name, cap[0]['description'])
                return out
            try:
                base = build_ir(q, wd)
                tr = translate(q, base)
            except (Failure, ll.IRError) as ex:
                out.status, out.msg = 'error', str(ex)
                return out
        if unw:
            over = []
            for p in unw:
                l = re.sub(r'\.unwind\.(\d+)$', r'.\1', p['property'])
                if '.recursion' in p['property']:
                    l = re.sub(r'\.recursion.*$', '', p['property'])
                cur = loops.get(l, unwind)
                if cur >= q.unwind_max:
                    over.append(p)
                loops[l] = min(max(cur + 1, int(cur * 1.6)), q.unwind_max)
            if over:
                if q.hang:
                    bad = over
                    break
                out.status, out.msg = 'error', '%s: loop bound %d not enough: %s' % (q.name, q.unwind_max, over[0]['property'])
                return out
    out.unwind = unwind
    if not bad:
        missed = [c for c, ok in out.covers.items() if not ok]
        if missed and q.covers:
            out.status, out.msg = 'error', '%s: vacuous, never reached: %s' % (q.name, ', '.join(missed))
            return out
        if not out.covers and q.covers:
            out.status, out.msg = 'error', '%s: no reachability witness' % q.name
            return out
        out.status = 'ok'
        return out
    # counterexamples: get traces, confirm on the real code
    logs = ''
    for p in bad[:4]:
        r = run_cbmc(q, base, unwind, ['--trace', '--property', p['property']], loops=loops)
        if r['props'] is None:
            logs += 'no trace for %s: %s\n' % (p['property'], r['err'])
            continue
        pp = [x for x in r['props'] if x['property'] == p['property'] and x['status'] == 'FAILURE']
        if not pp:
            logs += 'no trace for %s\n' % p['property']
            continue
        if q.native:
            ok, rf, log = confirm(q, wd, base, pp[0], out)
        else:
            ok, rf, log = True, os.path.join(wd, q.name + '.replay'), 'not replayed natively'
            write_replay(q, rf, p['description'], trace_values(pp[0]))
        if ok:
            out.status = 'violation'
            out.msg = '%s: %s (%s)' % (q.name, p['description'], p['property'])
            out.replay = rf
            out.log = log
            return out
        logs += 'not reproduced: %s %s\n%s' % (p['property'], p['description'], log)
    out.status = 'error'
    out.msg = '%s: counterexample not reproduced on the real code: %s' % (q.name, logs[:3000])
    return out


def witness(q, wd, out):
    """replay one reachability witness of the query natively: the encoding and the real code agree on it"""
    base = os.path.join(wd, q.name)
    cov = [(pid, d) for pid, d, s in out.decided if d.startswith('COVER ') and s == 'FAILURE']
    if not cov:
        return None
    pid, d = cov[-1]
    r = run_cbmc(q, base, out.unwind, ['--trace', '--property', pid], loops=out.loops)
    pp = [x for x in r['props'] or [] if x['property'] == pid and x['status'] == 'FAILURE']
    if not pp:
        return None
    vals = trace_values(pp[0])
    rf = os.path.join(wd, q.name + '.witness')
    write_replay(q, rf, d, vals)
    exe = native_build(q, wd, base, 'plain' if q.threads else 'asan')
    rc, o, e, t = native_run(q, exe, rf)
    ok = ('reached: ' + d[6:]) in o
    return {'witness': d[6:], 'values': vals[:24], 'reached_natively': ok, 'native': (o + e)[-200:] if not ok else ''}


def check(pid, title, queries, tier=None, level='other', assumptions=(), explanation='', findings=(), witnesses=2, known=None):
    """Runs the queries of a property, prints the verdict, writes the evidence, returns the exit code"""
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    global DEADLINE
    if tier == 'quick' and not os.environ.get('V_LEARN'):
        DEADLINE = t0 + 780
    wd = tempfile.mkdtemp(prefix='verif-%s-' % pid)

    def one(q):
        global STOP
        o = run_query(q, wd)
        if o.status == 'violation':
            STOP = True
            for p in list(RUNNING):
                try:
                    p.kill()
                except OSError:
                    pass
        return o
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            outs = list(ex.map(one, queries))
        wit = []
        if all(o.status in ('ok', 'limit') for o in outs) and witnesses:
            sel = sorted([o for o in outs if o.status == 'ok'], key=lambda o: sum(x['time'] for x in o.queries))
            seenh = set()
            pick = []
            for o in sel:
                if o.q.harness not in seenh and o.q.native and o.covers:
                    seenh.add(o.q.harness)
                    pick.append(o)
            with ThreadPoolExecutor(JOBS) as ex:
                wit = [w for w in ex.map(lambda o: witness(o.q, wd, o), pick[:witnesses]) if w]
        rc = 0
        viol = [o for o in outs if o.status == 'violation']
        errs = [o for o in outs if o.status == 'error']
        limits = [o for o in outs if o.status == 'limit']
        for o in limits:
            print('UNDECIDED property=%s: %s' % (pid, o.msg))
        reported = []
        for o in viol:
            dst = os.path.join(VERIF, 'evidence', 'replay', pid)
            os.makedirs(dst, exist_ok=True)
            path = os.path.join(dst, os.path.basename(o.replay))
            shutil.copy(o.replay, path)
            with open(path, 'a') as f:
                for l in (o.log or '').split('\n'):
                    f.write('# %s\n' % l)
            reported.append((o, path))
        for o, path in reported:
            print('counterexample: %s' % o.msg)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
        if not rc:
            badw = [w for w in wit if not w['reached_natively']]
            for w in badw:
                print('ERROR property=%s: witness not reproduced natively: %s %s' % (pid, w['witness'], w['native']))
                rc = 2
            for o in errs:
                print('ERROR property=%s: %s' % (pid, o.msg))
                rc = 2
            if limits and not any(o.status == 'ok' for o in outs):
                print('ERROR property=%s: no query was decided within the limits of time and memory' % pid)
                rc = 2
        else:
            for o in errs:
                print('note: %s' % o.msg[:600])
        fns = sorted({f for o in outs for f in o.functions})
        dem = demangle(fns)
        src = sorted({d for d in dem if is_repo_fn(d)})
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': {
                'explanation': explanation or ('Bounded symbolic execution of the real code (clang IR translated to C, CBMC decides every '
                                               'assertion for all values within the bounds).'),
                'functions_encoded': src,
                'queries': sum(len(o.queries) for o in outs),
                'harness_configurations': len(outs),
                'assertions_decided': sum(o.nassert for o in outs),
                'reachability_witnesses': sum(sum(o.covers.values()) for o in outs if o.covers),
                'traces_validated_against_impl': sum(1 for w in wit if w['reached_natively']),
                'solver_time_s': round(sum(x['solver_s'] for o in outs for x in o.queries), 2),
                'cbmc_time_s': round(sum(x['time'] for o in outs for x in o.queries), 2),
                'sat_variables_max': max([x['vars'] for o in outs for x in o.queries] + [0]),
                'sat_clauses_max': max([x['clauses'] for o in outs for x in o.queries] + [0]),
                'bounds': [{'query': o.q.name, 'harness': o.q.harness, 'defines': {k: str(v) for k, v in o.q.defs.items()},
                            'unwind': getattr(o, 'unwind', None), 'loops': {demangle([k[2:].rsplit('.', 1)[0]])[0]: v for k, v in getattr(o, 'loops', {}).items()}, 'threads': o.q.threads, 'contexts': o.q.contexts if o.q.threads else None,
                            'bound': o.q.bound, 'result': o.status, 'assertions': o.nassert, 'time_s': round(sum(x['time'] for x in o.queries), 2)} for o in outs],
                'unmodelled_calls_returning_any_value': sorted({u for o in outs for u in o.unknown}),
                'samples': wit[:3],
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(viol),
            'undecided': [o.msg for o in limits],
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if os.environ.get('V_LEARN') and not rc:
            with open(HINTS_FILE + '.lock', 'w') as lk:
                import fcntl
                fcntl.flock(lk, fcntl.LOCK_EX)
                try:
                    h = json.load(open(HINTS_FILE))
                except Exception:
                    h = {}
                for o in outs:
                    if o.loops:
                        h[o.q.name] = o.loops
                with open(HINTS_FILE, 'w') as f:
                    json.dump(h, f, indent=0, sort_keys=True)
            os.unlink(HINTS_FILE + '.lock')
        for l in findings:
            if rc == 0:
                print(l)
        print('property=%s tier=%s queries=%d assertions=%d wall=%.1fs -> %s' % (pid, tier, ev['coverage']['queries'], ev['coverage']['assertions_decided'], ev['wall_s'], {0: 'holds within the bounds' + (', %d queries undecided' % len(limits) if limits else ''), 1: 'VIOLATED', 2: 'no answer'}[rc]))
        return rc
    finally:
        if not os.environ.get('V_KEEP'):
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print('kept', wd)


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode().split('\n')


def is_repo_fn(d):
    m = re.sub(r'<.*', '', d)
    return bool(re.match(r'(?:[\w: *&]+ )?(cache|grid|types|io|mpi|numa|threads|transfer|perf|allocator|magic|fortran|asagi)::', d)) or d.startswith(('asagi_', 'grid_'))
