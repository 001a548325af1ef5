#!/usr/bin/env python3
"""Contract verification driver: vc.py check <PROPERTY> [--unit NAME] [--jobs N]

For every proof unit of the property: preprocess the harness (which #includes the
real source files from /repo's working tree), compile with goto-cc, optionally
instrument contracts with goto-instrument --dfcc, discharge all obligations with
cbmc, check reachability markers (vacuity guard), and turn any failed obligation
into a replayable counterexample."""
import sys, os, re, json, time, subprocess, shutil, tempfile, resource, importlib.util
from concurrent.futures import ThreadPoolExecutor, as_completed
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
INC = ['-I' + VERIF + '/include', '-I' + REPO, '-I' + REPO + '/include',
       '-I' + REPO + '/include/compat/gcc', '-I' + REPO + '/include/dav1d', '-I' + REPO + '/tools']
END = time.time() + float(os.environ.get('VF_BUDGET', '850' if TIER == 'quick' else '7200'))
DEADLINE = END - 60  # for the solvers; the rest is for replays
NO_VERDICT_IS_ERROR = bool(os.environ.get('VF_NO_SEARCH'))
MEM_LIMIT = int(os.environ.get('VF_MEM_GB', '12')) << 30

CHECK_FLAGS = {
    # machine-safety obligations generated by cbmc on the real code
    'std': [],
    'mem': ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check'],
    'nosign': ['--no-signed-overflow-check', '--no-undefined-shift-check'],
    'noshift': ['--no-undefined-shift-check'],
    'none': ['--no-standard-checks'],
}


class ToolError(Exception):
    pass


def lim():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    os.setpgid(0, 0)


PROCS = set()
STOP = threading.Event()


def run(cmd, timeout, cwd=None, env=None, limit=True):
    t = time.time()
    if STOP.is_set():
        raise ToolError('cancelled')
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=lim if limit else (lambda: os.setpgid(0, 0)))
    PROCS.add(p)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = 'timeout'
    finally:
        PROCS.discard(p)
    return rc, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t


class Unit:
    def __init__(self, prop, d, pdir):
        self.prop = prop
        self.d = dict(solver='sat', unwind=None, mode='plain', defs=[], checks='std', timeout=600,
                      replace=[], enforce=None, flags=[], iflags=[], srcs=[], native_srcs=[],
                      nobody=[], bounded=None, tier='quick', funcs=[], note=None, weight=1,
                      loops=False, replay=True, assumptions=[], sed=[], gcc=[], unwindset=None,
                      entry='harness', retry=None)
        self.d.update(d)
        self.__dict__.update(self.d)
        self.pdir = pdir

    def harness_path(self):
        return os.path.join(self.pdir, self.harness)


def preprocess(src, out, u):
    cmd = ['gcc', '-E', '-std=gnu11', '-D__CPROVER__', '-D_GNU_SOURCE', '-D_FILE_OFFSET_BITS=64'] + INC + ['-I' + u.pdir] + ['-D' + x for x in u.defs] + u.gcc + [src]
    rc, o, e, _ = run(cmd, 60)
    if rc != 0:
        raise ToolError('preprocessing failed: ' + e[-2000:])
    # the only textual change to the verified source: top-level const on pointer
    # declarators is dropped (goto-cc rejects writes through `mv *const p`)
    o = re.sub(r'\*[ ]*const\b', '*', o)
    for a, b in u.sed:
        o = re.sub(a, b, o)
    open(out, 'w').write(o)


def build(u, wd):
    objs = []
    for i, s in enumerate([u.harness_path()] + [os.path.join(REPO, x) for x in u.srcs]):
        pi = os.path.join(wd, 'u%d.i' % i)
        preprocess(s, pi, u)
        po = os.path.join(wd, 'u%d.gb' % i)
        rc, o, e, _ = run(['goto-cc', '-c', pi, '-o', po], 120)
        if rc != 0:
            raise ToolError('goto-cc failed: ' + (o + e)[-3000:])
        objs.append(po)
    gb = os.path.join(wd, 'a.gb')
    rc, o, e, _ = run(['goto-cc', '--function', u.entry] + objs + ['-o', gb], 120)
    if rc != 0:
        raise ToolError('goto-cc link failed: ' + (o + e)[-3000:])
    if u.iflags:
        gb2 = os.path.join(wd, 'a2.gb')
        rc, o, e, _ = run(['goto-instrument'] + u.iflags + [gb, gb2], 300)
        if rc != 0:
            raise ToolError('goto-instrument failed: ' + (o + e)[-3000:])
        gb = gb2
    if u.mode == 'dfcc':
        gb2 = os.path.join(wd, 'b.gb')
        cmd = ['goto-instrument', '--dfcc', u.entry, '--enforce-contract', u.enforce]
        for r in u.replace:
            cmd += ['--replace-call-with-contract', r]
        if u.loops:
            cmd += ['--apply-loop-contracts']
        rc, o, e, _ = run(cmd + [gb, gb2], 300)
        if rc != 0:
            raise ToolError('goto-instrument --dfcc failed: ' + (o + e)[-3000:])
        gb = gb2
    else:
        # drop initialisers of tables no reachable function reads
        gb2 = os.path.join(wd, 'c.gb')
        rc, o, e, _ = run(['goto-instrument', '--drop-unused-functions', '--slice-global-inits', gb, gb2], 300)
        if rc == 0:
            gb = gb2
    return gb


def cbmc_cmd(u, gb, unwind, extra):
    cmd = ['cbmc', gb] + (['--json-ui'] if '--trace' in extra else []) + ['--drop-unused-functions', '--slice-formula', '--verbosity', '6'] + CHECK_FLAGS[u.checks] + u.flags
    if u.mode == 'dfcc' and '--object-bits' not in u.flags:
        cmd += ['--object-bits', '12']
    if unwind:
        cmd += ['--unwind', str(unwind), '--unwinding-assertions']
    if u.unwindset:
        cmd += ['--unwindset', u.unwindset]
    s = u.solver
    if s == 'cvc5':
        cmd += ['--cvc5']
    elif s == 'kissat':
        cmd += ['--external-sat-solver', 'kissat']
    elif s == 'z3':
        cmd += ['--z3']
    if '--trace' in extra:
        cmd.remove('--slice-formula')  # slicing would drop inputs from the trace
    return cmd + extra


def parse(o):
    try:
        js = json.loads(o)
    except Exception:
        # a killed solver can truncate the array
        raise ToolError('unparsable cbmc output: ' + o[-600:])
    res, msgs, status = None, [], None
    for x in js:
        if 'result' in x:
            res = x['result']
        if 'messageText' in x:
            msgs.append((x.get('messageType', ''), x['messageText']))
        if 'cProverStatus' in x:
            status = x['cProverStatus']
    return res, msgs, status


LINE = re.compile(r'^\[([^\]\s]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR|NOT CHECKED|INCONCLUSIVE)$')
HEAD = re.compile(r'^(\S+) function (\S+)$')


def parse_text(o, e):
    """results of a plain-text run (the JSON output builds a trace per failed obligation, which is slow)"""
    res, msgs, f, fn = None, [], '?', ''
    for l in (o + '\n' + e).split('\n'):
        if l.startswith('** Results:'):
            res = []
        m = HEAD.match(l)
        if m:
            f, fn = m.group(1), m.group(2)
        m = LINE.match(l)
        if m and res is not None:
            res.append(dict(property=m.group(1), description=m.group(3), status=m.group(4), sourceLocation=dict(file=f, line=m.group(2) or '?', function=fn)))
        if 'no body for' in l or 'rror' in l or 'WARNING' in l:
            msgs.append(('', l))
    if '\nVERIFICATION ' not in o:
        res = None
    return res, msgs


def solve(u, gb, extra=[], unwind=None):
    left = min(u.timeout, DEADLINE - time.time())
    cmd = cbmc_cmd(u, gb, unwind or u.unwind, extra)
    rc, o, e, t = run(cmd, left)
    if rc == 'timeout':
        raise ToolError('solver time limit (%ds) reached' % int(left))
    if '--trace' in extra:
        res, msgs, status = parse(o)
    else:
        res, msgs = parse_text(o, e)
    if res is None:
        raise ToolError('cbmc gave no result: ' + '\n'.join(m for _, m in msgs)[-1500:] + e[-500:])
    return res, msgs, t, ' '.join(cmd)


def cval(v):
    """JSON trace value -> C initialiser"""
    n = v.get('name')
    if n == 'struct':
        parts = []
        for m in v.get('members', []):
            if m['name'].startswith('$pad'):
                continue
            if re.match(r'^\$anon|^#anon', m['name']):
                parts.append(cval(m['value']))
            else:
                parts.append('.%s = %s' % (m['name'], cval(m['value'])))
        return '{' + ', '.join(parts) + '}' if parts else '{0}'
    if n == 'union':
        m = v.get('member') or (v.get('members') or [None])[0]
        if m is None:
            return '{0}'
        if re.match(r'^\$anon|^#anon', m['name']):
            return '{' + cval(m['value']) + '}'
        return '{.%s = %s}' % (m['name'], cval(m['value']))
    if n == 'array':
        els = v.get('elements', [])
        if not els:
            return '{0}'
        return '{' + ', '.join(cval(e['value']) for e in els) + '}'
    if n == 'pointer':
        return '0'
    if n == 'boolean':
        return '1' if v.get('data') else '0'
    if n in ('integer', 'float') or 'binary' in v:
        b = v.get('binary')
        if b is not None:
            w = int(v.get('width', len(b)))
            x = int(b, 2)
            if 'unsigned' not in v.get('type', '') and 'uint' not in v.get('type', '') and '_Bool' not in v.get('type', '') and b[0] == '1' and v.get('type') != 'char*':
                x -= 1 << w
            if n == 'float':
                import struct as st
                if w == 64:
                    return repr(st.unpack('>d', int(b, 2).to_bytes(8, 'big'))[0])
                return repr(st.unpack('>f', int(b, 2).to_bytes(4, 'big'))[0])
            if x < 0:
                return '(%d - 1)' % (x + 1) if w <= 32 else '(%dLL - 1)' % (x + 1)
            return '%dULL' % x if w > 32 else ('%dU' % x if x > 0x7fffffff else '%d' % x)
        return str(v.get('data', 0))
    return '0'


def tape_of(trace):
    decl, names, types = [], [], []
    for s in trace:
        if s.get('stepType') != 'input':
            continue
        iid = s.get('inputID', '')
        if not iid.startswith('vf:'):
            continue
        t = iid[3:]
        vals = s.get('values', [])
        iv = cval(vals[0]) if vals else '{0}'
        k = len(names)
        decl.append('static const %s vf_t%d = %s;' % (t, k, iv))
        names.append('&vf_t%d' % k)
        types.append('"%s"' % t)
    return decl, names, types


def replay(u, rdir, trace, unit_name):
    """write the counterexample as a native program input, compile the harness
    against the real sources and run it.  Returns (reproduced, text)."""
    decl, names, types = tape_of(trace)
    tp = os.path.join(rdir, 'tape.h')
    with open(tp, 'w') as f:
        f.write('\n'.join(decl) + '\n')
        f.write('const void *const vf_tape[] = {%s};\n' % ', '.join(names + ['0']))
        f.write('const char *const vf_tape_t[] = {%s};\n' % ', '.join(types + ['0']))
        f.write('const int vf_tape_n = %d;\n' % len(names))
    mc = os.path.join(rdir, 'replay.c')
    with open(mc, 'w') as f:
        f.write('/* replay of a verifier counterexample on the real code */\n#define VF_NATIVE 1\n#define _GNU_SOURCE\n#include "%s"\n#include "tape.h"\nint main(void) { %s(); return 0; }\n' % (u.harness_path(), u.entry))
    exe = os.path.join(rdir, 'replay')
    cmd = native_cmd(u, rdir, mc, exe, ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment'])
    sh = os.path.join(rdir, 'replay.sh')
    with open(sh, 'w') as f:
        f.write('#!/bin/sh\n# rebuilds and reruns this counterexample against /repo\ncd "$(dirname "$0")"\n' + ' '.join(cmd) + ' && ./replay\n')
    os.chmod(sh, 0o755)
    rc, o, e, _ = run(cmd, 120, limit=False)
    if rc != 0:
        return False, 'native replay does not compile:\n' + e[-1500:]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
    rc, o, e, _ = run([exe], 60, limit=False, env=env, cwd=rdir)
    try:
        os.unlink(exe)
    except OSError:
        pass
    txt = 'exit=%s\n%s\n%s' % (rc, o[-1500:], e[-3000:])
    if rc == 'timeout':
        return 'hang' , txt
    if rc == 77 or rc == 0:
        return False, txt
    return True, txt


def check_unit(u, tmp):
    r = dict(unit=u.name, funcs=u.funcs, mode=u.mode, solver=u.solver, status='error', obligations=0, discharged=0,
             solver_s=0.0, reach=0, bounded=u.bounded, enforce=u.enforce, replaced=u.replace, failed=[])
    t0 = time.time()
    try:
        if DEADLINE - time.time() < 5:
            raise ToolError('time budget exhausted')
        wd = os.path.join(tmp, u.name)
        os.makedirs(wd, exist_ok=True)
        gb = build(u, wd)
        unwind = u.unwind
        for attempt in range(3):
            res, msgs, t, cmd = solve(u, gb, unwind=unwind)
            r['solver_s'] += t
            r['cmd'] = cmd
            nb = sorted({re.search(r"no body for (?:function|callee) '?([\w$:.]+)", m).group(1) for _, m in msgs
                         if re.search(r"no body for (?:function|callee) '?([\w$:.]+)", m)})
            bad = [x for x in nb if x not in u.nobody]
            if bad:
                raise ToolError('called functions outside the contracts of this unit: ' + ', '.join(bad))
            unw = [x for x in res if x['status'] == 'FAILURE' and ('unwinding assertion' in x.get('description', '') or 'recursion unwinding' in x.get('description', ''))]
            other = [x for x in res if x['status'] == 'FAILURE' and x not in unw and not x.get('description', '').startswith('reach:')]
            if unw and not other and u.unwind and not u.bounded:
                unwind = unwind * 2 + 8
                continue
            break
        reach = [x for x in res if x.get('description', '').startswith('reach:')]
        obl = [x for x in res if x not in reach]
        r['obligations'] = len(obl)
        r['discharged'] = sum(x['status'] == 'SUCCESS' for x in obl)
        r['reach'] = len(reach)
        r['names'] = [x.get('description', '') for x in obl if x.get('description', '').startswith('ensures:') or 'Check' in x.get('description', '')]
        unk = [x for x in obl if x['status'] not in ('SUCCESS', 'FAILURE')]
        fails = [x for x in obl if x['status'] == 'FAILURE']
        real = [x for x in fails if x not in unw]
        if real:
            def prio(x):
                d = x.get('description', '')
                return 0 if d.startswith('ensures:') else 1 if d.startswith('Check ensures') else 2
            real.sort(key=prio)
            r['status'] = 'fail'
            r['failed'] = [dict(property=x['property'], description=x.get('description', ''),
                                location=x.get('sourceLocation', {})) for x in real]
            r['_u'], r['_gb'], r['_unwind'] = u, gb, unwind
        elif unw:
            raise ToolError('loop bound of this proof no longer covers the code: ' + '; '.join(
                '%s %s' % (x.get('property'), x.get('sourceLocation', {}).get('line', '')) for x in unw[:4]))
        elif unk:
            raise ToolError('undecided obligations: ' + ', '.join(x['property'] for x in unk[:5]))
        else:
            if not obl:
                raise ToolError('vacuous: no obligations generated')
            dead = [x['description'] for x in reach if x['status'] != 'FAILURE']
            if dead:
                raise ToolError('vacuous: unreachable marker(s) ' + ', '.join(dead))
            if not reach and not u.d.get('noreach'):
                raise ToolError('vacuous: no reachability marker')
            r['status'] = 'ok'
    except ToolError as ex:
        r['error'] = str(ex)
        r['_u'] = u
    r['wall'] = time.time() - t0
    return r


def native_cmd(u, rdir, mc, exe, san):
    """gcc command lines for the harness; textual substitutions of the unit are applied here too"""
    base = ['gcc', '-std=gnu11', '-g', '-O1', '-w'] + san + ['-D_FILE_OFFSET_BITS=64', '-D__has_attribute(x)=0', '-I' + rdir] + INC + ['-I' + u.pdir] + ['-D' + x for x in u.defs] + u.gcc
    tail = [os.path.join(REPO, s) for s in u.srcs + u.native_srcs] + ['-Wl,--unresolved-symbols=ignore-all', '-lpthread', '-lm', '-ldl', '-o', exe]
    if not u.sed:
        return base + [mc] + tail
    rc, o, e, _ = run(base + ['-E', mc], 60, limit=False)
    for a, b in u.sed:
        o = re.sub(a, b, o)
    pi = mc[:-2] + '_pp.c'
    open(pi, 'w').write(re.sub(r'(?m)^# .*$', '', o))
    return base + [pi] + tail


def search(u, rdir, secs):
    """the verifier gave no counterexample: run the same contract natively on the real code with random inputs.
    Only an obligation that fails in such a run counts; returns (found, text)."""
    mc = os.path.join(rdir, 'search.c')
    with open(mc, 'w') as f:
        f.write('/* random inputs for an obligation the verifier did not discharge */\n#define VF_NATIVE 1\n#define VF_SEARCH 1\n#define _GNU_SOURCE\n#include "%s"\nint main(int c, char **v) { return vf_search(c, v, %s); }\n' % (u.harness_path(), u.entry))
    exe = os.path.join(rdir, 'search')
    cmd = native_cmd(u, rdir, mc, exe, [])
    rc, o, e, _ = run(cmd, 120, limit=False)
    if rc != 0:
        return False, 'native search does not compile:\n' + e[-800:]
    with open(os.path.join(rdir, 'replay.sh'), 'w') as f:
        f.write('#!/bin/sh\n# repeats the search on the real code; prints the seed that fails\ncd "$(dirname "$0")"\n' + ' '.join(cmd) + ' && ./search %d 1 "$@"\n' % secs)
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda k: run([exe, str(secs), str(1 + k * 100000007)], secs + 30, limit=False), range(6)))
    try:
        os.unlink(exe)
    except OSError:
        pass
    for rc, o, e, _ in outs:
        if rc == 66:
            return True, (o + e)[-3000:]
    return False, 'no failing input found by the native search\n' + (outs[0][1] + outs[0][2])[-300:]


def no_answer(pid, r):
    """obligations left undischarged without a counterexample"""
    u = r['_u']
    rdir = os.path.join(VERIF, 'evidence', 'replay', pid, u.name)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    text = ['property %s unit %s' % (pid, u.name), 'functions under contract: ' + ', '.join(u.funcs),
            'obligations not discharged: ' + r.get('error', ''), 'verifier command: ' + r.get('cmd', '(none)')]
    ok = False
    left = END - time.time() - 15
    if u.replay and left > 10:
        ok, out = search(u, rdir, int(min(30, left - 5)))
        text.append('native search: %s\n%s' % ('FAILING INPUT FOUND' if ok else 'nothing found', out))
    p = os.path.join(rdir, 'report.txt')
    open(p, 'w').write('\n'.join(text) + '\n')
    return p, ok


def make_replay(pid, r):
    u, gb, unwind = r['_u'], r['_gb'], r['_unwind']
    rdir = os.path.join(VERIF, 'evidence', 'replay', pid, u.name)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    text = ['property %s unit %s' % (pid, u.name), 'functions under contract: ' + ', '.join(u.funcs), 'failed obligations:']
    for f in r['failed']:
        loc = f['location']
        text.append('  [%s] %s  (%s:%s %s)' % (f['property'], f['description'], loc.get('file', '?'), loc.get('line', '?'), loc.get('function', '')))
    text += ['', 'verifier command: ' + r['cmd'], '']
    ok = False
    for f in r['failed'][:3]:
        if END - time.time() < 20:
            break
        try:
            res, msgs, t, cmd = solve(u, gb, ['--trace', '--property', f['property']], unwind=unwind)
        except ToolError as ex:
            text.append('trace for %s not available: %s' % (f['property'], ex))
            continue
        tr = next((x.get('trace') for x in res if x.get('trace')), None)
        if not tr:
            continue
        inputs = [(s['inputID'], s['values'][0] if s.get('values') else None) for s in tr if s.get('stepType') == 'input']
        text.append('counterexample inputs for %s:' % f['property'])
        for iid, v in inputs[:200]:
            text.append('  %s = %s' % (iid, cval(v) if v else '?'))
        if not u.replay:
            break
        ok, out = replay(u, rdir, tr, u.name)
        text.append('native replay on the real code: %s\n%s' % ('REPRODUCED' if ok is True else 'not reproduced' if ok is False else 'did not terminate', out))
        if ok:
            break
    if not ok and u.replay and not SEARCHED.get('found') and END - time.time() > 60 and SEARCHED.setdefault('n', 0) < 5:
        SEARCHED['n'] += 1
        ok, out = search(u, rdir, 20)
        SEARCHED['found'] = ok
        text.append('native search: %s\n%s' % ('FAILING INPUT FOUND' if ok else 'nothing found', out))
    p = os.path.join(rdir, 'report.txt')
    open(p, 'w').write('\n'.join(text) + '\n')
    return p, ok


SEARCHED = {}


def main():
    pid = sys.argv[2]
    only = None
    jobs = int(os.environ.get('VF_JOBS', '8'))
    a = sys.argv[3:]
    while a:
        if a[0] == '--unit':
            only = a[1].split(',')
            a = a[2:]
        elif a[0] == '--jobs':
            jobs = int(a[1])
            a = a[2:]
        else:
            sys.exit('bad argument ' + a[0])
    t0 = time.time()
    pdir = os.path.join(VERIF, 'props', pid)
    sys.path.insert(0, pdir)
    spec = importlib.util.spec_from_file_location('units', os.path.join(pdir, 'units.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    units = [Unit(pid, d, pdir) for d in m.UNITS]
    units = [u for u in units if (u.tier == 'quick' or TIER == 'thorough')]
    if only:
        units = [u for u in units if u.name in only]
    units.sort(key=lambda u: -u.weight)
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    results = []
    try:
        with ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(check_unit, u, tmp) for u in units]
            viol = []
            for f in as_completed(futs):
                r = f.result()
                results.append(r)
                if STOP.is_set():
                    if r['status'] == 'error':
                        r['status'], r['error'] = 'skipped', 'not decided: a violation was already confirmed'
                    elif r['status'] == 'fail':
                        r['status'], r['error'] = 'skipped', 'refused by the verifier; another violation was already confirmed'
                elif r['status'] == 'fail':
                    p, ok = make_replay(pid, r)
                    viol.append((r, p, ok))
                    if ok is True and not match_known(load_known(pid), r):
                        # a failing input has been reproduced on the real code: the rest cannot change the verdict
                        STOP.set()
                        for pr in list(PROCS):
                            try:
                                os.killpg(pr.pid, 9)
                            except ProcessLookupError:
                                pass
        order = {u.name: i for i, u in enumerate(units)}
        results.sort(key=lambda r: order[r['unit']])
        for r in [r for r in results if r['status'] == 'error' and '_u' in r][:4]:
            if NO_VERDICT_IS_ERROR or STOP.is_set():
                break
            p, ok = no_answer(pid, r)
            r['failed'] = [dict(property=r['unit'], description='not discharged: ' + r['error'][:200], location={})]
            viol.append((r, p, ok))
    finally:
        for p in list(PROCS):
            try:
                os.killpg(p.pid, 9)
            except Exception:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    errs = [r for r in results if r['status'] == 'error']
    known = load_known(pid)
    for r in results:
        print('%-8s %-28s obligations %4d discharged %4d reach %2d  %s %.1fs %s' % (
            r['status'], r['unit'], r['obligations'], r['discharged'], r['reach'], r['solver'], r['wall'], r.get('error', '')[:1500]))
    rc = 0
    nviol = 0
    for r, p, ok in viol:
        k = match_known(known, r)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            continue
        nviol += 1
        for f in r['failed'][:6]:
            print('  failed obligation: %s [%s] %s:%s' % (f['description'], r['unit'], f['location'].get('file', ''), f['location'].get('line', '')))
        print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if ok is True else ' no-failing-input-found'))
        rc = 1
    proved = [r for r in results if r['status'] == 'ok' and not r['bounded']]
    bounded = [r for r in results if r['status'] == 'ok' and r['bounded']]
    backends = {}
    for r in proved + bounded:
        backends[r['solver']] = backends.get(r['solver'], 0) + r['discharged']
    ev = dict(property=pid, tier=TIER, seed=SEED, level='proof', wall_s=round(time.time() - t0, 2), violations=nviol,
              coverage=dict(
                  obligations=sum(r['obligations'] for r in results), discharged=sum(r['discharged'] for r in results),
                  checker_cmd='python3 tools/vc.py check %s' % pid,
                  trusted_base=['cbmc 6.11.0 (goto-cc, goto-instrument, symbolic execution)', 'MiniSat (built in to cbmc)', 'cvc5 1.1.2', 'gcc -E preprocessing', 'x86-64 LP64 C semantics of cbmc'],
                  functions_under_contract=sorted({f for r in proved for f in r['funcs']}),
                  functions_bounded_only=sorted({f for r in bounded for f in r['funcs']} - {f for r in proved for f in r['funcs']}),
                  obligations_by_backend=backends, solver_s=round(sum(r['solver_s'] for r in results), 2),
                  reachability_markers=sum(r['reach'] for r in results),
                  units=[{k: v for k, v in r.items() if not k.startswith('_')} for r in results]),
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + [a for u in units for a in u.assumptions] + ['%s: bounded: %s' % (r['unit'], r['bounded']) for r in bounded])
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if errs:
        print('%d unit(s) with obligations left undischarged' % len(errs))
    if rc == 0 and errs:
        print('ERROR: %d unit(s) gave no answer' % len(errs))
        rc = 2
    print('%s: %d unit(s), %d obligations, %d discharged, %.1fs' % (pid, len(results), ev['coverage']['obligations'], ev['coverage']['discharged'], time.time() - t0))
    sys.exit(rc)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def match_known(known, r):
    """a finding is listed by unit and the exact set of obligations it fails"""
    for k in known:
        if k['unit'] == r['unit'] and all(any(re.search(o, f['description']) for o in k['obligations']) for f in r['failed']):
            return k
    return None


if __name__ == '__main__':
    main()
