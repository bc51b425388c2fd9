#!/usr/bin/env python3
"""Decide one property: bounded symbolic execution (CBMC) of /repo's current
sources, one solver run per harness, counterexamples replayed natively.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep] [-v]
       check.py --replay FILE        (re-run a recorded counterexample)
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'spec'))
import spec  # noqa: E402

HARN = os.path.join(VERIF, 'harness')
BASE_CHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check',
               '--div-by-zero-check', '--unwinding-assertions']
JOBS = int(os.environ.get('VP_JOBS', '8'))
LOCK = threading.Lock()


def log(*a):
    with LOCK:
        print(*a, flush=True)


def sources(h):
    out = []
    for s in h.get('src', []):
        out.append(s if s.startswith('/') else os.path.join(h.get('srcdir') or os.path.join(REPO, 'src'), s))
    for s in h.get('hsrc', []):
        out.append(os.path.join(HARN, s))
    return out


def defines(h):
    return ['-D' + d for d in h.get('defs', [])]


def includes(h):
    inc = ['-I', HARN, '-I', h.get('srcdir') or os.path.join(REPO, 'src')]
    for f in h.get('inc', []):
        inc += ['-include', os.path.join(HARN, f)]
    return inc


def overlay(h, work):
    """Harnesses that shrink a header constant get a private copy of the sources,
    made from the current tree, in which only that constant is redefined."""
    h['srcdir'] = os.path.join(REPO, 'src')
    if not h.get('shrink'):
        return True
    d = os.path.join(work, h['name'] + '.src')
    shutil.copytree(os.path.join(REPO, 'src'), d, ignore=lambda _, ns: [n for n in ns if not n.endswith(('.c', '.h'))])
    ok = True
    for fn, subs in h['shrink'].items():
        p = os.path.join(d, fn)
        t = open(p).read()
        for macro, val in subs:
            t, n = re.subn(r'^([ \t]*#[ \t]*define[ \t]+%s\b(?:[^\n]*\\\n)*[^\n]*\n)' % macro,
                           lambda m: m.group(1) + '#undef %s\n#define %s %s\n' % (macro, macro, val), t, count=1, flags=re.M)
            ok &= n == 1
        open(p, 'w').write(t)
    h['srcdir'] = d
    return ok


def missing_sources(h, gb):
    """files of the library defining functions which are called but not linked by the harness"""
    more, have = set(), {os.path.basename(x) for x in h.get('src', [])}
    rc, so, _ = run(['goto-instrument', '--drop-unused-functions', '--list-undefined-functions', gb], 60)
    names = re.findall(r'^BK\w+$', so or '', re.M)
    if not names:
        return []
    for f in sorted(os.listdir(h['srcdir'])):
        if f.endswith('.c') and f not in have:
            t = open(os.path.join(h['srcdir'], f), errors='replace').read()
            if any(re.search(r'^[A-Za-z_][^\n;=]*\b%s\s*\([^;{}]*\)\s*\{' % n, t, re.M) for n in names):
                more.add(f)
    return sorted(more)


def limit(mem_gb):
    import resource
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    return f


def run(cmd, timeout, cwd=None, env=None, mem_gb=12, out=None):
    """returns (rc or None on timeout, stdout, seconds)"""
    t0 = time.time()
    o = open(out, 'wb') if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                         preexec_fn=limit(mem_gb) if mem_gb else os.setsid)
    try:
        so, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        so, _ = p.communicate()
        rc = None
    if out:
        o.close()
        so = b''
    return rc, (so or b'').decode('utf-8', 'replace'), time.time() - t0


def trace_inputs(trace):
    vals = []
    for st in trace:
        if st.get('stepType') == 'input' and st.get('inputID') == 'vp':
            v = st['values'][0]
            d = v.get('data')
            b = v.get('binary')
            if b is not None:
                n = int(b, 2)
                if len(b) and b[0] == '1':
                    n -= 1 << len(b)
                vals.append(n)
            else:
                vals.append(int(re.sub(r'[a-zA-Z]+$', '', d)))
    return vals


def native_build(h, work, tag='native'):
    exe = os.path.join(work, h['name'] + '.' + tag)
    cmd = ['gcc', '-g', '-O1', '-w', '-std=gnu11', '-fno-strict-aliasing', '-fsanitize=address,bounds,integer-divide-by-zero,shift-exponent,null',
           '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] + includes(h) + defines(h) + h.get('ndefs', []) + \
          [os.path.join(HARN, h['file']), os.path.join(HARN, 'vp_native.c')] + sources(h) + ['-lm', '-o', exe]
    rc, so, _ = run(cmd, 120, mem_gb=None)
    if rc != 0:
        return None, so
    return exe, so


def native_run(exe, inputs, work, name, timeout=20):
    rp = os.path.join(work, name + '.inputs')
    with open(rp, 'w') as f:
        f.write('\n'.join(map(str, inputs)) + '\n')
    env = dict(os.environ, VP_REPLAY=rp,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=1',
               UBSAN_OPTIONS='print_stacktrace=1:exitcode=43')
    rc, so, _ = run([exe], timeout, env=env, mem_gb=None, cwd=work)
    return rc, so


def classify_native(rc, so, kind):
    """-> (confirmed, text)"""
    if rc is None:
        return (True, 'the program does not terminate (20 s)')
    m = re.search(r'VP-ASSERT-FAILED (.*)', so)
    if m:
        return True, 'assertion failed: ' + m.group(1)
    if rc == 77:
        return False, 'assumption not met natively'
    m = re.search(r'ERROR: AddressSanitizer: (.*)', so)
    if m:
        return True, 'AddressSanitizer: ' + m.group(1)[:200]
    m = re.search(r'runtime error: (.*)', so)
    if m:
        return True, 'UBSan: ' + m.group(1)[:200]
    if rc != 0:
        return True, 'exit status %s' % rc
    return False, 'not reproduced'


def run_harness(h, tier, work, verbose=False):
    res = {'harness': h['name'], 'status': None, 'failures': [], 'funcs': [], 'bounds': h.get('bounds', ''),
           'assumes': h.get('assumes', [])}
    tmo = h.get('timeout', 240 if tier == 'quick' else 780)
    gb = os.path.join(work, h['name'] + '.gb')
    if not overlay(h, work):
        res['note'] = 'constant to shrink not found; encoded unshrunk'
    cmd = ['goto-cc', '-o', gb, '-w', '-DVP_CBMC', '-DVP_REACH'] + includes(h) + defines(h) + [os.path.join(HARN, h['file'])] + sources(h)
    rc, so, _ = run(cmd, 120)
    if rc != 0:
        res['status'] = 'BUILD-ERROR'
        res['detail'] = so[-3000:]
        return res
    more = missing_sources(h, gb)
    if more:
        # code of these files is needed as well: a function was moved or an other one is called now
        rc, so, _ = run(cmd[:2] + [gb + '2'] + cmd[3:] + [os.path.join(h['srcdir'], f) for f in more], 120)
        if rc == 0:
            os.replace(gb + '2', gb)
            h['src'] = list(h.get('src', [])) + more
    flags = list(BASE_CHECKS)
    for x in h.get('nochecks', []):
        if x in flags:
            flags.remove(x)
    flags += h.get('flags', [])
    flags += ['--no-malloc-may-fail'] if not h.get('malloc_fail') else ['--malloc-may-fail', '--malloc-fail-null']
    flags += ['--unwind', str(h.get('unwind', 130))]
    for u in h.get('unwindset', []):
        flags += ['--unwindset', u]
    flags += ['--drop-unused-functions', '--slice-formula', '--sat-solver', h.get('sat', 'cadical')]
    outp = os.path.join(work, h['name'] + '.json')
    cmd = ['cbmc', gb] + flags + ['--json-ui', '--trace', '--verbosity', '8']
    rc, _, dt = run(cmd, tmo, out=outp, mem_gb=h.get('mem_gb', 12))
    res['wall_s'] = round(dt, 2)
    res['cmd'] = ' '.join(['cbmc'] + flags)
    txt = open(outp, errors='replace').read()
    res['json_mb'] = round(len(txt) / 1e6, 1)
    if rc is None:
        res['status'] = 'TIMEOUT'
        return res
    try:
        js = json.loads(txt)
    except Exception as e:
        res['status'] = 'SOLVER-ERROR'
        res['detail'] = 'rc=%s %s' % (rc, txt[-500:])
        return res
    finally:
        if not verbose:
            os.unlink(outp)
    results = None
    solver_s = 0.0
    for m in js:
        t = m.get('messageText', '')
        mm = re.search(r'size of program expression: (\d+) steps', t)
        if mm:
            res['ssa_steps'] = int(mm.group(1))
        mm = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
        if mm:
            res['vccs'] = int(mm.group(1)); res['vccs_after_simplification'] = int(mm.group(2))
        mm = re.search(r'(\d+) variables, (\d+) clauses', t)
        if mm:
            res['sat_variables'] = int(mm.group(1)); res['sat_clauses'] = int(mm.group(2))
        mm = re.search(r'Runtime Solver: ([0-9.e+-]+)s', t)
        if mm:
            solver_s += float(mm.group(1))
        if 'result' in m:
            results = m['result']
    res['solver_s'] = round(solver_s, 3)
    if results is None:
        res['status'] = 'SOLVER-ERROR'
        res['detail'] = 'rc=%s %s' % (rc, ' | '.join(m.get('messageText', '') for m in js if m.get('messageType') in ('ERROR', 'WARNING'))[-600:])
        return res
    reach = [r for r in results if r.get('description') == 'VP-REACH']
    others = [r for r in results if r.get('description') != 'VP-REACH']
    fails = [r for r in others if r['status'] == 'FAILURE']
    unknown = [r for r in others if r['status'] not in ('FAILURE', 'SUCCESS')]
    funcs = set()
    for r in others:
        loc = r.get('sourceLocation', {})
        f = loc.get('file', '')
        if f.startswith(h['srcdir']):
            funcs.add('%s:%s' % (os.path.basename(f), loc.get('function', '?')))
    # functions of the implementation present in the encoding
    rc2, so2, _ = run(['goto-instrument', '--drop-unused-functions', '--list-goto-functions', gb], 60)
    for ln in (so2 or '').splitlines():
        m = re.match(r'^(BK\w+) ', ln.strip())
        if m:
            funcs.add(m.group(1))
    res['funcs'] = sorted({f.split(':')[-1] for f in funcs})
    res['properties'] = len(others)
    res['proved'] = sum(1 for r in others if r['status'] == 'SUCCESS')
    # the assertions of the property itself, in the harness
    res['asserts'] = sorted({r['description'][4:] for r in others if r.get('description', '').startswith('VP: ')})
    exe = None
    # vacuity guard + validation of the encoding against the compiled code
    if not reach or any(r['status'] != 'FAILURE' for r in reach):
        res['vacuous'] = True
    else:
        res['vacuous'] = False
        exe, so = native_build(h, work)
        if exe is None:
            res['status'] = 'BUILD-ERROR'
            res['detail'] = so[-2000:]
            return res
        vals = trace_inputs(reach[0].get('trace', []))
        res['witness'] = vals[:40]
        nrc, nso = native_run(exe, vals, work, h['name'] + '.reach')
        res['witness_native'] = 'reached' if (nrc == 0 and 'VP-REACHED' in nso) else 'rc=%s %s' % (nrc, nso[-300:])
        if verbose:
            log('   [%s] witness native: %s' % (h['name'], res['witness_native'][:400]))
    # counterexamples: replay natively before reporting
    seen = 0
    for r in sorted(fails, key=lambda r: (0 if r['description'].startswith('VP: ') else 1, 'unwind' in r['property'])):
        if 'trace' not in r:
            continue
        if seen >= 6 and any(f['confirmed'] for f in res['failures']):
            break
        seen += 1
        vals = trace_inputs(r['trace'])
        if exe is None:
            exe, so = native_build(h, work)
        kind = r['property']
        conf, text = False, 'native build failed'
        if exe:
            nrc, nso = native_run(exe, vals, work, '%s.cex%d' % (h['name'], seen))
            conf, text = classify_native(nrc, nso, kind)
        loc = r.get('sourceLocation', {})
        res['failures'].append({'property': kind, 'description': r['description'], 'inputs': vals, 'confirmed': conf,
                                'native': text, 'where': '%s:%s %s' % (loc.get('file'), loc.get('line'), loc.get('function'))})
        if verbose:
            log('   [%s] FAIL %s "%s" at %s -> %s %s inputs=%s' % (h['name'], kind, r['description'], res['failures'][-1]['where'],
                'CONFIRMED' if conf else 'unconfirmed', text, vals[:24]))
    if fails:
        res['status'] = 'VIOLATED' if any(f['confirmed'] for f in res['failures']) else 'UNCONFIRMED'
    elif unknown or res['vacuous']:
        res['status'] = 'VACUOUS' if res['vacuous'] else 'UNKNOWN'
    else:
        res['status'] = 'HOLDS'
    return res


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid = a.property
    hs = [h for h in spec.HARNESSES if h['prop'] == pid]
    if tier == 'quick':
        hs = [h for h in hs if h.get('tier', 'quick') == 'quick']
    if a.only:
        hs = [h for h in hs if re.search(a.only, h['name'])]
    if not hs:
        print('no harness for', pid)
        return 2
    t0 = time.time()
    budget = float(os.environ.get('VP_BUDGET', '840' if tier == 'quick' else '100000'))
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    results, found = [], []
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            def go(h):
                left = budget - (time.time() - t0)
                h = dict(h)
                lim = h.get('timeout', 240 if tier == 'quick' else 780)
                if left < 20 or (os.environ.get('VP_FIRST') and any(f['confirmed'] for f in found)):
                    return {'harness': h['name'], 'status': 'TIMEOUT', 'failures': [], 'funcs': []}
                h['timeout'] = min(lim, left - 10)
                r = run_harness(h, tier, work, a.v)
                found.extend(r['failures'])
                log('  %-34s %-11s %6.1fs solver %6.1fs  props %s/%s  steps %s' % (h['name'], r['status'], r.get('wall_s', 0), r.get('solver_s', 0),
                    r.get('proved', '-'), r.get('properties', '-'), r.get('ssa_steps', '-')))
                return r
            hs_sorted = sorted(hs, key=lambda h: -h.get('cost', 10))
            results = list(ex.map(go, hs_sorted))
    finally:
        if a.keep:
            print('work dir', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    known = [k for k in load_findings() if k.get('property') == pid]
    violations = []
    replaydir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(replaydir, exist_ok=True)
    for r in results:
        for f in r['failures']:
            if not f['confirmed']:
                continue
            violations.append((r['harness'], f))
            break
    if violations and not a.only is None:
        pass
    rep = None
    if violations:
        rep = os.path.join(replaydir, '%s.json' % pid)
        json.dump([{'property': pid, 'harness': hn, **f} for hn, f in violations], open(rep, 'w'), indent=1)
    for k in known:
        if k.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    bad = [r for r in results if r['status'] in ('BUILD-ERROR', 'SOLVER-ERROR')]
    und = [r for r in results if r['status'] in ('TIMEOUT', 'UNKNOWN', 'UNCONFIRMED', 'VACUOUS')]
    wall = time.time() - t0
    if not a.only:
        write_evidence(pid, tier, hs, results, violations, und, bad, wall, known)
    for r in bad:
        print('ERROR harness=%s %s: %s' % (r['harness'], r['status'], r.get('detail', '')[-1500:]))
    for r in und:
        print('UNDECIDED harness=%s %s' % (r['harness'], r['status']))
        for f in r['failures'][:3]:
            print('   unconfirmed counterexample: %s at %s inputs=%s: %s' % (f['description'], f['where'], f['inputs'][:16], f['native']))
    if violations:
        for hn, f in violations:
            print('  %s: %s [%s] inputs=%s' % (hn, f['description'], f['native'], f['inputs'][:24]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if bad:
        return 2
    if und and (os.environ.get('VP_STRICT') or not any(r['status'] == 'HOLDS' for r in results)):
        print('NO ANSWER property=%s: nothing was decided' % pid)
        return 3
    print('OK property=%s tier=%s harnesses=%d decided=%d wall=%.1fs' % (pid, tier, len(results), sum(r['status'] == 'HOLDS' for r in results), wall))
    return 0


def write_evidence(pid, tier, hs, results, violations, und, bad, wall, known):
    byname = {h['name']: h for h in hs}
    funcs = sorted({f for r in results for f in r['funcs'] if f.startswith('BK')})
    cov = {
        'explanation': 'Bounded model checking with CBMC: each harness symbolically executes the listed functions of /repo/src (re-encoded on this run) and the SAT solver '
                       'decides every assertion for all input values within the bounds. states = steps of the symbolic execution (SSA), transitions = verification '
                       'conditions generated from them, queries = properties decided by the solver; traces_validated_against_impl = solver-produced executions that were '
                       're-run on the natively compiled code and reached the end of the harness.',
        'states': sum(r.get('ssa_steps', 0) for r in results),
        'transitions': sum(r.get('vccs', 0) for r in results),
        'traces_validated_against_impl': sum(r.get('witness_native') == 'reached' for r in results),
        'samples': [{'harness': r['harness'], 'witness_inputs': r.get('witness'), 'native': r.get('witness_native')} for r in results if r.get('witness') is not None][:12],
        'queries': sum(r.get('properties', 0) for r in results),
        'queries_discharged': sum(r.get('proved', 0) for r in results),
        'solver_seconds': round(sum(r.get('solver_s', 0) for r in results), 2),
        'harnesses': len(results),
        'harnesses_decided': sum(r['status'] in ('HOLDS', 'VIOLATED') for r in results),
        'undecided': [r['harness'] + ':' + r['status'] for r in und + bad],
        'functions_encoded': funcs,
        'per_harness': [{k: r.get(k) for k in ('harness', 'status', 'wall_s', 'solver_s', 'ssa_steps', 'vccs', 'vccs_after_simplification', 'sat_variables', 'sat_clauses',
                                               'properties', 'proved', 'asserts', 'vacuous')} |
                        {'bounds': byname[r['harness']].get('bounds', ''), 'unwind': byname[r['harness']].get('unwind', 40),
                         'file': byname[r['harness']]['file']} for r in results],
        'outside_the_bounds': spec.PROPS.get(pid, {}).get('outside', ''),
    }
    ass = list(spec.PROPS.get(pid, {}).get('assumptions', []))
    for h in hs:
        for x in h.get('assumes', []):
            if x not in ass:
                ass.append(x)
    ass += ['CBMC 6.11 (C front end, symbolic execution, CaDiCaL) and its models of the C library are trusted; x86-64 data model (LP64, little endian)',
            'allocation never fails unless the harness says so (--no-malloc-may-fail)']
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': ass, 'wall_s': round(wall, 2), 'violations': len(violations),
          'known_findings': [k['what'] for k in known if k.get('status') == 'open'],
          'violation_details': [{'harness': hn, 'description': f['description'], 'native': f['native'], 'inputs': f['inputs'][:64]} for hn, f in violations]}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


def replay(path):
    work = tempfile.mkdtemp(prefix='vp-replay-')
    bad = 0
    try:
        for f in json.load(open(path)):
            h = dict([x for x in spec.HARNESSES if x['name'] == f['harness']][0])
            overlay(h, work)
            exe, so = native_build(h, work)
            if not exe:
                print(so)
                return 2
            rc, so = native_run(exe, f['inputs'], work, 'replay')
            conf, text = classify_native(rc, so, f['property'])
            print(f['harness'], '->', 'REPRODUCED' if conf else 'passes', text)
            if conf:
                print(so[-3000:])
            bad |= conf
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
