#!/usr/bin/env python3
"""Decides one property: builds the engine and the harnesses against /repo's
current tree, explores every harness symbolically, replays what is found on
the natively compiled code, and writes evidence/<id>.json.

exit 0: held on everything explored    exit 1: VIOLATION line printed
exit 2: the check itself failed (nothing is claimed)
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
from plan import PLAN, VARIANTS, ASSUMPTIONS

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get('VH_BUILD', os.path.join(ROOT, '.build'))
REPO = '/repo'
T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def sh(cmd, env=None, cwd=None, timeout=900):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError('%s failed (%d):\n%s' % (' '.join(cmd[:4]), p.returncode, p.stdout[-6000:]))
    return p.stdout


def build_engine():
    sh(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(ROOT, 'engine'),
       env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'engine'), RUSTFLAGS='-Awarnings'))
    return os.path.join(BUILD, 'engine', 'release', 'symex')


def opt_path():
    h = os.environ.get('RUSTUP_HOME', os.path.expanduser('~/.rustup'))
    c = glob.glob(h + '/toolchains/stable-*/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt')
    if not c:
        raise CheckError('no opt in the toolchain')
    return c[0]


def build_variant(v):
    """rustc's unoptimised IR and a native binary from the same compilation."""
    spec = VARIANTS[v]
    td = os.path.join(BUILD, v)
    hd = os.path.join(ROOT, 'harness')
    trip = 'x86_64-unknown-linux-gnu'
    dep = os.path.join(td, trip, 'release', 'deps')
    for f in glob.glob(dep + '/vh-*.ll'):
        os.remove(f)
    # the harness crate itself is always compiled again
    for f in glob.glob(os.path.join(td, trip, 'release', '.fingerprint', 'vh-*')):
        shutil.rmtree(f)
    cmd = ['cargo', 'rustc', '--offline', '-q', '--release', '--target', trip, '--bin', 'vh']
    if spec.get('features'):
        cmd += ['--features', spec['features']]
    cmd += ['--', '--emit=llvm-ir,link']
    fl = '-C no-prepopulate-passes -Zinline-mir=no -Awarnings ' + spec.get('flags', '')
    env = dict(ENV, CARGO_TARGET_DIR=td, RUSTC_BOOTSTRAP='1', RUSTFLAGS=fl)
    sh(cmd, cwd=hd, env=env)
    ll = sorted(glob.glob(dep + '/vh-*.ll'), key=os.path.getmtime)
    if not ll:
        raise CheckError('rustc wrote no IR')
    return ll[-1], os.path.join(td, trip, 'release', 'vh')


def lower(symex, ll, v, harnesses):
    a = os.path.join(BUILD, v, 'a.ll')
    b = os.path.join(BUILD, v, 'b.ll')
    sh([symex, 'prep', ll, a])
    sh([opt_path(), '-S', '-passes=internalize,globaldce,function(lower-invoke,simplifycfg),globaldce,default<O2>',
        '-internalize-public-api-list=' + ','.join(harnesses), '-vectorize-loops=false', '-vectorize-slp=false', a, '-o', b])
    os.remove(a)
    return b


def merge(out):
    T = dict(errors={}, panics={}, reach={}, checks={}, viol=[], violn={}, samples=[], funcs=set())
    for f in sorted(glob.glob(out + '/*.json')):
        d = json.load(open(f))
        for k, x in d.items():
            if isinstance(x, int):
                T[k] = max(T.get(k, 0), x) if k == 'maxcons' else T.get(k, 0) + x
        for k in ('errors', 'panics'):
            for m, (n, i) in d[k].items():
                e = T[k].setdefault(m, [0, i])
                e[0] += n
        for k in ('reach', 'violn'):
            for m, n in d[k].items():
                T[k][m] = T[k].get(m, 0) + n
        for m, (n, q) in d['checks'].items():
            c = T['checks'].setdefault(m, [0, 0])
            c[0] += n
            c[1] += q
        T['viol'] += d['viol']
        T['samples'] += d['samples']
        T['funcs'] |= set(d.get('funcs', []))
    return T


def demangle(names):
    r = set()
    for n in names:
        if 'overlord' not in n:
            continue
        m = re.findall(r'(\d+)([A-Za-z_][A-Za-z0-9_]*)', n)
        parts = []
        for ln, s in m:
            ln = int(ln)
            s = s.lstrip('_') if len(s) > ln else s
            if len(s) >= ln:
                parts.append(s[:ln])
        if 'overlord' in parts:
            i = parts.index('overlord')
            r.add('::'.join(parts[i:i + 5]))
    return sorted(r)


def replay_file(path, prop, variant, harness, cid, inputs):
    with open(path, 'w') as f:
        f.write('# property %s check "%s"\n# variant %s harness %s\n' % (prop, cid, variant, harness))
        for t, v in inputs:
            f.write('in %s %d\n' % (t, v))


def native(binary, harness, path, tries, want, prop):
    """Runs the natively compiled harness on recorded values."""
    last = ''
    for _ in range(tries):
        try:
            p = subprocess.run([binary, harness, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=30,
                               env=dict(os.environ, VH_PROP=prop + ':'))
        except subprocess.TimeoutExpired:
            last = 'timeout'
            continue
        last = p.stdout
        if want(p.returncode, p.stdout):
            return True, p.stdout
    return False, last


def known_findings():
    r = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) check="([^"]+)" harness=(\S+)(?: when="([^"]*)")? (.*)', l.strip())
            if m:
                r.append(m.groups())
    return r


def main():
    if sys.argv[1:2] == ['setup']:
        # every check builds what it needs itself; this only shows that the toolchain works
        build_engine()
        return
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plan = PLAN[prop]
    runs = [r for r in plan['runs'] if tier == 'thorough' or r.get('tier', 'quick') == 'quick']
    only_h = os.environ.get('VH_ONLY')
    if only_h:
        runs = [r for r in runs if r['h'] in only_h.split(',')]
    deadline = T0 + (860 if tier == 'quick' else 4 * 3600)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    out0 = os.path.join(BUILD, 'out-' + prop)
    shutil.rmtree(out0, ignore_errors=True)
    os.makedirs(out0)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    symex = build_engine()
    log('engine built')
    variants = []
    for r in runs:
        v = r.get('v', 'std')
        if v not in variants:
            variants.append(v)
    bins, irs = {}, {}
    for v in variants:
        ll, b = build_variant(v)
        log('harness built', v)
        irs[v] = lower(symex, ll, v, sorted({r['h'] for r in runs if r.get('v', 'std') == v}))
        bins[v] = b
        log('lowered', v)
    results, problems, confirmed, unconfirmed = [], [], [], []
    validated = nsamples = 0
    samples = []
    funcs = set()
    # cheap harnesses first
    for r in runs:
        v, h = r.get('v', 'std'), r['h']
        out = os.path.join(out0, v + '-' + h)
        os.makedirs(out)
        lim = max(5, min(r.get('time', 700), deadline - time.time() - 20))
        cmd = [symex, 'run', '--ir', irs[v], '--harness', h, '--out', out, '--workers', str(os.cpu_count() or 8),
               '--time', '%d' % lim, '--seed', str(seed), '--only', prop, '--stop-after', str(r.get('stop', 24)), '--maxviol', '6']
        cmd += r.get('opts', [])
        if r.get('panics'):
            cmd += ['--panics', prop]
        t = time.time()
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        T = merge(out)
        T['wall'] = time.time() - t
        nv = sum(T['violn'].values())
        log(h, v, p.stdout.strip().split('\n')[-1], 'queries', T.get('queries', 0), 'solver %.1fs' % (T.get('solver_ns', 0) / 1e9), 'violations', nv)
        cut = p.returncode == 75 and not nv
        T['cut'] = cut
        if cut and r.get('tier') == 'thorough':
            log('%s/%s: stopped after %d s, not all paths explored' % (v, h, lim))
        elif cut:
            problems.append('%s/%s: exploration not finished in %d s' % (v, h, lim))
        elif p.returncode not in (0, 75):
            problems.append('%s/%s: engine exit %d: %s' % (v, h, p.returncode, p.stdout[-500:]))
        for m, (n, i) in T['errors'].items():
            problems.append('%s/%s: %d paths ended in engine error: %s' % (v, h, n, m[:400]))
        if not nv:
            for tag in r.get('reach', ['end']):
                if not T['reach'].get(tag):
                    problems.append('%s/%s: nothing reached "%s"' % (v, h, tag))
            if not T['checks']:
                problems.append('%s/%s: no assertion of %s was evaluated' % (v, h, prop))
        for k, (n, i) in T['panics'].items():
            if 'vh/' in k or '/harness/' in k or 'src/world.rs' in k or 'harness/src' in k:
                problems.append('%s/%s: harness panic: %s' % (v, h, k[:300]))
        # replay of counterexamples on the native build
        per = {}
        for cid, inputs in T['viol']:
            if per.get(cid, 0) >= 3:
                continue
            per[cid] = per.get(cid, 0) + 1
            path = os.path.join(out, 'cex-%d.txt' % (len(confirmed) + len(unconfirmed)))
            replay_file(path, prop, v, h, cid, inputs)
            if ': panic ' in cid:
                ok, o = native(bins[v], h, path, 12, lambda rc, s: rc in (11, 134, -6), prop)
            else:
                ok, o = native(bins[v], h, path, 12, lambda rc, s, c=cid: rc == 10 and ('REPRODUCED ' + c) in s, prop)
            (confirmed if ok else unconfirmed).append((cid, v, h, path, inputs, o))
            if ok:
                per[cid] = 9
        # concrete traces of explored paths against the native build
        for inputs, notes in T['samples'][:r.get('samples', 12)]:
            path = os.path.join(out, 'sample.txt')
            replay_file(path, prop, v, h, 'sample', inputs)
            want = [(t, x) for t, x in notes]

            def same(rc, s):
                got = [(m[0], int(m[1])) for m in re.findall(r'^note (.*) = (\d+)$', s, re.M)]
                return rc == 0 and got == want
            nsamples += 1
            ok, o = native(bins[v], h, path, 8, same, prop)
            if ok:
                validated += 1
            elif not nv:
                problems.append('%s/%s: a path does not behave the same natively: %s | want %s | got %s' % (v, h, inputs, want, o[-600:]))
            if len(samples) < 6:
                samples.append({'harness': h, 'variant': v, 'inputs': dict(('%d:%s' % (i, t), x) for i, (t, x) in enumerate(inputs)), 'observed': [list(w) for w in want][:40]})
        funcs |= T['funcs']
        results.append((r, T))
        if confirmed and not os.environ.get('VH_ALL'):
            break
    known = known_findings()
    alarms = []
    for c in confirmed:
        cid, v, h, path, inputs, o = c
        hit = None
        for kp, kc, kh, kw, text in known:
            if kp == prop and kc == cid and (kh == '*' or kh == h):
                vals = dict(inputs)
                if not kw or all(vals.get(x.split('=')[0]) == int(x.split('=')[1]) for x in kw.split(',')):
                    hit = text
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit))
        else:
            alarms.append(c)
    tot = lambda k: sum(T.get(k, 0) for _, T in results)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('forks') + len(results),
            'transitions': tot('instr'),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'rule': 'states: symbolic path states (each stands for every value satisfying its path condition); transitions: LLVM instructions of the code under test interpreted symbolically',
            'paths_finished': tot('finished'), 'paths_pruned_by_assumption': tot('pruned'),
            'queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_answered_from_cache': tot('cached'), 'decided_by_interval': tot('quick'),
            'solver_seconds': round(tot('solver_ns') / 1e9, 2),
            'assertions': {k: {'evaluated': sum(T['checks'].get(k, [0, 0])[0] for _, T in results), 'needed_solver': sum(T['checks'].get(k, [0, 0])[1] for _, T in results)} for k in sorted({k for _, T in results for k in T['checks']})},
            'reached': {k: sum(T['reach'].get(k, 0) for _, T in results) for k in sorted({k for _, T in results for k in T['reach']})},
            'repo_panics': {k: n for _, T in results for k, (n, i) in T['panics'].items()},
            'functions_encoded': demangle(funcs),
            'harnesses': [{'harness': r['h'], 'build': r.get('v', 'std'), 'bounds': r.get('bounds', ''), 'wall_s': round(T['wall'], 1), 'paths': T.get('finished', 0) + T.get('pruned', 0) + T.get('done', 0), 'all_paths': not T['cut']} for r, T in results],
            'bounds': plan['bounds'],
            'native_replays': nsamples,
        },
        'assumptions': ASSUMPTIONS + plan.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1),
        'violations': len(alarms),
    }
    tmp = os.path.join(ROOT, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', prop + '.json'))
    if alarms:
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for cid, v, h, path, inputs, o in alarms:
            if cid in seen:
                continue
            seen.add(cid)
            dst = os.path.join(rd, '%s-%d.txt' % (prop, len(seen)))
            shutil.copy(path, dst)
            log('counterexample: %s (harness %s, build %s)' % (cid, h, v))
            print('VIOLATION property=%s replay=%s' % (prop, dst))
        sys.exit(1)
    if unconfirmed and not confirmed:
        for cid, v, h, path, inputs, o in unconfirmed[:5]:
            problems.append('counterexample of "%s" in %s/%s does not reproduce natively: %s' % (cid, v, h, o[-300:]))
    if problems:
        for p in problems[:20]:
            print('ERROR', p)
        sys.exit(2)
    log('held: %d paths, %d queries' % (tot('finished'), tot('queries')))


try:
    main()
except CheckError as e:
    print('ERROR', e)
    sys.exit(2)
