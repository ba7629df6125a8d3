#!/bin/sh
''''exec python3-vt "$0" "$@" # '''
"""check.py <property> quick|thorough : decide one property on /repo's current tree."""
import sys, os, time, json, subprocess, importlib, re, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vc import frontend
from vc.frontend import ExtractionError, REPO
from vc.engine import Session
from vc.workers import run_jobs
import props

MOD = None
AST = {}


def load(tu):
    drv = os.path.join(HERE, 'drivers', tu)
    kw = dict(props.TUS.get(tu, {}))
    return frontend.load_ast(drv, **kw)


def refute_goal(job):
    """bounded refutation of one goal: concrete lengths, unrolled loops, bodies inlined -> concrete inputs to replay"""
    modname, prop, i, _ = job
    m = importlib.import_module('contracts.' + modname)
    g = m.GOALS[prop][i]
    opts = g[3] if len(g) > 3 else {}
    out = []
    for b in (1, 2, 3):
        s = Session(AST[opts.get('tu', m.TU)])
        s.bounded = b
        s.interp_cls = opts.get('interp', getattr(m, 'INTERP', None))
        s.solver.rounds = 6
        s.contracts = {k: v for k, v in getattr(m, 'CONTRACTS', {}).items() if k in opts.get('use', ()) and k in opts.get('always', ())}
        try:
            s.verify(g[0], g[1], [], **dict(opts.get('kw', {}), time_limit=25))
        except Exception:
            pass
        for o in list(s.results) + list(getattr(s, 'obl', {}).values()):
            if o.status != 'proved' and o.model is not None:
                try:
                    out.append(s.model_inputs(o))
                except Exception:
                    pass
        if len(out) > 4:
            break
    return out


def run_goal(job):
    """one goal in a worker process; returns a plain dict"""
    modname, prop, i, slow = job
    m = importlib.import_module('contracts.' + modname)
    g = m.GOALS[prop][i]
    name, run, tm = g[:3]
    opts = g[3] if len(g) > 3 else {}
    from vc import engine
    if slow:
        engine.FACTOR = 4
    ast = AST[opts.get('tu', m.TU)]
    s = Session(ast)
    s.interp_cls = opts.get('interp', getattr(m, 'INTERP', None))
    s.contracts = {k: v for k, v in getattr(m, 'CONTRACTS', {}).items() if k in opts.get('use', ())}
    t0 = time.time()
    out = dict(name=name, failed=[], obligations=0, discharged=0, backends={}, extraction=None, secs=0, cex=[])
    try:
        if ast is None:
            raise ExtractionError('extraction of the translation unit failed')
        s.verify(name, run, tm, **opts.get('kw', {}))
    except ExtractionError as e:
        out['extraction'] = str(e)[:600]
    except RecursionError as e:
        out['extraction'] = 'recursion: %s' % e
    except Exception as e:      # an engine limitation on changed source is a loss of reach, not a verdict
        out['extraction'] = 'engine: %s' % traceback.format_exc()[-900:]
    out['secs'] = round(time.time() - t0, 2)
    for o in s.results:
        if o.kind == 'budget' and o.status != 'proved':
            out['extraction'] = out['extraction'] or o.detail
            continue
        out['obligations'] += 1
        if o.status == 'proved':
            out['discharged'] += 1
            out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
        else:
            out['failed'].append(dict(name=o.name, status=o.status, detail=o.detail, line=o.line, kind=o.kind, backend=o.backend))
            if o.model is not None:
                try:
                    out['cex'].append(s.model_inputs(o))
                except Exception:
                    pass
    out['info'] = s.functions.get(name, {})
    out['inlined'] = sorted(s.inlined)
    out['contracts'] = sorted(s.used_contracts)
    out['assumed'] = sorted(s.assumed)
    out['solver_s'] = dict((k, round(v, 2)) for k, v in s.solver.t.items())
    out['vacuous'] = getattr(s, 'vacuous', 0)
    return out


# ------------------------------------------------------------------ replay driver
def harvest_literals():
    """numeric literals of the current sources, as a dictionary for input generation"""
    vals = set()
    for root, _, fs in os.walk(os.path.join(REPO, 'app')):
        if '/tests' in root or '/ext' in root:
            continue
        for f in fs:
            if f.endswith(('.cpp', '.hpp', '.ipp')):
                try:
                    t = open(os.path.join(root, f), errors='replace').read()
                except OSError:
                    continue
                t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
                for x in re.findall(r'(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?)(?![\w.])', t):
                    try:
                        v = float(x)
                    except ValueError:
                        continue
                    if v <= 1e6:
                        vals.add(v)
    return sorted(vals)


CORE = ['app/tenncor/declare/tensor.cpp', 'app/tenncor/declare/graph.cpp', 'app/tenncor/declare/operations.cpp',
        'app/tenncor/src/tensor/tensorshape.cpp', 'app/tenncor/src/memory/*.cpp', 'app/tenncor/src/graph/react/*.cpp',
        'app/tenncor/src/utils/*.cpp', 'app/tenncor/src/thread/*.cpp', '@proto']
SETS = {
    'shape': ['app/tenncor/src/tensor/tensorshape.cpp', 'app/tenncor/src/utils/utils.cpp'],
    'tensor': ['app/tenncor/src/tensor/tensorshape.cpp', 'app/tenncor/src/utils/utils.cpp', 'app/tenncor/src/memory/*.cpp', '@proto'],
    'core': CORE,
    'rocnnet': CORE + ['app/rocnnet/src/*/*.cpp'],
}


def sources(kind):
    import glob
    out = []
    for pat in SETS[kind]:
        if pat == '@proto':
            out.append(os.path.join(frontend.gen_proto(), 'proto', 'tenncor.pb.cc'))
        else:
            fs = sorted(glob.glob(os.path.join(REPO, pat)))
            out += fs
    return out


def build_driver(spec, work):
    """compile the replay driver against the current sources; returns (binary or None, log)"""
    src = os.path.join(HERE, 'replay', spec['src'])
    flags = ['-std=c++14', '-w', '-g1', '-DENABLE_STRASSEN', '-fno-access-control'] + spec.get('flags', ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'])
    inc = frontend.include_flags() + ['-I' + os.path.join(HERE, 'replay')]
    srcs = [src] + sources(spec['set'])
    objs, procs, log = [], [], ''
    todo = list(enumerate(srcs))
    running = []
    ok = True
    while todo or running:
        while todo and len(running) < 8:
            i, s = todo.pop(0)
            o = os.path.join(work, 'o%d.o' % i)
            objs.append(o)
            running.append((subprocess.Popen(['g++'] + flags + inc + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT), s))
        p, s = running.pop(0)
        out, _ = p.communicate()
        if p.returncode:
            ok = False
            log += '%s:\n%s\n' % (s, out.decode(errors='replace')[-2000:])
    if not ok:
        return None, log
    exe = os.path.join(work, 'driver')
    p = subprocess.run(['g++'] + flags + objs + ['-o', exe] + ['-lprotobuf', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for o in objs:
        try:
            os.unlink(o)
        except OSError:
            pass
    if p.returncode:
        return None, p.stdout.decode(errors='replace')[-3000:]
    return exe, ''


def run_driver(exe, prop, seed, secs, work, tier, cex=None, tag=''):
    out = os.path.join(work, 'run' + tag)
    os.makedirs(out, exist_ok=True)
    d = os.path.join(work, 'dict.txt')
    if not os.path.exists(d):
        open(d, 'w').write('\n'.join('%.17g' % v for v in harvest_literals()))
    cmd = [exe, prop, str(seed), str(secs), out, tier, d] + ([cex] if cex else [])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=71:allocator_may_return_null=1:detect_odr_violation=0', HOME=out, TMPDIR=out)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 240, cwd=out, env=env)
        rc, so, se = p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, so, se = 72, (e.stdout or b'').decode(errors='replace'), 'timeout'
    fails, stats, samples, buckets = [], (0, 0), [], {}
    for l in so.split('\n'):
        f = l.split('\t')
        if f[0] == 'FAIL' and len(f) >= 5:
            fails.append(dict(key=f[1], file=f[2], case=f[3], msg=f[4]))
        elif f[0] == 'CRASH':
            fails.append(dict(key='crash:' + (f[2].split('|')[0] if len(f) > 2 else ''), file=None, case=f[2] if len(f) > 2 else '', msg='process %s' % f[1] + '\n' + se[-1500:]))
        elif f[0] == 'STATS':
            stats = (int(f[1]), int(f[2]))
        elif f[0] == 'SAMPLE':
            samples.append(f[1])
        elif f[0] == 'BUCKET':
            buckets[f[1]] = int(f[2])
    finished = any(l.startswith('STATS') for l in so.split('\n'))
    if not finished and not any(f['key'].startswith('crash') for f in fails):
        cur = ''
        try:
            cur = open(os.path.join(out, 'current.txt'), 'rb').read().split(b'\0')[0].decode(errors='replace')
        except OSError:
            pass
        fails.append(dict(key='crash:' + cur.split('|')[0], file=None, case=cur, msg='process ended with status %s\n%s' % (rc, se[-2500:])))
    return dict(fails=fails, stats=stats, samples=samples, buckets=buckets, rc=rc)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[prop]
    t0 = time.time()
    work = frontend.scratch()
    ev = os.path.join(HERE, 'evidence')
    rp = os.path.join(ev, 'replay')
    os.makedirs(rp, exist_ok=True)
    for f in os.listdir(rp):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rp, f))
    # 1. replay driver is built while the proof runs
    drv = {}
    frontend.gen_proto()
    import threading
    exe_box = {}

    def bg():
        try:
            exe, log = build_driver(P['replay'], work)
            exe_box['log'] = log
            if exe:
                exe_box['exe'] = exe
                secs = P['replay'].get('secs', 12) * (8 if tier == 'thorough' else 1)
                exe_box['run'] = run_driver(exe, prop, seed, secs, work, tier)
        except Exception:
            exe_box['log'] = traceback.format_exc()
    th = threading.Thread(target=bg)
    # 2. proof
    jobs = []
    tus = set()
    for modname in P['modules']:
        m = importlib.import_module('contracts.' + modname)
        for i, g in enumerate(m.GOALS[prop]):
            o = g[3] if len(g) > 3 else {}
            tus.add(o.get('tu', m.TU))
            jobs.append((modname, prop, i, False))
    tu_err = {}
    for tu in sorted(tus):
        try:
            AST[tu] = load(tu)
        except ExtractionError as e:
            AST[tu] = None
            tu_err[tu] = str(e)[:2000]
    res = []
    th.start()
    if jobs:
        budget = 600 if tier == 'quick' else 3000
        for j, r in zip(jobs, run_jobs(run_goal, jobs, 7, t0 + budget)):
            if r is None:
                m = importlib.import_module('contracts.' + j[0])
                r = dict(name=m.GOALS[prop][j[2]][0], failed=[], obligations=0, discharged=0, backends={}, extraction='time budget exhausted', secs=0, cex=[], info={}, inlined=[], contracts=[], assumed=[], solver_s={}, vacuous=0)
            res.append((j, r))
        # failures get a second attempt with larger solver budgets before they count
        retry = [k for k, (j, r) in enumerate(res) if r['failed'] and not r['extraction']]
        if retry and time.time() - t0 < 400:
            for k, rr in zip(retry, run_jobs(run_goal, [res[k][0][:3] + (True,) for k in retry], 7, t0 + 700, silence=150, attempts=2)):
                if rr is not None and len(rr['failed']) <= len(res[k][1]['failed']):
                    res[k] = (res[k][0], rr)
    th.join()
    results = [r for _, r in res]
    failed = [(r['name'], f) for r in results for f in r['failed'] if not r['extraction']]
    extr = [(r['name'], r['extraction']) for r in results if r['extraction']]
    run = exe_box.get('run')
    # 3. replay the verifier's counterexamples on the real code
    cex = [c for r in results for c in r['cex'] if c]
    if failed and run is not None and not run['fails']:
        for c in run_jobs(refute_goal, [j for j, r in res if r['failed']], 7, time.time() + 100, attempts=1):
            cex += [x for x in c or [] if x]
    if cex and run is not None and 'exe' in exe_box and not run['fails']:
        cf = os.path.join(work, 'cex.txt')
        with open(cf, 'w') as f:
            for c in cex[:40]:
                for k, v in c.items():
                    f.write(k + ' ' + ' '.join(str(x) for x in v) + '\n')
        run2 = run_driver(exe_box['exe'], prop, seed + 1, 20, work, tier, cf, 'cex')
        if run2['fails']:
            run['fails'] = run2['fails']
    known = [(k, d) for p, k, d in known_findings() if p == prop]
    viol = []
    seen_known = set()
    for f in (run['fails'] if run else []):
        hit = [k for k, d in known if k == f['key']]
        if hit:
            seen_known.add(hit[0])
            continue
        path = os.path.join(rp, '%s-input-%d.txt' % (prop, len(viol)))
        with open(path, 'w') as o:
            o.write('property %s\nkey %s\ncase %s\n%s\nreplay: rebuild replay/%s against /repo and run it with: %s %s <seconds> <outdir> %s\n' % (
                prop, f['key'], f['case'], f['msg'], P['replay']['src'], prop, seed, tier))
            if failed:
                o.write('\nfailed obligations:\n' + '\n'.join('%s :: %s [%s] %s' % (n, x['name'], x['status'], x['detail']) for n, x in failed))
        viol.append((path, ''))
    for k, d in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, d))
    if not viol and failed:
        path = os.path.join(rp, '%s-obligation.txt' % prop)
        with open(path, 'w') as o:
            o.write('property %s\nobligations of /repo\'s current source that the verifier does not discharge:\n' % prop)
            for n, x in failed:
                o.write('\n%s :: %s\n  verdict %s (%s), near source line %s\n  goal %s\n' % (n, x['name'], x['status'], x['backend'], x['line'], x['detail']))
        viol.append((path, ' no-failing-input-found'))
    # 4. evidence
    nob = sum(r['obligations'] for r in results)
    nok = sum(r['discharged'] for r in results)
    be = {}
    for r in results:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
    st = {}
    for r in results:
        for k, v in r['solver_s'].items():
            st[k] = round(st.get(k, 0) + v, 2)
    level = 'proof' if nob and not extr else 'other'
    cov = dict(obligations=nob, discharged=nok, checker_cmd='python3-vt check.py %s %s' % (prop, tier),
               trusted_base=props.TRUSTED,
               back_ends=be, solver_seconds=st,
               functions=[dict(goal=r['name'], obligations=r['obligations'], discharged=r['discharged'], seconds=r['secs'],
                               paths=r.get('info', {}).get('paths'), loops=r.get('info', {}).get('loops'), contracts_used=r['contracts'], bodies_inlined=r['inlined']) for r in results],
               outside_reach=[dict(goal=n, reason=e) for n, e in extr],
               bounded_cross_check=None if run is None else dict(label='bounded', evaluations=run['stats'][0], distinct_nontrivial=run['stats'][1], buckets=run['buckets'], samples=run['samples'][:6]),
               explanation='contracts over the functions listed are discharged from clang\'s AST of the current source; goals listed under outside_reach were decided by the bounded run only')
    if run is not None:
        cov['evaluations'], cov['distinct_nontrivial'] = run['stats']
        cov['rule'] = P.get('rule', 'bounded run of the real code against an independent oracle: exhaustive small inputs, then random ones mixing in the numeric literals of the sources')
        cov['samples'] = run['samples'][:6]
    e = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov,
             assumptions=props.ASSUMPTIONS + P.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
    print('%s: %d/%d obligations discharged over %d goals, %d outside reach; replay %s; %.0fs' % (
        prop, nok, nob, len(results), len(extr), 'not built: ' + exe_box.get('log', '')[:300] if run is None else '%d cases, %d failing' % (run['stats'][0], len(run['fails'])), time.time() - t0))
    for n, x in extr:
        print('  outside reach: %s: %s' % (n, x.split('\n')[0][:200]))
    for n, x in failed:
        print('  not discharged: %s :: %s [%s]' % (n, x['name'], x['status']))
    if viol:
        for f in (run['fails'] if run else []):
            print('  input: %s %s %s' % (f['key'], f['case'][:300], f['msg'][:300].replace('\n', ' ')))
        for path, tail in viol[:1]:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
        return 1
    if run is None and (extr or not nob):
        print('no verdict: neither the proof nor the bounded run is available')
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    shutil.rmtree(os.environ.get('VERIF_SCRATCH', '/nonexistent-scratch'), ignore_errors=True)
    os._exit(rc)
