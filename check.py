#!/usr/bin/env python3
"""Decide one property of cesride by symbolic execution of its compiled code.

usage: check.py PROPERTY [quick|thorough]     (default: $VERIF_TIER or quick)
       check.py --setup                       (build everything, decide nothing)

1. builds the engine (engine/), the symbolic harness binary (harness/, LLVM IR of
   the harness + cesride as they stand in /repo) and the native replay binary
   (native/, same harness sources, real dependencies)
2. runs the engine on the property's jobs (jobs.py)
3. replays every counterexample and a sample of completed paths natively
4. writes evidence/<property>.json
exit: 0 held, 1 VIOLATION (reproduced on the real code), 2 no answer
"""
import fcntl, glob, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(ROOT, '.work')
REPO = os.environ.get('CESRIDE_REPO', '/repo')
import jobs as J

def env(sub, **kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', RUSTFLAGS='--cap-lints allow',
             CARGO_TARGET_DIR=os.path.join(WORK, sub), CARGO_TERM_COLOR='never')
    for k in ('CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    e.update(kw)
    return e

class NoAnswer(Exception):
    pass

def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-4000:] + '\n')
        raise NoAnswer('building %s failed' % what)
    return p.stdout

def build_engine():
    run(['cargo', 'build', '--release', '--offline'], os.path.join(ROOT, 'engine'), env('engine'), 'the engine')

def build_harness(feat):
    d = os.path.join(WORK, 'harness', 'release', 'deps')
    for f in glob.glob(os.path.join(d, 'hx-*.ll')):
        os.remove(f)
    h = os.path.join(ROOT, 'harness')
    e = env('harness')
    if os.path.isdir(d):  # never trust time stamps of /repo's files
        subprocess.run(['cargo', 'clean', '--release', '--offline', '-p', 'cesride', '-p', 'cesride-wasm', '-p', 'hx'], cwd=h, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    run(['cargo', 'rustc', '--release', '--offline', '--locked'] + feat + ['--', '--emit=llvm-ir', '-C', 'no-vectorize-loops',
         '-C', 'no-vectorize-slp', '-C', 'link-args=-Wl,--unresolved-symbols=ignore-all'], h, e, 'the symbolic harness')
    ll = glob.glob(os.path.join(d, 'hx-*.ll'))
    if len(ll) != 1:
        raise NoAnswer('no LLVM IR produced')
    return ll[0]

def build_native(feat):
    h = os.path.join(ROOT, 'native')
    e = env('native')
    if os.path.isdir(os.path.join(WORK, 'native')):
        subprocess.run(['cargo', 'clean', '--release', '--offline', '-p', 'cesride', '-p', 'cesride-wasm', '-p', 'native'], cwd=h, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    run(['cargo', 'build', '--release', '--offline', '--locked'] + feat, h, e, 'the native replay binary')

def build(features=None):
    feat = ['--features', features] if features else []
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build_engine), ex.submit(build_harness, feat), ex.submit(build_native, feat)]
            r = [f.result() for f in fs]
        ll = os.path.join(WORK, 'hx-%d.ll' % os.getpid())
        shutil.copy(r[1], ll)
        nat = os.path.join(WORK, 'native-%d' % os.getpid())
        shutil.copy(os.path.join(WORK, 'native', 'release', 'native'), nat)
    return ll, nat

def expand(spec, tier):
    """[(harness, case)] of a job list at a tier"""
    out = []
    for j in spec:
        cs = j.get('quick') if tier == 'quick' else j.get('thorough', j.get('quick'))
        out += [(j['h'], c) for c in cs]
    return out

def replay(nat, h, case, tier, inputs, path):
    with open(path, 'w') as f:
        f.write('# harness %s case %d tier %d\n' % (h, case, tier))
        f.write('# replay: cd native && cargo run --release --offline -- %s %d %d FILE\n' % (h, case, tier))
        for i, hx in inputs:
            if i < 9000:
                f.write('%d %s\n' % (i, hx))
    try:
        p = subprocess.run([nat, h, str(case), str(tier), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return 'timeout', [], 'no answer within 120 s'
    o = p.stdout.decode('utf8', 'replace')
    cov = [l[13:] for l in o.splitlines() if l.startswith('REPLAY cover ')]
    last = [l for l in o.splitlines() if l.startswith('REPLAY ') and not l.startswith('REPLAY cover ')]
    last = last[-1] if last else o[-300:]
    if p.returncode == 0:
        return 'ok', cov, last
    if p.returncode == 1 or p.returncode < 0 or p.returncode in (101, 134, 139):
        return 'violation', cov, last
    return {7: 'diverged', 8: 'assumption'}.get(p.returncode, 'error'), cov, last

def known(prop):
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == prop and k.get('status') == 'known']

def main():
    if sys.argv[1] == '--setup':
        for f in ('wasm', None):
            ll, nat = build(f)
            os.remove(ll), os.remove(nat)
        print('built')
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    spec = J.PROPS[prop]
    t0 = time.time()
    ll, nat = build(spec.get('features'))
    out = os.path.join(WORK, 'out-%s-%d' % (prop, os.getpid()))
    rdir = os.path.join(WORK, 'replay', prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    tb = time.time() - t0
    try:
        return decide(prop, tier, spec, ll, nat, out, rdir, t0, tb)
    finally:
        for f in (ll, nat):
            if os.path.exists(f):
                os.remove(f)
        shutil.rmtree(out, ignore_errors=True)

def decide(prop, tier, spec, ll, nat, out, rdir, t0, tb):
    tn = 0 if tier == 'quick' else 1
    jobs = expand(spec['jobs'], tier)
    limit = spec.get('time', {}).get(tier, 600 if tier == 'quick' else 7200)
    cmd = [os.path.join(WORK, 'engine', 'release', 'symex'), '--ll', ll, '--out', out, '--par', str(os.cpu_count() or 4), '--time', str(limit),
           '--tier', str(tn), '--solver-timeout', str(60000 if tn == 0 else 300000), '--src', REPO + '/']
    if tn == 1 and os.path.exists('/usr/local/bin/z3-new'):
        pass
    for h, c in jobs:
        cmd += ['--job', '%s:%d' % (h, c)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res = []
    for i in range(len(jobs)):
        f = os.path.join(out, '%d.json' % i)
        res.append(json.load(open(f)) if os.path.exists(f) else {'crashed': 'no result'})
    problems, viols, kf = [], [], []
    partial, pjobs = [], set()  # jobs that were not explored to the end
    covers, funcs = {}, {}
    tot = dict(paths=0, completed=0, forks=0, asserts=0, asserts_trivial=0, asserts_solver=0, unary=0, cached=0, modelhits=0, queries=0, sat=0, unsat=0, instrs=0, panics_ok=0, assumed=0)
    st, mq = 0.0, 0.0
    traces, mism, samples = 0, [], []
    n = 0
    tuf = 0
    known_l = known(prop)
    for (h, c), r in zip(jobs, res):
        if 'crashed' in r:
            partial.append('%s:%d engine stopped: %s' % (h, c, r['crashed']))
            pjobs.add((h, c))
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        st += r['solver_time']
        mq = max(mq, r['max_query'])
        for k, v in r['covers'].items():
            covers.setdefault(h, {}).setdefault(k, 0)
            covers[h][k] += v
        covers.setdefault(h, {})
        for f in r['functions']:
            funcs.setdefault(f, 0)
            funcs[f] += 1
        for k, v in r['incomplete'].items():
            partial.append('%s:%d incomplete: %s (%d)' % (h, c, k, v))
            pjobs.add((h, c))
        for v in r['violations']:
            n += 1
            f = os.path.join(rdir, '%s-%d-%d.txt' % (h, c, n))
            res_, cov, last = replay(nat, h, c, tn, v['inputs'], f)
            where = '%s:%d %s %s %s' % (h, c, v['kind'], v['msg'], v['loc'])
            if res_ == 'violation':
                k = [k for k in known_l if k['harness'] == h and k['kind'] == v['kind'] and k['msg'] == v['msg']
                     and (not k.get('inputs') or [list(x) for x in k['inputs']] == [list(x) for x in v['inputs']])]
                if k:
                    kf.append(k[0]['what'])
                else:
                    viols.append((where, f, last))
            else:
                partial.append('counterexample not reproduced (%s; %s): %s %s' % (res_, last, where, v['inputs']))
                pjobs.add((h, c))
        for s in r.get('samples', [])[:spec.get('samples', 2) if tn == 0 else 4]:
            if any(True for k in s['covers']) or r['completed']:
                f = os.path.join(rdir, 'sample.txt')
                res_, cov, last = replay(nat, h, c, tn, s['inputs'], f)
                traces += 1
                if res_ == 'violation':
                    k = [k for k in known_l if k['harness'] == h and k['msg'] in last]
                    f2 = os.path.join(rdir, '%s-%d-native.txt' % (h, c))
                    shutil.copy(f, f2)
                    if not k:
                        viols.append(('%s:%d native run of a path the engine completed' % (h, c), f2, last))
                elif res_ != 'ok' or cov != s['covers']:
                    if any(i >= 9000 for i, _ in s['inputs']) or spec.get('ideal') or r.get('ufs'):
                        tuf += 1
                    else:
                        mism.append('%s:%d sample path: native says %s %s, engine says %s (%s)' % (h, c, res_, cov, s['covers'], last))
                if len(samples) < 12 and (len(samples) == 0 or samples[-1]['harness'] != h):
                    samples.append({'harness': h, 'case': c, 'inputs': s['inputs'][:6], 'covers': s['covers'], 'native': last})
    for j in spec['jobs']:
        if not expand([j], tier):
            continue
        for want in j.get('covers', ['*']):
            got = covers.get(j['h'], {})
            if (want == '*' and not got) or (want != '*' and not got.get(want)):
                problems.append('%s: reachability witness %s not reached (vacuous?)' % (j['h'], want))
    problems += mism
    if len(pjobs) * 3 > len(jobs):
        problems.append('%d of %d jobs not explored to the end' % (len(pjobs), len(jobs)))
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': traces, 'samples': samples,
            'explanation': 'states: symbolic paths of the real code explored to the end; transitions: feasible branch alternatives taken; each path stands for every input value that follows it',
            'jobs': len(jobs), 'asserts_checked': tot['asserts'], 'asserts_decided_by_folding': tot['asserts_trivial'],
            'asserts_decided_by_solver_layer': tot['asserts_solver'], 'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'],
            'solver_seconds': round(st, 2), 'longest_query_s': round(mq, 3), 'single_byte_decisions': tot['unary'], 'cached': tot['cached'],
            'decided_by_model_reuse': tot['modelhits'], 'ir_instructions': tot['instrs'], 'expected_panics': tot['panics_ok'],
            'ideal_function_traces_differing': tuf,
            'reachability_witnesses': covers, 'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs),
            'bounds': spec['bounds'], 'outside_the_claim': spec.get('outside', ''), 'incomplete': problems + partial, 'jobs_not_explored_to_the_end': len(pjobs), 'known_findings': kf,
            'exhaustive_within_bounds': not problems and not partial,
        },
        'assumptions': spec.get('assumptions', []) + J.COMMON,
        'wall_s': round(time.time() - t0, 1), 'violations': len(viols),
    }
    ev['coverage']['build_s'] = round(tb, 1)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d jobs, %d paths, %d asserts, %d solver queries (%.1f s), %d native traces, %d functions of the repository, %.0f s (build %.0f s)' % (
        prop, tier, len(jobs), tot['paths'], tot['asserts'], tot['queries'], st, traces, len(funcs), time.time() - t0, tb))
    for k in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for q in problems[:40]:
        print('NO-ANSWER: ' + q[:600])
    for q in partial[:40]:
        print('PARTIAL: ' + q[:600])
    if viols:
        seen = set()
        for w, f, last in viols:
            if w in seen:
                continue
            seen.add(w)
            print('  ' + w + ' :: ' + last)
            print('VIOLATION property=%s replay=%s' % (prop, f))
            if len(seen) >= 12:
                break
        return 1
    return 2 if problems else 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except NoAnswer as e:
        print('NO-ANSWER: %s' % e)
        sys.exit(2)
