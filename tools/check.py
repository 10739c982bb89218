#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.

1. gover verifies, function by function, the contracts in /verif/contracts
   that state the property, on the source in /repo (no bound).
2. The bounded stand-in (harness/) runs the real code on generated inputs for
   a fixed time: it covers what the contracts leave open, and looks for a
   concrete failing input when an obligation fails.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer.
"""
import glob, json, os, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo/Go/sereal'
prop = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2:
    tier = sys.argv[2]
if tier not in ('quick', 'thorough'):
    tier = 'quick'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
t0 = time.time()
DEADLINE = t0 + (860 if tier == 'quick' else 6 * 3600)
HARNESS_TIME = 40 if tier == 'quick' else 900   # the stated bound of the stand-in
SEARCH_TIME = 90 if tier == 'quick' else 900    # looking for a witness of a failed obligation

env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')
conf = json.load(open(os.path.join(VERIF, 'tools', 'props.json')))[prop]


def die(msg):
    print('ERROR', prop, msg)
    sys.exit(2)


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(1, timeout),
                           env=env, text=True, errors='replace', **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ''
        return 124, out if isinstance(out, str) else out.decode(errors='replace')


def gover(work):
    exe = os.path.join(work, 'gover')
    rc, out = run(['go', 'build', '-o', exe, '.'], 300, cwd=os.path.join(VERIF, 'gover'))
    if rc != 0:
        die('cannot build gover: ' + out[-2000:])
    js = os.path.join(work, 'gover.json')
    cmd = [exe, '-prop', prop, '-repo', REPO, '-contracts', os.path.join(VERIF, 'contracts'),
           '-limit', '%ds' % (480 if tier == 'quick' else 3600), '-json', js]
    rc, out = run(cmd, DEADLINE - time.time() - HARNESS_TIME - 100)
    try:
        return json.load(open(js)), ''
    except (OSError, ValueError):
        return None, 'gover gave no report (exit %d): %s' % (rc, out[-1500:])


def build_harness(work, race):
    exe = os.path.join(work, 'harness')
    rc, out = run([os.path.join(VERIF, 'harness', 'build.sh'), exe] + (['race'] if race else []), 400)
    if rc != 0:
        die('cannot build the harness with the tree in /repo: ' + out[-3000:])
    return exe


def harness(exe, work, seconds, sd):
    """Returns (report, violation dict or None)."""
    cur = os.path.join(work, 'cur%d' % sd)
    os.makedirs(cur, exist_ok=True)
    js = os.path.join(work, 'h%d.json' % sd)
    rc, out = run([exe, '-prop', prop, '-time', '%ds' % seconds, '-seed', str(sd), '-current', cur, '-out', js],
                  seconds + 150)
    rep = None
    try:
        rep = json.load(open(js))
    except (OSError, ValueError):
        pass
    race = 'WARNING: DATA RACE' in out
    if rep is not None and rep.get('violation'):
        return rep, {'observed': rep['violation'], 'case': rep['case'], 'inputs': rep.get('inputs')}
    if rep is not None and rc == 0 and not race:
        return rep, None
    cases = []
    for f in sorted(glob.glob(cur + '/*')):
        b = open(f, 'rb').read(8)
        if len(b) == 8:
            cases.append(struct.unpack('<Q', b)[0])
    if race:
        return rep, {'observed': 'data race:\n' + out[out.index('WARNING: DATA RACE'):][:4000], 'case': cases[0] if cases else 0, 'inputs': {'cases running': str(cases)}}
    if rc in (137, -9, 124):
        # killed or out of time: only a reproducible case counts
        pass
    for c in cases:
        rc1, out1 = run([exe, '-prop', prop, '-case', str(c)], 90)
        if rc1 not in (0, -9, 137):
            return rep, {'observed': 'the process died or did not answer (exit %d): %s' % (rc1, out1[-3000:]),
                         'case': c, 'inputs': None}
    return rep, {'error': 'harness exit %d without a report: %s' % (rc, out[:3000])}


def main():
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        decide(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known():
    findings = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('finding: property=%s ' % prop):
                findings.append(l.split(' ', 2)[2].strip())
    except OSError:
        pass
    return findings


def decide(work):
    for f in known():
        print('KNOWN-FINDING: property=%s %s' % (prop, f))
    exe = build_harness(work, conf.get('race', False))
    g, gerr = gover(work)
    hrep, hviol = harness(exe, work, HARNESS_TIME, seed)
    if hviol and 'error' in hviol:
        # a second chance on a loaded machine
        hrep, hviol = harness(exe, work, HARNESS_TIME, seed + 1)
        if hviol and 'error' in hviol:
            die(hviol['error'])
    failed = (g or {}).get('failed') or []
    evals = [hrep] if hrep else []
    if failed and not hviol:
        for i in range(1, 3):
            if time.time() + SEARCH_TIME / 2 + 160 > DEADLINE:
                break
            r, v = harness(exe, work, SEARCH_TIME // 2, seed + 100 * i)
            if r:
                evals.append(r)
            if v and 'error' not in v:
                hviol = v
                break
    violated = bool(failed or hviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', 'replay-%s.json' % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    if violated:
        data = {'property': prop, 'seed': seed}
        if hviol:
            data['failing_input'] = hviol
            data['reproduce'] = ('%s/harness/build.sh /tmp/h%s && /tmp/h -prop %s -case %s'
                                 % (VERIF, ' race' if conf.get('race') else '', prop, hviol['case']))
        data['failed_obligations'] = failed
        json.dump(data, open(replay, 'w'), indent=1)
    evidence(g, gerr, evals, 1 if violated else 0)
    for f in failed:
        print('obligation not discharged (%s): %s %s: %s [%s]' % (f['status'], f['at'], f['function'], f['obligation'], f['kind']))
    for u in (g or {}).get('unsupported') or []:
        print('left to the bounded stand-in:', u)
    for u in (g or {}).get('missing') or []:
        print('contract without its function, left to the bounded stand-in:', u)
    if gerr:
        print('no proof this time, bounded stand-in only:', gerr[:500])
    if hviol:
        print('failing input found:', str(hviol['observed'])[:1000])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        sys.exit(1)
    if failed:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        sys.exit(1)
    print('%s held: %s' % (prop, summary(g, evals)))


def summary(g, evals):
    s = []
    if g:
        s.append('%d of %d obligations in %d functions discharged' % (g['discharged'], g['obligations'], len(g['functions'] or [])))
    s.append('%d cases of the bounded stand-in' % sum(e['evaluations'] for e in evals))
    return ', '.join(s)


def evidence(g, gerr, evals, violations):
    level = conf['level']
    cov = {}
    assumptions = list(conf.get('assumptions', []))
    if g:
        fns = g['functions'] or []
        bad = {u.split(':')[0] for u in g['unsupported'] or []}
        cov.update({
            'obligations': g['obligations'],
            'discharged': g['discharged'],
            'checker_cmd': 'cd /verif/gover && go build -o /tmp/gover . && /tmp/gover -prop %s -repo %s -contracts /verif/contracts' % (prop, REPO),
            'trusted_base': [
                'gover: the verification condition generator in /verif/gover (symbolic execution of go/ssa built from /repo on every run)',
                'golang.org/x/tools/go/ssa, the Go type checker',
                'z3 4.8.12 (first), cvc5 1.1.2 and the newer z3 where it answers unknown',
            ] + ['contract taken on trust: ' + t for t in g['trusted'] or []],
            'obligations_by_kind': g['by_kind'],
            'back_end': 'z3 discharges all obligations except %d of %d queries, decided by cvc5 or the newer z3' % (g['fallback_queries'], g['queries']),
            'solver_queries': g['queries'],
            'solver_seconds': round(g['solver_seconds'], 1),
            'functions_under_contract': [f['function'] for f in fns if f['function'] not in bad],
            'functions_inlined_into_them': sorted({i for f in fns for i in f.get('inlined') or []}),
            'contracts_used_for_callees': sorted({i for f in fns for i in f.get('by_contract') or []}),
            'functions_outside_the_verifier_bounded_only': (g['unsupported'] or []) + (g['missing'] or []),
            'sample_obligations': g['sample'],
        })
        assumptions += g['assumptions'] or []
    else:
        cov['proof_not_available'] = gerr
    if evals:
        cov['bounded_stand_in'] = {
            'label': 'bounded: real code run on generated inputs, never counted as proved',
            'bound': '%d s per run' % HARNESS_TIME,
            'for': conf.get('bounded_for', ''),
        }
        cov['evaluations'] = sum(e['evaluations'] for e in evals)
        cov['distinct_nontrivial'] = max(e['distinct_nontrivial'] for e in evals)
        cov['rule'] = evals[0]['rule']
        cov['samples'] = evals[0].get('samples') or ['(none recorded)']
    cov['explanation'] = conf['note']
    if level == 'proof' and (not g or not g['obligations']):
        level = 'other'
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': violations},
              open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


main()
