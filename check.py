#!/usr/bin/env python3-vt
"""Run the check of one property:  check.py <id> [--tier quick|thorough]

Exit 0: every obligation discharged (and the bounded stand-ins, where there
are any, found nothing).  Exit 1 with a VIOLATION line otherwise.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'irv'))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

REPO = os.environ.get('VERIF_REPO', '/repo')
_mods = {}
_targets = []


def _run(k):
    import unit
    i, debug, scale, tscale = k
    mname, t = _targets[i]
    return unit.verify(_mods[mname], t, debug=debug, timescale=scale, tscale=tscale)


def second_look(results, order, seconds):
    """prove the failed targets again with four times the solver time, so that
    a verdict does not rest on how fast the machine was"""
    again = [k for k, r in enumerate(results) if r['status'] == 'failed']
    pl = mp.get_context('fork').Pool(min(8, len(again)))
    t1 = time.time()
    jobs = [(k, pl.apply_async(_run, ((order[k], False, 6.0, 4),))) for k in again]
    for k, j in jobs:
        try:
            r = j.get(max(0.1, seconds - (time.time() - t1)))
        except mp.TimeoutError:
            break
        if r['status'] == 'proved':
            results[k] = r
        else:
            break       # one confirmed failure is enough
    pl.terminate()


def build_native(src, out, extra=()):
    cmd = ['clang++', '-std=c++20', '-w', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
           '-fno-omit-frame-pointer', '-I', VERIF, '-I', os.path.join(VERIF, 'native'), '-I', os.path.join(VERIF, 'shims'), '-I', REPO,
           '-I', os.path.join(REPO, 'include'), src, '-o', out] + list(extra)
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), ' '.join(cmd)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = importlib.import_module('props.' + pid)
    thorough = a.tier == 'thorough'
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        rc = run(P, pid, a, seed, thorough, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(P, pid, a, seed, thorough, work, t0):
    import build
    import z3
    os.environ['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0'
    native = None
    problems = []
    gen = list(P.PREPARE(work, REPO)) if hasattr(P, 'PREPARE') else []     # sources extracted mechanically from the current tree
    nat_src = os.path.join(VERIF, 'native', P.NATIVE) if getattr(P, 'NATIVE', None) else None
    ncmd = ''
    if nat_src and not a.no_native:
        nbin = os.path.join(work, 'native')
        native, ncmd = build_native(nat_src, nbin, gen + list(getattr(P, 'NATIVE_FLAGS', ())))
    # ---- verification conditions from the real source
    results = []
    cmds = []
    if not a.no_proof:
        ok_units = {}
        pool = mp.pool.ThreadPool(4) if hasattr(mp, 'pool') else None
        for mname, cc in P.UNITS.items():
            try:
                _mods[mname] = build.load(os.path.join(VERIF, 'units', cc), work, gen + list(getattr(P, 'CXXFLAGS', ())))
                cmds.append(_mods[mname].cmd)
            except build.CompileError as e:
                problems.append('unit %s does not compile: %s' % (cc, str(e)[-600:]))
        for mname, t in P.targets(thorough):
            if mname in _mods and (not a.only or a.only in t.name):
                _targets.append((mname, t))
        order = sorted(range(len(_targets)), key=lambda i: -_targets[i][1].budget)
        if a.debug:
            results = [_run((i, True, 1.0, 1)) for i in range(len(_targets))]
        elif _targets:
            with mp.get_context('fork').Pool(min(8, len(_targets))) as pl:
                results = pl.map(_run, [(i, False, 3.0 if thorough else 1.0, 1) for i in order], chunksize=1)
    # ---- runtime contracts: replay and search
    nat = dict(built=False, evaluations=0, fails=[])
    if native is not None:
        out, _ = native.communicate()
        if native.returncode != 0:
            problems.append('native contract driver does not compile: ' + out[-1500:])
        else:
            nat['built'] = True
            cases = [f['case'] for r in results for f in r['failed'] if f.get('case')]
            if cases:
                for c in cases:
                    cf = os.path.join(work, 'cases.txt')
                    with open(cf, 'w') as f:
                        f.write(c + '\n')
                    fl, o = run_native([nbin, 'case', cf], 60)
                    if fl:
                        nat['fails'].append(dict(case=fl, source='verifier counterexample'))
                        break
            secs = getattr(P, 'SEARCH_SECS', 10) * (8 if thorough else 1)
            fl, o = run_native([nbin, 'search', str(seed), str(secs), a.tier], secs * 5 + 240)
            if fl:
                nat['fails'].append(dict(case=fl, source='search'))
            nat['summary'] = o.strip().split('\n')[-1][:400] if o.strip() else ''
            for tok in nat['summary'].split():
                if tok.isdigit():
                    nat['evaluations'] = int(tok)
                    break
    if not nat['fails'] and not a.debug and any(r['status'] == 'failed' for r in results):
        left = 700 - (time.time() - t0)
        if left > 20:
            second_look(results, order, 3000 if thorough else left)
    return report(P, pid, a, seed, thorough, work, t0, results, nat, problems, cmds, ncmd)


def run_native(cmd, timeout):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', cwd=os.path.dirname(cmd[0]))
    except subprocess.TimeoutExpired as e:
        return None, 'TIMEOUT'
    fl = None
    for ln in p.stdout.split('\n'):
        if ln.startswith('FAIL '):
            fl = ln
            break
    if fl is None and p.returncode != 0:
        fl = 'FAIL ? :: exit %d %s' % (p.returncode, (p.stderr or '')[-600:].replace('\n', ' | '))
    if fl and 'sanitizer' in fl:
        fl += ' | ' + (p.stderr or '')[:900].replace('\n', ' | ')
    return fl, p.stdout


def report(P, pid, a, seed, thorough, work, t0, results, nat, problems, cmds, ncmd):
    obligations = sum(r['obligations'] for r in results if r['status'] in ('proved', 'failed', 'vacuous'))
    discharged = sum(r['discharged'] for r in results if r['status'] in ('proved', 'failed', 'vacuous'))
    proved = [r for r in results if r['status'] == 'proved']
    failed = [r for r in results if r['status'] == 'failed']
    undecided = [r for r in results if r['status'] in ('unsupported', 'vacuous')]
    known = load_known(pid)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rc = 0
    lines = []
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    rp = os.path.join(replay_dir, '%s.txt' % pid)
    bad = None
    if nat['fails']:
        bad = 'input'
    elif failed:
        bad = 'obligation'
    if bad:
        rc = 1
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            for x in nat['fails']:
                f.write('failing input (%s): %s\n' % (x['source'], x['case']))
                f.write('replay: %s && <binary> case <file with the text between FAIL and ::>\n' % ncmd)
            for r in failed:
                for o in r['failed']:
                    f.write('\nfailed obligation: %s / %s  [%s]\n  goal: %s\n' % (r['target'], o['name'], o['status'], o['goal']))
                    if o.get('model'):
                        f.write('  counterexample: %s\n' % o['model'])
                    if o.get('case'):
                        f.write('  as input: %s\n' % o['case'])
        for r in failed:
            for o in r['failed'][:3]:
                print('failed obligation: %s / %s [%s]' % (r['target'], o['name'], o['status']))
        for x in nat['fails']:
            print('failing input: %s' % x['case'][:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if bad == 'input' else ' no-failing-input-found'))
    else:
        try:
            os.unlink(rp)
        except OSError:
            pass
    if rc == 0 and not results and not nat['built']:
        print('ERROR: neither the units nor the native driver could be built')
        for p in problems:
            print(p)
        rc = 2
    funcs = {}
    models, contracts, assum = {}, {}, set(getattr(P, 'ASSUMPTIONS', ()))
    backends = {}
    for r in results:
        st = r.get('stats', {})
        for k, v in st.get('inlined', {}).items():
            funcs.setdefault(k, []).append(r['target'])
        for k in st.get('models_used', {}):
            models[k] = models.get(k, 0) + 1
        for k in st.get('contracts_used', {}):
            contracts[k] = contracts.get(k, 0) + 1
        assum.update(r.get('assumptions', ()))
        for k, v in r.get('backends', {}).items():
            backends[str(k)] = backends.get(str(k), 0) + v
    tb = ['clang 18 front end and sroa/simplifycfg (IR is taken as the meaning of the source)',
          'irv VC generator (/verif/irv)', 'z3 / cvc5'] + ['assumed library contract: ' + m for m in sorted(models)]
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed,
              level=getattr(P, 'LEVEL', 'proof'), wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0,
              assumptions=sorted(assum) + ['library functions behave as their assumed contracts (trusted_base)',
                                           'termination is checked only where listed under loops'],
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd='python3-vt check.py %s --tier %s' % (pid, a.tier), trusted_base=tb,
                  targets=[dict(target=r['target'], driver=r['fn'], status=r['status'], about=r.get('about', ''), obligations=r['obligations'],
                                discharged=r['discharged'], paths=r['paths'], solver_s=r['solver_secs'], secs=r.get('secs'),
                                why=r.get('why'), covers=r.get('covers'), loops=r.get('stats', {}).get('loops'),
                                invariants=r.get('stats', {}).get('invariants')) for r in results],
                  functions_under_contract={k: sorted(set(v)) for k, v in sorted(funcs.items())},
                  callee_contracts_used=contracts, back_ends=backends,
                  solver_s=round(sum(r['solver_secs'] for r in results), 2),
                  loops=[dict(function=f, header=h, terminates='proved' if ok else 'not proved') for r in results for f, h, ok in r.get('term', [])],
                  not_proved=[dict(target=r['target'], why=r.get('why'), trace=r.get('trace', '')[-300:]) for r in undecided],
                  bounded_standin=dict(label='bounded (runtime contracts on the real code; never counted as proved)',
                                       evaluations=nat['evaluations'], summary=nat.get('summary', ''), bound=getattr(P, 'BOUND', '')),
                  problems=problems))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d targets proved, %d failed, %d not decided by proof; %d/%d obligations; native %s; %.1fs' % (
        pid, len(proved), len(failed), len(undecided), discharged, obligations, nat.get('summary', '')[:200], time.time() - t0))
    for r in undecided:
        print('  not proved: %s (%s) %s' % (r['target'], r.get('why'), r.get('trace', '')[-200:] if a.debug else ''))
    for p in problems:
        print('  problem:', p[:1500])
    return rc


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


if __name__ == '__main__':
    main()
