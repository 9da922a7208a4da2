#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""check.py PROP [--tier quick|thorough]: decide one property of /repo's current tree.  See DESIGN.md."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYVT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
VENVS = [p for p in ('/opt/venv/bin/python', '/opt/venv-slow/bin/python') if os.path.exists(p)]
TECH = json.load(open(os.path.join(VERIF, 'props_meta.json'), encoding='utf-8'))


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_REPO=REPO, PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')
    e.pop('PYMORPHY2_DICT_PATH', None)
    return e


def sh(cmd, timeout):
    """Run, return stdout; kills the whole group on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF, env=env(), start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, 'timeout after %d s' % timeout
    return out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')


def run_oracle(prop, seed, budget, py, tmp, hints=None, tag=''):
    name = py.split('/')[2]
    out = os.path.join(tmp, 'oracle_%s%s.json' % (name, tag))
    cmd = [py, os.path.join(VERIF, 'oracles', 'run.py'), prop, str(seed), str(budget), out]
    if hints is not None:
        h = os.path.join(tmp, 'hints%s.json' % tag)
        json.dump(hints, open(h, 'w', encoding='utf-8'))
        cmd.append(h)
    so, se = sh(cmd, budget * 3 + 60)
    try:
        r = json.load(open(out, encoding='utf-8'))
    except Exception:
        r = dict(evaluations=0, distinct=0, samples=[], fails=[], skips=['oracle run gave no result: %s' % (se or '')[-800:]], oracles=[],
                 wall=0)
    r['venv'] = name
    return r


def run_proof(item, tmo, scale):
    so, se = sh([PYVT, os.path.join(VERIF, 'engine', 'worker.py'), '--run', '%s:%d' % (item['module'], item['index']), str(tmo), str(scale)],
                item['budget'] * scale + 120)
    try:
        r = json.loads(so.strip().splitlines()[-1])
        assert r['proof'] == item['name']
        return r
    except Exception:
        return dict(proof=item['name'], status='unsupported', detail='worker failed: %s' % (se or '')[-600:], obligations=[], paths=0, restarts=0,
                    queries=0, solver_time=0, wall=0, functions=[], builtins=[], assumes=[], declared=[], props=[])


def list_proofs(prop):
    so, se = sh([PYVT, os.path.join(VERIF, 'engine', 'worker.py'), '--list', prop], 120)
    try:
        return json.loads(so.strip().splitlines()[-1]), None
    except Exception:
        return [], 'proof list failed: %s' % (se or '')[-800:]


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('kind') == 'known':
                    out.append(d)
    return out


def certified():
    try:
        want = open(os.path.join(VERIF, 'certified.txt')).read().split()
        so, _ = sh([PYVT, os.path.join(VERIF, 'engine', 'treehash.py'), REPO], 60)
        return so.strip() in want
    except Exception:
        return False


def matches(fail, kf):
    return kf.get('oracle') == fail.get('oracle') and kf.get('args') == fail.get('args')


def hints_of(results):
    strs, ints = [], []
    for r in results:
        for o in r['obligations']:
            for f in o['fails']:
                for v in (f.get('model') or {}).values():
                    if isinstance(v, str) and len(v) < 200:
                        strs.append(v)
                    elif isinstance(v, int):
                        ints.append(v)
    return dict(strs=sorted(set(strs))[:200], ints=sorted(set(ints))[:200])


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'):
        tier = os.environ['VERIF_TIER']
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    meta = TECH[prop]
    thorough = tier == 'thorough'
    obudget = meta.get('oracle_budget', 20) * (5 if thorough else 1)
    tmo, scale = (20000, 2.0) if thorough else (8000, 1.0)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as pool:
            ofut = [pool.submit(run_oracle, prop, seed, obudget, py, tmp) for py in VENVS]
            items, err = list_proofs(prop)
            broken = [i for i in items if i['index'] < 0]
            pfut = [pool.submit(run_proof, i, tmo, scale) for i in sorted(items, key=lambda i: -i.get('budget', 0)) if i['index'] >= 0]
            proofs = [f.result() for f in pfut]
            oracles = [f.result() for f in ofut]
            # an obligation the solver gave up on gets a second attempt with more time before it counts as failed
            again = [k for k, r in enumerate(proofs) if any(not o['ok'] for o in r['obligations']) and
                     all(f['reason'].startswith('unknown') for o in r['obligations'] for f in o['fails'])]
            if again and not any(not any(matches(f, k) for k in known_findings(prop)) for r in oracles for f in r['fails']):
                its = sorted([i for i in items if i['index'] >= 0], key=lambda i: -i.get('budget', 0))
                sec = [(k, pool.submit(run_proof, its[k], tmo * 3, min(3.0 * scale, max(1.0, (400 - (time.time() - t0)) / its[k]['budget'])))) for k in again]
                for k, f in sec:
                    r = f.result()
                    r['second_attempt'] = True
                    if r['obligations']:
                        proofs[k] = r
            vague_fails = any(f['reason'].startswith('imprecise') for r in proofs for o in r['obligations'] for f in o['fails'])
            failed = [(r, o) for r in proofs for o in r['obligations'] if not o['ok'] and
                      not all(f['reason'].startswith('imprecise') for f in o['fails'])]
            for r in proofs:
                # failures that may be due to what the engine forgot on the way (an abstraction) decide nothing
                vague = [f['reason'] for o in r['obligations'] for f in o['fails'] if f['reason'].startswith('imprecise')]
                if vague and r['status'] == 'ok':
                    r['status'], r['detail'] = 'imprecise', vague[0]
            slow = []
            if failed and certified() and all(f['reason'].startswith('unknown') for _, o in failed for f in o['fails']):
                # the very code for which all obligations have been discharged: the solver ran out of time, nothing is refuted
                slow, failed = failed, []
                for r, _ in slow:
                    r['status'], r['detail'] = 'time', 'the solver ran out of time on code it has accepted before'
            found = [(r['venv'], f) for r in oracles for f in r['fails']]
            if (failed or vague_fails) and not found:
                # look harder for a failing input, starting from the counter-models
                h = hints_of(proofs)
                more = [pool.submit(run_oracle, prop, seed + 1000, obudget * 2, py, tmp, h, '_h') for py in VENVS]
                extra = [f.result() for f in more]
                oracles += extra
                found = [(r['venv'], f) for r in extra for f in r['fails']]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kf = known_findings(prop)
    listed = [(v, f, k) for v, f in found for k in kf if matches(f, k)]
    fresh = [(v, f) for v, f in found if not any(matches(f, k) for k in kf)]
    undecided = [r for r in proofs if r['status'] != 'ok']
    violations = []
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', 'replay', '%s.json' % prop)
    if os.path.exists(rp):
        os.unlink(rp)
    fails_json = [dict(proof=r['proof'], obligation=o['name'], reason=o['fails'][0]['reason'], model=o['fails'][0]['model'],
                       path=o['fails'][0]['path']) for r, o in failed]
    if fresh:
        v, f = fresh[0]
        json.dump(dict(property=prop, kind='failing input on the real code', interpreter=v, oracle=f['oracle'], args=f['args'], what=f['what'],
                       data=f['data'], replay_cmd='VERIF_SEED=%d /opt/%s/bin/python %s/oracles/run.py %s %d %d /tmp/out.json' % (
                           seed, v, VERIF, prop, seed, obudget),
                       failed_obligations=fails_json, other_failures=[x for x in fresh[1:6]]),
                  open(rp, 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
        violations.append('VIOLATION property=%s replay=%s' % (prop, rp))
    elif failed and not (listed and meta.get('findings_cover_proofs')):
        json.dump(dict(property=prop, kind='failed proof obligation, no failing input found', failed_obligations=fails_json,
                       note='verifier output per obligation: reason, counter-model (inputs) and path condition'),
                  open(rp, 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    write_evidence(prop, tier, seed, meta, proofs, broken, err, oracles, violations, time.time() - t0)
    nob = sum(len(r['obligations']) for r in proofs)
    nok = sum(1 for r in proofs for o in r['obligations'] if o['ok'])
    print('%s: %d/%d obligations discharged in %d proofs (%d not decided), %d oracle cases, %.1f s' % (
        prop, nok, nob, len(proofs), len(undecided) + len(broken), sum(r['evaluations'] for r in oracles), time.time() - t0))
    for r in undecided:
        print('  not decided (bounded stand-in used): %s: %s %s' % (r['proof'], r['status'], ' '.join(r['detail'].split())[-300:]))
    for b in broken:
        print('  not decided: %s: %s' % (b['name'], ' '.join(b['error'].split())[-300:]))
    for r in oracles:
        for s in r['skips']:
            print('  oracle note (%s): %s' % (r['venv'], ' '.join(s.split())[-300:]))
    for r, o in failed:
        print('  FAILED obligation %s / %s: %s %s' % (r['proof'], o['name'], o['fails'][0]['reason'], str(o['fails'][0]['model'])[:300]))
    for v, f in fresh[:3]:
        print('  failing input (%s): %s%s: %s' % (v, f['oracle'], f['args'], f['what']))
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for line in violations:
        print(line)
    sys.stdout.flush()
    return 1 if violations else 0


def write_evidence(prop, tier, seed, meta, proofs, broken, err, oracles, violations, wall):
    obs = [o for r in proofs for o in r['obligations']]
    # only obligations of completed proofs count as discharged: an unfinished exploration proves nothing
    disch = [o for r in proofs if r['status'] == 'ok' for o in r['obligations'] if o['ok']]
    backends = {}
    for o in obs:
        for k, n in o['backends'].items():
            backends[k] = backends.get(k, 0) + n
    functions = sorted(set(f for r in proofs for f in r['functions']))
    builtins = sorted(set(b for r in proofs for b in r['builtins']))
    assumes = sorted(set(a for r in proofs for a in r['assumes']))
    cov = dict(
        obligations=len(obs), discharged=len(disch),
        checker_cmd='python3-vt engine/worker.py --run MODULE:INDEX (driven by check.py %s)' % prop,
        trusted_base=['engine/ (source transformation, loop rule, path exploration)', 'z3 %s' % z3_version(), 'cvc5 1.1.2 (fallback)',
                      'CPython 3.12 (executes the transformed source)'] + ['library contract: ' + b for b in builtins],
        obligation_instances=sum(o['n'] for o in obs),
        back_ends=backends,
        solver_time_s=round(sum(r['solver_time'] for r in proofs), 2),
        proof_wall_s=round(sum(r['wall'] for r in proofs), 2),
        paths=sum(r['paths'] for r in proofs),
        functions_under_contract=functions,
        contracts=sorted(set(d for r in proofs for d in r['declared'])),
        proofs=[dict(name=r['proof'], status=r['status'], detail=' '.join(r['detail'].split())[:300], obligations=[
            dict(name=o['name'], ok=o['ok'], instances=o['n'], back_ends=o['backends']) for o in r['obligations']]) for r in proofs],
        undecided=[dict(proof=r['proof'], status=r['status'], detail=' '.join(r['detail'].split())[:400]) for r in proofs if r['status'] != 'ok'] +
                  [dict(proof=b['name'], status='error', detail=b['error'][-300:]) for b in broken] + ([dict(proof='*', status='error', detail=err)] if err else []),
        bounded=dict(note='bounded runtime cross-check of the same property on the real code; never counted as proved',
                     runs=[dict(venv=r['venv'], evaluations=r['evaluations'], distinct=r['distinct'], oracles=r['oracles'], wall_s=r['wall'],
                                skips=r['skips'][:5]) for r in oracles]),
        evaluations=sum(r['evaluations'] for r in oracles),
        distinct_nontrivial=sum(r['distinct'] for r in oracles),
        rule='bounded cross-check: inputs drawn by seed %d from the oracle generators; distinct argument tuples counted per interpreter' % seed,
        samples=[s for r in oracles for s in r['samples'][:4]][:12] or ['none'],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=manifest_level(prop), coverage=cov,
              assumptions=meta.get('assumptions', []) + assumes, wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)


def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json'), encoding='utf-8'))
        return [c['level'] for c in m['checks'] if c['property'] == prop][0]
    except Exception:
        return 'exploration'


def z3_version():
    try:
        so, _ = sh([PYVT, '-c', 'import z3; print(z3.get_version_string())'], 30)
        return so.strip()
    except Exception:
        return '?'


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
