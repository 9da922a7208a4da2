# -*- coding: utf-8 -*-
"""Runs proofs in this process and prints one JSON object per proof.

usage: worker.py --list PROP | worker.py --run MODULE:INDEX [--timeout MS]
"""
import importlib
import json
import os
import resource
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def modules():
    return sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'proofs')) if f.startswith('c') and f[1:2].isdigit() and f.endswith('.py'))


def load(name):
    from engine import proofapi
    n0 = len(proofapi.PROOFS)
    importlib.import_module('proofs.' + name)
    return [p for p in proofapi.PROOFS[n0:] if p.fn.__module__ == 'proofs.' + name]


def main():
    if sys.argv[1] == '--list':
        prop = sys.argv[2]
        out = []
        for m in modules():
            try:
                ps = load(m)
            except Exception:
                if m.upper() == prop:
                    out.append(dict(module=m, index=-1, name='import of ' + m, error=traceback.format_exc()[-1500:]))
                continue
            for i, p in enumerate(ps):
                if prop in p.prop:
                    out.append(dict(module=m, index=i, name=p.name, budget=p.budget))
        print(json.dumps(out))
        return
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    m, i = sys.argv[2].split(':')
    tmo = int(sys.argv[3]) if len(sys.argv) > 3 else 8000
    scale = float(sys.argv[4]) if len(sys.argv) > 4 else 1.0
    try:
        from engine import proofapi, transform
        ps = load(m)
        p = ps[int(i)]
        for name in ('analyzer', 'cli', 'tagset', 'shapes', 'tokenizers', 'units', 'lang', 'opencorpora_dict.parse', 'opencorpora_dict.preprocess',
                     'opencorpora_dict.compile', 'opencorpora_dict.storage', 'opencorpora_dict.probability'):
            try:
                importlib.import_module('pymorphy2.' + name)
            except ImportError:
                pass
        p.budget = p.budget * scale
        if scale > 1:
            from engine import abstraction
            abstraction.SCALE[0] = scale
        r = proofapi.run_proof(p, timeout_ms=tmo)
        r['sources'] = {k: v[1][:16] for k, v in sorted(transform.FINDER.loaded.items())}
    except BaseException:
        r = dict(proof='%s:%s' % (m, i), status='unsupported', detail='worker: ' + traceback.format_exc()[-1500:], obligations=[],
                 paths=0, restarts=0, queries=0, solver_time=0, wall=0, functions=[], builtins=[], assumes=[], declared=[], props=[])
    print(json.dumps(r))


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    main()
