"""Fallback back end: cvc5 on the SMT-LIB text of the query."""
import os
import re
import subprocess
import tempfile

CVC5 = 'cvc5'


def cvc5_check(z3solver, timeout_ms):
    text = z3solver.to_smt2()
    if 'Lambda' in text or '(_ map' in text:
        return 'unknown'
    text = text.replace('(set-info :status unknown)', '')
    text = '(set-logic ALL)\n' + text
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vc_')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        p = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % timeout_ms, path],
                           capture_output=True, text=True, timeout=timeout_ms / 1000.0 + 10)
        out = p.stdout.strip().splitlines()
        return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(path)
