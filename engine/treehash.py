# -*- coding: utf-8 -*-
"""Digest of the package's code (comments, layout and docstrings left out)."""
import ast
import hashlib
import os


def digest(repo):
    h = hashlib.sha256()
    base = os.path.join(repo, 'pymorphy2')
    for root, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(root, f)
            tree = ast.parse(open(path, encoding='utf-8').read())
            for n in ast.walk(tree):
                body = getattr(n, 'body', None)
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and body and isinstance(body[0], ast.Expr) and \
                        isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                    body.pop(0)
            h.update(os.path.relpath(path, base).encode('utf-8') + b'\0' + ast.dump(tree).encode('utf-8') + b'\0')
    return h.hexdigest()


if __name__ == '__main__':
    import sys
    print(digest(sys.argv[1] if len(sys.argv) > 1 else '/repo'))
