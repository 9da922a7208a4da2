# -*- coding: utf-8 -*-
"""Mechanical source transformation of /repo's modules for the verifier, and the import hook that applies it.

Only the bodies of functions are rewritten; every rewritten construct is replaced by a call that has exactly the native
meaning when no proof is active.  See DESIGN.md, "Extraction".
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import runtime as rt

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pymorphy2'

_BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.BitOr: '|',
           ast.BitAnd: '&', ast.BitXor: '^', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
_CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in',
         ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}


def N(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def RT(name):
    return ast.Attribute(value=N('_rt'), attr=name, ctx=ast.Load())


def C(v):
    return ast.Constant(value=v)


def CALL(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


def stored_names(nodes):
    """Names bound by statements (not inside nested functions/classes)."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out and not n.name.startswith('_c_'):
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            out.append(n.name)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)

    for n in nodes:
        V().visit(n)
    return out


def has_yield(fn):
    """'' / 'gen' (statement yields only) / 'coro'."""
    kinds = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Yield):
                kinds.add('gen')
                if n.value.value is not None:
                    self.visit(n.value.value)
            elif isinstance(n.value, ast.YieldFrom):
                kinds.add('gen')
                self.visit(n.value.value)
            else:
                self.generic_visit(n)

        def visit_Yield(self, n):
            kinds.add('coro')

        def visit_YieldFrom(self, n):
            kinds.add('coro')

    for s in fn.body:
        V().visit(s)
    return 'coro' if 'coro' in kinds else 'gen' if kinds else ''


class FuncT(object):
    """Transforms one function body."""

    def __init__(self, mod, qual, counter=None):
        self.mod = mod
        self.qual = qual
        self.n = counter if counter is not None else [0]
        self.loops = []
        self.eager = False
        self.acc = None

    def uid(self):
        self.n[0] += 1
        return self.n[0]

    # ------------------------------------------------------------ functions
    def function(self, fn):
        kind = has_yield(fn)
        self.eager = kind == 'gen'
        if self.eager:
            self.acc = '_acc%d' % self.uid()
        body = list(fn.body)
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
            doc = [body.pop(0)]
        out = self.block(body)
        if self.eager:
            out = [ast.Assign(targets=[N(self.acc, ast.Store())], value=CALL(RT('newlist')))] + out + [
                ast.Return(value=CALL(RT('gen'), N(self.acc)))]
        fn.body = doc + (out or ([ast.Pass()] if not doc else []))
        return fn

    def block(self, stmts):
        out = []
        for s in stmts:
            out.extend(self.stmt(s))
        return out

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        pre = []
        if m is not None:
            r = m(s, pre)
        else:
            r = self.generic(s, pre)
        return pre + (r if isinstance(r, list) else [r])

    def generic(self, s, pre):
        for name, val in ast.iter_fields(s):
            if isinstance(val, ast.expr):
                setattr(s, name, self.expr(val, pre))
            elif isinstance(val, list):
                new = []
                for v in val:
                    if isinstance(v, ast.stmt):
                        new.extend(self.stmt(v))
                    elif isinstance(v, ast.expr):
                        new.append(self.expr(v, pre))
                    else:
                        if isinstance(v, ast.ExceptHandler):
                            v.body = self.block(v.body)
                        elif isinstance(v, ast.withitem):
                            v.context_expr = self.expr(v.context_expr, pre)
                        new.append(v)
                setattr(s, name, new)
        return s

    def s_FunctionDef(self, s, pre):
        s.decorator_list = [self.expr(d, pre) for d in s.decorator_list]
        s.args.defaults = [self.expr(d, pre) for d in s.args.defaults]
        FuncT(self.mod, self.qual + '.' + s.name).function(s)
        return s

    def s_ClassDef(self, s, pre):
        ModT(self.mod).class_(s, self.qual)
        return s

    def s_Assign(self, s, pre):
        v = self.expr(s.value, pre)
        out = []
        if len(s.targets) == 1:
            return self.assign(s.targets[0], v, pre)
        t = '_t%d' % self.uid()
        out.append(ast.Assign(targets=[N(t, ast.Store())], value=v))
        for tg in s.targets:
            out.extend(self.assign(tg, N(t), pre))
        return out

    def s_AnnAssign(self, s, pre):
        if s.value is None:
            return []
        return self.assign(s.target, self.expr(s.value, pre), pre)

    def assign(self, target, value, pre):
        if isinstance(target, ast.Name):
            return [ast.Assign(targets=[target], value=value)]
        if isinstance(target, ast.Attribute):
            return [ast.Expr(CALL(RT('setattr_'), self.expr(target.value, pre), C(target.attr), value))]
        if isinstance(target, ast.Subscript):
            return [ast.Expr(CALL(RT('setitem'), self.expr(target.value, pre), self.index(target.slice, pre), value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            if all(isinstance(e, ast.Name) for e in target.elts):
                n = len(target.elts)
                return [ast.Assign(targets=[target], value=CALL(RT('unpack'), value, C(n)))]
            if any(isinstance(e, ast.Starred) for e in target.elts):
                return [ast.Assign(targets=[target], value=value)]
            t = '_t%d' % self.uid()
            names = ['_t%d' % self.uid() for _ in target.elts]
            out = [ast.Assign(targets=[ast.Tuple(elts=[N(x, ast.Store()) for x in names], ctx=ast.Store())],
                              value=CALL(RT('unpack'), value, C(len(names))))]
            for e, x in zip(target.elts, names):
                out.extend(self.assign(e, N(x), pre))
            return out
        return [ast.Assign(targets=[target], value=value)]

    def s_AugAssign(self, s, pre):
        op = _BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            return [ast.Assign(targets=[N(t.id, ast.Store())],
                               value=CALL(RT('ibinop'), C(op), N(t.id), self.expr(s.value, pre)))]
        if isinstance(t, ast.Attribute):
            o = '_t%d' % self.uid()
            return [ast.Assign(targets=[N(o, ast.Store())], value=self.expr(t.value, pre)),
                    ast.Expr(CALL(RT('setattr_'), N(o), C(t.attr),
                                  CALL(RT('ibinop'), C(op), ast.Attribute(value=N(o), attr=t.attr, ctx=ast.Load()),
                                       self.expr(s.value, pre))))]
        o, i = '_t%d' % self.uid(), '_t%d' % self.uid()
        return [ast.Assign(targets=[N(o, ast.Store())], value=self.expr(t.value, pre)),
                ast.Assign(targets=[N(i, ast.Store())], value=self.index(t.slice, pre)),
                ast.Expr(CALL(RT('setitem'), N(o), N(i),
                              CALL(RT('ibinop'), C(op), CALL(RT('getitem'), N(o), N(i)), self.expr(s.value, pre))))]

    def s_Delete(self, s, pre):
        out = []
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(CALL(RT('delitem'), self.expr(t.value, pre), self.index(t.slice, pre))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def s_Expr(self, s, pre):
        if self.eager and isinstance(s.value, ast.Yield):
            v = self.expr(s.value.value, pre) if s.value.value is not None else C(None)
            return [ast.Expr(CALL(ast.Attribute(value=N(self.acc), attr='append', ctx=ast.Load()), v))]
        if self.eager and isinstance(s.value, ast.YieldFrom):
            return [ast.Expr(CALL(ast.Attribute(value=N(self.acc), attr='extend', ctx=ast.Load()),
                                  self.expr(s.value.value, pre)))]
        s.value = self.expr(s.value, pre)
        return s

    def s_Return(self, s, pre):
        v = self.expr(s.value, pre) if s.value is not None else C(None)
        if self.eager:
            v = CALL(RT('gen'), N(self.acc))
        if not self.loops:
            return [ast.Return(value=v)]
        t = '_r%d' % self.uid()
        out = [ast.Assign(targets=[N(t, ast.Store())], value=v)]
        for L in reversed(self.loops):
            out.append(ast.Expr(CALL(ast.Attribute(value=N(L), attr='brk', ctx=ast.Load()))))
        out.append(ast.Return(value=N(t)))
        return out

    def s_Break(self, s, pre):
        L = self.loops[-1]
        if L is None:
            return s
        return [ast.Expr(CALL(ast.Attribute(value=N(L), attr='brk', ctx=ast.Load()))), s]

    def s_While(self, s, pre):
        # native; the iteration counter bounds symbolic unrolling
        inner = []
        test = self.expr(s.test, inner)
        w = '_w%d' % self.uid()
        saved, self.loops = self.loops, self.loops + [w]
        body = self.block(s.body)
        self.loops = saved
        pre.append(ast.Assign(targets=[N(w, ast.Store())], value=CALL(RT('while_loop'))))
        for d in inner:
            pre.append(d)
        s.test = ast.BoolOp(op=ast.And(), values=[CALL(ast.Attribute(value=N(w), attr='tick', ctx=ast.Load())), test])
        # tick() is always true
        s.body = body
        s.orelse = self.block(s.orelse)
        return s

    def s_For(self, s, pre):
        u = self.uid()
        L, v = '_L%d' % u, '_v%d' % u
        it = self.expr(s.iter, pre)
        names = [n for n in stored_names(s.body + [ast.Assign(targets=[s.target], value=C(None))])
                 if not n.startswith('_c_')]
        saved, self.loops = self.loops, self.loops + [L]
        body = self.block(s.body)
        tgt_pre = []
        tassign = self.assign(s.target, N(v), tgt_pre)
        self.loops = saved
        orelse = self.block(s.orelse)
        extra = [n for n in stored_names(body) if n not in names and not n.startswith(('_c_', '_L', '_v', '_t', '_r', '_w'))]
        names = names + extra

        def reload():
            if not names:
                return []
            return [ast.If(test=ast.Attribute(value=N(L), attr='sym', ctx=ast.Load()),
                           body=[ast.Assign(targets=[ast.Tuple(elts=[N(n, ast.Store()) for n in names], ctx=ast.Store())],
                                            value=ast.Attribute(value=N(L), attr='h', ctx=ast.Load()))], orelse=[])]
        mk = ast.Assign(targets=[N(L, ast.Store())],
                        value=CALL(RT('loop'), it, C('%s#%d' % (self.qual, u)),
                                   ast.Tuple(elts=[C(n) for n in names], ctx=ast.Load())))
        loop = ast.For(target=N(v, ast.Store()), iter=N(L), body=reload() + tgt_pre + tassign + body,
                       orelse=reload() + orelse)
        tr = ast.Try(body=[loop], handlers=[ast.ExceptHandler(
            type=N('Exception'), name=None,
            body=[ast.Expr(CALL(ast.Attribute(value=N(L), attr='exc', ctx=ast.Load()))), ast.Raise()])],
            orelse=[], finalbody=[])
        return [mk, tr]

    # ------------------------------------------------------------ expressions
    def index(self, sl, pre):
        if isinstance(sl, ast.Slice):
            f = lambda x: self.expr(x, pre) if x is not None else C(None)
            return CALL(N('_slice'), f(sl.lower), f(sl.upper), f(sl.step))
        return self.expr(sl, pre)

    def expr(self, e, pre):
        if e is None:
            return None
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, pre)
        for name, val in ast.iter_fields(e):
            if isinstance(val, ast.expr):
                setattr(e, name, self.expr(val, pre))
            elif isinstance(val, list):
                setattr(e, name, [self.expr(v, pre) if isinstance(v, ast.expr) else v for v in val])
        return e

    def e_Call(self, e, pre):
        if isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals', 'vars', 'globals', 'print'):
            e.args = [self.expr(a, pre) for a in e.args]
            return e
        f = self.expr(e.func, pre)
        args = [self.expr(a, pre) if not isinstance(a, ast.Starred) else
                ast.Starred(value=CALL(RT('star'), self.expr(a.value, pre)), ctx=ast.Load()) for a in e.args]
        kws = []
        for k in e.keywords:
            if k.arg is None:
                kws.append(ast.keyword(arg=None, value=CALL(RT('kwstar'), self.expr(k.value, pre))))
            else:
                kws.append(ast.keyword(arg=k.arg, value=self.expr(k.value, pre)))
        return ast.Call(func=RT('call'), args=[f] + args, keywords=kws)

    def e_BinOp(self, e, pre):
        return CALL(RT('binop'), C(_BINOPS[type(e.op)]), self.expr(e.left, pre), self.expr(e.right, pre))

    def e_Compare(self, e, pre):
        if len(e.ops) == 1:
            return CALL(RT('cmp'), C(_CMPS[type(e.ops[0])]), self.expr(e.left, pre), self.expr(e.comparators[0], pre))
        parts = []
        left = self.expr(e.left, pre)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            c = self.expr(c, pre)
            if i < len(e.ops) - 1:
                t = '_t%d' % self.uid()
                c2 = ast.NamedExpr(target=N(t, ast.Store()), value=c)
                parts.append(CALL(RT('cmp'), C(_CMPS[type(op)]), left, c2))
                left = N(t)
            else:
                parts.append(CALL(RT('cmp'), C(_CMPS[type(op)]), left, c))
        return ast.BoolOp(op=ast.And(), values=parts)

    def e_UnaryOp(self, e, pre):
        if isinstance(e.op, ast.Not):
            return CALL(RT('not_'), self.expr(e.operand, pre))
        e.operand = self.expr(e.operand, pre)
        return e

    def e_Subscript(self, e, pre):
        return CALL(RT('getitem'), self.expr(e.value, pre), self.index(e.slice, pre))

    def e_List(self, e, pre):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return CALL(RT('newlist'), ast.Tuple(elts=[
                ast.Starred(value=CALL(RT('star'), self.expr(x.value, pre)), ctx=ast.Load()) if isinstance(x, ast.Starred)
                else self.expr(x, pre) for x in e.elts], ctx=ast.Load()))
        return CALL(RT('newlist'), ast.Tuple(elts=[self.expr(x, pre) for x in e.elts], ctx=ast.Load()))

    def e_Set(self, e, pre):
        return CALL(RT('newset'), ast.Tuple(elts=[self.expr(x, pre) for x in e.elts], ctx=ast.Load()))

    def e_Dict(self, e, pre):
        if any(k is None for k in e.keys):
            return ast.Dict(keys=[k and self.expr(k, pre) for k in e.keys], values=[self.expr(v, pre) for v in e.values])
        return CALL(RT('newdict'), ast.Tuple(elts=[
            ast.Tuple(elts=[self.expr(k, pre), self.expr(v, pre)], ctx=ast.Load())
            for k, v in zip(e.keys, e.values)], ctx=ast.Load()))

    def e_JoinedStr(self, e, pre):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                if v.conversion == -1 and isinstance(v.format_spec, ast.JoinedStr) and len(v.format_spec.values) == 1 and \
                        isinstance(v.format_spec.values[0], ast.Constant):
                    parts.append(CALL(RT('format_value'), self.expr(v.value, pre), v.format_spec.values[0]))
                    continue
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    return e
                parts.append(CALL(RT('call'), N('str'), self.expr(v.value, pre)))
            else:
                parts.append(v)
        r = C('')
        for p in parts:
            r = CALL(RT('binop'), C('+'), r, p)
        return r

    def e_Lambda(self, e, pre):
        if not any(isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(e.body)):
            inner = []
            e.args.defaults = [self.expr(d, pre) for d in e.args.defaults]
            e.body = FuncT(self.mod, self.qual, self.n).expr(e.body, inner)
            if not inner:
                return e
            raise SyntaxError('lambda')
        name = '_c_lam%d' % self.uid()
        fd = mkdef(name, e.args, [ast.Return(value=e.body)])
        FuncT(self.mod, self.qual + '.<lambda>', self.n).function(fd)
        pre.append(fd)
        return N(name)

    def comp(self, e, pre, kind):
        u = self.uid()
        name, acc = '_c_%d' % u, '_ca%d' % u
        ft = FuncT(self.mod, self.qual + '.<comp>', self.n)
        if kind == 'dict':
            inner = [ast.Assign(targets=[ast.Subscript(value=N(acc), slice=e.key, ctx=ast.Store())], value=e.value)]
        else:
            meth = 'add' if kind == 'set' else 'append'
            inner = [ast.Expr(ast.Call(func=ast.Attribute(value=N(acc), attr=meth, ctx=ast.Load()), args=[e.elt],
                                       keywords=[]))]
        first = e.generators[0]
        for g in reversed(e.generators):
            body = inner
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            it = N('_it') if g is first else g.iter
            inner = [ast.For(target=g.target, iter=it, body=body, orelse=[])]
        outer_iter = self.expr(first.iter, pre)
        new = {'list': 'newlist', 'gen': 'newlist', 'set': 'newset', 'dict': 'newdict'}[kind]
        body = ft.block(inner)
        body = [ast.Assign(targets=[N(acc, ast.Store())], value=CALL(RT(new)))] + body
        ret = CALL(RT('gen'), N(acc)) if kind == 'gen' else N(acc)
        body.append(ast.Return(value=ret))
        fd = mkdef(name, mkargs(['_it']), body)
        pre.append(fd)
        return CALL(N(name), outer_iter)

    def e_ListComp(self, e, pre): return self.comp(e, pre, 'list')
    def e_SetComp(self, e, pre): return self.comp(e, pre, 'set')
    def e_DictComp(self, e, pre): return self.comp(e, pre, 'dict')
    def e_GeneratorExp(self, e, pre): return self.comp(e, pre, 'gen')


def mkargs(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[],
                         kw_defaults=[], kwarg=None, defaults=[])


def mkdef(name, args, body):
    fd = ast.FunctionDef(name=name, args=args, body=body, decorator_list=[], returns=None)
    fd.type_params = []
    return fd


class ModT(object):
    def __init__(self, mod):
        self.mod = mod

    def module(self, tree):
        self._stmts(tree.body, '')
        return tree

    def class_(self, c, qual):
        self._stmts(c.body, (qual + '.' if qual else '') + c.name)

    def _stmts(self, body, qual):
        i = 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.FunctionDef):
                FuncT(self.mod, self.mod + ':' + (qual + '.' if qual else '') + s.name).function(s)
            elif isinstance(s, ast.ClassDef):
                self.class_(s, qual)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for f in ('body', 'orelse', 'finalbody'):
                    if getattr(s, f, None):
                        self._stmts(getattr(s, f), qual)
                for h in getattr(s, 'handlers', []):
                    self._stmts(h.body, qual)
            elif isinstance(s, (ast.Assign,)) and isinstance(s.value, ast.Lambda):
                pre = []
                s.value = FuncT(self.mod, self.mod + ':' + (qual + '.' if qual else '') + '<lambda>').expr(s.value, pre)
                body[i:i] = pre
                i += len(pre)
            i += 1


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads pymorphy2.* from REPO through the transformation."""

    def __init__(self, transform=True):
        self.transform = transform
        self.loaded = {}

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        rel = name.replace('.', '/')
        p = os.path.join(REPO, rel, '__init__.py')
        if os.path.exists(p):
            return importlib.machinery.ModuleSpec(name, self, origin=p, is_package=True)
        p = os.path.join(REPO, rel + '.py')
        if os.path.exists(p):
            return importlib.machinery.ModuleSpec(name, self, origin=p)
        return None

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        return m

    def exec_module(self, module):
        p = module.__spec__.origin
        with open(p, 'rb') as f:
            src = f.read()
        self.loaded[module.__name__] = (p, hashlib.sha256(src).hexdigest())
        tree = ast.parse(src, p)
        if self.transform:
            tree = ModT(module.__name__).module(tree)
            ast.fix_missing_locations(tree)
        code = compile(tree, p, 'exec', dont_inherit=True)
        module.__file__ = p
        b = dict(vars(builtins))
        b.update(rt.BUILTINS)
        b['_rt'] = rt
        b['_slice'] = slice
        module.__dict__['__builtins__'] = b
        exec(code, module.__dict__)


FINDER = Finder()


def library():
    """The functions of engine/pylib.py, transformed like the package."""
    m = types.ModuleType('engine_pylib')
    m.__spec__ = importlib.machinery.ModuleSpec('engine_pylib', None, origin=os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pylib.py'))
    FINDER.exec_module(m)
    FINDER.loaded.pop('engine_pylib')
    return m


def _shims():
    """Stand-ins for packages the interpreter that runs the verifier does not have (their contracts are assumed)."""
    import inspect
    if not hasattr(inspect, 'getargspec'):
        import collections
        A = collections.namedtuple('ArgSpec', 'args varargs keywords defaults')

        def getargspec(f):
            s = inspect.getfullargspec(f)
            return A(s.args, s.varargs, s.varkw, s.defaults)
        inspect.getargspec = getargspec

    class _D(object):
        def __init__(self, *a, **k):
            raise rt.Unsupported('DAWG construction')
    for name in ('dawg', 'dawg_python'):
        m = types.ModuleType(name)
        for c in ('DAWG', 'RecordDAWG', 'IntCompletionDAWG', 'BytesDAWG', 'CompletionDAWG', 'IntDAWG'):
            setattr(m, c, type(c, (_D,), {}))
        sys.modules[name] = m
    m = types.ModuleType('docopt')
    m.docopt = None
    sys.modules.setdefault('docopt', m)


def install():
    if FINDER not in sys.meta_path:
        _shims()
        sys.meta_path.insert(0, FINDER)


def dump(path):
    with open(path, 'rb') as f:
        tree = ast.parse(f.read(), path)
    t = ModT('x').module(tree)
    ast.fix_missing_locations(t)
    return ast.unparse(t)
