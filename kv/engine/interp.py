"""Symbolic interpreter of the real functions' ASTs (a subset of Python; anything else raises Unsupported)."""
from __future__ import annotations

import ast
import builtins
import collections
import enum
import functools
import inspect
import itertools
import decimal
import math
import os
import re
import sys
import types
import warnings

import z3

from .sym import *  # noqa
from . import sym as S
from .sym import _Num, _zi, _sub, _ek, _isnum

_FILE_AST: dict = {}
_CODE_NODE: dict = {}


class ReturnX(BaseException):
    def __init__(self, v): self.v = v


class BreakX(BaseException):
    pass


class ContinueX(BaseException):
    pass


class Mark(S.Part):
    """stands for the unknown previous content of an accumulator inside a summarised loop body"""
    def __init__(self, name): self.name = name
    def length(self):
        r = z3.Int('marklen_' + self.name)
        E().fact(r >= 0)
        return r
    def key(self): return ('mark', self.name)
    def __repr__(self): return f'<mark {self.name}>'


class VFunc:
    """function object created by interpreted code"""
    def __init__(self, node, frame, glob, name, defaults, kwdefaults, interp, cls=None):
        self.node, self.frame, self.glob, self.name = node, frame, glob, name
        self.defaults, self.kwdefaults, self.interp, self.cls = defaults, kwdefaults, interp, cls
        self.__name__ = name

    def __call__(self, *a, **k): return self.interp.call(self, list(a), k)


class VBound:
    def __init__(self, obj, func): self.obj, self.func = obj, func
    def __repr__(self): return f'<bound {getattr(self.func, "__qualname__", self.func)}>'
    def __call__(self, *a, **k): return CURRENT[-1].call(self, list(a), k)
    @property
    def __self__(self): return self.obj
    @property
    def __func__(self): return self.func
    @property
    def __name__(self): return self.func.__name__


class BMethod:
    def __init__(self, obj, name): self.obj, self.name = obj, name
    def __repr__(self): return f'<method {self.name}>'


class SuperProxy:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class SymIter:
    """iterable made of concrete values and symbolic parts; pre(index term, value) transforms elements"""
    def __init__(self, items): self.items = items      # list of ('v', value) | ('p', part, kind, wrap)


CURRENT: list = []

REPO_PREFIXES = ('kolombos', 'pytermor')


def is_repo_function(f):
    return isinstance(f, types.FunctionType) and (getattr(f, '__module__', '') or '').split('.')[0] in REPO_PREFIXES \
        or isinstance(f, types.FunctionType) and getattr(f, '__kv_interpret__', False)


def is_repo_class(c):
    return isinstance(c, type) and (getattr(c, '__module__', '') or '').split('.')[0] in REPO_PREFIXES


def node_of(fn):
    code = fn.__code__
    if code in _CODE_NODE:
        return _CODE_NODE[code]
    path = code.co_filename
    if path not in _FILE_AST:
        try:
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
        except OSError:
            raise Unsupported(f'no source for {fn!r}')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _FILE_AST[path] = ast.parse(src)
    res = None
    for n in ast.walk(_FILE_AST[path]):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            if n.name == code.co_name and first == code.co_firstlineno:
                res = n
                break
        elif isinstance(n, ast.Lambda) and code.co_name == '<lambda>' and n.lineno == code.co_firstlineno:
            if [a.arg for a in n.args.args] == list(code.co_varnames[:code.co_argcount]):
                if res is not None:
                    raise Unsupported('ambiguous lambda')
                res = n
    if res is None:
        raise Unsupported(f'source of {fn!r} not found')
    _CODE_NODE[code] = res
    return res


def assigned_names(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): self._comp(n)
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
        def _comp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def is_generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class Frame:
    def __init__(self, interp, node, glob, parent=None, fn=None, cls=None, cells=None):
        self.interp, self.node, self.glob, self.parent, self.fn, self.cls = interp, node, glob, parent, fn, cls
        self.locals = {}
        self.cells = cells or {}
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.yields = None

    def lookup(self, name):
        if name in self.locals and name not in self.globals_decl:
            v = self.locals[name]
            if isinstance(v, Poison):
                raise Unsupported(f'value of {name!r} after a summarised loop ({v.why})')
            return v
        f = self.parent
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported(f'value of {name!r} after a summarised loop ({v.why})')
                return v
            if name in f.cells:
                return f.cells[name].cell_contents
            f = f.parent
        if name in self.cells:
            return self.cells[name].cell_contents
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise_py(NameError(name))

    def store(self, name, v):
        if name in self.globals_decl:
            g = self.glob
            old = g.get(name, _MISSING)
            def undo():
                if old is _MISSING:
                    g.pop(name, None)
                else:
                    g[name] = old
            E().undo_push(undo)
            g[name] = v
            return
        if name in self.nonlocal_decl:
            f = self.parent
            while f is not None:
                if name in f.locals:
                    old = f.locals[name]
                    def undo2(f=f, old=old):
                        f.locals[name] = old
                    E().undo_push(undo2)
                    f.locals[name] = v
                    return
                f = f.parent
            raise Unsupported('nonlocal cell')
        d = self.locals
        old = d.get(name, _MISSING)
        if E().nested_depth:
            def undo3():
                if old is _MISSING:
                    d.pop(name, None)
                else:
                    d[name] = old
            E().undo_push(undo3)
        d[name] = v


_MISSING = object()


class Interp:
    def __init__(self):
        self.sorts = []
        self.stubs = {}            # code object / qualname -> handler(interp, args, kwargs)
        self.for_providers = []    # provider(interp, frame, node, items) -> loop contract handler or None
        self.loop_providers = []   # provider(interp, frame, node) -> loop contract handler or None
        self.depth = 0
        self.unroll_limit = 70
        self.touched = None
        self.prints = []           # print() calls: (text, kwargs)
        self.raises_log = []

    # ------------------------------------------------------------------------------------------ calls
    points = ()         # indices of interest: what holds for all iterations is instantiated there

    def stub(self, fn, handler):
        f = fn
        if isinstance(f, (classmethod, staticmethod)):
            f = f.__func__
        if isinstance(f, types.MethodType):
            f = f.__func__
        if isinstance(f, property):
            f = f.fget
        self.stubs[f.__code__] = handler

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        CURRENT.append(self)
        self.depth += 1
        try:
            if self.depth > 150:
                raise Unsupported('call depth')
            return self._call(f, list(args), dict(kwargs))
        finally:
            self.depth -= 1
            CURRENT.pop()

    def _call(self, f, args, kwargs):
        if isinstance(f, VBound):
            return self._call(f.func, [f.obj] + args, kwargs)
        if isinstance(f, types.MethodType):
            return self._call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, BMethod):
            return self.builtin_method(f.obj, f.name, args, kwargs)
        if isinstance(f, VFunc):
            return self.run_function(f.node, f.glob, args, kwargs, f.defaults, f.kwdefaults, parent=f.frame,
                                     name=f.name, cls=f.cls)
        if isinstance(f, types.FunctionType):
            h = self.stubs.get(f.__code__)
            if h is not None:
                return h(self, args, kwargs)
            if getattr(f, '_kv_symbolic', False):
                return f(*args, **kwargs)
            if is_repo_function(f):
                try:
                    node = node_of(f)
                except Unsupported:
                    if self.all_native(args) and self.all_native(list(kwargs.values())):
                        return self.native(f, args, kwargs)
                    raise
                E().functions[f.__module__ + '.' + f.__qualname__] = \
                    E().functions.get(f.__module__ + '.' + f.__qualname__, 0) + 1
                cells = {}
                if f.__closure__:
                    cells = dict(zip(f.__code__.co_freevars, f.__closure__))
                kwd = f.__kwdefaults__ or {}
                return self.run_function(node, f.__globals__, args, kwargs, list(f.__defaults__ or ()), kwd,
                                         cells=cells, fn=f, name=f.__qualname__)
        if isinstance(f, functools.partial):
            return self._call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        origin = getattr(f, '__origin__', None)
        if origin is not None and isinstance(origin, type):
            return self.instantiate(origin, args, kwargs)
        m = _BUILTINS.get(f) if self._hashable(f) else None
        if m is not None:
            return m(self, *args, **kwargs)
        if isinstance(f, types.BuiltinMethodType) and getattr(f, '__self__', None) is not None and \
                not isinstance(f.__self__, types.ModuleType):
            o = f.__self__
            if isinstance(o, (str, bytes, list, tuple, dict, set, frozenset, re.Pattern, re.Match, collections.deque)) \
                    and not isinstance(o, type):
                return self.builtin_method(o, f.__name__, args, kwargs)
        if not callable(f):
            raise_py(TypeError(f'{f!r} is not callable'))
        if is_plain_object(f):
            return self._call(self.getattr(f, '__call__'), args, kwargs)
        if self.all_native(args) and self.all_native(list(kwargs.values())):
            return self.native(f, args, kwargs)
        raise Unsupported(f'call of {getattr(f, "__qualname__", f)!r} with symbolic arguments')

    @staticmethod
    def _hashable(f):
        try:
            hash(f)
            return True
        except TypeError:
            return False

    def native(self, f, args, kwargs):
        try:
            return self.wrap_native(f(*[self.to_native(a) for a in args],
                                      **{k: self.to_native(v) for k, v in kwargs.items()}))
        except (Unsupported, PyExc, Infeasible, PathEnd):
            raise
        except Exception as ex:
            raise PyExc(ex)

    def wrap_native(self, v):
        if type(v) is list:
            return VList.of(v)
        return v

    def all_native(self, vs): return all(self.is_native(v) for v in vs)

    def is_native(self, v, depth=0):
        if isinstance(v, (_Num, SBool, Rope, SuperProxy, Poison, Mark)):
            return False
        if isinstance(v, VList):
            return v.is_concrete() and v.cls == 'list' and all(self.is_native(x, depth + 1) for x in v.values())
        if isinstance(v, VDict):
            return all(self.is_native(k) and self.is_native(x) for k, x in v.items_)
        if isinstance(v, (tuple, list)):
            return depth > 6 or all(self.is_native(x, depth + 1) for x in v)
        if is_plain_object(v) and depth < 4:
            return all(not isinstance(x, (VList, VDict, VSet)) and self.is_native(x, depth + 1)
                       for x in v.__dict__.values())
        return True

    def to_native(self, v):
        if isinstance(v, VList):
            return [self.to_native(x) for x in v.values()]
        if isinstance(v, VDict):
            return {self.to_native(k): self.to_native(x) for k, x in v.items_}
        if isinstance(v, tuple):
            return tuple(self.to_native(x) for x in v)
        return v

    def run_function(self, node, glob, args, kwargs, defaults, kwdefaults, parent=None, cells=None, fn=None, name='',
                     cls=None):
        fr = Frame(self, node, glob, parent, fn, cls, cells)
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        nd = len(defaults)
        vals = {}
        if len(args) > len(params) and a.vararg is None:
            raise_py(TypeError(f'{name}() takes {len(params)} positional arguments but {len(args)} were given'))
        for p, v in zip(params, args):
            vals[p] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(params):])
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                if k in vals:
                    raise_py(TypeError(f'{name}() got multiple values for argument {k!r}'))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise_py(TypeError(f'{name}() got an unexpected keyword argument {k!r}'))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = VDict(list(extra.items()))
        for n, p in enumerate(params):
            if p not in vals:
                di = n - (len(params) - nd)
                if di >= 0:
                    vals[p] = defaults[di]
                else:
                    raise_py(TypeError(f'{name}() missing argument {p!r}'))
        for p in kwonly:
            if p not in vals:
                if p in kwdefaults:
                    vals[p] = kwdefaults[p]
                else:
                    raise_py(TypeError(f'{name}() missing argument {p!r}'))
        fr.locals.update(vals)
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        if is_generator(node):
            fr.yields = VList()
        try:
            self.exec_block(node.body, fr)
        except ReturnX as r:
            if fr.yields is not None:
                return fr.yields
            return r.v
        return fr.yields

    def instantiate(self, cls, args, kwargs):
        h = self.stubs.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        m = _TYPES.get(cls)
        if m is not None:
            return m(self, *args, **kwargs)
        if issubclass(cls, BaseException):
            if is_repo_class(cls) and '__init__' in cls.__dict__:
                obj = cls.__new__(cls)
                self._call(cls.__dict__['__init__'], [obj] + args, kwargs)
                return obj
            try:
                return cls(*[self.exc_arg(a) for a in args])
            except Exception as ex:
                raise PyExc(ex)
        if issubclass(cls, enum.Enum):
            if not self.all_native(args):
                raise Unsupported('symbolic enum value')
            return self.native(cls, args, kwargs)
        if is_repo_class(cls):
            init = None
            for c in cls.__mro__:
                if '__init__' in c.__dict__:
                    init = c.__dict__['__init__']
                    break
            if isinstance(init, types.FunctionType):
                try:
                    if not is_repo_function(init):
                        raise Unsupported('native init')
                    node_of(init)
                except Unsupported:
                    if self.all_native(args) and self.all_native(list(kwargs.values())):
                        return self.native(cls, args, kwargs)
                    raise
            try:
                obj = object.__new__(cls)
            except TypeError as ex:
                raise PyExc(ex)
            E().created(obj)
            if isinstance(init, types.FunctionType):
                self._call(init, [obj] + args, kwargs)
            return obj
        if self.all_native(args) and self.all_native(list(kwargs.values())):
            return self.native(cls, args, kwargs)
        raise Unsupported(f'instantiation of {cls!r}')

    def exc_arg(self, a):
        return a

    # ------------------------------------------------------------------------------------------ attributes
    def getattr(self, obj, name):
        if isinstance(obj, (Rope, VList, VDict, _Num, SBool, str, bytes, list, tuple, dict, set, frozenset,
                            collections.deque, re.Pattern)) and not isinstance(obj, type) and not is_plain_object(obj):
            if isinstance(obj, re.Pattern) and name in ('pattern', 'flags', 'groups', 'groupindex'):
                return getattr(obj, name)
            if isinstance(obj, tuple) and hasattr(obj, '_fields') and name in obj._fields:
                return getattr(obj, name)
            if name == '__class__':
                return self.type_of(obj)
            t = self.type_of(obj)
            if isinstance(t, type) and t in (str, bytes, list, dict, set, int, bool, float, tuple) and not hasattr(t, name):
                raise_py(AttributeError(f'{t.__name__!r} object has no attribute {name!r}'))
            return BMethod(obj, name)
        if isinstance(obj, Poison):
            raise Unsupported(f'attribute of a value lost in a summary: {obj.why}')
        if isinstance(obj, SuperProxy):
            mro = (obj.obj if isinstance(obj.obj, type) else type(obj.obj)).__mro__
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], obj.obj, c)
            raise_py(AttributeError(name))
        if isinstance(obj, type):
            for c in obj.__mro__:
                if name in c.__dict__:
                    v = c.__dict__[name]
                    if isinstance(v, classmethod):
                        return VBound(obj, v.__func__)
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, types.FunctionType):
                        return v
                    break
            else:
                v = _MISSING
            try:
                return getattr(obj, name)
            except AttributeError as ex:
                raise PyExc(ex)
        if isinstance(obj, types.ModuleType):
            try:
                return getattr(obj, name)
            except AttributeError as ex:
                raise PyExc(ex)
        if hasattr(obj, '_kv_getattr'):
            r = obj._kv_getattr(self, name)
            if r is not NotImplemented:
                return r
        t = type(obj)
        raw = _MISSING
        for c in t.__mro__:
            if name in c.__dict__:
                raw = c.__dict__[name]
                break
        if isinstance(raw, property):
            return self._call(raw.fget, [obj], {}) if is_repo_function(raw.fget) else getattr(obj, name)
        d = getattr(obj, '__dict__', None)
        if d is not None and name in d:
            v = d[name]
            if isinstance(v, Poison):
                raise Unsupported(f'attribute {name} lost in a summary ({v.why})')
            return v
        if raw is not _MISSING:
            return self.bind(raw, obj, t)
        try:
            ga = None
            for c in t.__mro__:
                if '__getattr__' in c.__dict__ and is_repo_function(c.__dict__['__getattr__']):
                    ga = c.__dict__['__getattr__']
            if ga is not None:
                return self._call(ga, [obj, name], {})
            return getattr(obj, name)
        except AttributeError as ex:
            raise PyExc(ex)

    def bind(self, raw, obj, owner):
        if isinstance(raw, property):
            return self._call(raw.fget, [obj], {})
        if isinstance(raw, types.FunctionType):
            return VBound(obj, raw)
        if isinstance(raw, classmethod):
            return VBound(obj if isinstance(obj, type) else type(obj), raw.__func__)
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, VFunc):
            return VBound(obj, raw)
        if hasattr(raw, '__get__') and not isinstance(raw, type):
            try:
                return raw.__get__(obj, type(obj))
            except Exception as ex:
                raise PyExc(ex)
        return raw

    def setattr(self, obj, name, v):
        if isinstance(obj, (Rope, _Num, SBool)):
            raise Unsupported('attribute assignment')
        if not isinstance(obj, type):
            for c in type(obj).__mro__:
                raw = c.__dict__.get(name)
                if isinstance(raw, property):
                    if raw.fset is None:
                        raise_py(AttributeError(f"property {name!r} has no setter"))
                    return self._call(raw.fset, [obj, v], {})
                if raw is not None:
                    break
            d = obj.__dict__
            old = d.get(name, _MISSING)
            def undo():
                if old is _MISSING:
                    d.pop(name, None)
                else:
                    d[name] = old
            if not E().is_own(obj):
                E().undo_push(undo)
            if self.touched is not None:
                self.touched.append(('attr', obj, name))
            d[name] = v
            return
        old = obj.__dict__.get(name, _MISSING)
        def undo2():
            if old is _MISSING:
                if name in obj.__dict__:
                    type.__delattr__(obj, name)
            else:
                type.__setattr__(obj, name, old)
        E().undo_push(undo2)
        if self.touched is not None:
            self.touched.append(('cattr', obj, name))
        type.__setattr__(obj, name, v)

    # ------------------------------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, fr)

    def x_Expr(self, s, fr): self.eval(s.value, fr)
    def x_Pass(self, s, fr): pass
    def x_Return(self, s, fr): raise ReturnX(self.eval(s.value, fr) if s.value is not None else None)
    def x_Break(self, s, fr): raise BreakX
    def x_Continue(self, s, fr): raise ContinueX
    def x_Global(self, s, fr): fr.globals_decl.update(s.names)
    def x_Nonlocal(self, s, fr): fr.nonlocal_decl.update(s.names)

    def x_Import(self, s, fr):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                mod = sys.modules[a.name]
            fr.store(a.asname or a.name.split('.')[0], mod)

    def x_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.glob.get('__package__')
        mod = importlib.import_module('.' * s.level + (s.module or ''), pkg) if s.level else \
            importlib.import_module(s.module)
        for a in s.names:
            fr.store(a.asname or a.name, getattr(mod, a.name))

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = fr.lookup(t.id)
            fr.store(t.id, self.aug(s.op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            cur = self.subscript(o, i)
            self.setitem(o, i, self.aug(s.op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported('augmented assignment target')

    def aug(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, VList):
                self.builtin_method(a, 'extend', [b], {})
                return a
            if isinstance(a, list):
                raise Unsupported('in-place addition to a native list')
            if is_plain_object(a):
                f = self.find_method(a, '__iadd__')
                if f is not None:
                    r = self._call(f, [a, b], {})
                    if r is not NotImplemented:
                        return r
        return self.binop(op, a, b)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval_index(t.slice, fr)
                if isinstance(o, VDict):
                    o.remove(i)
                elif isinstance(o, VList):
                    if isinstance(i, tuple) and i and i[0] is _SLICE:
                        _, lo, hi, st = i
                        if st not in (None, 1):
                            raise Unsupported('del with a step')
                        a = seq_slice(o, None, lo) if lo is not None else VList()
                        b = seq_slice(o, hi, None) if hi is not None else VList()
                        self.touch(o)
                        o.set_parts(list(a.parts) + list(b.parts))
                    else:
                        self.builtin_method(o, 'pop', [i], {})
                else:
                    raise Unsupported('del item')
            elif isinstance(t, ast.Name):
                fr.store(t.id, Poison('deleted'))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                d = o.__dict__
                if t.attr not in d:
                    raise_py(AttributeError(t.attr))
                old = d[t.attr]
                def undo():
                    d[t.attr] = old
                E().undo_push(undo)
                del d[t.attr]
            else:
                raise Unsupported('del')

    def touch(self, o):
        if self.touched is not None:
            self.touched.append(('list', o, None))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, elts):
        stars = [n for n, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.iter_concrete(v)
        if stars:
            k = stars[0]
            after = len(elts) - k - 1
            if len(vals) < len(elts) - 1:
                raise_py(ValueError('not enough values to unpack'))
            return vals[:k] + [VList.of(vals[k:len(vals) - after])] + (vals[len(vals) - after:] if after else [])
        if len(vals) != len(elts):
            raise_py(ValueError(f'cannot unpack {len(vals)} values into {len(elts)}'))
        return vals

    def setitem(self, o, i, v):
        if isinstance(o, VDict):
            if self.touched is not None:
                self.touched.append(('dict', o, None))
            o.put(i, v)
        elif isinstance(o, dict):
            if not self.is_native(i):
                raise Unsupported('symbolic key stored in a native dictionary')
            old = dict(o)
            def undo():
                o.clear()
                o.update(old)
            E().undo_push(undo)
            if self.touched is not None:
                self.touched.append(('dict', o, None))
            o[i] = v
        elif isinstance(o, VList):
            if isinstance(i, tuple) and i and i[0] is _SLICE:
                _, lo, hi, st = i
                if st not in (None, 1):
                    raise Unsupported('slice assignment with a step')
                a = seq_slice(o, None, lo) if lo is not None else VList()
                b = seq_slice(o, hi, None) if hi is not None else VList()
                mid = v.parts if isinstance(v, VList) else [Lit(self.iter_concrete(v))]
                self.touch(o)
                o.set_parts(list(a.parts) + list(mid) + list(b.parts))
                return
            if not isinstance(i, int):
                raise Unsupported('symbolic list index assignment')
            vals = o.values()
            try:
                vals[i] = v
            except IndexError as ex:
                raise PyExc(ex)
            self.touch(o)
            o.set_parts([Lit(vals)])
        elif isinstance(o, list):
            old = list(o)
            def undo2():
                o[:] = old
            E().undo_push(undo2)
            o[i] = v
        elif is_plain_object(o):
            self._call(self.getattr(o, '__setitem__'), [i, v], {})
        else:
            raise Unsupported('item assignment')

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyExc(AssertionError(*([self.exc_arg(self.eval(s.msg, fr))] if s.msg is not None else [])))

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(fr, 'handling', None)
            f = fr
            if e is None:
                raise Unsupported('bare raise outside of a handler')
            raise PyExc(e)
        e = self.eval(s.exc, fr)
        if isinstance(e, type):
            e = self.instantiate(e, [], {})
        if s.cause is not None:
            self.eval(s.cause, fr)
        if not isinstance(e, BaseException):
            raise_py(TypeError('exceptions must derive from BaseException'))
        raise PyExc(e)

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyExc as px:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, fr)
                        ok = isinstance(px.exc, t if isinstance(t, (tuple, type)) else tuple(t))
                    if ok:
                        old = getattr(fr, 'handling', None)
                        fr.handling = px.exc
                        if h.name:
                            fr.store(h.name, px.exc)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.handling = old
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyExc, ReturnX, BreakX, ContinueX):
            if s.finalbody:
                self.exec_block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def x_With(self, s, fr):
        if len(s.items) != 1:
            raise Unsupported('with several items')
        it = s.items[0]
        cm = self.eval(it.context_expr, fr)
        if not is_plain_object(cm):
            raise Unsupported('with statement over a native context manager')
        v = self._call(self.getattr(cm, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.exec_block(s.body, fr)
        except PyExc as px:
            if not self.truth(self._call(self.getattr(cm, '__exit__'), [type(px.exc), px.exc, None], {})):
                raise
        except (ReturnX, BreakX, ContinueX):
            self._call(self.getattr(cm, '__exit__'), [None, None, None], {})
            raise
        else:
            self._call(self.getattr(cm, '__exit__'), [None, None, None], {})

    def x_FunctionDef(self, s, fr):
        defaults = [self.eval(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        f = VFunc(s, fr, fr.glob, s.name, defaults, kwd, self, fr.cls)
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        fr.store(s.name, f)

    def x_While(self, s, fr):
        for p in self.loop_providers:
            h = p(self, fr, s)
            if h is not None:
                return self.while_contract(s, fr, h)
        n = 0
        while True:
            if not self.truth(self.eval(s.test, fr)):
                self.exec_block(s.orelse, fr)
                return
            try:
                self.exec_block(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                pass
            n += 1
            if n > self.unroll_limit:
                raise Unsupported(f'loop without invariant in {getattr(fr.fn, "__qualname__", fr.node)} '
                                  f'exceeds {self.unroll_limit} iterations')

    def while_contract(self, s, fr, h):
        h.entry(fr)
        for nme in assigned_names([s]):
            if nme in fr.locals and nme not in h.bound_names:
                fr.store(nme, Poison('loop'))
        h.havoc(fr)
        E().cover(f'{h.name}: loop head')
        if not self.truth(self.eval(s.test, fr)):
            E().cover(f'{h.name}: exit')
            if hasattr(h, 'at_exit'):
                h.at_exit(fr)
            self.exec_block(s.orelse, fr)
            return
        try:
            self.exec_block(s.body, fr)
        except BreakX:
            if hasattr(h, 'at_exit'):
                h.at_exit(fr)
            return
        except ContinueX:
            pass
        h.preserved(fr)
        raise PathEnd

    def x_For(self, s, fr):
        it = self.sym_iter(self.eval(s.iter, fr))
        for p in self.for_providers:
            h = p(self, fr, s, it)
            if h is not None:
                return self.for_contract(s, fr, h, it)
        try:
            for item in it.items:
                if item[0] == 'v':
                    self.assign(s.target, item[1], fr)
                    try:
                        self.exec_block(s.body, fr)
                    except ContinueX:
                        pass
                else:
                    self.for_symbolic(item, s, fr)
        except BreakX:
            return
        self.exec_block(s.orelse, fr)

    def for_contract(self, s, fr, h, it):
        """one arbitrary iteration, or the end"""
        items = [x for x in it.items]
        h.entry(fr, items)
        n = E().choose(len(items) + 1)
        h.havoc(fr)
        at = getattr(h, 'at', lambda n, i: None)
        if n == len(items):
            at(n, None)
            for x in assigned_names([s.target]):
                fr.store(x, Poison('loop variable after the loop'))
            self.exec_block(s.orelse, fr)
            return
        item = items[n]
        if item[0] == 'v':
            at(n, None)
            vals = [item[1]]
        else:
            i = generic_index(item[1].lo, item[1].hi)
            at(n, i)
            vals = self.elements_at(item, i)
            vals = [vals[E().choose(len(vals))]] if vals else []
        try:
            for v in vals:
                self.assign(s.target, v, fr)
                self.exec_block(s.body, fr)
        except BreakX:
            return
        except ContinueX:
            pass
        h.preserved(fr)
        raise PathEnd

    # -- summaries of loops over symbolic parts
    def for_symbolic(self, item, s, fr):
        def body(value):
            self.assign(s.target, value, fr)
            try:
                self.exec_block(s.body, fr)
            except ContinueX:
                pass
        names = assigned_names(s.body) | assigned_names([s.target] if not isinstance(s.target, ast.Name) else
                                                        [s.target])
        self.summarise(item, body, fr, names)
        for n in names:
            if n not in fr.locals:
                fr.store(n, Poison('loop variable after the loop'))

    def elements_at(self, item, i, nested=False):
        """values of the iteration at (symbolic) index i of a symbolic part"""
        _, part, kind, wrap = item
        if isinstance(part, Slice):
            if kind == 'str':
                vals = [norm(Rope('str', [Slice(part.src, i, simp(i + 1))]))]
            else:
                vals = [mknum(part.src.elem(i))]
        elif isinstance(part, Flat):
            t = part.at(i)
            if isinstance(t, Rope):
                vals = []
                if kind == 'str':
                    for p in t.parts:
                        if isinstance(p, Lit):
                            vals += list(p.v)
                        elif z3.is_int_value(simp(p.length())) and simp(p.length()).as_long() == 1:
                            vals.append(norm(Rope('str', [p])))
                        else:
                            raise Unsupported('iteration over an opaque text')
                else:
                    for p in t.parts:
                        if isinstance(p, Lit):
                            vals += list(p.v)
                        elif isinstance(p, Slice) and z3.is_int_value(simp(p.length())) and simp(p.length()).as_long() == 1:
                            vals.append(mknum(p.src.elem(p.lo)))
                        else:
                            raise Unsupported('iteration over a family of bytes')
            else:
                vals = list(t)
                if (wrap or not nested) and any(isinstance(x, Spread) for x in t):
                    raise Unsupported('iteration over a nested family')
        elif isinstance(part, RangePart):
            vals = [mknum(i)]
        else:
            raise Unsupported(f'iteration over {part!r}')
        return [wrap(i, v) for v in vals] if wrap else vals

    def inner(self, part, body, fr, names):
        """the elements of a nested part of a family"""
        def inner_body(v):
            try:
                body(v)
            except BreakX:
                raise Unsupported('iteration over a nested family is left early')
        for it in self.sym_iter(VList([part])).items:
            if it[0] == 'v':
                inner_body(it[1])
            else:
                self.summarise(it, inner_body, fr, names)

    def summarise(self, item, body, fr, names):
        part = item[1]
        eng = E()
        if isinstance(part, Rep):
            bv = z3.Int(eng.fresh_name('?rp'))
            part = Flat(bv, 0, part.n, [(z3.BoolVal(True), [], Rope('str' if isinstance(part.unit, str) else 'bytes', [Lit(part.unit)]))])
            item = (item[0], part, item[2], item[3])
        lo, hi = part.lo, part.hi
        if not eng.entails(lo <= hi):
            if not eng.branch(lo < hi):
                return
        bv = z3.Int(eng.fresh_name('?i'))
        touched_all = []
        outcome = None
        changing = set()        # accumulators some normal iteration changes; the others keep their values
        for attempt in range(12):
            marks = self.make_marks(touched_all, names, fr)
            marked = {i for i, (k, o, n, v) in enumerate(marks) if k == 'list' or (k, id(o), n) in changing}

            def run():
                eng.add(z3.And(bv >= lo, bv < hi))
                eng.bound.append(bv)
                old_t = self.touched
                self.touched = []
                try:
                    self.install_marks(marks, fr, marked)
                    alive0 = {id(o) for _, o, _ in touched_all}
                    try:
                        for v in self.elements_at(item, bv, nested=True):
                            if isinstance(v, Spread):
                                self.inner(v.part, body, fr, names)
                            else:
                                body(v)
                        kind = 'normal'
                    except BreakX:
                        kind = 'break'
                    except ReturnX:
                        kind = 'return'
                    except PyExc as px:
                        kind = 'raise'
                    t = self.touched
                    deltas = self.read_deltas(marks, fr, marked) if kind == 'normal' else None
                    live = [(k, o, n) for k, o, n in t]
                    return kind, deltas, live
                finally:
                    eng.bound.pop()
                    self.touched = old_t
            created_mark = eng.counter.get('__obj', 0)
            outcome = eng.nested(run)
            new = []
            for _, _, (kind, deltas, live) in outcome:
                for k, o, n in live:
                    if self.preexisting(o, fr) and not any(k == k2 and o is o2 and n == n2 for k2, o2, n2 in touched_all + new):
                        new.append((k, o, n))
            more = {(marks[i][0], id(marks[i][1]), marks[i][2]) for _, _, (kind, deltas, _) in outcome if kind == 'normal'
                    for i, d in deltas.items() if not isinstance(d, Exception) and d[0] == 'changed'}
            if not new and not more:
                break
            touched_all += new
            changing |= more
        else:
            raise Unsupported('loop body keeps touching new state')
        if self.touched is not None:
            self.touched.extend(touched_all)
        normal = [(z3.And(*g) if g else z3.BoolVal(True), fa, d) for g, fa, (k, d, _) in outcome if k == 'normal']
        abrupt = [x for x in outcome if x[2][0] != 'normal']
        for g, fa, d in normal:
            for m, dv in d.items():
                if isinstance(dv, Exception):
                    raise Unsupported(str(dv))
        normal = self.resolve_marks(marks, normal, bv, lo)

        def was_normal(i):
            """iteration i (one before the end) went through without leaving the loop"""
            c = z3.Or(*[g for g, _, _ in normal])
            eng.fact(z3.Implies(z3.And(_zi(lo) <= i, i < _zi(hi)), _sub(c, [(bv, simp(i))])))
            for x in [*self.points, *solutions(c, bv)]:
                eng.fact(z3.Implies(z3.And(_zi(lo) <= x, x <= i), _sub(c, [(bv, simp(x))])))
        if abrupt:
            if not normal or eng.choose(2) == 1:
                # some iteration ends the loop: everything before it is normal
                i0 = eng.fresh('stop_at')
                eng.add(z3.And(i0 >= lo, i0 < hi))
                if not eng.feasible():
                    raise Infeasible
                if normal:
                    was_normal(simp(i0 - 1))
                    self.apply_summary(marks, normal, bv, lo, i0, fr)
                else:
                    eng.add(i0 == lo)
                    i0 = lo
                for v in self.elements_at(item, i0):
                    body(v)
                raise Infeasible       # this iteration was normal: covered by the other alternative
            was_normal(simp(hi - 1)) if normal else None
        if not normal:
            raise Infeasible
        self.apply_summary(marks, normal, bv, lo, hi, fr)

    def resolve_marks(self, marks, normal, bv, lo):
        """replace what the body read of the accumulators by their values at the iteration"""
        m, all_, texts = [], [], set()
        for idx, (k, o, n, v) in enumerate(marks):
            if k == 'list':
                texts.add(f'L{idx}')
                continue
            ds = [d[idx] for _, _, d in normal]
            kinds = {d[0] for d in ds}
            if isinstance(v, (bool, SBool)):
                mk = z3.Bool(f'mk_M{idx}')
                all_.append(mk)
                if kinds == {'same'}:
                    m.append((mk, tob(v)))
            elif isinstance(v, (int, SInt)):
                mk = z3.Int(f'mk_M{idx}')
                all_.append(mk)
                if kinds == {'same'}:
                    m.append((mk, toz(v)))
                elif kinds == {'add'} and all(z3.is_int_value(d[1]) and d[1].eq(ds[0][1]) for d in ds):
                    m.append((mk, simp(toz(v) + ds[0][1] * (bv - _zi(lo)))))
            elif kind_of(v) is not None:
                texts.add(f'M{idx}')
                all_.append(z3.Int(f'marklen_M{idx}'))
        if not all_ and not texts:
            return normal

        def foreign(x):
            """does the value still depend on an accumulator"""
            if mentions(x, all_):
                return True
            ps = x if isinstance(x, (list, tuple)) else [x]
            for p in ps:
                if isinstance(p, Mark):
                    return True
                if isinstance(p, (Rope, VList)) and foreign(p.parts):
                    return True
                if isinstance(p, Lit) and isinstance(p.v, (list, tuple)) and foreign(list(p.v)):
                    return True
                if isinstance(p, (list, tuple)) and foreign(p):
                    return True
                if isinstance(p, Flat) and any(foreign(t) for _, _, t in p.cases):
                    return True
            return False
        out = []
        for j, (g, fa, d) in enumerate(normal):
            g = _sub(g, m)
            if mentions(g, all_):
                g = z3.Function(E().fresh_name(f'?case{j}'), INT, z3.BoolSort())(bv)
            fa = [f for f in (_sub(f, m) for f in fa) if not mentions(f, all_)]
            d2 = {}
            for idx, dv in d.items():
                dv = tuple([p.subst(m) if isinstance(p, S.Part) else p for p in x] if isinstance(x, list) else
                           _sub(x, m) if z3.is_expr(x) else x for x in dv)
                if any(foreign(x) for x in dv if not isinstance(x, (str, bool))):
                    if marks[idx][0] == 'list':
                        raise Unsupported('what is appended depends on an accumulator of the loop')
                    dv = ('poison',)
                d2[idx] = dv
            out.append((g, fa, d2))
        return out

    def preexisting(self, o, fr):
        """objects reachable before the loop; objects created inside the body carry no mark"""
        return id(o) in self._reachable(fr)

    def _reachable(self, fr):
        seen = set()
        keep = []
        stack = []
        f = fr
        while f is not None:
            stack.extend(f.locals.values())
            f = f.parent
        for fr2 in getattr(self, 'frames', []):
            stack.extend(fr2.locals.values())
        stack.extend(getattr(self, 'roots', []))
        while stack:
            v = stack.pop()
            if id(v) in seen:
                continue
            if isinstance(v, VList):
                seen.add(id(v))
                keep.append(v)
                for p in v.parts:
                    if isinstance(p, Lit):
                        stack.extend(p.v)
            elif isinstance(v, VDict):
                seen.add(id(v))
                for a, b in v.items_:
                    stack.append(b)
            elif isinstance(v, (tuple, list)):
                seen.add(id(v))
                stack.extend(v)
            elif isinstance(v, type):
                seen.add(id(v))
            elif isinstance(v, VBound):
                stack.append(v.obj)
            elif is_plain_object(v):
                seen.add(id(v))
                stack.extend(v.__dict__.values())
        return seen

    def make_marks(self, touched, names, fr):
        """accumulators: locals assigned in the body that exist before, and touched heap locations"""
        marks = []
        for n in sorted(names):
            if n in fr.locals and not isinstance(fr.locals[n], Poison):
                marks.append(('local', fr, n, fr.locals[n]))
        for k, o, n in touched:
            if k == 'attr':
                marks.append(('attr', o, n, o.__dict__.get(n, _MISSING)))
            elif k == 'list':
                marks.append(('list', o, None, o))
            else:
                raise Unsupported(f'loop body modifies {k} state')
        return marks

    def install_marks(self, marks, fr, marked):
        self._markvals = {}
        for idx, (k, o, n, v) in enumerate(marks):
            if idx not in marked:
                continue
            if k == 'list':
                mk = VList([Mark(f'L{idx}')])
                o.set_parts([Mark(f'L{idx}')])
                continue
            mv = self.mark_value(v, f'M{idx}')
            if mv is None:
                continue
            if k == 'local':
                o.store(n, mv)
            else:
                t = self.touched
                self.touched = None
                d = o.__dict__
                old = d.get(n, _MISSING)
                def undo(d=d, n=n, old=old):
                    if old is _MISSING:
                        d.pop(n, None)
                    else:
                        d[n] = old
                E().undo_push(undo)
                d[n] = mv
                self.touched = t

    def mark_value(self, v, name):
        if kind_of(v) is not None:
            return Rope(kind_of(v), [Mark(name)])
        if isinstance(v, bool) or isinstance(v, SBool):
            return SBool(z3.Bool('mk_' + name))
        if isinstance(v, (int, SInt)):
            return SInt(z3.Int('mk_' + name))
        if isinstance(v, VList):
            return None     # the list object itself is tracked as heap
        return Poison('previous iteration')

    def read_deltas(self, marks, fr, marked):
        out = {}
        for idx, (k, o, n, v) in enumerate(marks):
            try:
                if k == 'list':
                    ps = o.parts
                    out[idx] = self.list_delta(ps, f'L{idx}')
                    continue
                cur = o.locals.get(n, _MISSING) if k == 'local' else o.__dict__.get(n, _MISSING)
                if idx not in marked:
                    out[idx] = ('same',) if cur is v or cur is not _MISSING and v is not _MISSING and \
                        not isinstance(cur, Poison) and type(cur) is type(v) and S.vkey(cur) == S.vkey(v) and \
                        not isinstance(v, VList) else ('changed',)
                    continue
                out[idx] = self.delta(v, cur, f'M{idx}')
            except Unsupported as ex:
                out[idx] = ex
        return out

    def list_delta(self, ps, name):
        ix = [i for i, p in enumerate(ps) if isinstance(p, Mark) and p.name == name]
        if len(ix) != 1:
            raise Unsupported('list accumulator is not extended only')
        i = ix[0]
        before, after = ps[:i], ps[i + 1:]
        if before and after:
            raise Unsupported('list accumulator extended at both ends')
        if before:
            return ('prepend', before)
        return ('append', after)

    def delta(self, pre, cur, name):
        if isinstance(cur, Poison) or cur is _MISSING:
            return ('poison',)
        if kind_of(pre) is not None and isinstance(cur, Rope):
            ix = [i for i, p in enumerate(cur.parts) if isinstance(p, Mark) and p.name == name]
            if len(ix) == 1:
                before, after = cur.parts[:ix[0]], cur.parts[ix[0] + 1:]
                if not before and not after:
                    return ('same',)
                if not before:
                    return ('append', after)
                if not after:
                    return ('prepend', before)
            return ('poison',)
        if isinstance(pre, (bool, SBool)):
            if isinstance(cur, SBool) and cur.e.eq(z3.Bool('mk_' + name)):
                return ('same',)
            if isinstance(cur, bool):
                return ('const', cur)
            return ('poison',)
        if isinstance(pre, (int, SInt)) and isinstance(cur, (int, SInt)):
            mk = z3.Int('mk_' + name)
            d = simp(toz(cur) - mk)
            if z3.is_int_value(d) and d.as_long() == 0:
                return ('same',)
            if mentions(d, [mk]):
                return ('poison',)
            return ('add', d)
        if isinstance(pre, VList) and cur is pre:
            return ('same',)
        if cur is pre:
            return ('same',)
        return ('poison',)

    def apply_summary(self, marks, normal, bv, lo, hi, fr):
        eng = E()
        lo, hi = simp(_zi(lo)), simp(_zi(hi))
        for idx, (k, o, n, v) in enumerate(marks):
            ds = [(g, fa, d[idx]) for g, fa, d in normal]
            kinds = {d[0] for _, _, d in ds}
            if k == 'list':
                if kinds == {'append'} or kinds == {'prepend'}:
                    cases = []
                    for g, fa, d in ds:
                        cases.append((g, fa, self.list_template(d[1])))
                    fp = mkflat('list', bv, lo, hi, cases)
                    cur = o.parts
                    if kinds == {'append'}:
                        o.set_parts(list(cur) + fp)
                    else:
                        if fp and not (len(ds) == 1 and not ds[0][2][1]):
                            raise Unsupported('prepending in a summarised loop')
                    continue
                raise Unsupported('mixed list operations in a summarised loop')
            if kinds == {'same'}:
                newv = v
            elif kinds <= {'append', 'same'} and kind_of(v) is not None:
                cases = [(g, fa, Rope(kind_of(v), d[1] if d[0] == 'append' else [])) for g, fa, d in ds]
                newv = norm(Rope(kind_of(v), list(parts_of(v)) + mkflat(kind_of(v), bv, lo, hi, cases)))
            elif kinds <= {'add', 'same'} and isinstance(v, (int, SInt)):
                newv = self.sum_deltas(v, [(g, fa, d[1] if d[0] == 'add' else z3.IntVal(0)) for g, fa, d in ds], bv, lo, hi)
            elif kinds <= {'const', 'same'} and isinstance(v, bool):
                cs = {d[1] for _, _, d in ds if d[0] == 'const'}
                if cs == {v}:
                    newv = v
                elif 'same' not in kinds and len(cs) == 1:
                    newv = mkbool(z3.If(lo < hi, tob(cs.pop()), tob(v)))
                else:
                    newv = SBool(eng.fresh('flag', z3.BoolSort()))
            else:
                newv = Poison('summarised loop')
            if k == 'local':
                o.store(n, newv)
            else:
                t = self.touched
                if isinstance(newv, Poison) and n not in o.__dict__:
                    continue
                self.setattr(o, n, newv)

    def list_template(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Lit):
                out.extend(p.v)
            else:
                out.append(Spread(p))
        return out

    def sum_deltas(self, v, cases, bv, lo, hi):
        eng = E()
        es = [simp(d) for _, _, d in cases]
        if all(e.eq(es[0]) for e in es):
            e = es[0]
            if z3.is_int_value(e):
                return v + mknum(e * (hi - lo))
            pot = telescope(e, bv)
            if pot is not None:
                a, b = simp(pot(lo)), simp(pot(hi))
                if self._nonneg(e):
                    eng.fact(z3.Implies(lo <= hi, b >= a))
                return v + mknum(b - a)
        f = z3.Function('sum_%x' % (hash(repr([( _ek(_sub(g, [(bv, z3.Int('?s'))])), _ek(_sub(d, [(bv, z3.Int('?s'))]))) for g, _, d in cases])) & 0xffffffffff), INT, INT)
        r = simp(f(hi) - f(lo))
        if all(self._nonneg(e) for e in es):
            eng.fact(z3.Implies(lo <= hi, r >= 0))
        return v + mknum(r)

    def _nonneg(self, e):
        return E().entails(e >= 0)

    # ------------------------------------------------------------------------------------------ iteration
    def sym_iter(self, v) -> SymIter:
        if isinstance(v, SymIter):
            return v
        if isinstance(v, (str, tuple, list, range, set, frozenset, dict, bytes, collections.deque)):
            return SymIter([('v', x) for x in (sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v)])
        if isinstance(v, (Rope, VList)):
            kind = v.kind if isinstance(v, Rope) else 'list'
            items = []
            for p in v.parts:
                if isinstance(p, Lit):
                    items += [('v', x) for x in p.v]
                elif isinstance(p, (Slice, Flat, Rep)):
                    items.append(('p', p, kind, None))
                elif isinstance(p, Mark):
                    raise Unsupported('iteration over an accumulator inside its own loop')
                elif isinstance(p, Tok) and kind == 'str' and z3.is_int_value(simp(p.length())) and simp(p.length()).as_long() == 1:
                    items.append(('v', Rope('str', [p])))
                else:
                    raise Unsupported(f'iteration over {p!r}')
            return SymIter(items)
        if isinstance(v, VDict):
            return SymIter([('v', k) for k, _ in v.items_])
        if isinstance(v, RangePart):
            return SymIter([('p', v, 'int', None)])
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return SymIter([('v', x) for x in v])
        if is_plain_object(v):
            f = self.find_method(v, '__iter__')
            if f is not None:
                return self.sym_iter(self._call(f, [v], {}))
        if hasattr(v, '_kv_iter'):
            return v._kv_iter(self)
        if hasattr(v, '__iter__') and not isinstance(v, (SInt, SBool)):
            try:
                return SymIter([('v', x) for x in v])
            except (Unsupported, PyExc):
                raise
            except Exception as ex:
                raise PyExc(ex)
        raise_py(TypeError(f'{type(v).__name__} object is not iterable'))

    def iter_concrete(self, v):
        if isinstance(v, VList) and not v.is_concrete():
            # try to expose a bounded number of elements (e.g. unpacking a short slice)
            n = known_length(rlen(v))
            if n is not None:
                return [seq_index(v, i) for i in range(n)]
            if all(isinstance(p, (Lit, Flat)) for p in v.parts):
                out, parts, steps = [], list(v.parts), 0
                while parts:
                    p = parts.pop(0)
                    if isinstance(p, Lit):
                        out.extend(p.v)
                        continue
                    if not E().branch(p.lo < p.hi):
                        continue
                    steps += 1
                    if steps > 12:
                        raise Unsupported('symbolic sequence where a concrete one is needed')
                    tp, tail = p.unfold()
                    parts = tp + [tail] + parts
                return out
        if isinstance(v, Rope):
            ln = simp(rlen(v))
            if z3.is_int_value(ln):
                return [seq_index(v, i) for i in range(ln.as_long())]
        it = self.sym_iter(v)
        out = []
        for x in it.items:
            if x[0] != 'v':
                raise Unsupported('symbolic sequence where a concrete one is needed')
            out.append(x[1])
        return out

    # ------------------------------------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, SBool):
            return E().branch(v.e)
        if isinstance(v, _Num):
            return E().branch(v.e != 0)
        if isinstance(v, (Rope, VList)):
            return E().branch(rlen(v) > 0)
        if isinstance(v, VDict):
            n = v.length()
            return self.truth(n)
        if isinstance(v, Poison):
            raise Unsupported('truth of a value lost in a summary')
        if is_plain_object(v):
            f = self.find_method(v, '__bool__')
            if f is not None:
                return self.truth(self._call(f, [v], {}))
            f = self.find_method(v, '__len__')
            if f is not None:
                return self.truth(self._call(f, [v], {}) != 0)
            return True
        return bool(v)

    def find_method(self, obj, name):
        for c in type(obj).__mro__:
            if name in c.__dict__:
                f = c.__dict__[name]
                if isinstance(f, types.FunctionType) and (is_repo_function(f) or getattr(f, '_kv_symbolic', False)):
                    return f
                return None
        return None

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr): return fr.lookup(e.id)
    def e_Attribute(self, e, fr): return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def mangle(self, name, fr):
        return name

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while getattr(f, 'is_comp', False):
            f = f.parent
        f.store(e.target.id, v)
        return v

    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.list_of(e.elts, fr)

    def list_of(self, elts, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                parts += self.listy_parts(v)
            else:
                parts.append(Lit([self.eval(x, fr)]))
        return VList(parts)

    def listy_parts(self, v):
        if isinstance(v, VList):
            return list(v.parts)
        if isinstance(v, Rope) and v.kind == 'bytes' and all(isinstance(p, (Lit, Slice)) for p in v.parts):
            return [Lit(list(p.v)) if isinstance(p, Lit) else p for p in v.parts]
        return [Lit(self.iter_concrete(v))]

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.iter_concrete(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Set(self, e, fr): return self.mkset(self.elts(e.elts, fr))

    def mkset(self, vals):
        if self.all_native(vals):
            return set(vals)
        return VSet(vals)

    def e_Dict(self, e, fr):
        d = VDict()
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                pairs = src.items_ if isinstance(src, VDict) else list(src.items())
                for a, b in pairs:
                    self._dput(items, a, b)
            else:
                kk = self.eval(k, fr)
                self._dput(items, kk, self.eval(v, fr))
        return VDict(items)

    def _dput(self, items, k, v):
        for n, (a, _) in enumerate(items):
            c = self.eq(a, k)
            if c is True or (c is not False and self.truth(c)):
                items[n] = (a, v)
                return
        items.append((k, v))

    def e_BinOp(self, e, fr): return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        a, b = norm(a), norm(b)
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported(f'value lost in a summary: {v.why}')
        if isinstance(a, S.SDec) or isinstance(b, S.SDec):
            if any(isinstance(v, (float, SReal)) and not isinstance(v, S.SDec) for v in (a, b)):
                raise_py(TypeError('unsupported operand type(s): decimal.Decimal and float'))
            if not isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
                raise Unsupported('decimal arithmetic')
            x, y = S.toreal(a), S.toreal(b)
            return S.SDec(simp(x + y if isinstance(op, ast.Add) else x - y if isinstance(op, ast.Sub) else x * y))
        if is_plain_object(a) or is_plain_object(b):
            nm = _OPS[type(op)]
            if is_plain_object(a):
                f = self.find_method(a, f'__{nm}__')
                if f is not None:
                    r = self._call(f, [a, b], {})
                    if r is not NotImplemented:
                        return r
            if is_plain_object(b):
                f = self.find_method(b, f'__r{nm}__')
                if f is not None:
                    r = self._call(f, [b, a], {})
                    if r is not NotImplemented:
                        return r
            raise_py(TypeError(f'unsupported operand types: {type(a).__name__} {nm} {type(b).__name__}'))
        if isinstance(op, ast.Add):
            if kind_of(a) is not None or kind_of(b) is not None:
                if kind_of(a) is None or kind_of(b) is None or kind_of(a) != kind_of(b):
                    raise_py(TypeError('can only concatenate strings'))
                return cat(a, b)
            if isinstance(a, (VList, list)) or isinstance(b, (VList, list)):
                if not (isinstance(a, (VList, list)) and isinstance(b, (VList, list))):
                    raise_py(TypeError('can only concatenate list to list'))
                return VList(self.listy_parts(a) + self.listy_parts(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, bytes, Rope, VList)) and isinstance(y, (int, SInt)):
                    return seq_repeat(x, y)
        if isinstance(op, ast.Mod) and kind_of(a) == 'str':
            if self.is_native(b) and isinstance(a, str):
                return self.native(lambda x, y: x % y, [a, b], {})
            return self.percent(a, b)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {ast.BitOr: lambda: a | b, ast.BitAnd: lambda: a & b, ast.Sub: lambda: a - b}[type(op)]()
        f = _PYOPS.get(type(op))
        if f is None:
            raise Unsupported(f'operator {type(op).__name__}')
        if not (_isnum(a) and _isnum(b)):
            if isinstance(a, (VSet, VDict)) or isinstance(b, (VSet, VDict)):
                raise Unsupported('set operator')
            return self.native(f, [a, b], {})
        try:
            return f(a, b)
        except (ZeroDivisionError, OverflowError, ValueError, TypeError) as ex:
            raise PyExc(ex)

    def percent(self, a, b):
        raise Unsupported('% formatting of symbolic values')

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return sym_not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(e.op, ast.Invert):
            return ~v
        raise Unsupported('unary operator')

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for n, x in enumerate(e.values):
            v = self.eval(x, fr)
            if n == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, SBool) else False
            if not is_and and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for n, (op, rx) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(rx, fr)
            r = self.compare(op, left, right)
            if n == len(e.ops) - 1:
                return r if res is True else sym_and(res, r)
            if not self.truth(r):
                return False
            left = right
        return res

    def eq(self, a, b):
        a, b = norm(a), norm(b)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparison of a value lost in a summary')
        if is_plain_object(a) or is_plain_object(b):
            for x, y in ((a, b), (b, a)):
                if is_plain_object(x):
                    f = self.find_method(x, '__eq__')
                    if f is not None:
                        r = self._call(f, [x, y], {})
                        if r is not NotImplemented:
                            return r
            return a is b
        if isinstance(a, (VList, list, tuple)) and isinstance(b, (VList, list, tuple)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            conc = lambda v: not isinstance(v, VList) or v.is_concrete()
            if conc(a) and conc(b):
                x, y = list_values(a), list_values(b)
                if len(x) != len(y):
                    return False
                cs = []
                for p, q in zip(x, y):
                    c = self.eq(p, q) if p is not q else True
                    if c is False:
                        return False
                    cs.append(c)
                cs = [c for c in cs if c is not True]
                return sym_and(*cs) if cs else True
        r = decide_eq(a, b)
        if r is None:
            try:
                return a == b
            except (Unsupported, PyExc):
                raise
            except Exception as ex:
                raise PyExc(ex)
        return r

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return sym_not(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if is_plain_object(a) and self.find_method(a, '__ne__') is not None:
                return self._call(self.find_method(a, '__ne__'), [a, b], {})
            return sym_not(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return sym_not(self.contains(b, a))
        a, b = norm(a), norm(b)
        if is_plain_object(a) or is_plain_object(b):
            nm = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[type(op)]
            f = self.find_method(a, f'__{nm}__') if is_plain_object(a) else None
            if f is not None:
                return self._call(f, [a, b], {})
            raise Unsupported('ordering of objects')
        f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
             ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
        if isinstance(a, Rope) or isinstance(b, Rope):
            raise Unsupported('ordering of symbolic strings')
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('comparison of a value lost in a summary')
        if isinstance(a, tuple) and isinstance(b, tuple) and not (self.is_native(a) and self.is_native(b)):
            raise Unsupported('ordering of symbolic tuples')
        try:
            return f(a, b)
        except TypeError as ex:
            raise PyExc(ex)

    def is_(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('identity of a value lost in a summary')
        if isinstance(a, SBool) and isinstance(b, bool):
            return a == b
        if isinstance(b, SBool) and isinstance(a, bool):
            return b == a
        return a is b

    def contains(self, c, x):
        c, x = norm(c), norm(x)
        if isinstance(c, (str, bytes)) and not isinstance(x, (Rope, _Num)):
            return self.native(lambda p, q: q in p, [c, x], {})
        if isinstance(c, VSet):
            return self.any_eq(c.vals, x)
        if isinstance(c, DictView):
            return self.contains(c.d, x) if c.what == 'keys' else self.any_eq(self.iter_concrete(c), x)
        if kind_of(c) is not None:
            if isinstance(c, bytes) and isinstance(x, SInt):
                return sym_or(*[x == b for b in c]) if c else False
            return text_contains(c, x)
        if isinstance(c, VDict):
            return c.has(x)
        if isinstance(c, (dict, set, frozenset)) or type(c).__name__ in ('dict_keys', 'mappingproxy', 'odict_keys'):
            if self.is_native(x):
                try:
                    return self.to_native(x) in c
                except TypeError as ex:
                    raise PyExc(ex)
            return self.any_eq(list(c), x)
        if isinstance(c, (list, tuple, range)):
            if isinstance(c, range) and isinstance(x, SInt):
                return sym_and(x >= c.start, x < c.stop) if c.step == 1 else self.any_eq(list(c), x)
            return self.any_eq(list(c), x)
        if isinstance(c, VList):
            if c.is_concrete():
                return self.any_eq(c.values(), x)
            raise Unsupported('membership in a symbolic list')
        if is_plain_object(c):
            f = self.find_method(c, '__contains__')
            if f is not None:
                return self._call(f, [c, x], {})
        if self.is_native(c) and self.is_native(x):
            return self.native(lambda p, q: q in p, [c, x], {})
        raise Unsupported('membership test')

    def any_eq(self, vals, x):
        if isinstance(x, SInt) and all(isinstance(v, int) for v in vals):
            # compact ranges
            vs = sorted(set(int(v) for v in vals))
            conds = []
            i = 0
            while i < len(vs):
                j = i
                while j + 1 < len(vs) and vs[j + 1] == vs[j] + 1:
                    j += 1
                conds.append(z3.And(x.e >= vs[i], x.e <= vs[j]) if j > i else x.e == vs[i])
                i = j + 1
            return mkbool(z3.Or(*conds)) if conds else False
        conds = []
        for v in vals:
            c = True if v is x else self.eq(v, x)
            if c is True:
                return True
            if c is False:
                continue
            conds.append(c if isinstance(c, SBool) else bool(c))
        return sym_or(*conds) if conds else False

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and \
                fr.lookup('super') is builtins.super:
            f = fr
            while f.parent is not None and '__class__' not in f.cells:
                f = f.parent
            c = f.cells.get('__class__')
            if c is None:
                raise Unsupported('super() without __class__')
            first = f.node.args.args[0].arg
            return SuperProxy(c.cell_contents, f.locals[first])
        fn = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                if isinstance(v, VList) and not v.is_concrete():
                    return self.call_symbolic_star(fn, args, v, e, fr)
                args += self.iter_concrete(v)
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                for a, b in (v.items_ if isinstance(v, VDict) else v.items()):
                    kwargs[a] = b
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        fm = getattr(fr, 'interp', self)
        self_frames = getattr(self, 'frames', None)
        if self_frames is None:
            self.frames = []
        self.frames.append(fr)
        try:
            return self.call(fn, args, kwargs)
        finally:
            self.frames.pop()

    def call_symbolic_star(self, fn, args, v, e, fr):
        """f(*symbolic list): only functions with a *varargs parameter; the parameter becomes a list value"""
        f = fn
        pre = []
        if isinstance(f, VBound):
            pre = [f.obj]
            f = f.func
        # collect all arguments into one VList
        parts = [Lit(args)]
        seen = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                w = self.eval(a.value, fr)
                if seen or w is v or (isinstance(w, VList)):
                    parts += self.listy_parts(w)
                    seen = True
            elif seen:
                parts.append(Lit([self.eval(a, fr)]))
        lst = VList(parts)
        if isinstance(f, type) and is_repo_class(f):
            obj = object.__new__(f)
            init = next(c.__dict__['__init__'] for c in f.__mro__ if '__init__' in c.__dict__)
            h = self.stubs.get(init.__code__) if isinstance(init, types.FunctionType) else None
            if h is not None:
                h(self, [obj, StarArgs(lst)], {})
                return obj
            self.run_star(init, [obj], lst)
            return obj
        if isinstance(f, types.FunctionType):
            h = self.stubs.get(f.__code__)
            if h is not None:
                return h(self, pre + [StarArgs(lst)], {})
            return self.run_star(f, pre, lst)
        raise Unsupported('star call with a symbolic list')

    def run_star(self, f, pre, lst):
        node = node_of(f)
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        if a.vararg is None or len(params) != len(pre):
            raise Unsupported('star call with a symbolic list')
        E().functions[f.__module__ + '.' + f.__qualname__] = E().functions.get(f.__module__ + '.' + f.__qualname__, 0) + 1
        cells = dict(zip(f.__code__.co_freevars, f.__closure__)) if f.__closure__ else {}
        fr = Frame(self, node, f.__globals__, None, f, None, cells)
        fr.locals.update(dict(zip(params, pre)))
        fr.locals[a.vararg.arg] = lst.copy()
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            fr.locals[p.arg] = (f.__kwdefaults__ or {}).get(p.arg)
        try:
            self.exec_block(node.body, fr)
        except ReturnX as r:
            return r.v
        return None

    def e_Lambda(self, e, fr):
        return VFunc(e, fr, fr.glob, '<lambda>', [self.eval(d, fr) for d in e.args.defaults], {}, self, fr.cls)

    def e_Starred(self, e, fr): raise Unsupported('starred expression')

    def e_JoinedStr(self, e, fr):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(v.value)
            else:
                ps.append(self.e_FormattedValue(v, fr))
        return cat('', *ps)

    def e_FormattedValue(self, v, fr):
        val = self.eval(v.value, fr)
        spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ''
        if v.conversion == ord('s'):
            val = self.to_str(val)
        elif v.conversion in (ord('r'), ord('a')):
            val = self.to_repr(val)
        return self.format(val, spec, v.format_spec, fr)

    def to_repr(self, v):
        v = norm(v)
        if is_plain_object(v):
            f = self.find_method(v, '__repr__')
            if f is not None:
                return self._call(f, [v], {})
        if self.is_native(v):
            return repr(self.to_native(v))
        return norm(Rope('str', [Tok('repr', (v,))]))

    def to_str(self, v):
        v = norm(v)
        if kind_of(v) == 'str':
            return v
        if isinstance(v, SInt):
            return norm(Rope('str', [int_tok('d', v.e)]))
        if isinstance(v, SBool):
            return 'True' if E().branch(v.e) else 'False'
        if is_plain_object(v):
            f = self.find_method(v, '__str__') or self.find_method(v, '__repr__')
            if f is not None:
                return self._call(f, [v], {})
        if isinstance(v, BaseException):
            if getattr(v, '_kv_text', None) is not None:
                return v._kv_text
            if all(self.is_native(a) for a in v.args):
                return str(v)
            if len(v.args) == 1:
                return self.to_str(v.args[0])
        if self.is_native(v):
            return self.native(str, [v], {})
        if isinstance(v, SReal):
            return norm(Rope('str', [Tok('strf', (v.e,))]))
        if isinstance(v, (VList, Rope, tuple, VDict)):
            return norm(Rope('str', [Tok('str', (v,))]))
        raise Unsupported(f'str() of {type(v).__name__}')

    def format(self, v, spec, node=None, fr=None):
        v, spec = norm(v), norm(spec)
        if isinstance(v, enum.Enum) or (is_plain_object(v)):
            f = self.find_method(v, '__format__') if is_plain_object(v) else None
            if f is not None:
                return self._call(f, [v, spec], {})
            if spec == '':
                return self.to_str(v)
            if isinstance(v, enum.Enum):
                return self.native(format, [v, spec], {})
            raise_py(TypeError(f'unsupported format string passed to {type(v).__name__}.__format__'))
        if spec == '':
            return self.to_str(v)
        if isinstance(spec, str) and self.is_native(v):
            return self.native(format, [v, spec], {})
        # spec as parts: fill/align/zero/width/type, width may be a token
        return format_sym(self, v, spec)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.eval_index(e.slice, fr)
        return self.subscript(o, i)

    def eval_index(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return (_SLICE, self.eval(sl.lower, fr) if sl.lower else None,
                    self.eval(sl.upper, fr) if sl.upper else None, self.eval(sl.step, fr) if sl.step else None)
        return self.eval(sl, fr)

    def subscript(self, o, i):
        o = norm(o)
        if isinstance(o, Poison):
            raise Unsupported('subscript of a value lost in a summary')
        if isinstance(i, tuple) and i and i[0] is _SLICE:
            return self.wrap_native(seq_slice(o, i[1], i[2], i[3]))
        if isinstance(o, VDict):
            n = o.find(i)
            if n is None:
                raise_py(KeyError(i if self.is_native(i) else 'symbolic key'))
            return o.items_[n][1]
        if isinstance(o, dict):
            if self.is_native(i):
                try:
                    return o[self.to_native(i)]
                except (KeyError, TypeError) as ex:
                    raise PyExc(ex)
            return self.dict_lookup(o, i)
        if hasattr(o, '_kv_getitem'):
            return o._kv_getitem(self, i)
        if isinstance(o, type) or hasattr(o, '__origin__'):
            return o[i]
        if is_plain_object(o):
            return self._call(self.getattr(o, '__getitem__'), [i], {})
        if isinstance(o, (Rope, VList, str, bytes, list, tuple)):
            return seq_index(o, i)
        return self.native(lambda a, b: a[b], [o, i], {})

    def dict_lookup(self, d, k, default=_MISSING):
        """d[k] with a symbolic key: fork over groups of keys with equal values"""
        if isinstance(k, SInt) and len(d) > 3 and all(type(kk) is int and type(vv) is str and len(vv) == 1
                                                      for kk, vv in d.items()):
            inside = self.any_eq(list(d), k)        # one character each: a single computed character
            if not E().branch(tob(inside)):
                if default is not _MISSING:
                    return default
                raise_py(KeyError('symbolic key'))
            (k0, v0), *rest = d.items()
            e = z3.IntVal(ord(v0))
            for kk, vv in rest:
                e = z3.If(k.e == kk, z3.IntVal(ord(vv)), e)
            return norm(Rope('str', [Tok('chr', (e,), 1, None)]))
        groups = []
        for kk, vv in d.items():
            c = self.eq(kk, k)
            if c is False:
                continue
            for g in groups:
                if g[0] is vv or (type(g[0]) is type(vv) and self.is_native(vv) and self.safe_eq(g[0], vv)):
                    g[1].append(tob(c))
                    break
            else:
                groups.append((vv, [tob(c)]))
        for vv, cs in groups:
            if E().branch(z3.Or(*cs)):
                return vv
        if default is not _MISSING:
            return default
        raise_py(KeyError('symbolic key'))

    def safe_eq(self, a, b):
        try:
            return bool(a == b)
        except Exception:  # noqa
            return False

    # comprehensions
    def e_ListComp(self, e, fr): return self.comp(e, fr)
    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr)
        return GenList(list(r.parts)) if type(r) is VList else r

    def e_SetComp(self, e, fr):
        return self.mkset(self.comp(e, fr).values())

    def e_DictComp(self, e, fr):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        fake = ast.ListComp(elt=pair, generators=e.generators)
        lst = self.comp(fake, fr).values()
        items = []
        for k, v in lst:
            self._dput(items, k, v)
        return VDict(items)

    def comp(self, e, fr):
        sub = Frame(self, e, fr.glob, fr, fr.fn, fr.cls, fr.cells)
        sub.is_comp = True
        acc = VList()
        sub.locals['?acc'] = acc

        def level(n):
            if n == len(e.generators):
                v = self.eval(e.elt, sub)
                self.touch(acc)
                acc.set_parts(list(acc.parts) + [Lit([v])])
                return
            g = e.generators[n]
            it = self.sym_iter(self.eval(g.iter, sub if n else fr))
            names = assigned_names([g.target])
            for item in it.items:
                def body(value):
                    self.assign(g.target, value, sub)
                    for c in g.ifs:
                        if not self.truth(self.eval(c, sub)):
                            return
                    level(n + 1)
                if item[0] == 'v':
                    body(item[1])
                else:
                    self.summarise(item, body, sub, names)
        level(0)
        return acc

    def e_Yield(self, e, fr):
        f = fr
        v = self.eval(e.value, fr) if e.value is not None else None
        self.touch(f.yields)
        f.yields.set_parts(list(f.yields.parts) + [Lit([v])])
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        self.touch(fr.yields)
        fr.yields.set_parts(list(fr.yields.parts) + self.listy_parts(v))
        return None

    # ------------------------------------------------------------------------------------------ builtin methods
    def builtin_method(self, o, name, args, kwargs):
        o = norm(o)
        if isinstance(o, (str, bytes, Rope)):
            return str_method(self, o, name, args, kwargs)
        if isinstance(o, VList):
            return list_method(self, o, name, args, kwargs)
        if isinstance(o, list):
            return native_list_method(self, o, name, args, kwargs)
        if isinstance(o, (VDict, dict)):
            return dict_method(self, o, name, args, kwargs)
        if isinstance(o, re.Pattern):
            return pattern_method(self, o, name, args, kwargs)
        if isinstance(o, S.SDec) and name == 'adjusted' and not args:
            return mknum(S.exp10(z3.If(o.e >= 0, o.e, -o.e)))
        if isinstance(o, S.SDec) and name == 'scaleb' and len(args) == 1 and isinstance(args[0], (int, SInt)):
            return S.SDec(S.scale10(o.e, toz(args[0])))
        if isinstance(o, SInt) and name == 'bit_length':
            raise Unsupported('bit_length')
        if isinstance(o, tuple):
            if name in ('index', 'count') and self.is_native(o) and self.is_native(args):
                return self.native(getattr(o, name), args, kwargs)
            raise Unsupported(f'tuple.{name}')
        if isinstance(o, VSet):
            if name == 'add':
                raise Unsupported('set.add')
        if isinstance(o, set):
            if self.is_native(args) and name in ('add', 'update', 'discard', 'remove', 'clear'):
                old = set(o)
                def undo():
                    o.clear()
                    o.update(old)
                E().undo_push(undo)
                return self.native(getattr(o, name), args, kwargs)
        if self.is_native(o) and self.is_native(args) and self.all_native(list(kwargs.values())):
            return self.native(getattr(o, name), args, kwargs)
        raise Unsupported(f'method {type(o).__name__}.{name} on symbolic values')


class GenList(VList):
    """a generator expression (evaluated at once)"""


class VSet:
    def __init__(self, vals): self.vals = list(vals)


class StarArgs:
    """marks a symbolic *args list handed to a stub"""
    def __init__(self, lst): self.lst = lst


class RangePart(S.Part):
    def __init__(self, lo, hi): self.lo, self.hi = simp(_zi(lo)), simp(_zi(hi))
    def length(self): return simp(z3.If(self.hi > self.lo, self.hi - self.lo, 0))
    def key(self): return ('range', _ek(self.lo), _ek(self.hi))
    def subst(self, m): return RangePart(_sub(self.lo, m), _sub(self.hi, m))


class DictView:
    def __init__(self, d, what): self.d, self.what = d, what
    def _kv_iter(self, interp):
        its = self.d.items_ if isinstance(self.d, VDict) else list(self.d.items())
        if self.what == 'keys':
            return SymIter([('v', k) for k, _ in its])
        if self.what == 'values':
            return SymIter([('v', v) for _, v in its])
        return SymIter([('v', (k, v)) for k, v in its])


_SLICE = object()
_OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
        ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift',
        ast.Pow: 'pow', ast.MatMult: 'matmul'}
_PYOPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
          ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
          ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
          ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.Pow: lambda a, b: a ** b}


# ------------------------------------------------------------------------------------------------ families
def known_length(ln, limit=64):
    """the length as an int when the path determines it"""
    ln = simp(ln)
    if z3.is_int_value(ln):
        return ln.as_long()
    if E()._check() != z3.sat:
        return None
    n = E().last_model.eval(ln, model_completion=True)
    if z3.is_int_value(n) and 0 <= n.as_long() <= limit and E().entails(ln == n):
        return n.as_long()
    return None


def settle(t, conds):
    """the template t where the conditions determine the length of a repetition or a slice in it"""
    def size(p):
        return simp(p.n if isinstance(p, Rep) else p.hi - p.lo) if isinstance(p, (Rep, Slice)) else z3.IntVal(0)
    if not isinstance(t, Rope) or all(z3.is_int_value(size(p)) for p in t.parts):
        return t
    parts = []
    for p in t.parts:
        ln = size(p)
        if not z3.is_int_value(ln) and E()._check(*conds) == z3.sat:
            n = E().last_model.eval(ln, model_completion=True)
            if z3.is_int_value(n) and 0 <= n.as_long() <= 8 and E()._check(*conds, ln != n) == z3.unsat:
                p = Rep(p.unit, n) if isinstance(p, Rep) else Slice(p.src, p.lo, simp(p.lo + n))
        parts.append(p)
    r = norm(Rope(t.kind, parts))
    return r if isinstance(r, Rope) else Rope(t.kind, parts_of(r))


def mkflat(kind, bv, lo, hi, cases):
    """normalised part list for the concatenation of templates over [lo, hi)"""
    lo, hi = simp(_zi(lo)), simp(_zi(hi))
    if len(cases) > 1:
        cases = [(g, fa, settle(t, [g, *fa, lo <= bv, bv < hi])) for g, fa, t in cases]
    # merge equal templates
    merged = []
    for g, fa, t in cases:
        k = tkey(t) if isinstance(t, Rope) else tuple(_safe_key(x) for x in t)
        for m in merged:
            if m[3] == k:
                m[0] = simp(z3.Or(m[0], g))
                m[1] = [f for f in m[1] if any(f.eq(f2) for f2 in fa)]
                break
        else:
            merged.append([g, list(fa), t, k])
    cs = [(g, fa, t) for g, fa, t, _ in merged]
    if kind != 'list':
        if all(not t.parts for _, _, t in cs):
            return []
        if len(cs) == 1:
            g, fa, t = cs[0]
            if not mentions(t, [bv]) and len(t.parts) == 1 and isinstance(t.parts[0], Lit):
                return [Rep(t.parts[0].v, z3.If(hi > lo, hi - lo, 0) if not E().entails(lo <= hi) else hi - lo)]
            if len(t.parts) == 1:
                p = t.parts[0]
                c = collapse(p, bv, lo, hi)
                if c is not None:
                    return c
    else:
        if all(not t for _, _, t in cs):
            return []
        if len(cs) == 1 and len(cs[0][2]) == 1 and isinstance(cs[0][2][0], Spread):
            c = collapse(cs[0][2][0].part, bv, lo, hi)
            if c is not None:
                return c
        if len(cs) == 1 and len(cs[0][2]) == 1 and isinstance(cs[0][2][0], SInt):
            sl = elem_slice(cs[0][2][0].e)
            if sl is not None and sl[1].eq(bv):
                return [Slice(sl[0], lo, hi)]
    return [Flat(bv, lo, hi, cs)]


def _safe_key(x):
    return x.part.key() if isinstance(x, Spread) else vkey(x)


def collapse(p, bv, lo, hi):
    if isinstance(p, Slice) and not mentions(list(p.src.args), [bv]):
        if simp(z3.substitute(p.lo, (bv, bv + 1)) - p.hi).eq(z3.IntVal(0)):
            a, b = _sub(p.lo, [(bv, lo)]), _sub(p.lo, [(bv, hi)])
            E().fact(z3.Implies(lo <= hi, a <= b))
            return [Slice(p.src, a, b)]
    if isinstance(p, Flat) and not any(mentions(t if isinstance(t, Rope) else list(t), [bv]) or mentions(g, [bv])
                                       for g, _, t in p.cases):
        if simp(z3.substitute(p.lo, (bv, bv + 1)) - p.hi).eq(z3.IntVal(0)):
            a, b = _sub(p.lo, [(bv, lo)]), _sub(p.lo, [(bv, hi)])
            E().fact(z3.Implies(lo <= hi, a <= b))
            return [Flat(p.bv, a, b, p.cases, p.lenpot)]
    if isinstance(p, Rep):
        pot = telescope(p.n, bv)
        if pot is not None:
            a, b = simp(pot(lo)), simp(pot(hi))
            E().fact(z3.Implies(lo <= hi, b >= a))
            return [Rep(p.unit, b - a)]
    return None


SRC_BY_DECL: dict = {}


def elem_slice(e):
    """(source, index) when e is exactly an element of a registered source"""
    if z3.is_app(e) and e.decl().name().startswith('el_') and e.num_args() >= 1:
        nm = e.decl().name()[3:]
        proto = SRC_BY_DECL.get(e.decl().name()) or SRC_BY_DECL.get(nm)
        if proto is not None:
            args = e.children()
            return Source(proto.name, proto.kind, proto.lo, proto.hi, args[:-1], proto.tags, proto.only), args[-1]
    return None


# ------------------------------------------------------------------------------------------------ text models
DIGITS = set('0123456789')
HEX = set('0123456789abcdef')


def int_tok(desc, e):
    """textual form of an integer term"""
    e = simp(e)
    chars = {'d': DIGITS | {'-'}, 'x': HEX | {'-'}, 'X': set('0123456789ABCDEF-'), '02x': HEX, '02X': set('0123456789ABCDEF'),
             'b': set('01-'), 'o': set('01234567-')}.get(desc)
    t = Tok(desc, (e,), 2 if desc in ('02x', '02X') else None, chars)
    return t


def format_sym(interp, v, spec):
    """format(v, spec) for symbolic v and/or symbolic width"""
    parts = parts_of(spec)
    fill, align, zero, width, typ, prec = ' ', None, False, None, '', None
    # textual view: literal characters, tokens for numbers
    seq = []
    for p in parts:
        if isinstance(p, Lit):
            seq += list(p.v)
        else:
            seq.append(p)
    i = 0
    if len(seq) >= 2 and isinstance(seq[1], str) and seq[1] in '<>^=' and isinstance(seq[0], str):
        fill, align, i = seq[0], seq[1], 2
    elif seq and isinstance(seq[0], str) and seq[0] in '<>^=':
        align, i = seq[0], 1
    if i < len(seq) and seq[i] == '0':
        zero, i = True, i + 1
    wtxt = ''
    while i < len(seq):
        if isinstance(seq[i], str) and seq[i].isdigit():
            wtxt += seq[i]
            i += 1
        elif not isinstance(seq[i], str) and isinstance(seq[i], Tok) and seq[i].desc == 'd' and not wtxt:
            width = seq[i].args[0]
            i += 1
        else:
            break
    if wtxt:
        if width is not None:
            raise Unsupported('format width')
        width = z3.IntVal(int(wtxt))
    if i < len(seq):
        if seq[i] == '.':
            i += 1
            ptxt = ''
            while i < len(seq) and isinstance(seq[i], str) and seq[i].isdigit():
                ptxt += seq[i]
                i += 1
            if ptxt:
                prec = z3.IntVal(int(ptxt))
            elif i < len(seq) and not isinstance(seq[i], str) and isinstance(seq[i], Tok) and seq[i].desc == 'd':
                prec = seq[i].args[0]
                i += 1
                if E().branch(prec < 0):
                    raise_py(ValueError('Format specifier missing precision'))
            else:
                raise_py(ValueError('Format specifier missing precision'))
        if i == len(seq):
            pass
        elif isinstance(seq[i], str) and seq[i] in 'sdxXbf' and i == len(seq) - 1:
            typ = seq[i]
        else:
            raise Unsupported(f'format specification {spec!r}')
    if kind_of(v) == 'str':
        if typ not in ('', 's'):
            raise_py(ValueError(f"Unknown format code '{typ}' for object of type 'str'"))
        if zero:
            fill, align = '0', align or '<'
        if prec is not None:
            if E().branch(rlen(v) > prec):
                v = seq_slice(v, None, mknum(prec))
        return pad_text(v, width, fill, align or '<')
    if isinstance(v, bool):
        v = int(v)
    if typ == 'f' and isinstance(v, (int, float, SInt, SReal)):
        d = prec if prec is not None else z3.IntVal(6)
        if width is not None and E().branch(width < 0):
            raise Unsupported('negative width')
        x = S.toreal(v)
        if zero:
            raise Unsupported('zero padding of a float')
        neg = E().branch(x < 0)
        base = S.norm(Rope('str', [S.fixed_text(-x if neg else x, d)]))
        return pad_text(cat('-', base) if neg else base, width, fill, align or '>')
    if prec is not None and isinstance(v, (int, SInt)):
        raise_py(ValueError('Precision not allowed in integer format specifier'))
    if isinstance(v, (int, SInt)):
        if typ == 's':
            raise_py(ValueError("Unknown format code 's' for object of type 'int'"))
        t = typ or 'd'
        if isinstance(v, int):
            base = format(v, t)
        else:
            if zero and t in 'xX' and width is not None and z3.is_int_value(width) and width.as_long() == 2 and \
                    E().entails(z3.And(v.e >= 0, v.e < 256)):
                return norm(Rope('str', [int_tok('02' + t, v.e)]))
            base = norm(Rope('str', [int_tok(t, v.e)]))
        if width is None:
            return base
        if zero and align is None:
            if not E().entails(toz(v) >= 0):
                if E().branch(toz(v) < 0):
                    raise Unsupported('zero padding of a negative number')
            return pad_text(base, width, '0', '>')
        return pad_text(base, width, fill, align or '>')
    if isinstance(v, SReal):
        if typ in ('d', 'x', 'X', 'b', 's'):
            raise_py(ValueError(f"Unknown format code '{typ}' for object of type 'float'"))
        return norm(Rope('str', [Tok('fmt_' + repr(spec), (v.e,))]))
    raise Unsupported(f'format of {type(v).__name__}')


def pad_text(v, width, fill, align):
    if width is None:
        return v
    ln = rlen(v)
    n = simp(z3.If(_zi(width) > ln, _zi(width) - ln, 0))
    pad = norm(Rope('str', [Rep(fill, n)]))
    if align == '<':
        return cat(v, pad)
    if align == '>':
        return cat(pad, v)
    if align == '^':
        l = simp(n / 2)
        return cat(norm(Rope('str', [Rep(fill, l)])), v, norm(Rope('str', [Rep(fill, n - l)])))
    raise Unsupported('alignment')


def part_may_contain(p, ch):
    if isinstance(p, Lit):
        return ch in p.v
    if isinstance(p, Rep):
        return ch in p.unit
    if isinstance(p, Slice):
        o = ord(ch) if isinstance(ch, str) else ch[0] if isinstance(ch, bytes) else ch
        if isinstance(p.src.lo, int) and not (p.src.lo <= o <= p.src.hi):
            return False
        if ('not', o) in p.src.tags:
            return False
        return True
    if isinstance(p, Tok):
        if p.chars is not None:
            return ch in p.chars
        if p.desc == 'chr':
            o = ord(ch) if isinstance(ch, str) else ch
            return E().feasible(p.args[0] == o)
        return True
    if isinstance(p, Sgr):
        return ch in '\x1b[0123456789;m'
    if isinstance(p, Flat):
        return any(part_may_contain(q, ch) for _, _, t in p.cases for q in (t.parts if isinstance(t, Rope) else []))
    return True


def text_contains(c, x):
    """x in c for texts"""
    x = norm(x)
    if isinstance(x, (str, bytes)) and len(x) == 1:
        may = False
        for p in parts_of(c):
            if isinstance(p, Lit):
                if x in p.v:
                    return True
            elif isinstance(p, Rep):
                if x in p.unit and E().branch(p.n > 0):
                    return True
            elif part_may_contain(p, x if isinstance(x, str) else x[0]):
                may = True
        if not may:
            return False
        ps = [p for p in parts_of(c)]
        if len(ps) == 1 and z3.is_int_value(simp(ps[0].length())) and simp(ps[0].length()).as_long() == 1:
            cond = first_elem_cond(ps[0], x)
            if cond is not None:
                return mkbool(cond)
        return opaque_bool('contains', c, x)
    if isinstance(x, (str, bytes)) and len(x) == 0:
        return True
    if isinstance(x, (str, bytes)):
        for p in parts_of(c):
            if isinstance(p, Lit) and x in p.v:
                return True
        if all(any(not part_may_contain(p, ch) for ch in x) for p in parts_of(c) if not isinstance(p, Lit)) and \
                all(not any(part_may_contain(p, ch) for p in parts_of(c) if not isinstance(p, Lit)) for ch in x[:1]):
            # first character only in literals; a match spanning parts would need the rest outside
            first = x[0]
            rest_may = any(part_may_contain(p, ch) for p in parts_of(c) if not isinstance(p, Lit) for ch in x[1:])
            if not rest_may:
                return False
    raise Unsupported('substring test')


def text_ends(v, suffix, end=True):
    suffix = norm(suffix)
    if isinstance(suffix, tuple):
        r = [text_ends(v, s, end) for s in suffix]
        return sym_or(*r)
    if isinstance(v, (str, bytes)) and isinstance(suffix, (str, bytes)):
        return v.endswith(suffix) if end else v.startswith(suffix)
    if not isinstance(suffix, (str, bytes)):
        ln, sl = rlen(v), rlen(suffix)
        if E().entails(sl <= ln):
            part = S.seq_slice(v, mknum(simp(ln - sl)), None) if end else S.seq_slice(v, 0, mknum(sl))
            if decide_syntactic(part, suffix):
                return True
        raise Unsupported('endswith of a symbolic suffix')
    if len(suffix) == 0:
        return True
    ps = list(parts_of(v))
    if not end:
        if len(suffix) == 1 or (ps and isinstance(ps[0], Lit)):
            while ps:
                p = ps[0]
                if isinstance(p, Lit):
                    if len(p.v) >= len(suffix):
                        return p.v.startswith(suffix)
                    raise Unsupported('startswith across parts')
                if not E().branch(p.length() > 0):
                    ps.pop(0)
                    continue
                if isinstance(p, Sgr):
                    return suffix == '\x1b'
                c = first_elem_cond(p, suffix if isinstance(suffix, str) else suffix[0])
                if c is not None:
                    return mkbool(c)
                if not part_may_contain(p, suffix if isinstance(suffix, str) else suffix[0]):
                    return False
                return opaque_bool('starts', v, suffix)
            return False
        raise Unsupported('startswith')
    if len(suffix) != 1:
        if ps and isinstance(ps[-1], Lit) and len(ps[-1].v) >= len(suffix):
            return ps[-1].v.endswith(suffix)
        raise Unsupported('endswith across parts')
    ch = suffix if isinstance(suffix, str) else suffix[0]
    while ps:
        p = ps[-1]
        if isinstance(p, Lit):
            return p.v.endswith(suffix)
        ln = simp(p.length())
        if not E().branch(ln > 0):
            ps.pop()
            continue
        if isinstance(p, Sgr):
            return suffix == 'm'
        if isinstance(p, Rep):
            return p.unit.endswith(suffix)
        if isinstance(p, Slice):
            o = ord(ch) if isinstance(ch, str) else ch
            if not part_may_contain(p, ch):
                return False
            return mkbool(p.src.elem(simp(p.hi - 1)) == o)
        if isinstance(p, Flat):
            if not any(part_may_contain(q, ch) for _, _, t in p.cases for q in (t.parts if isinstance(t, Rope) else [])):
                return False
            if not E().branch(p.lo < p.hi):
                ps.pop()
                continue
            t = p.at(simp(p.hi - 1))
            ps[-1:] = [p.with_bounds(p.lo, p.hi - 1)] + list(t.parts)
            continue
        if not part_may_contain(p, ch):
            return False
        return opaque_bool('ends', v, suffix)
    return False


def str_method(interp, o, name, args, kwargs):
    args = [norm(a) for a in args]
    native = not isinstance(o, Rope) and interp.all_native(args) and interp.all_native(list(kwargs.values()))
    if name == 'join':
        if o == '' and isinstance(args[0], Rope) and args[0].kind == 'str':
            return args[0]
        return text_join(interp, o, args[0])
    if name == 'format' and isinstance(o, str) and not native:
        return str_format(interp, o, args, kwargs)
    if native:
        return interp.native(getattr(o, name), args, kwargs)
    kind = kind_of(o)
    if name in ('ljust', 'rjust', 'center', 'zfill'):
        fill = args[1] if len(args) > 1 else (' ' if kind == 'str' else b' ')
        if name == 'zfill':
            fill = '0'
        if not (isinstance(fill, (str, bytes)) and len(fill) == 1):
            raise Unsupported('fill character')
        w = toz(args[0])
        ln = rlen(o)
        n = simp(z3.If(w > ln, w - ln, 0))
        if name == 'ljust':
            return cat(o, norm(Rope(kind, [Rep(fill, n)])))
        if name in ('rjust', 'zfill'):
            return cat(norm(Rope(kind, [Rep(fill, n)])), o)
        # CPython: left = pad/2 + (pad & width & 1)
        left = simp(n / 2 + z3.If(z3.And(n % 2 == 1, w % 2 == 1), 1, 0))
        return cat(norm(Rope(kind, [Rep(fill, left)])), o, norm(Rope(kind, [Rep(fill, n - left)])))
    if name == 'endswith':
        return text_ends(o, args[0])
    if name == 'startswith':
        return text_ends(o, args[0], False)
    if name == 'decode':
        enc = args[0] if args else kwargs.get('encoding', 'utf-8')
        return bytes_decode(interp, o, enc, kwargs.get('errors', args[1] if len(args) > 1 else 'strict'))
    if name == 'encode':
        enc = args[0] if args else kwargs.get('encoding', 'utf-8')
        return Rope('bytes', [Tok('encode_' + str(enc), (o,), None)])
    if name == 'rfind' and len(args) == 1:
        # the last occurrence of a text in a text that ends with it is that suffix
        ln, sl = rlen(o), rlen(args[0])
        if E().entails(sl <= ln) and decide_syntactic(S.seq_slice(o, mknum(simp(ln - sl)), None), args[0]):
            return mknum(simp(ln - sl))
        raise Unsupported('rfind on a symbolic string')
    if name == 'rfind' or name == 'find':
        raise Unsupported(f'{name} on a symbolic string')
    if name == 'splitlines':
        keep = bool(args[0] if args else kwargs.get('keepends', False))
        if kind != 'str' or len(o.parts) != 1 or not isinstance(o.parts[0], Slice) or o.parts[0].src.args:
            raise Unsupported('splitlines of a symbolic string')
        return split_lines(o.parts[0], keep)
    if name in ('upper', 'lower'):
        raise Unsupported(name)
    if name == '__len__':
        return seq_len(o)
    if name == '__format__':
        return interp.format(o, args[0])
    if name in ('strip', 'lstrip', 'rstrip') and len(args) <= 1 and not kwargs:
        chars = args[0] if args else None
        if chars is None or isinstance(chars, (str, bytes)):
            return strip_text(o, kind, chars, name)
    if name == 'replace' and len(args) == 2 and not kwargs and all(isinstance(a, (str, bytes)) for a in args) and args[0]:
        return replace_text(interp, o, kind, *args)
    raise Unsupported(f'{kind}.{name} on symbolic values')


def replace_text(interp, o, kind, old, new):
    if kind == 'str':
        try:
            return re_sub_rope(interp, re.compile(re.escape(old)), lambda m: new, o)
        except Unsupported:
            if len(o.parts) != 1:
                raise
    p = o.parts[0]

    def unit(i):
        """code of element i"""
        if isinstance(p, Slice):
            return p.src.elem(simp(p.lo + i))
        t = p.at(simp(p.lo + i))
        if isinstance(t, Rope) and len(t.parts) == 1 and isinstance(t.parts[0], Tok) and t.parts[0].desc == 'chr':
            return t.parts[0].args[0]
        raise Unsupported('replacement in a symbolic text')
    if len(o.parts) != 1 or not (isinstance(p, Slice) or isinstance(p, Flat) and len(p.cases) == 1):
        raise Unsupported('replacement in a symbolic text')
    # no occurrence (nothing else is assumed), exactly one occurrence, more
    k = E().choose(3)
    if k == 0:
        return o
    if k == 2:
        raise Unsupported('several replacements in a symbolic text')
    i = E().fresh('occurrence')
    E().add(z3.And(i >= 0, i + len(old) <= simp(p.hi - p.lo)))
    for j, c in enumerate(old):
        E().add(unit(i + j) == (ord(c) if isinstance(c, str) else c))
    if not E().feasible():
        raise Infeasible
    return S.cat(S.seq_slice(o, 0, mknum(i)), new, S.seq_slice(o, mknum(simp(i + len(old))), None))


WS = ''.join(chr(i) for i in range(0x3001) if chr(i).isspace())


def strip_text(o, kind, chars, name):
    ps = list(o.parts)
    text = chars if chars is not None else WS if kind == 'str' else b' \t\n\r\v\f'
    for end, on in ((0, name != 'rstrip'), (-1, name != 'lstrip')):
        while on and ps:
            p = ps[end]
            if isinstance(p, Lit):
                v = p.v.lstrip(chars) if end == 0 else p.v.rstrip(chars)
                if v:
                    ps[end] = Lit(v)
                    break
            elif isinstance(p, Rep) and not p.unit.strip(chars):
                pass
            elif S.excludes(p, text):
                n = p.length()
                if not E().branch(n == 0):
                    break
            else:
                raise Unsupported(f'{kind}.{name} of unknown text')
            ps.pop(end)
    return norm(Rope(kind, ps))


def solutions(c, bv):
    """values of bv at which one of the equations in c (linear in bv) holds: where a loop that tests it may be left"""
    out, todo, seen = [], [c], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_eq(e) and z3.is_int(e.arg(0)):
            d = [simp(_sub(e.arg(0), [(bv, z3.IntVal(k))]) - _sub(e.arg(1), [(bv, z3.IntVal(k))])) for k in (0, 1, 2)]
            a, b = simp(d[1] - d[0]), simp(d[2] - d[1])
            if z3.is_int_value(a) and a.eq(b) and a.as_long() in (1, -1):
                out.append(simp(-d[0] * a))
        else:
            todo += e.children()
    return out


def decide_syntactic(a, b):
    """the same text, as far as the shape of the two tells (empty pieces and bounds decided by the solver)"""
    if S.vkey(norm(a)) == S.vkey(norm(b)):
        return True
    eng = E()
    xs, ys = ([p for p in parts_of(norm(v)) if not eng.entails(rlen(Rope('str', [p])) == 0)] for v in (a, b))
    return len(xs) == len(ys) and all(
        S.vkey(Rope('str', [p])) == S.vkey(Rope('str', [q])) or
        isinstance(p, Slice) and isinstance(q, Slice) and p.src.key() == q.src.key()
        and eng.entails(z3.And(p.lo == q.lo, p.hi == q.hi)) for p, q in zip(xs, ys))


def split_lines(p, keep):
    """str.splitlines: consecutive non-empty pieces covering the text; without keepends each loses its line break"""
    eng = E()
    eng.used_assumptions.add('str.splitlines (consecutive non-empty lines that cover the text)')
    nm = f'{p.src.name}_{abs(hash((S._ek(p.lo), S._ek(p.hi)))) % 10 ** 8}'
    cut, brk = z3.Function('cut_' + nm, INT, INT), z3.Function('brk_' + nm, INT, INT)
    n = z3.Int('lines_' + nm)
    eng.fact(z3.And(n >= 0, cut(0) == p.lo, cut(n) == p.hi, (n == 0) == (p.lo == p.hi)))
    bv = z3.Int(eng.fresh_name('?ln'))
    fs = [cut(bv) < cut(bv + 1), p.lo <= cut(bv), cut(bv + 1) <= p.hi]
    if not keep:
        fs += [brk(bv) >= 0, brk(bv) <= 2, cut(bv) <= cut(bv + 1) - brk(bv), z3.Implies(bv < n - 1, brk(bv) >= 1)]
        t = Rope('str', [Slice(p.src, cut(bv), cut(bv + 1) - brk(bv))])
    else:
        t = Rope('str', [Slice(p.src, cut(bv), cut(bv + 1))])
    return VList([Flat(bv, 0, n, [(z3.BoolVal(True), fs, [t])])])


def bytes_decode(interp, o, enc, errors):
    enc = str(enc).lower().replace('-', '').replace('_', '')
    out = []
    for p in parts_of(o):
        if isinstance(p, Lit):
            out.append(p)
            continue
        if isinstance(p, Slice) and isinstance(p.src.hi, int) and p.src.hi < 128:
            # every byte is ASCII: one character per byte, same code
            bv = z3.Int(E().fresh_name('?d'))
            out.append(('chr', p))
            continue
        if isinstance(p, Slice) and 'utf8seq' in p.src.tags and enc in ('utf8',):
            out.append(Tok('utf8', (p.lo, p.hi, Rope('bytes', [p])), 1, None))
            continue
        if isinstance(p, Slice) and enc in ('ascii', 'usascii') and errors == 'replace':
            out.append(('chr', p))      # every other byte is U+FFFD
            continue
        raise Unsupported(f'decoding of {p!r} as {enc}')
    if all(isinstance(x, Lit) for x in out):
        try:
            return b''.join(x.v for x in out).decode(enc, errors)
        except Exception as ex:
            raise PyExc(ex)
    ps = []
    for x in out:
        if isinstance(x, Lit):
            try:
                ps.append(Lit(x.v.decode(enc, errors)))
            except Exception as ex:
                raise PyExc(ex)
        elif isinstance(x, tuple):
            ps += chr_map(x[1])
        else:
            ps.append(x)
    return norm(Rope('str', ps))


def chr_map(sl):
    """the text whose characters have the codes of the bytes of a slice"""
    bv = z3.Int('?chr')

    def code(e):
        return e if isinstance(sl.src.hi, int) and sl.src.hi < 128 else z3.If(e < 128, e, z3.IntVal(0xfffd))
    if simp(sl.hi - sl.lo).eq(z3.IntVal(1)):
        return [chr_tok(code(sl.src.elem(sl.lo)))]
    r = code(sl.src.elem(bv))
    return [Flat(bv, sl.lo, sl.hi, [(z3.BoolVal(True), [], Rope('str', [chr_tok(r)]))])]


def chr_tok(e):
    e = simp(e)
    if z3.is_int_value(e):
        return Lit(chr(e.as_long()))
    return Tok('chr', (e,), 1, None)


def str_format(interp, o, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            raise Unsupported(f'format field {field!r}')
        if conv == 's':
            v = interp.to_str(v)
        elif conv == 'r':
            v = interp.to_repr(v)
        if '{' in (spec or ''):
            spec = str_format(interp, spec, args[auto:], kwargs)
        out.append(interp.format(v, spec or ''))
    return cat('', *out)


def text_join(interp, sep, it):
    kind = kind_of(sep)
    sep = norm(sep)
    sy = interp.sym_iter(it)
    out = []       # parts
    first = True
    empty_sep = isinstance(sep, (str, bytes)) and len(sep) == 0
    def add_sep():
        if not empty_sep:
            out.extend(parts_of(sep))
    pending_sym_empty = False
    for item in sy.items:
        if item[0] == 'v':
            v = norm(item[1])
            if kind_of(v) != kind:
                raise_py(TypeError(f'sequence item: expected {kind} instance, {type(v).__name__} found'))
            if not first:
                add_sep()
            out.extend(parts_of(v))
            first = False
            continue
        _, part, pk, wrap = item
        if pk == 'list' and isinstance(part, Flat):
            cases = []
            one_each = all(len(t) == 1 for _, _, t in part.cases)
            for g, fa, t in part.cases:
                for x in t:
                    if kind_of(norm(x)) != kind:
                        raise Unsupported('join of non-text elements')
            if empty_sep:
                for g, fa, t in part.cases:
                    cases.append((g, fa, Rope(kind, [q for x in t for q in parts_of(x)])))
                out += mkflat(kind, part.bv, part.lo, part.hi, cases)
                continue
            if not one_each:
                raise Unsupported('join of a family with several elements')
            if not E().branch(part.lo < part.hi):
                continue
            if not first:
                add_sep()
            for g, fa, t in part.cases:
                cases.append((g, fa, Rope(kind, list(parts_of(t[0])) + list(parts_of(sep)))))
            out += mkflat(kind, part.bv, part.lo, simp(part.hi - 1), cases)
            out += parts_of(part.at(simp(part.hi - 1))[0])
            first = False
            continue
        if pk == kind == 'str' and empty_sep:
            out.append(part)
            continue
        raise Unsupported('join of a symbolic sequence')
    return norm(Rope(kind, out))


def list_method(interp, o: VList, name, args, kwargs):
    if name == 'append':
        interp.touch(o)
        o.set_parts(list(o.parts) + [Lit([args[0]])])
        return None
    if name == 'appendleft':
        interp.touch(o)
        o.set_parts([Lit([args[0]])] + list(o.parts))
        return None
    if name == 'extend':
        interp.touch(o)
        o.set_parts(list(o.parts) + interp.listy_parts(args[0]))
        return None
    if name == 'extendleft':
        vals = interp.iter_concrete(args[0])
        interp.touch(o)
        o.set_parts([Lit(vals[::-1])] + list(o.parts))
        return None
    if name == 'clear':
        interp.touch(o)
        o.set_parts([])
        return None
    if name == 'copy':
        return o.copy()
    if name == 'insert':
        i = args[0]
        if isinstance(i, int) and i == 0:
            interp.touch(o)
            o.set_parts([Lit([args[1]])] + list(o.parts))
            return None
        if o.is_concrete() and isinstance(i, int):
            vals = o.values()
            vals.insert(i, args[1])
            interp.touch(o)
            o.set_parts([Lit(vals)])
            return None
        raise Unsupported('insert')
    if name in ('pop', 'popleft'):
        i = args[0] if args else (0 if name == 'popleft' else -1)
        if not isinstance(i, int):
            raise Unsupported('pop at a symbolic index')
        if not interp.truth(mkbool(rlen(o) > 0)):
            raise_py(IndexError('pop from empty list'))
        v = seq_index(o, i)
        if i == 0:
            _, r = split_at(o.parts, z3.IntVal(1))
            interp.touch(o)
            o.set_parts(r)
        elif o.is_concrete():
            vals = o.values()
            vals.pop(i)
            interp.touch(o)
            o.set_parts([Lit(vals)])
        elif i == -1 and isinstance(o.parts[-1], Lit):
            interp.touch(o)
            o.set_parts(list(o.parts[:-1]) + [Lit(o.parts[-1].v[:-1])])
        else:
            raise Unsupported('pop inside a symbolic list')
        return v
    if name == 'remove':
        if not o.is_concrete():
            raise Unsupported('remove from a symbolic list')
        vals = o.values()
        for n, x in enumerate(vals):
            c = True if x is args[0] else interp.eq(x, args[0])
            if c is True or (c is not False and interp.truth(c)):
                vals.pop(n)
                interp.touch(o)
                o.set_parts([Lit(vals)])
                return None
        raise_py(ValueError('list.remove(x): x not in list'))
    if name in ('index', 'count') and o.is_concrete():
        vals = o.values()
        if name == 'index':
            for n, x in enumerate(vals):
                c = True if x is args[0] else interp.eq(x, args[0])
                if c is True or (c is not False and interp.truth(c)):
                    return n
            raise_py(ValueError('not in list'))
        return sum(1 for x in vals if interp.truth(interp.eq(x, args[0])))
    if name == 'sort':
        r = _BUILTINS[sorted](interp, o, **kwargs)
        interp.touch(o)
        o.set_parts(r.parts)
        return None
    if name == 'reverse' and o.is_concrete():
        interp.touch(o)
        o.set_parts([Lit(o.values()[::-1])])
        return None
    raise Unsupported(f'list.{name}')


def native_list_method(interp, o, name, args, kwargs):
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
        old = list(o)
        def undo():
            o[:] = old
        E().undo_push(undo)
        if interp.touched is not None:
            interp.touched.append(('nlist', o, None))
        if name == 'append':
            o.append(args[0])
            return None
        if name == 'extend':
            o.extend(interp.iter_concrete(args[0]))
            return None
        if name == 'insert':
            o.insert(args[0], args[1])
            return None
        return interp.native(getattr(o, name), args, kwargs)
    if interp.is_native(args):
        return interp.native(getattr(o, name), args, kwargs)
    if name == 'index':
        for n, x in enumerate(o):
            c = interp.eq(x, args[0])
            if c is True or (c is not False and interp.truth(c)):
                return n
        raise_py(ValueError('not in list'))
    if name == 'copy':
        return VList.of(o)
    raise Unsupported(f'list.{name} with symbolic arguments')


def dict_method(interp, o, name, args, kwargs):
    if name in ('keys', 'values', 'items'):
        return DictView(o, name)
    if isinstance(o, VDict):
        if name == 'get':
            return o.get(args[0], args[1] if len(args) > 1 else None)
        if name == 'setdefault':
            if not o.has(args[0]):
                o.put(args[0], args[1] if len(args) > 1 else None)
            return o.get(args[0])
        if name == 'pop':
            if len(args) > 1 and not o.has(args[0]):
                return args[1]
            return o.remove(args[0])
        if name == 'copy':
            return VDict(o.items_)
        if name == 'clear':
            o._set([])
            return None
        if name == 'update':
            src = args[0]
            for k, v in (src.items_ if isinstance(src, VDict) else list(src.items())):
                o.put(k, v)
            return None
        raise Unsupported(f'dict.{name}')
    if name == 'get' and not interp.is_native(args[0]):
        return interp.dict_lookup(o, args[0], args[1] if len(args) > 1 else None)
    if name == 'copy':
        return VDict(list(o.items()))
    if name in ('clear', 'update', 'pop', 'setdefault'):
        old = dict(o)
        def undo():
            o.clear()
            o.update(old)
        E().undo_push(undo)
        if interp.touched is not None:
            interp.touched.append(('dict', o, None))
    if interp.is_native(args) or name in ('setdefault', 'pop', 'get') and interp.is_native(args[:1]):
        return interp.native(lambda *a: getattr(o, name)(*a), args, kwargs) if interp.is_native(args) else getattr(o, name)(*args)
    raise Unsupported(f'dict.{name}')


def pattern_method(interp, o, name, args, kwargs):
    args = [norm(a) for a in args]
    if name == 'sub':
        repl, s = args[0], args[1]
        return re_sub(interp, o, repl, s)
    if interp.is_native(args) and not any(isinstance(a, (VFunc, VBound)) for a in args):
        return interp.native(getattr(o, name), args, kwargs)
    h = interp.stubs.get(('pattern', name))
    if h is not None:
        return h(interp, o, args, kwargs)
    raise Unsupported(f'pattern.{name} on symbolic text')


_SGR_TAIL = re.compile('\x1b(\\[[0-9;]*)?\\Z')


def re_sub(interp, pat, repl, s):
    h = interp.stubs.get(('pattern', 'sub'))
    if h is not None:
        r = h(interp, pat, repl, s)
        if r is not NotImplemented:
            return r
    s = norm(s)
    if isinstance(s, (str, bytes)):
        if isinstance(repl, (VFunc, VBound)) or (callable(repl) and not isinstance(repl, (str, bytes))):
            def cb(m):
                r = norm(interp.call(repl, [m]))
                if not isinstance(r, (str, bytes)):
                    raise Unsupported('symbolic replacement')
                return r
            try:
                return pat.sub(cb, s)
            except (Unsupported, PyExc, Infeasible):
                raise
            except Exception as ex:
                raise PyExc(ex)
        return interp.native(pat.sub, [repl, s], {})
    return re_sub_rope(interp, pat, repl, s)


def re_sub_rope(interp, pat, repl, s):
    """substitution in a text with symbolic parts: only patterns whose matches provably stay inside literal parts
    (or are whole opaque SGR sequences)"""
    if isinstance(pat.pattern, bytes):
        raise Unsupported('bytes substitution in a symbolic text')
    first = pattern_first_chars(pat)
    allc = pattern_all_chars(pat)
    if first is None or allc is None:
        raise Unsupported(f'substitution of pattern {pat.pattern!r} in a symbolic text')
    out = []
    parts = list(s.parts)
    w = pattern_literal(pat)
    if w:
        literal_cross(w, parts)
    for n, p in enumerate(parts):
        if isinstance(p, Lit):
            # a match that begins in this literal must not be able to run into the next part
            nxts = []
            for q in parts[n + 1:]:
                nxts.append(q)
                if isinstance(q, (Lit, Sgr)):
                    break
            txt = p.v
            if nxts and not w:
                last = 0
                for m in pat.finditer(txt):
                    last = m.end()
                tail = txt[last:]
                for k in range(len(tail)):
                    if tail[k] in first and all(c in allc for c in tail[k:]) and \
                            any(part_may_contain(q, c) for q in nxts for c in allc):
                        raise Unsupported('a match could span literal and symbolic text')
            if callable(repl) and not isinstance(repl, str):
                segs = []
                last = 0
                for m in pat.finditer(txt):
                    segs.append(txt[last:m.start()])
                    segs.append(interp.call(repl, [m]))
                    last = m.end()
                segs.append(txt[last:])
                out.extend(parts_of(cat('', *segs)))
            else:
                out.append(Lit(pat.sub(repl, txt)))
        elif isinstance(p, Sgr):
            if pat.fullmatch('\x1b[1;31m') and pat.fullmatch('\x1b[m'):
                if isinstance(repl, str) and repl == '':
                    continue
                out.append(Tok('sgrsub_' + repr(repl), (p,), None, None))
            elif '\x1b' not in first:
                raise Unsupported('pattern over opaque SGR')
            else:
                raise Unsupported('pattern over opaque SGR')
        elif isinstance(p, Flat):
            cases = []
            for g, fa, t in p.cases:
                r = re_sub_rope(interp, pat, repl, t) if t.parts else t
                cases.append((g, fa, r if isinstance(r, Rope) else Rope(s.kind, parts_of(r))))
            out += mkflat(s.kind, p.bv, p.lo, p.hi, cases)
        else:
            if w or not any(part_may_contain(p, c) for c in first):
                out.append(p)
            else:
                raise Unsupported(f'pattern may match inside {p!r}')
    return norm(Rope(s.kind, out))


def pattern_literal(pat):
    """the text of a pattern that is nothing but literal characters"""
    try:
        from re import _parser as sp
        t = sp.parse(pat.pattern, pat.flags)
    except Exception:  # noqa
        return None
    if pat.flags & re.IGNORECASE or any(str(op) != 'LITERAL' for op, _ in t):
        return None
    return ''.join(chr(a) for _, a in t)


def literal_cross(w, parts):
    """Unsupported when an occurrence of w may overlap a part that is not literal, or several parts (over-approximation:
    every symbolic part may be empty and hold its characters in any order)"""
    live = set()            # lengths of prefixes of w matched so far by text that began in an earlier part
    for p in parts:
        if isinstance(p, Lit):
            new = set()
            for j in live:
                t = p.v[:len(w) - j]
                if t == w[j:]:
                    raise Unsupported(f'{w!r} may span literal and symbolic text')
                if len(t) < len(w) - j and w[j:].startswith(t):
                    new.add(j + len(t))
            for k in range(1, len(w)):
                if p.v.endswith(w[:k]):
                    new.add(k)
            live = new
            continue
        for j in sorted(live | {0}):
            k = j
            while k < len(w) and part_may_contain(p, w[k]):
                k += 1
                live.add(k)
            if k == len(w):
                raise Unsupported(f'{w!r} may occur inside {p!r}')


def pattern_first_chars(pat):
    try:
        try:
            from re import _parser as sp
        except ImportError:
            import sre_parse as sp
        t = sp.parse(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, bytes) else pat.flags)
    except Exception:  # noqa
        return None
    return _first(list(t))


def _first(seq):
    for op, av in seq:
        nm = str(op)
        if nm == 'LITERAL':
            return {chr(av)}
        if nm == 'SUBPATTERN':
            r = _first(list(av[3]))
            if r is None:
                return None
            return r
        if nm == 'BRANCH':
            out = set()
            for b in av[1]:
                r = _first(list(b))
                if r is None:
                    return None
                out |= r
            return out
        if nm == 'IN':
            out = set()
            for o2, a2 in av:
                if str(o2) == 'LITERAL':
                    out.add(chr(a2))
                elif str(o2) == 'RANGE' and a2[1] - a2[0] < 512:
                    out |= {chr(c) for c in range(a2[0], a2[1] + 1)}
                else:
                    return None
            return out
        return None
    return None


def pattern_all_chars(pat):
    try:
        from re import _parser as sp
        t = sp.parse(pat.pattern, pat.flags)
    except Exception:  # noqa
        return None
    out = set()

    def walk(seq):
        for op, av in seq:
            nm = str(op)
            if nm == 'LITERAL':
                out.add(chr(av))
            elif nm == 'SUBPATTERN':
                if not walk(list(av[3])):
                    return False
            elif nm == 'BRANCH':
                for b in av[1]:
                    if not walk(list(b)):
                        return False
            elif nm in ('MAX_REPEAT', 'MIN_REPEAT'):
                if not walk(list(av[2])):
                    return False
            elif nm == 'IN':
                for o2, a2 in av:
                    if str(o2) == 'LITERAL':
                        out.add(chr(a2))
                    elif str(o2) == 'RANGE' and a2[1] - a2[0] < 512:
                        out.update(chr(c) for c in range(a2[0], a2[1] + 1))
                    else:
                        return False
            else:
                return False
        return True
    return out if walk(list(t)) else None


# ------------------------------------------------------------------------------------------------ builtins
def _b_len(it, v):
    if is_plain_object(v):
        f = it.find_method(v, '__len__')
        if f is not None:
            return it._call(f, [v], {})
    if isinstance(v, DictView):
        return seq_len(v.d) if isinstance(v.d, VDict) else len(v.d)
    if isinstance(v, VSet):
        raise Unsupported('len of a symbolic set')
    if isinstance(v, (_Num, SBool)):
        raise_py(TypeError('object has no len()'))
    if isinstance(v, Poison):
        raise Unsupported('len of a value lost in a summary')
    try:
        return seq_len(norm(v))
    except TypeError as ex:
        raise PyExc(ex)


def _b_isinstance(it, v, t):
    ts = []

    def flat(x):
        if isinstance(x, tuple):
            for y in x:
                flat(y)
        elif isinstance(x, types.UnionType):
            for y in x.__args__:
                flat(y)
        else:
            ts.append(getattr(x, '__origin__', None) or x)
    flat(t)
    v = norm(v)
    import collections.abc as abc
    for x in ts:
        if isinstance(v, Rope):
            r = x is (str if v.kind == 'str' else bytes) or x is object
        elif isinstance(v, SBool):
            r = x in (bool, int, object)
        elif isinstance(v, SInt):
            r = x in (int, object)
        elif isinstance(v, SReal):
            r = x in (float, object)
        elif isinstance(v, VList):
            r = x in ((list, object) if v.cls == 'list' else (collections.deque, object))
        elif isinstance(v, VDict):
            r = x in (dict, object)
        elif isinstance(v, VSet):
            r = x in (set, object)
        elif isinstance(v, (VFunc, VBound, BMethod)):
            r = x in (abc.Callable, types.FunctionType, object)
        elif isinstance(v, Poison):
            raise Unsupported('type of a value lost in a summary')
        else:
            if hasattr(v, '_kv_type'):
                r = issubclass(v._kv_type, x)
            else:
                try:
                    r = isinstance(v, x)
                except TypeError as ex:
                    raise PyExc(ex)
        if r:
            return True
    return False


def _b_range(it, *a):
    if it.is_native(a):
        try:
            return range(*a)
        except Exception as ex:
            raise PyExc(ex)
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported('range with a step')
    # small symbolic ranges are unrolled
    vals = []
    if isinstance(lo, int):
        ub = None
        for k in (1, 2, 4, 8, 16):
            if E().entails(toz(hi) <= lo + k):
                ub = lo + k
                break
        if ub is not None:
            x = lo
            while x < ub and E().branch(toz(hi) > x):
                vals.append(x)
                x += 1
            return vals
    return RangePart(toz(lo), toz(hi))


def _b_enumerate(it, v, start=0):
    sy = it.sym_iter(v)
    items = []
    n = start
    for x in sy.items:
        if x[0] == 'v':
            items.append(('v', (n, x[1])))
            n = n + 1
        else:
            _, part, kind, wrap = x
            if wrap is not None:
                raise Unsupported('nested enumerate')
            if isinstance(part, Flat):
                if not all((len(t) if not isinstance(t, Rope) else 2) == 1 for _, _, t in part.cases):
                    # position inside the family is not an affine function of the index
                    items.append(('p', part, kind, lambda i, val: (SInt(E().fresh('pos')), val)))
                    n = n + mknum(part.length())
                    continue
            lo = part.lo
            base = n
            items.append(('p', part, kind, lambda i, val, base=base, lo=lo: (base + mknum(i - lo), val)))
            n = n + mknum(part.hi - part.lo)
    return SymIter(items)


def _b_zip(it, *vs, strict=False):
    return [tuple(x) for x in zip(*[it.iter_concrete(v) for v in vs])]


def _b_map(it, f, *vs):
    if len(vs) == 1:
        sy = it.sym_iter(vs[0])
        if all(x[0] == 'v' for x in sy.items):
            return VList.of([it.call(f, [x[1]]) for x in sy.items])
        fr = Frame(it, None, {}, None)
        acc = VList()
        fr.locals['?acc'] = acc
        for item in sy.items:
            def body(value):
                v = it.call(f, [value])
                it.touch(acc)
                acc.set_parts(list(acc.parts) + [Lit([v])])
            if item[0] == 'v':
                body(item[1])
            else:
                it.summarise(item, body, fr, set())
        return acc
    return VList.of([it.call(f, list(x)) for x in zip(*[it.iter_concrete(v) for v in vs])])


def _b_filter(it, f, v):
    return VList.of([x for x in it.iter_concrete(v) if it.truth(it.call(f, [x]) if f is not None else x)])


def _b_reduce(it, f, v, *init):
    vals = it.iter_concrete(v)
    if init:
        acc = init[0]
    else:
        if not vals:
            raise_py(TypeError('reduce() of empty iterable with no initial value'))
        acc = vals.pop(0)
    for x in vals:
        acc = it.call(f, [acc, x])
    return acc


def _b_sum(it, v, start=0):
    sy = it.sym_iter(v)
    acc = start
    for item in sy.items:
        if item[0] == 'v':
            acc = it.binop(ast.Add(), acc, item[1])
        else:
            fr = Frame(it, None, {}, None)
            fr.locals['acc'] = acc

            def body(value):
                fr.store('acc', it.binop(ast.Add(), fr.lookup('acc'), value))
            it.summarise(item, body, fr, {'acc'})
            acc = fr.lookup('acc')
    return acc


def _minmax(it, name, args, kwargs):
    key = kwargs.get('key')
    default = kwargs.get('default', _MISSING)
    vals = list(args)
    if len(args) == 1:
        vals = it.iter_concrete(args[0])
    if not vals:
        if default is not _MISSING:
            return default
        raise_py(ValueError(f'{name}() arg is an empty sequence'))
    if it.is_native(vals) and key is None:
        return it.native(min if name == 'min' else max, [vals], {})
    best = vals[0]
    kb = it.call(key, [best]) if key is not None else best
    for v in vals[1:]:
        kv = it.call(key, [v]) if key is not None else v
        if key is None and isinstance(kb, (int, SInt)) and isinstance(kv, (int, SInt)) and not isinstance(kb, bool):
            a, b = toz(kb), toz(kv)
            c = b < a if name == 'min' else b > a
            if E().entails(z3.Not(c)):
                continue
            if E().entails(b <= a if name == 'min' else b >= a):
                best = kb = kv
                continue
            best = kb = mknum(z3.If(c, b, a))
            continue
        if key is None and _isnum(kb) and _isnum(kv):
            a, b = S.toreal(kb), S.toreal(kv)
            c = b < a if name == 'min' else b > a
            best = kb = SReal(simp(z3.If(c, b, a)))
            continue
        if it.truth(kv < kb if name == 'min' else kv > kb):
            best, kb = v, kv
    return best


def _b_min(it, *a, **k): return _minmax(it, 'min', a, k)
def _b_max(it, *a, **k): return _minmax(it, 'max', a, k)


def quantified(it, v, want):
    """any(v) (want) / not all(v) for a list of any length: forks; an element with the value is named, or none has it"""
    if not isinstance(v, VList) or v.is_concrete() or known_length(rlen(v)) is not None:
        return None
    conds = []
    for p in v.parts:
        if isinstance(p, Lit):
            for x in p.v:
                if it.truth(x) == want:
                    return want
            continue
        if isinstance(p, Flat) and not isinstance(p, Spread) and all(not isinstance(t, Rope) and len(t) == 1 for _, _, t in p.cases):
            el = lambda i, p=p: [(S._sub(g, [(p.bv, i)]), [S._sub(f, [(p.bv, i)]) for f in fs], vsubst(t[0], [(p.bv, i)])) for g, fs, t in p.cases]
        elif isinstance(p, Slice):
            el = lambda i, p=p: [(z3.BoolVal(True), [], mknum(p.src.elem(i)))]
        else:
            return None
        i = z3.Int(E().fresh_name('q'))
        alts, facts = [], []
        for g, fs, x in el(i):
            if isinstance(x, bool):
                c = z3.BoolVal(x)
            elif isinstance(x, SBool):
                c = tob(x)
            elif isinstance(x, (int, SInt)):
                c = toz(x) != 0
            else:
                return None
            alts.append(z3.And(g, c if want else z3.Not(c)))
            facts += [z3.Implies(g, f) for f in fs]
        conds.append((i, p.lo, p.hi, z3.Or(*alts), facts))
    for i, lo, hi, c, facts in conds:
        if E().branch(z3.Bool(E().fresh_name('exists'))):
            for f in facts:
                E().fact(f)
            E().add(z3.And(i >= lo, i < hi, c), guard=True)
            if not E().feasible():
                raise Infeasible
            return want
        j = z3.Int(E().fresh_name('all'))
        m = [(i, j)]
        E().add(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), z3.substitute(z3.Not(c), *m))), guard=True)
        if not E().feasible():
            raise Infeasible
    return not want


def _b_any(it, v):
    r = quantified(it, v, True)
    if r is not None:
        return r
    for x in it.iter_concrete(v):
        if it.truth(x):
            return True
    return False


def _b_all(it, v):
    r = quantified(it, v, False)
    if r is not None:
        return r
    for x in it.iter_concrete(v):
        if not it.truth(x):
            return False
    return True


def sorted_family(it, v, key, reverse):
    """contract of sorted() for a list of any length: a permutation pi of the elements with ordered keys.  The facts
    about pi are given as instances by the harness (Interp.sorts)"""
    f = v.parts[0]
    if reverse is not False or not f.lo.eq(z3.IntVal(0)) or len(f.cases) != 1 or len(f.cases[0][2]) != 1:
        raise Unsupported('sorted() over this symbolic list')
    pi = z3.Function(E().fresh_name('perm'), INT, INT)
    bv = z3.Int(E().fresh_name('sorted_i'))
    at = lambda i: vsubst(f.cases[0][2][0], [(f.bv, simp(S._zi(i)))])
    fa = lambda i: [S._sub(x, [(f.bv, simp(S._zi(i)))]) for x in f.cases[0][1]]

    def keyat(i):
        for x in fa(i):
            E().fact(x)
        x = at(i)
        return it.call(key, [x]) if key is not None else x
    rng = z3.And(pi(bv) >= 0, pi(bv) < f.hi)
    r = VList([Flat(bv, 0, f.hi, [(z3.BoolVal(True), fa(pi(bv)) + [rng], [at(pi(bv))])])])
    it.sorts.append({'pi': pi, 'key': keyat, 'n': f.hi, 'at': at})
    E().used_assumptions.add('sorted() (builtin): a stable permutation of its argument with ordered keys')
    return r


def _b_sorted(it, v, key=None, reverse=False):
    if isinstance(v, VList) and len(v.parts) == 1 and isinstance(v.parts[0], Flat):
        return sorted_family(it, v, key, reverse)
    vals = it.iter_concrete(v)
    keys = [it.call(key, [x]) if key is not None else x for x in vals]
    if it.is_native(keys):
        order = sorted(range(len(vals)), key=lambda i: it.to_native(keys[i]), reverse=it.truth(reverse))
        return VList.of([vals[i] for i in order])
    # insertion sort with forks (stable)
    out = []
    for i in range(len(vals)):
        pos = len(out)
        while pos > 0 and it.truth(keys[i] > keys[out[pos - 1]] if reverse else keys[i] < keys[out[pos - 1]]):
            pos -= 1
        out.insert(pos, i)
    return VList.of([vals[i] for i in out])


def _b_reversed(it, v): return VList.of(it.iter_concrete(v)[::-1])


def _b_abs(it, v):
    if isinstance(v, (SInt, SReal)) and not E().bound:
        if E().entails(v.e >= 0):
            return v
        if E().entails(v.e <= 0):
            return -v
    return S.SDec(simp(z3.If(v.e >= 0, v.e, -v.e))) if isinstance(v, S.SDec) else abs(v)


def _b_decimal(it, *a):
    if len(a) == 1 and isinstance(a[0], (SInt, SReal)):
        return S.SDec(S.toreal(a[0]))
    return it.native(decimal.Decimal, list(a), {})


def _b_getattr(it, o, name, *default):
    if not isinstance(name, str):
        raise Unsupported('symbolic attribute name')
    try:
        return it.getattr(o, name)
    except PyExc as px:
        if default and isinstance(px.exc, AttributeError):
            return default[0]
        raise


def _b_hasattr(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except PyExc as px:
        if isinstance(px.exc, AttributeError):
            return False
        raise


def _b_setattr(it, o, name, v): it.setattr(o, name, v)


def _b_callable(it, v): return callable(v) or isinstance(v, (VFunc, VBound, BMethod))


def _b_print(it, *args, **kw):
    h = it.stubs.get('print')
    if h is not None:
        return h(it, list(args), kw)
    raise Unsupported('print')


def hooked(name, f):
    def h(it, *a, **k):
        g = it.stubs.get(name)
        if g is not None:
            return g(it, *a, **k)
        if it.all_native(a) and it.all_native(list(k.values())):
            return it.native(f, list(a), k)
        raise Unsupported(f'{name} with symbolic arguments')
    return h


def _b_exit(it, code=None): raise_py(SystemExit(code))


def _b_chr(it, v):
    if isinstance(v, SInt):
        if E().branch(z3.Or(v.e < 0, v.e > 0x10ffff)):
            raise_py(ValueError('chr() arg not in range(0x110000)'))
        sl = elem_slice(v.e)
        return norm(Rope('str', [chr_tok(v.e)]))
    return it.native(chr, [v], {})


def _b_ord(it, v):
    v = norm(v)
    if isinstance(v, Rope):
        if len(v.parts) == 1:
            p = v.parts[0]
            if isinstance(p, Tok) and p.desc == 'chr':
                return mknum(p.args[0])
            if isinstance(p, Slice):
                return mknum(p.src.elem(p.lo))
        raise Unsupported('ord')
    return it.native(ord, [v], {})


def _b_hex(it, v):
    if isinstance(v, SInt):
        if E().branch(v.e < 0):
            raise Unsupported('hex of a negative number')
        return cat('0x', norm(Rope('str', [int_tok('x', v.e)])))
    return it.native(hex, [v], {})


def _b_super(it, c, o): return SuperProxy(c, o)


def _b_type(it, v, *rest):
    if rest:
        raise Unsupported('type()')
    v = norm(v)
    return it_type(v)


def it_type(v):
    if isinstance(v, Rope):
        return str if v.kind == 'str' else bytes
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SInt):
        return int
    if isinstance(v, SReal):
        return decimal.Decimal if isinstance(v, S.SDec) else float
    if isinstance(v, VList):
        return list if v.cls == 'list' else collections.deque
    if isinstance(v, VDict):
        return dict
    if hasattr(v, '_kv_type'):
        return v._kv_type
    return type(v)


Interp.type_of = lambda self, v: it_type(v)


def _b_copy(it, v):
    if isinstance(v, VList):
        return v.copy()
    if isinstance(v, list):
        return VList.of(v)
    if isinstance(v, VDict):
        return VDict(v.items_)
    if is_plain_object(v):
        r = object.__new__(type(v))
        r.__dict__.update(v.__dict__)
        return r
    if it.is_native(v):
        import copy
        return copy.copy(v)
    raise Unsupported('copy')


def _b_floor(it, v):
    if isinstance(v, SReal):
        return mknum(S.real_floor(v.e))
    if isinstance(v, (SInt, SBool)):
        return mknum(toz(v))
    return it.native(math.floor, [v], {})


def _b_ceil(it, v):
    if isinstance(v, SReal):
        return mknum(-S.real_floor(-v.e))
    if isinstance(v, (SInt, SBool)):
        return mknum(toz(v))
    return it.native(math.ceil, [v], {})


def _b_trunc(it, v):
    if isinstance(v, SReal):
        return mknum(z3.If(v.e >= 0, S.real_floor(v.e), -S.real_floor(-v.e)))
    if isinstance(v, (SInt, SBool)):
        return mknum(toz(v))
    return it.native(math.trunc, [v], {})


def _b_isclose(it, a, b, rel_tol=1e-09, abs_tol=0.0):
    if it.is_native((a, b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    x, y = S.toreal(a), S.toreal(b)
    ab = lambda t: z3.If(t >= 0, t, -t)
    d = ab(x - y)
    mx = z3.If(ab(x) >= ab(y), ab(x), ab(y))
    return mkbool(z3.Or(d <= toz(float(rel_tol)) * mx, d <= toz(float(abs_tol))))


def _b_pow(it, a, b, *m):
    if m:
        raise Unsupported('pow with modulus')
    if it.is_native((a, b)):
        return it.native(pow, [a, b], {})
    return a ** b


def _b_divmod(it, a, b):
    return (it.binop(ast.FloorDiv(), a, b), it.binop(ast.Mod(), a, b))


def _b_round(it, v, *n):
    if it.is_native((v,) + n):
        return it.native(round, [v, *n], {})
    if isinstance(v, SInt) and not n:
        return v
    raise Unsupported('round')


def _b_id(it, v): raise Unsupported('id()')


def _b_cast(it, t, v): return v


def _b_iter(it, v): return it.sym_iter(v)


def _b_next(it, v, *default):
    if isinstance(v, GenList):
        if v.parts and isinstance(v.parts[0], Lit) and v.parts[0].v:
            p = v.parts[0]
            v.set_parts(([Lit(p.v[1:])] if len(p.v) > 1 else []) + list(v.parts[1:]))
            return p.v[0]
        if not v.parts:
            if default:
                return default[0]
            raise_py(StopIteration())
    raise Unsupported('next()')


def _b_re_sub(it, pat, repl, s, count=0, flags=0):
    if not isinstance(pat, re.Pattern):
        pat = re.compile(norm(pat), flags)
    return re_sub(it, pat, repl, s)


def _b_format(it, v, spec=''): return it.format(v, spec)
def _b_repr(it, v): return it.to_repr(v)


def _b_issubclass(it, a, b): return issubclass(a, b)


def _b_vars(it, o): return o.__dict__


def _b_dir(it, o): return VList.of(dir(o))


import typing as _typing

_BUILTINS = {len: _b_len, isinstance: _b_isinstance, sum: _b_sum, min: _b_min, max: _b_max, any: _b_any, all: _b_all,
             sorted: _b_sorted, abs: _b_abs, getattr: _b_getattr, hasattr: _b_hasattr, setattr: _b_setattr,
             callable: _b_callable, print: _b_print, chr: _b_chr, ord: _b_ord, hex: _b_hex, divmod: _b_divmod,
             round: _b_round, pow: _b_pow, functools.reduce: _b_reduce, math.floor: _b_floor, math.ceil: _b_ceil,
             math.trunc: _b_trunc, math.isclose: _b_isclose, id: _b_id, _typing.cast: _b_cast, iter: _b_iter,
             next: _b_next, re.sub: _b_re_sub, format: _b_format, repr: _b_repr, issubclass: _b_issubclass, vars: _b_vars,
             dir: _b_dir}
import copy as _copy
_BUILTINS[_copy.copy] = _b_copy
_BUILTINS[sys.exit] = _b_exit
_BUILTINS[open] = hooked('open', open)
_BUILTINS[re.finditer] = hooked('finditer', re.finditer)
for _n in ('exit', 'quit'):
    if hasattr(__import__('builtins'), _n):
        _BUILTINS[getattr(__import__('builtins'), _n)] = _b_exit


def _t_int(it, v=0, base=None):
    v = norm(v)
    if hasattr(v, '_kv_int'):
        return v._kv_int(it, base)
    if base is not None or kind_of(v) is not None:
        if it.is_native(v):
            return it.native(int, [v] + ([base] if base is not None else []), {})
        if isinstance(v, Rope) and len(v.parts) == 1 and isinstance(v.parts[0], Tok) and v.parts[0].desc == 'd' and base in (None, 10):
            return mknum(v.parts[0].args[0])
        h = it.stubs.get('int_of_text')
        if h is not None:
            return h(it, v, base)
        raise Unsupported('int() of a symbolic text')
    if isinstance(v, SReal):
        return _b_trunc(it, v)
    if isinstance(v, (SInt, SBool)):
        return mknum(toz(v))
    return it.native(int, [v], {})


def _t_float(it, v=0.0):
    if isinstance(v, SReal):
        return v
    if isinstance(v, SInt):
        return SReal(z3.ToReal(v.e))
    return it.native(float, [v], {})


def _t_str(it, v='', *a, **k):
    if a or k:
        return bytes_decode(it, v, a[0] if a else k.get('encoding', 'utf-8'), k.get('errors', a[1] if len(a) > 1 else 'strict'))
    return it.to_str(v)


def _t_bool(it, v=False):
    v = norm(v)
    if isinstance(v, SBool):
        return v
    if isinstance(v, _Num):
        return mkbool(v.e != 0)
    if isinstance(v, (Rope, VList)):
        return mkbool(rlen(v) > 0)
    return it.truth(v)


def _t_bytes(it, v=b'', *a, **k):
    v = norm(v)
    if kind_of(v) == 'bytes':
        return v
    if isinstance(v, (VList, list, tuple)):
        ps = []
        src = v.parts if isinstance(v, VList) else [Lit(list(v))]
        for p in src:
            if isinstance(p, Slice):
                ps.append(p)
                continue
            if not isinstance(p, Lit):
                raise Unsupported('bytes() of a family')
            for x in p.v:
                if isinstance(x, int):
                    try:
                        ps.append(Lit(bytes([x])))
                    except ValueError as ex:
                        raise PyExc(ex)
                elif isinstance(x, SInt):
                    sl = elem_slice(x.e)
                    if sl is None:
                        raise Unsupported(f'bytes() of a computed integer {x}')
                    ps.append(Slice(sl[0], sl[1], simp(sl[1] + 1)))
                else:
                    raise_py(TypeError('bytes() of non-integers'))
        return norm(Rope('bytes', ps))
    if isinstance(v, SInt):
        if E().branch(v.e < 0):
            raise_py(ValueError('negative count'))
        return norm(Rope('bytes', [Rep(b'\0', v.e)]))
    if it.is_native((v,) + a):
        return it.native(bytes, [v, *a], k)
    raise Unsupported('bytes()')


def _t_list(it, v=()):
    if isinstance(v, VList):
        return VList(v.parts)
    sy = it.sym_iter(v)
    if all(x[0] == 'v' for x in sy.items):
        return VList.of([x[1] for x in sy.items])
    acc = VList()
    fr = Frame(it, None, {}, None)
    fr.locals['?acc'] = acc
    for item in sy.items:
        def body(value):
            it.touch(acc)
            acc.set_parts(list(acc.parts) + [Lit([value])])
        if item[0] == 'v':
            body(item[1])
        else:
            it.summarise(item, body, fr, set())
    return acc


def _t_deque(it, v=(), maxlen=None):
    if maxlen is not None:
        raise Unsupported('bounded deque')
    r = _t_list(it, v)
    r.cls = 'deque'
    return r


def _t_tuple(it, v=()):
    if isinstance(v, tuple):
        return v
    return tuple(it.iter_concrete(v))


def _t_set(it, v=()):
    if isinstance(v, VList) and not v.is_concrete():
        h = it.stubs.get('set_of_list')
        if h is not None:
            return h(it, v)
    return it.mkset(it.iter_concrete(v))


def _t_dict(it, v=None, **kw):
    items = []
    if v is not None:
        if isinstance(v, VDict):
            items = list(v.items_)
        elif isinstance(v, dict):
            items = list(v.items())
        else:
            for p in it.iter_concrete(v):
                a, b = it.iter_concrete(p)
                it._dput(items, a, b)
    for k, x in kw.items():
        it._dput(items, k, x)
    return VDict(items)


def _t_object(it): return object()


_TYPES = {int: _t_int, float: _t_float, str: _t_str, bool: _t_bool, bytes: _t_bytes, list: _t_list, tuple: _t_tuple,
          set: _t_set, frozenset: _t_set, dict: _t_dict, range: _b_range, enumerate: _b_enumerate, zip: _b_zip,
          map: _b_map, filter: _b_filter, reversed: _b_reversed, type: _b_type, super: _b_super,
          collections.deque: _t_deque, bytearray: _t_bytes, decimal.Decimal: _b_decimal}
