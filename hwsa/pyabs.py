"""Abstract interpretation of Python source (the library's host-side code).

The functions are taken from the syntax tree of the file in the repository; nothing is imported or executed.  Integers
are bit vectors whose bits are canonical functions of provenance tokens (bdd.py), strings and byte strings are sequences
of such values, lengths are concrete.  A branch on an unknown bit is merged (both arms only assign names) or the
analysis is partitioned on the token that decides it (explore).
"""
import ast
import builtins
import collections
import collections.abc
import functools
import importlib
import itertools
import math
import operator
import os
import re
import struct

from .bdd import BDD


class Unsupported(Exception):
    """construct outside the interpreter: no verdict"""


class Split(Exception):
    def __init__(self, node):
        self.node = node


class PyExc(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc, node=None, path=None):
        super().__init__("%s: %s" % (type(exc).__name__, exc))
        self.exc = exc
        self.loc = (path, getattr(node, "lineno", 0))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------------------------------------ abstract values
class AInt:
    """integer: bits LSB first, then the sign for ever"""
    __slots__ = ("bits", "sign", "is_bool")

    def __init__(self, bits, sign=0, is_bool=False):
        self.bits, self.sign, self.is_bool = tuple(bits), sign, is_bool

    def __repr__(self):
        return "AInt(%s|%s)" % (list(self.bits), self.sign)


class AStr:
    """string of known length; items are characters or AInt (a digit '0'/'1')"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class ABytes:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class AMut(list):
    """bytearray: a mutable list of byte values"""


class AObj:
    def __init__(self, cls):
        self.cls, self.d = cls, {}

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, self.d)


class AClass:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, AClass):
                try:
                    return b.lookup(n)
                except KeyError:
                    pass
        raise KeyError(n)

    def has(self, n):
        try:
            self.lookup(n)
            return True
        except KeyError:
            return False

    def subclass_of(self, c):
        return self is c or any(isinstance(b, AClass) and b.subclass_of(c) for b in self.bases) or c is object


class AFunc:
    def __init__(self, node, env, module, kind=None, name=None):
        self.node, self.env, self.module, self.kind = node, env, module, kind
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = None


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Builtin:
    """function of the interpreter itself (also used by property specifications to model collaborators)"""

    def __init__(self, fn, name="?"):
        self.fn, self.name = fn, name


class Iter:
    """iterator over a known list"""

    def __init__(self, items):
        self.items, self.pos = items, 0


class Env:
    def __init__(self, parent, module):
        self.d, self.parent, self.module = {}, parent, module
        self.globals_ = set()

    def get(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.parent
        return self.module.get(n)

    def set(self, n, v):
        self.d[n] = v


SAFE = {"re", "operator", "functools", "math", "itertools", "collections", "collections.abc", "struct", "enum", "abc", "typing", "string", "binascii"}


class PyModule:
    def __init__(self, interp, path, name):
        self.interp, self.path, self.name = interp, path, name
        self.tree = ast.parse(open(path).read(), path)
        self.defs, self.cache = {}, {}
        for st in self.tree.body:
            self.scan(st)

    def scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.defs[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.defs[a.asname or a.name.split(".")[0]] = (st, a)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.defs[a.asname or a.name] = (st, a)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.defs[n.id] = st
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
            self.defs[st.target.id] = st
        elif isinstance(st, ast.Try):
            for s in st.body:
                self.scan(s)

    def get(self, n):
        if n in self.cache:
            return self.cache[n]
        if n not in self.defs:
            return self.interp.builtin(n)
        d = self.defs[n]
        it = self.interp
        if isinstance(d, tuple):
            v = self.imported(*d)
        elif isinstance(d, ast.ClassDef):
            v = it.make_class(d, Env(None, self))
        elif isinstance(d, ast.FunctionDef):
            v = it.make_func(d, None, self)
        else:
            env = Env(None, self)
            it.exec_stmt(d, env)
            self.cache.update(env.d)
            v = env.d[n]
        self.cache[n] = v
        return v

    def imported(self, st, a):
        if isinstance(st, ast.Import):
            top = a.name if a.asname else a.name.split(".")[0]
            if top in self.interp.foreign:
                return self.interp.foreign[top]
            if a.name in SAFE:
                importlib.import_module(a.name)
                return importlib.import_module(top)
            return Opaque(a.name)
        if st.level:
            base = os.path.dirname(self.path)
            for _ in range(st.level - 1):
                base = os.path.dirname(base)
            base = os.path.join(base, *(st.module or "").split("."))
            for p in (base + ".py", os.path.join(base, "__init__.py")):
                if os.path.exists(p):
                    return self.interp.module(p).get(a.name)
            p = os.path.join(base, a.name)
            for q in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.exists(q):
                    return self.interp.module(q)
            return Opaque("%s.%s" % (st.module, a.name))
        if st.module in SAFE:
            return getattr(importlib.import_module(st.module), a.name)
        return self.interp.foreign.get((st.module, a.name)) or self.interp.foreign.get(a.name) or Opaque("%s.%s" % (st.module, a.name))


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


EXC = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Interp:
    def __init__(self, assume=None, foreign=None, fuel=400000):
        self.m = BDD()
        self.vars = {}          # token name -> index
        self.names = []
        self.assume = assume or {}
        self.modules = {}
        self.foreign = foreign or {}
        self.fuel = fuel
        self.functions = set()
        self.why = {}

    # ------------------------------------------------------------ tokens
    def token(self, name):
        i = self.vars.setdefault(name, len(self.vars))
        if i == len(self.names):
            self.names.append(name)
        if name in self.assume:
            return self.assume[name]
        return self.m.var(i)

    def fresh(self, name, width):
        return self.num([self.token("%s[%d]" % (name, i)) for i in range(width)])

    # ------------------------------------------------------------ integers
    def num(self, bits, sign=0, is_bool=False):
        bits = list(bits)
        while bits and bits[-1] == sign:
            bits.pop()
        if sign in (0, 1) and all(b in (0, 1) for b in bits):
            v = sum(b << i for i, b in enumerate(bits)) - (sign << len(bits))
            return bool(v) if is_bool else v
        return AInt(bits, sign, is_bool)

    def parts(self, v, w=0):
        """bits (at least w), sign"""
        if isinstance(v, AInt):
            b, s = list(v.bits), v.sign
        else:
            v = int(v)
            n = v.bit_length()
            s = int(v < 0)
            b = [(v >> i) & 1 for i in range(n)]
        b += [s] * (w - len(b))
        return b, s

    def isint(self, v):
        return isinstance(v, (int, AInt))

    def bitop(self, op, a, b):
        w = max(len(self.parts(a)[0]), len(self.parts(b)[0]))
        (x, s), (y, t) = self.parts(a, w), self.parts(b, w)
        f = {"&": self.m.AND, "|": self.m.OR, "^": self.m.XOR}[op]
        return self.num([f(p, q) for p, q in zip(x, y)], f(s, t), self.boolish(a) and self.boolish(b))

    def boolish(self, v):
        return isinstance(v, bool) or isinstance(v, AInt) and v.is_bool

    def add(self, a, b, neg=False):
        w = max(len(self.parts(a)[0]), len(self.parts(b)[0])) + 2
        (x, _), (y, _) = self.parts(a, w), self.parts(b, w)
        m = self.m
        c = 1 if neg else 0
        out = []
        for p, q in zip(x, y):
            if neg:
                q = m.NOT(q)
            t = m.XOR(p, q)
            out.append(m.XOR(t, c))
            c = m.ite(t, c, p)
        return self.num(out[:-1], out[-1])

    def shift(self, a, n):
        b, s = self.parts(a)
        if n >= 0:
            return self.num([0] * n + b, s)
        return self.num(b[-n:], s)

    def mul(self, a, b):
        if not isinstance(a, AInt):
            a, b = b, a
        if isinstance(b, int):
            r, neg = 0, b < 0
            for i in range(abs(b).bit_length()):
                if abs(b) >> i & 1:
                    r = self.add(r, self.shift(a, i))
            return self.add(0, r, True) if neg else r
        if b.sign != 0:
            raise Split(b.sign)
        r = 0
        for i, bit in enumerate(b.bits):
            x, s = self.parts(self.shift(a, i))
            r = self.add(r, self.num([self.m.AND(bit, q) for q in x], self.m.AND(bit, s)))
        return r

    def eq(self, a, b):
        w = max(len(self.parts(a)[0]), len(self.parts(b)[0])) + 1
        m = self.m
        r = 1
        for p, q in zip(self.parts(a, w)[0], self.parts(b, w)[0]):
            r = m.AND(r, m.NOT(m.XOR(p, q)))
        return r

    def lt(self, a, b):
        d = self.add(a, b, True)
        return self.parts(d)[1]

    def boolean(self, node):
        return self.num([node], 0, True)

    def node_of(self, v):
        """truth value as a bit"""
        if isinstance(v, AInt):
            r = v.sign
            for b in v.bits:
                r = self.m.OR(r, b)
            return r
        return int(bool(self.truth(v)))

    def truth(self, v):
        if isinstance(v, AInt):
            n = self.node_of(v)
            if n in (0, 1):
                return bool(n)
            raise Split(n)
        if isinstance(v, (AStr, ABytes)):
            return bool(v.items)
        if isinstance(v, AObj):
            if v.cls.has("__bool__"):
                return self.truth(self.call(self.attr(v, "__bool__"), [], {}))
            if v.cls.has("__len__"):
                return self.truth(self.call(self.attr(v, "__len__"), [], {}))
            return True
        if isinstance(v, (AClass, AFunc, Bound, Builtin, Opaque, Iter)):
            return True
        return bool(v)

    def concrete(self, v):
        """index as a Python int, partitioning if needed"""
        if isinstance(v, AInt):
            for b in list(v.bits) + [v.sign]:
                if b not in (0, 1):
                    raise Split(b)
        if isinstance(v, AObj) and v.cls.has("__index__"):
            return self.concrete(self.call(self.attr(v, "__index__"), [], {}))
        if not isinstance(v, int):
            self.throw(TypeError("an integer is required, not %s" % self.typename(v)))
        return int(v)

    def throw(self, exc, node=None):
        raise PyExc(exc, node or self.cur, self.cur_path)

    # ------------------------------------------------------------ program structure
    def module(self, path):
        path = os.path.abspath(path)
        if path not in self.modules:
            self.modules[path] = PyModule(self, path, path)
        return self.modules[path]

    def make_func(self, node, env, module, kind=None):
        f = AFunc(node, env, module, kind)
        e = env or Env(None, module)
        f.defaults = [self.eval(d, e) for d in node.args.defaults]
        f.kwdefaults = [None if d is None else (self.eval(d, e),) for d in node.args.kw_defaults]
        return f

    def make_class(self, node, env):
        bases = []
        for b in node.bases:
            try:
                bases.append(self.eval(b, env))
            except (PyExc, Unsupported):
                bases.append(Opaque(ast.unparse(b)))
        body = Env(env, env.module)
        cls = AClass(node.name, bases, body.d, env.module)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = None
                for d in st.decorator_list:
                    t = ast.unparse(d)
                    if t in ("classmethod", "staticmethod", "property"):
                        kind = t
                    elif t.split(".")[-1] in ("abstractmethod",):
                        pass
                    elif t.endswith(".setter"):
                        kind = "setter"
                    else:
                        kind = "opaque"
                if kind == "setter":
                    continue
                f = self.make_func(st, env, env.module, kind)
                f.owner = cls
                body.d[st.name] = f
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                if isinstance(st, ast.AnnAssign) and st.value is None:
                    continue
                self.exec_stmt(st, body)
            elif isinstance(st, ast.ClassDef):
                body.d[st.name] = self.make_class(st, env)
        return cls

    def builtin(self, n):
        if n in EXC:
            return EXC[n]
        if ("builtins", n) in self.foreign:
            return self.foreign["builtins", n]
        f = getattr(self, "b_" + n, None)
        if f is not None:
            return Builtin(f, n)
        if n in ("int", "str", "bytes", "bytearray", "memoryview", "list", "tuple", "dict", "set", "float", "bool", "object", "type", "slice", "frozenset", "property"):
            return getattr(builtins, n)
        if n in ("True", "False", "None", "NotImplemented", "Ellipsis"):
            return getattr(builtins, n)
        if n in ("divmod", "pow", "ord", "chr", "hex", "bin", "oct", "round", "callable", "map", "filter"):
            return Builtin(getattr(self, "b_" + n, None) or functools.partial(self.fold, getattr(builtins, n)), n)
        if n in ("super", "print", "open", "hasattr", "getattr", "setattr", "vars"):
            return Opaque(n)
        self.throw(NameError("name '%s' is not defined" % n))

    # ------------------------------------------------------------ calls
    def abstract(self, v, depth=0):
        if isinstance(v, (AInt, AStr, ABytes, AMut, AObj, AClass, AFunc, Bound, Builtin, Opaque, Iter)):
            return True
        if depth < 4:
            if isinstance(v, (list, tuple, set, frozenset)):
                return any(self.abstract(x, depth + 1) for x in v)
            if isinstance(v, dict):
                return any(self.abstract(x, depth + 1) for x in v.values())
        return False

    def fold(self, fn, *args, **kw):
        if any(self.abstract(a) for a in args) or any(self.abstract(a) for a in kw.values()):
            args = [self.whole(a) for a in args]
            kw = {k: self.whole(a) for k, a in kw.items()}
        try:
            return fn(*args, **kw)
        except (Split, PyExc, Unsupported):
            raise
        except Exception as e:
            self.throw(e)

    def whole(self, v):
        """fully concrete value, partitioning on every unknown bit"""
        if isinstance(v, AInt):
            return self.concrete(v)
        if isinstance(v, ABytes):
            return bytes(self.concrete(i) for i in v.items)
        if isinstance(v, AStr):
            return "".join(i if isinstance(i, str) else str(self.concrete(i)) for i in v.items)
        if isinstance(v, AMut):
            return bytearray(self.concrete(i) for i in v)
        if isinstance(v, (list, tuple)):
            return type(v)(self.whole(x) for x in v)
        if isinstance(v, Iter):
            return iter([self.whole(x) for x in v.items[v.pos:]])
        if isinstance(v, (AFunc, Bound, Builtin)):
            return lambda *a, **k: self.call(v, list(a), k)
        if self.abstract(v):
            raise Unsupported("value %r in a library call" % (v,))
        return v

    def call(self, f, args, kw, node=None):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("out of fuel")
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + args, kw, node)
        if isinstance(f, Builtin):
            return f.fn(*args, **kw)
        if isinstance(f, AFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, AClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Opaque):
            if f.name == "print":
                return None
            raise Unsupported("call of %s" % f.name)
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*[a if not self.abstract(a) else "?" for a in args])
        t = CALLS.get(f) if isinstance(f, (type, type(len))) or callable(f) and getattr(f, "__hash__", None) else None
        if t is not None:
            return t(self, *args, **kw)
        if isinstance(f, AObj):
            return self.call(self.attr(f, "__call__"), args, kw, node)
        mod = getattr(f, "__module__", None)
        if f in (map, filter, divmod) or mod in SAFE or mod in ("builtins", "_operator", "_functools", "_struct", "_collections") or mod is None or mod.startswith("amaranth"):
            return self.fold(f, *args, **kw)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kw):
        if any(b is not object and not isinstance(b, AClass) and not (isinstance(b, Opaque)) for b in cls.bases):
            real = [b for b in cls.bases if isinstance(b, type) and issubclass(b, BaseException)]
            if real:
                return real[0](*args)
        if cls.has("__new__"):
            o = self.call(cls.lookup("__new__"), [cls] + args, kw)
        else:
            o = AObj(cls)
        if isinstance(o, AObj) and o.cls.subclass_of(cls) and cls.has("__init__"):
            self.call(cls.lookup("__init__"), [o] + args, kw)
        return o

    def call_func(self, f, args, kw):
        if f.kind == "opaque":
            raise Unsupported("decorated function %s" % f.name)
        self.functions.add("%s:%s" % (os.path.relpath(f.module.path, REPO_DIR()), f.name))
        env = Env(f.env, f.module)
        env.func = f
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        nd = len(names) - len(f.defaults)
        if len(args) > len(names) and not a.vararg:
            self.throw(TypeError("%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args))))
        for i, n in enumerate(names):
            if i < len(args):
                if n in kw:
                    self.throw(TypeError("%s() got multiple values for argument '%s'" % (f.name, n)))
                env.d[n] = args[i]
            elif n in kw:
                env.d[n] = kw.pop(n)
            elif i >= nd:
                env.d[n] = f.defaults[i - nd]
            else:
                self.throw(TypeError("%s() missing required argument '%s'" % (f.name, n)))
        if a.vararg:
            env.d[a.vararg.arg] = tuple(args[len(names):])
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                env.d[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env.d[x.arg] = d[0]
            else:
                self.throw(TypeError("%s() missing keyword argument '%s'" % (f.name, x.arg)))
        if a.kwarg:
            env.d[a.kwarg.arg] = kw
        elif kw:
            self.throw(TypeError("%s() got an unexpected keyword argument '%s'" % (f.name, sorted(kw)[0])))
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        save = getattr(self, "cur_path", None), getattr(self, "cur", None)
        self.cur_path = f.module.path
        gen = is_generator(f.node)
        if gen:
            env.d["$yield"] = []
        try:
            self.exec_body(f.node.body, env)
            r = None
        except _Return as e:
            r = e.v
        self.cur_path, self.cur = save
        return Iter(env.d["$yield"]) if gen else r

    # ------------------------------------------------------------ statements
    cur = None
    cur_path = None
    in_raise = False

    def exec_body(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("out of fuel")
        self.cur, self.cur_path = st, env.module.path
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(st.value, env)
        else:
            self.eval(st.value, env)

    def do_yield(self, v, env):
        e = env
        while "$yield" not in e.d:
            e = e.parent
        if isinstance(v, ast.Yield):
            e.d["$yield"].append(self.eval(v.value, env) if v.value else None)
        else:
            e.d["$yield"].extend(self.items(self.eval(v.value, env)))

    def s_Pass(self, st, env):
        pass

    def s_Import(self, st, env):
        for a in st.names:
            env.set(a.asname or a.name.split(".")[0], env.module.imported(st, a))

    s_ImportFrom = s_Import

    def s_FunctionDef(self, st, env):
        env.set(st.name, self.make_func(st, env, env.module))

    def s_ClassDef(self, st, env):
        env.set(st.name, self.make_class(st, env))

    def s_Global(self, st, env):
        raise Unsupported("global")

    def s_Nonlocal(self, st, env):
        env.globals_ |= set(st.names)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.eval(t.value, env), self.eval(t.slice, env)
                if not isinstance(o, (list, dict)):
                    raise Unsupported("del")
                try:
                    del o[k if isinstance(k, slice) else self.whole(k)]
                except (LookupError, TypeError) as e:
                    self.throw(e)
            else:
                raise Unsupported("del")

    def s_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value else None)

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.throw(AssertionError("assertion fails"), st)

    def s_Raise(self, st, env):
        if st.exc is None:
            raise env.get("$exc")
        self.in_raise = True            # unknown values in the text of an exception do not matter
        try:
            e = self.eval(st.exc, env)
        finally:
            self.in_raise = False
        if isinstance(e, type):
            e = e()
        if isinstance(e, AClass):
            e = self.instantiate(e, [], {})
        if not isinstance(e, BaseException):
            raise Unsupported("raise of %r" % (e,))
        raise PyExc(e, st, env.module.path)

    def s_Try(self, st, env):
        try:
            try:
                self.exec_body(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = isinstance(e.exc, tuple(x for x in ts if isinstance(x, type)))
                    if ok:
                        if h.name:
                            env.set(h.name, e.exc)
                        env.d["$exc"] = e
                        self.exec_body(h.body, env)
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, env)
        finally:
            self.exec_body(st.finalbody, env)

    def s_With(self, st, env):
        managers = []
        try:
            for i in st.items:
                v = self.eval(i.context_expr, env)
                managers.append(v)
                v = self.call(self.attr(v, "__enter__"), [], {})
                if i.optional_vars:
                    self.assign(i.optional_vars, v, env)
            self.exec_body(st.body, env)
        finally:
            for v in reversed(managers):
                self.call(self.attr(v, "__exit__"), [None, None, None], {})

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        cur = self.eval(load, env)
        val = self.eval(st.value, env)
        if isinstance(cur, list) and isinstance(st.op, ast.Add):
            cur.extend(self.items(val))
            return
        self.assign(t, self.binop(OPS[type(st.op)], cur, val), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.globals_:
                e = env.parent
                while e is not None and t.id not in e.d:
                    e = e.parent
            e.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if not isinstance(o, AObj):
                raise Unsupported("attribute assignment to %r" % (o,))
            o.d[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            if isinstance(o, list):
                try:
                    o[self.concrete(k) if not isinstance(k, slice) else k] = v if not isinstance(k, slice) else self.items(v)
                except IndexError as e:
                    self.throw(e)
            elif isinstance(o, dict):
                o[self.whole(k)] = v
            else:
                raise Unsupported("item assignment to %r" % (o,))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - i - 1
                vs = vs[:i] + [vs[i:len(vs) - n]] + vs[len(vs) - n:]
            if len(vs) != len(t.elts):
                self.throw(ValueError("wrong number of values to unpack"))
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        else:
            raise Unsupported("assignment target")

    def s_If(self, st, env):
        c = self.eval(st.test, env)
        if isinstance(c, AInt):
            n = self.node_of(c)
            if n not in (0, 1) and simple(st.body) and simple(st.orelse):
                base = dict(env.d)
                self.exec_body(st.body, env)
                a = env.d
                env.d = dict(base)
                self.exec_body(st.orelse, env)
                b = env.d
                try:
                    env.d = self.merge(n, a, b)
                    return
                except Unsupported:
                    env.d = base
                    raise Split(n)
        self.exec_body(st.body if self.truth(c) else st.orelse, env)

    def merge(self, n, a, b):
        out = {}
        for k in set(a) | set(b):
            if k not in a or k not in b:
                raise Unsupported("merge")
            out[k] = self.join(n, a[k], b[k])
        return out

    def join(self, n, x, y):
        if x is y:
            return x
        if self.isint(x) and self.isint(y):
            w = max(len(self.parts(x)[0]), len(self.parts(y)[0]))
            (p, s), (q, t) = self.parts(x, w), self.parts(y, w)
            return self.num([self.m.ite(n, i, j) for i, j in zip(p, q)], self.m.ite(n, s, t), self.boolish(x) and self.boolish(y))
        if not self.abstract(x) and not self.abstract(y) and type(x) is type(y) and x == y:
            return x
        raise Unsupported("join")

    def s_For(self, st, env):
        items = self.items(self.eval(st.iter, env))
        for x in items:
            self.assign(st.target, x, env)
            try:
                self.exec_body(st.body, env)
            except _Continue:
                continue
            except _Break:
                break
        else:
            self.exec_body(st.orelse, env)

    def s_Match(self, st, env):
        v = self.eval(st.subject, env)
        for c in st.cases:
            if self.matches(c.pattern, v, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                return self.exec_body(c.body, env)

    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.equal(v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is, v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.matches(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name is not None:
                self.assign(ast.Name(p.name, ast.Store()), v, env)
            return True
        if isinstance(p, ast.MatchClass):
            if not self.b_isinstance(v, self.eval(p.cls, env)):
                return False
            if p.patterns and (len(p.patterns) > 1 or isinstance(v, AObj)):
                raise Unsupported("class pattern")
            if p.patterns and not self.matches(p.patterns[0], v, env):
                return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.reflect("hasattr", [v, n]) or not self.matches(q, self.attr(v, n), env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.matches(x, y, env) for x, y in zip(p.patterns, v))
            i, n = star[0], len(p.patterns) - star[0] - 1
            if len(v) < i + n:
                return False
            k = len(v) - n
            if not all(self.matches(x, y, env) for x, y in zip(p.patterns[:i] + p.patterns[i + 1:], list(v[:i]) + list(v[k:]))):
                return False
            if p.patterns[i].name:
                self.assign(ast.Name(p.patterns[i].name, ast.Store()), list(v[i:k]), env)
            return True
        raise Unsupported("pattern %s" % type(p).__name__)

    def s_While(self, st, env):
        while self.truth(self.eval(st.test, env)):
            self.fuel -= 1
            if self.fuel < 0:
                raise Unsupported("out of fuel")
            try:
                self.exec_body(st.body, env)
            except _Continue:
                continue
            except _Break:
                return
        self.exec_body(st.orelse, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("out of fuel")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        if e.id == "super":
            return Opaque("super")
        return env.get(e.id)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e, env))

    def e_List(self, e, env):
        return self.elts(e, env)

    def e_Set(self, e, env):
        return set(self.whole(x) for x in self.elts(e, env))

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.items(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.eval(v, env))
            else:
                out[self.whole(self.eval(k, env))] = self.eval(v, env)
        return out

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        return self.make_func(e, env, env.module)

    def e_IfExp(self, e, env):
        c = self.eval(e.test, env)
        if isinstance(c, AInt):
            n = self.node_of(c)
            if n not in (0, 1):
                try:
                    return self.join(n, self.eval(e.body, env), self.eval(e.orelse, env))
                except Unsupported:
                    raise Split(n)
        return self.eval(e.body if self.truth(c) else e.orelse, env)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, AInt) and v.is_bool and self.node_of(v) not in (0, 1):
                rest = self.eval(e.values[i + 1], env) if i + 2 == len(e.values) else None
                if self.boolish(rest):
                    return self.bitop("&" if is_and else "|", v, rest)
            t = self.truth(v)
            if t != is_and:
                return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, AInt):
                return self.boolean(self.m.NOT(self.node_of(v)))
            return not self.truth(v)
        if isinstance(v, AInt):
            if isinstance(e.op, ast.Invert):
                return self.num([self.m.NOT(b) for b in v.bits], self.m.NOT(v.sign))
            if isinstance(e.op, ast.USub):
                return self.add(0, v, True)
            return v
        if isinstance(v, AObj):
            n = {ast.Invert: "__invert__", ast.USub: "__neg__", ast.UAdd: "__pos__"}[type(e.op)]
            if v.cls.has(n):
                return self.call(self.attr(v, n), [], {})
            self.throw(TypeError("bad operand type for unary operator"))
        return self.fold({ast.Invert: operator.invert, ast.USub: operator.neg, ast.UAdd: operator.pos}[type(e.op)], v)

    def e_BinOp(self, e, env):
        return self.binop(OPS[type(e.op)], self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        for x, y, n in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, AObj) and x.cls.has(n % NAMES[op]):
                r = self.call(self.attr(x, n % NAMES[op]), [y], {})
                if r is not NotImplemented:
                    return r
        if isinstance(a, AObj) or isinstance(b, AObj):
            self.throw(TypeError("unsupported operand type(s) for %s: %s and %s" % (op, self.typename(a), self.typename(b))))
        if self.isint(a) and self.isint(b) and (isinstance(a, AInt) or isinstance(b, AInt)):
            if op in "&|^":
                return self.bitop(op, a, b)
            if op == "+":
                return self.add(a, b)
            if op == "-":
                return self.add(a, b, True)
            if op == "*":
                return self.mul(a, b)
            if op in ("<<", ">>"):
                n = self.concrete(b)
                if n < 0:
                    self.throw(ValueError("negative shift count"))
                return self.shift(a, n if op == "<<" else -n)
            if op in ("//", "%") and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return self.shift(a, -k) if op == "//" else self.bitop("&", a, b - 1)
            return self.fold(PY[op], self.concrete(a), self.concrete(b))
        if op == "+" and isinstance(a, (ABytes, AMut, bytes, bytearray)) and isinstance(b, (ABytes, AMut, bytes, bytearray)):
            both = self.items(a) + self.items(b)
            return AMut(both) if isinstance(a, (AMut, bytearray)) else self.mkbytes(both)
        if op == "+" and isinstance(a, (AStr, str)) and isinstance(b, (AStr, str)):
            return self.mkstr(list(self.chars(a)) + list(self.chars(b)))
        if op == "+" and isinstance(a, (list, tuple)) and type(a) is type(b):
            return a + b
        if op == "*" and isinstance(a, (list, tuple)) and self.isint(b):
            return a * self.concrete(b)
        if op == "*" and isinstance(b, (list, tuple)) and self.isint(a):
            return b * self.concrete(a)
        if op == "*" and isinstance(a, (AStr, ABytes)):
            return type(a)(a.items * self.concrete(b))
        if op == "%" and isinstance(a, str):
            return self.message()
        return self.fold(PY[op], a, b)

    def message(self):
        return "<message>"

    def chars(self, v):
        return v.items if isinstance(v, AStr) else tuple(v)

    def mkstr(self, items):
        items = [("01"[i] if isinstance(i, int) else i) for i in items]
        return "".join(items) if all(isinstance(i, str) for i in items) else AStr(items)

    def mkbytes(self, items):
        items = list(items)
        return bytes(items) if all(isinstance(i, int) for i in items) else ABytes(items)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            v = self.compare(type(op), left, right)
            if res is None:
                res = v
            elif self.boolish(res) and self.boolish(v):
                res = self.bitop("&", res, v)
            else:
                res = v if self.truth(res) else res
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if op is ast.Is:
            return a is b if self.abstract(a) or self.abstract(b) else (a is b or (type(a) is type(b) and isinstance(a, (int, str, type)) and a == b))
        if op is ast.IsNot:
            return not self.compare(ast.Is, a, b)
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return self.negate(r) if op is ast.NotIn else r
        if op in (ast.Eq, ast.NotEq):
            r = self.equal(a, b)
            return self.negate(r) if op is ast.NotEq else r
        if self.isint(a) and self.isint(b):
            m = self.m
            if op is ast.Lt:
                return self.boolean(self.lt(a, b))
            if op is ast.Gt:
                return self.boolean(self.lt(b, a))
            if op is ast.LtE:
                return self.boolean(m.NOT(self.lt(b, a)))
            return self.boolean(m.NOT(self.lt(a, b)))
        return self.fold(PYCMP[op], a, b)

    def negate(self, r):
        return self.boolean(self.m.NOT(self.node_of(r))) if isinstance(r, AInt) else not self.truth(r)

    def equal(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, AObj) and x.cls.has("__eq__"):
                r = self.call(self.attr(x, "__eq__"), [y], {})
                if r is not NotImplemented:
                    return r
        if isinstance(a, AObj) or isinstance(b, AObj):
            return a is b
        if self.isint(a) and self.isint(b):
            return self.boolean(self.eq(a, b))
        if isinstance(a, (AStr, ABytes, AMut)) or isinstance(b, (AStr, ABytes, AMut)):
            s = isinstance(a, (AStr, str)) and isinstance(b, (AStr, str))
            if not s and not (isinstance(a, (ABytes, AMut, bytes, bytearray)) and isinstance(b, (ABytes, AMut, bytes, bytearray))):
                return False
            x, y = (self.chars(a), self.chars(b)) if s else (self.items(a), self.items(b))
            if len(x) != len(y):
                return False
            r = True
            for p, q in zip(x, y):
                if s:
                    if isinstance(p, str) and isinstance(q, str):
                        c = p == q
                    else:
                        p, q = [(int(v) if v in "01" else None) if isinstance(v, str) else v for v in (p, q)]
                        c = False if p is None or q is None else self.equal(p, q)
                else:
                    c = self.equal(p, q)
                r = self.bitop("&", r, c)
            return r
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            if len(a) != len(b):
                return False
            r = True
            for p, q in zip(a, b):
                r = self.bitop("&", r, self.boolean(self.node_of(self.equal(p, q))))
            return r
        if self.abstract(a) or self.abstract(b):
            return a is b
        return bool(a == b)

    def contains(self, b, a):
        if isinstance(b, (list, tuple, Iter, ABytes)) or isinstance(b, AObj):
            r = False
            for x in self.items(b):
                r = self.bitop("|", r, self.boolean(self.node_of(self.equal(x, a))))
            return r
        if isinstance(b, dict) and not self.abstract(a):
            return a in b
        return self.fold(operator.contains, b, a)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += list(v.value)
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec else ""
                if v.conversion in (114, 97):
                    out += list("<repr>") if self.abstract(x) else list(repr(x))
                else:
                    out += list(self.chars(self.b_format(x, spec)))
        return self.mkstr(out)

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*[None if x is None else self.concrete(self.eval(x, env)) for x in (e.lower, e.upper, e.step)]) if not any(
            x is not None and self.eval(x, env) is None for x in (e.lower, e.upper, e.step)) else slice(
            *[None if x is None or self.eval(x, env) is None else self.concrete(self.eval(x, env)) for x in (e.lower, e.upper, e.step)])

    def getitem(self, o, k):
        if isinstance(o, AObj):
            return self.call(self.attr(o, "__getitem__"), [k], {})
        if isinstance(o, (list, tuple, AStr, ABytes, Iter)):
            seq = o if isinstance(o, (list, tuple)) else o.items
            if not isinstance(k, slice):
                k = self.concrete(k)
            try:
                r = seq[k]
            except Exception as ex:
                self.throw(ex)
            if isinstance(o, AStr):
                return self.mkstr(r if isinstance(k, slice) else [r])
            if isinstance(o, ABytes):
                return self.mkbytes(r) if isinstance(k, slice) else r
            return AMut(r) if isinstance(o, AMut) and isinstance(k, slice) else r
        if isinstance(o, dict):
            try:
                return o[self.whole(k)]
            except KeyError as ex:
                self.throw(ex)
        return self.fold(operator.getitem, o, k)

    def e_Attribute(self, e, env):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
            f, en = None, env
            while en is not None and f is None:
                f = getattr(en, "func", None)
                en = en.parent
            me = env.get(f.node.args.args[0].arg)
            for b in f.owner.bases:
                if isinstance(b, AClass) and b.has(e.attr):
                    x = b.lookup(e.attr)
                    return x if x.kind == "staticmethod" or e.attr == "__new__" else Bound(x, me)
            if e.attr == "__init__":
                return Builtin(lambda *a, **k: None)
            if e.attr == "__new__":
                return Builtin(lambda c, *a, **k: AObj(c))
            self.throw(AttributeError(e.attr))
        return self.attr(self.eval(e.value, env), e.attr)

    def attr(self, o, n):
        if isinstance(o, AObj):
            if n in o.d:
                return o.d[n]
            if n == "__class__":
                return o.cls
            try:
                v = o.cls.lookup(n)
            except KeyError:
                self.throw(AttributeError("'%s' object has no attribute '%s'" % (o.cls.name, n)))
            return self.bind(v, o, o.cls)
        if isinstance(o, AClass):
            if n == "__name__":
                return o.name
            try:
                v = o.lookup(n)
            except KeyError:
                self.throw(AttributeError("type object '%s' has no attribute '%s'" % (o.name, n)))
            if isinstance(v, AFunc) and v.kind == "classmethod":
                return Bound(v, o)
            return v
        if isinstance(o, PyModule):
            return o.get(n)
        if n == "__class__":
            return {AInt: int, AStr: str, ABytes: bytes, AMut: bytearray}.get(type(o), type(o))
        if isinstance(o, (AInt, AStr, ABytes, Iter, list, tuple, dict)) or isinstance(o, (str, bytes, bytearray, int)):
            f = METHODS.get(n)
            if f is not None:
                r = f(self, o)
                if r is not None:
                    return r
            if isinstance(o, AInt) and not hasattr(int, n) or isinstance(o, AStr) and not hasattr(str, n) or isinstance(o, ABytes) and not hasattr(bytes, n):
                self.throw(AttributeError("no attribute '%s'" % n))
            if not isinstance(o, (list, tuple, dict)) and self.abstract(o):
                return Builtin(lambda *a, **k: self.fold(getattr(self.whole(o), n), *a, **k), n)
            if isinstance(o, dict) and n in ("items", "keys", "values"):
                return Builtin(lambda: [tuple(x) if n == "items" else x for x in getattr(o, n)()])
            if isinstance(o, dict) and n in ("get", "setdefault", "pop"):
                return Builtin(lambda k, *d: getattr(o, n)(self.whole(k), *d))
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + n)
        if o is object and n == "__new__":
            return Builtin(lambda c, *a, **k: AObj(c))
        if o is int and n == "from_bytes":
            return Builtin(self.from_bytes)
        try:
            return getattr(o, n)
        except AttributeError as ex:
            self.throw(ex)

    def bind(self, v, o, cls):
        if isinstance(v, AFunc):
            if v.kind == "staticmethod":
                return v
            if v.kind == "classmethod":
                return Bound(v, cls)
            if v.kind == "property":
                return self.call(v, [o], {})
            return Bound(v, o)
        return v

    def e_Call(self, e, env):
        args, kw = [], {}
        f = self.eval(e.func, env)
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.items(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        if isinstance(f, Opaque) and f.name in ("hasattr", "getattr", "setattr"):
            return self.reflect(f.name, args)
        r = self.call(f, args, kw, e)
        return r

    def reflect(self, name, args):
        o, n = args[0], self.whole(args[1])
        if name == "setattr":
            o.d[n] = args[2]
            return None
        try:
            v = self.attr(o, n)
        except PyExc as e:
            if not isinstance(e.exc, AttributeError):
                raise
            if name == "hasattr":
                return False
            if len(args) > 2:
                return args[2]
            raise
        return True if name == "hasattr" else v

    def comp(self, gens, env, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        for x in self.items(self.eval(g.iter, env)):
            self.assign(g.target, x, env)
            if all(self.truth(self.eval(c, env)) for c in g.ifs):
                self.comp(gens[1:], env, emit)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, Env(env, env.module), lambda en: out.append(self.eval(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        return Iter(self.e_ListComp(e, env))

    def e_SetComp(self, e, env):
        return set(self.whole(x) for x in self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out = {}

        def emit(en):
            out[self.whole(self.eval(e.key, en))] = self.eval(e.value, en)
        self.comp(e.generators, Env(env, env.module), emit)
        return out

    # ------------------------------------------------------------ builtins
    def items(self, v):
        """list of the elements an iteration over v produces"""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Iter):
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, ABytes):
            return list(v.items)
        if isinstance(v, AStr):
            return [self.mkstr([c]) for c in v.items]
        if isinstance(v, AObj):
            if v.cls.has("__iter__"):
                return self.items(self.call(self.attr(v, "__iter__"), [], {}))
            if v.cls.has("__getitem__") and v.cls.has("__len__"):
                n = self.concrete(self.b_len(v))
                return [self.getitem(v, i) for i in range(n)]
            self.throw(TypeError("'%s' object is not iterable" % v.cls.name))
        if isinstance(v, (AInt, AClass, AFunc)):
            self.throw(TypeError("object is not iterable"))
        if isinstance(v, Opaque):
            raise Unsupported("iteration over %s" % v.name)
        try:
            out = []
            for x in v:
                out.append(x)
                if len(out) > 100000:
                    raise Unsupported("endless iteration")
            return out
        except (Unsupported, PyExc):
            raise
        except Exception as ex:
            self.throw(ex)

    def typename(self, v):
        return v.cls.name if isinstance(v, AObj) else {AInt: "int", AStr: "str", ABytes: "bytes"}.get(type(v), type(v)).__name__ if not isinstance(v, (AInt, AStr, ABytes)) else {AInt: "int", AStr: "str", ABytes: "bytes"}[type(v)]

    def b_len(self, v):
        if isinstance(v, AObj):
            return self.call(self.attr(v, "__len__"), [], {})
        if isinstance(v, (AStr, ABytes)):
            return len(v.items)
        if isinstance(v, (AInt, Iter)):
            self.throw(TypeError("object has no len()"))
        return self.fold(len, v) if not isinstance(v, (list, tuple, dict)) else len(v)

    def b_range(self, *a):
        return list(range(*[self.concrete(x) for x in a]))

    def b_enumerate(self, v, start=0):
        return [(i, x) for i, x in enumerate(self.items(v), start)]

    def b_zip(self, *vs):
        return list(zip(*[self.items(v) for v in vs]))

    def b_reversed(self, v):
        return Iter(self.items(v)[::-1])

    def b_iter(self, v):
        return Iter(self.items(v))

    def b_next(self, v, *d):
        if v.pos < len(v.items):
            v.pos += 1
            return v.items[v.pos - 1]
        if d:
            return d[0]
        self.throw(StopIteration())

    def b_map(self, f, *vs):
        return Iter([self.call(f, list(a), {}) for a in zip(*[self.items(v) for v in vs])])

    def b_filter(self, f, v):
        return Iter([x for x in self.items(v) if self.truth(x if f is None else self.call(f, [x], {}))])

    def b_sum(self, v, start=0):
        for x in self.items(v):
            start = self.binop("+", start, x)
        return start

    def b_any(self, v):
        r = False
        for x in self.items(v):
            r = self.bitop("|", r, self.boolean(self.node_of(x)))
        return r

    def b_all(self, v):
        r = True
        for x in self.items(v):
            r = self.bitop("&", r, self.boolean(self.node_of(x)))
        return r

    def extreme(self, a, key, op):
        vs = self.items(a[0]) if len(a) == 1 else list(a)
        best = vs[0]
        for v in vs[1:]:
            k, b = (v, best) if key is None else (self.call(key, [v], {}), self.call(key, [best], {}))
            c = self.compare(op, k, b)
            best = self.join(self.node_of(c), v, best) if isinstance(c, AInt) else v if c else best
        return best

    def b_max(self, *a, key=None):
        return self.extreme(a, key, ast.Gt)

    def b_min(self, *a, key=None):
        return self.extreme(a, key, ast.Lt)

    def b_abs(self, v):
        return self.join(v.sign, self.add(0, v, True), v) if isinstance(v, AInt) else self.fold(abs, v)

    def b_divmod(self, a, b):
        return (self.binop("//", a, b), self.binop("%", a, b))

    def b_sorted(self, v, key=None, reverse=False):
        return self.fold(sorted, [self.whole(x) for x in self.items(v)], reverse=reverse) if key is None else self._unsupported("sorted(key)")

    def _unsupported(self, w):
        raise Unsupported(w)

    def b_repr(self, v):
        return "<repr>" if self.abstract(v) else repr(v)

    def b_id(self, v):
        return id(v)

    def b_hash(self, v):
        raise Unsupported("hash")

    def b_format(self, v, spec=""):
        if isinstance(v, AObj) and v.cls.has("__str__"):
            v = self.call(self.attr(v, "__str__"), [], {})
        if isinstance(v, AInt):
            mt = re.fullmatch(r"0?>?(\d*)b", self.whole(spec))
            if mt:
                if v.sign != 0:
                    raise Split(v.sign)
                n = int(mt.group(1) or 0)
                # without enough padding the number of digits depends on the value
                while len(v.bits) > max(n, 1):
                    if v.bits[-1] == 1:
                        break
                    raise Split(v.bits[-1])
                bits, _ = self.parts(v, max(n, 1))
                return self.mkstr(bits[::-1] if False else [self.num([b]) for b in reversed(bits)])
            if self.in_raise:
                return "?"
            return self.fold(format, v, spec)
        if isinstance(v, (AStr,)):
            return v
        if self.abstract(v):
            return "<%s>" % self.typename(v)
        return self.fold(format, v, spec)

    def b_isinstance(self, v, c):
        if isinstance(c, tuple):
            return any(self.b_isinstance(v, x) for x in c)
        if isinstance(c, AClass):
            return isinstance(v, AObj) and v.cls.subclass_of(c)
        if isinstance(c, Opaque):
            return False
        if c is object:
            return True
        if isinstance(v, AInt):
            return c is int and True or (c is bool and v.is_bool) or (isinstance(c, type) and c is not bool and issubclass(int, c))
        if isinstance(v, AStr):
            return issubclass(str, c)
        if isinstance(v, ABytes):
            return issubclass(bytes, c)
        if isinstance(v, AMut):
            return issubclass(bytearray, c)
        if isinstance(v, Iter):
            return c in (collections.abc.Iterable, collections.abc.Iterator)
        if isinstance(v, AObj):
            if c is collections.abc.Iterable:
                return v.cls.has("__iter__")
            if c is collections.abc.Sized:
                return v.cls.has("__len__")
            return False
        if isinstance(v, (AClass,)):
            return c is type
        return isinstance(v, c)

    def b_issubclass(self, a, c):
        if isinstance(a, AClass):
            return a.subclass_of(c)
        return self.fold(issubclass, a, c)

    def from_bytes(self, v, byteorder="big", *, signed=False):
        its = self.items(v)
        if not all(self.isint(x) for x in its):
            self.throw(TypeError("cannot convert to bytes"))
        if self.whole(byteorder) not in ("big", "little"):
            self.throw(ValueError("byteorder must be either 'little' or 'big'"))
        if byteorder == "big":
            its = its[::-1]
        bits = [b for x in its for b in self.parts(x, 8)[0][:8]]
        return self.num(bits, bits[-1] if signed and bits else 0)

    def to_bytes(self, v, length=1, byteorder="big", *, signed=False):
        n = self.concrete(length)
        if n < 0:
            self.throw(ValueError("length argument must be non-negative"))
        if self.whole(byteorder) not in ("big", "little"):
            self.throw(ValueError("byteorder must be either 'little' or 'big'"))
        b, s = self.parts(v, 8 * n)
        over = s if not signed else 0
        for x in b[8 * n:] if not signed else [self.m.XOR(x, s) for x in b[max(0, 8 * n - 1):]]:
            over = self.m.OR(over, x)
        if over == 1 or over not in (0, 1) and self.truth(self.boolean(over)):
            self.throw(OverflowError("int too big to convert"))
        its = [self.num(b[8 * i:8 * i + 8]) for i in range(n)]
        return self.mkbytes(its if byteorder == "little" else its[::-1])

    def bit_length(self, v):
        if v.sign != 0:
            raise Split(v.sign)
        for i in range(len(v.bits) - 1, -1, -1):
            if v.bits[i] == 1:
                return i + 1
            if v.bits[i] != 0:
                raise Split(v.bits[i])
        return 0


def REPO_DIR():
    from . import check
    return check.REPO


def simple(body):
    """only assignments to names (no control flow, no calls that could have effects)"""
    for st in body:
        if isinstance(st, ast.Assign):
            if not all(isinstance(t, ast.Name) for t in st.targets):
                return False
        elif isinstance(st, ast.AugAssign):
            if not isinstance(st.target, ast.Name):
                return False
        elif isinstance(st, ast.Pass):
            continue
        elif isinstance(st, ast.If):
            if not simple(st.body) or not simple(st.orelse):
                return False
        else:
            return False
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(st)):
            return False
    return True


def is_generator(fn):
    work = list(fn.body)
    while work:
        n = work.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            work.extend(ast.iter_child_nodes(n))
    return False


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Div: "/", ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<",
       ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
NAMES = {"+": "add", "-": "sub", "*": "mul", "//": "floordiv", "/": "truediv", "%": "mod", "**": "pow", "<<": "lshift", ">>": "rshift",
         "&": "and", "|": "or", "^": "xor", "@": "matmul"}
PY = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "/": operator.truediv, "%": operator.mod,
      "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "@": operator.matmul}
PYCMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def _int(it, v=0, base=10):
    if isinstance(v, AInt):
        return it.num(v.bits, v.sign)
    if isinstance(v, AObj):
        for n in ("__int__", "__index__"):
            if v.cls.has(n):
                return it.call(it.attr(v, n), [], {})
        it.throw(TypeError("int() argument must be a number, not '%s'" % v.cls.name))
    if isinstance(v, AStr):
        cs = list(v.items)
        while cs and isinstance(cs[0], str) and cs[0].isspace():
            cs.pop(0)
        if cs and cs[0] == "+":
            cs.pop(0)
        elif cs[:2] == ["0", "b"]:
            cs = cs[2:]
        if base == 2 and all(isinstance(c, AInt) or c in "01" for c in cs) and cs:
            return it.num([it.parts(c if isinstance(c, AInt) else int(c), 1)[0][0] for c in reversed(cs)])
        return it.fold(int, v, base)
    if isinstance(v, str):
        return it.fold(int, v, base)
    return it.fold(int, v)


def _bool(it, v=False):
    return it.boolean(it.node_of(v)) if isinstance(v, AInt) else it.truth(v)


def _str(it, v=""):
    if isinstance(v, AObj) and v.cls.has("__str__"):
        return it.call(it.attr(v, "__str__"), [], {})
    if isinstance(v, AStr):
        return v
    if isinstance(v, AInt) and len(v.bits) <= 1 and v.sign == 0:
        return AStr([v])
    if it.in_raise and isinstance(v, AInt):
        return "?"
    return "<%s>" % it.typename(v) if it.abstract(v) and not isinstance(v, AInt) else it.fold(str, v)


def _bytes(it, v=b"", *a):
    if isinstance(v, AObj) and v.cls.has("__bytes__"):
        return it.call(it.attr(v, "__bytes__"), [], {})
    if isinstance(v, ABytes):
        return v
    if isinstance(v, (list, tuple, Iter)):
        out = it.items(v)
        for x in out:
            if it.isint(x) and it.truth(it.boolean(it.m.OR(it.lt(x, 0), it.lt(255, x)))):
                it.throw(ValueError("bytes must be in range(0, 256)"))
        return it.mkbytes(out)
    return it.fold(bytes, v, *a)


def _bytearray(it, v=b"", *a):
    if it.isint(v):
        return AMut([0] * it.concrete(v))
    return AMut(it.items(_bytes(it, v, *a)))


def _list(it, v=()):
    return it.items(v)


def _tuple(it, v=()):
    return tuple(it.items(v))


def _reduce(it, f, v, *init):
    its = it.items(v)
    if init:
        acc = init[0]
    else:
        acc, its = its[0], its[1:]
    for x in its:
        acc = it.call(f, [acc, x], {})
    return acc


def _type(it, v):
    if isinstance(v, AObj):
        return v.cls
    return {AInt: int, AStr: str, ABytes: bytes, AMut: bytearray}.get(type(v), type(v))


def _index(it, v):
    if isinstance(v, AInt):
        return v
    if isinstance(v, AObj):
        if v.cls.has("__index__"):
            return it.call(it.attr(v, "__index__"), [], {})
        it.throw(TypeError("'%s' object cannot be interpreted as an integer" % v.cls.name))
    if isinstance(v, (AStr, ABytes)):
        it.throw(TypeError("object cannot be interpreted as an integer"))
    return it.fold(operator.index, v)


def _resub(it, pat, rep, s, *a, **k):
    if isinstance(s, AStr):
        out, keep = [], s.items
        if rep == "" and not any(re.search(pat, c) for c in "01"):
            for c in keep:
                if isinstance(c, AInt) or not re.fullmatch(pat, c):
                    out.append(c)
            return it.mkstr(out)
    return it.fold(re.sub, pat, rep, s, *a, **k)


def _dict(it, *a, **k):
    d = dict(*[x if isinstance(x, dict) else [(it.whole(p), q) for p, q in (it.items(y) for y in it.items(x))] for x in a])
    d.update(k)
    return d


def _chain(it, *vs):
    return Iter([x for v in vs for x in it.items(v)])


def _float(it, v=0.0):
    return it.fold(float, v)


CALLS = {int: _int, bool: _bool, str: _str, bytes: _bytes, bytearray: _bytearray, list: _list, tuple: _tuple, functools.reduce: _reduce, type: _type,
         operator.index: _index, re.sub: _resub, dict: _dict, itertools.chain: _chain, float: _float,
         set: lambda it, v=(): set(it.whole(x) for x in it.items(v)), memoryview: lambda it, v: v,
         operator.or_: lambda it, a, b: it.binop("|", a, b), operator.and_: lambda it, a, b: it.binop("&", a, b),
         operator.xor: lambda it, a, b: it.binop("^", a, b), operator.add: lambda it, a, b: it.binop("+", a, b),
         operator.mul: lambda it, a, b: it.binop("*", a, b), operator.getitem: lambda it, a, b: it.getitem(a, b)}


def _m_join(it, o):
    if isinstance(o, (AStr, str)):
        def join(v):
            out = []
            for i, x in enumerate(it.items(v)):
                if i:
                    out += list(it.chars(o))
                if not isinstance(x, (str, AStr)):
                    it.throw(TypeError("sequence item: expected str instance"))
                out += list(it.chars(x))
            return it.mkstr(out)
        return Builtin(join)
    if isinstance(o, (bytes, ABytes)):
        return Builtin(lambda v: it.mkbytes([b for i, x in enumerate(it.items(v)) for b in (it.items(o) if i else []) + it.items(x)]))


def _m_format(it, o):
    if isinstance(o, str):
        def fmt(*a, **k):
            mt = re.fullmatch(r"\{(?:0)?:([^{}]*)(\{(?:1)?\})?([^{}]*)\}", o)
            if mt and a and (isinstance(a[0], AInt) or isinstance(a[0], int)):
                spec = mt.group(1) + (str(it.concrete(a[1])) if mt.group(2) else "") + mt.group(3)
                return it.b_format(a[0], spec)
            if any(it.abstract(x) for x in list(a) + list(k.values())):
                return it.message() if not re.fullmatch(r"(\{\})+", o) else it.mkstr([c for x in a for c in it.chars(it.b_format(x))])
            return it.fold(o.format, *a, **k)
        return Builtin(fmt)


def _m_list(name):
    def get(it, o):
        if isinstance(o, list):
            if name == "extend":
                return Builtin(lambda v: o.extend(it.items(v)))
            if name == "append":
                return Builtin(lambda v: o.append(v))
            if name == "insert":
                return Builtin(lambda i, v: o.insert(it.concrete(i), v))
            if name == "reverse":
                return Builtin(lambda: o.reverse())
            if name == "pop":
                return Builtin(lambda *a: it.fold(o.pop, *[it.concrete(x) for x in a]) if not it.abstract(o) else o.pop(*[it.concrete(x) for x in a]))
    return get


def _m_str_clean(name):
    def get(it, o):
        if isinstance(o, AStr):
            if name == "replace":
                def rep(a, b):
                    if len(a) == 1 and a not in "01":
                        return it.mkstr([y for c in o.items for y in (list(b) if c == a else [c])])
                    return it.fold(it.whole(o).replace, a, b)
                return Builtin(rep)
            if name == "startswith":
                def st(p):
                    p = it.whole(p)
                    if len(p) > len(o.items):
                        return False
                    return it.equal(it.mkstr(o.items[:len(p)]), p)
                return Builtin(st)
            if name in ("strip", "lstrip"):
                def strip(*a):
                    its = list(o.items)
                    while its and isinstance(its[0], str) and its[0] in (a[0] if a else " \t\n\r"):
                        its.pop(0)
                    while name == "strip" and its and isinstance(its[-1], str) and its[-1] in (a[0] if a else " \t\n\r"):
                        its.pop()
                    return it.mkstr(its)
                return Builtin(strip)
            if name == "split":
                def split(*a):
                    if a and not (len(a[0]) == 1 and a[0] not in "01"):
                        return it.fold(it.whole(o).split, *a)
                    out, cur = [], []
                    for c in o.items:
                        if isinstance(c, str) and (c == a[0] if a else c.isspace()):
                            out.append(cur)
                            cur = []
                        else:
                            cur.append(c)
                    out.append(cur)
                    return [it.mkstr(x) for x in out if x or a]
                return Builtin(split)
    return get


METHODS = {
    "bit_length": lambda it, o: Builtin(lambda: it.bit_length(o)) if isinstance(o, AInt) else None,
    "to_bytes": lambda it, o: Builtin(lambda *a, **k: it.to_bytes(o, *a, **k)) if isinstance(o, (AInt, int)) else None,
    "from_bytes": lambda it, o: None,
    "bit_count": lambda it, o: Builtin(lambda: it.b_sum([it.num([b]) for b in o.bits])) if isinstance(o, AInt) and o.sign == 0 else None,
    "join": _m_join, "format": _m_format,
    "append": _m_list("append"), "extend": _m_list("extend"), "insert": _m_list("insert"), "reverse": _m_list("reverse"), "pop": _m_list("pop"),
    "replace": _m_str_clean("replace"), "startswith": _m_str_clean("startswith"), "strip": _m_str_clean("strip"), "lstrip": _m_str_clean("lstrip"),
    "split": _m_str_clean("split"),
    "copy": lambda it, o: Builtin(lambda: list(o)) if isinstance(o, list) else None,
    "count": lambda it, o: Builtin(lambda x: it.b_sum([it.equal(i, x) for i in it.items(o)])) if isinstance(o, (list, tuple, AStr)) else None,
}


def explore(fn, foreign=None, limit=5000, fuel=400000):
    """run fn(interp) under every needed assignment of tokens; returns (partitions, set of functions interpreted)"""
    work, n, funcs = [{}], 0, set()
    while work:
        a = work.pop()
        n += 1
        if n > limit:
            raise Unsupported("too many partitions")
        it = Interp(a, foreign, fuel)
        try:
            fn(it)
        except Split as s:
            v = it.names[it.m.top(s.node) if hasattr(it.m, "top") else it.m.var_of[s.node]]
            work.append({**a, v: 0})
            work.append({**a, v: 1})
        funcs |= it.functions
    return n, funcs
