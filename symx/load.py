"""
Loads the real metadetect sources (read afresh from /repo) into the symbolic
world: the module code is executed unchanged except that float literals and
divisions are made exact, with numpy, numba and the external packages replaced.
"""
import ast
import builtins
import functools
import importlib
import math
import os
import sys
import types

from . import core as C
from . import nps
from . import kern
from .core import ENG

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = [os.path.join(HERE, 'stubs', 'common'),
         os.path.join(HERE, 'stubs', 'sym')]

_code_cache = {}
_nodes = {}


class _Tr(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(
                ast.Name('__fl__', ast.Load()), [n], []), n)
        return n

    def visit_JoinedStr(self, n):
        # only the interpolated values are transformed
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(
                ast.Name('__div__', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod) and isinstance(
                n.left, (ast.JoinedStr, ast.Constant)):
            return ast.copy_location(ast.Call(
                ast.Name('__fmt__', ast.Load()), [n.left, n.right], []), n)
        return n


def _div(a, b):
    if C.is_pyint(a) and C.is_pyint(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return C.SReal(C.Fraction(int(a), int(b)))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return C.real(a) / b
    return a / b


def _fmt(a, b):
    if not isinstance(a, str):
        return a % b
    try:
        def cv(x):
            if C.is_symbolic(x):
                return _Anyfmt()
            if isinstance(x, C.SReal):
                return x.const()
            return x
        return a % (tuple(cv(x) for x in b) if isinstance(b, tuple)
                    else cv(b))
    except Exception:
        return a


class _Anyfmt:
    def __str__(self):
        return '<sym>'
    __repr__ = __str__

    def __int__(self):
        return 0

    def __index__(self):
        return 0

    def __float__(self):
        return 0.0


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, C.SInt, C.SBV))

    def __subclasscheck__(cls, k):
        return issubclass(k, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, C.Sym):
            if isinstance(x, C.SBool):
                return x.as_int()
            if isinstance(x, C.SReal):
                return C.op_trunc_int(x)
            return x
        if isinstance(x, nps.SymArray):
            return cls(x.item())
        return int(x, *a)


class sint(metaclass=_IntMeta):
    _symx_dtype = 'i8'
    from_bytes = int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, C.SReal))

    def __subclasscheck__(cls, k):
        return issubclass(k, float)

    def __call__(cls, x=0.0):
        if isinstance(x, C.Sym):
            return C.real(x)
        if isinstance(x, nps.SymArray):
            return cls(x.item())
        return C.rconst(float(x))


class sfloat(metaclass=_FloatMeta):
    _symx_dtype = 'f8'


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, C.SBool))

    def __call__(cls, x=False):
        if isinstance(x, C.Sym):
            return C.mkbool(C.bterm(x))
        if isinstance(x, nps.SymArray) and x.size == 1:
            return cls(x.item())
        return bool(x)


class sbool(metaclass=_BoolMeta):
    _symx_dtype = '?'


def _mm(native, op):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if 'key' not in k and xs and all(C.is_num(x) for x in xs) and any(
                isinstance(x, C.Sym) for x in xs):
            out = xs[0]
            for x in xs[1:]:
                # python: min keeps the first unless a later one is smaller
                out = C.ite(op(x, out), x, out)
            return out
        return native(xs, **k) if xs or len(a) == 1 else native(*a, **k)
    return f


def _round(x, nd=None):
    if isinstance(x, C.Sym) and nd is None:
        return C.op_rint_int(x)
    return round(x) if nd is None else round(x, nd)


def _quiet(*a, **k):
    pass


class _Logger:
    def __getattr__(self, n):
        return _quiet

    def isEnabledFor(self, *a):
        return False


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def _mkmath():
    m = _mod('math')
    for n in dir(math):
        if not n.startswith('_'):
            setattr(m, n, getattr(math, n))

    def w(sym, nat):
        def f(x):
            if isinstance(x, C.Sym):
                return sym(x)
            return nat(x)
        return f
    m.ceil = w(C.op_ceil_int, math.ceil)
    m.floor = w(C.op_floor_int, math.floor)
    m.trunc = w(C.op_trunc_int, math.trunc)
    m.sqrt = w(C.op_sqrt, math.sqrt)
    m.exp = w(C.op_exp, math.exp)
    m.isnan = w(C.op_isnan, math.isnan)
    m.isfinite = w(C.op_isfinite, math.isfinite)
    m.isinf = w(C.op_isinf, math.isinf)
    m.fabs = w(C.op_abs, math.fabs)

    def w2(sym, nat):
        def f(*a):
            if any(isinstance(x, C.Sym) for x in a):
                return sym(*a)
            return nat(*a)
        return f
    m.hypot = w2(lambda *a: C.op_sqrt(functools.reduce(
        C.op_add, [C.op_mul(x, x) for x in a])), math.hypot)
    m.pow = w2(lambda x, y: x ** y, math.pow)

    def fsum(it):
        v = list(it)
        if any(isinstance(x, C.Sym) for x in v):
            return functools.reduce(C.op_add, v)
        return math.fsum(v)
    m.fsum = fsum
    for n in ('log', 'log10', 'sin', 'cos', 'tan', 'atan'):
        setattr(m, n, w(lambda x, n=n: C.op_uf(n, x), getattr(math, n)))
    return m


class World:
    """one instance per explored path"""

    def __init__(self):
        self.mods = {}
        self.b = dict(vars(builtins))
        self.b.update({
            '__import__': self.imp, 'int': sint, 'float': sfloat,
            'bool': sbool, 'min': _mm(min, C.op_lt), 'max': _mm(max, C.op_gt),
            'round': _round, 'print': _quiet, '__fl__': C.rconst,
            '__div__': _div, '__fmt__': _fmt,
        })
        logm = _mod('logging', getLogger=lambda *a: _Logger(),
                    Logger=_Logger, DEBUG=10, INFO=20, WARNING=30, ERROR=40,
                    NullHandler=_Logger, basicConfig=_quiet)
        for n in ('debug', 'info', 'warning', 'warn', 'error', 'exception'):
            setattr(logm, n, _quiet)
        self.mods['logging'] = logm
        self.mods['numpy'] = nps
        self.mods['math'] = _mkmath()
        self.mods['numba'] = _mod(
            'numba', njit=self.njit, jit=self.njit, prange=range,
            vectorize=self.njit)
        self.mods['warnings'] = _mod(
            'warnings', warn=_quiet, filterwarnings=_quiet,
            simplefilter=_quiet)
        md = _mod('metadetect', __path__=[os.path.join(REPO, 'metadetect')],
                  __package__='metadetect')
        md.__version__ = 'sym'
        self.mods['metadetect'] = md

    def njit(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            f = a[0]
            node = _nodes.get((f.__code__.co_filename,
                               f.__code__.co_firstlineno, f.__name__))
            return kern.Kernel(f, node, f.__globals__)
        return lambda f: self.njit(f)

    # ---- import machinery
    def find(self, name):
        parts = name.split('.')
        if parts[0] == 'metadetect':
            roots = [REPO]
        else:
            roots = STUBS
        for r in roots:
            p = os.path.join(r, *parts)
            if os.path.isdir(p):
                ini = os.path.join(p, '__init__.py')
                return (ini if os.path.exists(ini) else None), True
            if os.path.exists(p + '.py'):
                return p + '.py', False
        return None

    def stubbed(self, top):
        return top == 'metadetect' or any(
            os.path.exists(os.path.join(r, top)) or
            os.path.exists(os.path.join(r, top + '.py')) for r in STUBS)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        top = name.split('.')[0]
        if not self.stubbed(top):
            m = importlib.import_module(name)
            self.mods[name] = m
            return m
        f = self.find(name)
        if f is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        path, ispkg = f
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.b
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path) if path else '']
        self.mods[name] = m
        if path:
            m.__file__ = path
            try:
                exec(compile_file(path), m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if '.' in name:
            par, _, ch = name.rpartition('.')
            setattr(self.mods[par], ch, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals.get('__package__') or globals['__name__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + '.' + name if name else pkg
        else:
            full = name
        top = full.split('.')[0]
        if top not in ('numpy', 'logging', 'math', 'numba', 'warnings') and (
                not self.stubbed(top)):
            return builtins.__import__(name, globals, locals, fromlist, level)
        if full.startswith('numpy.'):
            sub = getattr(nps, full.split('.')[1])
            return sub if fromlist else nps
        m = self.load(full)
        if fromlist:
            for n in fromlist:
                if n != '*' and not hasattr(m, n):
                    try:
                        self.load(full + '.' + n)
                    except ModuleNotFoundError:
                        raise ImportError(
                            'cannot import name %r from %r' % (n, full))
            return m
        return self.load(top)


TOOL = 4
_mon = {'on': False}


def _monitor(code):
    mon = sys.monitoring
    if not _mon['on']:
        mon.use_tool_id(TOOL, 'symx')

        def cb(code, off):
            ENG.touched.add((code.co_filename.split('/metadetect/', 1)[-1],
                             code.co_qualname))
            return mon.DISABLE
        mon.register_callback(TOOL, mon.events.PY_START, cb)
        _mon['on'] = True
    mon.set_local_events(TOOL, code, mon.events.PY_START)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _monitor(c)


def compile_file(path):
    if path in _code_cache:
        return _code_cache[path]
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src, path)
    if path.startswith(REPO):
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                line = n.decorator_list[0].lineno if n.decorator_list \
                    else n.lineno
                _nodes[(path, line, n.name)] = ast.parse(
                    ast.unparse(n)).body[0]
    tree = ast.fix_missing_locations(_Tr().visit(tree))
    code = compile(tree, path, 'exec')
    if path.startswith(REPO + '/metadetect'):
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                _monitor(c)
    _code_cache[path] = code
    return code
