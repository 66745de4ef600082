"""Loads geoana's current source from /repo with numpy & friends replaced by symbolic
shims.  The source text is compiled as it is; the only rewriting is that float/complex
literals become exact symbolic constants."""
import ast
import builtins
import os
import types
from . import expr as E
from . import symnp as S

REPO = os.environ.get('GEOANA_REPO', '/repo')


class _Lit(ast.NodeTransformer):
    def visit_Constant(self, node):
        if isinstance(node.value, (float, complex)) and not isinstance(node.value, bool):
            return ast.copy_location(
                ast.Call(func=ast.Name(id='__symlit__', ctx=ast.Load()), args=[node], keywords=[]), node)
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_JoinedStr(self, node):
        return node


def symlit(v):
    """A source literal.  A decimal rounding or truncation of q*pi with 12 or more digits is read as q*pi."""
    if isinstance(v, float) and v == v and abs(v) < 1e12:
        dig = len(repr(v).lstrip('-').split('e')[0].replace('.', '').strip('0'))
        if dig >= 12:
            for den in (360, 64):
                q = E.Fraction(v / E.math.pi).limit_denominator(den)
                if q and abs(float(q) * E.math.pi - v) <= abs(v) * 10.0 ** (1 - dig):
                    return E.mul2(E.const(q), E.PI())
    return E.const(v)


class StubModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return StubModule(self.__name__ + '.' + name)

    def __call__(self, *a, **k):
        raise E.EngineGap(f'call into {self.__name__}')


class FilterModule(types.ModuleType):
    """digital linear filters: every filter function returns the harness's symbolic filter."""
    def __init__(self, world, name):
        super().__init__(name)
        self._world = world

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        w = self._world
        if self.__name__.count('.') == 0:
            m = FilterModule(w, self.__name__ + '.' + name)
            setattr(self, name, m)
            return m

        def f(*a, **k):
            if w.filter is None:
                raise E.EngineGap(f'call into {self.__name__}.{name}')
            return w.filter
        return f


class UtmModule(StubModule):
    """to_latlon is the harness's stand-in map projection."""
    def __init__(self, world, name):
        super().__init__(name)
        self._world = world

    def __getattr__(self, name):
        w = self.__dict__.get('_world')
        if name == 'to_latlon' and w is not None and w.utm is not None:
            return w.utm
        return super().__getattr__(name)


class SymWorld:
    """One symbolic instance of the geoana package."""

    def __init__(self, extra_modules=None, native=False):
        self.mods = {}
        self.filter = None
        self.utm = None
        self.libdlf = None
        self.native = native
        self.extra = dict(extra_modules or {})
        np_ = S.make_numpy()
        special, consts, transf = S.make_special(), S.make_constants(), S.make_transform()
        scipy = types.ModuleType('scipy')
        scipy.special, scipy.constants = special, consts
        spatial = types.ModuleType('scipy.spatial')
        spatial.transform = transf
        scipy.spatial = spatial
        math = S.make_math()
        self.np = np_
        self.shims = {'numpy': np_, 'numpy.linalg': S.LINALG, 'scipy': scipy, 'scipy.special': special,
                      'scipy.constants': consts, 'scipy.spatial': spatial, 'scipy.spatial.transform': transf,
                      'math': math, 'cmath': math}
        self.shims['utm'] = UtmModule(self, 'utm')
        for k, v in self.extra.items():
            self.shims[k] = v
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['float'] = S.SFloat
        b['complex'] = S.SComplex
        b['int'] = S.SInt
        b['__symlit__'] = symlit
        self.builtins = b
        self.files = set()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'geoana':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError as e:
                            if e.name != name + '.' + f:
                                raise
                return m
            return self.mods['geoana']
        if name in self.shims:
            if fromlist:
                return self.shims[name]
            return self.shims[top] if top in self.shims else self.shims[name]
        if top == 'libdlf':
            if self.libdlf is None:
                self.libdlf = FilterModule(self, 'libdlf')
            m = self.libdlf
            if fromlist:
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
            return m
        if top in ('matplotlib', 'utm', 'discretize'):
            return StubModule(top)
        if top == 'numba':
            raise ImportError('numba is outside the symbolic world')
        if name.startswith('numpy._core'):
            return builtins.__import__(name, globals, locals, fromlist, level)     # numpy's own lazy imports
        if top in ('numpy', 'scipy'):
            raise E.EngineGap(f'import of {name}')
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            path, ispkg = os.path.join(base, '__init__.py'), True
        else:
            path, ispkg = base + '.py', False
        if self.native and name == 'geoana.kernels._extensions.potential_field_prism' and os.path.exists(base + '.pyx'):
            from . import ir
            m = self.mods[name] = ir.prism_module(types)
            self.files.add(base + '.pyx')
            setattr(self.mods[parent], name.rpartition('.')[2], m)
            return m
        if self.native and name == 'geoana.kernels._extensions.rTE' and os.path.exists(base + '.pyx'):
            from . import ir
            m = self.mods[name] = ir.rte_module(self, types)
            setattr(self.mods[parent], name.rpartition('.')[2], m)
            return m
        if not os.path.exists(path):
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [base]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        self.files.add(path)
        tree = ast.fix_missing_locations(_Lit().visit(ast.parse(src, path)))
        code = compile(tree, path, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m
