"""Load the current qopt source for symbolic execution.

Every module is compiled from the text found in /repo/qopt on this run and
executed with an import hook: numpy, scipy, time, random, multiprocessing and
the plotting / filter function / annealing libraries are replaced by the
models of this package, everything inside qopt is the real code.
"""
import builtins
import copy
import importlib
import os
import sys
import types
from unittest import mock

import numpy as np

from . import npshim, scishim
from .scalar import S, Unsupported

REPO = os.environ.get("QOPT_REPO", "/repo")


_CODE = {}


class Tree:
    """One symbolic instance of the qopt package."""

    def __init__(self, stubs=None):
        self.mods = {}
        self.stubs = dict(stubs or {})
        self.covered = set()
        self.pkg = _Package(self)
        b = dict(builtins.__dict__)
        b["type"] = npshim.shim_type
        b["float"] = npshim.symfloat
        b["complex"] = npshim.symcomplex
        b["__import__"] = self.imp
        b["print"] = lambda *a, **k: None
        b["open"] = self._open
        self.builtins = b

    def _open(self, *a, **k):
        return open(*a, **k)

    # -- import hook
    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or "qopt"
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == "qopt":
            if name == "qopt":
                if fromlist:
                    for f in fromlist:
                        self.pkg_attr(f)
                return self.pkg
            m = self.load(name)
            return m if fromlist else self.pkg
        stub = self.stub(name)
        if stub is not None:
            if fromlist:
                return self.stub(name, leaf=True)
            return self.stub(top, leaf=True)
        return importlib.__import__(name, globals, locals, fromlist, 0)

    def stub(self, name, leaf=False):
        top = name.split(".")[0]
        root = self.stubs.get(top)
        if root is None:
            root = default_stub(top)
            if root is None:
                return None
            self.stubs[top] = root
        if not leaf:
            return root
        m = root
        for part in name.split(".")[1:]:
            m = getattr(m, part)
        return m

    def pkg_attr(self, name):
        path = os.path.join(REPO, "qopt", name + ".py")
        if os.path.exists(path):
            m = self.load("qopt." + name)
            setattr(self.pkg, name, m)
            return m
        init = self.load_init()
        return getattr(init, name)

    def load_init(self):
        m = self.mods.get("qopt")
        if m is None:
            m = self._exec("qopt", os.path.join(REPO, "qopt", "__init__.py"))
        for k, v in m.__dict__.items():
            if not k.startswith("__"):
                setattr(self.pkg, k, v)
        return m

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(REPO, *name.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(REPO, *name.split("."), "__init__.py")
        m = self._exec(name, path)
        setattr(self.pkg, name.split(".")[-1], m)
        return m

    def _exec(self, name, path):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = "qopt"
        self.mods[name] = m
        m.__dict__["__builtins__"] = self.builtins
        with open(path) as f:
            src = f.read()
        code = _CODE.get((path, src))
        if code is None:
            code = _CODE[path, src] = compile(src, path, "exec")
        exec(code, m.__dict__)
        return m

    def q(self, name):
        return self.load("qopt." + name)


class _Package(types.ModuleType):
    def __init__(self, tree):
        super().__init__("qopt")
        self.__path__ = []
        self._tree = tree

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self._tree.pkg_attr(k)


class StubModule(types.ModuleType):
    """Library outside of the encoding: every attribute is a stub that may
    not be called with a meaningful result."""

    def __init__(self, name):
        super().__init__(name)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = mock.MagicMock(name=self.__name__ + "." + k)
        setattr(self, k, v)
        return v


class ColorMap:
    """A color map of matplotlib; its arguments are constants."""

    def __init__(self, name=None, lut=None):
        import matplotlib
        self.real = matplotlib.colormaps[name]

    def __call__(self, x, *a, **k):
        x = np.asarray(x)
        return self.real(np.array([float(v) for v in x.reshape(-1)]
                                  ).reshape(x.shape), *a, **k)


class ColorMaps:
    get_cmap = ColorMap

    def __getitem__(self, name):
        return ColorMap(name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return ColorMap(name)


class PoolStub:
    """Process pool: the function is applied in this process.

    Each task sees a deep copy of its argument, as pickling provides."""

    def __init__(self, processes=None, *a, **k):
        self.processes = processes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, xs, chunksize=None):
        return [f(x) for x in xs]

    def imap(self, f, xs, chunksize=None):
        return iter([f(x) for x in xs])

    def starmap(self, f, xs, chunksize=None):
        return [f(*x) for x in xs]

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None):
        r = f(*args, **kwds)
        return types.SimpleNamespace(get=lambda timeout=None: r)

    map_async = None

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass


class QobjStub:
    def __init__(self, *a, **k):
        pass


class AnnealerStub:
    """simanneal.Annealer without its loop (driven by the harness)."""
    Tmax = 25000.0
    Tmin = 2.5
    steps = 50000
    updates = 100

    def __init__(self, initial_state=None, load_state=None):
        self.state = copy.deepcopy(initial_state)


def parse_hamiltonian(H, n_dt, H_str):
    """filter_functions.pulse_sequence._parse_hamiltonian: operators sorted
    by their identifiers."""
    H = [list(h) for h in H]
    for i, h in enumerate(H):
        if len(h) < 3 or h[2] is None:
            h[2:] = [("A_%d" if H_str == "H_c" else "B_%d") % i]
        if len(h[1]) != n_dt:
            raise ValueError("Expected all coefficients in %s to be of "
                             "len(dt) = %d!" % (H_str, n_dt))
    ids = [h[2] for h in H]
    if len(set(ids)) != len(ids):
        raise ValueError("%s identifiers should be unique" % H_str)
    idx = sorted(range(len(H)), key=lambda i: ids[i])
    A = npshim.SHIM.array
    opers = [getattr(h[0], "full", lambda: getattr(h[0], "data", h[0]))()
             if hasattr(h[0], "dexp") else h[0] for h in H]
    return (A([A(opers[i]) for i in idx]), [ids[i] for i in idx],
            A([A(list(H[i][1])) for i in idx]))


class PulseSequenceStub:
    """filter_functions.PulseSequence without any computation."""

    def __init__(self, H_c, H_n, dt, basis=None):
        self._data, self._frequency_data, self._intermediates = {}, {}, {}
        self.dt = npshim.SHIM.asarray(dt)
        n = len(self.dt)
        self.c_opers, self.c_oper_identifiers, self.c_coeffs = \
            parse_hamiltonian(H_c, n, "H_c")
        self.n_opers, self.n_oper_identifiers, self.n_coeffs = \
            parse_hamiltonian(H_n, n, "H_n")
        self.d = self.c_opers.shape[-1]
        self.basis = basis

    def cleanup(self, method="conservative"):
        drop = {"conservative": ("eigvals", "eigvecs", "propagators"),
                "greedy": ("eigvals", "eigvecs", "propagators",
                           "total_propagator", "total_propagator_liouville")}
        if method == "all":
            self._data.clear()
        for k in drop.get(method, ()):
            self._data.pop(k, None)
        if method in ("all", "frequency dependent"):
            self._frequency_data.clear()
        if method in ("all", "frequency dependent", "greedy"):
            self._intermediates.clear()
        if method == "greedy":
            for k in ("total_phases", "control_matrix", "control_matrix_pc"):
                self._frequency_data.pop(k, None)

    def __len__(self):
        return len(self.dt)


def _cached(name):
    def get(self):
        return self._data[name]

    def put(self, value):
        self._data[name] = value
    return property(get, put)


for _k in ("eigvals", "eigvecs", "propagators", "total_propagator"):
    setattr(PulseSequenceStub, _k, _cached(_k))


def filter_functions_stub():
    m = StubModule("filter_functions")
    for sub in ("pulse_sequence", "numeric", "gradient", "util", "basis",
                "plotting"):
        setattr(m, sub, StubModule("filter_functions." + sub))
    m.pulse_sequence = types.ModuleType("filter_functions.pulse_sequence")
    m.pulse_sequence._parse_hamiltonian = parse_hamiltonian
    m.pulse_sequence.PulseSequence = PulseSequenceStub
    m.PulseSequence = PulseSequenceStub

    class Basis(list):
        pass
    m.Basis = m.basis.Basis = Basis
    return m


def default_stub(top):
    if top == "filter_functions":
        return filter_functions_stub()
    if top == "numpy":
        return npshim.SHIM
    if top == "scipy":
        return scishim.make_scipy()
    if top == "math":
        return scishim.MATH
    if top == "time":
        m = types.ModuleType("time")

        def now():
            h = npshim.HOOKS.get("time")
            if h is None:
                return S.lift(0)
            return h()
        m.time = now
        m.perf_counter = now
        m.monotonic = now
        m.process_time = now
        m.sleep = lambda x: None
        m.strftime = lambda *a: "time"
        return m
    if top == "multiprocessing":
        m = types.ModuleType("multiprocessing")
        m.Pool = PoolStub
        m.cpu_count = lambda: 2
        m.pool = types.SimpleNamespace(Pool=PoolStub)
        m.get_context = lambda method=None: m
        return m
    if top == "concurrent":
        m = types.ModuleType("concurrent")
        m.futures = types.ModuleType("concurrent.futures")
        m.futures.ProcessPoolExecutor = PoolStub
        m.futures.ThreadPoolExecutor = PoolStub
        m.futures.as_completed = iter
        m.futures.wait = None
        return m
    if top == "random":
        return npshim.SHIM.random
    if top == "qutip":
        m = StubModule("qutip")
        m.Qobj = QobjStub
        return m
    if top == "simanneal":
        m = types.ModuleType("simanneal")
        m.Annealer = AnnealerStub
        return m
    if top == "matplotlib":
        m = StubModule(top)
        m.colormaps = ColorMaps()
        m.cm = StubModule("matplotlib.cm")
        m.cm.get_cmap = ColorMap
        return m
    if top in ("IPython", "tqdm",
               "pandas", "joblib"):
        return StubModule(top)
    return None
