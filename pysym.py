"""Symbolic execution of /repo's Python layer (src/pymatching/matching.py).

The module's source is executed as it is, with the compiled extension replaced by a recorder and with numbers that are z3 terms: every
branch on such a number asks the solver which outcomes are possible and both are followed (depth first, by re-execution), and every
assertion is decided by the solver for all values of the path. Counterexamples, and one solver-chosen input per sampled path, are run
again with plain Python and NumPy values. Run by check.py under python3-vt."""
import builtins
import importlib.util
import json
import os
import sys
import time
import types
import warnings

import networkx
import numpy as real_np
import scipy.sparse
import z3

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Unsupported(BaseException):
    """not an Exception: the code under test must not swallow it"""


class Killed(BaseException):
    pass


class Fail(BaseException):
    def __init__(self, msg):
        self.msg = msg


class Ctx:
    """one path: a prefix of decisions to repeat, then new ones"""

    def __init__(self, prefix, concrete=None):
        self.prefix, self.concrete = prefix, concrete
        self.trail, self.pending, self.inputs, self.reached = [], [], [], []
        self.queries = self.unknown = self.asserts = 0
        self.solver_s = 0.0
        self.solver = z3.Solver()
        self.solver.set("timeout", 5000)

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
            raise Unsupported("solver gave no answer")
        return r == z3.sat

    def decide(self, n_or_cond):
        """an integer n: a free choice among n; a z3 condition: a branch"""
        i = len(self.trail)
        if isinstance(n_or_cond, int):
            v = self.prefix[i] if i < len(self.prefix) else 0
            if i >= len(self.prefix):
                for k in range(1, n_or_cond):
                    self.pending.append(self.trail + [k])
            self.trail.append(v)
            return v
        c = n_or_cond
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t, f = self.check(c), self.check(z3.Not(c))
            if not (t or f):
                raise Killed()
            if t and f:
                self.pending.append(self.trail + [False])
            v = t
        self.trail.append(v)
        self.solver.add(c if v else z3.Not(c))
        return v

    # ---- what harnesses use
    def choose(self, name, lo, hi):
        if self.concrete is not None:
            return self.concrete[name]
        v = lo + self.decide(hi - lo + 1)
        self.inputs.append((name, v))
        return v

    def num(self, name, lo, hi, real=False):
        if self.concrete is not None:
            v = self.concrete[name]
            return float(v) if real else int(v)
        t = z3.Real(name) if real else z3.Int(name)
        self.solver.add(t >= lo, t <= hi)
        self.inputs.append((name, t))
        return Sym(t, real)

    def check_that(self, cond, msg):
        self.asserts += 1
        if isinstance(cond, Sym):
            cond = cond.t if z3.is_bool(cond.t) else cond.t != 0
            if self.check(z3.Not(cond)):
                self.solver.add(z3.Not(cond))
                raise Fail(msg)
        elif not cond:
            raise Fail(msg)

    def model(self):
        if not self.check():
            return None
        m = self.solver.model()
        out = {}
        for n, t in self.inputs:
            if isinstance(t, int):
                out[n] = t
            else:
                v = m.eval(t, model_completion=True)
                out[n] = v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
        return out


C = None


class Sym:
    """an integer, real or truth value that is a solver term"""
    __array_ufunc__ = None  # arithmetic with NumPy arrays goes through the operators below

    def __init__(self, t, real=False):
        self.t, self.real = t, real

    def _lift(self, o):
        if isinstance(o, Sym):
            return o.t
        if isinstance(o, (bool, real_np.bool_)):
            return z3.IntVal(1 if o else 0)
        if isinstance(o, (int, real_np.integer)):
            return z3.IntVal(builtins.int(o))
        if isinstance(o, (float, real_np.floating)):
            return z3.RealVal(repr(builtins.float(o)))
        return None

    def _bin(self, o, f, isbool=False):
        if isinstance(o, real_np.ndarray):
            r = real_np.empty(o.shape, dtype=object)
            for i in real_np.ndindex(o.shape):
                r[i] = self._bin(o[i], f, isbool)
            return r
        x = self._lift(o)
        if x is None:
            return NotImplemented
        r = f(self.t, x)
        return Sym(r, self.real or z3.is_real(r))

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b) if not self.real else NotImplemented
    def __and__(self, o): return Sym(z3.And(self._truth(), Sym._truth(o)))
    def __or__(self, o): return Sym(z3.Or(self._truth(), Sym._truth(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return Sym(z3.Not(self._truth()))
    def __abs__(self): return Sym(z3.If(self.t < 0, -self.t, self.t), self.real)
    def __pos__(self): return self
    def __neg__(self): return Sym(-self.t, self.real)

    def _truth(self):
        if isinstance(self, Sym) and z3.is_bool(self.t):
            return self.t
        if isinstance(self, (bool, real_np.bool_)):
            return z3.BoolVal(bool(self))
        raise Unsupported("bitwise operation on a symbolic number")

    def __bool__(self):
        return C.decide(self.t if z3.is_bool(self.t) else self.t != 0)

    def __hash__(self):
        return 0

    def __index__(self):
        raise Unsupported("a symbolic number is needed as a concrete one")

    __int__ = __float__ = __index__


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, real_np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


class _NumMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Sym):
            return o.real == (cls._kind is builtins.float) and not z3.is_bool(o.t)
        return isinstance(o, cls._kind)

    def __call__(cls, *a, **k):
        return a[0] if a and isinstance(a[0], Sym) else cls._kind(*a, **k)


class IntShim(metaclass=_NumMeta):
    _kind = builtins.int


class FloatShim(metaclass=_NumMeta):
    _kind = builtins.float


class NpShim:
    """NumPy, except that arrays with symbolic entries keep them whatever the requested element type"""

    def __getattr__(self, n):
        return getattr(real_np, n)

    @staticmethod
    def _dt(x, dtype):
        if has_sym(x):
            return object
        return builtins.float if dtype is FloatShim else builtins.int if dtype is IntShim else dtype

    def array(self, x, dtype=None, **k):
        return real_np.array(x, dtype=self._dt(x, dtype), **k)

    def asarray(self, x, dtype=None, **k):
        return real_np.asarray(x, dtype=self._dt(x, dtype), **k)

    def ones(self, n, dtype=None, **k):
        return real_np.ones(n, dtype=self._dt(None, dtype), **k)

    def zeros(self, n, dtype=None, **k):
        return real_np.zeros(n, dtype=self._dt(None, dtype), **k)

    def full(self, n, v, dtype=None, **k):
        return real_np.full(n, v, dtype=self._dt(v, dtype), **k)


class Recorder(types.ModuleType):
    """stand-in for the compiled extension"""

    def __init__(self):
        super().__init__("pymatching._cpp_pymatching")
        self.calls = []
        rec = self

        class MatchingGraph:
            def __init__(self, num_nodes=0, num_fault_ids=0):
                self.log, self.num_nodes0, self.num_fault_ids0 = [], num_nodes, num_fault_ids
                self.e, self.b = [], set()
                self.nd = None

            def __getattr__(self, n):
                raise Unsupported("the stand-in for the extension has no " + n)

            def set_boundary(self, boundary):
                self.b = set(boundary)

            def get_boundary(self):
                return self.b

            # argument names as in the bindings, so that positional and keyword calls look alike
            def add_edge(self, node1, node2, observables, weight, error_probability, merge_strategy):
                self.e.append((node1, node2, observables, weight, error_probability, merge_strategy))

            def add_boundary_edge(self, node, observables, weight, error_probability, merge_strategy):
                self.e.append((node, None, observables, weight, error_probability, merge_strategy))

            def decode(self, detection_events, enable_correlations=False):
                return self._log("decode", detection_events, enable_correlations)

            def decode_to_edges_array(self, detection_events, enable_correlations=False):
                return self._log("decode_to_edges_array", detection_events, enable_correlations)

            def decode_to_matched_detection_events_array(self, detection_events):
                return self._log("decode_to_matched_detection_events_array", detection_events, False)

            def decode_to_matched_detection_events_dict(self, detection_events):
                return self._log("decode_to_matched_detection_events_dict", detection_events, False)

            def decode_batch(self, shots, bit_packed_shots=False, bit_packed_predictions=False, enable_correlations=False):
                return self._log("decode_batch", shots, bit_packed_shots, bit_packed_predictions, enable_correlations)

            def _log(self, n, *a):
                self.log.append((n,) + a)
                return rec.answers.get(n)

            def get_edges(self):
                return [(u, v, {"fault_ids": f, "weight": w, "error_probability": p}) for u, v, f, w, p, _ in self.e]

            def get_num_edges(self):
                return len(self.e)

            def get_num_observables(self):
                return max([self.num_fault_ids0] + [f + 1 for e in self.e for f in e[2]])

            def set_min_num_observables(self, num_observables):
                self.num_fault_ids0 = max(self.num_fault_ids0, num_observables)

            def _find(self, u, v):
                return next((dict(fault_ids=f, weight=w, error_probability=p) for a, b, f, w, p, _ in self.e if (a == u and b == v) or (v is not None and a == v and b == u)), None)

            def has_edge(self, node1, node2):
                return self._find(node1, node2) is not None

            def has_boundary_edge(self, node):
                return self._find(node, None) is not None

            def get_edge_data(self, node1, node2):
                return self._data(node1, node2)

            def get_boundary_edge_data(self, node):
                return self._data(node, None)

            def _data(self, u, v):
                d = self._find(u, v)
                if d is None:
                    raise ValueError("no such edge")
                return d

            def all_edges_have_error_probabilities(self):
                return all(0 <= e[4] and e[4] <= 1 for e in self.e)

            def add_noise(self):
                return self._log("add_noise")

            def get_num_nodes(self):
                return max([self.num_nodes0] + [x + 1 for u, v, *_ in self.e for x in (u, v) if x is not None])

            def get_num_detectors(self):
                return self.nd if self.nd is not None else self.get_num_nodes() - len(self.b)

        self.MatchingGraph = MatchingGraph
        self.answers = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("the stand-in for the extension has no " + n)

    def _built(self, **k):
        self.calls.append(k)
        return self.MatchingGraph()

    def sparse_column_check_matrix_to_matching_graph(self, check_matrix, weights, error_probabilities, merge_strategy="smallest-weight", use_virtual_boundary_node=False, num_repetitions=1,
                                                     timelike_weights=None, measurement_error_probabilities=None, faults_matrix=None):
        return self._built(matrix=check_matrix, weights=weights, probabilities=error_probabilities, merge=merge_strategy, virtual=use_virtual_boundary_node, repetitions=num_repetitions,
                           timelike=timelike_weights, measurement=measurement_error_probabilities, faults=faults_matrix)

    def detector_error_model_to_matching_graph(self, dem_string, enable_correlations=False):
        return self._built(dem=dem_string, correlations=enable_correlations)

    def detector_error_model_file_to_matching_graph(self, dem_path, enable_correlations=False):
        return self._built(dem_path=dem_path, correlations=enable_correlations)

    def stim_circuit_file_to_matching_graph(self, stim_circuit_path, enable_correlations=False):
        return self._built(circuit_path=stim_circuit_path, correlations=enable_correlations)


class StimModel:
    """stand-in for stim.DetectorErrorModel"""

    def __init__(self, text): self.text = text
    def __str__(self): return self.text


class StimCircuit:
    """stand-in for stim.Circuit"""

    def __init__(self, text): self.text = text
    def detector_error_model(self, *, decompose_errors=False): return StimModel(f"{self.text} decomposed={decompose_errors}")


class RxGraph:
    """stand-in for rustworkx.PyGraph"""

    def __init__(self, multigraph=True):
        self.nodes_, self.edges_, self.multigraph = [], [], multigraph

    def __getattr__(self, n):
        raise Unsupported("the stand-in for rustworkx has no " + n)

    def node_indices(self): return list(range(len(self.nodes_)))
    node_indexes = node_indices
    def nodes(self): return list(self.nodes_)
    def num_nodes(self): return len(self.nodes_)
    def num_edges(self): return len(self.edges_)
    def __getitem__(self, i): return self.nodes_[i]
    def __setitem__(self, i, x): self.nodes_[i] = x
    def get_node_data(self, i): return self.nodes_[i]
    def __len__(self): return len(self.nodes_)
    def weighted_edge_list(self): return list(self.edges_)
    def edge_list(self): return [(u, v) for u, v, _ in self.edges_]
    def edges(self): return [d for _, _, d in self.edges_]

    def add_node(self, n):
        self.nodes_.append(n)
        return len(self.nodes_) - 1

    def add_nodes_from(self, ns): return [self.add_node(n) for n in ns]

    def add_edge(self, u, v, d):
        self.edges_.append((u, v, d))
        return len(self.edges_) - 1

    def add_edges_from(self, es): return [self.add_edge(*e) for e in es]
    def extend_from_weighted_edge_list(self, es): self.add_edges_from(es)


def load(symbolic):
    """a fresh copy of the module under test and the recorder it talks to"""
    for k in [k for k in sys.modules if k == "pymatching" or k.startswith("pymatching.")]:
        del sys.modules[k]
    rec = Recorder()
    pkg = types.ModuleType("pymatching")
    pkg.__path__ = [REPO + "/src/pymatching"]
    pkg._cpp_pymatching = rec
    sys.modules["pymatching"] = pkg
    sys.modules["pymatching._cpp_pymatching"] = rec
    if "matplotlib" not in sys.modules:
        for n in ("matplotlib", "matplotlib.cbook"):
            sys.modules[n] = types.ModuleType(n)
    rx = types.ModuleType("rustworkx")
    rx.PyGraph = RxGraph
    sys.modules["rustworkx"] = rx
    stim = types.ModuleType("stim")
    stim.DetectorErrorModel, stim.Circuit = StimModel, StimCircuit
    sys.modules["stim"] = stim
    path = REPO + "/src/pymatching/matching.py"
    mod = types.ModuleType("pymatching.matching")
    mod.__file__ = path
    sys.modules["pymatching.matching"] = mod
    if symbolic:
        mod.__dict__["int"], mod.__dict__["float"] = IntShim, FloatShim
    if path not in CODE:
        CODE[path] = compile(open(path).read(), path, "exec")
    exec(CODE[path], mod.__dict__)
    if symbolic:
        mod.__dict__["np"] = NpShim()
    pkg.Matching = mod.Matching
    return mod, rec


CODE = {}


def run_path(fn, prefix, concrete=None):
    global C
    C = Ctx(prefix, concrete)
    out = "ok"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(C)
    except Killed:
        out = "killed"
    except Fail as e:
        out = "fail: " + e.msg
    except Unsupported as e:
        out = "unsupported: " + str(e)
    except AttributeError as e:
        # the harness looks at the graph object through its private name; another name is not an error
        out = ("unsupported: " if "_matching_graph" in str(e) else "fail: uncaught AttributeError: ") + str(e)
    except RecursionError:
        out = "unsupported: recursion"
    except Exception as e:
        out = f"fail: uncaught {type(e).__name__}: {e}"
    return C, out


def trace_functions(seen):
    pre = REPO + "/src/pymatching/"

    def t(frame, ev, arg):
        if frame.f_code.co_filename.startswith(pre):
            seen.setdefault(frame.f_code.co_name, set()).add(frame.f_lineno)
            return t
        return None
    return t


def explore(name, fn, seconds, tier):
    t0 = time.time()
    R = dict(entry=name, paths=0, queries=0, asserts=0, solver_s=0.0, unsupported={}, witnesses={}, violations=[], samples=[], validated=0,
             mismatches=[], spurious=[], functions={})
    todo = [[]]
    seen = {}
    while todo and time.time() - t0 < seconds and not R["violations"]:
        prefix = todo.pop()
        sample = R["paths"] % 97 == 0
        if sample:
            sys.settrace(trace_functions(seen))
        try:
            c, out = run_path(fn, prefix)
        finally:
            sys.settrace(None)
        todo += c.pending
        R["queries"] += c.queries
        R["asserts"] += c.asserts
        R["solver_s"] += c.solver_s
        if out == "killed":
            continue
        if out.startswith("unsupported"):
            R["unsupported"][out] = R["unsupported"].get(out, 0) + 1
            continue
        R["paths"] += 1
        for r in c.reached:
            R["witnesses"][r] = R["witnesses"].get(r, 0) + 1
        if out.startswith("fail") or (sample and len(R["samples"]) < 60):
            m = c.model()
            if m is None:
                continue
            _, nat = run_path(fn, [], m)
            if out.startswith("fail"):
                if nat.startswith("fail"):
                    R["violations"].append(dict(message=out[6:], native=nat, inputs=m))
                else:
                    R["spurious"].append(dict(message=out, native=nat, inputs=m))
            else:
                R["samples"].append(m)
                if nat == "ok":
                    R["validated"] += 1
                elif nat.startswith("fail"):
                    R["violations"].append(dict(message="plain run of a solver-chosen input", native=nat, inputs=m))
    R["left"] = len(todo)
    R["wall_s"] = round(time.time() - t0, 2)
    R["functions"] = {k: len(v) for k, v in sorted(seen.items())}
    return R


def main():
    spec = importlib.util.spec_from_file_location("py_layer", V + "/harness/py_layer.py")
    h = importlib.util.module_from_spec(spec)
    sys.modules["pysym"] = sys.modules["__main__"]
    spec.loader.exec_module(h)
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        _, out = run_path(h.ENTRIES[d["entry"]], [], d["inputs"])
        print(out)
        return 1 if out.startswith("fail") else 0
    tier = sys.argv[1]
    res = []
    for a in sys.argv[2:]:
        name, secs = a.split(":")
        res.append(explore(name, h.ENTRIES[name], float(secs), tier))
    json.dump(res, sys.stdout)
    return 0


if __name__ == "__main__":
    sys.exit(main())
