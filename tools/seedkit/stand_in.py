import sys, types
import numpy as np
import networkx as nx


class Graph:
    """records what the Python layer asks of the compiled module"""
    def __init__(self, num_nodes=0, num_fault_ids=0):
        self.n, self.f, self.edges, self.b, self.seen = num_nodes, num_fault_ids, [], set(), []

    def set_boundary(self, b): self.b = set(b)
    def get_boundary(self): return self.b
    def get_num_nodes(self): return self.n
    def get_num_detectors(self): return self.n - len(self.b)
    def add_edge(self, node1, node2, observables, weight, error_probability, merge_strategy): self.edges.append((node1, node2, set(observables), weight, error_probability))
    def add_boundary_edge(self, node, observables, weight, error_probability, merge_strategy): self.edges.append((node, None, set(observables), weight, error_probability))

    def decode(self, detection_events, enable_correlations=False):
        self.seen.append(list(int(x) for x in detection_events))
        return np.zeros(1, dtype=np.uint8), 0.0


cpp = types.ModuleType("pymatching._cpp_pymatching")
cpp.MatchingGraph = Graph
pkg = types.ModuleType("pymatching")
pkg.__path__ = ["src/pymatching"]
pkg._cpp_pymatching = cpp
sys.modules.update({"pymatching": pkg, "pymatching._cpp_pymatching": cpp})
for name in ("matplotlib", "matplotlib.cbook"):
    sys.modules.setdefault(name, types.ModuleType(name))
mod = types.ModuleType("pymatching.matching")
mod.__file__ = "src/pymatching/matching.py"
sys.modules["pymatching.matching"] = mod
exec(compile(open(mod.__file__).read(), mod.__file__, "exec"), mod.__dict__)
Matching = mod.Matching

