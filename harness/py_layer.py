"""Harnesses for the Python layer; each takes the context c of pysym (c.choose: case split, c.num: symbolic number)."""
import sys
from pathlib import Path

import networkx as nx
import numpy as np
from scipy.sparse import csc_matrix

import pysym
from pysym import Sym, load


TIER = 1 if "thorough" in sys.argv else 0


def same(c, got, want, msg):
    """got and want are equal sequences"""
    got, want = list(got), list(want)
    c.check_that(len(got) == len(want), msg)
    for a, b in zip(got, want):
        c.check_that(a == b, msg)


def raises(f, *types):
    try:
        f()
        return False
    except types or (ValueError, TypeError):
        return True


def fresh(c):
    return load(c.concrete is None)


# ---------------------------------------------------------------------------------------------------- syndromes
APIS = ("decode", "decode_to_edges_array", "decode_to_matched_detection_events_array", "decode_to_matched_detection_events_dict")


def syndrome(c, shape2d):
    mod, rec = fresh(c)
    m = mod.Matching()
    g = m._matching_graph
    rec.answers = {"decode": (np.array([1, 0, 1]), 7.5), APIS[1]: "edges", APIS[2]: "pairs", APIS[3]: {1: 2}}
    g.nd = c.num("num_detectors", 0, 10)
    nb = c.choose("boundary_nodes", 0, 2)
    g.b = set(range(100, 100 + nb))
    if shape2d:
        r, k = c.choose("rows", 1, 2 + TIER), c.choose("columns", 1, 3)
        z = [[c.num(f"z{i}_{j}", 0, 1) for j in range(k)] for i in range(r)]
        fits = g.nd == r * k
        order = [(t * r + i, z[i][t]) for t in range(k) for i in range(r)]
    else:
        n = c.choose("length", 0, 5 + TIER)
        z = [c.num(f"z{i}", 0, 1) for i in range(n)]
        fits = g.nd <= n
        if isinstance(fits, Sym):
            fits = Sym(pysym.z3.And(fits.t, n <= (g.nd + nb).t))
        else:
            fits = fits and n <= g.nd + nb
        order = list(enumerate(z))
    form = c.choose("form", 0, 2)
    arg = z
    if form == 1:
        arg = np.array(z, dtype=object if c.concrete is None else np.uint8)
    elif form == 2:
        arg = np.array(z, dtype=object if c.concrete is None else bool)
    api = c.choose("api", 0, 3)
    corr, weight = api <= 1 and c.choose("correlations", 0, 1) == 1, api == 0 and c.choose("weight", 0, 1) == 1
    out = None
    try:
        if api == 0:
            out = m.decode(arg, return_weight=weight, enable_correlations=corr)
        elif api == 1:
            out = m.decode_to_edges_array(arg, enable_correlations=corr)
        elif api == 2:
            out = m.decode_to_matched_dets_array(arg)
        else:
            out = m.decode_to_matched_dets_dict(arg)
        ok = True
    except ValueError:
        ok = False
    c.check_that(fits == ok if isinstance(fits, Sym) else bool(fits) == ok, "a syndrome is accepted exactly when its shape fits the detectors and boundary nodes")
    if not ok:
        c.check_that(not g.log, "a refused syndrome still reaches the decoder")
        c.reached.append("refused")
        return
    c.check_that(len(g.log) == 1 and g.log[0][0] == APIS[api], "a decoding call does not reach its decoder exactly once")
    name, events, two_pass = g.log[0]
    ev = [int(x) for x in events]
    c.check_that(len(set(ev)) == len(ev), "a detection event is handed over twice")
    for i, bit in order:
        c.check_that((bit == (1 if i in ev else 0)), "the detection events handed to the decoder are not those of the syndrome")
    c.check_that(set(ev) <= {i for i, _ in order}, "a detection event outside the syndrome is handed to the decoder")
    if api <= 1:
        c.check_that(two_pass == corr, "the choice of two-pass decoding is not handed over")
    if api == 0:
        c.check_that((out[0] is rec.answers[name][0] and out[1] == 7.5) if weight else out is rec.answers[name][0], "the decoder's prediction or weight is not returned")
    else:
        c.check_that(out is rec.answers[name], "the decoder's answer is not returned")
    c.reached.append("end")


def batch(c):
    mod, rec = fresh(c)
    m = mod.Matching()
    rec.answers = {"decode_batch": ("P", "W")}
    f = [c.choose(n, 0, 1) == 1 for n in ("return_weights", "packed_shots", "packed_predictions", "correlations")]
    shots = object()
    out = m.decode_batch(shots, return_weights=f[0], bit_packed_shots=f[1], bit_packed_predictions=f[2], enable_correlations=f[3])
    c.check_that(len(m._matching_graph.log) == 1, "a batch of shots does not reach the decoder exactly once")
    name, got, *opts = m._matching_graph.log[0]
    c.check_that(name == "decode_batch" and got is shots, "the batch of shots is not handed to the decoder")
    c.check_that(opts == f[1:], "the options of a batch are not handed to the decoder")
    c.check_that(out == (("P", "W") if f[0] else "P"), "the predictions of a batch are not returned")
    c.reached.append("end")


# ------------------------------------------------------------------------------------------------ check matrices
def param(c, name, n, lo, hi, kinds=4):
    """an argument that may be missing, a scalar, a list or an array; its per-entry values, or None when missing"""
    k = c.choose(name, 0, kinds - 1)
    if k == 0:
        return None, None
    if k == 1:
        x = c.num(name + "_scalar", lo, hi, real=True)
        return x, [x] * n
    xs = [c.num(f"{name}_{i}", lo, hi, real=True) for i in range(n)]
    return (xs if k == 2 else np.array(xs, dtype=object if c.concrete is None else float)), xs


def check_matrix(c, part):
    mod, rec = fresh(c)
    H = np.array([[1, 1, 0], [0, 1, 1]], dtype=np.uint8)
    how = c.choose("matrix", 0, 2 if part == "weights" else 0)
    mat = H
    if how == 1:
        mat = csc_matrix(H)
    elif how == 2:
        mat = csc_matrix((np.array([1, 1, 1, 0, 1], dtype=np.uint8), np.array([0, 0, 1, 0, 1]), np.array([0, 1, 3, 5])), shape=(2, 3))
    kw = {}
    old_w = c.choose("deprecated_weights", 0, 1) if part == "weights" else 0
    w, ws = param(c, "weights", 3, -8, 8, 4 if part == "weights" else 2)
    if w is not None:
        kw["spacelike_weights" if old_w else "weights"] = w
    both = part == "weights" and w is not None and c.choose("both_weights", 0, 1)
    if both:
        kw["weights"], kw["spacelike_weights"] = w, w
    p, ps = param(c, "error_probabilities", 3, 0, 1, 4 if part == "weights" else 1)
    if p is not None:
        kw["error_probabilities"] = p
    reps = (None, 1, 2, 4)[c.choose("repetitions", 0, 3 if part == "repetitions" else 2)]
    if reps is not None:
        kw["repetitions"] = reps
    t = ts = q = qs = None
    bothq = False
    if part == "repetitions":
        t, ts = param(c, "timelike", 2, -8, 8)
        if t is not None:
            kw["timelike_weights"] = t
        q, qs = param(c, "measurement", 2, 0, 1)
        oldq = c.choose("deprecated_measurement", 0, 2)
        if q is not None:
            if oldq != 1:
                kw["measurement_error_probabilities"] = q
            if oldq != 0:
                kw["measurement_error_probability"] = q
            bothq = oldq == 2
    route = c.choose("route", 0, 2)
    faults = merge = virt = None
    if route and part == "weights" and c.choose("options", 0, 1):
        faults, merge, virt = np.array([[1, 0, 1]]), "replace", True
        kw.update(faults_matrix=faults, merge_strategy=merge, use_virtual_boundary_node=virt)
    try:
        if route == 0:
            mod.Matching(mat, **kw)
        elif route == 1:
            mod.Matching.from_check_matrix(mat, **kw)
        else:
            mod.Matching().load_from_check_matrix(mat, **kw)
        ok = True
    except ValueError:
        ok = False
    many = reps is not None and reps > 1
    c.check_that(ok == (not both and not (bothq and many)), "a check matrix is refused exactly when an argument is given under two names")
    if not ok:
        c.reached.append("refused")
        return
    c.check_that(len(rec.calls) == 1, "the graph of a check matrix is not built exactly once")
    k = rec.calls[0]
    got = k["matrix"]
    c.check_that(got.shape == (2, 3) and (got.toarray() == (H if how < 2 else [[1, 1, 0], [0, 1, 1]])).all() and got.nnz == 4, "the check matrix handed over is not the given one without explicit zeros")
    msg = "the {} handed over are not the given ones"
    same(c, k["weights"], ws if ws is not None else [1.0] * 3, msg.format("weights"))
    same(c, k["probabilities"], ps if ps is not None else [-1] * 3, msg.format("error probabilities"))
    c.check_that(k["merge"] == (merge or "smallest-weight") and k["virtual"] == bool(virt), msg.format("merge strategy and kind of boundary"))
    c.check_that(k["repetitions"] == (reps if many else 1), msg.format("repetitions"))
    c.check_that((k["faults"] is None) if faults is None else (k["faults"].toarray() == faults).all(), msg.format("faults"))
    if many:
        same(c, k["timelike"], ts if ts is not None else [1.0] * 2, msg.format("timelike weights"))
        same(c, k["measurement"], qs if qs is not None else [-1] * 2, msg.format("measurement error probabilities"))
        c.reached.append("repeated")
    c.reached.append("end")


# -------------------------------------------------------------------------------------------------------- edges
def fault_ids(c, tag):
    """argument and the set it stands for"""
    k = c.choose(tag, 0, 4)
    if k == 0:
        return None, []
    if k == 1:
        x = c.num(tag + "_id", -1, 5)
        return x, ([] if x == -1 else [x])
    if k == 2:
        return np.int64(3), [3]
    if k == 3:
        return {2, 4}, [2, 4]
    return set(), []


def add_edge(c):
    mod, rec = fresh(c)
    m = mod.Matching()
    f, want = fault_ids(c, "fault_ids")
    kw = {}
    boundary = c.choose("boundary_edge", 0, 1) == 1
    old = 0 if boundary else c.choose("deprecated", 0, 2)
    if f is not None:
        if old != 1:
            kw["fault_ids"] = f
        if old != 0:
            kw["qubit_id"] = f
    w = p = None
    if c.choose("weight", 0, 1):
        w = kw["weight"] = c.num("w", -8, 8, real=True)
    if c.choose("probability", 0, 1):
        p = kw["error_probability"] = c.num("p", 0, 1, real=True)
    s = None
    if c.choose("strategy", 0, 1):
        s = kw["merge_strategy"] = "independent"
    u, v = c.num("u", 0, 9), c.num("v", 0, 9)
    try:
        m.add_boundary_edge(u, **kw) if boundary else m.add_edge(u, v, **kw)
        ok = True
    except ValueError:
        ok = False
    c.check_that(ok == (f is None or old != 2), "an edge is refused exactly when its fault ids are given under two names")
    if not ok:
        c.reached.append("refused")
        return
    c.check_that(len(m._matching_graph.e) == 1, "an edge is not added exactly once")
    e = m._matching_graph.e[0]
    c.check_that(e[0] == u, "the edge's end points are not handed over")
    c.check_that((e[1] is None) if boundary else e[1] == v, "the edge's end points are not handed over")
    same(c, sorted(e[2]) if len(e[2]) > 1 else e[2], want, "the edge's fault ids are not handed over")
    c.check_that(e[3] == (1.0 if w is None else w), "the edge's weight is not handed over")
    c.check_that(e[4] == (-1 if p is None else p), "the edge's error probability is not handed over")
    c.check_that(e[5] == (s or "disallow"), "the merge strategy is not handed over")
    c.reached.append("end")


# ------------------------------------------------------------------------------------------------------- graphs
def graph(c, rx):
    mod, rec = fresh(c)
    n = 3
    bset = {i for i in range(n) if c.choose(f"boundary{i}", 0, 1)}
    G = pysym.RxGraph() if rx else nx.Graph()
    attr = [{"is_boundary": True} if i in bset else ({"is_boundary": False} if i == 0 else {}) for i in range(n)]
    if rx:
        G.add_nodes_from(attr)
    else:
        for i in range(n):
            G.add_node(i, **attr[i])
    want = []
    bad = False
    pairs = [(0, 1), (1, 2), (0, 2)]
    for k, (u, v) in enumerate(pairs[:2] if c.choose("edges", 0, 1) else pairs[1:2]):
        a = {}
        f, ids = fault_ids(c, f"f{k}") if k == 0 else ({k}, [k])
        if f is not None:
            old = c.choose(f"deprecated{k}", 0, 2) if k == 0 else 0
            if old != 1:
                a["fault_ids"] = f
            if old != 0:
                a["qubit_id"] = f
            bad |= old == 2
        w, p = 1, -1
        if c.choose(f"weight{k}", 0, 1):
            w = a["weight"] = c.num(f"w{k}", -8, 8, real=True)
        if c.choose(f"probability{k}", 0, 1):
            p = a["error_probability"] = c.num(f"p{k}", 0, 1, real=True)
        if rx:
            G.extend_from_weighted_edge_list([(u, v, a)])
        else:
            G.add_edge(u, v, **a)
        want.append((u, v, ids, w, p))
    mn = (None, 5)[c.choose("min_num_fault_ids", 0, 1)]
    route = 1 if mn is not None else c.choose("route", 0, 2)
    try:
        if route == 0:
            m = mod.Matching(G)
        elif rx:
            m = mod.Matching()
            m.load_from_rustworkx(G, min_num_fault_ids=mn)
        elif route == 1:
            m = mod.Matching.from_networkx(G, min_num_fault_ids=mn)
        else:
            m = mod.Matching()
            m.load_from_networkx(G, min_num_fault_ids=mn)
        ok = True
    except ValueError:
        ok = False
    c.check_that(ok == (not bad), "a graph is refused exactly when fault ids are given under two names")
    if not ok:
        c.reached.append("refused")
        return
    g = m._matching_graph
    c.check_that(g.num_nodes0 == n and g.num_fault_ids0 == (mn or 0) and g.b == bset, "the number of nodes, of fault ids or the boundary of a graph is not handed over")
    c.check_that(len(g.e) == len(want), "the edges of a graph are not handed over")
    for (u, v, f, w, p, s), (u2, v2, f2, w2, p2) in zip(sorted(g.e, key=lambda e: (min(e[:2]), max(e[:2]))), sorted(want, key=lambda e: e[:2])):
        c.check_that({u, v} == {u2, v2}, "the edges of a graph are not handed over")
        same(c, sorted(f) if len(f) > 1 else f, f2, "the fault ids of a graph's edges are not handed over")
        c.check_that(w == w2, "the weight of a graph's edge is not handed over")
        c.check_that(p == p2, "the error probability of a graph's edge is not handed over")
        c.check_that(s == "smallest-weight", "parallel edges of a graph must keep the smallest weight")
    # and back again, with a boundary edge added
    be = c.choose("boundary_edge", 0, 1)
    if be:
        m.add_boundary_edge(0, fault_ids={9}, weight=2.5)
    B = m.to_rustworkx() if rx else m.to_networkx()
    es = {frozenset(e[:2]): e[2] for e in (B.weighted_edge_list() if rx else B.edges(data=True))}
    c.check_that(len(es) == len(want) + be, "a graph given back has missing or extra edges")
    for u, v, f, w, p in want + ([(0, n, [9], 2.5, -1)] if be else []):
        d = es.get(frozenset((u, v)))
        c.check_that(d is not None, "a graph given back lacks an edge")
        same(c, sorted(d["fault_ids"]) if len(d["fault_ids"]) > 1 else d["fault_ids"], f, "a graph given back has other fault ids")
        c.check_that(d["weight"] == w, "a graph given back has another weight")
        c.check_that(d["error_probability"] == p, "a graph given back has another error probability")
    for i in (B.node_indices() if rx else B.nodes):
        isb = (B[i] if rx else B.nodes[i])["is_boundary"]
        c.check_that(isb == (i in bset or i == n), "a graph given back has another boundary")
    c.reached.append("end")


# ---------------------------------------------------------------------------------------- questions about the graph
def accessors(c):
    mod, rec = fresh(c)
    rec.answers = {"add_noise": ("noise", "syndrome")}
    m = mod.Matching()
    want = []
    for k, (u, v) in enumerate([(0, 1), (2, 1), (1, None)]):
        if c.choose(f"edge{k}", 0, 1):
            w = c.num(f"w{k}", -8, 8, real=True)
            p = c.num(f"p{k}", 0, 1, real=True) if c.choose(f"probability{k}", 0, 1) else None
            if v is None:
                m.add_boundary_edge(u, fault_ids={k}, weight=w, error_probability=p)
            else:
                m.add_edge(u, v, fault_ids={k}, weight=w, error_probability=p)
            want.append((u, v, {k}, w, -1 if p is None else p))
    b = [set(), {0}, {0, 2}][c.choose("boundary", 0, 2)]
    m.set_boundary_nodes(b)
    mn = c.choose("min_num_fault_ids", 0, 4)
    m.ensure_num_fault_ids(mn)
    nodes = max([0] + [x + 1 for u, v, *_ in want for x in (u, v) if x is not None])
    c.check_that(set(m.boundary) == b, "the boundary reported is not the one set")
    c.check_that(m.num_nodes == nodes and m.num_edges == len(want), "the number of nodes or edges reported is not that of the graph")
    c.check_that(m.num_detectors == m._matching_graph.get_num_detectors(), "the number of detectors reported is not that of the graph")
    c.check_that(m.num_fault_ids == max([mn] + [max(f) + 1 for _, _, f, _, _ in want]), "the number of fault ids reported is not that of the graph")
    nd, nb, ne = nodes - len(b), len(b), len(want)
    c.check_that(repr(m) == f"<pymatching.Matching object with {nd} detector{'s' * (nd != 1)}, {nb} boundary node{'s' * (nb != 1)}, and {ne} edge{'s' * (ne != 1)}>", "the printed graph has other numbers")

    def matches(d, e):
        c.check_that(set(d["fault_ids"]) == e[2], "an edge is reported with other fault ids")
        c.check_that(d["weight"] == e[3], "an edge is reported with another weight")
        c.check_that(d["error_probability"] == e[4], "an edge is reported with another error probability")
    got = m.edges()
    c.check_that(len(got) == len(want), "the list of edges has missing or extra edges")
    for (u, v, d), e in zip(sorted(got, key=lambda x: min(x[2]["fault_ids"])), want):
        c.check_that({u, v} == {e[0], e[1]}, "the list of edges has other end points")
        matches(d, e)
    u, v = c.choose("u", 0, 2), c.choose("v", 0, 3)
    v = None if v == 3 else v
    hit = [e for e in want if {e[0], e[1]} == {u, v} and e[0] != e[1]]
    c.check_that((m.has_boundary_edge(u) if v is None else m.has_edge(u, v)) == bool(hit), "an edge is reported as present exactly when it was added")
    try:
        d = m.get_boundary_edge_data(u) if v is None else m.get_edge_data(u, v)
    except ValueError:
        d = None
    c.check_that((d is not None) == bool(hit), "the data of an edge is given exactly when it was added")
    if hit:
        matches(d, hit[0])
        c.reached.append("present")
    known = not any(isinstance(p, int) and p == -1 for *_, p in want)
    c.check_that(m.add_noise() == (("noise", "syndrome") if known else None), "noise is sampled exactly when every edge has an error probability")
    c.reached.append("end")


def fault_id_forms(c):
    """every accepted form of fault ids in a NetworkX or rustworkx graph, and forms that are refused"""
    mod, rec = fresh(c)
    rx = c.choose("rustworkx", 0, 1)
    x = c.num("id", 0, 9)
    forms = [([4, 2], {2, 4}), ((3,), {3}), (np.array([1, 5]), {1, 5}), (frozenset({6}), {6}), ([7, 7], {7}), ({1.5}, None), (2.5, None), ({"a"}, None), ([x], x), (np.int32(8), {8}), ([], set())]
    k = c.choose("form", 0, len(forms) - 1)
    f, want = forms[k]
    name = ("fault_ids", "qubit_id")[c.choose("deprecated", 0, 1)]
    G = pysym.RxGraph() if rx else nx.Graph()
    if rx:
        G.add_nodes_from([{}, {}])
    G.add_edge(0, 1, {name: f}) if rx else G.add_edge(0, 1, **{name: f})
    m = mod.Matching()
    try:
        m.load_from_rustworkx(G) if rx else m.load_from_networkx(G)
        ok = True
    except TypeError:
        ok = False
    c.check_that(ok == (want is not None), "fault ids are refused exactly when they are neither an integer nor integers")
    if not ok:
        c.check_that(m.num_edges == 0, "a refused graph is loaded")
        c.reached.append("refused")
        return
    got = m._matching_graph.e[0][2]
    if want is x:
        c.check_that(len(got) == 1, "fault ids are not handed over")
        c.check_that(list(got)[0] == x, "fault ids are not handed over")
    else:
        c.check_that({int(y) for y in got} == want, "fault ids are not handed over")
    c.reached.append("end")


# -------------------------------------------------------------------------------------------- models and circuits
def models(c):
    mod, rec = fresh(c)
    route, corr = c.choose("route", 0, 6), c.choose("correlations", 0, 1) == 1
    k = {"enable_correlations": True} if corr else {}
    path = (str, Path)[c.choose("path", 0, 1) if route in (4, 5) else 0]("some/file.dem")
    M = mod.Matching
    (lambda: M(pysym.StimModel("model"), **k), lambda: M(pysym.StimCircuit("circuit"), **k), lambda: M.from_detector_error_model(pysym.StimModel("model"), **k),
     lambda: M.from_stim_circuit(pysym.StimCircuit("circuit"), **k), lambda: M.from_detector_error_model_file(path, **k), lambda: M.from_stim_circuit_file(path, **k),
     lambda: c.check_that(raises(lambda: M.from_detector_error_model("x")) and raises(lambda: M.from_stim_circuit(pysym.StimModel("x"))), "something else than a model or circuit is accepted as one"))[route]()
    if route == 6:
        c.check_that(not rec.calls, "something else than a model or circuit is loaded")
        return
    want = ({"dem": "model"}, {"dem": "circuit decomposed=True"}, {"dem": "model"}, {"dem": "circuit decomposed=True"}, {"dem_path": "some/file.dem"}, {"circuit_path": "some/file.dem"})[route]
    c.check_that(rec.calls == [{**want, "correlations": corr}], "a model, circuit or file is not handed over with its options")
    c.reached.append("end")


ENTRIES = {"accessors": accessors, "fault_id_forms": fault_id_forms, "models": models, "syndrome_vector": lambda c: syndrome(c, False), "syndrome_rounds": lambda c: syndrome(c, True), "batch_options": batch,
           "matrix_weights": lambda c: check_matrix(c, "weights"), "matrix_repetitions": lambda c: check_matrix(c, "repetitions"),
           "add_edge": add_edge, "networkx": lambda c: graph(c, False), "rustworkx": lambda c: graph(c, True)}
