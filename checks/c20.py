from checks import geometry
from hca import terms as T
from hca.engine import mk_loop
from hca.terms import mk, FALSE
from hca.arrays import Canon

TECHNIQUE = ("value-graph dataflow analysis of every layout member (for arbitrary sizes) compared case by case with reference "
             "definitions, whose geometry is established on one period of the universal cover")
L = "HoneycombLayout."
MEMBERS = ("wrap first_edges_around_hex second_edges_around_hex all_edges_around_hex qubits_around_hex round_hex_centers round_edges "
           "all_edges data_qubit_coords measure_qubit_coords data_qubit_indices measure_qubit_indices data_qubit_indices_1st "
           "data_qubit_indices_2nd used_qubit_coords used_qubit_indices q2i obs_h_edges obs_v_edges obs_h_qubits obs_v_qubits "
           "obs_edges obs_qubits obs_index obs_before_sub_round obs_h_before_sub_round obs_v_before_sub_round").split()
HASHES = {"hash", "int", "round", "len", "repr", "str", "abs", "sorted", "min", "max", "isinst"}
RULES = [
    ("wrap", "wrap", "coordinates wrap with periods of four per pair of columns and six per six rows"),
    ("round_hex_centers", "hexes", "hexagon centres and their colours"),
    ("round_edges", "edges", "edges of one colour: the three towards the right of each hexagon of that colour"),
    ("all_edges", "all_edges", "all edges are those of the three colours"),
    ("first_edges_around_hex", "first", "first half of the sides of a hexagon"),
    ("second_edges_around_hex", "second", "second half of the sides of a hexagon"),
    ("all_edges_around_hex", "all_sides", "all sides of a hexagon"),
    ("qubits_around_hex", "six", "qubits around a hexagon"),
    ("sub_round_edge_basis", "basis", "Pauli basis of a sub-round"),
    ("data_qubit_coords", "data", "data qubits are the ends of edges"),
    ("measure_qubit_coords", "ancillas", "ancillae are the centres of edges"),
    ("q2i", "index", "qubits are numbered data first, then ancillae"),
    ("data_qubit_indices", "data_indices", "indices of the data qubits"),
    ("measure_qubit_indices", "ancilla_indices", "indices of the ancillae"),
    ("data_qubit_indices_1st", "first_class", "first checkerboard class"),
    ("data_qubit_indices_2nd", "second_class", "second checkerboard class"),
    ("used_qubit_coords", "used", "qubits of the style"),
    ("used_qubit_indices", "used_indices", "indices of the qubits of the style"),
    ("obs_index", "obs_index", "index of the observable"),
    ("obs_v_edges", "obs_v_edges", "edges on the vertical observable's path"),
    ("obs_h_edges", "obs_h_edges", "edges on the horizontal observable's path"),
    ("obs_v_qubits", "obs_v_qubits", "qubits of the vertical observable"),
    ("obs_h_qubits", "obs_h_qubits", "qubits of the horizontal observable"),
    ("obs_edges", "obs_edges", "edges on the chosen observable's path"),
    ("obs_qubits", "obs_qubits", "qubits of the chosen observable"),
    ("obs_before_sub_round", "obs_before", "the chosen observable before a sub-round"),
    ("obs_h_before_sub_round", "obs_h", "the horizontal observable before a sub-round"),
    ("obs_v_before_sub_round", "obs_v", "the vertical observable before a sub-round"),
]


ALSO = {"q2i": ("ref_index_1", "ref_index_2", "ref_index_3", "ref_index_4"), "data_qubit_indices_1st": ("ref_first_class_1",), "data_qubit_indices_2nd": ("ref_second_class_1",)}


class Unordered(Canon):
    """Sorting by position forgets the order in which its elements were collected (no two of them share a position, see geometry.py)."""

    def step(self, x):
        y = super().step(x)
        if y is not None:
            return y
        if x.op == "call" and x.args[0] == "sorted" and len(x.args[1]) == 2:
            a = x.args[1][0]
            s = a.args[0] if a.op == "setof" else a
            b = swapped(s)
            if b.op == "lst":
                b = mk("lst", *sorted(split(b), key=lambda t: t.key))
                b = mk("setof", b) if a.op == "setof" else b
            if b != a:
                return mk("call", "sorted", (b,) + x.args[1][1:], x.args[2])
        return None


def split(l):
    """The segments of a list one element at a time, loops over independent ranges in one order."""
    out = []
    for s in l.args:
        if s.op == "rep":
            v = T.fresh_bv()
            for e in split(T.subst(s.args[2], {s.args[1].key: v})):
                out.append(nest(s.args[0], v, e))
        elif s.op == "cseg":
            out += [y for e in split(s.args[1]) for y in T.cseg(s.args[0], T.lst([e]), T.lst([]))]
            out += [y for e in split(s.args[2]) for y in T.cseg(s.args[0], T.lst([]), T.lst([e]))]
        elif s.op == "spread" and s.args[0].op == "lst":
            out += split(s.args[0])
        else:
            out.append(s)
    return out


def nest(n, v, e):
    if e.op == "rep" and not T.mentions(e.args[0], v) and e.args[0].key < n.key:
        w = T.fresh_bv()
        inner = nest(n, v, T.subst(e.args[2], {e.args[1].key: w}).args[0]) if len(e.args[2].args) == 1 else None
        if inner is not None:
            return T.rep(e.args[0], w, T.lst([inner]))[0]
    r = T.rep(n, v, mk("lst", e))
    return r[0] if len(r) == 1 else T.spread(T.lst(r))


def swapped(t):
    """Dictionaries filled by two nested independent loops, with the loops in one order."""
    def f(x):
        if x.op != "lout" or len(x.args[2]) != 1 or x.args[5] != FALSE or x.args[6] != x.args[2][0]:
            return None
        n, i, (p,), (init,), (nx,), _, _ = x.args
        if nx.op != "lout" or len(nx.args[2]) != 1 or nx.args[5] != FALSE or nx.args[6] != nx.args[2][0] or nx.args[3][0] != p:
            return None
        m, j, (q,), _, (st,), _, _ = nx.args
        if st.op != "store" or st.args[0] != q or T.mentions(m, i) or T.mentions(m, p) or m.key >= n.key or any(T.mentions(y, z) for y in st.args[1:] for z in (p, q)):
            return None
        v, w = T.fresh_bv(), T.fresh_bv()
        p, q, st = T.fresh_phi(), T.fresh_phi(), T.subst(st, {i.key: v, j.key: w})
        st = mk("store", q, *st.args[1:])
        inner = mk_loop("lout", n, v, [q], [p], [st], FALSE, q)
        return mk_loop("lout", m, w, [p], [init], [inner], FALSE, p)
    return T.transform(t, f)


def check(c):
    opaque = {L + m for m in MEMBERS}
    for m, s, rule in RULES:
        c.agrees("honeycomb_layout", L + m, "spec_layout", "ref_" + s, raises="set", post=Unordered(), opaque=opaque - {L + m}, rule=rule,
                 also=ALSO.get(m, ()))
    edge(c)
    geometry.check(c)


def edge(c):
    ci = c.p.find_class("Edge")
    site = c.where("honeycomb_layout", "Edge")
    c.agrees("spec_layout", "run_edge", "spec_layout", "ref_edge", raises="set", post=Unordered(), also=("ref_edge_1",),
             rule="edges are stored with the end of the first checkerboard class first", site=site)
    rule = "edges are equal, and equal in sets, exactly when their ends and centres are"
    made = ci is not None and ci.dataclass
    if "__eq__" in ci.methods:
        c.agrees("spec_layout", "run_edge_eq", "spec_layout", "ref_edge_eq", raises="set", post=Unordered(), rule=rule, site=site)
    else:
        c.ob(rule, site, made, "edges are compared by identity")
    if "__ne__" in ci.methods:
        c.agrees("spec_layout", "run_edge_ne", "spec_layout", "ref_edge_ne", raises="set", post=Unordered(), rule=rule, site=site)
    if "__hash__" in ci.methods:
        r = c.summary("spec_layout", "run_edge_hash")
        odd = []
        T.transform(r.ret, lambda x: odd.append(x) or x if x.op in ("occ", "mcall") or x.op == "call" and x.args[0] not in HASHES else x)
        c.ob(rule, site, not odd and not any(s.op != "item" for s in r.world.args) and not r.world.args,
             f"the hash is not a function of the ends and the centre: {T.show(r.ret)[:300]}")
    else:
        c.ob(rule, site, made, "edges are hashed by identity")
