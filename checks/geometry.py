"""Facts about the reference geometry (spec/spec_layout.py), established by enumerating it.

Every definition there commutes with translations by (4, 0) and (0, 6) and looks at most four columns and three rows away, so
each torus of at least two periods per direction looks like every other one around each of its hexagons; the sizes below are
all the tori of up to MAX periods per direction, which includes the small ones that wrap onto themselves.
What is evaluated is the reference kept in /verif; the code is compared with it symbolically, for arbitrary sizes.
"""
import ast
import os

MAX = 4


class Edge:
    def __init__(self, *, left, right, center):
        self.left, self.right, self.center = NS["placed"](NS["ref_parity"](left), NS["ref_parity"](right), left, right, center)

    def key(self):
        return self.left, self.right, self.center

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


NS = {"Edge": Edge, "HoneycombLayout": None}


def load():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "spec_layout.py")
    tree = ast.parse(open(path).read())
    tree.body = [n for n in tree.body if not isinstance(n, (ast.Import, ast.ImportFrom))]
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            n.returns = None
            for a in n.args.args:
                a.annotation = None
    exec(compile(tree, path, "exec"), NS)


class Torus:
    def __init__(self, w, h, style="SD6", obs="V"):
        self.data_width, self.data_height, self.style, self.obs = w, h, style, obs
        r = lambda f, *a: NS["ref_" + f](self, *a)
        self.wrap = lambda c: r("wrap", c)
        self.hexes = [r("hexes", k) for k in range(3)]
        self.round_hex_centers = lambda k: self.hexes[k]
        self.edges = [r("edges", k) for k in range(3)]
        self.round_edges = lambda k: self.edges[k % 3]
        self.all_edges = r("all_edges")
        self.data_qubit_coords = r("data")
        self.measure_qubit_coords = r("ancillas")
        self.q2i = r("index")
        self.obs_v_edges, self.obs_h_edges = r("obs_v_edges"), r("obs_h_edges")
        self.obs_v_qubits, self.obs_h_qubits = r("obs_v_qubits"), r("obs_h_qubits")
        self.first_edges_around_hex = lambda h: r("first", h)
        self.second_edges_around_hex = lambda h: r("second", h)


BASES = {"V": "ZYYXXZ", "H": "XXZZYY"}


def facts(w, h):
    """[(rule, holds, detail)] for one torus."""
    t = Torus(w, h)
    out = []
    tiles = (w // 2) * (h // 6)
    size = f"{w}x{h}"
    par = NS["ref_parity"]
    hexes = [x for k in range(3) for x in t.hexes[k]]
    out.append(("hexagons are three-coloured, a third of them each", len(set(hexes)) == len(hexes) == 6 * tiles and len({len(k) for k in t.hexes}) == 1, size))
    data = t.data_qubit_coords
    out.append(("there are 12 data qubits and 18 ancillae per tile, all distinct",
                len(set(data)) == 12 * tiles == w * h and len(set(t.measure_qubit_coords)) == 18 * tiles and not set(data) & set(t.measure_qubit_coords)
                and sorted(t.q2i.values()) == list(range(30 * tiles)) and len(t.q2i) == int(w * h * 2.5), size))
    for c in range(3):
        ends = [q for e in t.edges[c] for q in (e.left, e.right)]
        out.append(("the edges of one colour pair up all data qubits", sorted(map(key, ends)) == sorted(map(key, data)), f"{size} colour {c}"))
        out.append(("edges run from the first to the second checkerboard class", all(not par(e.left) and par(e.right) for e in t.edges[c]), f"{size} colour {c}"))
        out.append(("edges of one colour join hexagons of that colour", all(joins(t, e, t.hexes[c]) for e in t.edges[c]), f"{size} colour {c}"))
        for x in t.hexes[c]:
            six = NS["ref_six"](t, x)
            one, two = set(t.first_edges_around_hex(x)), set(t.second_edges_around_hex(x))
            ok = len(one) == len(two) == 3 and one <= set(t.edges[(c + 1) % 3]) and two <= set(t.edges[(c + 2) % 3])
            out.append(("the sides of a hexagon are three edges of each other colour", ok, f"{size} hexagon {x}"))
            for part in (one, two):
                out.append(("either half of a hexagon's sides covers its six qubits", sorted(map(key, (q for e in part for q in (e.left, e.right)))) == sorted(map(key, six))
                            and len(set(six)) == 6, f"{size} hexagon {x}"))
    for obs in "VH":
        path = t.obs_v_edges if obs == "V" else t.obs_h_edges
        before = lambda k: NS["ref_obs_" + obs.lower()](t, k)
        for k in range(6):
            basis, qs = before(k)
            out.append(("the observable's basis at each sub-round", basis == BASES[obs][k], f"{size} {obs} {k}"))
            # operators as maps qubit -> set of Paulis modulo the edge measurements: multiply by the path's edges of this colour
            p = {}
            for q in qs:
                mulp(p, q, basis)
            out.append(("the observable is a string of distinct qubits", len(p) == len(qs) > 0, f"{size} {obs} {k}"))
            col = "XYZ"[k % 3]
            for e in path:
                if e in set(t.edges[k % 3]):
                    mulp(p, e.left, col)
                    mulp(p, e.right, col)
            nb, nqs = before(k + 1)
            want = {}
            for q in nqs:
                mulp(want, q, nb)
            out.append(("multiplying the path's edges of a sub-round into the observable gives the observable of the next", p == want, f"{size} {obs} {k}"))
            # commutes with every edge measured
            bad = [e for e in t.edges[k % 3] if sum((p.get(q) not in (None, col)) for q in (e.left, e.right)) % 2]
            out.append(("the observable commutes with the edges measured", not bad, f"{size} {obs} {k}"))
            out.append(("the path's edges are edges of the layout, each once", len(set(path)) == len(path) and set(path) <= set(t.all_edges), f"{size} {obs}"))
    for obs in "VH":
        for k in range(6):
            basis, qs = (NS["ref_obs_v"] if obs == "V" else NS["ref_obs_h"])(t, k)
            bad = [x for c in range(3) if "XYZ"[c] != basis for x in t.hexes[c] if len(set(qs) & set(NS["ref_six"](t, x))) % 2]
            out.append(("the observable commutes with every hexagon", not bad, f"{size} {obs} {k}"))
    for k in range(6):
        (bv, v), (bh, x) = NS["ref_obs_v"](t, k), NS["ref_obs_h"](t, k)
        out.append(("the two observables anticommute", bv != bh and len(set(v) & set(x)) % 2 == 1, f"{size} {k}"))
    return out


def key(q):
    return q.real, q.imag


def joins(t, e, hexes):
    """Both hexagons at the ends of an edge (beyond its end qubits) are of the edge's colour."""
    found = 0
    s = set(hexes)
    for h in s:
        for a, d in ((1 - 1j, 2 - 3j), (1 + 1j, 2 + 3j), (1, 4)):
            if t.wrap(h + d / 2) == e.center and {t.wrap(h + a), t.wrap(h + d - a)} == {e.left, e.right} and t.wrap(h + d) in s:
                found += 1
    return found == 1


MUL = {("X", "Y"): "Z", ("Y", "X"): "Z", ("X", "Z"): "Y", ("Z", "X"): "Y", ("Y", "Z"): "X", ("Z", "Y"): "X"}


def mulp(p, q, b):
    if q not in p:
        p[q] = b
    elif p[q] == b:
        del p[q]
    else:
        p[q] = MUL[(p[q], b)]


def check(c):
    load()
    for tw in range(1, MAX + 1):
        for th in range(1, MAX + 1):
            c.count("tori enumerated")
            for rule, ok, detail in facts(2 * tw, 6 * th):
                c.ob("reference geometry: " + rule, "spec/spec_layout.py", ok, detail)


if __name__ == "__main__":
    load()
    from collections import Counter
    bad = Counter()
    ex = {}
    n = 0
    for tw in range(1, MAX + 1):
        for th in range(1, MAX + 1):
            for rule, ok, d in facts(2 * tw, 6 * th):
                n += 1
                if not ok:
                    bad[rule] += 1
                    ex.setdefault(rule, []).append(d)
    print(n)
    for r in bad:
        print(bad[r], r, ex[r][:8])
