"""The CSV writers: which header and which rows they produce (shared by C01, C03)."""
from hca import terms as T
from hca.terms import mk, num, const, strval, TRUE, FALSE, subst
from hca import events as E
from hca.equiv import equal, Prover
from hca.linear import Facts

COLUMNS = {"data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance",
           "num_qubits", "num_shots", "num_correct", "total_processing_seconds", "decoder", "version"}
CLOCKS = {"time.monotonic", "time.perf_counter", "time.time", "time.monotonic_ns", "time.process_time"}


def fields_of(text):
    """Comma separated fields (lists of parts) of one text line, or None."""
    parts = text.args if text.op == "strcat" else (text,)
    out = [[]]
    nl = 0
    for p in parts:
        s = strval(p)
        if s is None:
            out[-1].append(p)
            continue
        if "\n" in s[:-1] or (s.endswith("\n") and p is not parts[-1]):
            return None
        if s.endswith("\n"):
            nl = 1
            s = s[:-1]
        bits = s.split(",")
        for j, b in enumerate(bits):
            if j:
                out.append([])
            if b:
                out[-1].append(const(b))
    if not nl:
        return None
    return out


def field_term(parts):
    if not parts:
        return const("")
    return parts[0] if len(parts) == 1 else T.strcat(*parts)


def run_simulated(c, **args):
    return c.summary("collect_data", "collect_simulated_experiment_data", args=args,
                     opaque={"sample_decode_count_correct"}, effectful={"sample_decode_count_correct"})


def run_fraction(c):
    return c.summary("collect_data", "collect_detection_fraction_data")


def is_sample(e, name):
    return E.ev_kind(e) == "OP" and e.args[1].op == "occ" and e.args[1].args[0] == name


def header_of(c, node, site):
    """The header text: the constant line printed to stdout before any loop."""
    for it in node.items:
        if it[0] == "ev" and E.ev_kind(it[1]) == "STDOUT":
            s = strval(it[1].args[1])
            if s is not None and s.endswith("\n") and "," in s:
                return s
    c.ob("a header line naming the columns is printed first", site, False, "no constant header line is written to stdout")
    return None


def occ_arg(o, name):
    """Named argument of an opaque repo call occurrence."""
    for s in o.args[1].args:
        pr = s.args[0]
        if pr.op == "lst" and len(pr.args) == 2 and strval(pr.args[0].args[0]) == name:
            return pr.args[1].args[0]
    return None


def lines(tr):
    """[(index, kind, file or None, text)] of WRITE/STDOUT events, merging partial writes up to a newline."""
    out = []
    buf = {}
    for j, it in enumerate(tr):
        if it[0] != "ev":
            continue
        e = it[1]
        k = E.ev_kind(e)
        if k == "WRITE":
            key, f, t = ("f", e.args[1].key), e.args[1], e.args[2]
        elif k == "STDOUT":
            key, f, t = ("o",), None, e.args[1]
        else:
            continue
        cur = T.strcat(buf[key], t) if key in buf else t
        last = cur.args[-1] if cur.op == "strcat" else cur
        s = strval(last)
        if s is not None and s.endswith("\n"):
            buf.pop(key, None)
            out.append((j, k, f, cur))
        else:
            buf[key] = cur
    for key, t in buf.items():
        out.append((len(tr), "partial", None, t))
    return out


def same(a, b, facts=None):
    return a is not None and b is not None and equal(a, b, facts)[0] is None


def canon_counts(t):
    """Different spellings of 'number of entries' and 'number of true entries' of a sample table."""
    def f(x):
        if x.op == "attr" and x.args[1] == "size":
            return mk("call", "math.prod", (T.mk("attr", x.args[0], "shape", "?"),), ())
        return None
    return T.transform(t, f)
