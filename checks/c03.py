from hca import terms as T
from hca.terms import mk, num, const, strval, TRUE, FALSE, not_
from hca import events as E
from hca.linear import Facts
from .rows import *

TECHNIQUE = "typestate analysis of the output file over the effect log (open mode, writes, close) in every case of path, discard flag and file existence"
DANGER = ("remove", "unlink", "rename", "replace", "rmtree", "move", "truncate", "write_text", "write_bytes", "copy", "system", "Popen")


def exists_atoms(world):
    out = []
    for t in T.subterms(world):
        if t.op in ("mcall", "call") and t.args[0] in ("exists", "is_file", "os.path.exists", "os.path.isfile"):
            out.append(T.truth(t))
        if t.op == "truth" and t.args[0].op in ("mcall", "call") and t.args[0].args[0] in ("exists", "is_file", "os.path.exists", "os.path.isfile"):
            out.append(t)
    seen = {}
    for t in out:
        seen[t.key] = t
    return list(seen.values())


def mode_of(f):
    m = strval(f.args[1]) or "?"
    return m if m.replace("t", "", 1) in ("r", "w", "a", "x", "r+", "w+", "a+", "x+") else "?"


def writer(c, qual, s, sample):
    site = c.where("collect_data", qual)
    node = E.tree(s.world)
    path = T.sym("out_path", "Optional[str]")
    none = T.isnone(path)
    discard = T.truth(T.sym("discard_previous_data", "bool"))
    ex = exists_atoms(s.world)
    for t in T.subterms(s.world):
        if t.op == "occ" and any(t.args[0].split(".")[-1] == d for d in DANGER):
            c.ob("no operation other than opening for append touches files", site, False, T.show(t)[:300])
        if t.op == "mcall" and t.args[0] in DANGER and t.args[0] not in ("replace", "copy"):
            c.ob("no operation other than opening for append touches files", site, False, T.show(t)[:300])
    header = header_of(c, node, site)
    ncase = 0
    for given in (False, True):
        for disc in (False, True):
            for exi in (False, True):
                f0 = Facts([not_(none) if given else none, discard if disc else not_(discard)])
                for a in ex:
                    f0 = f0.assume(a if exi else not_(a))
                label = f"path {'given' if given else 'None'}, discard={disc}, file {'exists' if exi else 'missing'}"
                for facts, tr in E.traces(node, f0):
                    ncase += 1
                    prelude(c, site, facts, tr, given, disc, exi, header, path, sample, label)
    c.count("lifecycle cases", ncase)


def has_sample(n, sample):
    return any(x[2] == "ev" and is_sample(x[3], sample) for x in E.walk(n))


def prelude(c, site, facts, tr, given, disc, exi, header, path, sample, label):
    opens, written, closed = [], [], set()
    sampled = False
    for it in tr:
        if it[0] == "ev":
            k = E.ev_kind(it[1])
            if k == "OPEN":
                opens.append(it[1].args[1])
                c.ob("nothing is opened after sampling started except rows' appends", site, not sampled, label)
            elif k == "WRITE":
                written.append((it[1].args[1], it[1].args[2]))
            elif k == "CLOSE":
                closed.add(it[1].args[1].key)
            elif k == "RAISE":
                return
        elif it[0] == "loop":
            if not has_sample(it[2], sample):
                bad = [x for x in E.walk(it[2]) if x[2] == "ev" and E.ev_kind(x[3]) in ("OPEN", "WRITE")]
                c.ob("files are only touched before and inside the sampling loop", site, not bad, f"{label}: {T.show(bad[0][3])[:200] if bad else ''}")
                continue
            if not sampled:
                before(c, site, opens, written, closed, given, disc, exi, header, path, label)
            sampled = True
            body(c, site, it[2], facts, given, path, sample, label, closed, opens)
    if not sampled:
        c.ob("sampling happens inside a loop", site, False, label)


def before(c, site, opens, written, closed, given, disc, exi, header, path, label):
    wr = [o for o in opens if mode_of(o)[0] in "wx" or mode_of(o)[0] not in "ra"]
    ours = [o for o in opens if o.args[0] == path]
    c.ob("only the requested path is opened", site, len(ours) == len(opens), f"{label}: {[T.show(o) for o in opens]}")
    need = given and (disc or not exi)
    if not given:
        c.ob("nothing is opened when no path is given", site, not opens, f"{label}: {[T.show(o) for o in opens]}")
        return
    if not need:
        c.ob("an existing file that should be kept is not truncated", site, not wr, f"{label}: opened {[T.show(o) for o in wr]}")
        c.ob("a kept file gets no second header", site, not written, f"{label}: writes {[T.show(w[1])[:120] for w in written]}")
        return
    if disc and exi:
        c.ob("discarding previous data truncates the file", site, len(wr) == 1 and mode_of(wr[0]).startswith("w"), f"{label}: opened {[T.show(o) for o in opens]}")
    c.ob("a new or truncated file is set up by exactly one open", site, len(opens) == 1, f"{label}: opened {[T.show(o) for o in opens]}")
    txt = T.strcat(*[w[1] for w in written]) if written else const("")
    c.ob("a new or truncated file gets exactly one header line", site, strval(txt) == header, f"{label}: writes {T.show(txt)[:300]}")
    c.ob("the header is written to the opened file, which is then closed", site,
         all(any(w[0] == o for o in opens) for w in written) and all(o.key in closed for o in opens), label)


def body(c, site, n, facts, given, path, sample, label, closed0, opens0):
    """One iteration of a loop that samples (possibly containing the batch loop)."""
    inner = [it for it in n.items if it[0] == "loop"]
    for f, tr in E.traces(n, facts):
        ph = "idle"     # idle -> sampled -> open -> written -> idle
        cur = None
        for it in tr:
            if it[0] == "loop":
                if has_sample(it[2], sample):
                    c.ob("no batch is pending when another loop of batches starts", site, ph == "idle", f"{label}: {ph}")
                    body(c, site, it[2], f, given, path, sample, label, closed0, opens0)
                else:
                    bad = [x for x in E.walk(it[2]) if x[2] == "ev" and E.ev_kind(x[3]) in ("OPEN", "WRITE", "CLOSE")]
                    c.ob("files are not touched by inner loops", site, not bad, label)
                continue
            if it[0] == "opaque":
                c.ob("the effect log is fully understood", site, False, T.show(it[1])[:200])
                continue
            e = it[1]
            k = E.ev_kind(e)
            if k == "OP" and is_sample(e, sample):
                c.ob("a finished batch is on disk before the next one is sampled", site, ph == "idle", f"{label}: state {ph}")
                ph = "sampled" if given else "idle"
            elif k == "OPEN":
                c.ob("inside the loop the file is only ever opened for appending, at the requested path", site,
                     given and e.args[1].args[0] == path and mode_of(e.args[1]).startswith("a") and ph == "sampled", f"{label}: {T.show(e.args[1])} in state {ph}")
                ph, cur = "open", e.args[1]
            elif k == "WRITE":
                c.ob("a row is written to the file opened for it", site, ph in ("open", "written") and e.args[1] == cur, f"{label}: {T.show(e)[:200]} in state {ph}")
                ph = "written"
            elif k == "CLOSE":
                c.ob("the file is closed after its row was written", site, ph == "written" and e.args[1] == cur, f"{label}: state {ph}")
                ph = "idle"
            elif k == "RAISE":
                ph = "idle"
                break
        c.ob("each finished batch is written and the file closed within its own iteration", site, ph == "idle", f"{label}: iteration ends in state {ph}")


def check(c):
    writer(c, "collect_simulated_experiment_data", run_simulated(c), "sample_decode_count_correct")
    writer(c, "collect_detection_fraction_data", run_fraction(c), ".sample")
