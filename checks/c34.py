"""Every reference in the program resolves: names, imports, attributes, call signatures, formats and locals."""
import ast
import os

from hca.engine import Program
from hca.report import SRC
from hca.resolve import Resolver
from hca.typed import Typed

TECHNIQUE = "scope, import, type-directed attribute and call-signature resolution over the syntax tree of every non-test module, plus pyright's inferred types for library objects and a may-assigned dataflow for locals"
RULES = ("every name is defined", "every import names something that exists", "every attribute exists", "every call passes what its function takes",
         "every format is well formed", "no name is read before it is given a value", "scripts find the modules they import")


def check(c):
    p = Program(SRC)
    r = Resolver(p)
    found = r.run()
    for k, n in r.counts.items():
        c.count("statements followed" if k == "statements" else k + " resolved", n)
    for name, m in p.modules.items():
        c.functions |= {f"{name}.{n.name}" for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
    typed = Typed(p, SRC, r).run()
    if typed is None:
        c.notes.append("pyright gave no answer: attributes and arguments of library objects are not checked")
    else:
        have = {(ru, m.name, line) for ru, m, line, _ in found}
        found += [x for x in typed[0] if (x[0], x[1].name, x[2]) not in have]
        c.count("files whose inferred types were checked", typed[1])
    for name, m in sorted(p.modules.items()):
        site = os.path.relpath(m.path, SRC)
        for rule in RULES:
            bad = [(line, what) for ru, mod, line, what in found if ru == rule and mod is m]
            c.ob(rule, "src/" + site, not bad, "; ".join(f"line {line}: {what}" for line, what in bad[:6]))
    if not r.libs.dirs:
        c.notes.append("installed libraries not found: what they offer is not checked")
