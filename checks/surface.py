"""The surface code circuit files of the paper, read as data."""
import os


def parse(path):
    """(operations in order of execution as (name, args, targets), number of operations).  REPEAT bodies are kept as ("REPEAT", n, body)."""
    stack = [[]]
    for line in open(path):
        line = line.split("#")[0].strip()
        if not line:
            continue
        if line == "}":
            body = stack.pop()
            n = stack[-1].pop()[1]
            stack[-1].append(("REPEAT", n, body))
            continue
        w = line.split()
        if w[0] == "REPEAT":
            stack[-1].append(("REPEAT", int(w[1]), None))
            stack.append([])
            continue
        name, _, args = w[0].partition("(")
        if args or line.find("(") >= 0:
            name = line[:line.index("(")].strip()
            args = line[line.index("(") + 1:line.index(")")]
            rest = line[line.index(")") + 1:].split()
        else:
            rest = w[1:]
        stack[-1].append((name, args, rest))
    assert len(stack) == 1, path
    return stack[0]


def walk(ops, times=1):
    for o in ops:
        if o[0] == "REPEAT":
            yield from walk(o[2], times * o[1])
        else:
            yield times, o


def facts(path):
    """Operation names, qubits acted on and how often each is measured."""
    names, qubits, measured = set(), set(), {}
    for n, (name, args, targets) in walk(parse(path)):
        names.add(name)
        for t in targets:
            if t.isdigit():
                qubits.add(int(t))
                if name in ("M", "MZ", "MX", "MY", "MR", "MRX", "MRZ"):
                    measured[int(t)] = measured.get(int(t), 0) + n
    return names, qubits, measured


def files(directory):
    out = {}
    for base, _, fs in os.walk(directory):
        for f in sorted(fs):
            if f.endswith(".stim"):
                out[os.path.relpath(os.path.join(base, f), directory)] = os.path.join(base, f)
    return out
