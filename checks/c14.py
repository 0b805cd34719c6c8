import hca.terms as T
from hca.arrays import Canon, rewrite
from hca.engine import mk_loop

TECHNIQUE = "value-graph dataflow analysis of the noise pass with every noise channel projected out of the emitted instruction streams, compared case by case with the projected reference definition"
NOISE = {"X_ERROR", "Y_ERROR", "Z_ERROR", "DEPOLARIZE1", "DEPOLARIZE2", "CORRELATED_ERROR", "E", "ELSE_CORRELATED_ERROR", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2"}


def ideal(t):
    """The circuit without its noise: channels vanish, parity measurements are reported without error."""
    def f(x):
        if x.op == "lst":
            out = []
            for s in x.args:
                if s.op == "item" and s.args[0].op == "op":
                    name, targets, args = s.args[0].args
                    if T.or_(*[T.eq(name, T.const(n)) for n in sorted(NOISE)]) == T.TRUE:
                        continue
                    s = T.item(T.mk("op", name, targets, T.ite(T.eq(name, T.const("MPP")), T.lst([]), args)))
                out.append(s)
            return T.lst(out)
        if x.op == "idx" and x.args[0].op == "call" and x.args[0].args[0] == "NoiseModel.noisy_op" and T.numval(x.args[1]) in (0, 2):
            return T.lst([])        # noisy_op is shown to put noise only there
        if x.op in ("lout", "lseg"):
            n, i, phis, inits, nexts, exitc, expr = x.args
            y = mk_loop(x.op, None if n == T.NONE else n, i, list(phis), list(inits), list(nexts), exitc, expr)
            if y.op != x.op or len(y.args[2]) < len(phis):
                return y
        return None
    return rewrite(t, f)


def project(t):
    return ideal(Canon()(t))


def check(c):
    g = "parity_measurement_with_correlated_measurement_noise"
    c.agrees("noise", g, "spec_noise", "gadget", post=project, rule="the extra qubit reports exactly the parity asked for")
    c.agrees("noise", "NoiseModel.noisy_op", "spec_noise", "noisy_op", raises="set", opaque={g}, post=project, rule="each operation is kept as it is")
    c.agrees("noise", "NoiseModel.noisy_circuit", "spec_noise", "noisy_circuit", raises="set", opaque={g, "NoiseModel.noisy_op"}, post=project,
             rule="instructions, time steps and repetitions are kept in order")
