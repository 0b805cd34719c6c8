from hca.arrays import Canon

TECHNIQUE = "value-graph dataflow analysis of the noise pass over a symbolic instruction stream (per-step buffers as loop-carried state, recursion as a summary), compared case by case with the reference definition of each model"
MODELS = ("SD6", "PC3", "EM3_v1", "EM3_v2", "SI1000")


def check(c):
    for m in MODELS:
        c.agrees("noise", "NoiseModel." + m, "spec_noise", m, rule=f"{m} has its documented strengths")
    g = "parity_measurement_with_correlated_measurement_noise"
    c.agrees("noise", g, "spec_noise", "gadget", rule="every combination of Pauli errors and flip of a parity measurement has the same share of the strength")
    c.agrees("noise", "NoiseModel.noisy_op", "spec_noise", "noisy_op", raises="set", opaque={g}, rule="each operation gets the channel of its kind on its own targets")
    c.agrees("noise", "NoiseModel.noisy_circuit", "spec_noise", "noisy_circuit", raises="set", opaque={g, "NoiseModel.noisy_op"}, post=Canon(), rule="every step gets its operations' noise and its idle noise once")
