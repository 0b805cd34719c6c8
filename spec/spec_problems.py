"""Reference definitions and probes for problem descriptions and the circuits behind them (not executed)."""
import math
import pathlib
from typing import List

import stim

from collect_data import DecodingProblem, DecodingProblemDesc, collect_simulated_experiment_data
from honeycomb_circuit import generate_honeycomb_circuit
from honeycomb_layout import HoneycombLayout
from noise import NoiseModel
from paper.main_collect_all import honeycomb_problems, surface_code_problems, surface_code_circuit, surface_code_problem


def made_honeycomb():
    return [(p.desc, p.circuit_maker()) for p in honeycomb_problems()]


def made_surface(directory: str):
    return [(p.desc, p.circuit_maker()) for p in surface_code_problems(directory)]


def run_surface(directory: str, noise_name: str, noise: float, obs: str, d: int):
    return surface_code_circuit(directory, noise_name, noise, obs, d)


def rounds1(n: int):
    return int(math.ceil(n / 3))


def rounds2(n: int):
    return (n + 2) // 3


def rounds3(n: int):
    return -(-n // 3)


def made(self: HoneycombLayout, decoder: str):
    p = self.as_decoder_problem(decoder)
    return p.desc, p.circuit_maker()


def ref_made(self: HoneycombLayout, decoder: str):
    return self.as_decoder_problem_desc(decoder), generate_honeycomb_circuit(self)


def _desc(self, decoder, rounds):
    return DecodingProblemDesc(
        data_width=self.data_width,
        data_height=self.data_height,
        code_distance=ref_distance(self),
        num_qubits=self.num_qubits,
        rounds=rounds,
        noise=self.noise,
        circuit_style="honeycomb_" + self.style,
        preserved_observable=self.obs,
        decoder=decoder,
    )


def ref_desc(self: HoneycombLayout, decoder: str):
    return _desc(self, decoder, rounds1(self.sub_rounds))


def ref_desc_2(self: HoneycombLayout, decoder: str):
    return _desc(self, decoder, rounds2(self.sub_rounds))


def ref_desc_3(self: HoneycombLayout, decoder: str):
    return _desc(self, decoder, rounds3(self.sub_rounds))


def ref_distance(self: HoneycombLayout):
    return min(self.data_width, self.data_height // 3 * 2)


def ref_circuit(self: HoneycombLayout):
    return generate_honeycomb_circuit(self)


def ref_noise_model(self: HoneycombLayout):
    if self.style == "SD6":
        return NoiseModel.SD6(self.noise)
    if self.style == "PC3":
        return NoiseModel.PC3(self.noise)
    if self.style == "EM3":
        return NoiseModel.EM3_v1(self.noise)
    if self.style == "EM3_v2":
        return NoiseModel.EM3_v2(self.noise)
    if self.style == "SI1000":
        return NoiseModel.SI1000(self.noise)
    raise NotImplementedError(self.style)


def ref_surface_circuit(directory: str, noise_name: str, noise: float, obs: str, d: int):
    with open(f"{directory}/{noise_name.lower()}_{obs}/d{d}_p0.0.stim") as f:
        c = stim.Circuit(f.read())
    if noise_name == "SD6":
        return NoiseModel.SD6(noise).noisy_circuit(c)
    if noise_name == "SI1000":
        return NoiseModel.SI1000(noise).noisy_circuit(c)
    raise NotImplementedError(noise_name)


def made_one(directory: str, noise_name: str, noise: float, obs: str, d: int, decoder: str):
    p = surface_code_problem(directory=directory, noise_name=noise_name, noise=noise, obs=obs, d=d, decoder=decoder)
    return p.desc, p.circuit_maker()


def ref_one(directory: str, noise_name: str, noise: float, obs: str, d: int, decoder: str):
    desc = DecodingProblemDesc(
        data_width=d,
        data_height=d,
        code_distance=d,
        num_qubits=2 * d * d - 1,
        rounds=3 * d,
        noise=noise,
        circuit_style="surface_" + noise_name,
        preserved_observable=obs,
        decoder=decoder,
    )
    return desc, ref_surface_circuit(directory, noise_name, noise, obs, d)


def _probe(name):
    c = stim.Circuit()
    if name == "MPP":
        c.append_operation(name, [stim.target_x(0), stim.target_combiner(), stim.target_y(1), stim.target_z(2), stim.target_combiner(), stim.target_z(3)])
    elif name == "OBSERVABLE_INCLUDE":
        c.append_operation(name, [stim.target_rec(-1)], 0)
    elif name == "DETECTOR":
        c.append_operation(name, [stim.target_rec(-1)], [0, 0, 0])
    elif name == "SHIFT_COORDS" or name == "TICK":
        c.append_operation(name, [])
    else:
        c.append_operation(name, [0, 1])
    return c


def accepts(style: str, noise: float, name: str):
    lay = HoneycombLayout(data_width=2, data_height=6, sub_rounds=3, style=style, obs="V", noise=noise)
    return lay.noise_model.noisy_circuit(_probe(name))


def accepts_repeat(style: str, noise: float):
    lay = HoneycombLayout(data_width=2, data_height=6, sub_rounds=3, style=style, obs="V", noise=noise)
    c = stim.Circuit()
    c.append_operation("R", [0, 1])
    return lay.noise_model.noisy_circuit(c * 5)


def ref_init(self: HoneycombLayout):
    if self.data_width % 2 != 0:
        raise NotImplementedError("width")
    if self.data_height % 6 != 0:
        raise NotImplementedError("height")


# ------------------------------------------------------------------ the collection suite and its figures


def selected(data):
    return None


class ModelGroups:
    @staticmethod
    def groups_from_data(data):
        selected(data)
        return {}


def _model(model, noise):
    if model == "SD6":
        return NoiseModel.SD6(noise)
    if model == "PC3":
        return NoiseModel.PC3(noise)
    if model == "EM3_v1":
        return NoiseModel.EM3_v1(noise)
    if model == "EM3_v2":
        return NoiseModel.EM3_v2(noise)
    return NoiseModel.SI1000(noise)


def accepts_in(model: str, noise: float, name: str):
    return _model(model, noise).noisy_circuit(_probe(name))


def accepts_repeat_in(model: str, noise: float):
    c = stim.Circuit()
    c.append_operation("R", [0, 1])
    return _model(model, noise).noisy_circuit(c * 5)


def _suite(surface_dir, problem_id, problems):
    return problems if problem_id is None else [problems[problem_id]]


def ref_collected(surface_dir, problem_id):
    if surface_dir is None:
        surface_dir = str(pathlib.Path(__file__).parent) + "/surface_code_circuits"
    collect_simulated_experiment_data(_suite(surface_dir, problem_id, honeycomb_problems() + surface_code_problems(surface_dir)))


def ref_collected_2(surface_dir, problem_id):
    if surface_dir is None:
        surface_dir = str(pathlib.Path(__file__).parent) + "/surface_code_circuits"
    collect_simulated_experiment_data(_suite(surface_dir, problem_id, surface_code_problems(surface_dir) + honeycomb_problems()))
