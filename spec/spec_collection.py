"""Reference definition of the suite's collection script (not executed)."""
import argparse
import pathlib


from collect_data import collect_simulated_experiment_data
from paper.main_collect_all import honeycomb_problems, surface_code_problems


def main():
    options = argparse.ArgumentParser().parse_args()
    directory = options.surface_code_problems_directory
    if directory is None:
        directory = f"{pathlib.Path(__file__).parent}/surface_code_circuits"
    problems = honeycomb_problems() + surface_code_problems(directory)
    if options.problem_id is not None:
        problems = [problems[options.problem_id]]
    reduction = options.case_reduction if options.case_reduction else 1
    collect_simulated_experiment_data(
        problems,
        out_path=options.out_file,
        discard_previous_data=False,
        min_shots=25,
        max_batch=options.max_batch_size if options.max_batch_size is not None else 2**15,
        max_shots=options.max_shots if options.max_shots is not None else 10**8 // reduction,
        max_sample_std_dev=1,
        min_seen_logical_errors=options.max_errors if options.max_errors is not None else 10**3 // reduction,
    )
