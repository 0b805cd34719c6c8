PROPERTY = "C34"
NEEDS = "a single problem being requested"
BREAKS = "announcing the single requested problem reads a field its description does not have"
EDITS = [("paper/main_collect_all.py", '''        print(f"Running problem #: {problem_id}", file=sys.stderr)
        problems = [problems[problem_id]]''', '''        problems = [problems[problem_id]]
        print(f"Running problem #: {problem_id} ({problems[0].desc.style})", file=sys.stderr)''')]
DEMO = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src", "paper"))
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import main_collect_all as m
m.collect_simulated_experiment_data = lambda problems, **kw: None
sys.argv = ["x", "--problem_id", "3", "--surface_code_problems_directory", "-"]
m.main()
'''
