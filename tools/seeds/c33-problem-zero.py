PROPERTY = "C33"
NEEDS = "problem_id 0, the first of the list"
BREAKS = "--problem_id 0 runs every problem instead of the first one"
EDITS = [("paper/main_collect_all.py", '''    if problem_id is not None:
        print(f"Running''', '''    if problem_id:
        print(f"Running''')]
DEMO = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src", "paper"))
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import main_collect_all as m
seen = []
m.collect_simulated_experiment_data = lambda problems, **kw: seen.append(len(problems))
sys.argv = ["x", "--problem_id", "0", "--surface_code_problems_directory", "-"]
m.main()
print(seen)
sys.exit(0 if seen == [1] else 1)
'''
