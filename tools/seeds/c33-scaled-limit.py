PROPERTY = "C33"
NEEDS = "a case reduction together with an explicit error limit"
BREAKS = "an explicit --max_errors is divided by the case reduction, which is only meant to scale the defaults"
EDITS = [("paper/main_collect_all.py", '''        min_seen_logical_errors=max_errors if max_errors is not None else (10**3 // case_reduction),''',
          '''        min_seen_logical_errors=(max_errors if max_errors is not None else 10**3) // case_reduction,''')]
DEMO = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src", "paper"))
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import main_collect_all as m
seen = []
m.collect_simulated_experiment_data = lambda problems, **kw: seen.append((kw["max_shots"], kw["min_seen_logical_errors"]))
sys.argv = ["x", "--case_reduction", "10", "--max_errors", "100", "--surface_code_problems_directory", "-"]
m.main()
print(seen)
sys.exit(0 if seen == [(10**7, 100)] else 1)
'''
