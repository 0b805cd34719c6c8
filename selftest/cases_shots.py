F = "collect_data.py"
LOOPTOP = '''        num_seen_errors = 0
        num_next_shots = min(min_shots, max_shots, max_batch)
        total_shots = 0
        while True:
'''
TAIL = '''            total_shots += num_next_shots
            num_seen_errors += num_next_shots - num_correct
            p = num_seen_errors / total_shots
            cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
            if total_shots >= max_shots:
                break
            if total_shots >= min_shots:
                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
                    break
                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
                    break
            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
'''
CASES = [
 ("whilecond", ["C04", "C01", "C03"], "quiet", [(F, LOOPTOP, LOOPTOP.replace("while True", "while total_shots < max_shots")), (F, TAIL, '''            total_shots += num_next_shots
            num_seen_errors += num_next_shots - num_correct
            p = num_seen_errors / total_shots
            cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
            if total_shots >= min_shots:
                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
                    break
                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
                    break
            num_next_shots = min(max_batch, 2 * num_next_shots, max_shots - total_shots)
''')]),
 ("done_helper", ["C04", "C01"], "quiet", [(F, TAIL, '''            total_shots += num_next_shots
            num_seen_errors += num_next_shots - num_correct
            if _done(total_shots, num_seen_errors, min_shots, max_shots, min_seen_logical_errors, max_sample_std_dev):
                break
            num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
'''), (F, None, '''

def _done(shots, errors, min_shots, max_shots, min_errors, max_dev):
    if shots >= max_shots:
        return True
    if shots < min_shots:
        return False
    rate = errors / shots
    if errors >= 10 and errors >= shots * 0.48:
        return True
    return errors >= min_errors and math.sqrt(rate * (1 - rate) / shots) <= max_dev
''')]),
 ("flag", ["C04", "C01", "C03"], "quiet", [(F, LOOPTOP, LOOPTOP.replace("        while True:", "        done = False\n        while not done:")), (F, TAIL, '''            total_shots += num_next_shots
            num_seen_errors += num_next_shots - num_correct
            p = num_seen_errors / total_shots
            cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
            enough = num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev
            hopeless = num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10
            done = total_shots >= max_shots or (total_shots >= min_shots and (enough or hopeless))
            if not done:
                num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
''')]),
 ("correct_count", ["C04", "C01"], "quiet", [(F, LOOPTOP, LOOPTOP.replace("num_seen_errors = 0", "total_correct = 0")), (F, TAIL, TAIL.replace("num_seen_errors += num_next_shots - num_correct\n", "total_correct += num_correct\n            num_seen_errors = total_shots - total_correct\n"))]),
 ("remaining", ["C04", "C01"], "quiet", [(F, LOOPTOP, LOOPTOP.replace("        while True", "        remaining = max_shots\n        while True")), (F, TAIL, TAIL.replace("            total_shots += num_next_shots\n", "            total_shots += num_next_shots\n            remaining -= num_next_shots\n").replace("total_shots >= max_shots", "remaining <= 0").replace("max_shots - total_shots", "remaining"))]),
 ("minover", ["C04"], "alarm", [(F, LOOPTOP, LOOPTOP.replace("min(min_shots, max_shots, max_batch)", "min(min_shots, max_batch)"))]),
 ("nolimit", ["C04"], "alarm", [(F, TAIL, TAIL.replace("min(max_batch, min(2 * num_next_shots, max_shots - total_shots))", "min(2 * num_next_shots, max_shots - total_shots)"))]),
 ("over", ["C04"], "alarm", [(F, TAIL, TAIL.replace("min(max_batch, min(2 * num_next_shots, max_shots - total_shots))", "min(max_batch, 2 * num_next_shots)"))]),
 ("or", ["C04"], "alarm", [(F, TAIL, TAIL.replace("min_seen_logical_errors and cur", "min_seen_logical_errors or cur"))]),
 ("gt", ["C04"], "alarm", [(F, TAIL, TAIL.replace("total_shots >= max_shots", "total_shots > max_shots"))]),
 ("48", ["C04"], "alarm", [(F, TAIL, TAIL.replace("0.48", "0.49"))]),
 ("sd", ["C04"], "alarm", [(F, TAIL, TAIL.replace("math.sqrt(p * (1 - p) / total_shots)", "math.sqrt(p * (1 - p)) / total_shots"))]),
 ("sdbatch", ["C04"], "alarm", [(F, TAIL, TAIL.replace("math.sqrt(p * (1 - p) / total_shots)", "math.sqrt(p * (1 - p) / num_next_shots)"))]),
 ("hoist", ["C04"], "alarm", [(F, "    for problem in problems:\n" + LOOPTOP, "    num_seen_errors = 0\n    for problem in problems:\n" + LOOPTOP.replace("        num_seen_errors = 0\n", ""))]),
 ("errbatch", ["C04"], "alarm", [(F, TAIL, TAIL.replace("num_seen_errors += num_next", "num_seen_errors = num_next"))]),
 ("zero", ["C04"], "alarm", [(F, TAIL, TAIL.replace("2 * num_next_shots", "num_next_shots // 2"))]),
 ("recorded", ["C04"], "alarm", [(F, "                num_next_shots,\n                num_correct,\n", "                min_shots,\n                num_correct,\n")]),
]
