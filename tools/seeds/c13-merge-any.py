PROPERTY = "C13"
NEEDS = "an error model with two mechanisms on the same edge whose probabilities are both large"
BREAKS = "repeated mechanisms are combined as the probability that at least one happens instead of an odd number"
EDITS = [("decoding.py", "p = p * (1 - old_p) + old_p * (1 - p)", "p = p + old_p * (1 - p)")]
DEMO = '''import sys, math
import stim
from decoding import detector_error_model_to_nx_graph
g = detector_error_model_to_nx_graph(stim.DetectorErrorModel("error(0.3) D0 D1\\nerror(0.4) D0 D1\\nerror(0.25) D1 L0"))
w = g.get_edge_data(0, 1)["weight"]
p = 0.3 * 0.6 + 0.7 * 0.4
print(w, math.log((1 - p) / p))
sys.exit(0 if abs(w - math.log((1 - p) / p)) < 1e-9 else 1)
'''
