"""Static analyser for honeycomb_threshold: value graphs over the Python syntax tree."""
