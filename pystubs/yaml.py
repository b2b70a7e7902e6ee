def safe_load(f): raise RuntimeError("no configuration in the check")
