class Elasticsearch:
    def __init__(self, *a, **k): raise RuntimeError("no network in the check")
class helpers: pass
