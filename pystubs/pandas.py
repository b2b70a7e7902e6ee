import csv
class _Mask(list): pass
class _Col(list):
    def __eq__(self, v): return _Mask(x == v for x in self)
    def tolist(self): return list(self)
class DataFrame:
    def __init__(self, d=None):
        self.c = {}
        if d:
            keys = []
            for col in d.values():
                keys += [k for k in col if k not in keys]
            self.keys = keys
            self.d = d
    @classmethod
    def rows(cls, rows):
        x = cls()
        x.r = rows
        return x
    def fillna(self, v):
        return DataFrame.rows([{k: (v if y in ("", None) else y) for k, y in r.items()} for r in self.r])
    def __getitem__(self, k):
        if isinstance(k, _Mask):
            return DataFrame.rows([r for r, m in zip(self.r, k) if m])
        return _Col(r[k] for r in self.r)
    def __getattr__(self, k):
        if k.startswith("__") or k in ("r", "d"):
            raise AttributeError(k)
        return self[k]
def read_csv(path, *a, **k):
    with open(path, newline="") as f:
        return DataFrame.rows(list(csv.DictReader(f)))
