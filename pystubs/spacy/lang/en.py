# stand-in for a blank English pipeline: sentences end at '.', tokens are separated by blanks
import json, os
class _Tok:
    def __init__(self, t): self.text = t
class _Blob: pass
class _Us: pass
class _Sent:
    def __init__(self, t):
        self.text = t
        self._ = _Us()
        self._.blob = _Blob()
        self._.blob.polarity = (sum(map(ord, t)) % 17 - 8) / 8.0
    def __iter__(self): return iter(_Tok(x) for x in self.text.split())
    def __str__(self): return self.text
class _Doc:
    def __init__(self, text):
        self.text = text
        self.sents = [_Sent(s) for s in text.split(".") if s.strip()]
class English:
    max_length = 1000000
    def add_pipe(self, *a, **k): pass
    def __call__(self, text): return _Doc(text)
    def pipe(self, texts, *a, **k):
        texts = list(texts)
        with open(os.environ["STUB_LOG"], "a") as f:
            f.write(json.dumps(["batch", texts]) + "\n")
        return iter([_Doc(t) for t in texts])
