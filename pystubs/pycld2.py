# stand-in: a deterministic classifier that logs every text
import json, os
class error(Exception): pass
def detect(text, *a, **k):
    with open(os.environ["STUB_LOG"], "a") as f:
        f.write(json.dumps(["one", text]) + "\n")
    h = sum(map(ord, text)) % 7
    if h == 6:
        raise error("input contains invalid UTF-8")
    return (h != 5, len(text), (("LANG%d" % (h % 3), "l%d" % (h % 3), 99, 1.0), ("Unknown", "un", 0, 0.0), ("Unknown", "un", 0, 0.0)))
