# stand-in: local files only, gzip by extension
import builtins, gzip
def open(path, mode="r", encoding=None, **k):
    if str(path).endswith(".gz"):
        if "b" not in mode and "t" not in mode:
            mode += "t"
        return gzip.open(path, mode, encoding=encoding) if "b" not in mode else gzip.open(path, mode)
    return builtins.open(path, mode.replace("t", ""), encoding=encoding)
