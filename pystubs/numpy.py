# stand-in: a memory map shared between forked processes
import mmap, os
bool_ = bool
class memmap:
    def __init__(self, filename, dtype=bool, mode="r+", shape=None, offset=0, order="C"):
        assert dtype in (bool, "bool", "?"), dtype
        n = shape if isinstance(shape, int) else shape[0]
        if mode == "w+" or not os.path.exists(filename):
            with open(filename, "wb") as f:
                f.write(b"\0" * max(n, 1))
        self.n = n
        self.f = open(filename, "r+b")
        self.m = mmap.mmap(self.f.fileno(), max(n, 1))
        if mode == "w+":
            self.m[:] = b"\0" * len(self.m)
    def _i(self, i):
        if not -self.n <= i < self.n:
            raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, self.n))
        return i % self.n
    def __getitem__(self, i): return self.m[self._i(i)] != 0
    def __setitem__(self, i, v): self.m[self._i(i)] = 1 if v else 0
    def __len__(self): return self.n
    def flush(self): self.m.flush()
