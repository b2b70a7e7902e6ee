# stand-in: progress bars do nothing
def tqdm(it=None, *a, **k):
    return it
trange = range
class autonotebook:
    tqdm = staticmethod(tqdm)
