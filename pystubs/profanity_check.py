import json, os
def predict(texts):
    texts = list(texts)
    with open(os.environ["STUB_LOG"], "a") as f:
        f.write(json.dumps(["batch", texts]) + "\n")
    return [1 if sum(map(ord, t)) % 3 == 0 else 0 for t in texts]
