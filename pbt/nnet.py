"""NNET networks: a plain description, the file, the reference outputs with a rigorous rounding bound."""
import numpy as np
from hypothesis import strategies as st

EPS = 2.0 ** -24


@st.composite
def networks(draw, maxn=9, maxl=4, n=None):
    sizes = draw(st.lists(st.integers(1, maxn), min_size=2, max_size=maxl + 1))
    return {"sizes": sizes, "seed": draw(st.integers(0, 2**16)), "n": n or draw(st.sampled_from([1, 2, 4, 33])),
            "header": draw(st.lists(st.sampled_from(["// Neural Network File Format by Kyle Julian", "//", "//1,2,3,",
                                                     "// x: y, z,"]), max_size=3)),
            "fmt": draw(st.sampled_from(["r", ".5e", "g", ".17e", "f"])),
            "scale": draw(st.sampled_from(["unit", "acas", "wide", "degenerate"])),
            "symmetric": draw(st.sampled_from(["0,", "1,"])), "normalize": draw(st.booleans()), "weights": draw(st.sampled_from(["dense", "sparse"]))}


def values(case):
    """Every number of the file, as printed in it, then parsed back."""
    rng = np.random.default_rng(case["seed"])
    s = case["sizes"]

    def word(v):
        f = case["fmt"]
        return repr(float(v)) if f == "r" else format(float(v), "." + "9f" if f == "f" else f)

    def cast(a):
        return np.array([float(word(v)) for v in np.ravel(a)]).reshape(np.shape(a))
    w = [cast(rng.uniform(-1, 1, (s[i + 1], s[i]))) for i in range(len(s) - 1)]
    b = [cast(rng.uniform(-1, 1, s[i + 1])) for i in range(len(s) - 1)]
    if case.get("weights") == "sparse":     # +-1, once per row: little rounding, which leaves room for no other error
        w = [np.zeros_like(a) for a in w]
        for a in w:
            a[np.arange(len(a)), rng.integers(0, a.shape[1], len(a))] = rng.choice([-1.0, 1.0], len(a))
        b = [cast(np.where(rng.integers(0, 3, a.shape) > 0, 0.0, a)) for a in b]
    m = {"unit": 1.0, "acas": 1e4, "wide": 10.0, "degenerate": 1.0}[case["scale"]]
    lo = cast(rng.uniform(-m, m, s[0]))
    width = rng.uniform(0.0, 2 * m, s[0])
    if case["scale"] == "degenerate":
        width *= rng.integers(0, 2, s[0])
    hi = np.maximum(cast(lo + width), lo)
    mean = cast(rng.uniform(-m, m, s[0] + 1))
    rg = cast(rng.uniform(0.5, 1.0, s[0] + 1) * m)
    span = hi - lo + 0.1 * m
    x = rng.uniform(lo - span, hi + span, (case["n"], s[0])).astype(np.float32)
    if not case["normalize"]:
        x = rng.uniform(-1, 1, x.shape).astype(np.float32)
    return {"w": w, "b": b, "min": lo, "max": hi, "mean": mean, "range": rg, "word": word, "x": x}


def write(case, path):
    v = values(case)
    s = case["sizes"]

    def line(a):
        return ",".join(v["word"](e) for e in a) + ","
    out = list(case["header"])
    out += [f"{len(s) - 1},{s[0]},{s[-1]},{max(s)},", "".join(f"{k}," for k in s), case["symmetric"],
            line(v["min"]), line(v["max"]), line(v["mean"]), line(v["range"])]
    for w, b in zip(v["w"], v["b"]):
        out += [line(r) for r in w]
        out += [line([e]) for e in b]
    path.write_text("\n".join(out) + "\n")
    return v


def reference(case, v):
    """(outputs, bounds of the rounding errors), one row per sample."""
    rows, tol = [], []
    for x in v["x"].astype(np.float64):
        if case["normalize"]:
            c = np.maximum(v["min"], np.minimum(v["max"], x))
            m, r = v["mean"][:-1], v["range"][:-1]
            a = (c - m) / r
            e = 4 * EPS * ((np.abs(c) + np.abs(m)) / r + np.abs(a))
        else:
            a, e = x, np.zeros_like(x)
        for i, (w, b) in enumerate(zip(v["w"], v["b"])):
            mag = np.abs(w) @ (np.abs(a) + e) + np.abs(b)
            # products with zeros and sums with them are exact
            e = np.abs(w) @ e + (np.count_nonzero(w, axis=1) + 1) * 2 * EPS * mag
            a = w @ a + b
            if i < len(v["w"]) - 1:
                a = np.maximum(a, 0)
        if case["normalize"]:
            r, m = v["range"][-1], v["mean"][-1]
            a = a * r + m
            e = e * r + 4 * EPS * (np.abs(a) + abs(m) * 2)
        rows.append(a)
        tol.append(float(np.max(e)) + 1e-30)
    return rows, tol
