"""P14 - acetone_compare reports the worst difference between two output files."""
import contextlib
import io
import math
import sys
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt.cgen import scratch
from pbt.engine import Check, Family, Info, Violation

F32 = np.finfo(np.float32)


def number(precision):
    w = 32 if precision == "float" else 64
    f = st.floats(width=w, allow_nan=False, allow_infinity=False)
    return st.one_of(f, st.floats(-4, 4, width=w), st.sampled_from([0.0, -0.0, 1.0]))


@st.composite
def cases(draw):
    precision = draw(st.sampled_from(["float", "double", None]))
    num = number("double" if precision == "double" else "float")
    nb, lines, width = draw(st.integers(1, 5)), None, draw(st.integers(1, 5))
    lines = nb + draw(st.integers(0, 3))
    ref = [[draw(num) for _ in range(width)] for _ in range(lines)]
    got = []
    for row in ref:
        kind = draw(st.sampled_from(["same", "close", "close", "other"]))
        if kind == "same":
            got.append(list(row))
        elif kind == "close":
            # the rounding errors of a few operations on one of the values
            r, j = list(row), draw(st.integers(0, width - 1))
            dt = np.float64 if precision == "double" else np.float32
            v = dt(r[j])
            for _ in range(draw(st.integers(1, 40))):
                v = np.nextafter(v, dt(4e38 if dt is np.float32 else 1e300), dtype=dt)
            if np.isfinite(v):
                r[j] = float(v)
            got.append(r)
        else:
            got.append([draw(num) for _ in range(width)])
    special = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        i, j = draw(st.integers(0, lines - 1)), draw(st.integers(0, width - 1))
        v = draw(st.sampled_from([math.nan, math.inf, -math.inf]))
        (ref if draw(st.booleans()) else got)[i][j] = v
        special.append(i)
    cut = None
    if draw(st.integers(0, 5)) == 0:
        which, how = draw(st.integers(0, 1)), draw(st.sampled_from(["line", "value", "more"]))
        i = draw(st.integers(0, nb - 1))
        cut = [which, how, i]
        f = (ref, got)[which]
        if how == "line":
            del f[i:]
        elif how == "value":
            f[i] = f[i][:-1]
        else:
            f[i] = [*f[i], draw(num)]
    return {"precision": precision, "nb": nb, "ref": ref, "got": got, "cut": cut,
            "styles": [draw(st.sampled_from(["python", "c"])) for _ in range(2)]}


def text(v, style):
    if math.isnan(v):
        return "nan"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    h = v.hex()
    if style == "c":          # printf("%a"): no trailing zeros
        m, e = h.split("p")
        if "." in m:
            m = m.rstrip("0").rstrip(".")
        h = f"{m}p{e}"
    else:
        h = h.replace("0000000p", "p")
    return h


def write(path, rows, style):
    end = "  \n" if style == "python" else " \n"
    path.write_text("".join(" ".join(text(v, style) for v in r) + end for r in rows))


def expected(case):
    """(largest absolute difference, largest relative one, all equal, some clearly different)"""
    nb = case["nb"]
    da = dr = Fraction(0)
    nan = inf = False
    same, far = True, False
    for r, g in zip(case["ref"][:nb], case["got"][:nb], strict=True):
        for a, b in zip(r, g, strict=True):
            if a == b:
                continue
            same = False
            if math.isnan(a) or math.isnan(b):
                nan = far = True
            elif math.isinf(a) or math.isinf(b):
                inf = far = True
            else:
                fa, fb = Fraction(a), Fraction(b)
                d = abs(fa - fb)
                n = abs(fa) + abs(fb)
                da, dr = max(da, d), max(dr, 2 * d / n)
                far |= d > 1000 * Fraction(sys.float_info.epsilon) * n and d > Fraction(1, 10**300)
    return da, dr, nan, inf, same, far


def agree(got, want, nan, inf, big, small):
    """Does a reported maximum tell the truth?"""
    if nan:
        return math.isnan(got)
    if inf:
        return math.isinf(got) or math.isnan(got)
    if math.isinf(got):
        return want >= big
    # rounded a few times in the precision of the comparison, denormal numbers
    return not math.isnan(got) and abs(Fraction(got) - want) <= want / 10**6 + small


def run(case):
    from acetone_nnet.cli import compare as C

    p = case["precision"]
    # single precision overflows and underflows earlier
    big, small = (Fraction(10) ** 37, Fraction(1, 10**44)) if p != "double" else (Fraction(10) ** 307, Fraction(1, 10**322))
    with scratch() as d:
        write(d / "a.txt", case["ref"], case["styles"][0])
        write(d / "b.txt", case["got"], case["styles"][1])
        argv = ["acetone_compare", str(d / "a.txt"), str(d / "b.txt"), str(case["nb"])]
        if p:
            argv += ["--precision", p]
        out = io.StringIO()
        old = sys.argv
        sys.argv = argv
        failed = None
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
                try:
                    C.acetone_compare()
                except (Exception, SystemExit) as e:  # noqa: BLE001
                    failed = e
                if not case["cut"]:
                    verdict = C.compare_files(str(d / "a.txt"), str(d / "b.txt"), case["nb"], p or "float")
        finally:
            sys.argv = old
    what = f"{case['nb']} inferences, precision {p}\nreference {case['ref']}\ncompared  {case['got']}\n{out.getvalue()}"
    labels = [f"precision:{p}", f"extra{len(case['ref']) > case['nb']}"]
    if case["cut"]:
        if failed is None:
            raise Violation(f"missing values are not reported ({case['cut']}): {what}")
        return Info([*labels, f"cut:{case['cut'][1]}"], True, {"cut": case["cut"]})
    if failed is not None:
        raise Violation(f"acetone_compare failed: {type(failed).__name__}: {failed}\n{what}")
    found = []
    for line in out.getvalue().splitlines():
        if ":" in line:
            found.append(float(line.rsplit(":", 1)[1]))
    if len(found) != 2:
        raise Violation(f"two errors were expected: {what}")
    da, dr, nan, inf, same, far = expected(case)
    # relative errors between denormal numbers, or whose sum overflows, are not judged
    lo, hi = (1e-36, 1e38) if p != "double" else (1e-306, 1e307)
    tiny = any(a != b and not (lo <= abs(a) + abs(b) <= hi) and not math.isnan(a + b) for r, q in zip(case["ref"], case["got"], strict=True)
               for a, b in zip(r, q, strict=True))
    for name, g, w in (("absolute", found[0], da), ("relative", found[1], dr), ("absolute", float(verdict[1]), da),
                       ("relative", float(verdict[2]), dr)):
        if name == "relative" and (dr == 0 or da >= big / 10):
            if not nan and not inf and da == 0 and g != 0:
                raise Violation(f"largest {name} error {g} for equal files\n{what}")
            continue
        if name == "relative" and tiny and not nan and not math.isnan(g):
            continue
        if not agree(g, w, nan, inf, big, small):
            raise Violation(f"largest {name} error {g} instead of {float(w) if not (nan or inf) else 'nan/inf'}\n{what}")
    if same and not verdict[0]:
        raise Violation(f"equal values are declared different: {what}")
    if far and verdict[0]:
        raise Violation(f"different values are declared equal: {what}")
    return Info([*labels, "same" if same else "far" if far else "close", *(["nan"] if nan else []),
                 *(["inf"] if inf else [])], not same, {"nb": case["nb"], "errors": found})


fams = [Family("files", cases, run, 4000)]

CHECK = Check(
    "P14", "acetone_compare reports the worst difference of the compared inferences",
    "Pairs of output files written as the C program or the reference inference write them, in single or double "
    "precision: equal, a few ulps apart, unrelated, with NaN and infinities, with more lines than compared, or with "
    "missing and supernumerary values; the errors printed by the command and the verdict of compare_files are compared "
    "with exact rational arithmetic. Non-trivial: some value differs, or is missing.",
    fams)
