"""P25 - the parameters in the generated program: right values, on the chosen pages, without overlap."""
import re

import numpy as np
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import BuildError, GenError, RunError, make_generated, quiet, run_acetone, run_program, scratch, sh
from pbt.engine import Check, Family, Info, Violation
from checks import P19

ALGS = [None, None, "6loops", *(f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt"))]
PAGES = [16, 64, 256, 1024, 2048, 4096, 8192, 16384, 65536]
OPS = ("conv", "conv", "gemm", "gemm", "batchnorm", "binop_const", "matmul_const", "act", "maxpool", "pad", "transpose", "reduce")
PREFIX = ("weights_", "biases_", "constant_", "mean_", "var_", "scale_", "ppatches_")


@st.composite
def cases(draw, kind="any"):
    if kind == "blocks":
        spec, alg = draw(P19.nets(1, 3, ("conv", "conv", "conv", "pool", "act"))), "blocks"
    else:
        spec = draw(F.chain(2, 6, unary=OPS, branch=1, dtypes=("float32", "float32", "float64"), n=1))
        alg = draw(st.sampled_from(ALGS))
    return {"spec": spec, "alg": alg, "page": draw(st.sampled_from(PAGES)), "bin": draw(st.booleans()),
            "hex": draw(st.booleans()), "opt": draw(st.integers(0, 2)) == 0}


def expected(gen):
    """name -> array, from what the reference inference multiplies and adds."""
    out = {}
    for la in gen.layers:
        suffix = f"{la.name}_{la.idx:02d}"

        def put(kind, a):
            if a is not None and np.size(a):
                out[f"{kind}_{suffix}"] = np.ascontiguousarray(a, dtype=gen.data_type_py).ravel()  # noqa: B023
        layout = getattr(la, "layout", None)
        put("weights", layout if layout is not None else getattr(la, "weights", None))
        put("biases", getattr(la, "biases", None))
        put("weights" if la.name == "Constant" else "constant", getattr(la, "constant", None))
        for k in ("mean", "var", "scale"):
            if la.name == "BatchNormalization":
                put(k, getattr(la, k))
    return out


def symbols(path):
    """name -> (address, size declared in the symbol table) and the sections (address, offset, size, has bytes)."""
    rc, o, e = sh(["readelf", "-sW", str(path)])
    syms = {}
    for line in o.splitlines():
        w = line.split()
        if len(w) >= 8 and w[0].rstrip(":").isdigit() and w[7].startswith(PREFIX) and w[6] != "UND":
            syms[w[7]] = (int(w[1], 16), int(w[2], 0))
    rc, o, e = sh(["readelf", "-SW", str(path)])
    secs = []
    for m in re.finditer(r"^\s*\[\s*\d+\]\s+(\S+)\s+(\S+)\s+([0-9a-f]+)\s+([0-9a-f]+)\s+([0-9a-f]+)\s", o, re.M):
        a, off, size = (int(m[i], 16) for i in (3, 4, 5))
        if a:
            secs.append((a, off, size, m[2] != "NOBITS"))
    return syms, secs


def run(case):
    spec = case["spec"]
    x = S.dataset(spec)
    model = S.build_model(spec)
    ref = J.reference(spec, model, x)
    kw = {"optimization": case["opt"]}
    if case["alg"] == "blocks":
        kw.update(P19.KW)
    elif case["alg"]:
        kw["versions"] = {"Conv2D": case["alg"]}
    what = f"{ {k: v for k, v in case.items() if k != 'spec'} }\nmodel: {J.describe(spec)}"

    def bad(m):
        return Violation(f"{m}\n{what}")
    with scratch() as d:
        try:
            r = run_acetone(model, x, d, want_c=False, want_py=False, bin_dataset=case["bin"], to_hex=case["hex"],
                            target_page_size=case["page"], makefile_properties={"compiler_flags": ["-O1", "-w", "-ffp-contract=off"]}, **kw)
            with quiet():
                r.gen.generate_c_files(d)
            make_generated(d)
            out = run_program(d, prog="./inference", mode="hex" if case["hex"] else "dec")
        except (GenError, BuildError, RunError) as e:
            raise bad(f"{type(e).__name__}: {e}") from e
        want = expected(r.gen)
        patches = {f"ppatches_{la.name}_{la.idx:02d}": np.asarray(la.create_ppatches()).astype(np.int32).ravel()
                   for la in r.gen.layers if hasattr(la, "create_ppatches")}
        want.update(patches)
        for product in ("inference", "inference.so"):
            syms, secs = symbols(d / product)
            raw = (d / product).read_bytes()
            for name in want:
                if name not in syms:
                    raise bad(f"{product} has no {name}")
                if syms[name][0] % case["page"]:
                    raise bad(f"{name} is at the address {syms[name][0]:#x} of {product}: not a multiple of {case['page']}")
            spans = []
            for name, a in want.items():
                addr, size = syms[name]
                if size and size != a.nbytes:
                    raise bad(f"{name} takes {size} bytes of {product} for {a.size} values")
                sec = [s for s in secs if s[0] <= addr and addr + a.nbytes <= s[0] + s[2]]
                if not sec:
                    raise bad(f"{name} lies outside of the sections of {product}")
                got = raw[sec[0][1] + addr - sec[0][0]:][:a.nbytes] if sec[0][3] else bytes(a.nbytes)
                # any zero is a zero
                g = np.frombuffer(got, dtype=a.dtype)
                if not np.array_equal(g, a):
                    k = int(np.flatnonzero(g != a)[0])
                    raise bad(f"{name}[{k}] is {g[k]!r} in {product}, {a[k]!r} in the network")
                spans.append((addr, addr + a.nbytes, name))
            spans.sort()
            for (_, e, n1), (b, _, n2) in zip(spans, spans[1:]):
                if b < e:
                    raise bad(f"{n1} and {n2} overlap in {product}")
        J.check_rows(f"generated C code disagrees with the model ({what})", out, ref, model, x, spec)
    return Info([spec["dtype"], f"page{case['page']}", "bin" if case["bin"] else "text", "hex" if case["hex"] else "dec",
                 f"arrays{min(len(want), 6)}", f"alg:{case['alg']}", *(["patches"] if patches else [])],
                len(want) >= 2,
                {**F.sample(spec), "page": case["page"], "arrays": {n: int(a.size) for n, a in want.items()}})


fams = [Family("layout", cases, run, 260, min_nontrivial=0.3),
        Family("blocks", lambda: cases("blocks"), run, 50, min_nontrivial=0.3)]

CHECK = Check(
    "P25", "The parameters of the program are those of the network, on the chosen pages",
    "Drawn networks generated with a page size of 16 to 65536 bytes, parameters as text (hexadecimal or decimal) or as "
    "binary file, both precisions, every implementation of the convolution; the program and the shared library built by make are "
    "read back (symbol table, sections): every array of parameters which the reference inference uses is there, bit for bit, "
    "with its size, at a multiple of the page size, without overlapping another one; the program computes the outputs "
    "of ONNX Runtime. Non-trivial: at least two arrays.",
    fams, assumptions=["readelf reads the symbol tables right"])
