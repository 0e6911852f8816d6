"""P26 - the memory of a context is bounded by the tensors which are still to be read."""
import re

from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxops as O
from pbt import onnxspec as S
from pbt.cgen import GenError, acetone_generator, quiet, scratch, sh
from pbt.disguise import STYLES, disguise
from pbt.engine import Check, Family, Info, Violation
from checks.P05 import ACT, OPS

ALGS = [None, None, None, "6loops", "indirect_gemm_nn", "std_gemm_tt", "std_gemm_nn"]
FIELD = re.compile(r"^\s*(?:\w+\s+)+(output|cst|tensor)_(\w+)\[", re.M)


@st.composite
def graphs(draw, ops=OPS, lo=2, hi=14, branch=5):
    spec = draw(F.deep(lo, hi, n=1)) if hi > 100 else draw(
        F.chain(lo, hi, unary=ops, branch=branch, multi=("binop", "binop", "concat", "matmul"), n=1))
    return {"spec": spec, "opt": draw(st.booleans()), "alg": draw(st.sampled_from(ALGS)),
            "seed": draw(st.integers(0, 10**6)), "style": draw(st.sampled_from(STYLES))}


def most_alive(order, edges):
    """Largest number of tensors which exist together, the inputs of a layer being released when it starts to write.

    order: keys in the order of execution; edges: (producer, reader), restricted to the tensors of interest by the caller."""
    place = {k: i for i, k in enumerate(order)}
    last = {}
    for p, r in edges:
        last[p] = max(last.get(p, -1), place[r])
    alive, most = {}, 0
    for i, k in enumerate(order):
        alive = {p: e for p, e in alive.items() if e > i}
        alive[k] = last.get(k, len(order))        # what nobody reads (the output) stays
        most = max(most, len(alive))
    return most


def most_kept(order, edges):
    """The same, for the tensors which several layers read (or one layer several times)."""
    readers = {}
    for p, r in edges:
        readers.setdefault(p, []).append(r)
    place = {k: i for i, k in enumerate(order)}
    most, alive = 0, {}
    for i, k in enumerate(order):
        alive = {p: e for p, e in alive.items() if e > i}
        if len(readers.get(k, [])) > 1:
            alive[k] = max(place[r] for r in readers[k])
        most = max(most, len(alive))
    return most


def run(case):
    spec = case["spec"]
    model = disguise(S.build_model(spec), case["seed"], case["style"])
    what = f"{ {k: v for k, v in case.items() if k != 'spec'} }\nmodel: {J.describe(spec)}"
    grouped = any(n["attrs"].get("group", 1) > 1 for n in spec["nodes"])
    kw = {"versions": {"Conv2D": case["alg"]}} if case["alg"] and not grouped else {}
    with scratch() as d:
        gen = acetone_generator(model, optimization=case["opt"], nb_tests=1, test_dataset=S.dataset({**spec, "n": 1}), **kw)
        try:
            with quiet():
                gen.generate_c_files(d)
        except Exception as e:  # noqa: BLE001
            raise GenError("generate", e) from e
        fields = [f"{a}_{b}" for a, b in FIELD.findall((d / "inference.h").read_text())]
        probe = "".join(f'  printf("%zu\\n", sizeof(((inference_t *)0)->{f}) / sizeof(*((inference_t *)0)->{f}));\n' for f in fields)
        (d / "probe_main.c").write_text('#include <stdio.h>\n#include <stddef.h>\n#include "inference.h"\nint main(void)\n{\n'
                                        f'{probe}  return 0;\n}}\n')
        rc, o, e = sh(["gcc", "-w", "probe_main.c", "-o", "probe"], cwd=d)
        if rc:
            raise Violation(f"the header does not compile: {e[-500:]}\n{what}")
        rc, o, e = sh(["./probe"], cwd=d)
        sizes = dict(zip(fields, map(int, o.split())))
    order = [la.idx for la in gen.layers]
    edges = [(p.idx, la.idx) for la in gen.layers for p in la.previous_layer]
    buffers = [f for f in fields if f.startswith("output_")]
    kept = [f for f in fields if f.startswith("cst_")]
    alive, several = most_alive(order, edges), most_kept(order, edges)
    if len(buffers) > alive:
        raise Violation(f"{len(buffers)} buffers of tensors, when at most {alive} tensors are alive together\n{what}")
    if len(kept) > several:
        raise Violation(f"{len(kept)} buffers of shared tensors, when at most {several} are alive together\n{what}")
    largest = max(la.size for la in gen.layers)
    scratchpad = max([largest, *(la.patches_size for la in gen.layers if hasattr(la, "patches_height"))])
    for f in fields:
        bound = scratchpad if not f.startswith("cst_") else largest
        if sizes[f] > bound:
            raise Violation(f"{f} holds {sizes[f]} values: more than {bound}, the largest tensor or matrix of patches\n{what}")
    multi, joins = O.node_use(spec)
    return Info([*F.labels_of(spec), f"buffers{len(buffers)}", f"kept{min(len(kept), 5)}", f"alg:{case['alg']}",
                 "optimized" if case["opt"] else "plain"],
                multi >= 1 and joins >= 1 and len(buffers) >= 2, {**F.sample(spec), "buffers": len(buffers), "kept": len(kept)})


fams = [
    Family("graphs", graphs, run, 1200),
    Family("wide", lambda: graphs(ops=ACT, lo=8, hi=24, branch=7), run, 600),
    Family("deep", lambda: graphs(lo=100, hi=125), run, 24),
]

CHECK = Check(
    "P26", "The memory of a context is bounded by the tensors still to be read",
    "Directed acyclic graphs of 2-24 operators (some of 100-125), written in any order, with and without optimization, "
    "with several implementations of the convolution. The arrays of a context are counted and measured by a C program "
    "which includes the generated header, and compared with the largest number of tensors alive together, computed from "
    "the edges of the network in the order of execution, and with the size of the largest tensor (or matrix of "
    "patches). Non-trivial: several buffers, a tensor with several readers and an operator joining several tensors.",
    fams)
