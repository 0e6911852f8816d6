"""P23 - the shared library: batch_loop, save_weights, copy_weights."""
import numpy as np
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import BuildError, GenError, RunError, make_generated, quiet, run_acetone, scratch, sh
from pbt.engine import Check, Family, Info, Violation
from checks import P19

ALGS = [None, "6loops", *(f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt"))]
FLAGS = [["-g", "-w"], ["-O1", "-w"], ["-O1", "-w", "-fopenmp"]]
BATCH = [1, 2, 5, 31, 32, 33, 63, 64, 65, 100]
OPS = ("conv", "conv", "conv", "conv", "gemm", "gemm", "gemm", "gemm", "matmul_const", "matmul_const", "batchnorm", "binop_const", "act", "maxpool", "flatten", "softmax",
       "pad", "transpose", "reduce")


@st.composite
def cases(draw):
    spec = draw(F.chain(1, 5, unary=OPS, branch=1, ranks=(2, 2, 3, 4, 4, 4), dtypes=("float32", "float32", "float64"), opts={"conv": {"groups": False}}))
    return {"spec": spec, "batch": draw(st.sampled_from(BATCH)), "bin": draw(st.integers(0, 3)) > 0, "opt": draw(st.integers(0, 3)) == 0,
            "alg": draw(st.sampled_from(ALGS)), "flags": draw(st.integers(0, len(FLAGS) - 1)),
            "copy": draw(st.integers(0, 3)) > 0, "again": draw(st.sampled_from([1, 32, 7])), "seed": draw(st.integers(0, 10**6)),
            "hex": draw(st.booleans())}


@st.composite
def blocks(draw):
    """Channels-last networks, whose weights are stored in blocks, or transformed."""
    return {**draw(cases()), "spec": draw(P19.nets(1, 3, ("conv", "conv", "conv", "pool", "act"))), "alg": "blocks",
            "opt": draw(st.integers(0, 3)) == 0}


def parameters(gen):
    """The arrays which save_weights writes and copy_weights receives, in the order of the layers."""
    out = []
    for la in gen.layers:
        w = getattr(la, "weights", None)
        if w is not None and w.size:
            w = getattr(la, "layout", None) if getattr(la, "layout", None) is not None else w
            out.append((f"weights {la.name} {la.idx}", w))
        c = getattr(la, "constant", None)
        if c is not None and la.name == "Constant" and c.size:
            out.append((f"constant {la.name} {la.idx}", c))
        b = getattr(la, "biases", None)
        if b is not None and b.size:
            out.append((f"biases {la.name} {la.idx}", b))
    return [(n, np.ascontiguousarray(a, dtype=gen.data_type_py).ravel()) for n, a in out]


def driver(sizes, ctype, batch, again):
    args = ", ".join(f"{ctype} *" for _ in sizes)
    names = [f"p{i}" for i in range(len(sizes))]
    load = "\n".join(f"    {ctype} *{n} = malloc(({s} + 1) * sizeof({ctype})); got += fread({n}, sizeof({ctype}), {s}, w);"
                     for n, s in zip(names, sizes))
    return f"""#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef void (*loop_t)({ctype} *, {ctype} *, int);
typedef int (*save_t)(char *);
typedef void (*copy_t)({args or 'void'});
static void go(loop_t loop, {ctype} *in, int nin, int nout, int n, const char *file)
{{
    size_t isz = (size_t)n * nin, osz = (size_t)n * nout;
    {ctype} *keep = malloc(isz * sizeof *keep), *out = malloc((osz + 8) * sizeof *out);
    memcpy(keep, in, isz * sizeof *in);
    memset(out, 0x5A, (osz + 8) * sizeof *out);
    loop(out, in, n);
    if (memcmp(keep, in, isz * sizeof *in)) {{ fprintf(stderr, "batch_loop modified its inputs\\n"); exit(3); }}
    for (char *c = (char *)(out + osz); c < (char *)(out + osz + 8); c++)
        if (*c != 0x5A) {{ fprintf(stderr, "batch_loop wrote after its outputs\\n"); exit(4); }}
    FILE *f = fopen(file, "wb"); fwrite(out, sizeof *out, osz, f); fclose(f);
}}
int main(int argc, char **argv)
{{
    int nin = atoi(argv[2]), nout = atoi(argv[3]), copy = atoi(argv[4]);
    void *l = dlopen(argv[1], RTLD_NOW);
    if (!l) {{ fprintf(stderr, "%s\\n", dlerror()); return 2; }}
    loop_t loop = (loop_t)dlsym(l, "batch_loop"); save_t save = (save_t)dlsym(l, "save_weights");
    copy_t cp = (copy_t)dlsym(l, "copy_weights");
    if (!loop || !save || !cp) {{ fprintf(stderr, "missing function\\n"); return 2; }}
    {ctype} *in = malloc(({batch}ul + {again} + 1) * nin * sizeof *in);
    FILE *f = fopen("in.bin", "rb");
    if (fread(in, sizeof *in, {batch}ul * nin, f) != {batch}ul * nin) return 5;
    fclose(f);
    go(loop, in, nin, nout, {batch}, "out1.bin");
    go(loop, in, nin, nout, {min(batch, again)}, "out2.bin");
    int n = save("saved1.bin");
    printf("%d\\n", n);
    if (copy) {{
        size_t got = 0;
        FILE *w = fopen("new.bin", "rb");
{load}
        fclose(w);
        if (got != {sum(sizes)}) return 6;
        cp({", ".join(names)});
        save("saved2.bin");
        go(loop, in, nin, nout, {batch}, "out3.bin");
    }}
    return 0;
}}
"""


def tuned(spec):
    """Initializers which become parameters of the shared library."""
    names = set()
    for n in spec["nodes"]:
        if n["op"] in ("Conv", "Gemm"):
            names.update(n["in"][1:])
    return names


def run(case):
    spec, batch = case["spec"], case["batch"]
    dt = S.NP[spec["dtype"]]
    ctype = "float" if spec["dtype"] == "float32" else "double"
    x = S.dataset({**spec, "n": batch})
    model = S.build_model(spec)
    few = sorted({0, batch - 1})
    ref = J.reference(spec, model, x[few])
    kw = {"optimization": case["opt"], "versions": {"Conv2D": case["alg"]} if case["alg"] else None}
    if case["alg"] == "blocks":
        kw.update(P19.KW)
    what = f"{ {k: v for k, v in case.items() if k != 'spec'} }\nmodel: {J.describe(spec)}"

    def bad(m):
        return Violation(f"{m}\n{what}")
    with scratch() as top:
        d = top / "code"
        try:
            r = run_acetone(model, x[:2], d, want_c=False, want_py=False, bin_dataset=case["bin"], to_hex=case["hex"],
                            makefile_properties={"compiler_flags": FLAGS[case["flags"]] + ["-ffp-contract=off"]}, **kw)
            with quiet():
                r.gen.generate_c_files(d)
            make_generated(d)
            # the reference: the program itself, run sequentially on every sample
            r0 = run_acetone(model, x, top / "seq", want_py=False, **kw)
        except (GenError, BuildError, RunError) as e:
            raise bad(f"{type(e).__name__}: {e}") from e
        params = parameters(r.gen)
        sizes = [a.size for _, a in params]
        nin, nout = x.reshape(batch, -1).shape[1], int(np.prod(spec["outshape"]))
        # other values for the parameters
        rng = np.random.default_rng(case["seed"])
        new = [rng.uniform(-1, 1, a.size).astype(dt) for _, a in params]
        w2 = None
        # weights compiled from text are read-only (known finding)
        copy = case["copy"] and (case["bin"] or case.get("force")) and sizes
        if copy and not case["opt"]:
            # the parameters of the same model with other weights: its outputs are known
            keep = tuned(spec)
            shared = {n for nd in spec["nodes"] if nd["op"] not in ("Conv", "Gemm") for n in nd["in"]}
            inits = {k: (dict(v, seed=(v["seed"] * 7 + case["seed"]) % 65536) if k in keep - shared and "seed" in v else v)
                     for k, v in spec["inits"].items()}
            spec2 = {**spec, "inits": inits}
            model2 = S.build_model(spec2)
            try:
                r2 = run_acetone(model2, x, top / "other", want_py=False, **kw)
            except (GenError, BuildError, RunError) as e:
                raise bad(f"{type(e).__name__}: {e}") from e
            p2 = parameters(r2.gen)
            if [a.size for _, a in p2] != sizes:
                raise bad(f"parameters {sizes} and {[a.size for _, a in p2]}")
            new = [a for _, a in p2]
            w2 = r2.c
        (top / "driver.c").write_text(driver(sizes, ctype, batch, case["again"]))
        np.ascontiguousarray(x).tofile(top / "in.bin")
        np.concatenate([*new, np.zeros(0, dt)]).astype(dt).tofile(top / "new.bin")
        rc, o, e = sh(["gcc", "-O1", "-w", "driver.c", "-o", "driver", "-ldl"], cwd=top)
        if rc:
            raise RuntimeError(e[-500:])
        rc, o, e = sh(["./driver", "code/inference.so", str(nin), str(nout), "1" if copy else "0"], cwd=top, timeout=200)
        if rc:
            raise bad(f"using the shared library failed: exit code {rc}: {e[-600:]}")

        def rows(name, n):
            v = np.fromfile(top / name, dtype=dt)
            if v.size != n * nout:
                raise bad(f"{name}: {v.size} values instead of {n * nout}")
            return list(v.reshape(n, nout).astype(np.float64))
        out1 = rows("out1.bin", batch)
        dif = J.diff(out1, r0.c, [0.0] * batch)
        if dif:
            raise bad(f"batch_loop over {batch} samples differs from the program: {dif}")
        m = min(batch, case["again"])
        dif = J.diff(rows("out2.bin", m), out1[:m], [0.0] * m)
        if dif:
            raise bad(f"a second batch_loop over {m} samples differs: {dif}")
        want = b"".join(a.astype(dt).tobytes() for _, a in params)
        got = (top / "saved1.bin").read_bytes()
        if got != want:
            k = next((i for i, (u, v) in enumerate(zip(got, want)) if u != v), min(len(got), len(want)))
            raise bad(f"save_weights wrote {len(got)} bytes instead of {len(want)}, first difference at {k}: "
                      f"{[(n, a.size) for n, a in params]}")
        if int(o.split()[0]) != len(want):
            raise bad(f"save_weights returned {o.split()[0]} instead of {len(want)}")
        if copy:
            want = b"".join(a.astype(dt).tobytes() for a in new)
            if (top / "saved2.bin").read_bytes() != want:
                raise bad("save_weights does not write what copy_weights received")
            out3 = rows("out3.bin", batch)
            if w2 is not None:
                dif = J.diff(out3, w2, [0.0] * batch)
                if dif:
                    raise bad(f"after copy_weights, batch_loop differs from the model with these weights: {dif}")
        J.check_rows(f"batch_loop disagrees with the model ({what})", [out1[i] for i in few], ref, model, x[few], spec)
    return Info([f"batch{batch}", spec["dtype"], "bin" if case["bin"] else "text", f"params{min(len(sizes), 4)}",
                 f"flags{case['flags']}", "copy" if copy else "nocopy", f"alg:{case['alg']}", "known" if w2 is not None else "-"],
                F.nontrivial(ref.rows) and bool(sizes), {**F.sample(spec), "parameters": [(n, int(a.size)) for n, a in params]})


fams = [Family("library", cases, run, 260, min_nontrivial=0.4), Family("blocks", blocks, run, 60, min_nontrivial=0.4)]

CHECK = Check(
    "P23", "The shared library runs batches, saves and replaces the weights",
    "Drawn networks built by make as a shared library, loaded by a program which runs batch_loop on batches of 1-100 "
    "samples (several times, with or without OpenMP), save_weights, and copy_weights followed by the same calls; the "
    "outputs are compared bit for bit with the generated program run on the same samples, and, after copy_weights, "
    "with the program generated for the model with these weights; the files with the parameters of the model. "
    "Non-trivial: the network has parameters and its outputs are not all equal.",
    fams, assumptions=["gcc compiles the same function to the same arithmetic in the library and in the program"])
