"""P22 - the acetone_generate command generates what CodeGenerator generates with the same options."""
import json
import os
import sys
import subprocess

import numpy as np
from hypothesis import strategies as st

from checks import P13 as Q
from pbt import families as F
from pbt import kjson as K
from pbt import nnet as N
from pbt import onnxspec as S
from pbt.boot import REPO
from pbt.cgen import quiet, scratch
from pbt.engine import Check, Family, Info, Violation

ALGS = ["6loops", *(f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt"))]
BOOL = [(None, False), (None, False), ([], True), (["True"], True), (["true"], True), (["False"], False),
        (["false"], False), (["1"], True), (["0"], False)]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["onnx", "onnx", "onnx", "nnet", "json", "quantized"]))
    if fmt == "quantized":
        net = draw(Q.cases())
    elif fmt == "onnx":
        net = draw(F.chain(1, 4, unary=("conv", "conv", "m_silu", "m_conv_bn", *F.CHAIN_OPS), n=3,
                           dtypes=("float32", "float64")))
    elif fmt == "nnet":
        net = draw(N.networks(n=3))
    else:
        net = draw(K.networks(n=3, hi=4))
    return {"fmt": fmt, "net": net, "function": draw(st.sampled_from(["inference", "lenet5", "f", "Net_2"])),
            "nb": draw(st.integers(1, 4)), "dataset": draw(st.booleans()), "normalize": draw(st.booleans()),
            "conv": draw(st.none() | st.sampled_from(ALGS)), "opt": draw(st.integers(0, len(BOOL) - 1)),
            "bin": draw(st.integers(0, len(BOOL) - 1)), "verbose": draw(st.integers(0, len(BOOL) - 1)),
            "page": draw(st.sampled_from([None, None, 4096, 64, 1024])), "nested": draw(st.booleans()),
            "target": draw(st.sampled_from([None, None, "generic", "AVX512VNNI"])),
            "order": draw(st.integers(0, 10**6))}


def write_net(case, d):
    fmt, net = case["fmt"], case["net"]
    f = d / f"model.{fmt}"
    if fmt == "quantized":
        import onnx
        model, cfg, x, *_ = Q.define(net)
        (d / "AVX512VNNI.json").write_text(json.dumps(cfg))
        onnx.save(model, str(d / "model.onnx"))
        return d / "model.onnx", x
    if fmt == "onnx":
        import onnx
        onnx.save(S.build_model(net), str(f))
        return f, S.dataset(net)
    if fmt == "nnet":
        return f, N.write(net, f)["x"]
    K.write(net, f)
    return f, K.samples(net)


def files_of(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}


def options(case, d):
    """(arguments of the command, arguments of CodeGenerator)"""
    f, x = write_net(case, d)
    groups = [["--model", str(f)], ["--function", case["function"]], ["--dataset-size", str(case["nb"])]]
    kw = {"file": f, "function_name": case["function"], "nb_tests": case["nb"], "test_dataset": None}
    if case["dataset"]:
        with open(d / "data.txt", "w") as t:
            for r in x:
                json.dump([str(v) if case["fmt"] == "quantized" else float(v).hex() for v in np.ravel(r)], t)
                t.write("\n")
        groups.append(["--dataset", str(d / "data.txt")])
        kw["test_dataset"] = d / "data.txt"
    # group convolutions are not available in the implementation which the command selects by default
    conv = case["conv"]
    if case["fmt"] == "onnx" and any(n["attrs"].get("group", 1) != 1 for n in case["net"]["nodes"]):
        conv = "6loops"
    if conv:
        groups.append(["--conv", conv])
    kw["versions"] = {"Conv2D": conv or "std_gemm_nn"}
    if case["normalize"] and case["fmt"] == "nnet":
        groups.append(["--normalize"])
        kw["normalize"] = True
    for key, opt, name in (("opt", "--optimization", "optimization"), ("bin", "--bin_dataset", "bin_dataset"),
                           ("verbose", "--verbose", "verbose")):
        words, value = BOOL[case[key]]
        if words is not None:
            groups.append([opt, *words])
        kw[name] = value
    target = "AVX512VNNI" if case["fmt"] == "quantized" else case.get("target")
    if target:
        groups.append(["--target", target])
        kw["target"] = target
    if case["page"]:
        groups.append(["--target_page_size", str(case["page"])])
        kw["target_page_size"] = case["page"]
    np.random.default_rng(case["order"]).shuffle(groups)
    return groups, kw


def run(case, command=None):
    from acetone_nnet import CodeGenerator
    from acetone_nnet.cli import generate

    with scratch() as d:
        groups, kw = options(case, d)
        api, cli = d / "api", d / "x" / "y" / "cli" if case["nested"] else d / "cli"
        cwd = os.getcwd()
        os.chdir(d)         # where the configuration of the target is
        try:
            with quiet():
                gen = CodeGenerator(**kw)
                gen.generate_c_files(api)
                gen.compute_inference(str(api))
        except Exception as e:  # noqa: BLE001
            raise Violation(f"CodeGenerator({kw}) failed: {type(e).__name__}: {e}") from e
        finally:
            os.chdir(cwd)
        argv = [w for g in [*groups, ["--output", str(cli)]] for w in g]
        shown = [w.replace(str(d), ".") for w in argv]
        old = sys.argv
        os.chdir(d)         # where the configuration of the target is
        sys.argv = ["acetone_generate", *argv]
        try:
            if command == "function":
                named = {"file": "model_file", "test_dataset": "test_dataset_file", "versions": "conv_algorithm"}
                given = {named.get(k, k): v["Conv2D"] if k == "versions" else v for k, v in kw.items()
                         if not (k == "versions" and not case["conv"] and "--conv" not in argv)}
                shown = [f"cli_acetone({ {k: str(v).replace(str(d), '.') for k, v in given.items()} })"]
                with quiet():
                    generate.cli_acetone(output_dir=cli if case["nested"] else str(cli), **given)
            elif command:
                command(d)
            else:
                with quiet():
                    generate.acetone_generate()
        except (Exception, SystemExit) as e:  # noqa: BLE001
            raise Violation(f"acetone_generate {' '.join(shown)} failed: {type(e).__name__}: {e}") from e
        finally:
            sys.argv = old
            os.chdir(cwd)
        a, b = files_of(api), files_of(cli)
        if sorted(a) != sorted(b):
            raise Violation(f"acetone_generate {' '.join(shown)} writes {sorted(b)} instead of {sorted(a)}")
        for n in a:
            if a[n] != b[n]:
                la, lb = a[n].split(b"\n"), b[n].split(b"\n")
                k = next((i for i, (u, v) in enumerate(zip(la, lb)) if u != v), min(len(la), len(lb)))
                raise Violation(f"acetone_generate {' '.join(shown)}: {n} differs at line {k + 1}: {lb[k:k + 1]} "
                                f"instead of {la[k:k + 1]}")
        # the options have to matter: what would the other value have given?
        return Info([case["fmt"], f"conv:{case['conv']}", f"opt:{BOOL[case['opt']]}", f"bin:{BOOL[case['bin']]}",
                     f"page:{case['page']}", "dataset" if case["dataset"] else "random",
                     f"target:{kw.get('target')}", f"normalize:{kw.get('normalize', False)}"],
                    len(groups) > 3, {"command": shown[:16]})


def command(d):
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"))
    p = subprocess.run([sys.executable, "-c", "from acetone_nnet.cli.generate import acetone_generate; acetone_generate()",
                        *sys.argv[1:]], env=env, cwd=d, capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise RuntimeError(f"exit code {p.returncode}: {p.stderr[-400:]}")


fams = [Family("options", cases, run, 700),
        Family("function", cases, lambda c: run(c, "function"), 150),
        Family("process", cases, lambda c: run(c, command), 8)]

CHECK = Check(
    "P22", "The acetone_generate command generates what the API generates",
    "Command lines drawn over every option (model of each format, function, dataset, size, convolution, "
    "target (with the configuration of a quantized network, or without), normalization, optimization, binary data, page size, in any order, booleans spelled in every way) for drawn "
    "networks; every file written by the command is compared byte for byte with the ones of CodeGenerator called with "
    "the same options; a few commands run in a separate process; the function "
    "cli_acetone is called with the same options. Non-trivial: some optional argument is given.",
    fams)
