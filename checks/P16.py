"""P16 - the implementation of each layer is the one selected for it."""
import random
import re

from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import BuildError, GenError, RunError, acetone_generator, quiet, run_acetone, scratch
from pbt.engine import Check, Family, Info, Violation

CONV = ["6loops", *(f"{k}_gemm_{t}" for k in ("indirect", "std") for t in ("nn", "nt", "tn", "tt"))]
MINE = ["zz_mine", "a_mine", "6loops_mine", "mine nn"]
CALLS = []
TAG = re.compile(r"/\* pbt (\S+) (\d+) (.*?) \*/")


def setup():
    """Register implementations of our own for every kind of layer: they mark the code which they generate."""
    from acetone_nnet.versioning.layer_factories import implemented

    done = set()
    for factory in implemented.values():
        if id(factory) in done:
            continue
        done.add(id(factory))
        for name in MINE:
            factory.register_implementation(name, variant(factory, name))


def variant(factory, name):
    def make(layer, version):
        base = factory(layer, "6loops" if layer.name == "Conv2D" else None)
        CALLS.append((layer.name, layer.idx, version))

        class Mine(type(base)):
            def generate_inference_code_layer(self):
                return f"/* pbt {self.name} {self.idx} {version} */\n" + super().generate_inference_code_layer()
        if base is layer:       # implementations which keep the layer: do not change the class of the original
            import copy
            base = copy.copy(layer)
        base.__class__ = Mine
        return base
    return make


@st.composite
def cases(draw):
    spec = draw(F.chain(2, 8, unary=("conv", "conv", "conv", "act", "m_op_act", "m_conv_bn", *F.CHAIN_OPS), branch=2,
                        multi=("binop", "concat", "matmul"), opts={"conv": {"groups": False}}))
    return {"spec": spec, "seed": draw(st.integers(0, 10**6)), "opt": draw(st.booleans()),
            "kind": draw(st.sampled_from(["mix", "mix", "mix", "unknown"]))}


def choose(case, layers, registered, conv):
    """A drawn selection: by index, by name, both, or none, among the implementations of each layer."""
    rng = random.Random(case["seed"])
    v = {}
    for name in sorted({n for _, n in layers}):
        if rng.random() < 0.4:
            v[name] = rng.choice(conv if name == "Conv2D" and rng.random() < 0.6 else
                                 MINE if rng.random() < 0.7 else registered[name])
    for idx, name in layers:
        if rng.random() < 0.4:
            v[idx] = rng.choice(conv if name == "Conv2D" and rng.random() < 0.6 else
                                MINE if rng.random() < 0.7 else registered[name])
    # entries about layers which do not exist change nothing
    if rng.random() < 0.3:
        v[max(i for i, _ in layers) + 1 + rng.randrange(5)] = "nothing"
    items = list(v.items())
    rng.shuffle(items)
    return dict(items)


def run(case):
    from acetone_nnet.versioning.layer_factories import implemented
    from acetone_nnet.versioning.versioning import list_all_implementations

    spec = case["spec"]
    model = S.build_model(spec)
    x = S.dataset(spec)
    ref = J.reference(spec, model, x)
    plain = acetone_generator(model, optimization=case["opt"])
    layers = [(la.idx, la.name) for la in plain.layers]
    listed = list_all_implementations()
    names = {n for _, n in layers}
    # direct_block and channels_last are for channels-last code, the gemm implementations refuse groups
    grouped = any(n["attrs"].get("group", 1) > 1 for n in spec["nodes"])
    registered = {n: [i for i in listed[n] if i not in ("direct_block", "channels_last") and not (grouped and "_gemm_" in str(i))]
                  for n in names}
    versions = choose(case, layers, registered, ["6loops"] if grouped else CONV)
    what = f"versions {versions}, optimization {case['opt']}\nlayers {layers}\nmodel: {J.describe(spec)}"

    def bad(m):
        return Violation(f"{m}\n{what}")
    for n in names:
        for m in MINE:
            if m not in listed[n]:
                raise bad(f"{m}, registered for {n}, is not listed: {listed[n]}")
    if case["kind"] == "unknown":
        rng = random.Random(case["seed"])
        k = rng.choice([rng.choice(layers)[0], rng.choice(layers)[1]])
        versions = {**versions, k: rng.choice(["6loop", "std_gemm", "NN", "", "unknown"])}
        want = [versions.get(i, versions.get(n)) for i, n in layers]
        known = all(w is None or w in listed[n] for w, (i, n) in zip(want, layers))
        try:
            with quiet():
                from acetone_nnet import CodeGenerator
                CodeGenerator(file=model, optimization=case["opt"], versions=versions)
        except KeyError:
            if known:
                raise bad(f"KeyError for {versions}") from None
            return Info(["unknown refused"], True, {"versions": str(versions)})
        except Exception as e:  # noqa: BLE001
            raise bad(f"{versions}: {type(e).__name__} instead of KeyError: {e}") from e
        if not known:
            raise bad(f"an unknown implementation is accepted: {versions}")
        return Info(["unknown shadowed"], False, {"versions": str(versions)})

    want = {i: versions.get(i, versions.get(n, "6loops" if n == "Conv2D" else None)) for i, n in layers}
    CALLS.clear()
    with scratch() as d:
        given = dict(versions)
        try:
            r = run_acetone(model, x, d, versions=versions, optimization=case["opt"])
        except (GenError, BuildError, RunError) as e:
            raise bad(f"{type(e).__name__}: {e}") from e
        code = (d / "inference.c").read_text()
    if versions != given:
        raise bad(f"the selection of the caller was modified: {versions}")
    mine = sorted((n, i, want[i]) for i, n in layers if want[i] in MINE)
    if sorted(CALLS) != mine:
        raise bad(f"implementations called for {sorted(CALLS)} instead of {mine}")
    tags = sorted((a, int(b), c) for a, b, c in TAG.findall(code))
    if tags != mine:
        raise bad(f"code generated by {tags} instead of {mine}")
    # the other layers are generated as when the whole network uses their implementation
    nb = 0
    for v in {want[i] for i, _ in layers if want[i] not in MINE}:
        with quiet():
            from acetone_nnet import CodeGenerator
            uniform = CodeGenerator(file=model, optimization=case["opt"],
                                    versions={n: v for n in names if v in registered[n]} if v else None)
        for a, b in zip(r.gen.layers, uniform.layers):
            if (a.idx, a.name) != (b.idx, b.name):
                raise bad(f"layer {a.name} {a.idx} became {b.name} {b.idx}")
            if want[a.idx] == v and type(a) is not type(b):
                raise bad(f"layer {a.name} {a.idx} is a {type(a).__name__} instead of a {type(b).__name__}")
            if want[a.idx] == v and a.name in registered:
                nb += 1
                with quiet():
                    ca, cb = a.generate_inference_code_layer(), b.generate_inference_code_layer()
                if ca != cb:
                    raise bad(f"the code of {a.name} {a.idx} ({v}) depends on the implementations of the others:\n"
                              f"{ca[:300]}\ninstead of\n{cb[:300]}")
    J.check_rows(f"generated code disagrees with the model ({what})", r.c, ref, model, x, spec)
    J.check_rows(f"reference inference disagrees with the model ({what})", r.py, ref, model, x, spec)
    by_idx = sum(1 for i, _ in layers if i in versions)
    return Info([f"mine{min(len(mine), 4)}", f"by index {min(by_idx, 4)}", f"by name {min(len(set(versions) & names), 3)}",
                 "both" if any(i in versions and n in versions for i, n in layers) else "-",
                 *{f"conv:{want[i]}" for i, n in layers if n == "Conv2D"}],
                bool(mine) and F.nontrivial(ref.rows), {**F.sample(spec), "versions": str(versions)})


@st.composite
def histories(draw):
    names = st.sampled_from(["default", "fast", "a", "z", "6loops", ""])
    op = st.tuples(st.sampled_from(["register", "register", "call", "list", "factory", "all"]), st.integers(0, 2), names)
    return {"ops": draw(st.lists(op, min_size=2, max_size=25)), "none": draw(st.booleans())}


def run_registry(case):
    """Histories of registrations, against a dictionary per factory."""
    from acetone_nnet.versioning.layer_factories import LayerFactory, implemented
    from acetone_nnet.versioning.versioning import list_all_implementations, register_factory
    before = dict(implemented)
    facts = [LayerFactory(f"Pbt{i}") for i in range(3)]
    model, known, done, refused = [{} for _ in facts], {}, [], 0

    def bad(m):
        return Violation(f"{m}\nafter {done}")

    def check_list(got, k):
        want = sorted(n for n in model[k] if n is not None)
        if sorted(got) != want:
            raise bad(f"implementations {list(got)} listed instead of {want}")
    try:
        if case["none"]:
            for k, f in enumerate(facts):
                model[k][None] = object()
                f.register_implementation(None, lambda la, v, m=model[k][None]: (m, la, v))
        for op, k, name in case["ops"]:
            done.append([op, k, name])
            f = facts[k]
            try:
                if op == "register":
                    tag = object()
                    f.register_implementation(name, lambda la, v, m=tag: (m, la, v))
                    if name in model[k]:
                        raise bad(f"{name!r} is registered twice")
                    model[k][name] = tag
                elif op == "call":
                    got = f("layer", name)
                    if name not in model[k] or got != (model[k][name], "layer", name):
                        raise bad(f"another implementation is called for {name!r}")
                elif op == "list":
                    check_list(f.list_implementations, k)
                elif op == "factory":
                    register_factory(f"Pbt{k}", f)
                    if k in known:
                        raise bad(f"the factory Pbt{k} is registered twice")
                    known[k] = f
                else:
                    got = list_all_implementations()
                    if set(got) != set(before) | {f"Pbt{i}" for i in known}:
                        raise bad(f"factories {sorted(set(got) ^ set(before))} listed instead of {list(known)}")
                    for i in known:
                        check_list(got[f"Pbt{i}"], i)
            except KeyError as e:
                refused += 1
                if (op == "register" and name in model[k]) or (op == "call" and name not in model[k]) or \
                        (op == "factory" and k in known):
                    continue
                raise bad(f"{op} {name!r}: KeyError {e}") from e
    finally:
        for k in set(implemented) - set(before):
            del implemented[k]
    return Info(["history"], refused > 0 and any(model), {"history": done[:12]})


fams = [Family("registry", histories, run_registry, 600),
        Family("select", cases, run, 700, min_nontrivial=0.3)]

CHECK = Check(
    "P16", "Each layer is generated by the implementation selected for it",
    "Drawn networks, optimized or not, with drawn selections by index, by name, by both and by none, among the "
    "implementations of ACETONE and implementations registered by the check which mark their code; the implementations "
    "called, the marks in the generated code, the code of every other layer (compared with the one of the network "
    "using that implementation everywhere), the refusal of unknown names, and the outputs (compared with ONNX Runtime); histories of registrations, calls and "
    "listings of factories, against a dictionary. "
    "Non-trivial: an implementation of the check is selected, and the outputs are not all equal.",
    fams, setup=setup, assumptions=["ONNX Runtime 1.18 CPU / onnx.reference implement the ONNX specification"])
