"""Rewrite an ONNX model without changing its meaning (order of nodes, names, place of constants)."""
import random

import onnx
from onnx import helper

STYLES = ["plain", "number", "slash", "weird", "layer"]


def _name(style, k, rng):
    if style == "number":
        return str(k)
    if style == "slash":
        return f"/model/block.{k}/op_{k}/Output_0"
    if style == "weird":
        return f"{rng.choice('aZ_é')}:{k} {rng.choice(['x', '-y', '%', 'output', 'x_'])}"
    if style == "layer":
        return f"weights_Conv2D_{k:02d}"
    return f"t_{k}"


def disguise(model, seed, style="plain", reorder=True, constants=False, nodenames=True, inputs=False):
    """A model computing the same function."""
    rng = random.Random(seed)
    m = onnx.ModelProto()
    m.CopyFrom(model)
    g = m.graph
    # names of tensors
    names = {}
    tensors = [i.name for i in g.initializer] + [o for n in g.node for o in n.output]
    perm = list(range(len(tensors)))
    rng.shuffle(perm)
    for t, k in zip(tensors, perm):
        names[t] = _name(style, k, rng) if style != "plain" else t
    for i in g.initializer:
        i.name = names[i.name]
    for n in g.node:
        for lst in (n.input, n.output):
            new = [names.get(t, t) for t in lst]
            del lst[:]
            lst.extend(new)
    for v in list(g.value_info) + list(g.output):
        v.name = names.get(v.name, v.name)
    # constants as Constant nodes
    nodes = list(g.node)
    if constants:
        keep = []
        for i in list(g.initializer):
            if rng.random() < 0.6:
                nodes.insert(0, helper.make_node("Constant", [], [i.name], value=i))
            else:
                keep.append(i)
        del g.initializer[:]
        g.initializer.extend(keep)
    inits = list(g.initializer)
    rng.shuffle(inits)
    del g.initializer[:]
    g.initializer.extend(inits)
    # any topological order
    if reorder:
        done = {i.name for i in g.initializer} | {i.name for i in g.input} | {""}
        left, order = list(nodes), []
        while left:
            ready = [n for n in left if all(i in done for i in n.input)]
            n = rng.choice(ready)
            left.remove(n)
            order.append(n)
            done.update(n.output)
        nodes = order
    ks = list(range(len(nodes)))
    rng.shuffle(ks)
    for n, k in zip(nodes, ks):
        n.name = "" if not nodenames else f"node_{k}"
        if nodenames and style == "weird":
            # they end up in the comments of the code
            n.name = rng.choice(["{k}\\", "{{{{#x}}}}{k}", "*/{k}", '"{k}"', "/*{k}", "%d %s {k}", "'{k}", "</{k}>", "é{k}", "#{k}"]).format(k=k)
    del g.node[:]
    g.node.extend(nodes)
    if inputs:
        # before ONNX IR 4, initializers are also graph inputs
        for i in g.initializer:
            g.input.append(helper.make_tensor_value_info(i.name, i.data_type, list(i.dims)))
    if rng.random() < 0.3:
        # an operator set which no node uses
        ops = [*m.opset_import, helper.make_opsetid("ai.onnx.ml", 3)]
        rng.shuffle(ops)
        del m.opset_import[:]
        m.opset_import.extend(ops)
    onnx.checker.check_model(m)
    return m


def share_initializers(spec, seed):
    """Use a single initializer where several have the same shape and type (another function, same graph)."""
    rng = random.Random(seed)
    first, repl = {}, {}
    for name, i in sorted(spec["inits"].items()):
        if "vals" in i:
            key = ("v", str(i["shape"]), str(i.get("dtype")), str(i["vals"]))
        else:
            key = ("s", str(i["shape"]), str(i.get("dtype")), i.get("dist"))
        if key in first and rng.random() < 0.8:
            repl[name] = first[key]
        else:
            first.setdefault(key, name)
    if not repl:
        return spec, 0
    s = dict(spec)
    s["inits"] = {k: v for k, v in spec["inits"].items() if k not in repl}
    s["nodes"] = [{**n, "in": [repl.get(i, i) for i in n["in"]]} for n in spec["nodes"]]
    return s, len(repl)
