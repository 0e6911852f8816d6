"""P11 - a PyTorch program is refused, or computed as PyTorch defines it."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn
from torch.nn import functional as F

from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import BuildError, GenError, RunError, quiet, run_acetone, scratch
from pbt.engine import Check, Family, Info, Reject, Violation

torch.set_num_threads(1)

MODULES = ("conv", "linear", "bn", "prelu", "ln", "bnm")


def make_module(n):
    a = n["attrs"]
    if n["op"] == "conv":
        return nn.Conv2d(a["cin"], a["cout"], tuple(a["kernel"]), stride=tuple(a["stride"]),
                         padding=a["pad"] if isinstance(a["pad"], str) else tuple(a["pad"]), dilation=tuple(a["dil"]),
                         groups=a["groups"], bias=a["bias"], padding_mode=a.get("mode", "zeros"))
    if n["op"] == "linear":
        return nn.Linear(a["cin"], a["cout"], bias=a["bias"])
    if n["op"] == "bn":
        return nn.BatchNorm2d(a["c"], eps=a["eps"], affine=a["affine"], track_running_stats=a["track"])
    if n["op"] == "bnm":
        return nn.BatchNorm1d(a["c"], eps=a["eps"])
    if n["op"] == "prelu":
        return nn.PReLU(a["c"])
    if n["op"] == "ln":
        return nn.LayerNorm(a["shape"])
    return None


def fill(m, seed):
    """Deterministic parameters."""
    rng = np.random.default_rng(seed)
    for k, v in m.state_dict().items():
        if not v.is_floating_point():
            continue
        r = rng.uniform(-1, 1, size=tuple(v.shape))
        if "running_var" in k:
            r = np.abs(r) + 0.25
        elif k.endswith("weight") and v.ndim > 1:
            r = r / np.sqrt(max(1, np.prod(v.shape[1:]) / 3))
        elif k == "weight" and not isinstance(m, nn.PReLU):
            r = r + np.sign(r) * 0.25
        v.copy_(torch.from_numpy(np.asarray(r)))


FUNCS = {
    "relu": lambda a, x: F.relu(x, inplace=a.get("inplace", False)),
    "torch_relu": lambda a, x: torch.relu(x),
    "relu6": lambda a, x: F.relu6(x),
    "leaky_relu": lambda a, x: F.leaky_relu(x, a["slope"]),
    "elu": lambda a, x: F.elu(x),
    "celu": lambda a, x: F.celu(x),
    "selu": lambda a, x: F.selu(x),
    "gelu": lambda a, x: F.gelu(x),
    "silu": lambda a, x: F.silu(x),
    "sigmoid": lambda a, x: torch.sigmoid(x),
    "tanh": lambda a, x: torch.tanh(x),
    "hardtanh": lambda a, x: F.hardtanh(x, a["lo"], a["hi"]),
    "softmax": lambda a, x: F.softmax(x, a["dim"]),
    "clamp": lambda a, x: torch.clamp(x, a["lo"], a["hi"]),
    "clamp_kw": lambda a, x: torch.clamp(x, **{k: v for k, v in (("min", a["lo"]), ("max", a["hi"])) if v is not None}),
    "clamp_min": lambda a, x: torch.clamp_min(x, a["lo"]),
    "clamp_max": lambda a, x: torch.clamp_max(x, a["hi"]),
    "neg": lambda a, x: -x,
    "abs": lambda a, x: torch.abs(x),
    "exp": lambda a, x: torch.exp(-torch.abs(x)),
    "square": lambda a, x: x * x,
    "add": lambda a, x, y: torch.add(x, y, alpha=a.get("alpha", 1)) if "alpha" in a else x + y,
    "iadd": lambda a, x, y: x.add_(y),
    "adds": lambda a, x: x + a["v"],
    "radds": lambda a, x: a["v"] + x,
    "sub": lambda a, x, y: x - y,
    "mul": lambda a, x, y: x * y,
    "muls": lambda a, x: x * a["v"],
    "div": lambda a, x, y: x / (1 + y * y),
    "cat": lambda a, *xs: torch.cat(xs, a["dim"]) if "dim" in a else torch.cat(xs),
    "stack": lambda a, *xs: torch.stack(xs, a["dim"]),
    "dropout": lambda a, x: F.dropout(x, a["p"], a["training"]),
    "dropout2d": lambda a, x: F.dropout2d(x, a["p"], False),
    "flatten": lambda a, x: torch.flatten(x, a["start"], a["end"]),
    "reshape": lambda a, x: x.reshape(a["shape"]),
    "permute": lambda a, x: x.permute(a["perm"]),
    "transpose": lambda a, x: x.transpose(a["d0"], a["d1"]),
    "contiguous": lambda a, x: x.contiguous(),
    "squeeze": lambda a, x: x.squeeze(),
    "unsqueeze": lambda a, x: x.unsqueeze(a["dim"]),
    "mean": lambda a, x: x.mean(a["dim"], keepdim=a["keep"]),
    "sum": lambda a, x: x.sum(a["dim"], keepdim=a["keep"]),
    "amax": lambda a, x: torch.amax(x, a["dim"], keepdim=a["keep"]),
    "slice": lambda a, x: x.narrow(a["dim"], a["start"], a["len"]),
    "pad": lambda a, x: F.pad(x, a["pads"], mode=a["mode"], value=a.get("value") if a["mode"] == "constant" else None),
    "interp": lambda a, x: F.interpolate(x, scale_factor=a["scale"], mode=a["mode"]),
    "max_pool": lambda a, x: F.max_pool2d(x, a["kernel"], stride=a["stride"], padding=a["pad"], dilation=a["dil"],
                                          ceil_mode=a["ceil"]),
    "avg_pool": lambda a, x: F.avg_pool2d(x, a["kernel"], stride=a["stride"], padding=a["pad"], ceil_mode=a["ceil"],
                                          count_include_pad=a["incl"]),
    "adapt": lambda a, x: F.adaptive_avg_pool2d(x, a["out"]),
    "adaptmax": lambda a, x: F.adaptive_max_pool2d(x, a["out"]),
    "matmul": lambda a, x, y: x @ y.transpose(-1, -2),
    "clone": lambda a, x: x.clone(),
    "chunk": lambda a, x: torch.chunk(x, 2, a["dim"])[a["k"]],
    "size": lambda a, x: x.view(x.size(0), -1),
    "addmm": lambda a, x, y: torch.baddbmm(x[None], x[None], torch.zeros(1, x.shape[1], x.shape[1], dtype=x.dtype))[0] + y,
}


class Net(nn.Module):
    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.mods = nn.ModuleDict()
        for n in spec["nodes"]:
            if n["op"] in MODULES:
                k = n.get("mod", n["out"])
                if k not in self.mods:
                    self.mods[k] = make_module(n)
                    fill(self.mods[k], n.get("seed", 0))
        for k, c in spec.get("consts", {}).items():
            self.register_buffer(k, torch.from_numpy(S.rand_array(tuple(c["shape"]), c["seed"], "unit")).to(torch.float32))

    def one(self, n, env):
        xs = [env[i] if i in env else getattr(self, i) for i in n["in"]]
        if n["op"] in MODULES:
            return self.mods[n.get("mod", n["out"])](*xs)
        return FUNCS[n["op"]](n["attrs"], *xs)

    def forward(self, x, y=None):
        env = {"x": x}
        if y is not None:
            env["y"] = y
        for n in self.spec["nodes"]:
            env[n["out"]] = self.one(n, env)
        outs = self.spec["outputs"]
        return env[outs[0]] if len(outs) == 1 else tuple(env[o] for o in outs)


# ------------------------------------------------------------------ generator
class B:
    def __init__(self, draw, core):
        self.draw, self.core = draw, core
        self.nodes, self.consts, self.shapes = [], {}, {}
        self.cur = "x"

    def add(self, op, ins, attrs, **kw):
        """Append a node if PyTorch accepts it; returns whether it did."""
        n = {"op": op, "in": list(ins), "out": f"t{len(self.nodes) + 1}", "attrs": attrs, **kw}
        try:
            with torch.no_grad():
                env = {i: torch.zeros(self.shapes[i]) for i in n["in"]}
                m = make_module(n) if op in MODULES else None
                if m is not None:
                    m.eval()
                    if op == "bn" and not attrs["track"]:
                        m.train()
                    o = m(*env.values())
                else:
                    o = FUNCS[op](attrs, *[env[i] for i in n["in"]])
        except (RuntimeError, ValueError, IndexError, TypeError, AssertionError):
            return False
        if o.numel() == 0 or o.numel() > 3000:
            return False
        self.nodes.append(n)
        self.shapes[n["out"]] = list(o.shape)
        self.cur = n["out"]
        return True

    def i(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, *v):
        return self.draw(st.sampled_from(v))

    def odd(self, k=4):
        """A feature outside of the core."""
        return not self.core and self.draw(st.integers(0, k)) == 0

    def operand(self):
        """Another tensor of the current shape (in core programs), or of any shape."""
        s = self.shapes[self.cur]
        names = [k for k in self.shapes if self.shapes[k] == s or (not self.core and self.i(0, 3) == 0)]
        return self.draw(st.sampled_from(names))


def put_conv(b):
    s = b.shapes[b.cur]
    if len(s) != 4:
        return False
    cin = s[1]
    k = b.i(1, 3)
    kernel = [k, k] if not b.odd(2) else [b.i(1, 3), b.i(1, 3)]
    st_ = b.i(1, 3)
    stride = [st_, st_] if not b.odd() else [b.i(1, 3), b.i(1, 2)]
    p = b.i(0, 2)
    pad = [p, p] if not b.odd(2) else b.pick([b.i(0, 2), b.i(0, 2)], "same", "valid")
    d = b.pick(1, 1, 1, 2)
    dil = [d, d] if not b.odd() else [b.i(1, 2), b.i(1, 2)]
    groups = b.pick(*[g for g in (1, 1, 1, 2, 3, cin) if cin % g == 0])
    cout = groups * b.i(1, 3)
    mode = b.pick("circular", "reflect", "replicate") if b.odd(12) else "zeros"
    return b.add("conv", [b.cur], {"cin": cin, "cout": cout, "kernel": kernel, "stride": stride, "pad": pad, "dil": dil,
                                   "groups": groups, "bias": b.i(0, 2) > 0, "mode": mode}, seed=b.i(0, 999))


def put_conv_bn(b):
    return put_conv(b) and put_bn(b)


def put_linear(b):
    s = b.shapes[b.cur]
    if b.core and not (len(s) == 1 or (len(s) == 2 and s[0] == 1)):
        return False
    return b.add("linear", [b.cur], {"cin": s[-1], "cout": b.i(1, 6), "bias": b.core or b.i(0, 2) > 0}, seed=b.i(0, 999))


def put_bn(b):
    s = b.shapes[b.cur]
    if len(s) == 2 and not b.core:
        return b.add("bnm", [b.cur], {"c": s[1], "eps": b.pick(1e-5, 0.1)}, seed=b.i(0, 999))
    return len(s) == 4 and b.add("bn", [b.cur], {"c": s[1], "eps": b.pick(1e-5, 1e-3, 0.25), "affine": not b.odd(),
                                                  "track": not b.odd(8)}, seed=b.i(0, 999))


def put_act(b):
    if b.core:
        op = b.pick("relu", "relu", "torch_relu", "clamp")
        # an activation of its own needs a layer before it
        if not b.nodes or b.nodes[-1]["op"] not in ("conv", "linear", "add", "bn", "dropout", "max_pool"):
            return False
    else:
        op = b.pick("relu", "relu", "torch_relu", "relu6", "leaky_relu", "elu", "celu", "selu", "gelu", "silu", "sigmoid",
                    "tanh", "hardtanh", "softmax", "clamp", "clamp", "clamp_kw", "clamp_min", "clamp_max", "neg", "abs",
                    "exp", "square", "prelu", "ln")
    s = b.shapes[b.cur]
    if op == "prelu":
        return b.add("prelu", [b.cur], {"c": b.pick(1, s[1] if len(s) > 1 else 1)}, seed=b.i(0, 999))
    if op == "ln":
        return b.add("ln", [b.cur], {"shape": s[1:]}, seed=b.i(0, 999))
    lo = b.pick(0, -0.25, 0.1, -1) if not b.odd() else b.pick(None, 0.5)
    hi = b.pick(0.5, 1, 6, 0.25) if not b.odd() else b.pick(None, 0.4)
    if op == "hardtanh":
        lo, hi = -0.3, 0.4
    a = {"lo": lo, "hi": hi, "slope": b.pick(0.01, 0.2), "dim": b.i(-len(s), len(s) - 1) if s else 0, "inplace": b.i(0, 3) == 0}
    src = b.cur
    if op == "relu" and a["inplace"] and sum(src in n["in"] for n in b.nodes):
        a["inplace"] = False
    return b.add(op, [src], a)


def put_add(b):
    if b.core:
        o = b.operand()
        return b.add("add", b.pick([b.cur, o], [o, b.cur]), {})
    k = b.i(0, 11)
    if k == 0:
        return b.add(b.pick("adds", "radds", "muls"), [b.cur], {"v": b.pick(1, 0.5, -2)})
    if k == 1:
        return b.add("add", [b.cur, b.operand()], {"alpha": b.pick(2, 0.5, 1)})
    if k == 2:
        return b.add(b.pick("sub", "mul", "div"), [b.cur, b.operand()], {})
    if k == 3:
        s = b.shapes[b.cur]
        c = f"c{len(b.consts)}"
        b.consts[c] = {"shape": [d if b.i(0, 2) else 1 for d in s], "seed": b.i(0, 99)}
        b.shapes[c] = b.consts[c]["shape"]
        r = b.add(b.pick("add", "add", "sub", "mul"), b.pick([b.cur, c], [c, b.cur]), {})
        del b.shapes[c]
        return r
    if k == 4:
        return b.cur != "x" and b.add("iadd", [b.cur, b.operand()], {})
    return b.add("add", [b.cur, b.operand()], {})


def put_cat(b):
    s = b.shapes[b.cur]
    if b.core:
        if len(s) != 4:
            return False
        names = [k for k in b.shapes if len(b.shapes[k]) == 4 and b.shapes[k][2:] == s[2:]]
        return b.add("cat", [b.cur] + [b.draw(st.sampled_from(names)) for _ in range(b.i(1, 2))], {"dim": 1})
    names = [k for k in b.shapes if len(b.shapes[k]) == len(s)]
    ins = [b.cur] + [b.draw(st.sampled_from(names)) for _ in range(b.i(0, 2))]
    if b.i(0, 7) == 0:
        return b.add("cat", ins, {})
    if b.i(0, 9) == 0:
        return b.add("stack", ins, {"dim": b.i(0, len(s))})
    return b.add("cat", ins, {"dim": b.pick(1, b.i(-len(s), max(0, len(s) - 1)))})


def put_pool(b):
    s = b.shapes[b.cur]
    if len(s) not in ((4,) if b.core else (3, 4)):
        return False
    k = b.i(1, 3)
    kernel = [k, k] if not b.odd(3) else [b.i(1, 3), b.i(1, 3)]
    t = b.i(1, 3)
    stride = [t, t] if not b.odd(3) else b.pick([b.i(1, 3), b.i(1, 3)], None)
    p = b.i(0, k // 2)
    pad = [p, p] if not b.odd(3) else [b.i(0, 1), b.i(0, 1)]
    a = {"kernel": kernel, "stride": stride, "pad": pad, "dil": b.pick(1, 2) if b.odd() else 1, "ceil": b.odd(),
         "incl": b.i(0, 1) == 1}
    if b.core:
        # ceil_mode is accepted when it changes nothing
        a["ceil"] = all((d + 2 * p - k) % t == 0 for d in s[2:]) and b.i(0, 1) == 1
        return b.add("max_pool", [b.cur], a)
    return b.add(b.pick("max_pool", "max_pool", "avg_pool"), [b.cur], a)


def put_adapt(b):
    s = b.shapes[b.cur]
    if len(s) < 3:
        return False
    if b.core:
        return len(s) == 4 and s[2] == s[3] and b.add("adapt", [b.cur], {"out": b.pick(1, [1, 1])})
    return b.add(b.pick("adapt", "adapt", "adapt", "adaptmax"), [b.cur], {"out": b.pick(1, [1, 1], 2, [1, 2], [2, 1], [s[-2], s[-1]], s[-1])})


def put_flat(b):
    s = b.shapes[b.cur]
    if b.core:
        return len(s) == 4 and b.cur != "x" and b.add("flatten", [b.cur], {"start": 1, "end": -1})
    k = b.i(0, 9)
    n = len(s)
    if k < 4:
        return b.add("flatten", [b.cur], {"start": b.i(0, max(0, n - 1)), "end": b.pick(-1, -1, max(0, n - 2))})
    if k == 4:
        return b.add(b.pick("squeeze", "contiguous", "clone", "size"), [b.cur], {})
    if k == 5:
        return b.add("unsqueeze", [b.cur], {"dim": b.i(0, n)})
    if k == 6 and n > 1:
        return b.add("permute", [b.cur], {"perm": b.draw(st.permutations(list(range(n))))})
    if k == 7 and n > 1:
        return b.add("transpose", [b.cur], {"d0": b.i(0, n - 1), "d1": b.i(0, n - 1)})
    if k == 8:
        return b.add("reshape", [b.cur], {"shape": b.pick([1, -1], [-1], [1, s[-1], -1], list(reversed(s)), [1, 1, -1, s[-1]])})
    return b.add("chunk", [b.cur], {"dim": b.i(0, max(0, n - 1)), "k": b.i(0, 1)})


def put_drop(b):
    if b.core and not b.nodes:
        return False
    return b.add("dropout", [b.cur], {"p": b.pick(0.5, 0.1), "training": False})


def put_misc(b):
    if b.core:
        return False
    s = b.shapes[b.cur]
    n = len(s)
    k = b.i(0, 6)
    if k == 0:
        return b.add(b.pick("mean", "sum", "amax"), [b.cur], {"dim": b.draw(st.lists(st.integers(0, max(0, n - 1)), min_size=1, max_size=3, unique=True)),
                                                      "keep": b.i(0, 1) == 1})
    if k == 1:
        d = b.i(0, max(0, n - 1))
        return n and b.add("slice", [b.cur], {"dim": d, "start": b.i(0, 1), "len": max(1, s[d] - 1)})
    if k == 2:
        return b.add("pad", [b.cur], {"pads": [b.i(0, 2), b.i(0, 1), b.i(0, 1), b.i(0, 2)], "mode": b.pick("constant", "reflect", "replicate"),
                                      "value": b.pick(0.0, 0.5)})
    if k == 3:
        return b.add("interp", [b.cur], {"scale": 2, "mode": b.pick("nearest", "bilinear")})
    if k == 4:
        return b.add("matmul", [b.cur, b.operand()], {})
    if k == 5:
        return b.add("dropout2d", [b.cur], {"p": 0.5})
    # a module used a second time
    used = [m for m in b.nodes if m["op"] in MODULES]
    if not used:
        return False
    m = b.draw(st.sampled_from(used))
    return b.add(m["op"], [b.cur], m["attrs"], mod=m.get("mod", m["out"]), seed=m.get("seed", 0))


def put_fork(b):
    """A tensor read several times, under its name or the one of a function which leaves it as it is."""
    if not put(b, b.pick("conv", "conv", "convbn", "linear", "add", "bn", "pool"), b.core):
        return False
    base = b.cur
    names = [base]
    for _ in range(b.i(0, 2)):
        b.cur = b.pick(*names)
        if put(b, b.pick("drop", "drop", "flat"), b.core):
            names.append(b.cur)
    last = []
    for _ in range(b.i(1, 3)):
        b.cur = b.pick(*names)
        s = b.shapes[b.cur]
        k = b.i(0, 5)
        if k < 3 and b.core:
            a = {"lo": b.pick(0, -0.25, 0.1), "hi": b.pick(0.25, 1), "inplace": False}
            ok = b.add(b.pick("relu", "torch_relu", "clamp"), [b.cur], a)
        else:
            ok = put(b, b.pick("bn", "add", "act") if len(s) == 4 else b.pick("linear", "add", "act"), b.core)
        if ok:
            last.append(b.cur)
    same = [n for n in [*names, *last] if b.shapes[n] == b.shapes[b.cur]]
    if len(same) > 1:
        ins = [b.cur, b.pick(*same)]
        if len(b.shapes[b.cur]) == 4 and b.i(0, 1):
            return b.add("cat", ins, {"dim": 1})
        return b.add("add", ins[::-1] if b.i(0, 1) else ins, {})
    return bool(last)


PUT = {"conv": put_conv, "convbn": put_conv_bn, "linear": put_linear, "bn": put_bn, "act": put_act, "add": put_add, "cat": put_cat,
       "pool": put_pool, "adapt": put_adapt, "flat": put_flat, "drop": put_drop, "misc": put_misc, "fork": put_fork}


def put(b, k, core):
    """Add a function, unless the current tensor has too few dimensions for it."""
    try:
        return PUT[k](b)
    except (IndexError, ZeroDivisionError):
        if core:
            raise
        return False


@st.composite
def programs(draw, core, first=None):
    b = B(draw, core)
    k = b.i(0, 9)
    if k < 7:
        shape = [1, b.i(1, 4), b.i(1, 7), b.i(1, 7)]
        if core and b.i(0, 1):
            shape[3] = shape[2]
    elif k < 9:
        shape = [1, b.i(1, 8)]
    else:
        shape = [b.i(2, 8)] if core else draw(st.lists(st.integers(1, 4), min_size=0, max_size=5))
    b.shapes["x"] = shape
    two = not core and b.i(0, 24) == 0
    if two:
        b.shapes["y"] = shape
    kinds = list(PUT)
    seq = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=6 if core else 4))
    if first:
        # the operator under test, in a context
        seq = seq[:b.i(0, 2)] + [first] + seq[2:2 + b.i(0, 2)]
    for k in seq:
        if b.i(0, 5) == 0 and b.nodes:
            b.cur = draw(st.sampled_from([n for n in b.shapes]))
        put(b, k, core)
    if core and b.nodes and len(b.shapes[b.cur]) == 4 and b.i(0, 2) == 0:
        PUT["flat"](b)
        PUT["linear"](b)
    if not b.nodes and (core or b.i(0, 1)):
        if not core or len(shape) != 4:
            b.add("linear", ["x"], {"cin": shape[-1] if shape else 1, "cout": 2, "bias": True}, seed=1)
        else:
            put_conv(b) or b.add("conv", ["x"], {"cin": shape[1], "cout": 2, "kernel": [1, 1], "stride": [1, 1], "pad": [0, 0],
                                                 "dil": [1, 1], "groups": 1, "bias": True}, seed=1)
        outs = [b.cur]
    outs = [b.cur]
    if not core and b.nodes and b.i(0, 19) == 0:
        outs = draw(st.lists(st.sampled_from([n["out"] for n in b.nodes]), min_size=1, max_size=2))
    nodes = b.nodes
    if core:
        # only what the output depends on
        need = set(outs)
        for n in reversed(nodes):
            if n["out"] in need:
                need |= set(n["in"])
        nodes = [n for n in nodes if n["out"] in need]
    last = len(shape) == 4 and b.i(0, 2) == 0
    nhwc = all(n["op"] in ("conv", "bn", "relu", "torch_relu", "clamp", "max_pool", "dropout") and
               n["attrs"].get("dil", [1, 1]) in ([1, 1], 1) for n in nodes) and all(
        sum(n["in"][0] in m["in"] for m in nodes) == 1 and any(m["out"] == n["in"][0] and m["op"] == "conv" for m in nodes)
        for n in nodes if n["op"] == "bn")
    return {"input": shape, "two": two, "nodes": nodes, "consts": b.consts, "outputs": outs, "core": core,
            "last": last, "gen_last": core and last and nhwc and b.i(0, 1) == 0, "double": not core and b.i(0, 24) == 0,
            "train": not core and b.i(0, 24) == 0, "opt": b.i(0, 3) == 0,
            "dseed": draw(st.integers(0, 999)), "n": 2}


def describe(c):
    s = f"x{c['input']}{' channels_last' if c['last'] else ''}{' double' if c.get('double') else ''}{' train' if c.get('train') else ''}"
    if c.get("gen_last"):
        s += " gen_data_format=channels_last"
    for n in c["nodes"]:
        at = ", ".join(f"{k}={v}" for k, v in n["attrs"].items())
        s += f"; {n['out']} = {n['op']}({', '.join(n['in'])} | {at}{' | module of ' + n['mod'] if 'mod' in n else ''})"
    return s + f"; return {c['outputs']}"


def flat(t, nhwc):
    a = t.detach().to(torch.float64)
    if nhwc and a.ndim == 4:
        a = a.permute(0, 2, 3, 1)
    return a.numpy().ravel()


def run(case):
    torch.manual_seed(0)
    try:
        with torch.no_grad(), quiet():
            net = Net(case)
            net.train(bool(case.get("train")))
            size = int(np.prod(case["input"]))
            x = S.rand_array((case["n"], size), case["dseed"], "unit").astype(np.float32)
            dt = torch.float64 if case.get("double") else torch.float32
            net = net.to(dt)
            ts = [torch.from_numpy(r.reshape(case["input"])).to(dt) for r in x]
            if case["last"]:
                ts = [t.to(memory_format=torch.channels_last) for t in ts]
                net = net.to(memory_format=torch.channels_last)
            args = (ts[0],) if not case["two"] else (ts[0], ts[0].clone())
            program = torch.export.export(net, args)
            hi = copy.deepcopy(net).to(torch.float64)
            if not case.get("train"):
                hi.eval()
            lo, ref, outs = [], [], []
            for t in ts:
                a = (t.clone(),) if not case["two"] else (t.clone(), t.clone())
                d = hi(*[v.to(torch.float64) for v in a])
                o = net(*a)
                o, d = (o if isinstance(o, tuple) else (o,)), (d if isinstance(d, tuple) else (d,))
                outs.append(o)
                lo.append(o)
                ref.append(d)
    except Exception as e:  # noqa: BLE001 - PyTorch refuses the program
        raise Reject(f"PyTorch: {type(e).__name__} {str(e)[:60]}") from e
    labels = [*(n["op"] for n in case["nodes"]), f"rank{len(case['input'])}", "channels_last" if case["last"] else "channels_first"]
    if case["core"]:
        labels.append("core")
    with scratch() as d:
        from pbt.cgen import acetone_generator
        xx = x
        try:
            kw = {"gen_data_format": "channels_last", "versions": {"Conv2D": "direct_block", "MaxPooling2D": "channels_last"}} if case["gen_last"] else {}
            if case["opt"]:
                kw["optimization"] = True
            try:
                probe = acetone_generator(program, nb_tests=1, test_dataset=x[:1], **kw)
            except BaseException as ex:  # noqa: BLE001
                if isinstance(ex, (KeyboardInterrupt, MemoryError)):
                    raise
                raise GenError("create", ex) from ex
            nhwc = probe.data_format == "channels_last"
            if len(case["input"]) == 4:
                if case["last"] and not nhwc and min(case["input"][1], case["input"][2] * case["input"][3]) > 1:
                    raise Violation(f"channels-last program read as channels-first\nmodel: {describe(case)}")
                if nhwc:
                    xx = np.stack([np.transpose(r.reshape(case["input"]), (0, 2, 3, 1)).ravel() for r in x])
            r = run_acetone(program, xx, d, want_py=False, **kw)
        except GenError as e:
            if case["core"] and not case["gen_last"]:
                raise Violation(f"the program is refused: {e}\nmodel: {describe(case)}") from e
            return Info([*labels, "refused"], False, {"model": describe(case), "refused": str(e)[:120]})
        except (BuildError, RunError) as e:
            raise Violation(f"{type(e).__name__}: {str(e)[:600]}\nmodel: {describe(case)}") from e
        ref = [np.concatenate([flat(o, nhwc) for o in v]) for v in ref]
        lo = [np.concatenate([flat(o, nhwc) for o in v]) for v in lo]
        if not all(np.all(np.isfinite(v)) for v in ref):
            raise Reject("non finite reference")
        try:
            run_acetone(program, xx, d, want_c=False, gen=r.gen)
        except GenError as e:
            if case["core"] and not case["gen_last"]:
                raise Violation(f"the reference inference fails: {e}\nmodel: {describe(case)}") from e
            labels.append("refused by the reference inference")
        else:
            from pbt.cgen import parse_text
            r.py = parse_text((d / "output_python.txt").read_text())
    tol = [1e-5 * max(1.0, float(np.max(np.abs(v)))) + 20 * float(np.max(np.abs(v - w))) for v, w in zip(ref, lo)]
    for what, rows in (("C program", r.c), ("reference inference", r.py)):
        if rows is None:
            continue
        dif = J.diff(rows, ref, tol)
        if dif:
            raise Violation(f"the {what} disagrees with PyTorch: {dif}\nmodel: {describe(case)}")
    return Info([*labels, "accepted"], len(set(np.concatenate(ref).tolist())) > 1,
                {"model": describe(case), "output": ref[0][:4].tolist()})


CHECK = Check(
    "P11", "A PyTorch program is refused, or computed as PyTorch defines it",
    "Exported PyTorch programs drawn from more than fifty functions and modules. Core programs (square convolutions, batch "
    "normalizations, linear layers, ReLU and clamp after a layer, sums, concatenations of channels, max "
    "pooling, global average pooling, dropout, flatten; channels-first or channels-last) must be accepted; every program "
    "must be refused, or give a C program and a reference inference with the outputs of PyTorch. Non-trivial: accepted, and the outputs "
    "hold at least two distinct values.",
    [Family("core", lambda: programs(True), run, 500), Family("readers", lambda: programs(True, "fork"), run, 300),
     *[Family(k, (lambda k=k: programs(False, k)), run, 120, min_nontrivial=0.05) for k in PUT],
     Family("any", lambda: programs(False), run, 300, min_nontrivial=0.05)])
