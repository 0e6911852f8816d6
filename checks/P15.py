"""P15 - the generated directory: its files, its Makefile, its program."""
import os
import shlex
import stat

import numpy as np
from hypothesis import strategies as st

from pbt import families as F
from pbt import judge as J
from pbt import onnxspec as S
from pbt.cgen import (BuildError, GenError, RunError, acetone_generator, compile_generated, parse_text, quiet, run_program,
                      scratch, sh)
from pbt.engine import Check, Family, Info, Violation

ALGS = [None, "6loops", "indirect_gemm_nn", "std_gemm_nn"]
CFLAGS = ["-g", "-w", "-O0", "-O1", "-std=gnu11", "-fno-fast-math", "-I.", "-fopenmp", "-DNAME='\"a b\"'",
          "-DTEXT=\\\"x\\\"", "-D'LESS(a,b)=((a)<(b)&&(b)>(a))'", "-DQ=\"'&amp;'\"", "-DVALUE=1", "-Wno-all -DOTHER=2",
          "-include stdio.h", "-include math.h"]
LDFLAGS = ["-lm", "-Wl,--as-needed", "-Wl,-rpath,'/a & b'", "-Wl,--defsym='zz_a'=12", "-lm -lpthread"]
NAMES = ["inference", "lenet5", "f", "my_network_2", "Net", "main_net", "prog.bin"]


@st.composite
def cases(draw):
    spec = draw(F.chain(1, 4, branch=1, dtypes=("float32", "float32", "float64"), n=draw(st.sampled_from([1, 2, 3, 33, 40])),
                        opts={"conv": {"groups": False}}))
    c = {"spec": spec, "name": draw(st.sampled_from(NAMES)), "hex": draw(st.booleans()), "bin": draw(st.booleans()),
         "verbose": draw(st.integers(0, 2)) == 0, "alg": draw(st.sampled_from(ALGS)),
         "props": {}, "dir": draw(st.sampled_from(["code", "a/b c/code", "here"])),
         "custom": draw(st.sampled_from([None, None, None, "extra", "nomake", "main", "files", "inference", "tests"])),
         "page": draw(st.sampled_from([None, 64, 4096])), "str": draw(st.booleans()), "joined": draw(st.integers(0, 3)) == 0}
    if draw(st.booleans()):
        c["props"]["compiler_flags"] = draw(st.lists(st.sampled_from(CFLAGS), max_size=5))
    if draw(st.booleans()):
        c["props"]["linker_flags"] = ["-lm", *draw(st.lists(st.sampled_from(LDFLAGS), max_size=2, unique=True))]
    if c["custom"] == "nomake":     # nothing describes how to link binary files
        c["bin"] = False
    return c


def snapshot(d):
    return {str(p.relative_to(d)): p.read_bytes() if p.is_file() else None for p in sorted(d.rglob("*"))}


def generator(case, model, x, **over):
    kw = {"versions": {"Conv2D": case["alg"]} if case["alg"] else None, "bin_dataset": case["bin"],
          "to_hex": case["hex"], "verbose": case["verbose"], **over}
    if case["page"]:
        kw["target_page_size"] = case["page"]
    from acetone_nnet import CodeGenerator
    with quiet():
        return CodeGenerator(file=model, function_name=case["name"], nb_tests=len(x), test_dataset=x, **kw)


def expected_files(case):
    f = {"inference.c", "inference.h", "global_vars.c", "train_hook.c", "main.c", "test_dataset.h", "Makefile"}
    f |= {"parameters.dat", "test_dataset.dat"} if case["bin"] else {"parameters.c", "test_dataset.c"}
    if case["custom"] == "extra":
        f |= {"extra.c", "more.c"}
    if case["custom"] == "files":
        f |= {"notes.txt", "data.csv", "table.hex", "a.c.txt"}
    if case["custom"] == "nomake":
        f -= {"Makefile"}
    if case["custom"] == "main":
        f -= {"main.c", "test_dataset.h"}
        f |= {"my_main.c", "test_dataset.h"}
    return f


def custom_functions(case):
    k = case["custom"]

    def put(name, text):
        return (name, lambda gen, path: (path / name).write_text(text))
    if k == "extra":
        return {"Extra": [put("extra.c", "int extra(void) { return 3; }\n"), put("more.c", "int more(void) { return 4; }\n")]}
    if k == "files":
        return {"Notes": [put(n, "notes\n") for n in ("notes.txt", "data.csv", "table.hex", "a.c.txt")]}
    if k == "nomake":
        return {"Makefile": []}
    if k == "main":
        def main(gen, path):
            gen.generate_main_file(path)
            (path / "main.c").rename(path / "my_main.c")
        return {"Main": [("my_main.c", main), ("test_dataset.h", lambda gen, path: gen.generate_test_dataset_header_file(path))]}
    if k == "inference":    # the functions of the default (the names of the sources to link are asked for, binary or not)
        return {"Inference": [("inference.c", lambda gen, path: gen.generate_function_source_file(path)),
                              ("inference.h", lambda gen, path: gen.generate_function_header_file(path)),
                              ("global_vars.c", lambda gen, path: gen.generate_globalvars_file(path)),
                              ("parameters.c", lambda gen, path: gen.generate_bin_parameter_file(path) if case["bin"]
                               else gen.generate_parameter_file(path)),
                              ("train_hook.c", lambda gen, path: gen.generate_train_hook_file(path))]}
    if k == "tests":
        return {"TestValues": [("test_dataset.c", lambda gen, path: gen.generate_test_dataset_value_file(path))]}
    return None


def find(words, sub):
    n = len(sub)
    return any(words[i:i + n] == sub for i in range(len(words) - n + 1))


def run(case):
    spec = case["spec"]
    model = S.build_model(spec)
    x = S.dataset(spec)
    few = sorted({0, len(x) - 1})
    ref = J.reference(spec, model, x[few])
    what = f"{ {k: v for k, v in case.items() if k != 'spec'} }\nmodel: {J.describe(spec)}"

    def bad(msg):
        return Violation(f"{msg}\n{what}")

    with scratch() as top:
        d = top / case["dir"]
        log = top / "log"
        log.mkdir()
        cc = top / "cc"
        cc.write_text("#!/bin/sh\nf=$(mktemp \"" + str(log) + "/XXXXXXXX\")\nprintf '%s\\n' \"$@\" > \"$f\"\nexec gcc -ffp-contract=off \"$@\"\n")
        cc.chmod(cc.stat().st_mode | stat.S_IXUSR)
        props = {k: " ".join(v) if case["joined"] else list(v) for k, v in case["props"].items()}
        props["compiler"] = str(cc)
        if case["dir"] == "here":       # the directory exists, with files of someone else
            d.mkdir()
            (d / "README").write_text("mine")
            (d / "old.o").write_text("mine")
        try:
            gen = generator(case, model, x, makefile_properties=props, custom_generation_functions=custom_functions(case))
            with quiet():
                gen.generate_c_files(str(d) if case["str"] else d)
        except Exception as e:  # noqa: BLE001
            raise bad(f"generation failed: {type(e).__name__}: {e}") from e
        have = {n for n in snapshot(d)}
        want = expected_files(case) | ({"README", "old.o"} if case["dir"] == "here" else set())
        if have != want:
            raise bad(f"files {sorted(have)} instead of {sorted(want)}")
        # a second generation refuses to touch them
        first = snapshot(d)
        for keep in [None, *sorted(expected_files(case))[::max(1, len(first) // 3)]]:
            d2 = d
            if keep:
                d2 = top / "again" / keep
                d2.mkdir(parents=True)
                (d2 / keep).write_bytes(b"mine")
            before = snapshot(d2)
            try:
                with quiet():
                    generator(case, model, x, custom_generation_functions=custom_functions(case)).generate_c_files(d2)
            except FileExistsError:
                pass
            except Exception as e:  # noqa: BLE001
                raise bad(f"generation over {keep or 'everything'} raised {type(e).__name__}: {e}") from e
            else:
                raise bad(f"generation in a directory holding {keep or 'everything'} was accepted")
            if snapshot(d2) != before:
                raise bad(f"generation in a directory holding {keep or 'everything'} changed it")
        nflags = 0
        if case["custom"] != "nomake":
            rc, o, e = sh(["make", "-j3", "-C", str(d)], timeout=300)
            if rc:
                raise bad(f"make failed: {e[-1200:]}")
            for n in (case["name"], case["name"] + ".so"):
                if not (d / n).is_file() or not os.access(d / n, os.X_OK):
                    raise bad(f"make did not build {n}")
            # what the compiler was given
            flags = [w for f in case["props"].get("compiler_flags", ["-g", "-w"]) for w in shlex.split(f)]
            ld = [w for f in case["props"].get("linker_flags", ["-lm"]) for w in shlex.split(f)]
            calls = [p.read_text().split("\n")[:-1] for p in log.iterdir()]
            objs = [c for c in calls if "-c" in c]
            links = [c for c in calls if "-c" not in c and "-o" in c and any(a.endswith(".o") or a.endswith(".c") for a in c)]
            if len(links) < 2 or not objs:
                raise bad(f"compiler called with {calls}")
            for c in objs + links:
                if flags and not find(c, flags):
                    raise bad(f"compiler flags {flags} became {c}")
            for c in links:
                if ld and not find(c, ld):
                    raise bad(f"linker flags {ld} became {c}")
            nflags = len(flags) + len(ld)
        try:
            rows, raw = program(case, d, case["custom"] != "nomake")
            # the same network printed in hexadecimal
            if not case["hex"] or case["verbose"]:
                d3 = top / "hex"
                g3 = generator({**case, "custom": None}, model, x, to_hex=True, verbose=False, bin_dataset=False)
                with quiet():
                    g3.generate_c_files(d3)
                compile_generated(d3)
                r3 = run_program(d3)
                dt = S.NP[spec["dtype"]]
                dif = J.diff([list(np.asarray(r).astype(dt).astype(np.float64)) for r in rows], r3, [0.0] * len(r3))
                if dif:
                    raise bad(f"the printed outputs differ from the computed ones: {dif}\n{raw[:300]}")
            if case["verbose"]:
                tail = raw.split("inference output:", 1)[-1].strip("\n").splitlines()
                shown = parse_text("\n".join(t for t in tail if t.strip()), "hex" if case["hex"] else "dec")
                if J.diff(shown, rows, [0.0] * len(rows)):
                    raise bad(f"the outputs shown differ from the ones written: {raw[-500:]}")
            elif raw.strip():
                raise bad(f"the program prints {raw[:300]!r}")
        except (RunError, BuildError, GenError) as e:
            raise bad(f"{type(e).__name__}: {e}") from e
        if len(rows) != len(x):
            raise bad(f"{len(rows)} lines for {len(x)} samples")
        J.check_rows(f"the program disagrees with the model ({what})", [rows[i] for i in few], ref, model, x[few], spec)
    return Info([f"name:{case['name']}", "hex" if case["hex"] else "dec", "bin" if case["bin"] else "text",
                 f"custom:{case['custom']}", f"dir:{case['dir']}", spec["dtype"], f"verbose:{case['verbose']}",
                 *(f"flag:{f}" for f in case["props"].get("compiler_flags", []))],
                F.nontrivial(ref.rows), {**F.sample(spec), "options": {k: v for k, v in case.items() if k != "spec"}})


def program(case, d, made):
    """(rows written, text printed) by the program."""
    if made:
        prog = "./" + case["name"]
    else:
        compile_generated(d)
        prog = "./prog"
    out = d / "results.txt"
    rc, o, e = sh([prog, str(out)], cwd=d, timeout=120, env={**os.environ, "OMP_WAIT_POLICY": "passive"})
    if rc:
        raise RunError(f"exit code {rc}: {e[-500:]}")
    return parse_text(out.read_text(), "hex" if case["hex"] else "dec"), o


fams = [Family("build", cases, run, 260)]

CHECK = Check(
    "P15", "The generated directory is complete, builds as asked, and is never overwritten",
    "Drawn networks, program names, directories, output formats, compiler and linker flags (with quotes, spaces and "
    "shell metacharacters), custom generation functions; the files written, the refusal to overwrite any of them, the "
    "words which a recording compiler receives from make, the two products of make and the lines which the program "
    "writes and prints are compared with what was asked and with the outputs of the model. Non-trivial: the outputs "
    "are not all equal.",
    fams, assumptions=["GNU make and gcc"])
