"""Drive ACETONE end to end: model -> C code -> binary -> outputs.

Everything happens inside a scratch directory which is removed afterwards.
"""
import contextlib
import io
import os
import re
import shutil
import signal
import subprocess
import tempfile
import warnings
from pathlib import Path

import numpy as np

SCRATCH = os.environ.get("ACETONE_PBT_SCRATCH") or tempfile.gettempdir()

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class GenError(Exception):
    """ACETONE raised while loading the model or generating code / python reference."""

    def __init__(self, stage, exc):
        self.stage, self.exc = stage, exc
        super().__init__(f"{stage}: {type(exc).__name__}: {str(exc)[:400]}")


class BuildError(Exception):
    """The generated C code does not compile."""


class RunError(Exception):
    """The generated program crashed / exited non zero / sanitizer report."""


class Hung(Exception):
    """Harness timeout: never a violation by itself."""


@contextlib.contextmanager
def scratch(prefix="acetone_pbt_"):
    d = tempfile.mkdtemp(prefix=prefix, dir=SCRATCH)
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def sh(cmd, cwd=None, timeout=120, env=None):
    if cmd[0].startswith("./"):     # a generated program, which runs for less than a second: killed after a minute of CPU
        cmd, timeout = ["prlimit", "--cpu=60", "--", *cmd], max(timeout, 300)
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True, env=env)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Hung(f"timeout running {cmd[0]}")
    return p.returncode, out, err


def compile_generated(d, out="prog", flags=("-O1", "-w"), san=False, extra=()):
    """Compile the executable from the generated sources directly with gcc."""
    srcs = sorted(str(p.name) for p in Path(d).glob("*.c"))
    cmd = ["gcc", *flags, "-ffp-contract=off", *(SAN if san else ()), *srcs, *extra, "-o", out, "-lm"]
    rc, o, e = sh(cmd, cwd=d, timeout=300)
    if rc != 0:
        raise BuildError(e[-2500:])


def make_generated(d, target="all"):
    rc, o, e = sh(["make", "-C", str(d), target], timeout=300)
    if rc != 0:
        raise BuildError((o[-500:] + "\n" + e[-2000:]))


def parse_text(text, mode="hex"):
    rows = []
    for line in text.splitlines():
        w = line.split()
        if mode == "hex":
            rows.append([float.fromhex(x) if x.lower() not in ("nan", "-nan") else float("nan") for x in w])
        elif mode == "int":
            rows.append([int(x) for x in w])
        else:
            rows.append([float(x) for x in w])
    return rows


def run_program(d, prog="./prog", outfile="out_c.txt", mode="hex", args=(), env=None):
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
    if env:
        e.update(env)
    rc, o, err = sh([prog, outfile, *args], cwd=d, timeout=120, env=e)
    if rc != 0:
        raise RunError(f"exit code {rc}\n{err[-3000:]}")
    return parse_text((Path(d) / outfile).read_text(), mode)


class Result:
    """What one ACETONE run produced."""

    gen = None
    c = None       # list of rows
    py = None      # list of rows


def acetone_generator(model, **kw):
    from acetone_nnet import CodeGenerator
    try:
        with quiet():
            return CodeGenerator(file=model, function_name="inference", **kw)
    except Exception as ex:  # noqa: BLE001
        raise GenError("load", ex) from ex


def run_acetone(model, dataset, d, *, want_c=True, want_py=True, san=False, use_make=False, gen=None,
                flags=("-O1", "-w"), **kw):
    """Full pipeline.  `dataset`: array (n, size)."""
    r = Result()
    d = Path(d)
    mode = "hex" if kw.get("to_hex", True) else "dec"
    if gen is None:
        gen = acetone_generator(model, nb_tests=len(dataset), test_dataset=dataset, **kw)
    r.gen = gen
    if want_c:
        try:
            with quiet():
                gen.generate_c_files(d)
        except Exception as ex:  # noqa: BLE001
            raise GenError("generate", ex) from ex
    if want_py:
        try:
            with quiet():
                gen.compute_inference(str(d))
        except Exception as ex:  # noqa: BLE001
            raise GenError("python inference", ex) from ex
        r.py = parse_text((d / "output_python.txt").read_text(), mode)
    if want_c:
        if use_make:
            make_generated(d)
            r.c = run_program(d, prog="./inference", mode=mode)
        else:
            compile_generated(d, san=san, flags=flags)
            r.c = run_program(d, mode=mode)
    return r


# ------------------------------------------------------------------ memory checking builds
FIELD = re.compile(r"^\s*(?:\w+\s+)+(\w+)\[([^\]]*)\]\s*__attribute__", re.M)


def poison_source(d):
    """C code poisoning, in every context, the alignment padding which follows each buffer."""
    h = (Path(d) / "inference.h").read_text()
    m = re.search(r"typedef struct inference_t\s*\{(.*?)\}\s*inference_t;", h, re.S)
    fields = [f for f, _ in FIELD.findall(m.group(1))] if m else []
    s = ['#include <stddef.h>', '#include <sanitizer/asan_interface.h>', '#include "inference.h"',
         'int poisoned_bytes;', '__attribute__((constructor)) static void poison(void) {',
         '  for (int c = 0; c < MAX_BATCH_SIZE; c++) { char *b = (char *)&Context[c];']
    for i, f in enumerate(fields):
        end = f"offsetof(inference_t, {fields[i + 1]})" if i + 1 < len(fields) else "sizeof(inference_t)"
        s.append(f"    {{ size_t o = offsetof(inference_t, {f}) + sizeof(((inference_t *)0)->{f}), e = {end};")
        s.append("      if (e > o) { ASAN_POISON_MEMORY_REGION(b + o, e - o); poisoned_bytes += (int)(e - o); } }")
    s.append("  }\n}")
    return "\n".join(s), len(fields)


def run_sanitized(d, kind, outfile="out_san.txt", opt="-O1"):
    """Compile and run the generated program under a memory checker; raises RunError on a report."""
    d = Path(d)
    if kind == "asan":
        src, n = poison_source(d)
        (d / "zz_poison.c").write_text(src)
        try:
            compile_generated(d, out="prog_san", flags=(opt, "-w", "-g"), san=True)
        finally:
            (d / "zz_poison.c").unlink()
    elif kind == "msan":
        (d / "stub").mkdir(exist_ok=True)
        (d / "stub" / "omp.h").write_text("")
        srcs = sorted(str(p.name) for p in d.glob("*.c"))
        rc, o, e = sh(["clang", opt, "-w", "-g", "-ffp-contract=off", "-fsanitize=memory", "-fno-sanitize-recover=all",
                       "-fno-omit-frame-pointer", "-Istub", *srcs, "-o", "prog_san", "-lm"], cwd=d, timeout=300)
        if rc:
            raise BuildError(e[-2000:])
    else:
        raise ValueError(kind)
    return run_program(d, "./prog_san", outfile)
