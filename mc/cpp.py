"""Builds the C++ parts of /repo's current working tree in scratch and loads them instead of the installed ones."""
from __future__ import annotations

import importlib.util
import os
import subprocess
import sys
import sysconfig

from mc.core import REPO, Violation


def compile_so(scratch, sources, out, extra=()):
    import pybind11

    cmd = ["g++", "-std=c++17", "-O1", "-DNDEBUG", "-w", "-fPIC", "-shared", "-fvisibility=hidden",
           f"-I{REPO}/include", f"-I{pybind11.get_include()}", f"-I{sysconfig.get_path('include')}", *extra, *sources, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=scratch)
    if p.returncode:
        raise RuntimeError("the C++ sources of the working tree do not compile:\n" + p.stderr[-3000:])
    return out


def use_current_bindings(scratch):
    """Compile src/python/bindings.cpp with include/dd of the working tree and install it as mqt.qudits._qudits."""
    so = compile_so(scratch, [f"{REPO}/src/python/bindings.cpp"], os.path.join(scratch, "_qudits.so"))
    import mqt.qudits  # noqa: F401

    for name in [m for m in sys.modules if m.startswith("mqt.qudits._qudits") or m.startswith("mqt.qudits.simulation")]:
        del sys.modules[name]
    spec = importlib.util.spec_from_file_location("mqt.qudits._qudits", so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules["mqt.qudits._qudits"] = mod
    sys.modules["mqt.qudits._qudits.misim"] = mod.misim
    import mqt.qudits.simulation.backends.misim as ms

    if ms.state_vector_simulation is not mod.misim.state_vector_simulation:
        raise RuntimeError("the working tree's bindings were not picked up")
    return mod
