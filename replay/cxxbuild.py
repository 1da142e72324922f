"""compile the repository's C++ sources (current tree) into a python module inside a scratch directory"""
import os, subprocess, tempfile, shutil, atexit, sys, importlib.util, sysconfig
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("VERIF_REPO", "/repo"); HERE = os.path.dirname(os.path.abspath(__file__))
PYB = "/opt/venv/lib/python3.12/site-packages/pybind11/include"
CORE_INC = ["-isystem", "/opt/deps/mqt_core-2.7.0/include/mqt-core", "-isystem", "/opt/build/py/_deps/mqt-core-build/src/ir"]
def build(name, binding, sources, libs=(), inc=()):
    d = tempfile.mkdtemp(prefix="cxx_"); pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    flags = ["-std=c++17", "-O1", "-fPIC", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/include", "-I" + PYB, "-I" + sysconfig.get_paths()["include"], *inc]
    objs = []
    def one(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        p = subprocess.run(["g++", *flags, "-c", s, "-o", o], capture_output=True, text=True)
        if p.returncode: raise RuntimeError("does not compile: " + s + "\n" + p.stderr[:2000])
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, [os.path.join(HERE, binding)] + [os.path.join(REPO, s) for s in sources]))
    so = os.path.join(d, name + ".so")
    p = subprocess.run(["g++", "-shared", "-o", so, *objs, *libs], capture_output=True, text=True)
    if p.returncode: raise RuntimeError("does not link:\n" + p.stderr[:2000])
    spec = importlib.util.spec_from_file_location(name, so); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m
def core(): return build("qcore", "qcore.cpp", ["src/GF2.cpp", "src/Utils.cpp", "src/UFDecoder.cpp", "src/UFHeuristic.cpp"])
def ecc(): return build("qecc", "qecc.cpp", ["src/ecc/" + f for f in sorted(os.listdir(os.path.join(REPO, "src/ecc"))) if f.endswith(".cpp")], libs=["/opt/build/py/_deps/mqt-core-build/src/ir/libmqt-core-ir.a"], inc=CORE_INC)
