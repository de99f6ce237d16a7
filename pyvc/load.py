"""Load the real modules of /repo and the contracts."""
import importlib
import importlib.util
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["errors", "version", "tokens", "ptypes", "operators", "scanning", "parsing", "execution", "pip"]


def load_modules():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    mods = {}
    for m in MODULES:
        if m == "pip":
            spec = importlib.util.spec_from_file_location("pip_main", os.path.join(REPO, "pip.py"))
            mod = importlib.util.module_from_spec(spec)
            sys.modules["pip_main"] = mod
            spec.loader.exec_module(mod)
            mods["pip_main"] = mod
        else:
            mods[m] = importlib.import_module(m)
            f = os.path.realpath(mods[m].__file__)
            if os.path.dirname(f) != os.path.realpath(REPO):
                raise RuntimeError(f"{m} loaded from {f}, not from {REPO}")
    return mods


def load_all():
    mods = load_modules()
    from . import spec, gen
    spec.P = mods["ptypes"]
    gen.P = mods["ptypes"]
    spec.X = gen.X = mods["execution"]
    spec.OPS = mods["operators"]
    spec.ERR = mods["errors"]
    gen.CLONERS[gen.X.ProgramState] = gen.clone_state
    gen.CLONERS[gen.X.Lval] = gen.clone_lval
    gen.CLONERS[mods["operators"].Operator] = gen.clone_oper
    gen.CLONERS[mods["ptypes"].Block] = gen.clone_block
    cdir = os.path.join(VERIF, "contracts")
    sys.path.insert(0, cdir)
    files = []
    for f in sorted(os.listdir(cdir)):
        if f.startswith("c_") and f.endswith(".py"):
            importlib.import_module(f[:-3])
            files.append(os.path.join(cdir, f))
    return mods, files


def make_world():
    mods, files = load_all()
    from . import contract as C
    from .world import World
    from . import spec
    inline = [os.path.join(REPO, m + ".py") for m in MODULES] + files + [os.path.abspath(spec.__file__),
              os.path.join(VERIF, "pyvc", "rx.py")]
    inline += [getattr(m, "__file__") for m in mods.values()]
    w = World(mods, {(c.module, c.qualname): c for c in C.REGISTRY.values() if "#" not in c.key or c.callee}, inline)
    C.install_spec_models(w)
    return w, C.REGISTRY
