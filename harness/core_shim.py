"""Makes `hazma._core` importable: builds /repo's Rust crate without its pyo3 layer.

The kernels, boost, interp, quad and special modules are compiled from /repo's working tree
(unmodified sources, `spec_math` replaced by core/spec_math.rs) into a cdylib with the C ABI
of core/wrap.rs.  The pyo3 layer (rust/src/{lib,dispatch,photon,...}.rs) cannot be built here;
the Python functions below play its part: scalar in, float out; 1-D array in, array out.
"""
import ctypes
import os
import pathlib
import re
import subprocess
import sys
import types

import numpy as np

HERE = pathlib.Path(__file__).resolve().parent
GLUE = {"boost_probe", "dispatch", "dispatch_probe", "interp_probe", "quad_probe", "special_probe",
        "neutrino", "photon", "positron", "scalar_mediator", "vector_mediator"}
MOD = re.compile(r"^((?:pub(?:\([^)]*\))? )?)mod (\w+);", re.M)


class CoreBuildError(Exception):
    pass


def build(repo, out):
    """Compile the crate into `out`; returns the path of the shared object."""
    src, out = pathlib.Path(repo) / "rust/src", pathlib.Path(out)
    out.mkdir(parents=True, exist_ok=True)
    so = out / "libhazma_core.so"
    decl = []
    for m in MOD.finditer((src / "lib.rs").read_text()):
        name = m[2]
        if name in GLUE or name == "kernels":
            continue
        path = src / f"{name}.rs"
        if not path.exists():
            path = src / name / "mod.rs"
        decl.append(f'#[path = "{path}"]\npub mod {name};')
    ktext = (src / "kernels.rs").read_text()
    ktext = MOD.sub(lambda m: f'#[path = "{src / "kernels" / (m[2] + ".rs")}"]\npub mod {m[2]};', ktext)
    (out / "kernels_root.rs").write_text(ktext)
    (out / "lib.rs").write_text("#![allow(dead_code, unused, private_interfaces)]\n" + "\n".join(decl)
                                + '\n#[path = "kernels_root.rs"]\npub mod kernels;\n'
                                + f'#[path = "{HERE / "core" / "wrap.rs"}"]\npub mod wrap;\n')
    env = dict(os.environ)
    for f in ("env.sh",):
        pass
    base = ["rustc", "--edition", "2024", "-A", "warnings", "-C", "opt-level=2"]
    for cmd in (base + ["--crate-type", "rlib", "--crate-name", "spec_math", str(HERE / "core" / "spec_math.rs"),
                        "-o", str(out / "libspec_math.rlib")],
                base + ["--crate-type", "cdylib", "--crate-name", "hazma_core",
                        "--extern", f"spec_math={out}/libspec_math.rlib", str(out / "lib.rs"), "-o", str(so)]):
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode:
            raise CoreBuildError(r.stderr[-4000:])
    return so


def _arg(x, quantity):
    """The dispatch contract of rust/src/dispatch.rs: (is_scalar, 1-D float64 array)."""
    if isinstance(x, float):
        return True, np.array([x], dtype=np.float64)
    if not isinstance(x, np.ndarray) and hasattr(x, "__len__"):
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            if x.dtype.kind not in "biuf":
                raise ValueError(f"{quantity} must be a float64 array; got dtype {x.dtype}.")
            return True, np.array([float(x)], dtype=np.float64)
        if x.ndim > 1:
            raise ValueError(f"{quantity} must be 0 or 1-dimensional.")
        if x.dtype != np.float64:
            raise ValueError(f"{quantity} must be a float64 array; got dtype {x.dtype}.")
        return False, x
    try:
        return True, np.array([float(x)], dtype=np.float64)
    except (TypeError, ValueError):
        raise TypeError(f"{quantity} must be a float or a NumPy array.") from None


class Core:
    def __init__(self, so):
        self.lib = ctypes.CDLL(str(so))

    def fn(self, name, nargs, err=False):
        f = getattr(self.lib, name)
        f.restype = ctypes.c_double
        f.argtypes = [ctypes.c_double] * nargs + ([ctypes.POINTER(ctypes.c_int)] if err else [])
        return f

    # -- entry points ------------------------------------------------------------
    def unary(self, quantity, kernel, rest):
        """kernel(e, *rest) over the first argument."""
        def call(x, *args):
            scalar, xs = _arg(x, quantity)
            vals = np.array([kernel(float(e), *rest(*args)) for e in xs], dtype=np.float64)
            return float(vals[0]) if scalar else vals
        return call

    def spectrum(self, quantity, name):
        f = self.fn(name, 2)
        return self.unary(quantity, f, lambda p: (float(p),))

    def table(self, idx):
        f = self.lib.w_photon_table
        f.restype = ctypes.c_double
        f.argtypes = [ctypes.c_int, ctypes.c_double, ctypes.c_double, ctypes.POINTER(ctypes.c_int)]

        def kernel(e, p):
            err = ctypes.c_int(0)
            v = f(idx, e, p, ctypes.byref(err))
            if err.value:
                raise ValueError("boost velocity must satisfy 0 < beta < 1")
            return v
        return self.unary("Photon energies", kernel, lambda p: (float(p),))

    def flavors(self, name):
        f = getattr(self.lib, name)
        f.restype = None
        f.argtypes = [ctypes.c_double, ctypes.c_double, ctypes.POINTER(ctypes.c_double)]
        buf = (ctypes.c_double * 3)()

        def call(x, parent):
            scalar, xs = _arg(x, "Neutrino energies")
            out = np.zeros((3, len(xs)))
            for i, e in enumerate(xs):
                f(float(e), float(parent), buf)
                out[:, i] = buf[:]
            return tuple(float(v) for v in out[:, 0]) if scalar else out
        return call

    def fallible(self, name, nargs):
        f = self.fn(name, nargs, err=True)

        def kernel(*a):
            err = ctypes.c_int(0)
            v = f(*a, ctypes.byref(err))
            if err.value:
                raise TypeError("must be real number, not complex")
            return v
        return kernel

    def sigma(self, name, nargs, pick, err=False):
        """pick maps the Python signature after e_cms to the kernel's arguments."""
        kernel = self.fallible(name, nargs) if err else self.fn(name, nargs)
        return self.unary("Center of mass energies", kernel, lambda *a, **k: tuple(float(v) for v in pick(*a, **k)))


def modules(core):
    ph, po, nu = {}, {}, {}
    for k in ("muon", "charged_pion", "neutral_pion", "charged_rho", "neutral_rho"):
        ph[f"dnde_photon_{k}"] = core.spectrum("Photon energies", f"w_photon_{k}")
    for i, k in enumerate(("charged_kaon", "long_kaon", "short_kaon", "eta", "eta_prime", "omega", "phi")):
        ph[f"dnde_photon_{k}"] = core.table(i)
    for k in ("muon", "charged_pion"):
        po[f"dnde_positron_{k}"] = core.spectrum("Positron energies", f"w_positron_{k}")
        nu[f"dnde_neutrino_{k}"] = core.flavors(f"w_neutrino_{k}")
    S, V = {}, {}

    def sp(mx, ms, gsxx, gsff, gsGG, gsFF, lam, width_s, vs):
        return locals()
    names = {
        "sigma_xx_to_s_to_gg": ("w_s_gg", "mx ms gsxx gsFF lam width_s"),
        "sigma_xx_to_s_to_pi0pi0": ("w_s_pi0pi0", "mx ms gsxx gsff gsGG lam width_s vs"),
        "sigma_xx_to_s_to_pipi": ("w_s_pipi", "mx ms gsxx gsff gsGG lam width_s vs"),
        "sigma_xx_to_ss": ("w_s_ss", "mx ms gsxx"),
        "sigma_ss_to_xx": ("w_s_ss_xx", "mx ms gsxx"),
        "sigma_xpi_to_xpi": ("w_s_xpi", "mx ms gsxx gsff gsGG lam width_s vs"),
        "sigma_xpi0_to_xpi0": ("w_s_xpi0", "mx ms gsxx gsff gsGG lam width_s vs"),
        "sigma_xg_to_xg": ("w_s_xg", "mx ms gsxx gsFF lam width_s"),
        "sigma_xs_to_xs": ("w_s_xs", "mx ms gsxx"),
    }
    for k, (w, a) in names.items():
        keys = a.split()
        S[k] = core.sigma(w, 1 + len(keys), lambda *p, keys=keys, **kw: [sp(*p, **kw)[q] for q in keys])

    def spf(mx, ms, gsxx, gsff, gsGG, gsFF, lam, width_s, vs, mf):
        return (mx, ms, gsxx, gsff, width_s, mf)
    S["sigma_xx_to_s_to_ff"] = core.sigma("w_s_ff", 7, spf, err=True)
    S["sigma_xl_to_xl"] = core.sigma("w_s_xl", 7, spf)
    tcs = core.fallible("w_s_tcs", 10)
    S["thermal_cross_section"] = lambda *a: tcs(*[float(v) for v in a])

    V["sigma_xx_to_v_to_ff"] = core.sigma("w_v_ff", 7, lambda mx, mv, gvxx, gvll, width_v, ml: (mx, mv, gvxx, gvll, width_v, ml))

    def vp(mx, mv, gvxx, gvuu, gvdd, gvss, gvee, gvmumu, width_v):
        return (mx, mv, gvxx, gvuu, gvdd, width_v)
    V["sigma_xx_to_v_to_pipi"] = core.sigma("w_v_pipi", 7, vp, err=True)
    V["sigma_xx_to_v_to_pi0g"] = core.sigma("w_v_pi0g", 7, vp)
    V["sigma_xx_to_v_to_pi0v"] = core.sigma("w_v_pi0v", 7, vp, err=True)
    V["sigma_xx_to_vv"] = core.sigma("w_v_vv", 4, lambda *a, **k: vp(*a, **k)[:3])
    vtcs = core.fallible("w_v_tcs", 9)
    V["thermal_cross_section"] = lambda x, mx, mv, gvxx, gvuu, gvdd, gvss, gvee, gvmumu, width_v: vtcs(
        *[float(v) for v in (x, mx, mv, gvxx, gvuu, gvdd, gvee, gvmumu, width_v)])
    return {"photon": ph, "positron": po, "neutrino": nu, "scalar_mediator": S, "vector_mediator": V}


def install(so):
    """Put a `hazma._core` over the shared object into sys.modules; returns the Core."""
    core = Core(so)
    root = types.ModuleType("hazma._core")
    root.__path__ = []
    sys.modules["hazma._core"] = root
    for name, fns in modules(core).items():
        m = types.ModuleType(f"hazma._core.{name}")
        for k, f in fns.items():
            f.__name__ = k
            setattr(m, k, f)
        setattr(root, name, m)
        sys.modules[m.__name__] = m
    return core
