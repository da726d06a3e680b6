"""descriptions of materials, how to build them, and what they must evaluate to

A description is JSON data:
  {"kind": "fixed_n"|"fixed_nk"|"fixed_eps_r"|"fixed_eps", "re":, "im":}
  {"kind": "tab_n"|"tab_nk"|"tab_eps"|"tab_n_alpha", "type":, "unit":,
   "x": [...], "re": [...], "im": [...], "order": permutation seed}
  {"kind": "model", "name":, "par": [...], "type":, "unit":, "range": [..],
   "down": the range is written from the upper to the lower end}
  {"kind": "mixed", "n": model description, "k": tab description}
"""
import math
import os

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import oracle as ora

N_MODELS = ['Sellmeier', 'Sellmeier2', 'Polynomial', 'RefractiveIndexInfo',
            'Cauchy', 'Gases', 'Herzberger', 'Retro', 'Exotic']
EPS_MODELS = ['Drude', 'DrudeLorentz', 'TaucLorentz']
FORMULA = {name: i + 1 for i, name in enumerate(N_MODELS)}


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

@gens.cached
def optical(low=1e-6, high=50.0):
    """a real optical constant"""
    return st.one_of(st.floats(0.05, 6.0, allow_subnormal=False),
                     gens.signed(low, high))


@gens.cached
def passive():
    """a non-negative imaginary part"""
    return st.one_of(st.just(0.0), gens.log_between(1e-9, 50.0),
                     st.floats(0.0, 8.0, allow_subnormal=False))


@gens.cached
def big_rows():
    """row numbers of big tables, also around integers in the source"""
    near = sorted({n + d for n in gens.literals()[1] for d in (-1, 0, 1)
                   if 60 <= n + d <= 5200})
    sizes = st.sampled_from([350, 501, 1100, 2050])
    return st.one_of(sizes, sizes, st.sampled_from(near + [4100, 5100]))


@gens.cached
@st.composite
def grid(draw, rep=None, min_rows=2, max_rows=10, big=0.0, low=5e-8, high=2e-4):
    """strictly increasing spectral values in some unit"""
    if rep is None:
        rep = draw(gens.rep())
    n_rows = draw(st.integers(min_rows, max_rows))
    if draw(st.integers(0, 9)) == 0:
        low = 2e-3 * low  # X-rays
    start = draw(gens.log_between(low, high))
    wvl = [start]
    if big and draw(gens.unit_float()) < big:
        n_rows = draw(big_rows())
        step = draw(gens.log_between(1e-4, 2e-3))
        for i, t in enumerate(gens.spread(n_rows - 1, draw(st.integers(0, 99)))):
            wvl.append(wvl[-1] * (1.0 + step * (0.2 + t)))
    else:
        for _ in range(n_rows - 1):
            wvl.append(wvl[-1] * (1.0 + draw(gens.log_between(1e-3, 1.0))))
    digits = draw(st.sampled_from([4, 8, 17]))
    values = sorted(float("{:.{}g}".format(
        ora.from_metres(w, rep["type"], rep["unit"]), digits)) for w in wvl)
    out = values[:1]
    for value in values[1:]:
        if value > out[-1] * (1.0 + 1e-5) and not _coarse(value - out[-1],
                                                          rep["unit"]):
            out.append(value)
    while len(out) < min_rows:
        out.append(out[-1] * 1.25)
    return {"type": rep["type"], "unit": rep["unit"], "x": out}


def _coarse(gap, unit):
    return gap <= 100.0 * ora.ROUNDING[ora.canonical(unit)]


@gens.cached
@st.composite
def table(draw, kinds=('tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha'), rep=None,
          min_rows=2, max_rows=10, big=0.0, shuffle=True, values=None,
          imag=None):
    """a tabulated material"""
    desc = draw(grid(rep=rep, min_rows=min_rows, max_rows=max_rows, big=big))
    desc["kind"] = draw(st.sampled_from(kinds))
    n_rows = len(desc["x"])
    if n_rows > 60:
        seed = draw(st.integers(0, 99))
        scale = draw(optical())
        desc["re"] = [scale + t for t in gens.spread(n_rows, seed)]
        desc["im"] = [t * t for t in gens.spread(n_rows, seed + 1)]
    else:
        desc["re"] = [draw(values if values is not None else optical())
                      for _ in range(n_rows)]
        desc["im"] = [draw(imag if imag is not None else passive())
                      for _ in range(n_rows)]
    desc["order"] = draw(st.integers(0, 5)) if shuffle else 0
    return desc


@gens.cached
@st.composite
def int_table(draw, kinds=('tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha')):
    """a table of integers"""
    rep = draw(st.sampled_from([("wavelength", "nm"), ("wavelength", "um"),
                                ("wavelength", "a"), ("wavenumber", "1/cm"),
                                ("energy", "ev")]))
    start = draw(st.integers(1, 3000 if rep[1] in ("nm", "a", "1/cm") else 20))
    xs = [start]
    for _ in range(draw(st.integers(1, 6))):
        xs.append(xs[-1] + draw(st.integers(1, 300 if start > 20 else 5)))
    small = st.integers(0, 9)
    return {"kind": draw(st.sampled_from(kinds)), "type": rep[0],
            "unit": rep[1], "x": xs, "re": [draw(small) for _ in xs],
            "im": [draw(small) for _ in xs], "order": draw(st.integers(0, 5)),
            "int": True}


@gens.cached
def fixed():
    """a material with fixed optical constants"""
    return st.fixed_dictionaries({
        "kind": st.sampled_from(['fixed_n', 'fixed_nk', 'fixed_eps_r',
                                 'fixed_eps']),
        "re": optical(), "im": passive()})


@gens.cached
def coefficient():
    """an integer or float model parameter"""
    return st.one_of(gens.signed(1e-5, 20.0), st.integers(-3, 5))


@gens.cached
@st.composite
def n_model(draw, names=N_MODELS, max_terms=8, integers=False):
    """a refractive index model with parameters of any sign"""
    name = draw(st.sampled_from(names))
    low = draw(gens.log_between(0.05, 5.0))
    high = low * (1.0 + draw(gens.log_between(0.05, 30.0)))
    par = []
    physical = draw(st.booleans())
    if name in ('Sellmeier', 'Sellmeier2'):
        par = [draw(coefficient()) if not physical else
               draw(st.sampled_from([0, 0.0, 0.5, 1.2]))]
        for _ in range(draw(st.integers(0, max_terms))):
            par.append(draw(st.floats(0.01, 3.0)) if physical else
                       draw(coefficient()))
            par.append(draw(_pole(low, high)) if physical else
                       draw(coefficient()))
    elif name in ('Polynomial', 'Cauchy'):
        par = [draw(st.floats(1.0, 9.0)) if physical else draw(coefficient())]
        for _ in range(draw(st.integers(0, max_terms))):
            par.append(draw(st.floats(-0.1, 0.3)) if physical else
                       draw(coefficient()))
            par.append(draw(st.one_of(st.integers(-8, 6),
                                      st.floats(-4.0, 4.0))))
    elif name == 'RefractiveIndexInfo':
        par = [draw(st.floats(1.0, 9.0)) if physical else draw(coefficient())]
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 2]))):
            par.extend([draw(st.floats(0.0, 2.0)) if physical else
                        draw(coefficient()),
                        draw(st.sampled_from([0, 1, 2, 0.5, -2])),
                        draw(st.one_of(_pole(low, high), st.just(0))),
                        draw(st.sampled_from([1, 2, 0.5, 2.0, -1, 0]))])
        if len(par) == 9:
            for _ in range(draw(st.integers(0, max_terms))):
                par.append(draw(st.floats(-0.1, 0.3)) if physical else
                           draw(coefficient()))
                par.append(draw(st.one_of(st.integers(-6, 4),
                                          st.floats(-4.0, 4.0))))
    elif name == 'Gases':
        par = [draw(st.sampled_from([0, 0.0, 1e-4]))]
        for _ in range(draw(st.integers(0, max_terms))):
            par.append(draw(coefficient()))
            par.append(draw(st.one_of(gens.log_between(1.0, 1e4),
                                      coefficient())))
    elif name == 'Herzberger':
        par = [draw(st.floats(1.0, 4.0))] + [draw(coefficient())
                                             for _ in range(5)]
    elif name == 'Retro':
        par = [draw(st.floats(0.0, 0.6)), draw(gens.signed(1e-3, 0.2)),
               draw(_pole(low, high)), draw(gens.signed(1e-4, 1e-2))]
    elif name == 'Exotic':
        par = [draw(st.floats(1.0, 9.0)), draw(gens.signed(1e-3, 1.0)),
               draw(_pole(low, high)), draw(coefficient()),
               draw(st.one_of(st.floats(-1.0, 5.0),
                              st.sampled_from([low, high]))),
               draw(gens.log_between(1e-2, 5.0))]
    if integers:
        par = [int(round(p)) for p in par]
    unit = draw(gens.rep(types=['wavelength'], units=['um']))
    return {"kind": "model", "name": name, "par": par, "type": unit["type"],
            "unit": unit["unit"], "range": [low, high],
            "down": draw(st.integers(0, 5)) == 5}


def _pole(low, high):
    return st.one_of(gens.log_between(1e-3 * low, 0.7 * low),
                     gens.log_between(2.0 * high, 100.0 * high))


@gens.cached
@st.composite
def eps_model(draw, names=EPS_MODELS):
    """a permittivity model with physical parameters"""
    name = draw(st.sampled_from(names))
    if name == 'Drude':
        par = [draw(st.one_of(gens.log_between(0.1, 20.0), st.just(0.0),
                              st.integers(1, 12))),
               draw(st.one_of(gens.log_between(1e-3, 5.0), st.just(0.0)))]
    elif name == 'DrudeLorentz':
        par = [draw(st.one_of(gens.log_between(0.1, 20.0),
                              st.integers(1, 12))),
               draw(st.one_of(st.floats(0.0, 1.0), st.just(1),
                              gens.log_between(1.0, 30.0))),
               draw(st.one_of(gens.log_between(0.05, 20.0),
                              st.integers(0, 9))),
               draw(st.one_of(gens.log_between(1e-2, 5.0),
                              st.integers(1, 2)))]
    else:
        e0 = draw(st.floats(0.5, 10.0))
        par = [draw(gens.log_between(0.1, 300.0)), e0,
               e0 * draw(st.floats(0.05, 1.95)),
               e0 * draw(st.one_of(st.floats(0.05, 1.6), st.just(0.0))),
               draw(st.floats(0.0, 6.0))]
    low = draw(gens.log_between(0.02, 8.0))
    high = low * (1.0 + draw(gens.log_between(0.05, 30.0)))
    if name == 'TaucLorentz' and draw(st.integers(0, 3)) == 0:
        par[3] = draw(st.sampled_from([low, high]))  # the gap is requested
    if name == 'TaucLorentz' and draw(st.integers(0, 3)) == 0:
        ratio = draw(st.sampled_from([low, high])) / par[1]
        par[1:4] = [p * ratio for p in par[1:4]]  # the pole is requested
    if name == 'DrudeLorentz' and draw(st.integers(0, 3)) == 0:
        par[2] = draw(st.sampled_from([low, high]))
    unit = draw(gens.rep(types=['energy']))
    return {"kind": "model", "name": name, "par": par, "type": unit["type"],
            "unit": unit["unit"], "range": [low, high],
            "down": draw(st.integers(0, 5)) == 5}


@gens.cached
@st.composite
def mixed(draw):
    """a model for n with a table for k that overlap"""
    model = draw(n_model(max_terms=3))
    low, high = model["range"]
    unit = draw(gens.rep())
    n_rows = draw(st.integers(2, 8))
    first = low * 1e-6 * (high / low) ** draw(st.floats(-0.5, 0.3))
    last = low * 1e-6 * (high / low) ** draw(st.floats(0.6, 1.5))
    ratio = (last / first) ** (1.0 / (n_rows - 1))
    xs = sorted(ora.from_metres(first * ratio ** i, unit["type"], unit["unit"])
                for i in range(n_rows))
    tab = {"kind": "tab_k", "type": unit["type"], "unit": unit["unit"],
           "x": xs, "re": [draw(passive()) for _ in xs],
           "im": [0.0 for _ in xs], "order": 0}
    return {"kind": "mixed", "n": model, "k": tab}


@gens.cached
def any_material(big=0.0):
    """all kinds"""
    return st.one_of(table(big=big), table(), n_model(max_terms=4),
                     eps_model(names=['Drude', 'DrudeLorentz', 'TaucLorentz']),
                     fixed(), mixed())


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------

def permute(rows, seed):
    """a deterministic reordering: 0 keeps, 1 reverses, others shuffle"""
    rows = list(rows)
    if seed == 1:
        return rows[::-1]
    if seed > 1:
        keys = gens.spread(len(rows), seed)
        return [rows[i] for i in sorted(range(len(rows)),
                                        key=lambda i: keys[i])]
    return rows


def array_of(desc):
    """numpy table of a tabulated description"""
    if desc["kind"] in ('tab_n', 'tab_k', 'tab_eps_r'):
        rows = list(zip(desc["x"], desc["re"]))
    else:
        rows = list(zip(desc["x"], desc["re"], desc["im"]))
    table_ = np.array(permute(rows, desc["order"]), dtype=float)
    if desc.get("int"):
        return table_.astype(int)
    return table_


def ends(desc):
    """the valid range of a model, in the order it is written in"""
    return desc["range"][::-1] if desc.get("down") else desc["range"]


def model_kw(desc, container=np.array):
    """model_kw argument of a model description"""
    return {'name': desc["name"], 'parameters': container(desc["par"]),
            'valid_range': np.array(ends(desc), dtype=float),
            'spectrum_type': desc["type"], 'unit': desc["unit"]}


def build(desc, env=None, interp_order=None):
    """the material of a description, through the public constructors"""
    from dispersion import Material
    kind = desc["kind"]
    if kind == 'fixed_n':
        return Material(fixed_n=float(desc["re"]))
    if kind == 'fixed_nk':
        return Material(fixed_nk=complex(desc["re"], desc["im"]))
    if kind == 'fixed_eps_r':
        return Material(fixed_eps_r=float(desc["re"]))
    if kind == 'fixed_eps':
        return Material(fixed_eps=complex(desc["re"], desc["im"]))
    if kind == 'model':
        return Material(model_kw=model_kw(desc), spectrum_type=desc["type"],
                        unit=desc["unit"])
    if kind == 'mixed':
        path = os.path.join(env.fresh_dir(), "mixed.yml")
        with open(path, "w", encoding="utf8") as fpt:
            fpt.write(mixed_yaml(desc))
        return Material(file_path=path)
    keyword = {'tab_n': 'tabulated_n', 'tab_nk': 'tabulated_nk',
               'tab_eps': 'tabulated_eps', 'tab_n_alpha': 'tabulated_n_alpha'}
    kwargs = {keyword[kind]: array_of(desc), 'spectrum_type': desc["type"],
              'unit': desc["unit"]}
    if interp_order is not None:
        kwargs['interp_order'] = interp_order
    return Material(**kwargs)


def mixed_yaml(desc):
    """YAML text of a mixed description"""
    model, tab = desc["n"], desc["k"]
    lines = ["DATA:", "  - DataType: model " + model["name"],
             "    ValidRange: {!r} {!r}".format(*ends(model)),
             "    SpectrumType: " + model["type"],
             "    Unit: '{}'".format(model["unit"]),
             "    Yields: n",
             "    Parameters: '{}'".format(" ".join(repr(p)
                                                 for p in model["par"])),
             "  - DataType: tabulated k",
             "    SpectrumType: " + tab["type"],
             "    Unit: '{}'".format(tab["unit"]),
             "    Data: |"]
    for x, y in zip(tab["x"], tab["re"]):
        lines.append("        {!r} {!r}".format(x, y))
    return "\n".join(lines) + "\n"


# --------------------------------------------------------------------------
# expectation
# --------------------------------------------------------------------------

def bounds_metres(desc):
    """valid wavelength interval in metres (lower, upper)"""
    kind = desc["kind"]
    if kind.startswith('fixed'):
        return 0.0, math.inf
    if kind in ('mixed', 'two'):
        a, b = bounds_metres(desc["n"])
        c, d = bounds_metres(desc["k"])
        return max(a, c), min(b, d)
    limits = desc["range"] if kind == 'model' else (min(desc["x"]),
                                                    max(desc["x"]))
    low, high = sorted(ora.to_metres(v, desc["type"], desc["unit"])
                       for v in limits)
    return low, high


class Expected():
    """complex value with separate uncertainties of its two parts"""

    def __init__(self, re, im, dre, dim):
        self.re, self.im, self.dre, self.dim = re, im, dre, dim

    @property
    def value(self):
        return complex(self.re, self.im)

    @property
    def tol(self):
        return self.dre + self.dim


def stored(desc, metres):
    """(representation, Expected) at a wavelength: the constants as the
    material stores them, representation 'nk' or 'eps'; None where the model
    has no finite real value"""
    kind = desc["kind"]
    if kind.startswith('fixed'):
        im = desc["im"] if kind in ('fixed_nk', 'fixed_eps') else 0.0
        name = 'eps' if 'eps' in kind else 'nk'
        return name, Expected(float(desc["re"]), float(im),
                              1e-14 * abs(desc["re"]), 1e-14 * abs(im))
    if kind in ('mixed', 'two'):
        name, n_part = stored(desc["n"], metres)
        if n_part is None:
            return name, None
        _, k_part = stored(desc["k"], metres)
        return ('eps' if desc.get("eps") else 'nk'), Expected(
            n_part.re, k_part.re, n_part.dre, k_part.dre)
    x = ora.from_metres(metres, desc["type"], desc["unit"])
    dx = ora.slack(x, desc["unit"])
    if kind == 'model':
        return _stored_model(desc, x, dx)
    re, dre = _column(desc, desc["re"], x, dx)
    if kind in ('tab_n', 'tab_k'):
        return 'nk', Expected(re, 0.0, dre, 0.0)
    im_column = desc["im"]
    if kind == 'tab_n_alpha':
        im_column = [alpha * ora.to_metres(v, desc["type"], desc["unit"]) *
                     100.0 / (4.0 * math.pi)
                     for v, alpha in zip(desc["x"], desc["im"])]
    im, dim = _column(desc, im_column, x, dx)
    if kind == 'tab_n_alpha':
        # wavelengths in cm may carry their own rounding (1e-13 cm)
        dim += 1e-13 * max(abs(a) for a in desc["im"])
    return ('eps' if kind == 'tab_eps' else 'nk'), Expected(re, im, dre, dim)


def _column(desc, column, x, dx):
    low, high = ora.linear_bounds(desc["x"], column, x, dx)
    i = int(np.searchsorted(desc["x"], x))
    scale = max(abs(v) for v in column[max(i - 2, 0):i + 2])
    return 0.5 * (low + high), 0.5 * (high - low) + 1e-11 * scale


def _stored_model(desc, x, dx):
    name, par = desc["name"], desc["par"]
    if name in FORMULA:
        mid, scale = ora.model_n(name, par, x)
        low, _ = ora.model_n(name, par, x - dx)
        high, _ = ora.model_n(name, par, x + dx)
        if mid is None or low is None or high is None:
            return 'nk', None
        spread = max(abs(low - mid), abs(high - mid))
        tol = 2.0 * spread + 1e-11 * (scale + abs(mid))
        if not math.isfinite(tol):
            return 'nk', None
        return 'nk', Expected(mid, 0.0, tol, 0.0)
    values = [_eps_model(name, par, v) for v in (x - dx, x, x + dx)]
    mid = values[1]
    near = (values[0] - mid, values[2] - mid)
    tol = 2.0 * max(abs(d.real) for d in near) + 1e-11 * (1.0 + abs(mid))
    if name == 'TaucLorentz':
        tol += 2e-7 * (1.0 + abs(mid))
    # the loss may be many orders smaller than the real part
    dim = 2.0 * max(abs(d.imag) for d in near) + 1e-11 * abs(mid.imag) + \
        1e-14 * (1.0 + abs(mid))
    exp = Expected(mid.real, mid.imag, tol, dim)
    exp.energies = (x - dx, x, x + dx)
    return 'eps', exp


def _eps_model(name, par, energy):
    if name == 'Drude':
        return ora.drude(par, energy)
    if name == 'DrudeLorentz':
        return ora.drude_lorentz(par, energy)
    return complex(ora.tauc_lorentz_real(par, energy),
                   ora.tauc_lorentz_imag(par, energy))


def expected_eps(desc, metres):
    """(value, tolerance) of the permittivity or None"""
    name, exp = stored(desc, metres)
    if exp is None:
        return None
    if name == 'eps':
        return exp.value, exp.tol
    return exp.value ** 2, 2.0 * abs(exp.value) * exp.tol + exp.tol ** 2 + \
        1e-13 * abs(exp.value) ** 2


def expected_nk(desc, metres):
    """(value, tolerance) of the refractive index or None (also None where
    the root of an uncertain permittivity may change branch)"""
    name, exp = stored(desc, metres)
    if exp is None:
        return None
    if name == 'nk':
        return exp.value, exp.tol
    return root_of(exp)


def root_of(exp):
    """principal root of an uncertain permittivity"""
    value = exp.value
    if abs(value) <= 4.0 * exp.tol:
        return 0.0, math.sqrt(abs(value) + exp.tol) * 2.0
    if value.real < 0.0 and 0.0 < abs(value.imag) <= 4.0 * exp.dim:
        return None
    root = complex(np.sqrt(complex(value)))
    if value.imag == 0.0 and exp.dim > 0.0 and value.real < 0.0:
        return None
    return root, exp.tol / abs(root) + 1e-13 * abs(root)
