"""C06: refractive index and permittivity"""
import cmath
import math

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import reqs
from vh.core import Facet, ensure

RULE = ("a case counts if the optical constants are not all 0 or 1; distinct "
        "by its full JSON description")
ASSUMPTIONS = ["finite optical constants of magnitude 1e-6 to 1e6 or zero"]


def check_pair(index, eps, defined_by, what):
    """one point: index and permittivity belong together"""
    ensure(np.isfinite(index) and np.isfinite(eps), "{}: {!r} {!r}", what,
           index, eps)
    ensure(abs(index * index - eps) <= 4e-13 * abs(eps) + 1e-300,
           "{}: permittivity {!r} is not the square of the index {!r}", what,
           eps, index)
    if defined_by == 'eps':
        ensure(index.real >= 0.0, "{}: index {!r} of permittivity {!r}", what,
               index, eps)
        if eps.imag >= 0.0:
            ensure(index.imag >= 0.0, "{}: index {!r} of permittivity {!r}",
                   what, index, eps)
        if eps.imag < 0.0 and abs(eps.imag) > 1e-12 * abs(eps):
            ensure(index.imag < 0.0, "{}: index {!r} of permittivity {!r}",
                   what, index, eps)


# --------------------------------------------------------------------------
# all materials
# --------------------------------------------------------------------------

def any_sign():
    """a finite optical constant"""
    return st.one_of(st.floats(-6.0, 6.0, allow_subnormal=False).map(
        lambda v: v if abs(v) >= 1e-6 else 0.0),
                     gens.signed(1e-6, 1e6), st.just(0.0))


@st.composite
def square_case(draw):
    desc = draw(st.one_of(
        mats.any_material(big=0.05),
        mats.table(values=any_sign(), imag=any_sign()),
        mats.table(kinds=('tab_eps',), values=any_sign()),
        mats.table(kinds=('tab_eps',), values=any_sign(),
                   imag=st.just(0.0))))
    few = desc.get("name") == 'TaucLorentz'
    return {"desc": desc, "req": draw(reqs.request(
        desc, long=0.0 if few else 0.08, max_points=3 if few else 6))}


def check_square(case, env):
    """square and principal root"""
    desc, req = case["desc"], case["req"]
    values = reqs.values_of(desc, req)
    metres = reqs.metres_of(values, req)
    mat = mats.build(desc, env)
    spec = reqs.as_spectrum(values, req)
    index = reqs.result_list(mat.get_nk_data(spec), req, len(values), "nk")
    eps = reqs.result_list(mat.get_permittivity(spec), req, len(values),
                           "permittivity")
    env.label(desc["kind"])
    for i, metre in enumerate(metres):
        name, exp = mats.stored(desc, metre)
        if exp is None:
            continue
        env.label("judged")
        what = "{} at {!r}".format(desc["kind"], values[i])
        check_pair(index[i], eps[i], name, what)
        actual = index[i] if name == 'nk' else eps[i]
        ensure(reqs.near(actual, exp.value, exp.tol), "{}: {!r}, expected "
               "{!r}", what, actual, exp.value)
        if desc["kind"] in ('tab_n', 'fixed_n', 'fixed_eps_r') or (
                desc["kind"] == 'model' and name == 'nk'):
            ensure(actual.imag == 0.0, "{}: undefined imaginary part is {!r}",
                   what, actual)
        if exp.re < 0.0:
            env.label("negative real part")


# --------------------------------------------------------------------------
# fixed values
# --------------------------------------------------------------------------

@st.composite
def fixed_case(draw):
    return {"kind": draw(st.sampled_from(['fixed_n', 'fixed_nk',
                                          'fixed_eps_r', 'fixed_eps'])),
            "re": draw(any_sign()), "im": draw(any_sign()),
            "numpy": draw(st.booleans()),
            "req": draw(reqs.request(None, long=0.2)),
            "default": draw(st.one_of(st.none(), gens.rep()))}


def check_fixed(case, env):
    """the same values everywhere, and the same material either way"""
    from dispersion import Material
    kind, req = case["kind"], case["req"]
    re, im = case["re"], case["im"]
    if kind in ('fixed_n', 'fixed_eps_r'):
        value = np.float64(re) if case["numpy"] else re
        im = 0.0
    else:
        value = np.complex128(complex(re, im)) if case["numpy"] else \
            complex(re, im)
    kwargs = {kind: value}
    if case["default"] is not None:
        kwargs['spectrum_type'] = case["default"]["type"]
        kwargs['unit'] = case["default"]["unit"]
    mat = Material(**kwargs)
    values = reqs.values_of({"kind": kind}, req)
    spec = reqs.as_spectrum(values, req)
    index = reqs.result_list(mat.get_nk_data(spec), req, len(values))
    eps = reqs.result_list(mat.get_permittivity(spec), req, len(values))
    by_eps = 'eps' in kind
    if complex(re, im) not in (0.0, 1.0):
        env.label("generic")
    for i in range(len(values)):
        stored = eps[i] if by_eps else index[i]
        ensure(stored.real == re and stored.imag == im,
               "{} {!r} is {!r} at {!r}", kind, value, stored, values[i])
        check_pair(index[i], eps[i], 'eps' if by_eps else 'nk',
                   "{} {!r}".format(kind, value))
    # the other definition
    if by_eps:
        root = cmath.sqrt(complex(re, im if im != 0.0 else 0.0))
        other = Material(fixed_nk=complex(root))
    else:
        square = complex(re, im) ** 2
        if im == 0.0:
            square = complex(re * re, 0.0)
        if re == 0.0:
            square = complex(-im * im, 0.0)
        other = Material(fixed_eps=square)
        if re < 0.0 or (re == 0.0 and im < 0.0):
            return  # not the principal root
    env.label("both ways")
    again = reqs.result_list(other.get_nk_data(spec), req, len(values))
    squared = reqs.result_list(other.get_permittivity(spec), req, len(values))
    for i in range(len(values)):
        ensure(reqs.near(again[i], index[i], 1e-9 * abs(index[i]) + 1e-12 * (
            0 if abs(index[i]) else 1)) and
            reqs.near(squared[i], eps[i], 1e-12 * abs(eps[i]) + 1e-300),
               "{} {!r}: the other definition gives {!r} {!r} instead of "
               "{!r} {!r}", kind, value, again[i], squared[i], index[i],
               eps[i])


# --------------------------------------------------------------------------
# tables, both ways
# --------------------------------------------------------------------------

@st.composite
def table_case(draw):
    desc = draw(mats.table(kinds=('tab_nk',), values=gens.log_between(
        1e-3, 50.0), max_rows=6))
    return {"desc": desc}


def check_tables(case, env):
    """a table of nk and the table of its squares agree on their rows"""
    from dispersion import Material, Spectrum
    desc = case["desc"]
    squares = [complex(a, b) ** 2 for a, b in zip(desc["re"], desc["im"])]
    table = np.array([[x, z.real, z.imag]
                      for x, z in zip(desc["x"], squares)])
    other = Material(tabulated_eps=table, spectrum_type=desc["type"],
                     unit=desc["unit"])
    mat = mats.build(desc)
    spec = Spectrum(desc["x"], spectrum_type=desc["type"], unit=desc["unit"])
    for first, second, scale in (
            (mat.get_nk_data(spec), other.get_nk_data(spec), 1),
            (mat.get_permittivity(spec), other.get_permittivity(spec), 2)):
        for i, (a, b) in enumerate(zip(first, second)):
            size = max(abs(complex(r, m)) for r, m in
                       zip(desc["re"], desc["im"])) ** scale
            ensure(abs(a - b) <= 1e-6 * size, "row {}: {!r} and {!r}", i, a,
                   b)


FACETS = [
    Facet("square", square_case, check_square,
          lambda case, labels: "judged" in labels, 1200, 24000, shards=5),
    Facet("fixed", fixed_case, check_fixed,
          lambda case, labels: "generic" in labels, 700, 12000, shards=2),
    Facet("tables", table_case, check_tables, lambda case, labels: True, 300,
          4000),
]
