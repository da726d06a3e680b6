"""C03: tabulated data"""
import math
import os

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail

RULE = ("a case counts if it evaluates a table of at least two different "
        "values at one or more points (interpolation order and row order as "
        "labelled), or a one-row table inside and outside its point; distinct "
        "by its full JSON description")
ASSUMPTIONS = ["spectral values of a table are positive and differ by more "
               "than 1e-5 relative and 100 times the conversion rounding",
               "for orders above 1, grids whose steps differ by at most a "
               "factor 12 (conditioning of the spline)"]


@st.composite
def linear_case(draw):
    desc = draw(st.one_of(mats.table(max_rows=8), mats.table(big=0.25),
                          mats.int_table()))
    return {"desc": desc, "req": draw(reqs.request(desc, long=0.15,
                                                   max_points=8)),
            "order": draw(st.sampled_from([None, None, 1]))}


def check_linear(case, env):
    """straight lines between rows, in the unit of the table"""
    import dispersion
    desc, req = case["desc"], case["req"]
    values = reqs.values_of(desc, req)
    metres = reqs.metres_of(values, req)
    spec = reqs.as_spectrum(values, req)
    env.label(desc["kind"])
    env.label("order {}".format(desc["order"]))
    if len(desc["x"]) > 300:
        env.label("rows>300")
    if desc.get("int"):
        env.label("integers")
    if len(set(desc["re"])) > 1 or len(set(desc["im"])) > 1:
        env.label("varies")
    mat = mats.build(desc, interp_order=case["order"])
    own = reqs.same(desc, req["rep"])
    if own:
        env.label("own unit")
    stored, exps = [], []
    for value, metre in zip(values, metres):
        if own:
            # the table's own unit: no conversion, no uncertainty
            name, exp = exact(desc, value)
        else:
            name, exp = mats.stored(desc, metre)
        stored.append((exp.value, exp.tol))
        exps.append(exp)
    getter = {"nk": mat.get_nk_data, "eps": mat.get_permittivity}[name]
    got = reqs.result_list(getter(spec), req, len(values))
    reqs.check_values(got, stored, values, desc["kind"])
    if desc["kind"] == 'tab_n':
        ensure(all(v.imag == 0.0 for v in got), "imaginary part {}", got[:5])
        data = dispersion.Interpolation(mats.array_of(desc),
                                        spectrum_type=desc["type"],
                                        unit=desc["unit"])
        direct = reqs.result_list(data.evaluate(spec), req, len(values))
        reqs.check_values(direct, stored, values, "Interpolation")
    # the parts one at a time: the real part must not feel the imaginary one
    for i, (value, exp) in enumerate(zip(values, exps)):
        ensure(abs(got[i].real - exp.re) <= exp.dre + 1e-300,
               "real part at {!r}: {!r}, expected {!r}", value, got[i].real,
               exp.re)
        ensure(abs(got[i].imag - exp.im) <= exp.dim + 1e-300,
               "imaginary part at {!r}: {!r}, expected {!r}", value,
               got[i].imag, exp.im)


def exact(desc, value):
    """expectation in the table's own unit"""
    re, dre = mats._column(desc, desc["re"], value, 0.0)
    if desc["kind"] == 'tab_n':
        return 'nk', mats.Expected(re, 0.0, dre, 0.0)
    column = desc["im"]
    if desc["kind"] == 'tab_n_alpha':
        column = k_column(desc)
    im, dim = mats._column(desc, column, value, 0.0)
    if desc["kind"] == 'tab_n_alpha':
        dim += 1e-13 * max(abs(a) for a in desc["im"])
    return ('eps' if desc["kind"] == 'tab_eps' else 'nk',
            mats.Expected(re, im, dre, dim))


def k_column(desc):
    """extinction of an absorption table"""
    return [alpha * ora.to_metres(v, desc["type"], desc["unit"]) * 100.0 /
            (4.0 * math.pi) for v, alpha in zip(desc["x"], desc["im"])]


# --------------------------------------------------------------------------
# one row
# --------------------------------------------------------------------------

@st.composite
def row_case(draw):
    rep = draw(gens.rep())
    value = ora.from_metres(draw(gens.log_between(1e-7, 1e-4)), rep["type"],
                            rep["unit"])
    if draw(st.booleans()):
        value = float("{:.3g}".format(value))
    return {"desc": {"kind": draw(st.sampled_from(
        ['tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha'])),
                     "type": rep["type"], "unit": rep["unit"], "x": [value],
                     "re": [draw(mats.optical())],
                     "im": [draw(mats.passive())], "order": 0},
            "n": draw(st.integers(0, 4)), "by": draw(gens.log_between(1e-9,
                                                                      1.0)),
            "up": draw(st.booleans())}


def check_row(case, env):
    """a single row is a constant valid at that point only"""
    from dispersion import Spectrum
    desc = case["desc"]
    mat = mats.build(desc)
    value = desc["x"][0]
    request = value if case["n"] == 0 else [value] * case["n"]
    spec = Spectrum(request, spectrum_type=desc["type"], unit=desc["unit"])
    getter = mat.get_permittivity if desc["kind"] == 'tab_eps' else \
        mat.get_nk_data
    got = getter(spec)
    ensure(np.shape(got) == (() if case["n"] == 0 else (case["n"],)),
           "shape {}", np.shape(got))
    im = desc["im"][0]
    if desc["kind"] == 'tab_n':
        im = 0.0
    elif desc["kind"] == 'tab_n_alpha':
        im = k_column(desc)[0]
    for item in np.atleast_1d(got):
        ensure(reqs.near(item.real, desc["re"][0], 1e-13 * abs(
            desc["re"][0])), "real part {!r} of {!r}", item, desc["re"][0])
        ensure(reqs.near(item.imag, im, 1e-12 * abs(im) + 1e-13 * abs(
            desc["im"][0])), "imaginary part {!r}, expected {!r}", item, im)
    other = value * (1.0 + case["by"]) if case["up"] else \
        value / (1.0 + case["by"])
    if other == value:
        return
    try:
        got = getter(Spectrum([value, other], spectrum_type=desc["type"],
                              unit=desc["unit"]))
    except ValueError:
        return
    fail("one row at {!r} evaluated at {!r} to {!r}", value, other, got)


# --------------------------------------------------------------------------
# higher order
# --------------------------------------------------------------------------

@st.composite
def spline_case(draw):
    order = draw(st.sampled_from([2, 3, 1, 2, 3, 4, 5]))
    rep = draw(gens.rep())
    n_rows = draw(st.integers(order + 1, 14))
    start = draw(gens.log_between(1e-7, 1e-5))
    first = ora.from_metres(start, rep["type"], rep["unit"])
    xs = [first]
    step = first * draw(st.floats(0.02, 0.3))
    for _ in range(n_rows - 1):
        xs.append(xs[-1] + step * draw(st.floats(0.25, 3.0)))
    degree = draw(st.integers(0, order))
    poly = [draw(st.floats(0.1, 5.0))] + [draw(gens.signed(1e-2, 5.0))
                                          for _ in range(degree)]
    poly_im = [draw(st.floats(0.0, 5.0))] + [draw(gens.signed(1e-2, 5.0))
                                             for _ in range(degree)]
    free = draw(st.integers(0, 3)) == 3
    desc = {"kind": draw(st.sampled_from(['tab_n', 'tab_nk', 'tab_eps',
                                          'tab_n_alpha'])),
            "type": rep["type"], "unit": rep["unit"], "x": xs,
            "order": draw(st.integers(0, 5))}
    if free:
        desc["re"] = [draw(mats.optical()) for _ in xs]
        desc["im"] = [draw(mats.passive()) for _ in xs]
    else:
        desc["re"] = [horner(poly, xs, x) for x in xs]
        desc["im"] = [horner(poly_im, xs, x) for x in xs]
        if desc["kind"] == 'tab_n_alpha':
            desc["im"] = [k * 4.0 * math.pi /
                          (100.0 * ora.to_metres(x, rep["type"], rep["unit"]))
                          for x, k in zip(xs, desc["im"])]
    return {"desc": desc, "k": order, "file": draw(st.sampled_from(
        [None, None, ".txt", ".csv", ".nk", ".yml"])), "poly": None if free else
            [poly, poly_im], "req": draw(reqs.request(
                desc, rep=draw(st.one_of(st.just(dict(rep)), gens.rep())),
                max_points=8, long=0.1))}


def horner(poly, xs, x):
    """polynomial in the position within the table, from -1 to 1"""
    u = 2.0 * (x - xs[0]) / (xs[-1] - xs[0]) - 1.0
    value = 0.0
    for c in reversed(poly):
        value = value * u + c
    return value


def spline_material(desc, order, extension, env):
    """a table given directly or in a file, to be interpolated in an order"""
    from dispersion import Material
    if extension is None:
        return mats.build(desc, interp_order=order)
    env.label("file")
    kind = "tabulated " + desc["kind"][len("tab_"):]
    rows = [[repr(float(v)) for v in row] for row in mats.array_of(desc)]
    if extension == ".yml":
        text = "DATA:\n  - type: {}\n    SpectrumType: {}\n    Unit: {}\n" \
            "    data: |\n".format(kind, desc["type"], desc["unit"])
        text += "".join("        " + " ".join(row) + "\n" for row in rows)
    else:
        mark = ";" if extension == ".nk" else "#"
        text = "".join(mark + line + "\n" for line in (
            "SpectrumType: " + desc["type"], "Unit: " + desc["unit"],
            "DataType: " + kind))
        sep = "," if extension == ".csv" else " "
        text += "".join(sep.join(row) + "\n" for row in rows)
    path = os.path.join(env.fresh_dir(), "table" + extension)
    with open(path, "w", encoding="utf8") as fpt:
        fpt.write(text)
    return Material(file_path=path, interp_order=order)


def check_spline(case, env):
    """nodes and polynomials are reproduced"""
    import dispersion
    desc, order = case["desc"], case["k"]
    mat = spline_material(desc, order, case.get("file"), env)
    env.label("order {}".format(order))
    env.label("free" if case["poly"] is None else
              "degree {}".format(len(case["poly"][0]) - 1))
    getter = mat.get_permittivity if desc["kind"] == 'tab_eps' else \
        mat.get_nk_data
    imag = k_column(desc) if desc["kind"] == 'tab_n_alpha' else desc["im"]
    if desc["kind"] == 'tab_n':
        imag = [0.0] * len(desc["x"])
    node = {"rep": {"type": desc["type"], "unit": desc["unit"]},
            "container": "array",
            "points": [{"node": i} for i in range(len(desc["x"]))]}
    values = reqs.values_of(desc, node)
    got = reqs.result_list(getter(reqs.as_spectrum(values, node)), node,
                           len(values))
    scale = 1.0 + max(abs(v) for v in desc["re"])
    scale_im = 1.0 + max(abs(v) for v in imag)
    # wavelengths of an absorption table may be rounded to 1e-13 cm
    coarse = 1e-13 * max(abs(v) for v in desc["im"]) \
        if desc["kind"] == 'tab_n_alpha' else 0.0
    for i, item in enumerate(got):
        ensure(abs(item.real - desc["re"][i]) <= 1e-8 * scale and
               abs(item.imag - imag[i]) <= 1e-8 * scale_im + coarse,
               "row {} ({!r}) gave {!r}, expected {!r} {!r}", i, values[i],
               item, desc["re"][i], imag[i])
    if desc["kind"] == 'tab_n':
        data = dispersion.Interpolation(mats.array_of(desc),
                                        spectrum_type=desc["type"],
                                        unit=desc["unit"], interp_order=order)
        direct = reqs.result_list(data.evaluate(reqs.as_spectrum(values,
                                                                 node)),
                                  node, len(values))
        for i, item in enumerate(direct):
            ensure(abs(item - desc["re"][i]) <= 1e-8 * scale,
                   "Interpolation row {}: {!r}", i, item)
    req = case["req"]
    values = reqs.values_of(desc, req)
    got = reqs.result_list(getter(reqs.as_spectrum(values, req)), req,
                           len(values))
    if case["poly"] is None:
        ensure(all(np.isfinite(v) for v in got), "not finite: {}", got)
        return
    env.label("polynomial")
    for value, item in zip(values, got):
        x = ora.convert(value, req["rep"]["type"], req["rep"]["unit"],
                        desc["type"], desc["unit"])
        x = min(max(x, desc["x"][0]), desc["x"][-1])
        # slope times the rounding of the spectral value
        width = desc["x"][-1] - desc["x"][0]
        blur = 0.0 if reqs.same(desc, req["rep"]) else \
            60.0 * ora.slack(x, desc["unit"]) / width
        want = horner(case["poly"][0], desc["x"], x)
        ensure(abs(item.real - want) <= (1e-7 + blur) * scale,
               "order {} at {!r}: real part {!r}, expected {!r}", order, value,
               item.real, want)
        want = horner(case["poly"][1], desc["x"], x) \
            if desc["kind"] != 'tab_n' else 0.0
        ensure(abs(item.imag - want) <= (1e-7 + blur) * scale_im +
               20.0 * coarse,
               "order {} at {!r}: imaginary part {!r}, expected {!r}", order,
               value, item.imag, want)


FACETS = [
    Facet("linear", linear_case, check_linear,
          lambda case, labels: "varies" in labels, 1200, 24000, shards=5),
    Facet("row", row_case, check_row, lambda case, labels: True, 400, 6000),
    Facet("spline", spline_case, check_spline,
          lambda case, labels: not labels & {"degree 0"}, 700, 16000,
          shards=3),
]
