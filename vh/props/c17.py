"""C17: ranges, sample spectra and plots"""
import math
import re
import unicodedata

import numpy as np
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail

RULE = ("a case counts if the range of a bounded material is judged against "
        "points inside and outside, or a plot of at least one value is "
        "compared with the material; distinct by its full JSON description")
ASSUMPTIONS = ["the ranges of the real and the imaginary part overlap",
               "bounds of data in another unit than the default one are "
               "subject to the rounding of the conversion (1e-9 eV, 1e-6 nm)",
               "matplotlib with the Agg backend"]

DISPLAY = {'m': ['m'], 'cm': ['cm'], 'um': ['\u03bcm', 'um'], 'nm': ['nm'],
           'hz': ['Hz'], 'ev': ['eV'], '1/s': ['1/s'], '1/cm': ['1/cm'],
           'a': ['\u00c5']}


@st.composite
def material(draw):
    kind = draw(st.integers(0, 9))
    if kind == 0:
        desc = draw(mats.table(kinds=('tab_n',), shuffle=False))
        desc["kind"] = "tab_k"
        return desc
    if kind in (1, 2):
        return dict(draw(files.two_tables()), eps=draw(st.booleans()))
    if kind == 3:
        return draw(mats.mixed())
    return draw(mats.any_material(big=0.03))


def tolerance(metres):
    """what rounding in any unit may do to a wavelength"""
    return 3.0 * (1e-9 * metres * metres / ora.HC_EV + 1e-15 + 1e-12 * metres)


def own_bounds(desc, mat):
    """(lower, upper, exact): expected bounds in the default unit"""
    rep = {"type": mat.defaults['spectrum_type'], "unit": mat.defaults['unit']}
    ends = []
    tols = []
    ranges = reqs.parts(desc)
    for part in ranges:
        if reqs.same(part, rep):
            ends.append((part["lo"], part["hi"]))
            tols.append((1e-14 * part["lo"], 1e-14 * part["hi"]))
            continue
        pair = sorted(ora.convert(part[key], part["type"], part["unit"],
                                  rep["type"], rep["unit"])
                      for key in ("lo", "hi"))
        ends.append(tuple(pair))
        tols.append(tuple(2.0 * ora.slack(v, rep["unit"]) for v in pair))
    lower = max(e[0] for e in ends)
    upper = min(e[1] for e in ends)
    tol = (max(t[0] for t in tols), max(t[1] for t in tols))
    return lower, upper, tol


def overlap(desc):
    """the parts share more than rounding"""
    low, high = mats.bounds_metres(desc)
    return high - low > 1e3 * tolerance(high)


# --------------------------------------------------------------------------
# range and sample spectrum
# --------------------------------------------------------------------------

@st.composite
def range_case(draw):
    desc = draw(material())
    return {"desc": desc, "rep": draw(gens.rep()),
            "inside": draw(st.lists(gens.unit_float(), min_size=1,
                                    max_size=4)),
            "outside": [draw(gens.log_between(1e-4, 3.0)) for _ in range(2)],
            "remove": draw(st.integers(0, 5)) == 0}


def check_range(case, env):
    """bounds, points inside and outside, sample spectrum"""
    from dispersion import Spectrum
    desc = case["desc"]
    if not desc["kind"].startswith("fixed") and not overlap(desc):
        env.label("no overlap")
        return
    mat = files.build(desc, env)
    if case["remove"]:
        mat.remove_absorption()
        if desc["kind"] in ("two", "mixed"):
            desc = desc["n"]  # only the real part is left
        elif desc["kind"] == "tab_k":
            desc = {"kind": "fixed_n", "re": 1.0, "im": 0.0}
    env.label(desc.get("name", desc["kind"]))
    got = mat.get_maximum_valid_range()
    ensure(np.shape(got) == (2,), "valid range {!r}", got)
    if desc["kind"].startswith("fixed"):
        env.label("unbounded")
        ensure(got[0] == 0.0 and got[1] == math.inf, "valid range {} of fixed "
               "data", got)
        check_free_sample(mat)
        return
    lower, upper, tol = own_bounds(desc, mat)
    ensure(abs(got[0] - lower) <= tol[0] and abs(got[1] - upper) <= tol[1],
           "valid range {!r} {} instead of {!r} to {!r}", list(got),
           mat.defaults['unit'], lower, upper)
    check_points(case, desc, mat, Spectrum, env)
    check_sample(mat, lower, upper, tol)
    for part in ("real", "imag", "complex"):
        data = mat.data[part]
        if data is not None and np.all(np.isfinite(data.valid_range.values)):
            suggested = data.suggest_spectrum()
            values = suggested.values
            ends = sorted(data.valid_range.values)
            ensure(abs(np.min(values) - ends[0]) <= 1e-12 * ends[0] and
                   abs(np.max(values) - ends[-1]) <= 1e-12 * ends[-1],
                   "suggested {!r} to {!r} for {}", np.min(values),
                   np.max(values), ends)
            if desc.get("name") != 'TaucLorentz':
                data.evaluate(suggested)


def check_points(case, desc, mat, Spectrum, env):
    """inside evaluates, outside does not"""
    rep = case["rep"]
    inside = reqs.values_of(desc, {"rep": rep, "container": "list",
                                   "points": case["inside"]})
    spec = Spectrum(inside, spectrum_type=rep["type"], unit=rep["unit"])
    mat.get_nk_data(spec)
    mat.get_permittivity(spec)
    low, high = mats.bounds_metres(desc)
    for metres in (low - 20.0 * tolerance(low) - low * case["outside"][0],
                   high + 20.0 * tolerance(high) + high * case["outside"][1]):
        if metres <= 0.0:
            continue
        value = ora.from_metres(metres, rep["type"], rep["unit"])
        if reqs.verdict(reqs.parts(desc), value, rep) != 'out':
            continue
        env.label("outside")
        for call in (mat.get_nk_data, mat.get_permittivity):
            try:
                call(Spectrum(float(value), spectrum_type=rep["type"],
                              unit=rep["unit"]))
            except ValueError:
                continue
            fail("{!r} {} is outside the range but was evaluated", value,
                 rep["unit"])


def check_free_sample(mat):
    """unbounded: 100 to 2000 nm"""
    spec = mat.get_sample_spectrum()
    values = [ora.to_metres(v, spec.spectrum_type, spec.unit)
              for v in np.atleast_1d(spec.values)]
    ensure(abs(min(values) - 100e-9) < 1e-15 and
           abs(max(values) - 2000e-9) < 1e-14 and len(values) > 1,
           "sample spectrum {} to {} m of fixed data", min(values),
           max(values))
    ensure(np.shape(mat.get_nk_data(spec)) == (len(values),),
           "fixed data at the sample spectrum")


def check_sample(mat, lower, upper, tol):
    """covers exactly the range, can be evaluated"""
    spec = mat.get_sample_spectrum()
    ensure(spec.spectrum_type == mat.defaults['spectrum_type'].lower() and
           spec.unit == ora.canonical(mat.defaults['unit']),
           "sample spectrum in {} {}", spec.spectrum_type, spec.unit)
    values = np.asarray(spec.values)
    ensure(values.ndim == 1 and values.size >= 2 and
           np.all(np.isfinite(values)), "sample spectrum {!r}", values)
    # ends may move inwards by rounding
    width = upper - lower
    slack = [max(10.0 * tol[i], 1e-12 * v) for i, v in enumerate((lower,
                                                                  upper))]
    if len([p for p in mat.data.values() if hasattr(p, 'valid_range')]) > 1:
        slack = [s + min(0.05 * width, 1e-6 * upper) for s in slack]
    ensure(abs(values.min() - lower) <= slack[0] and
           abs(values.max() - upper) <= slack[1],
           "sample spectrum {!r} to {!r} for the range {!r} to {!r}",
           values.min(), values.max(), lower, upper)
    gaps = np.diff(np.sort(values))
    ensure(np.max(gaps) <= 0.2 * width + 1e-12 * upper,
           "sample spectrum leaves out {} of {}", np.max(gaps), width)
    ensure(np.shape(mat.get_nk_data(spec)) == values.shape,
           "data at the sample spectrum")


# --------------------------------------------------------------------------
# plots
# --------------------------------------------------------------------------

@st.composite
def plot_case(draw):
    desc = draw(material())
    given = draw(st.integers(0, 3)) > 0
    case = {"desc": desc, "what": draw(st.sampled_from(["nk",
                                                        "permittivity"])),
            "rep": draw(st.one_of(st.none(), gens.rep(), gens.rep())),
            "unit_only": draw(st.sampled_from([None, None, 'nm', 'um', 'm'])),
            "axes": draw(st.sampled_from([None, None, "first", "second",
                                          "used"])),
            "values": None}
    if given:
        rep = case["rep"] or {"type": desc.get("type", "wavelength"),
                              "unit": desc.get("unit", "m")}
        case["values"] = draw(reqs.request(desc, rep=rep, max_points=5,
                                           long=0.03))
    return case


def expected_at(desc, mat, what, metres):
    """(value, tolerance) or None"""
    if desc["kind"] == "tab_k":
        return None
    call = mats.expected_nk if what == "nk" else mats.expected_eps
    return call(desc, metres)


def check_plot(case, env):
    """lines and labels"""
    import matplotlib.pyplot as plt
    desc = case["desc"]
    if not desc["kind"].startswith("fixed") and not overlap(desc):
        env.label("no overlap")
        return
    mat = files.build(desc, env)
    before = np.array(mat.get_maximum_valid_range())
    plt.close("all")
    try:
        judge_plot(case, desc, mat, plt, env)
    finally:
        plt.close("all")
    ensure(np.array_equal(before, mat.get_maximum_valid_range()),
           "the plot changed the range")


def judge_plot(case, desc, mat, plt, env):
    """draw and read back"""
    kwargs = {}
    rep = {"type": mat.defaults['spectrum_type'], "unit": mat.defaults['unit']}
    if case["values"] is not None:
        rep = case["values"]["rep"]
        values = reqs.values_of(desc, case["values"])
        kwargs["values"] = gens.pack(values, case["values"]["container"])
        kept = list(np.atleast_1d(kwargs["values"]))
        kwargs["spectrum_type"], kwargs["unit"] = rep["type"], rep["unit"]
        if reqs.same(rep, {"type": mat.defaults['spectrum_type'],
                           "unit": mat.defaults['unit']}):
            env.label("default unit")
            del kwargs["spectrum_type"], kwargs["unit"]
    elif case["rep"] is not None:
        rep = case["rep"]
        kwargs["spectrum_type"], kwargs["unit"] = rep["type"], rep["unit"]
    elif case["unit_only"] and rep["type"].lower() == 'wavelength':
        rep = {"type": "wavelength", "unit": case["unit_only"]}
        kwargs["unit"] = case["unit_only"]
    axes = None
    drawn = 0
    if case["axes"] is not None:
        _, pair = plt.subplots(1, 2)
        axes = pair[1 if case["axes"] == "second" else 0]
        if case["axes"] == "used":
            axes.plot([1.0, 2.0], [3.0, 4.0])
            drawn = 1
            env.label("used axes")
        kwargs["axes"] = axes
    method = mat.plot_nk_data if case["what"] == "nk" else \
        mat.plot_permittivity
    method(**kwargs)
    if axes is None:
        ensure(len(plt.get_fignums()) == 1 and len(plt.gcf().axes) == 1,
               "{} figures", len(plt.get_fignums()))
        axes = plt.gcf().axes[0]
    else:
        for other in plt.gcf().axes:
            ensure(other is axes or not other.lines,
                   "plotted on other axes than the given ones")
    lines = axes.lines[drawn:]
    ensure(len(lines) == 2, "{} lines were added", len(lines))
    labels = ['n', 'k'] if case["what"] == "nk" else ['eps_r', 'eps_i']
    ensure(sorted(line.get_label() for line in lines) == sorted(labels),
           "lines are labelled {}", [line.get_label() for line in lines])
    legend = [text.get_text() for text in axes.get_legend().get_texts()]
    ensure(legend == labels, "legend {}", legend)
    ensure(re.findall(r"\w+", axes.get_ylabel()) == labels,
           "vertical axis labelled {!r}", axes.get_ylabel())
    label = unicodedata.normalize("NFKC", axes.get_xlabel())
    ensure(rep["type"].lower() in label.lower() and
           any("({})".format(u) in label
               for u in DISPLAY[ora.canonical(rep["unit"])]),
           "axis label {!r} for {} in {}", label, rep["type"], rep["unit"])
    real = [line for line in lines if line.get_label() == labels[0]][0]
    imag = [line for line in lines if line.get_label() == labels[1]][0]
    if case["values"] is not None:
        env.label("given values")
        ensure(list(np.atleast_1d(kwargs["values"])) == kept,
               "the plotted values were modified")
        judge_given(case, desc, mat, values, rep, real, imag, env)
    else:
        env.label("sample spectrum")
        judge_default(case, desc, mat, rep, real, imag, env)
    env.label(desc.get("name", desc["kind"]))
    env.label("plot " + case["what"])


def direct(mat, what, values, rep):
    """evaluation without plotting"""
    from dispersion import Spectrum
    spec = Spectrum(np.array(values, dtype=float), spectrum_type=rep["type"],
                    unit=rep["unit"])
    call = mat.get_nk_data if what == "nk" else mat.get_permittivity
    return np.asarray(call(spec))


def judge_given(case, desc, mat, values, rep, real, imag, env):
    """lines through the given values"""
    reference = direct(mat, case["what"], values, rep)
    y_real = np.array(real.get_ydata(), dtype=float).ravel()
    y_imag = np.array(imag.get_ydata(), dtype=float).ravel()
    if len(values) == 1:
        env.label("single value")
        y_real, y_imag = y_real[:1], y_imag[:1]
    else:
        for line in (real, imag):
            x = np.asarray(line.get_xdata(), dtype=float).ravel()
            ensure(x.shape == (len(values),) and
                   np.allclose(x, values, rtol=1e-13, atol=0.0),
                   "plotted at {!r} instead of {!r}", x[:5], values[:5])
    ensure(y_real.shape == reference.shape and
           same(y_real, reference.real) and same(y_imag, reference.imag),
           "plotted {!r} {!r} instead of {!r}", y_real[:4], y_imag[:4],
           reference[:4])
    metres = [ora.to_metres(v, rep["type"], rep["unit"]) for v in values]
    against_model(case, desc, mat, metres, y_real, y_imag, env,
                  range(min(len(values), 6)))


def same(a, b):
    """equal up to rounding, not finite together"""
    finite = np.isfinite(b)
    return bool(np.array_equal(np.isfinite(a), finite) and
                np.all(np.abs(a[finite] - b[finite]) <=
                       1e-12 * np.abs(b[finite]) + 1e-300))


def judge_default(case, desc, mat, rep, real, imag, env):
    """lines over the whole range"""
    x = np.asarray(real.get_xdata(), dtype=float).ravel()
    ensure(np.array_equal(x, np.asarray(imag.get_xdata()).ravel()),
           "the two lines have different spectral values")
    y_real = np.asarray(real.get_ydata(), dtype=float).ravel()
    y_imag = np.asarray(imag.get_ydata(), dtype=float).ravel()
    ensure(x.size >= 2 and x.shape == y_real.shape == y_imag.shape,
           "{} and {} points", x.shape, y_real.shape)
    metres = [ora.to_metres(v, rep["type"], rep["unit"]) for v in x]
    low, high = (1e-7, 2e-6) if desc["kind"].startswith("fixed") else \
        mats.bounds_metres(desc)
    slack = 20.0 * tolerance(high)
    if desc["kind"] in ("two", "mixed"):
        slack += 1e-6 * high + 0.05 * (high - low)
    ensure(abs(min(metres) - low) <= slack and
           abs(max(metres) - high) <= slack,
           "plotted from {} to {} m, range {} to {} m", min(metres),
           max(metres), low, high)
    few = desc.get("name") == 'TaucLorentz'
    pick = [int(t * len(x)) for t in gens.spread(2 if few else 12, len(x))]
    against_model(case, desc, mat, metres, y_real, y_imag, env, pick + [1])


def against_model(case, desc, mat, metres, y_real, y_imag, env, pick):
    """compare with the oracle of the description"""
    low, high = mats.bounds_metres(desc)
    for i in pick:
        metre = min(max(metres[i], low), high)
        want = expected_at(desc, mat, case["what"], metre)
        if want is None:
            continue
        # the axis may carry a rounding of its own: two nearby points bound it
        tol = want[1]
        for near in (metre - tolerance(metre), metre + tolerance(metre)):
            other = expected_at(desc, mat, case["what"],
                                min(max(near, low), high))
            if other is None:
                tol = None
                break
            tol = max(tol, abs(other[0] - want[0]) * 1.5 + other[1])
        if tol is None:
            continue
        env.label("judged")
        got = complex(y_real[i], y_imag[i])
        ensure(np.isfinite(got) and abs(got - want[0]) <= 2.0 * tol,
               "plotted {!r} at {!r} m, expected {!r} +- {:.3g}", got,
               metres[i], want[0], 2.0 * tol)


# --------------------------------------------------------------------------
# ranges without a lower or an upper end
# --------------------------------------------------------------------------

@st.composite
def open_case(draw):
    kind = draw(st.sampled_from(["below", "above", "both"]))
    drude = draw(st.booleans())
    low = 0.0 if kind != "above" else \
        draw(gens.log_between(1e-3, 0.6 if drude else 0.0999))
    high = None if kind != "below" else \
        draw(gens.log_between(12.4 if drude else 2.01, 1e3))
    return {"kind": kind, "model": "Drude" if drude else "Cauchy",
            "range": [low, high], "what": draw(st.sampled_from(
                ["nk", "permittivity"])),
            "rep": draw(st.one_of(st.none(), gens.rep())),
            "par": [draw(st.floats(1.0, 4.0)), draw(st.floats(1e-3, 0.1))]}


def check_open(case, env):
    """unbounded: 100 to 2000 nm are sampled and plotted"""
    import matplotlib.pyplot as plt
    from dispersion import Material
    low = case["range"][0]
    high = math.inf if case["range"][1] is None else case["range"][1]
    drude = case["model"] == "Drude"
    mat = Material(model_kw={
        "name": case["model"], "valid_range": [low, high],
        "spectrum_type": "energy" if drude else "wavelength",
        "unit": "ev" if drude else "um",
        "parameters": case["par"] + ([] if drude else [-2.0])})
    env.label(case["kind"])
    got = mat.get_maximum_valid_range()
    # a missing imaginary part is valid everywhere
    ensure(abs(got[0] - low) <= 1e-9 * low + 1e-9 and
           (got[1] == high or abs(got[1] - high) <= 1e-9 * high),
           "valid range {!r} instead of {!r} to {!r}", list(got), low, high)
    check_free_sample(mat)
    kwargs = {}
    rep = {"type": mat.defaults['spectrum_type'], "unit": mat.defaults['unit']}
    if case["rep"] is not None:
        rep = case["rep"]
        kwargs = {"spectrum_type": rep["type"], "unit": rep["unit"]}
    plt.close("all")
    try:
        (mat.plot_nk_data if case["what"] == "nk" else
         mat.plot_permittivity)(**kwargs)
        real, imag = plt.gcf().axes[0].lines
        x = np.asarray(real.get_xdata(), dtype=float)
        value = np.asarray(real.get_ydata()) + 1j * np.asarray(
            imag.get_ydata())
    finally:
        plt.close("all")
    metres = np.array([ora.to_metres(v, rep["type"], rep["unit"]) for v in x])
    ensure(abs(min(metres) - 1e-7) <= 20 * tolerance(1e-7) and
           abs(max(metres) - 2e-6) <= 20 * tolerance(2e-6),
           "plotted from {} to {} m", min(metres), max(metres))
    a, b = case["par"]
    if drude:
        ev = ora.HC_EV / metres
        want = 1.0 - a * a / (ev * ev + 1j * b * ev)
        want = np.sqrt(want) if case["what"] == "nk" else want
    else:
        want = a + b * (metres * 1e6) ** -2.0 + 0j
        want = want if case["what"] == "nk" else want * want
    ensure(np.all(np.abs(value - want) <= 1e-4 * (1.0 + np.abs(want))),
           "plotted {!r} instead of {!r}", value[:3], want[:3])


FACETS = [
    Facet("open", open_case, check_open, lambda case, labels: True, 100, 2000),
    Facet("range", range_case, check_range,
          lambda case, labels: "outside" in labels or "unbounded" in labels,
          700, 30000, shards=4),
    Facet("plot", plot_case, check_plot,
          lambda case, labels: "judged" in labels, 240, 8000, shards=4),
]
