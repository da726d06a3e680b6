"""C01: spectral conversions"""
import math

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import oracle as ora
from vh.core import Facet, ensure, fail

RULE = ("a case counts if it converts between different quantities or units "
        "(or does it in place, or edits an array afterwards) with at least "
        "one finite non-zero value; distinct by its full JSON description")
ASSUMPTIONS = ["values are non-negative and not NaN, wavelengths between "
               "1e-13 m and 1e4 m, or 0 or inf",
               "integers as values of inverse quantities stay below 2**53"]

LOW, HIGH = 1e-13, 1e4
ARRAYS = ['array', 'list', 'tuple', 'int_array', 'int32_array', 'int_list',
          'mixed_list', 'strided', 'readonly']


@st.composite
def spectral_values(draw, rep, low=LOW, high=HIGH):
    """compact description of values in the unit of rep"""
    container = draw(st.sampled_from(['float', 'npfloat', 'array'] + ARRAYS))
    n = 1 if container in ('float', 'npfloat') else draw(gens.lengths(1, 10100))
    desc = {"container": container, "n": n}
    if n > 40:
        desc["seed"] = draw(st.integers(0, 999))
        desc["low"] = draw(gens.log_between(low, high / 10.0))
        desc["high"] = min(high, desc["low"] * draw(
            st.sampled_from([1.5, 10.0, 1e6])))
        desc["special"] = [[draw(st.integers(0, n - 1)),
                            draw(st.sampled_from(["zero", "inf"]))]
                           for _ in range(draw(st.integers(0, 3)))]
        return desc
    values = []
    for _ in range(n):
        kind = draw(st.integers(0, 11))
        if kind == 0:
            values.append("zero")
        elif kind == 1:
            values.append("inf")
        elif kind == 2 and values:
            values.append(draw(st.sampled_from(values)))
        else:
            metres = draw(gens.log_between(low, high))
            values.append(ora.from_metres(metres, rep["type"], rep["unit"]))
            if kind == 3:
                values[-1] = draw(gens.log_between(1e-6, 1e4))
            elif kind == 4:
                values[-1] = float(draw(st.integers(1, 3000)))
    desc["values"] = values
    return desc


def expand(desc, rep):
    """the floats of a description"""
    special = {"zero": 0.0, "inf": math.inf}
    if "values" in desc:
        values = [special[v] if isinstance(v, str) else float(v)
                  for v in desc["values"]]
    else:
        a, b = math.log(desc["low"]), math.log(desc["high"])
        values = [ora.from_metres(math.exp(a + (b - a) * t), rep["type"],
                                  rep["unit"])
                  for t in gens.spread(desc["n"], desc["seed"])]
        for index, name in desc["special"]:
            values[index] = special[name]
    if desc["container"].startswith("int"):
        top = 2.0 ** 31 - 1 if "32" in desc["container"] else 2.0 ** 53
        values = [float(round(min(v, top))) for v in values]
    return values


def container_of(values, kind):
    """put the values in a container"""
    if kind in gens.CONTAINERS:
        return gens.pack(values, kind)
    if kind == 'int_array':
        return np.array([int(v) for v in values])
    if kind == 'int32_array':
        return np.array([int(v) for v in values], dtype=np.int32)
    if kind == 'int_list':
        return [int(v) for v in values]
    if kind == 'mixed_list':
        return [int(v) if v == 1.0 or (v < 1e9 and v == int(v)) else v
                for v in values]
    if kind == 'strided':
        both = np.zeros(2 * len(values))
        both[::2] = values
        return both[::2]
    if kind == 'readonly':
        array = np.array(values, dtype=float)
        array.setflags(write=False)
        return array
    raise KeyError(kind)


def is_scalar(kind):
    """scalar container"""
    return kind in ('float', 'npfloat')


def as_list(result, scalar, n, what):
    """floats of a result, after checking its form"""
    if scalar:
        ensure(np.ndim(result) == 0, "{}: scalar became {!r}", what, result)
        return [float(result)]
    result = np.asarray(result)
    ensure(result.shape == (n,), "{}: {} values became shape {}", what, n,
           result.shape)
    return [float(v) for v in result]


def compare(actual, values, frm, to, what, extra=0.0):
    """converted values against the physical relations"""
    for i, (got, value) in enumerate(zip(actual, values)):
        want = ora.convert(value, frm["type"], frm["unit"],
                           to["type"], to["unit"])
        tol = ora.slack(want, to["unit"]) + extra * abs(want) \
            if math.isfinite(want) else 0.0
        if not ora.close(got, want, tol):
            fail("{}: element {} = {!r} {} {} became {!r} {} {}, expected "
                 "{!r}", what, i, value, frm["type"], frm["unit"], got,
                 to["type"], to["unit"], want)


@st.composite
def convert_case(draw):
    frm = draw(gens.rep())
    return {"from": frm, "to": draw(gens.other_rep(frm)),
            "data": draw(spectral_values(frm))}


def check_convert(case, env):
    """plain conversion, own unit, round trip"""
    from dispersion import Spectrum
    frm, to = case["from"], case["to"]
    kind = case["data"]["container"]
    values = expand(case["data"], frm)
    n, scalar = len(values), is_scalar(kind)
    spec = Spectrum(container_of(values, kind), spectrum_type=frm["type"],
                    unit=frm["unit"])
    label(env, case, values)
    ensure(spec.spectrum_type == frm["type"].lower(), "spectrum type became "
           "{!r}", spec.spectrum_type)
    ensure(ora.canonical(spec.unit) == ora.canonical(frm["unit"]),
           "unit became {!r}", spec.unit)
    ensure(as_list(spec.values, scalar, n, "values") == values,
           "the values were not kept")
    result = as_list(spec.convert_to(to["type"], to["unit"]), scalar, n,
                     "convert_to")
    if same_rep(frm, to):
        ensure(result == values, "conversion to the own unit changed {} to {}",
               values, result)
    else:
        compare(result, values, frm, to, "convert_to")
    own = as_list(spec.convert_to(frm["type"].upper(), frm["unit"].upper()),
                  scalar, n, "own unit")
    ensure(own == values, "conversion to the own unit changed {} to {}",
           values[:5], own[:5])
    ensure(as_list(spec.values, scalar, n, "values") == values and
           spec.spectrum_type == frm["type"].lower(),
           "a plain conversion changed the spectrum")
    metres = as_list(spec.convert_to('wavelength', 'm'), scalar, n, "metres")
    compare(metres, values, frm, {"type": "wavelength", "unit": "m"},
            "to metres")
    # there and back
    back = Spectrum(gens.pack(result, 'float' if scalar else 'array'),
                    spectrum_type=to["type"], unit=to["unit"])
    again = as_list(back.convert_to(frm["type"], frm["unit"]), scalar, n,
                    "back")
    for value, there, got in zip(values, result, again):
        rounding = ora.ROUNDING[ora.canonical(to["unit"])]
        if math.isfinite(there) and there <= 1e4 * rounding:
            continue
        if not math.isfinite(there) and math.isfinite(value) and value != 0:
            fail("{!r} became infinite", value)
        relative = rounding / there if there and math.isfinite(there) else 0.0
        tol = ora.slack(value, frm["unit"]) + 2.0 * relative * abs(value) \
            if math.isfinite(value) else 0.0
        if not ora.close(got, value, tol):
            fail("{!r} {} -> {!r} {} -> {!r}", value, frm["unit"], there,
                 to["unit"], got)


def same_rep(a, b):
    """same quantity and unit"""
    return (a["type"].lower() == b["type"].lower() and
            ora.canonical(a["unit"]) == ora.canonical(b["unit"]))


def label(env, case, values):
    """classification"""
    finite = [v for v in values if v and math.isfinite(v)]
    if finite and not same_rep(case["from"], case["to"]):
        env.label("converts")
    if 0.0 in values:
        env.label("zero")
    if math.inf in values:
        env.label("inf")
    env.label("n>1000" if len(values) > 1000 else
              "n>40" if len(values) > 40 else "small")
    env.label("container " + case["data"]["container"])
    env.label("from " + ora.canonical(case["from"]["unit"]))
    env.label("to " + ora.canonical(case["to"]["unit"]))


@st.composite
def history_case(draw):
    frm = draw(gens.rep())
    data = draw(spectral_values(frm, low=1e-8, high=1e-1))
    steps = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["in_place", "in_place", "plain", "edit_result",
                               "edit_input", "contains"]),
        "to": gens.rep()}), min_size=1, max_size=8))
    return {"from": frm, "data": data, "steps": steps}


def check_history(case, env):
    """in-place conversions, plain ones, and edits of arrays"""
    from dispersion import Spectrum
    frm = case["from"]
    kind = case["data"]["container"]
    values = expand(case["data"], frm)
    n, scalar = len(values), is_scalar(kind)
    given = container_of(values, kind)
    spec = Spectrum(given, spectrum_type=frm["type"], unit=frm["unit"])
    other = Spectrum(given, spectrum_type=frm["type"], unit=frm["unit"])
    current = frm
    relative = 0.0
    expected = values
    if len(case["steps"]) > 1:
        env.label("history")
    for number, step in enumerate(case["steps"]):
        to = step["to"]
        name = "step {} {}".format(number, step["op"])
        before = as_list(spec.values, scalar, n, name)
        ensure(before == expected, "{}: values changed from {} to {}", name,
               expected[:5], before[:5])
        if step["op"] == "in_place":
            env.label("in place")
            out = spec.convert_to(to["type"], to["unit"], in_place=True)
            ensure(out is None, "in place conversion returned {!r}", out)
            ensure(spec.spectrum_type == to["type"].lower() and
                   ora.canonical(spec.unit) == ora.canonical(to["unit"]) and
                   spec.unit == spec.unit.lower(),
                   "{}: type and unit are {!r} {!r} instead of {!r} {!r}",
                   name, spec.spectrum_type, spec.unit, to["type"],
                   to["unit"])
            new = as_list(spec.values, scalar, n, name)
            if same_rep(current, to):
                ensure(new == before, "{}: same unit changed values", name)
            current = to
            expected = new
            relative += 1e-12
            smallest = min([v for v in new if v and math.isfinite(v)] or [1.0])
            relative += ora.ROUNDING[ora.canonical(to["unit"])] / smallest
        else:
            result = spec.convert_to(to["type"], to["unit"])
            got = as_list(result, scalar, n, name)
            compare(got, values, frm, to, name, extra=relative)
            if step["op"] == "edit_result" and isinstance(result, np.ndarray):
                env.label("edited result")
                try:
                    result[...] = 7.25
                except ValueError:
                    pass
            if step["op"] == "contains":
                other.contains(other)
            if (step["op"] == "edit_input" and
                    isinstance(given, (list, np.ndarray)) and
                    kind != "readonly"):
                env.label("edited input")
                for i in range(n):
                    given[i] = 3
        ensure(spec.spectrum_type == current["type"].lower() and
               ora.canonical(spec.unit) == ora.canonical(current["unit"]),
               "{}: type or unit changed", name)
        after = as_list(spec.values, scalar, n, name)
        if step["op"] == "in_place":
            compare(after, values, frm, current, name, extra=relative)
        ensure(after == expected, "{}: values changed from {} to {}", name,
               expected[:5], after[:5])
        metres = as_list(spec.convert_to('wavelength', 'm'), scalar, n, name)
        compare(metres, values, frm, {"type": "wavelength", "unit": "m"},
                name, extra=relative)
        ensure(as_list(other.values, scalar, n, name) == values,
               "{}: another spectrum changed", name)


def alias_cases():
    """one name against all names; few distinct names, so all get drawn"""
    return st.fixed_dictionaries({
        "from": st.integers(0, len(gens.ALL_NAMES) - 1),
        "style": st.sampled_from(["lower", "upper", "title"]),
        "metres": gens.log_between(1e-9, 1e-2)})


def check_alias(case, env):
    """all accepted names convert alike"""
    from dispersion import Spectrum
    styles = {"lower": str.lower, "upper": str.upper, "title": str.title}
    t1, u1 = gens.ALL_NAMES[case["from"]]
    style = styles[case["style"]]
    env.label(case["style"] + " " + u1)
    value = ora.from_metres(case["metres"], t1, u1)
    spec = Spectrum(value, spectrum_type=style(t1), unit=style(u1))
    for t2, u2 in gens.ALL_NAMES:
        for name, other in styles.items():
            got = float(spec.convert_to(other(t2), other(u2)))
            compare([got], [value], {"type": t1, "unit": u1},
                    {"type": t2, "unit": u2}, "alias " + name)
            if (t1, ora.canonical(u1)) == (t2, ora.canonical(u2)):
                ensure(got == value, "own unit {} changed {!r} to {!r}",
                       other(u2), value, got)
            # names compared directly
            told = Spectrum.check_unit(style(u1), other(u2))
            ensure(bool(told) == (ora.canonical(u1) == ora.canonical(u2)),
                   "units {} and {} are the same: {!r}", style(u1), other(u2),
                   told)
            told = Spectrum.check_type(style(t1), t2.lower())
            ensure(bool(told) == (t1 == t2), "types {} and {} are the same: "
                   "{!r}", style(t1), t2, told)


FACETS = [
    Facet("convert", convert_case, check_convert,
          lambda case, labels: "converts" in labels, 1800, 40000, shards=4),
    Facet("history", history_case, check_history,
          lambda case, labels: bool(labels & {"in place", "edited result",
                                              "edited input"}),
          700, 16000, shards=2),
    Facet("alias", alias_cases, check_alias,
          lambda case, labels: True, 500, 6000, shards=2),
]
