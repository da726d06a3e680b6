"""C02: valid ranges"""
import math

import numpy as np
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail

RULE = ("a case counts if the oracle decides it (no value within conversion "
        "rounding of a bound, unless both use the same unit); distinct by its "
        "full JSON description")
ASSUMPTIONS = ["values are not negative",
               "a request within 2x conversion rounding of a bound given in "
               "another unit is not judged"]

SPECIAL = {"zero": 0.0, "inf": math.inf}


def number(value):
    """JSON value to float"""
    return SPECIAL[value] if isinstance(value, str) else float(value)


# --------------------------------------------------------------------------
# Spectrum.contains
# --------------------------------------------------------------------------

@st.composite
def contains_case(draw):
    rep = draw(gens.rep())
    scalar = draw(st.integers(0, 5)) == 0
    n = 1 if scalar else draw(st.integers(1, 5))
    metres = [draw(gens.log_between(1e-9, 1e-2)) for _ in range(n)]
    values = [ora.from_metres(m, rep["type"], rep["unit"]) for m in metres]
    if draw(st.booleans()):
        values = [float("{:.4g}".format(v)) for v in values]
    if not scalar and draw(st.integers(0, 6)) == 0:
        values[draw(st.integers(0, n - 1))] = draw(
            st.sampled_from(["zero", "inf"]))
    if draw(st.integers(0, 2)):
        other = {"type": rep["type"], "unit": rep["unit"]}
        if draw(st.booleans()):
            other = {"type": draw(gens.cased(rep["type"].lower())),
                     "unit": draw(st.sampled_from(
                         ora.ALIASES[ora.canonical(rep["unit"])]))}
    else:
        other = draw(gens.other_rep(rep))
    request_scalar = draw(st.integers(0, 3)) == 0
    m = 1 if request_scalar else draw(gens.lengths(1, 10100))
    case = {"range": {"rep": rep, "values": values, "container":
                      draw(st.sampled_from(['float', 'npfloat'] if scalar else
                                           ['array', 'list', 'tuple']))},
            "request": {"rep": other, "n": m, "seed": draw(st.integers(0, 99)),
                        "container": draw(st.sampled_from(
                            ['float', 'npfloat'] if request_scalar else
                            ['array', 'list', 'tuple']))},
            "special": draw(st.lists(st.fixed_dictionaries({
                "at": st.integers(0, m - 1),
                "what": st.sampled_from(["lo", "hi", "below", "above", "below",
                                         "above", "zero", "inf", "ulp_below",
                                         "ulp_above", "nan"]),
                "by": gens.log_between(1e-7, 10.0)}), max_size=2))}
    return case


def request_values(case):
    """values of the request in its own unit"""
    rep = case["range"]["rep"]
    other = case["request"]["rep"]
    values = [number(v) for v in case["range"]["values"]]
    low, high = min(values), max(values)
    a = low if low > 0.0 else 1e-6 * min(high, 1e6)
    b = high if math.isfinite(high) else max(a, 1e-6) * 1e6
    out = []
    for t in gens.spread(case["request"]["n"], case["request"]["seed"]):
        if a == 0.0 or math.isinf(a) or a >= b:
            v = low  # a single point, which zero and infinity may be
        else:
            v = min(max(a * (b / a) ** t, a), b)
        out.append(to_other(v, rep, other))
    for item in case["special"]:
        by = item["by"]
        v = {"lo": low, "hi": high, "nan": math.nan, "zero": 0.0, "inf": math.inf,
             "below": low / (1.0 + by), "above": high * (1.0 + by),
             "ulp_below": min(math.nextafter(low, 0.0), 1e100),
             "ulp_above": max(math.nextafter(high, math.inf), 1e-100)
             }[item["what"]]  # (finite in every unit)
        out[item["at"]] = v if v != v else to_other(v, rep, other)
    return out


def to_other(value, rep, other):
    """the value in another unit, untouched in the same"""
    if reqs.same(rep, other):
        return value
    return ora.convert(value, rep["type"], rep["unit"], other["type"],
                       other["unit"])


def judge(ranges, values, rep):
    """'in', 'out' or 'edge' of a whole request; NaN lies in no range"""
    if any(v != v for v in values):
        return 'out'
    verdicts = {reqs.verdict(ranges, v, rep) for v in values}
    for name in ('out', 'edge'):
        if name in verdicts:
            return name
    return 'in'


def check_contains(case, env):
    """contains against the closed interval"""
    from dispersion import Spectrum
    rep = case["range"]["rep"]
    other = case["request"]["rep"]
    values = [number(v) for v in case["range"]["values"]]
    wanted = request_values(case)
    spec = Spectrum(gens.pack(values, case["range"]["container"]),
                    spectrum_type=rep["type"], unit=rep["unit"])
    request = Spectrum(gens.pack(wanted, case["request"]["container"]),
                       spectrum_type=other["type"], unit=other["unit"])
    own = {"type": rep["type"], "unit": rep["unit"], "lo": min(values),
           "hi": max(values)}
    verdict = judge([own], wanted, other)
    env.label(verdict)
    env.label("same unit" if reqs.same(rep, other) else "other unit")
    if verdict == 'edge':
        return
    expect(verdict, lambda: spec.contains(request),
           "range {} {} request {} {}".format(values, rep["unit"],
                                              wanted[:6], other["unit"]))
    if verdict == 'in':
        ensure(bool(spec.contains(request)) is True, "contains returned {!r}",
               spec.contains(request))


def expect(verdict, call, what):
    """result of the call, or None if it has to and does raise ValueError"""
    try:
        result = call()
    except ValueError as exc:
        if verdict == 'in':
            fail("{}: refused although inside: {}", what, exc)
        return None
    if verdict == 'out':
        fail("{}: returned {!r} although outside", what, result)
    return result


# --------------------------------------------------------------------------
# data and materials
# --------------------------------------------------------------------------

@st.composite
def data_case(draw):
    kind = draw(st.sampled_from(["table", "table", "row", "n_model",
                                 "eps_model", "mixed", "constant", "extra",
                                 "fixed", "parts", "parts"]))
    if kind == "parts":
        desc = draw(files.separate())
    elif kind == "table":
        desc = draw(mats.table(max_rows=5))
    elif kind == "extra":
        desc = draw(mats.table(kinds=('tab_n', 'tab_nk', 'tab_eps'),
                               max_rows=5))
        desc["extra"] = {
            "rep": draw(st.one_of(st.just({"type": desc["type"],
                                           "unit": desc["unit"]}),
                                  gens.rep())),
            "sides": draw(st.sampled_from([["lo"], ["hi"], ["lo", "hi"],
                                           ["hi", "lo"]])),
            "by": [draw(gens.log_between(1e-2, 1.0)) for _ in range(2)],
            "scalar": draw(st.booleans())}
    elif kind == "row":
        rep = draw(gens.rep())
        value = ora.from_metres(draw(gens.log_between(1e-7, 1e-4)),
                                rep["type"], rep["unit"])
        desc = {"kind": draw(st.sampled_from(['tab_n', 'tab_nk', 'tab_eps'])),
                "type": rep["type"], "unit": rep["unit"], "x": [value],
                "re": [draw(mats.optical())], "im": [draw(mats.passive())],
                "order": 0}
    elif kind == "n_model":
        desc = draw(mats.n_model(max_terms=2))
    elif kind == "eps_model":
        desc = draw(mats.eps_model())
    elif kind == "mixed":
        desc = draw(mats.mixed())
    elif kind == "fixed":
        desc = draw(mats.fixed())
    else:
        desc = draw(mats.grid(min_rows=2, max_rows=2))
        desc["kind"] = "constant"
        desc["value"] = draw(mats.optical())
    if kind == "fixed":
        rep = draw(gens.rep())
    else:
        first = desc["n"] if kind == "mixed" else desc
        if kind == "parts":
            first = desc[draw(st.sampled_from(["n", "k"]))]
        rep = {"type": first["type"], "unit": first["unit"]}
        if draw(st.integers(0, 1)):
            rep = draw(gens.other_rep(rep))
    scalar = draw(st.integers(0, 3)) == 0
    n = 1 if scalar else draw(gens.lengths(1, 10100))
    return {"desc": desc, "rep": rep, "n": n, "seed": draw(st.integers(0, 99)),
            "container": draw(st.sampled_from(['float', 'npfloat'] if scalar
                                              else ['array', 'list',
                                                    'tuple'])),
            "special": draw(st.lists(st.fixed_dictionaries({
                "at": st.integers(0, n - 1),
                "what": st.sampled_from(["lo", "hi", "below", "above", "below",
                                         "above", "ulp_below", "ulp_above",
                                         "nan"]),
                "by": gens.log_between(1e-6, 10.0)}), max_size=2))}


def extended(desc):
    """bounds after the extrapolation of the case, in the table's unit"""
    low, high = min(desc["x"]), max(desc["x"])
    for side, by in zip(desc["extra"]["sides"], desc["extra"]["by"]):
        if side == "lo":
            low = low / (1.0 + by)
        else:
            high = high * (1.0 + by)
    return low, high


def check_data(case, env):
    """evaluation inside, refusal outside"""
    from dispersion import Spectrum
    import dispersion
    desc, rep = case["desc"], case["rep"]
    kind = desc["kind"]
    evaluators = []
    if kind == "constant":
        own = {"type": desc["type"], "unit": desc["unit"],
               "lo": min(desc["x"]), "hi": max(desc["x"])}
        order = tuple(desc["x"]) if case["seed"] % 2 else \
            np.array(desc["x"][::-1])
        data = dispersion.Constant(desc["value"], valid_range=order,
                                   spectrum_type=desc["type"],
                                   unit=desc["unit"])
        evaluators.append(("Constant.evaluate", data.evaluate))
        ranges = [own]
    else:
        mat = files.build(desc, env)
        ranges = reqs.parts(desc)
        if "extra" in desc:
            low, high = extended(desc)
            ends = [low if side == "lo" else high
                    for side in desc["extra"]["sides"]]
            there = desc["extra"]["rep"]
            limits = [to_other(v, desc, there) for v in ends]
            if len(limits) == 1 and desc["extra"]["scalar"]:
                limits = limits[0]
            mat.extrapolate(Spectrum(limits, spectrum_type=there["type"],
                                     unit=there["unit"]), spline_order=1)
            ranges = [dict(ranges[0], lo=low, hi=high)]
        evaluators.append(("get_nk_data", mat.get_nk_data))
        evaluators.append(("get_permittivity", mat.get_permittivity))
        if kind == "model":
            model = getattr(dispersion.spectral_data, desc["name"])(
                desc["par"], tuple(mats.ends(desc)), spectrum_type=desc["type"],
                unit=desc["unit"])
            evaluators.append(("Model.evaluate", model.evaluate))
        elif kind == "tab_n" and len(desc["x"]) > 1 and "extra" not in desc:
            data = dispersion.Interpolation(mats.array_of(desc),
                                            spectrum_type=desc["type"],
                                            unit=desc["unit"])
            evaluators.append(("Interpolation.evaluate", data.evaluate))
    values = data_request(case, ranges)
    verdict = judge(ranges, values, rep)
    if "extra" in desc and verdict != 'edge':
        # the new limit itself went through a conversion
        for value in values:
            if reqs.same(rep, desc) and value == value:
                own = ranges[0]
                for bound in (own["lo"], own["hi"]):
                    if abs(value - bound) <= 4.0 * ora.slack(bound,
                                                             desc["unit"]):
                        verdict = 'edge'
    env.label(verdict)
    env.label(verdict + " " + ("extra" if "extra" in desc else kind))
    if len(ranges) == 1 and reqs.same(ranges[0], rep):
        env.label("same unit")
    if len(values) > 1000:
        env.label("long")
    if verdict == 'edge':
        return
    spec = Spectrum(gens.pack(values, case["container"]),
                    spectrum_type=rep["type"], unit=rep["unit"])
    scalar = case["container"] in ('float', 'npfloat')
    for name, call in evaluators:
        what = "{} of {} on {} {}".format(name, kind, values[:6], rep["unit"])
        result = expect(verdict, lambda call=call: call(spec), what)
        if verdict == 'in':
            shape = () if scalar else (len(values),)
            ensure(np.shape(result) == shape, "{}: shape {}", what,
                   np.shape(result))
            if kind not in ("model", "mixed"):
                ensure(np.all(np.isfinite(result)), "{}: gave {}", what,
                       result)
    if kind != "constant":
        plain = gens.pack(values, case["container"])
        for call in (mat.get_nk_data, mat.get_permittivity):
            expect(verdict, lambda call=call: call(
                plain, spectrum_type=rep["type"], unit=rep["unit"]),
                   "plain numbers")


def data_request(case, ranges):
    """values of the request"""
    rep, desc = case["rep"], case["desc"]
    if desc["kind"].startswith("fixed"):
        low, high = reqs.FREE
    elif desc["kind"] in ("mixed", "two"):
        low, high = mats.bounds_metres(desc)
    else:
        low, high = sorted(ora.to_metres(ranges[0][k], ranges[0]["type"],
                                         ranges[0]["unit"])
                           for k in ("lo", "hi"))
    out = []
    for t in gens.spread(case["n"], case["seed"]):
        metres = low * (high / low) ** t
        for own in ranges:
            metres = reqs._inside(metres, own)
        value = ora.from_metres(metres, rep["type"], rep["unit"])
        if len(ranges) == 1 and reqs.same(ranges[0], rep):
            value = min(max(value, ranges[0]["lo"]), ranges[0]["hi"])
        out.append(value)
    for item in case["special"]:
        index = 0 if item["at"] % 2 == 0 or len(ranges) < 2 else 1
        if ranges:
            own = ranges[index]
        else:
            own = {"type": "wavelength", "unit": "m", "lo": low, "hi": high}
        by = item["by"]
        v = {"lo": own["lo"], "hi": own["hi"], "nan": math.nan, "below": own["lo"] / (1.0 + by),
             "above": own["hi"] * (1.0 + by),
             "ulp_below": math.nextafter(own["lo"], 0.0),
             "ulp_above": math.nextafter(own["hi"], math.inf)}[item["what"]]
        out[item["at"]] = v if v != v else to_other(v, own, rep)
    return out


FACETS = [
    Facet("contains", contains_case, check_contains,
          lambda case, labels: "edge" not in labels, 1600, 40000, shards=3),
    Facet("data", data_case, check_data,
          lambda case, labels: "edge" not in labels, 1500, 30000, shards=5),
]
