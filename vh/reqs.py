"""requests: spectral points at which a described material is evaluated

{"rep": {"type", "unit"}, "container": kind, "points": [p, ...]} or
{"rep":, "container":, "n":, "seed":} for long requests.  A point is a number
in [0, 1] (position in the valid range), "lo" or "hi" (a bound, exactly if the
request is in the unit of the data), or {"node": i} (row i of a table).
"""
import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import oracle as ora
from vh.core import ensure

FREE = (1e-8, 1e-3)  # where unbounded data is sampled


def part(desc):
    """own range of one data set"""
    if desc["kind"] == 'model':
        low, high = desc["range"]
    else:
        low, high = min(desc["x"]), max(desc["x"])
    return {"type": desc["type"], "unit": desc["unit"], "lo": low, "hi": high}


def parts(desc):
    """ranges of all data sets of a description"""
    if desc["kind"].startswith("fixed"):
        return []
    if desc["kind"] in ("mixed", "two"):
        return [part(desc["n"]), part(desc["k"])]
    return [part(desc)]


def same(a, b):
    """same quantity and unit"""
    return (a["type"].lower() == b["type"].lower() and
            ora.canonical(a["unit"]) == ora.canonical(b["unit"]))


def verdict(ranges, value, rep):
    """'in', 'out' or 'edge' (within conversion rounding of a bound)"""
    answer = 'in'
    for own in ranges:
        if same(own, rep):
            if value < own["lo"] or value > own["hi"]:
                return 'out'
            continue
        there = ora.convert(value, rep["type"], rep["unit"], own["type"],
                            own["unit"])
        margin = ora.slack(there, own["unit"]) * 2.0
        if there < own["lo"] - margin or there > own["hi"] + margin:
            return 'out'
        if there < own["lo"] + margin or there > own["hi"] - margin:
            if np.isfinite(there) or there not in (own["lo"], own["hi"]):
                if not (there == 0.0 and own["lo"] == 0.0):
                    answer = 'edge'
    return answer


@st.composite
def request(draw, desc=None, rep=None, max_points=6, long=0.0,
            containers=None, scalar=True):
    """a request for a described material"""
    own = parts(desc) if desc is not None else []
    if rep is None:
        if own and draw(st.integers(0, 3)) == 0:
            rep = {"type": own[0]["type"], "unit": own[0]["unit"]}
        else:
            rep = draw(gens.rep())
    choice = containers or (['float', 'npfloat'] if scalar else []) + \
        ['list', 'tuple', 'array', 'array']
    container = draw(st.sampled_from(choice))
    req = {"rep": rep, "container": container}
    if container in ('float', 'npfloat'):
        req["points"] = [draw(point(desc))]
        return req
    if long and draw(gens.unit_float()) < long:
        req["n"] = draw(gens.lengths(41, 10100))
        req["seed"] = draw(st.integers(0, 99))
        return req
    req["points"] = draw(st.lists(point(desc), min_size=1,
                                  max_size=max_points))
    return req


@st.composite
def point(draw, desc=None):
    """one position"""
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return "lo"
    if kind == 1:
        return "hi"
    if kind in (2, 3) and desc is not None and "x" in desc:
        return {"node": draw(st.integers(0, len(desc["x"]) - 1))}
    return draw(gens.unit_float())


def positions(req):
    """the points of a request"""
    if "points" in req:
        return req["points"]
    return gens.spread(req["n"], req["seed"])


def values_of(desc, req):
    """spectral values of a request in its own unit, all inside the range"""
    ranges = parts(desc)
    rep = req["rep"]
    low, high = mats.bounds_metres(desc) if ranges else FREE
    out = []
    for pos in positions(req):
        exact = len(ranges) == 1 and same(ranges[0], rep)
        if isinstance(pos, dict):
            if exact:
                out.append(float(desc["x"][pos["node"]]))
                continue
            metres = ora.to_metres(desc["x"][pos["node"]], desc["type"],
                                   desc["unit"])
        elif pos in ("lo", "hi"):
            if exact:
                out.append(float(ranges[0][pos]))
                continue
            metres = low if pos == "lo" else high
        else:
            metres = low * (high / low) ** pos
        for own in ranges:
            metres = _inside(metres, own)
        out.append(float(ora.from_metres(metres, rep["type"], rep["unit"])))
    return out


def _inside(metres, own):
    value = ora.from_metres(metres, own["type"], own["unit"])
    margin = 3.0 * ora.slack(value, own["unit"])
    low, high = own["lo"] + margin, own["hi"] - margin
    if low > high:
        value = 0.5 * (own["lo"] + own["hi"])
    elif value < low or value > high:
        value = min(max(value, low), high)
    else:
        return metres
    return ora.to_metres(value, own["type"], own["unit"])


def as_spectrum(values, req):
    """Spectrum object of a request"""
    from dispersion import Spectrum
    return Spectrum(gens.pack(values, req["container"]),
                    spectrum_type=req["rep"]["type"], unit=req["rep"]["unit"])


def is_scalar(req):
    """scalar request"""
    return req["container"] in ('float', 'npfloat')


def result_list(result, req, n, what="result"):
    """values of an evaluation as list, after checking its form"""
    if is_scalar(req):
        ensure(np.ndim(result) == 0, "{}: a scalar request gave {!r}", what,
               result)
        return [complex(result)]
    result = np.asarray(result)
    ensure(result.shape == (n,), "{}: {} points gave shape {}", what, n,
           result.shape)
    return [complex(v) for v in result]


def metres_of(values, req):
    """wavelengths in metres"""
    return [ora.to_metres(v, req["rep"]["type"], req["rep"]["unit"])
            for v in values]


def near(actual, expected, tol):
    """complex closeness, finite"""
    return bool(np.isfinite(actual)) and abs(actual - expected) <= tol


def check_values(actual, expected, values, what):
    """compare with a list of (value, tolerance) or None"""
    checked = 0
    for i, (got, want) in enumerate(zip(actual, expected)):
        if want is None:
            continue
        ensure(near(got, want[0], want[1]),
               "{}: point {} ({!r}): got {!r}, expected {!r} +- {:.3g}", what,
               i, values[i], got, want[0], want[1])
        checked += 1
    return checked
