"""C09: effective media"""
import cmath
import math

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail

RULE = ("a case counts if a medium of two different constituents with a "
        "fraction strictly between 0 and 1 is compared with its mixing rule, "
        "or a fraction or denominator has to be refused; distinct by its full "
        "JSON description")
ASSUMPTIONS = ["Bruggeman: negative real permittivities come with loss; the "
               "choice of the root is judged where the two roots differ "
               "clearly in their imaginary (or, for positive constituents, "
               "real) part",
               "points of one spectrum differ by at least 0.01 %",
               "denominators within 0.1 % of 1e-6 are not judged"]
RULES = ['Simple', 'MaxwellGarnett', 'Bruggeman']


def gap():
    """relative distance of neighbouring points"""
    return gens.log_between(1e-4, 0.5)


@st.composite
def points(draw, max_points=6, long=True):
    """increasing wavelengths in metres, as a compact description"""
    start = draw(gens.log_between(1e-7, 2e-5))
    if long and draw(st.integers(0, 9)) == 0:
        return {"start": start, "n": draw(gens.lengths(30, 1100)),
                "seed": draw(st.integers(0, 99))}
    return {"start": start, "gaps": draw(st.lists(gap(), max_size=max_points))}


def metres_of(case_points):
    """expand a compact description"""
    out = [case_points["start"]]
    if "gaps" in case_points:
        gaps = case_points["gaps"]
    else:
        gaps = [1e-4 + 4e-3 * t for t in gens.spread(case_points["n"] - 1,
                                                     case_points["seed"])]
    for step in gaps:
        out.append(out[-1] * (1.0 + step))
    return out


@st.composite
def real_part(draw):
    """real part of a permittivity"""
    return draw(st.one_of(st.floats(1.0, 16.0), st.floats(0.05, 20.0),
                          gens.log_between(1e-3, 50.0),
                          gens.log_between(1e-3, 50.0).map(lambda v: -v),
                          st.integers(-9, 9).map(lambda i: float(i or 1))))


@st.composite
def permittivity(draw):
    """complex permittivity of a passive medium, lossy where negative"""
    re = draw(real_part())
    im = draw(st.one_of(st.just(0.0), st.just(0.0), st.floats(0.0, 10.0),
                        gens.log_between(1e-8, 50.0)))
    if re < 0.0 and im < 1e-3:
        im = draw(gens.log_between(1e-3, 20.0))
    return [re, im]


@st.composite
def constituent(draw, low, high):
    """a material valid from low to high (metres)"""
    kind = draw(st.sampled_from(['fixed_eps', 'fixed_eps', 'fixed_nk',
                                 'fixed_n', 'tab_eps', 'tab_eps', 'tab_nk',
                                 'tab_n', 'model', 'model', 'metal']))
    low, high = low / draw(st.floats(1.01, 2.0)), high * draw(
        st.floats(1.01, 2.0))
    if kind == 'fixed_eps':
        re, im = draw(permittivity())
        return {"kind": kind, "re": re, "im": im}
    if kind in ('fixed_nk', 'fixed_n'):
        return {"kind": kind, "re": draw(st.floats(0.2, 5.0)),
                "im": draw(st.one_of(st.just(0.0), st.floats(0.0, 5.0)))}
    if kind == 'model':
        names = {'Sellmeier': [0, draw(st.floats(0.1, 4.0)),
                               low * 1e6 * draw(st.floats(0.05, 0.8))],
                 'Cauchy': [draw(st.floats(1.0, 4.0)),
                            draw(st.floats(0.0, 0.1)) * (low * 1e6) ** 2, -2]}
        name = draw(st.sampled_from(sorted(names)))
        return {"kind": "model", "name": name, "par": names[name],
                "type": "wavelength", "unit": "um",
                "range": [low * 1e6, high * 1e6]}
    if kind == 'metal':
        name = draw(st.sampled_from(['Drude', 'DrudeLorentz']))
        gamma = draw(gens.log_between(0.05, 3.0))
        par = [draw(st.floats(0.5, 12.0)), gamma]
        if name == 'DrudeLorentz':
            par = [par[0], draw(st.floats(0.1, 1.0)),
                   draw(st.floats(0.2, 8.0)), gamma]
        return {"kind": "model", "name": name, "par": par, "type": "energy",
                "unit": "ev", "range": [ora.HC_EV / high, ora.HC_EV / low]}
    rep = draw(gens.rep())
    rows = draw(st.integers(2, 6))
    ratio = (high / low) ** (1.0 / (rows - 1))
    xs = sorted(ora.from_metres(low * ratio ** i, rep["type"], rep["unit"])
                for i in range(rows))
    desc = {"kind": kind, "type": rep["type"], "unit": rep["unit"], "x": xs,
            "order": draw(st.integers(0, 3))}
    if kind == 'tab_eps':
        values = [draw(permittivity()) for _ in xs]
    else:
        values = [[draw(st.floats(0.2, 5.0)), draw(st.one_of(
            st.just(0.0), st.floats(0.0, 5.0)))] for _ in xs]
    desc["re"] = [v[0] for v in values]
    desc["im"] = [v[1] for v in values]
    if kind == 'tab_eps' and min(desc["re"]) < 0.0:
        desc["im"] = [max(v, 1e-3) for v in desc["im"]]
    return desc


def fraction():
    """filling fraction in [0, 1]"""
    return st.one_of(st.floats(0.0, 1.0, allow_subnormal=False),
                     st.sampled_from([0.0, 1.0, 0, 1, 0.5, 1.0 / 3.0,
                                      2.0 / 3.0]),
                     gens.log_between(1e-9, 0.1),
                     gens.log_between(1e-9, 0.1).map(lambda v: 1.0 - v))


@st.composite
def rule_case(draw):
    pts = draw(points())
    all_points = metres_of(pts)
    low, high = all_points[0], all_points[-1]
    case = {"rule": draw(st.sampled_from(RULES)), "points": pts,
            "rep": draw(gens.rep()), "f": draw(fraction()),
            "container": draw(st.sampled_from(['list', 'array', 'array',
                                               'tuple', 'float'])),
            "perm": draw(st.integers(0, 6)),
            "host": draw(constituent(low, high)),
            "incl": draw(constituent(low, high)),
            "nested": draw(st.sampled_from(["", "", "", "host", "incl",
                                            "self"])),
            "between": draw(st.lists(gens.unit_float(), min_size=1,
                                     max_size=4)),
            "there": draw(gens.rep()), "nk": draw(st.booleans())}
    if case["rule"] != 'Bruggeman' and draw(st.integers(0, 4)) == 0:
        # amplifying constituents
        for name in draw(st.sampled_from([["host"], ["incl"],
                                          ["host", "incl"]])):
            gain = case[name].get("im")
            if gain is not None:
                case[name]["im"] = [-v for v in gain] \
                    if isinstance(gain, list) else -gain
    return case


def make_spectrum(case):
    """(Spectrum, values) in request order"""
    from dispersion import Spectrum
    rep = case["rep"]
    wvl = mats.permute(metres_of(case["points"]), case["perm"])
    if case["container"] == 'float':
        wvl = wvl[:1]
    values = [float(ora.from_metres(m, rep["type"], rep["unit"]))
              for m in wvl]
    return Spectrum(gens.pack(values, case["container"]),
                    spectrum_type=rep["type"], unit=rep["unit"]), values


def simple(f, host, incl):
    """(value, tolerance)"""
    value = (1.0 - f) * host + f * incl
    return value, 1e-13 * (abs(host) + abs(incl))


def maxwell_garnett(f, host, incl):
    """(value, tolerance)"""
    up = 2.0 * (1.0 - f) * host + (1.0 + 2.0 * f) * incl
    down = (2.0 + f) * host + (1.0 - f) * incl
    scale = abs(host) + abs(incl)
    value = host * up / down
    tol = 1e-14 * scale * (abs(host / down) + abs(value / down)) * 10.0
    return value, tol + 1e-13 * abs(value)


def bruggeman(f, host, incl):
    """(right root, wrong root or None, tolerance)"""
    # 2 e^2 - b e - host*incl = 0
    b = f * (2.0 * incl - host) + (1.0 - f) * (2.0 * host - incl)
    scale = abs(host) + abs(incl)
    root = cmath.sqrt(b * b + 8.0 * host * incl)
    first = (b + root) / 4.0
    second = (b - root) / 4.0
    tol = 1e-11 * scale + 1e-13 * scale ** 2 / max(abs(root), 1e-300)
    if abs(root) < 1e-6 * scale:
        tol += 1e-5 * scale
    clear = 1e-6 * scale + 10.0 * tol
    if host.imag == 0.0 and incl.imag == 0.0 and host.real > 0.0 and \
            incl.real > 0.0:
        if first.real < second.real:
            first, second = second, first
        return first, second, tol
    if first.imag < second.imag:
        first, second = second, first
    if first.imag - second.imag > clear:
        return first, second, tol
    if host.real > 0.0 and incl.real > 0.0:
        if first.real < second.real:
            first, second = second, first
        if first.real - second.real > clear:
            return first, second, tol
    return first, None, tol


def expected(rule, f, host, incl):
    """list of acceptable (value, tolerance)"""
    if rule == 'Simple':
        return [simple(f, host, incl)]
    if rule == 'MaxwellGarnett':
        return [maxwell_garnett(f, host, incl)]
    first, second, tol = bruggeman(f, host, incl)
    if second is not None:
        return [(first, tol)]
    b = f * (2.0 * incl - host) + (1.0 - f) * (2.0 * host - incl)
    return [(first, tol), (b / 2.0 - first, tol)]


def medium_class(name):
    """class of a mixing rule"""
    import dispersion
    from dispersion import material
    return getattr(dispersion, name, None) or getattr(material, name)


def facts(mat, spec):
    """what must not change"""
    return (np.array(mat.get_permittivity(spec)),
            np.array(mat.get_nk_data(spec)),
            np.array(mat.get_maximum_valid_range()))


def same_facts(a, b):
    """no change"""
    return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def check_rule(case, env):
    """the medium follows its rule"""
    from dispersion import Spectrum
    rule, f = case["rule"], case["f"]
    spec, values = make_spectrum(case)
    host = mats.build(case["host"], env)
    incl = mats.build(case["incl"], env)
    if case["nested"] == "self":
        incl = host
    elif case["nested"] == "host":
        host = medium_class('Simple')(spec, host, incl, 0.25)
    elif case["nested"] == "incl":
        incl = medium_class('Simple')(spec, incl, host, 0.25)
    env.label(rule)
    eps_host = np.atleast_1d(np.array(host.get_permittivity(spec)))
    eps_incl = np.atleast_1d(np.array(incl.get_permittivity(spec)))
    before = facts(host, spec), facts(incl, spec)
    kept = np.array(spec.values), spec.spectrum_type, spec.unit
    if rule == 'MaxwellGarnett':
        down = np.abs((2 + f) * eps_host + (1 - f) * eps_incl)
        if np.any(down < 1.001e-6):
            return
    medium = medium_class(rule)(spec, host, incl, f)
    ensure(np.array_equal(spec.values, kept[0]) and
           (spec.spectrum_type, spec.unit) == kept[1:],
           "the spectrum changed to {!r} {} {}", spec.values,
           spec.spectrum_type, spec.unit)
    after = facts(host, spec), facts(incl, spec)
    ensure(same_facts(before[0], after[0]), "the host changed")
    ensure(same_facts(before[1], after[1]), "the inclusion changed")
    got = medium.get_permittivity(spec)
    if case["container"] == 'float':
        env.label("scalar")
        ensure(np.size(got) == 1, "scalar spectrum gave {!r}", got)
    else:
        ensure(np.shape(got) == (len(values),), "shape {} for {} points",
               np.shape(got), len(values))
    got = [complex(v) for v in np.atleast_1d(np.asarray(got)).ravel()]
    if len(got) > 29:
        env.label("long")
    for i, value in enumerate(got):
        h, m = complex(eps_host[i]), complex(eps_incl[i])
        choices = expected(rule, f, h, m)
        ensure(any(abs(value - want) <= tol for want, tol in choices),
               "{} of {!r} and {!r} with fraction {!r}: got {!r}, expected "
               "{!r}", rule, h, m, f, value, choices[0][0])
        if rule == 'Bruggeman':
            tol = choices[0][1]
            ensure(value.imag >= -tol, "{!r} amplifies", value)
            ensure(h.imag or m.imag or h.real < 0.0 or m.real < 0.0 or
                   value.real > -tol, "{!r} is negative", value)
        for edge, own in ((0.0, h), (1.0, m)):
            if f == edge:
                env.label("pure")
                ensure(len(choices) > 1 or abs(value - own) <=
                       max(choices[0][1], 1e-12 * abs(own)),
                       "fraction {} of {!r} in {!r} gives {!r}", f, m, h,
                       value)
        if case["nested"] == "self":
            ensure(len(choices) > 1 or abs(value - h) <= choices[0][1] +
                   1e-12 * abs(h), "mixing {!r} with itself gives {!r}", h,
                   value)
    if case["nested"]:
        env.label("nested " + case["nested"])
    if case["nk"]:
        index = np.atleast_1d(np.asarray(medium.get_nk_data(spec))).ravel()
        for a, b in zip(index, got):
            ensure(abs(a * a - b) <= 1e-12 * abs(b) + 1e-300,
                   "index {!r}, permittivity {!r}", a, b)
    check_between(case, env, medium, values, got, Spectrum)


def check_between(case, env, medium, values, got, Spectrum):
    """linear in wavelength between the points, nothing outside"""
    rep = case["rep"]
    wvl = [ora.to_metres(v, rep["type"], rep["unit"]) for v in values]
    order = sorted(range(len(wvl)), key=lambda i: wvl[i])
    there = case["there"]
    for t in case["between"]:
        if len(order) < 2:
            break
        env.label("between")
        k = min(int(t * (len(order) - 1)), len(order) - 2)
        u = 0.1 + 0.8 * ((t * 7.13) % 1.0)
        a, b = order[k], order[k + 1]
        x = wvl[a] + (wvl[b] - wvl[a]) * u
        asked = ora.from_metres(x, there["type"], there["unit"])
        width = wvl[b] - wvl[a]
        blur = (ora.slack(asked, there["unit"]) / asked * x + 3e-15) / width
        answer = complex(np.asarray(medium.get_permittivity(Spectrum(
            float(asked), spectrum_type=there["type"],
            unit=there["unit"]))).ravel()[0])
        want = got[a] + (got[b] - got[a]) * u
        tol = abs(got[b] - got[a]) * (2.0 * blur + 1e-9) + \
            1e-12 * (abs(got[a]) + abs(got[b]))
        ensure(abs(answer - want) <= tol, "between {!r} and {!r} m: {!r} "
               "instead of {!r}", wvl[a], wvl[b], answer, want)
    low, high = wvl[order[0]], wvl[order[-1]]
    for beyond in (low * (1.0 - 1e-4), high * (1.0 + 1e-4)):
        asked = float(ora.from_metres(beyond, there["type"], there["unit"]))
        for values_asked in (asked, np.array([asked, asked])):
            try:
                answer = medium.get_permittivity(Spectrum(
                    values_asked, spectrum_type=there["type"],
                    unit=there["unit"]))
            except ValueError:
                continue
            fail("defined from {!r} to {!r} m, but evaluated to {!r} at {!r} "
                 "m", low, high, answer, beyond)


# --------------------------------------------------------------------------
# refused
# --------------------------------------------------------------------------

@st.composite
def refused_case(draw):
    pts = draw(points(long=False))
    all_points = metres_of(pts)
    what = draw(st.sampled_from(["fraction", "singular", "singular",
                                 "almost"]))
    case = {"what": what, "points": pts, "rep": draw(gens.rep()),
            "container": draw(st.sampled_from(['list', 'array', 'tuple'])),
            "perm": draw(st.integers(0, 6))}
    if what == "fraction":
        case["f"] = draw(st.one_of(
            gens.log_between(1e-9, 1e3).map(lambda v: -v),
            gens.log_between(1e-9, 1e3).map(lambda v: 1.0 + v),
            st.sampled_from([-1, 2, -0.5, 1.5, 100.0, math.inf, -math.inf])))
        case["rule"] = draw(st.sampled_from(RULES))
        case["host"] = draw(constituent(all_points[0], all_points[-1]))
        case["incl"] = draw(constituent(all_points[0], all_points[-1]))
        return case
    case["rule"] = 'MaxwellGarnett'
    case["f"] = draw(st.one_of(st.floats(0.0, 0.9), st.just(0.0)))
    case["host"] = draw(permittivity())
    case["where"] = draw(st.integers(0, len(all_points) - 1))
    case["phase"] = draw(st.floats(0.0, 6.28))
    case["distance"] = draw(
        st.one_of(st.just(0.0), gens.log_between(1e-12, 9.9e-7))
        if what == "singular" else gens.log_between(1.1e-6, 1e-3))
    case["others"] = draw(permittivity())
    return case


def check_refused(case, env):
    """bad fractions and singular denominators"""
    from dispersion import Material, Spectrum
    spec, values = make_spectrum(case)
    env.label(case["what"])
    if case["what"] == "fraction":
        host = mats.build(case["host"], env)
        incl = mats.build(case["incl"], env)
        try:
            medium_class(case["rule"])(spec, host, incl, case["f"])
        except ValueError:
            return
        fail("{} accepted the fraction {!r}", case["rule"], case["f"])
    f = case["f"]
    host = complex(*case["host"])
    shift = cmath.rect(case["distance"], case["phase"])
    resonant = (shift - (2.0 + f) * host) / (1.0 - f)
    others = complex(*case["others"])
    wvl = np.sort(metres_of(case["points"]))
    table = np.array([[m, others.real, others.imag] for m in wvl])
    table[case["where"], 1:] = resonant.real, resonant.imag
    mat_host = Material(fixed_eps=host)
    if len(wvl) == 1:
        mat_incl = Material(fixed_eps=resonant)
    else:
        mat_incl = Material(tabulated_eps=table, spectrum_type='wavelength',
                            unit='m')
    # the table's own unit: its points are met exactly
    wvl = np.array(mats.permute(list(wvl), case["perm"]))
    spec = Spectrum(gens.pack(list(wvl), case["container"]))
    down = [(2.0 + f) * complex(h) + (1.0 - f) * complex(i) for h, i in
            zip(np.atleast_1d(mat_host.get_permittivity(spec)),
                np.atleast_1d(mat_incl.get_permittivity(spec)))]
    smallest = min(abs(d) for d in down)
    if 0.999e-6 < smallest < 1.001e-6:
        return
    if smallest < 1e-6:
        env.label("refused")
        try:
            medium_class('MaxwellGarnett')(spec, mat_host, mat_incl, f)
        except ValueError:
            return
        fail("denominator {!r} was accepted", smallest)
    env.label("accepted")
    medium = medium_class('MaxwellGarnett')(spec, mat_host, mat_incl, f)
    got = np.atleast_1d(medium.get_permittivity(spec))
    for value, h, i in zip(got, np.atleast_1d(
            mat_host.get_permittivity(spec)), np.atleast_1d(
                mat_incl.get_permittivity(spec))):
        want, tol = maxwell_garnett(f, complex(h), complex(i))
        ensure(abs(value - want) <= tol, "{!r} and {!r}, fraction {!r}: got "
               "{!r}, expected {!r}", h, i, f, value, want)


FACETS = [
    Facet("rule", rule_case, check_rule,
          lambda case, labels: case["nested"] != "self" and
          0.0 < case["f"] < 1.0, 1400, 20000, shards=6),
    Facet("refused", refused_case, check_refused,
          lambda case, labels: True, 400, 6000, shards=2),
]
