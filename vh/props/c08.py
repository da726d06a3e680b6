"""C08: extrapolation and removal of absorption"""
import math

import numpy as np
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail

RULE = ("a case counts if it extends a material and asks for points inside "
        "and outside the original range, or removes absorption; distinct by "
        "its full JSON description")
ASSUMPTIONS = ["limits lie at least 0.1 % outside the known range of both "
               "parts, at most a factor 2.5 away",
               "values outside the known range are compared with a formula "
               "for polynomial data (spline order up to 3) and for order 1 "
               "on tables; otherwise only required to be finite"]


# --------------------------------------------------------------------------
# histories
# --------------------------------------------------------------------------

@st.composite
def operation(draw):
    op = draw(st.sampled_from(["extrapolate"] * 5 + ["remove", "inside",
                                                     "three", "half"]))
    out = {"op": op}
    if op in ("extrapolate", "inside", "three", "half"):
        out["sides"] = draw(st.sampled_from([["lo"], ["hi"], ["lo", "hi"],
                                             ["hi", "lo"]]))
        out["by"] = [draw(gens.log_between(1e-3, 0.6)) for _ in range(2)]
        out["rep"] = draw(st.one_of(st.none(), gens.rep()))
        out["container"] = draw(st.sampled_from(['float', 'list', 'array',
                                                 'tuple']))
        out["order"] = draw(st.sampled_from([None, 1, 1, 2, 2, 3]))
        out["t"] = draw(gens.unit_float())
    return out


@st.composite
def absorption_only(draw):
    """a table of k, the real part being constant"""
    return dict(draw(mats.table(kinds=('tab_n',), shuffle=False, max_rows=6)),
                kind='tab_k')


@st.composite
def history_case(draw):
    desc = draw(st.one_of(mats.table(max_rows=6), mats.table(max_rows=6),
                          mats.int_table(),
                          mats.n_model(names=['Cauchy', 'Sellmeier',
                                              'Sellmeier2', 'Herzberger'],
                                       max_terms=3),
                          mats.mixed(), mats.fixed(), absorption_only()))
    ops = draw(st.lists(operation(), min_size=1, max_size=4))
    if desc["kind"] == "tab_k":
        ops = [dict(op, op="extrapolate", by=[0.1, 0.2], rep=None, order=None,
                    sides=["hi"], container="list", t=0.5)
               if op["op"] == "remove" else op for op in ops]
    return {"desc": desc, "ops": ops,
            "req": draw(reqs.request(desc, long=0.06, max_points=5)),
            "out": draw(st.lists(gens.unit_float(), min_size=1, max_size=4)),
            "mix": draw(st.integers(0, 5))}


def stored_call(mat, desc):
    """evaluator in the representation the material is defined in"""
    if desc["kind"] in ('tab_eps', 'fixed_eps', 'fixed_eps_r'):
        return mat.get_permittivity
    return mat.get_nk_data


class State():
    """what is known about the material"""

    def __init__(self, mat, desc, case):
        self.mat, self.desc = mat, desc
        self.req = case["req"]
        self.call = stored_call(mat, desc)
        self.values = reqs.values_of(desc, self.req)
        self.original = np.atleast_1d(np.asarray(
            self.call(reqs.as_spectrum(self.values, self.req))))
        self.removed = False
        self.snapshots = []  # (metres, values) in extended regions
        if desc["kind"] == "mixed":
            self.ranges = [mats.bounds_metres(desc[k]) for k in ("n", "k")]
        else:
            self.ranges = [mats.bounds_metres(desc)]

    def live(self):
        """ranges of the parts that are not constant"""
        return self.ranges[:1] if self.removed else self.ranges

    @property
    def low(self):
        """a limit has to lie outside all parts"""
        return min(r[0] for r in self.live())

    @property
    def high(self):
        """a limit has to lie outside all parts"""
        return max(r[1] for r in self.live())

    @property
    def known(self):
        """where the material can be evaluated"""
        return (max(r[0] for r in self.live()),
                min(r[1] for r in self.live()))

    def expected(self, values):
        """values with the present absorption"""
        return np.real(values) + 0j if self.removed else values


def check_history(case, env):
    """known values survive any sequence of extensions"""
    from dispersion import Spectrum
    desc = case["desc"]
    mat = files.build(desc, env)
    state = State(mat, desc, case)
    env.label(desc["kind"])
    for number, op in enumerate(case["ops"]):
        what = "operation {} {}".format(number, op["op"])
        if op["op"] == "remove":
            mat.remove_absorption()
            state.removed = True
            env.label("removed")
        elif desc["kind"].startswith("fixed"):
            limit = Spectrum(1e-6)
            mat.extrapolate(limit)
        elif op["op"] in ("inside", "half"):
            if not refuse_inside(state, op, what, env, Spectrum):
                return
        elif op["op"] == "three":
            rep = {"type": "wavelength", "unit": "m"}
            limit = [state.low * 0.5, state.high * 1.5, state.high * 2.0]
            refuse(mat, limit, rep, op, Spectrum, what)
        else:
            extend(state, op, what, Spectrum)
            env.label("extended")
            if number:
                env.label("repeated")
        check_known(state, case, state.known, what, env, Spectrum)


def refuse_inside(state, op, what, env, Spectrum):
    """a limit inside a part, alone or with a proper one: nothing changes"""
    desc, mat = state.desc, state.mat
    ranges = state.live()
    part = ranges[int(op["by"][0] * 1e6) % len(ranges)]
    low, high = part
    inside = low * (high / low) ** (0.001 + 0.998 * op["t"])
    everywhere = all(r[0] * 1.0001 < inside < r[1] / 1.0001 for r in ranges)
    rep = op["rep"] or ({"type": "wavelength", "unit": "um"}
                        if desc["kind"] == "mixed" else
                        {"type": desc["type"], "unit": desc["unit"]})
    limits = [inside]
    if op["op"] == "half":
        limits.append(state.low / 1.3 if op["sides"][0] == "lo" else
                      state.high * 1.3)
        if op["by"][1] > 0.02:
            limits.reverse()
    limit = [ora.from_metres(m, rep["type"], rep["unit"]) for m in limits]
    if (op["rep"] is None and desc["kind"].startswith("tab") and
            ranges == [mats.bounds_metres(desc)] and op["by"][0] < 0.05):
        # exactly one end of the table, which belongs to the known range
        limit[limits.index(inside)] = float(
            (min if op["sides"][0] == "lo" else max)(desc["x"]))
        env.label("limit at the end")
    if len(limit) == 1 and op["container"] == 'float':
        limit = limit[0]
    else:
        limit = gens.pack(limit, 'list' if op["container"] == 'float' else
                          op["container"])
    valid = np.array(mat.get_maximum_valid_range())
    try:
        mat.extrapolate(Spectrum(limit, spectrum_type=rep["type"],
                                 unit=rep["unit"]))
    except ValueError:
        env.label("refused limit")
        if not everywhere:
            env.label("refused by one part")
    else:
        ensure(not everywhere, "{}: limit {!r} {} was accepted", what, limit,
               rep["unit"])
        return False  # only one of the parts knew it: no claim
    ensure(np.array_equal(valid, mat.get_maximum_valid_range()),
           "{}: the refused limits {!r} {} changed the valid range from {} "
           "to {}", what, limit, rep["unit"], valid,
           mat.get_maximum_valid_range())
    known = state.known
    for beyond in (known[0] / 1.001, known[1] * 1.001):
        try:
            result = state.call(Spectrum(beyond))
        except ValueError:
            continue
        fail("{}: after the refused limits {!r} {}, {!r} m evaluated to "
             "{!r}", what, limit, rep["unit"], beyond, result)
    return True


def refuse(mat, limit, rep, op, Spectrum, what):
    """the limit has to be refused"""
    if op["container"] != 'float' or isinstance(limit, list):
        limit = gens.pack(limit if isinstance(limit, list) else [limit],
                          'list' if op["container"] == 'float' else
                          op["container"])
    try:
        mat.extrapolate(Spectrum(limit, spectrum_type=rep["type"],
                                 unit=rep["unit"]))
    except ValueError:
        return
    fail("{}: limit {!r} {} was accepted", what, limit, rep["unit"])


def extend(state, op, what, Spectrum):
    """apply an extension"""
    desc = state.desc
    rep = op["rep"] or ({"type": "wavelength", "unit": "um"}
                        if desc["kind"] == "mixed" else
                        {"type": desc["type"], "unit": desc["unit"]})
    limits = []
    ranges = state.live()
    own = desc["n"] if desc["kind"] == "mixed" else desc
    inverse = own["type"].lower() != 'wavelength'
    for side, by in zip(op["sides"], op["by"]):
        # sides are meant in the unit of the data
        if (side == "lo") != inverse:
            limits.append(state.low / (1.0 + by))
            ranges = [(limits[-1], r[1]) for r in ranges]
        else:
            limits.append(state.high * (1.0 + by))
            ranges = [(r[0], limits[-1]) for r in ranges]
    values = [ora.from_metres(m, rep["type"], rep["unit"]) for m in limits]
    if len(values) == 1 and op["container"] == 'float':
        spec = Spectrum(float(values[0]), spectrum_type=rep["type"],
                        unit=rep["unit"])
    else:
        kind = 'list' if op["container"] == 'float' else op["container"]
        spec = Spectrum(gens.pack(values, kind), spectrum_type=rep["type"],
                        unit=rep["unit"])
    kwargs = {} if op["order"] is None else {"spline_order": op["order"]}
    state.mat.extrapolate(spec, **kwargs)
    ensure(np.array_equal(np.atleast_1d(spec.values), np.array(values)),
           "{}: the limits changed", what)
    state.ranges = ranges


def check_known(state, case, known, what, env, Spectrum):
    """everything known so far"""
    desc, req = state.desc, state.req
    n = len(state.values)
    got = np.array(reqs.result_list(
        state.call(reqs.as_spectrum(state.values, req)), req, n))
    same(got, state.expected(state.original), what + ": inside", desc)
    if desc["kind"].startswith("fixed"):
        return
    low, high = known
    first, last = mats.bounds_metres(desc)
    below, above = low * (1.0 + 1e-4) < first, high > last * (1.0 + 1e-4)
    outside = []
    for t in case["out"]:
        if below and (t < 0.5 or not above):
            outside.append(low * (first / low) ** (0.01 + 0.98 *
                                                   (2.0 * t % 1.0)))
        elif above:
            outside.append(last * (high / last) ** (0.01 + 0.98 *
                                                    (2.0 * t % 1.0)))
    if not outside:
        return
    # inside and outside together, shuffled
    rep = req["rep"]
    inside = state.values[:40]
    values = mats.permute(list(range(len(inside) + len(outside))),
                          case["mix"])
    everything = list(inside) + [ora.from_metres(m, rep["type"], rep["unit"])
                                 for m in outside]
    asked = [everything[i] for i in values]
    spec = Spectrum(np.array(asked), spectrum_type=rep["type"],
                    unit=rep["unit"])
    got = np.asarray(state.call(spec))
    ensure(got.shape == (len(asked),), "{}: shape {}", what, got.shape)
    env.label("inside and outside")
    want = state.expected(state.original)
    finite = bool(np.all(np.isfinite(state.original)))
    for position, i in enumerate(values):
        if i < len(inside):
            same(got[position:position + 1], want[i:i + 1],
                 what + ": inside with outside", desc)
        elif finite:
            ensure(np.isfinite(got[position]) or model_gap(desc),
                   "{}: {!r} at {!r} {}", what, got[position],
                   asked[position], rep["unit"])
    if state.removed:
        ensure(np.all(np.imag(got) == 0.0), "{}: absorption {} remains", what,
               np.imag(got)[:5])
    # what an earlier extension defined stays
    for metres, kept in state.snapshots:
        again = np.asarray(state.call(Spectrum(np.array(metres))))
        same(again, state.expected(kept), what + ": earlier extension", desc)
    alone = np.asarray(state.call(Spectrum(np.array(outside))))
    state.snapshots.append((outside, alone.copy()))
    # beyond the limits
    for beyond in (low / 1.0001, high * 1.0001):
        for company in ([beyond], [math.sqrt(low * high), beyond]):
            try:
                result = state.call(Spectrum(np.array(company)))
            except ValueError:
                continue
            fail("{}: {!r} m evaluated to {!r}", what, beyond, result)


def model_gap(desc):
    """models may have no real value at some points of their range"""
    return desc["kind"] in ("model", "mixed")


def same(got, want, what, desc):
    """equal values, up to rounding; NaN stays NaN"""
    for a, b in zip(got, want):
        if not np.isfinite(b):
            continue
        ensure(abs(a - b) <= 1e-9 * abs(b) + 1e-14, "{}: {!r} instead of "
               "{!r}", what, a, b)


# --------------------------------------------------------------------------
# continuation
# --------------------------------------------------------------------------

@st.composite
def poly_case(draw):
    order = draw(st.sampled_from([1, 2, 2, 3, 3]))
    source = draw(st.sampled_from(["table", "model", "order"]))
    if source == "table":
        degree = draw(st.integers(0, 1))
    else:
        degree = draw(st.integers(1, order))
    poly = [draw(st.floats(0.5, 5.0))] + [draw(gens.signed(1e-1, 2.0))
                                          for _ in range(degree)]
    poly_im = [draw(st.floats(0.5, 5.0))] + [draw(gens.signed(1e-1, 2.0))
                                             for _ in range(degree)]
    if source == "model":
        rep = {"type": "wavelength", "unit": "um"}
        low = draw(st.floats(0.2, 2.0))
    else:
        rep = draw(gens.rep())
        low = ora.from_metres(draw(gens.log_between(1e-7, 1e-5)),
                              rep["type"], rep["unit"])
    high = low * draw(st.floats(1.3, 6.0))
    width = high - low
    down = min(0.5 * low, width * draw(st.floats(0.05, 0.5)))
    up = width * draw(st.floats(0.05, 0.5))
    sides = draw(st.sampled_from([["lo"], ["hi"], ["lo", "hi"],
                                  ["hi", "lo"]]))
    return {"source": source, "order": order, "poly": [poly, poly_im],
            "default": order == 2 and draw(st.booleans()),
            "rep": rep, "low": low, "high": high, "down": down, "up": up,
            "sides": sides, "rows": draw(st.integers(order + 1, 9)),
            "limit_rep": draw(st.one_of(st.just(rep), gens.rep())),
            "kind": draw(st.sampled_from(['tab_n', 'tab_nk', 'tab_eps'])),
            "points": draw(st.lists(gens.unit_float(), min_size=1,
                                    max_size=4))}


def evaluate_poly(poly, case, x):
    """polynomial in the position within the original range"""
    u = (x - case["low"]) / (case["high"] - case["low"])
    value = 0.0
    for c in reversed(poly):
        value = value * u + c
    return value


def check_poly(case, env):
    """polynomial data is continued by the polynomial"""
    from dispersion import Material, Spectrum
    rep, poly = case["rep"], case["poly"]
    low, high = case["low"], case["high"]
    kind = case["kind"]
    env.label(case["source"])
    env.label("order {} degree {}".format(case["order"], len(poly[0]) - 1))
    if case["source"] == "model":
        kind = 'tab_n'
        # c0 + c1 u + ... expanded in powers of the wavelength
        expanded = np.polynomial.polynomial.Polynomial(
            poly[0], domain=[low, high], window=[0.0, 1.0]).convert(
                domain=[-1, 1], window=[-1, 1]).coef
        par = [float(expanded[0])]
        for power, c in enumerate(expanded[1:]):
            par.extend([float(c), power + 1])
        mat = Material(model_kw={'name': 'Cauchy', 'parameters': par,
                                 'valid_range': np.array([low, high]),
                                 'spectrum_type': 'wavelength', 'unit': 'um'})
    else:
        xs = np.linspace(low, high, case["rows"])
        xs[-1] = high
        re = [evaluate_poly(poly[0], case, x) for x in xs]
        im = [evaluate_poly(poly[1], case, x) for x in xs]
        kwargs = {'spectrum_type': rep["type"], 'unit': rep["unit"]}
        if case["source"] == "order":
            kwargs["interp_order"] = case["order"]
        name = {'tab_n': 'tabulated_n', 'tab_nk': 'tabulated_nk',
                'tab_eps': 'tabulated_eps'}[kind]
        table = np.array([xs, re] if kind == 'tab_n' else [xs, re, im]).T
        mat = Material(**{name: table}, **kwargs)
    ends = {"lo": low - case["down"], "hi": high + case["up"]}
    there = case["limit_rep"]
    limits = [v if reqs.same(rep, there) else
              ora.convert(v, rep["type"], rep["unit"], there["type"],
                          there["unit"])
              for v in (ends[s] for s in case["sides"])]
    mat.extrapolate(Spectrum(limits, spectrum_type=there["type"],
                             unit=there["unit"]),
                    **({} if case.get("default") else
                       {"spline_order": case["order"]}))
    if case.get("default"):
        env.label("default order")
    asked = []
    for t in case["points"]:
        for side in case["sides"]:
            span = case["down"] if side == "lo" else case["up"]
            step = span * (0.001 + 0.998 * t)
            asked.append(low - step if side == "lo" else high + step)
    call = mat.get_permittivity if kind == 'tab_eps' else mat.get_nk_data
    got = np.asarray(call(Spectrum(np.array(asked), spectrum_type=rep["type"],
                                   unit=rep["unit"])))
    scale = max(abs(c) for c in poly[0]) * 5.0
    scale_im = max(abs(c) for c in poly[1]) * 5.0
    tol = {1: 1e-8, 2: 1e-6, 3: 1e-4}[case["order"]]
    for x, item in zip(asked, got):
        want = evaluate_poly(poly[0], case, x)
        ensure(abs(item.real - want) <= tol * scale,
               "order {}: real part {!r} at {!r}, the polynomial gives {!r}",
               case["order"], item.real, x, want)
        want = 0.0 if kind == 'tab_n' else evaluate_poly(poly[1], case, x)
        ensure(abs(item.imag - want) <= tol * scale_im,
               "order {}: imaginary part {!r} at {!r}, the polynomial gives "
               "{!r}", case["order"], item.imag, x, want)


@st.composite
def line_case(draw):
    rep = draw(gens.rep())
    low = ora.from_metres(draw(gens.log_between(1e-7, 1e-5)), rep["type"],
                          rep["unit"])
    xs = [low]
    for _ in range(draw(st.integers(1, 5))):
        xs.append(xs[-1] * (1.0 + draw(st.floats(0.05, 0.5))))
    return {"rep": rep, "x": xs, "y": [draw(st.floats(0.1, 9.0)) for _ in xs],
            "z": [draw(st.floats(0.0, 9.0)) for _ in xs],
            "by": [draw(st.floats(0.05, 0.5)) for _ in range(2)],
            "points": draw(st.lists(gens.unit_float(), min_size=1,
                                    max_size=4)),
            "direct": draw(st.booleans())}


def check_line(case, env):
    """order 1 continues the first and last piece of a table"""
    import dispersion
    from dispersion import Material, Spectrum
    xs, rep = case["x"], case["rep"]
    ends = [xs[0] / (1.0 + case["by"][0]), xs[-1] * (1.0 + case["by"][1])]
    limit = Spectrum(ends, spectrum_type=rep["type"], unit=rep["unit"])
    asked = []
    for t in case["points"]:
        t = 0.001 + 0.998 * t
        asked.append(ends[0] + (xs[0] - ends[0]) * t)
        asked.append(xs[-1] + (ends[1] - xs[-1]) * t)
    spec = Spectrum(np.array(asked), spectrum_type=rep["type"],
                    unit=rep["unit"])
    if case["direct"]:
        env.label("direct")
        base = dispersion.Interpolation(np.array([xs, case["y"]]).T,
                                        spectrum_type=rep["type"],
                                        unit=rep["unit"])
        got = dispersion.Extrapolation(base, limit,
                                       spline_order=1).evaluate(spec)
        columns = [(np.real(got), case["y"])]
    else:
        mat = Material(tabulated_nk=np.array([xs, case["y"], case["z"]]).T,
                       spectrum_type=rep["type"], unit=rep["unit"])
        mat.extrapolate(limit, spline_order=1)
        got = mat.get_nk_data(spec)
        columns = [(np.real(got), case["y"]), (np.imag(got), case["z"])]
    for values, ys in columns:
        for x, value in zip(asked, values):
            i, j = (0, 1) if x < xs[0] else (-2, -1)
            want = ys[i] + (ys[j] - ys[i]) * (x - xs[i]) / (xs[j] - xs[i])
            ensure(abs(value - want) <= 1e-7 * (1.0 + max(map(abs, ys))),
                   "order 1 at {!r}: {!r}, the end piece gives {!r}", x,
                   value, want)


# --------------------------------------------------------------------------
# removal, complex models
# --------------------------------------------------------------------------

@st.composite
def other_case(draw):
    desc = draw(st.one_of(mats.table(), mats.fixed(), mats.mixed(),
                          mats.eps_model()))
    few = desc.get("name") == 'TaucLorentz'
    return {"desc": desc, "req": draw(reqs.request(
        desc, long=0.0 if few else 0.1)), "order": draw(st.sampled_from(
            [1, 2, 3]))}


def check_other(case, env):
    """removing absorption; complex models cannot be extended"""
    from dispersion import Spectrum
    desc, req = case["desc"], case["req"]
    mat = mats.build(desc, env)
    values = reqs.values_of(desc, req)
    spec = reqs.as_spectrum(values, req)
    if desc["kind"] == "model":
        env.label("complex model")
        before = mat.get_permittivity(spec)
        try:
            mat.extrapolate(Spectrum(desc["range"][1] * 2.0,
                                     spectrum_type='energy', unit='ev'),
                            spline_order=case["order"])
        except NotImplementedError:
            ensure(np.array_equal(mat.get_permittivity(spec), before,
                                  equal_nan=True), "values changed")
            return
        fail("extrapolating a complex model was not refused")
    call = stored_call(mat, desc)
    before = np.asarray(call(spec))
    mat.remove_absorption()
    after = np.asarray(call(spec))
    env.label("absorbing" if np.any(np.imag(before)) else "transparent")
    ensure(after.shape == before.shape, "shape {} became {}", before.shape,
           after.shape)
    ensure(np.all(np.imag(after) == 0.0), "absorption remains: {}",
           after.ravel()[:5])
    ensure(np.array_equal(np.real(after), np.real(before), equal_nan=True),
           "real part changed from {} to {}", before.ravel()[:5],
           after.ravel()[:5])


FACETS = [
    Facet("history", history_case, check_history,
          lambda case, labels: bool(labels & {"extended", "removed"}),
          360, 10000, shards=4),
    Facet("continue", poly_case, check_poly, lambda case, labels: True, 300,
          6000, shards=2),
    Facet("line", line_case, check_line, lambda case, labels: True, 250, 4000),
    Facet("remove", other_case, check_other, lambda case, labels: True, 350,
          5000),
]
