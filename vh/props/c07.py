"""C07: evaluation depends only on the physical spectral point"""
import os

import math

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail

RULE = ("a case counts if the same points are requested in two or more "
        "different ways (unit, container, order, company); distinct by its "
        "full JSON description")
ASSUMPTIONS = ["points keep a distance of 2 % of the valid range from its "
               "bounds, except for requests in the unit of the data",
               "tolerance: change of the constants over the conversion "
               "rounding (1e-15 m, 1e-9 eV), measured on the material itself"]

WRAPS = ['none', 'none', 'none', 'file', 'extrapolate', 'effective',
         'no_absorption']


def metres_rep():
    """the default representation"""
    return {"type": "wavelength", "unit": "m"}


@st.composite
def way(draw, n):
    """how to ask for n points"""
    return {"rep": draw(gens.rep()),
            "container": draw(st.sampled_from(['float', 'npfloat', 'list',
                                               'tuple', 'array', 'array'])),
            "form": draw(st.sampled_from(['spectrum', 'plain', 'default'])),
            "perm": draw(st.integers(0, 7)),
            "extra": draw(st.lists(st.floats(0.02, 0.98), max_size=3)),
            "first": draw(st.booleans()),
            "eps": draw(st.booleans()),
            "spoil": draw(st.integers(0, 3))}


@st.composite
def case_strategy(draw):
    wrap = draw(st.sampled_from(WRAPS))
    if wrap == 'extrapolate':
        desc = draw(mats.table(kinds=('tab_n', 'tab_nk', 'tab_eps')))
    elif wrap == 'file':
        desc = draw(st.one_of(mats.table(kinds=('tab_n', 'tab_nk', 'tab_eps'),
                                         big=0.1), mats.n_model(max_terms=3),
                              mats.eps_model(), mats.mixed()))
    else:
        desc = draw(mats.any_material(big=0.08))
    long = draw(st.integers(0, 6)) == 0
    case = {"desc": desc, "wrap": wrap}
    if long:
        case["n"] = draw(gens.lengths(41, 10100))
        case["seed"] = draw(st.integers(0, 99))
    else:
        case["points"] = draw(st.lists(st.floats(0.02, 0.98), min_size=1,
                                       max_size=5))
    case["ways"] = draw(st.lists(way(1), min_size=1, max_size=4))
    case["many"] = draw(st.sampled_from([0] * 14 + [70, 140, 300]))
    case["own"] = draw(st.booleans())
    case["medium"] = draw(st.sampled_from(['Simple', 'MaxwellGarnett',
                                           'Bruggeman']))
    case["by"] = draw(st.floats(0.05, 0.6))
    return case


def build(case, env):
    """material of a case and its bounds in metres"""
    import dispersion
    from dispersion import material as material_module
    from dispersion import Material, Spectrum, Writer
    desc, wrap = case["desc"], case["wrap"]
    low, high = mats.bounds_metres(desc)
    if not low > 0.0:
        low, high = reqs.FREE
    if wrap == 'file':
        source = mats.build(desc, env)
        path = os.path.join(env.fresh_dir(), "x.yml")
        Writer(path, source).write_file()
        return Material(file_path=path), low, high
    mat = mats.build(desc, env)
    if wrap == 'no_absorption':
        mat.remove_absorption()
    elif wrap == 'extrapolate':
        own = reqs.parts(desc)[0]
        ends = [own["lo"] / (1.0 + case["by"]), own["hi"] * (1.0 +
                                                             case["by"])]
        mat.extrapolate(Spectrum(ends, spectrum_type=desc["type"],
                                 unit=desc["unit"]), spline_order=1)
        low, high = sorted(ora.to_metres(v, desc["type"], desc["unit"])
                           for v in ends)
    elif wrap == 'effective':
        other = Material(fixed_nk=1.5 + 0.2j)
        grid = np.geomspace(low * (high / low) ** 0.01,
                            low * (high / low) ** 0.99, 7)
        cls = getattr(material_module, case["medium"])
        mat = cls(Spectrum(grid), other, mat, 0.3)
        low, high = float(grid[0]), float(grid[-1])
    return mat, low, high


def blur(metres):
    """relative change of a wavelength by conversion rounding"""
    energy = ora.HC_EV / metres
    return 3.0 * (1e-15 / metres + 1e-9 / energy + 1e-12)


def too_narrow(low, high):
    """conversion rounding is not small against the range"""
    return 0.02 * math.log(high / low) <= 2.0 * max(blur(low), blur(high))


def reference(mat, metres, eps):
    """(value, tolerance) at a wavelength by scalar default requests"""
    call = mat.get_permittivity if eps else mat.get_nk_data
    value = complex(call(float(metres)))
    delta = blur(metres)
    around = [complex(call(float(metres * (1.0 + s * delta))))
              for s in (-1.0, 1.0)]
    spread = max(abs(a - value) for a in around)
    return value, 3.0 * spread + 1e-11 * abs(value) + 1e-13


def check(case, env):
    """all ways of asking agree"""
    from dispersion import Spectrum
    mat, low, high = build(case, env)
    env.label(case["wrap"] if case["wrap"] != 'none' else
              case["desc"]["kind"])
    if too_narrow(low, high):
        env.label("too narrow")
        return
    positions = case.get("points") or [
        0.02 + 0.96 * t for t in gens.spread(case["n"], case["seed"])]
    metres = [low * (high / low) ** t for t in positions]
    if len(metres) > 40:
        env.label("long")
        step = max(1, len(metres) // 6)
        judged = list(range(0, len(metres), step)) + [len(metres) - 1]
    else:
        judged = list(range(len(metres)))
    refs = {}
    for eps in (False, True):
        refs[eps] = {i: reference(mat, metres[i], eps) for i in judged}
    for number, ask in enumerate(case["ways"]):
        run_way(number, ask, mat, metres, judged, refs, low, high, env,
                Spectrum)
    if case.get("many"):
        ask_often(case["many"], mat, low, high, env)
    # afterwards everything is as it was, to the bit
    for eps in (False, True):
        for i in judged[:3]:
            again = reference(mat, metres[i], eps)[0]
            ensure(identical(again, refs[eps][i][0]),
                   "value at {!r} m changed from {!r} to {!r}", metres[i],
                   refs[eps][i][0], again)
    if case["own"]:
        check_own_ends(case, mat, env, Spectrum)


def ask_often(count, mat, low, high, env):
    """many different scalar requests, then all of them at once"""
    env.label("often")
    metres = [low * (high / low) ** (0.02 + 0.96 * t)
              for t in gens.spread(count, count)]
    for eps, call in ((False, mat.get_nk_data), (True, mat.get_permittivity)):
        alone = [complex(call(m)) for m in metres]
        array = call(np.array(metres))
        for m, a, b in zip(metres, alone, array):
            if not identical(a, complex(b)) and abs(a - b) > 1e-13 * abs(a):
                compare(complex(b), (a, reference(mat, m, eps)[1]), m,
                        "in company")
        for at in (0, count // 2, count - 1):
            again = complex(call(metres[at]))
            ensure(identical(again, alone[at]), "asking {!r} m again gave "
                   "{!r} instead of {!r}", metres[at], again, alone[at])


def identical(a, b):
    """equal, NaN equal to NaN"""
    return a == b or (a != a and b != b)


def run_way(number, ask, mat, metres, judged, refs, low, high, env, Spectrum):
    """one way of asking for the points"""
    eps = ask["eps"]
    rep = metres_rep() if ask["form"] == 'default' else ask["rep"]
    call = mat.get_permittivity if eps else mat.get_nk_data
    env.label(ask["form"])
    what = "way {} ({} {} {})".format(number, ask["container"], rep["unit"],
                                      ask["form"])
    order = list(range(len(metres)))
    if ask["container"] in ('float', 'npfloat'):
        for i in judged:
            value = ora.from_metres(metres[i], rep["type"], rep["unit"])
            got = one_call(call, gens.pack([value], ask["container"]), rep,
                           ask, Spectrum, what)
            ensure(np.ndim(got) == 0, "{}: scalar request gave {!r}", what,
                   got)
            compare(complex(got), refs[eps][i], metres[i], what)
        return
    order = mats.permute(order, ask["perm"])
    wanted = [metres[i] for i in order]
    extra = [low * (high / low) ** t for t in ask["extra"]]
    if extra:
        env.label("company")
    shift = len(extra) if ask["first"] else 0
    wanted = extra + wanted if ask["first"] else wanted + extra
    values = [ora.from_metres(m, rep["type"], rep["unit"]) for m in wanted]
    request = gens.pack(values, ask["container"])
    if ask["spoil"] == 1:
        # a refused request in between changes nothing
        try:
            call(np.array([wanted[0], low * 1e-3]))
        except ValueError:
            pass
    got = one_call(call, request, rep, ask, Spectrum, what)
    ensure(isinstance(got, np.ndarray) and got.shape == (len(wanted),),
           "{}: {} points gave {!r}", what, len(wanted), np.shape(got))
    for position, i in enumerate(order):
        if i in refs[eps]:
            compare(complex(got[shift + position]), refs[eps][i], metres[i],
                    what)
    if ask["spoil"] == 2:
        keep = got.copy()
        try:
            got[...] = 5.0
        except ValueError:
            pass
        again = one_call(call, request, rep, ask, Spectrum, what)
        ensure(np.array_equal(again, keep, equal_nan=True),
               "{}: repeating the request gave other values", what)


def one_call(call, request, rep, ask, Spectrum, what):
    """evaluate; the request must not change; repeat must be identical"""
    copy = np.array(request, dtype=float)
    if ask["form"] == 'spectrum':
        spec = Spectrum(request, spectrum_type=rep["type"], unit=rep["unit"])
        state = (spec.spectrum_type, spec.unit)
        got = call(spec)
        ensure((spec.spectrum_type, spec.unit) == state and
               np.array_equal(np.asarray(spec.values, dtype=float), copy),
               "{}: the request changed to {!r} {} {}", what, spec.values,
               spec.spectrum_type, spec.unit)
        back = np.asarray(spec.convert_to(rep["type"], rep["unit"]))
        ensure(np.array_equal(back, copy), "{}: the request changed", what)
        again = call(spec)
    elif ask["form"] == 'plain':
        got = call(request, spectrum_type=rep["type"], unit=rep["unit"])
        again = call(request, rep["type"], rep["unit"])
    else:
        got = call(request)
        again = call(request)
    ensure(np.array_equal(np.asarray(request, dtype=float), copy),
           "{}: the request changed", what)
    ensure(np.array_equal(np.asarray(got), np.asarray(again), equal_nan=True),
           "{}: repeating the request gave {!r} instead of {!r}", what, again,
           got)
    return got


def compare(got, ref, metres, what):
    """value against the reference evaluation"""
    value, tol = ref
    if not np.isfinite(value) or not np.isfinite(tol):
        return
    if abs(value.imag) < 1e3 * tol and got.imag * value.imag <= 0.0 and \
            abs(got + value) <= 2.0 * tol and abs(value.real) < 1e3 * tol:
        return  # root of a negative permittivity whose loss is lost in tol
    if abs(got - value) > tol:
        fail("{}: {!r} at {!r} m, but {!r} when asked alone in metres "
             "(tolerance {:.3g})", what, got, metres, value, tol)


def check_own_ends(case, mat, env, Spectrum):
    """bounds and rows, asked in the unit of the data: scalar and array"""
    ranges = reqs.parts(case["desc"])
    if len(ranges) != 1 or case["wrap"] in ('effective', 'extrapolate'):
        return
    own = ranges[0]
    values = [own["lo"], own["hi"], own["hi"], own["lo"]]
    if "x" in case["desc"]:
        values += [float(x) for x in case["desc"]["x"][:3]]
    env.label("bounds")
    for call in (mat.get_nk_data, mat.get_permittivity):
        spec = Spectrum(values, spectrum_type=own["type"], unit=own["unit"])
        array = np.asarray(call(spec))
        for i, value in enumerate(values):
            alone = complex(call(float(value), spectrum_type=own["type"],
                                 unit=own["unit"]))
            ensure(identical(complex(array[i]), alone) or
                   abs(array[i] - alone) <= 1e-11 * abs(alone),
                   "{!r} alone gives {!r}, in company {!r}", value, alone,
                   array[i])


# --------------------------------------------------------------------------
# spectral data objects
# --------------------------------------------------------------------------

@st.composite
def data_case(draw):
    desc = draw(st.one_of(mats.table(kinds=('tab_n',)),
                          mats.n_model(max_terms=3), mats.eps_model(),
                          mats.fixed()))
    return {"desc": desc, "extra": draw(st.booleans()),
            "points": draw(st.lists(st.floats(0.02, 0.98), min_size=2,
                                    max_size=5)),
            "reps": draw(st.lists(gens.rep(), min_size=1, max_size=3)),
            "perm": draw(st.integers(0, 7))}


def check_data(case, env):
    """SpectralData.evaluate: units, order, scalars, repetition"""
    import dispersion
    from dispersion import Spectrum
    desc = case["desc"]
    kind = desc["kind"]
    if kind.startswith("fixed"):
        data = dispersion.Constant(float(desc["re"]))
        low, high = reqs.FREE
    elif kind == "model":
        data = getattr(dispersion.spectral_data, desc["name"])(
            np.array(desc["par"]), tuple(mats.ends(desc)),
            spectrum_type=desc["type"], unit=desc["unit"])
        low, high = mats.bounds_metres(desc)
    else:
        data = dispersion.Interpolation(mats.array_of(desc),
                                        spectrum_type=desc["type"],
                                        unit=desc["unit"])
        low, high = mats.bounds_metres(desc)
        if case["extra"]:
            own = reqs.parts(desc)[0]
            data = dispersion.Extrapolation(
                data, Spectrum(own["hi"] * 1.3, spectrum_type=desc["type"],
                               unit=desc["unit"]), spline_order=1)
            env.label("extrapolation")
    env.label(kind)
    if too_narrow(low, high):
        env.label("too narrow")
        return
    metres = [low * (high / low) ** t for t in case["points"]]
    refs = []
    for m in metres:
        value = complex(data.evaluate(Spectrum(m)))
        delta = blur(m)
        around = [complex(data.evaluate(Spectrum(m * (1.0 + s * delta))))
                  for s in (-1.0, 1.0)]
        refs.append((value, 3.0 * max(abs(a - value) for a in around) +
                     1e-11 * abs(value) + 1e-13))
    order = mats.permute(list(range(len(metres))), case["perm"])
    for rep in case["reps"]:
        values = [ora.from_metres(metres[i], rep["type"], rep["unit"])
                  for i in order]
        spec = Spectrum(np.array(values), spectrum_type=rep["type"],
                        unit=rep["unit"])
        got = np.asarray(data.evaluate(spec))
        ensure(got.shape == (len(values),), "shape {}", got.shape)
        ensure(np.array_equal(np.asarray(spec.values), np.array(values)) and
               spec.spectrum_type == rep["type"].lower(),
               "the request changed")
        for position, i in enumerate(order):
            compare(complex(got[position]), refs[i], metres[i], "evaluate")
            alone = data.evaluate(Spectrum(values[position],
                                           spectrum_type=rep["type"],
                                           unit=rep["unit"]))
            ensure(np.ndim(alone) == 0, "scalar request gave {!r}", alone)
            compare(complex(alone), refs[i], metres[i], "evaluate scalar")
        again = np.asarray(data.evaluate(spec))
        ensure(np.array_equal(got, again, equal_nan=True), "repetition gave "
               "{!r} instead of {!r}", again, got)


FACETS = [
    Facet("material", case_strategy, check, lambda case, labels: "too narrow" not in labels, 1100,
          16000, shards=6),
    Facet("data", data_case, check_data, lambda case, labels: "too narrow" not in labels, 600, 8000,
          shards=2),
]
