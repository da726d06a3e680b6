"""C18: what may be created and what is refused"""
import os
import pathlib

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail

RULE = ("a case counts if its outcome (accepted, ValueError, TypeError or "
        "refused) follows from the rules; distinct by its full JSON "
        "description")
ASSUMPTIONS = ["spectrum types and units are given as strings",
               "where two rules are broken at once either error will do",
               "models are refused by any exception for an unknown name"]

EXCLUSIVE = ["file_path", "fixed_n", "fixed_nk", "fixed_eps_r", "fixed_eps",
             "tabulated_n", "tabulated_nk", "tabulated_n_alpha",
             "tabulated_eps", "model_kw"]
COLUMNS = {"tabulated_n": 2, "tabulated_nk": 3, "tabulated_n_alpha": 3,
           "tabulated_eps": 3}

# values by name; every entry of WRONG is of the wrong type for its argument
VALUES = {
    "int": lambda: 2, "bool": lambda: True, "str": lambda: "1.5",
    "float": lambda: 1.5, "npfloat": lambda: np.float64(1.5),
    "complex": lambda: 1.5 + 0.25j, "npcomplex": lambda: np.complex128(2 + 1j),
    "list": lambda: [[400.0, 1.5, 0.1], [800.0, 1.6, 0.2]],
    "tuple": lambda: ((400.0, 1.5), (800.0, 1.6)),
    "dict": lambda: {"name": "Cauchy"}, "set": lambda: {1.5},
    "bytes": lambda: b"x.yml", "npint": lambda: np.int64(2),
    "path": lambda: pathlib.Path("x.yml"), "array": lambda: np.array([1.5]),
    "array0": lambda: np.array(1.5), "object": object,
    "none list": lambda: [None], "empty dict": dict, "empty list": list,
    "zero": lambda: 0, "false": lambda: False, "empty str": str,
    "type": lambda: float, "range": lambda: range(3)}

ANY = sorted(VALUES)
RIGHT = {"file_path": ("str", "empty str"), "fixed_n": ("float", "npfloat"),
         "fixed_eps_r": ("float", "npfloat"),
         "fixed_nk": ("complex", "npcomplex"),
         "fixed_eps": ("complex", "npcomplex"),
         "model_kw": ("dict", "empty dict"),
         "spectrum_type": ("str", "empty str"), "unit": ("str", "empty str"),
         "interp_order": ("int", "bool", "zero", "false")}
for _name in COLUMNS:
    RIGHT[_name] = ("array", "array0")
WRONG = {name: [v for v in ANY if v not in right]
         for name, right in RIGHT.items()}


# --------------------------------------------------------------------------
# arguments of a material
# --------------------------------------------------------------------------

@st.composite
def argument(draw, name):
    """how one exclusive argument is given: None, or a description"""
    kind = draw(st.sampled_from(["good", "good", "good", "wrong", "shape"]))
    if kind == "wrong":
        return {"wrong": draw(st.sampled_from(WRONG[name]))}
    if kind == "shape" and name in COLUMNS:
        shape = draw(st.sampled_from(
            [[3], [2], [1, 1], [2, 1], [2, 4], [3, 5], [5, 2], [4, 3], [2, 2],
             [3, 3], [2, 3], [3, 2], [2, 3, 1], [1, 2, 3], [2, 2, 2], [],
             [1, 4], [1, 3], [1, 2]]))
        return {"shape": shape}
    return {"good": draw(good(name))}


@st.composite
def good(draw, name):
    """description of a valid material given by this argument"""
    if name == "model_kw":
        return draw(st.one_of(mats.n_model(max_terms=2),
                              mats.eps_model(names=['Drude',
                                                    'DrudeLorentz'])))
    if name == "file_path" or name in COLUMNS:
        kind = {"tabulated_n": "tab_n", "tabulated_nk": "tab_nk",
                "tabulated_n_alpha": "tab_n_alpha",
                "tabulated_eps": "tab_eps", "file_path": "tab_nk"}[name]
        return draw(mats.table(kinds=(kind,), max_rows=4))
    desc = draw(mats.fixed())
    desc["kind"] = name
    return desc


@st.composite
def material_case(draw):
    count = draw(st.sampled_from([0, 1, 1, 1, 1, 1, 1, 2, 2, 3]))
    names = draw(st.permutations(EXCLUSIVE))
    given = {name: draw(argument(name)) for name in names[:count]}
    nones = [name for name in names[count:] if draw(st.integers(0, 2)) == 0]
    case = {"given": given, "none": nones,
            "order": draw(st.integers(0, 5)), "other": {}}
    for name in ("spectrum_type", "unit", "interp_order"):
        kind = draw(st.integers(0, 7))
        if kind == 0:
            case["other"][name] = {"wrong": draw(st.sampled_from(
                WRONG[name]))}
        elif kind == 1:
            case["other"][name] = None
    return case


def value_of(name, item, env):
    """the argument itself"""
    if "wrong" in item:
        return VALUES[item["wrong"]]()
    if "shape" in item:
        size = int(np.prod(item["shape"])) if item["shape"] else 1
        return np.arange(1.0, size + 1.0).reshape(item["shape"])
    desc = item["good"]
    if name == "model_kw":
        return mats.model_kw(desc)
    if name in COLUMNS:
        return mats.array_of(desc)
    if name == "file_path":
        path = os.path.join(env.fresh_dir(), "x.yml")
        with open(path, "w", encoding="utf8") as fpt:
            fpt.write("DATA:\n  - DataType: tabulated nk\n    SpectrumType: "
                      "{}\n    Unit: '{}'\n    Data: |\n".format(
                          desc["type"], desc["unit"]))
            for row in mats.array_of(desc):
                fpt.write("        {!r} {!r} {!r}\n".format(
                    *[float(v) for v in row]))
        return path
    if name in ("fixed_n", "fixed_eps_r"):
        return float(desc["re"])
    return complex(desc["re"], desc["im"])


def outcome(case):
    """set of allowed outcomes, or None if the rules do not say"""
    errors = set()
    given = case["given"]
    if len(given) != 1:
        errors.add("ValueError")
    for name, item in list(given.items()) + list(case["other"].items()):
        if item is None:
            continue
        if "wrong" in item:
            errors.add("TypeError")
        if "shape" in item and (len(item["shape"]) != 2 or
                                item["shape"][1] != COLUMNS[name]):
            errors.add("ValueError")
    return errors or {"accepted"}


def check_material(case, env):
    """accepted or refused as the rules say"""
    from dispersion import Material, Spectrum
    allowed = outcome(case)
    kwargs = {}
    for name in case["none"]:
        kwargs[name] = None
    own = None
    for name, item in case["given"].items():
        kwargs[name] = value_of(name, item, env)
        own = item.get("good")
    for name, item in case["other"].items():
        kwargs[name] = None if item is None else VALUES[item["wrong"]]()
    if own is not None and "type" in own:
        for name, key in (("spectrum_type", "type"), ("unit", "unit")):
            if name not in case["other"]:
                kwargs[name] = own[key]
            elif case["other"][name] is None and any(
                    n in COLUMNS for n in case["given"]):
                # without the unit of the table its values mean nothing else
                kwargs[name] = own[key]
    names = mats.permute(sorted(kwargs), case["order"])
    kwargs = {name: kwargs[name] for name in names}
    shown = {name: (v if not isinstance(v, np.ndarray) else
                    "array {}".format(v.shape)) for name, v in kwargs.items()}
    try:
        mat = Material(**kwargs)
    except (ValueError, TypeError) as exc:
        kind = "TypeError" if isinstance(exc, TypeError) else "ValueError"
        ensure(kind in allowed, "{} for {!r}: {}; expected {}", kind, shown,
               str(exc)[:200], sorted(allowed))
        env.label("refused")
        env.label("+".join(sorted(allowed)))
        return
    ensure("accepted" in allowed, "{!r} was accepted, expected {}", shown,
           sorted(allowed))
    env.label("accepted")
    for name, item in case["given"].items():
        if "shape" in item:
            return
        env.label(name)
        desc = dict(item["good"])
        low, high = mats.bounds_metres(desc)
        if not np.isfinite(high):
            low, high = 1e-7, 1e-6
        metre = (low * high) ** 0.5
        want = mats.expected_eps(desc, metre)
        got = complex(mat.get_permittivity(Spectrum(float(metre))))
        if want is not None:
            ensure(reqs.near(got, want[0], want[1]),
                   "{!r} gave permittivity {!r}, expected {!r}", shown, got,
                   want[0])


# --------------------------------------------------------------------------
# model names and units
# --------------------------------------------------------------------------

UNKNOWN = ["sellmeier", "Sellmeier3", "", "np", "Spectrum", "SpectralData",
           "Constant", "Interpolation", "Extrapolation", "Model", "interp1d",
           "object", "dict", "float", "__name__", "__doc__", "constants",
           "Lorentz", "Forouhi", "Sellmeier ", "drude", "TAUCLORENTZ",
           "Material", "os", "print", "10", "formula 1"]


@st.composite
def model_case(draw):
    desc = draw(st.one_of(mats.n_model(max_terms=2), mats.eps_model()))
    rep = draw(st.one_of(gens.rep(), st.just({"type": desc["type"],
                                              "unit": desc["unit"]}),
                         near_rep()))
    return {"desc": desc, "rep": rep,
            "name": draw(st.one_of(st.none(), st.none(), st.none(),
                                   st.sampled_from(UNKNOWN),
                                   st.text("abcDELrz_019", max_size=8))),
            "via": draw(st.sampled_from(["argument", "argument", "class",
                                         "model file", "formula file"])),
            "swap": draw(st.booleans()),
            "number": draw(st.sampled_from([None, None, 0, 10, 11, -1, 99]))}


@gens.cached
def near_rep():
    """a pair that does not exist"""
    return st.sampled_from([{"type": t, "unit": u} for t, u in [
        ("energy", "um"), ("wavelength", "ev"), ("wavelength", "mm"),
        ("energy", "mev"), ("energy", "j"), ("frequency", "thz"),
        ("wavelenght", "um"), ("photon energy", "ev"), ("wavelength", ""),
        ("", "um"), ("wavelength", "1/cm"), ("wavenumber", "cm"),
        ("wavelength", "\u03bcm")]])


def known_model(name):
    """names of models that define optical constants"""
    return name in mats.N_MODELS or name in mats.EPS_MODELS


def check_model(case, env):
    """only known names in the unit they require"""
    import dispersion.spectral_data as spectral_data
    from dispersion import Material, Spectrum
    desc, rep, via = dict(case["desc"]), case["rep"], case["via"]
    own = {"type": desc["type"], "unit": desc["unit"]}
    valid_unit = rep["unit"].lower() in ora.TO_CANONICAL and reqs.same(own,
                                                                       rep)
    name = desc["name"]
    if case["name"] is not None and via in ("argument", "model file"):
        name = case["name"]
    if via == "model file" and name.split() != [name]:
        # (white space at the end of the line says nothing)
        env.label("skipped")
        return
    number = mats.FORMULA.get(name)
    if via == "formula file":
        if number is None:
            via = "model file"
        elif case["number"] is not None:
            number = case["number"]
    good_name = known_model(name) and (
        via != "formula file" or number == mats.FORMULA.get(name))
    ok = good_name and valid_unit
    desc["type"], desc["unit"] = rep["type"], rep["unit"]

    def make():
        if via == "argument":
            kwargs = {"model_kw": dict(mats.model_kw(desc), name=name)}
            if case["swap"]:
                kwargs.update(spectrum_type=rep["type"], unit=rep["unit"])
            return Material(**kwargs)
        if via == "class":
            return getattr(spectral_data, name)(
                np.array(desc["par"]), np.array(desc["range"]),
                spectrum_type=rep["type"], unit=rep["unit"])
        path = os.path.join(env.fresh_dir(), "m.yml")
        head = "model " + name if via == "model file" else \
            "formula {}".format(number)
        with open(path, "w", encoding="utf8") as fpt:
            fpt.write("DATA:\n  - DataType: {}\n    ValidRange: {!r} {!r}\n"
                      "    SpectrumType: '{}'\n    Unit: '{}'\n"
                      "    Parameters: '{}'\n".format(
                          head, desc["range"][0], desc["range"][1],
                          rep["type"], rep["unit"],
                          " ".join(repr(float(p)) for p in desc["par"])))
        return Material(file_path=path)
    if via.endswith("file") and not ok and good_name and not (
            rep["type"] and rep["unit"]):
        env.label("skipped")  # an empty entry counts as not given in a file
        return
    if not ok:
        try:
            make()
        except Exception as exc:
            if good_name:
                ensure(isinstance(exc, ValueError), "{} in {} {} as {}: {!r}",
                       name, rep["type"], rep["unit"], via, exc)
            env.label("refused unit" if good_name else "refused name")
            env.label(via)
            return
        fail("model {!r} ({}) in {!r} {!r} was accepted as {}", name, number,
             rep["type"], rep["unit"], via)
    made = make()
    env.label("accepted")
    env.label(via)
    env.label(name)
    middle = float((desc["range"][0] * desc["range"][1]) ** 0.5)
    spec = Spectrum(middle, spectrum_type=rep["type"], unit=rep["unit"])
    if via == "class":
        made.evaluate(spec)
        return
    metre = ora.to_metres(middle, rep["type"], rep["unit"])
    want = mats.expected_eps(case["desc"], metre)
    if want is not None:
        got = complex(made.get_permittivity(spec))
        ensure(reqs.near(got, want[0], want[1]), "{} via {}: {!r}, expected "
               "{!r}", name, via, got, want[0])


# --------------------------------------------------------------------------
# spectra
# --------------------------------------------------------------------------

BAD_TYPES = ["wavelenght", "", " wavelength", "wavelength ", "waveLength2",
             "energy_", "angular frequency", "angular_frequency", "omega",
             "photonenergy", "wave number", "wavenumbers", "lambda", "m", "ev",
             "period", "none"]
BAD_UNITS = ["", "mm", "km", "nms", " nm", "nm ", "n m", "\u03bcm", "\u00e5",
             "\u212b", "angstroms", "thz", "ghz", "mev", "kev", "j", "1/m",
             "1/nm", "cm-1", "cm^-1", "rad", "s", "1/ s", "nanometers",
             "micron", "metres", "wavelength", "none", "1", "electron volt"]
BAD_VALUES = ["int", "bool", "str", "complex", "npcomplex", "dict", "set",
              "bytes", "npint", "object", "empty dict", "zero", "false",
              "empty str", "type", "range", "none", "path"]


@st.composite
def names_case(draw):
    """a spectrum type and a unit, good or not"""
    kind = draw(st.sampled_from(["good", "good", "type", "unit", "foreign",
                                 "foreign", "text"]))
    rep = draw(gens.rep())
    if kind == "type":
        rep["type"] = draw(st.sampled_from(BAD_TYPES))
    elif kind == "unit":
        rep["unit"] = draw(st.sampled_from(BAD_UNITS))
    elif kind == "foreign":
        rep["unit"] = draw(gens.rep())["unit"]
    elif kind == "text":
        key = draw(st.sampled_from(["type", "unit"]))
        rep[key] = draw(st.text("acehmnrstuvz1/ ", max_size=4))
    return rep


def valid_rep(rep):
    """the unit belongs to the type"""
    units = ora.CANONICAL.get(rep["type"].lower())
    if units is None:
        return False
    return ora.TO_CANONICAL.get(rep["unit"].lower()) in units


@st.composite
def spectrum_case(draw):
    rep = draw(names_case())
    return {"rep": rep, "default": draw(st.sampled_from(
        ["", "", "", "", "unit", "both"])),
            "bad": draw(st.one_of(st.none(), st.none(),
                                  st.sampled_from(BAD_VALUES))),
            "container": draw(st.sampled_from(gens.CONTAINERS)),
            "ints": draw(st.integers(0, 4)) == 0,
            "x": draw(st.lists(gens.log_between(1e-3, 1e4), min_size=1,
                               max_size=4))}


def check_spectrum(case, env):
    """constructor"""
    from dispersion import Spectrum
    rep = dict(case["rep"])
    kwargs = {"spectrum_type": rep["type"], "unit": rep["unit"]}
    if case["default"]:
        del kwargs["unit"]
        rep["unit"] = "m"
    if case["default"] == "both":
        del kwargs["spectrum_type"]
        rep["type"] = "wavelength"
    if case["bad"] is not None:
        values = None if case["bad"] == "none" else VALUES[case["bad"]]()
    else:
        xs = [int(x) + 1 for x in case["x"]] if case["ints"] and \
            case["container"] in ("list", "tuple") else case["x"]
        values = gens.pack(xs, case["container"])
    good = valid_rep(rep) and case["bad"] is None
    try:
        spec = Spectrum(values, **kwargs)
    except ValueError as exc:
        ensure(not good, "{!r} {!r} refused: {}", values, rep, exc)
        env.label("refused")
        env.label("bad value" if case["bad"] else "bad name")
        return
    ensure(good, "spectrum of {!r} with {!r} was accepted", values, rep)
    env.label("accepted")
    first = np.atleast_1d(spec.convert_to('wavelength', 'm'))
    want = [ora.to_metres(x, rep["type"], rep["unit"])
            for x in np.atleast_1d(values)]
    ensure(np.allclose(first, want, rtol=1e-11, atol=0.0),
           "{!r} {!r} is {!r} m", values, rep, first)


@st.composite
def convert_case(draw):
    return {"rep": draw(gens.rep()), "to": draw(names_case()),
            "in_place": draw(st.booleans()),
            "container": draw(st.sampled_from(gens.CONTAINERS)),
            "t": draw(st.lists(gens.unit_float(), min_size=1, max_size=4)),
            "again": draw(st.one_of(st.none(), names_case()))}


def facts(spec):
    """everything observable about a spectrum"""
    return (np.array(spec.values).tolist(), type(spec.values).__name__,
            spec.spectrum_type, spec.unit,
            np.array(spec.convert_to('wavelength', 'nm')).tolist(),
            np.array(spec.convert_to('energy', 'ev')).tolist(),
            spec.get_type_unit_string())


def check_convert(case, env):
    """conversion to existing units only; a refused one changes nothing"""
    from dispersion import Spectrum
    rep = case["rep"]
    metres = [1e-8 * 1e5 ** t for t in case["t"]]
    values = [ora.from_metres(m, rep["type"], rep["unit"]) for m in metres]
    spec = Spectrum(gens.pack(values, case["container"]),
                    spectrum_type=rep["type"], unit=rep["unit"])
    for target in (case["to"], case["again"]):
        if target is None:
            continue
        before = facts(spec)
        good = valid_rep(target)
        try:
            result = spec.convert_to(target["type"], target["unit"],
                                     in_place=case["in_place"])
        except ValueError as exc:
            ensure(not good, "conversion to {!r} refused: {}", target, exc)
            ensure(facts(spec) == before, "a refused conversion to {!r} "
                   "changed the spectrum from {} to {}", target, before,
                   facts(spec))
            env.label("refused")
            continue
        ensure(good, "conversion to {!r} was accepted", target)
        env.label("accepted")
        if case["in_place"]:
            ensure(result is None and spec.unit == ora.canonical(
                target["unit"]), "in place: {!r} {}", result, spec.unit)
        else:
            ensure(facts(spec) == before, "conversion to {!r} changed the "
                   "spectrum", target)


FACETS = [
    Facet("arguments", material_case, check_material,
          lambda case, labels: bool(labels), 1600, 60000, shards=3),
    Facet("models", model_case, check_model,
          lambda case, labels: "skipped" not in labels, 700, 30000, shards=2),
    Facet("spectra", spectrum_case, check_spectrum,
          lambda case, labels: bool(labels), 900, 30000),
    Facet("conversions", convert_case, check_convert,
          lambda case, labels: bool(labels), 900, 30000, shards=2),
]
