"""C10: YAML files"""
import copy
import os

import numpy as np
import yaml
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail
from vh.props import c07

RULE = ("a case counts if a material is written, loaded and compared point "
        "by point; distinct by its full JSON description")
ASSUMPTIONS = ["interpolation order 1; a table of one row counts as a constant",
               "metadata is printable text, in YAML also with line breaks",
               "models with integer parameters may differ by rounding"]

FILE_TABLES = ('tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha')


@st.composite
def material(draw):
    """description of a material a YAML file can hold"""
    kind = draw(st.sampled_from(['table', 'table', 'table', 'k', 'n_model',
                                 'n_model', 'eps_model', 'mixed', 'two']))
    if kind == 'table':
        return draw(mats.table(kinds=FILE_TABLES, big=0.12))
    if kind == 'k':
        desc = draw(mats.table(kinds=('tab_n',), shuffle=False))
        desc["kind"] = "tab_k"
        return desc
    if kind == 'n_model':
        return draw(mats.n_model(integers=draw(st.integers(0, 5)) == 0))
    if kind == 'eps_model':
        return draw(mats.eps_model())
    if kind == 'mixed':
        return draw(mats.mixed())
    return dict(draw(files.two_tables()), eps=draw(st.integers(0, 2)) == 0)


@st.composite
def case_strategy(draw):
    desc = draw(material())
    few = desc.get("name") == 'TaucLorentz'
    return {"desc": desc, "meta": draw(files.metadata()),
            "req": draw(reqs.request(desc, long=0.0 if few else 0.05)),
            "file": draw(files.file_name()),
            "defaults": draw(st.one_of(st.none(), gens.rep())),
            "print": draw(files.print_settings()),
            "locale": draw(st.integers(0, 3)) == 0,
            "exists": draw(st.booleans()),
            "cycles": draw(st.sampled_from([1, 1, 2, 3])),
            "constants": draw(st.integers(0, 3)) == 0,
            "numpy": draw(st.integers(0, 4)) == 0,
            "changed": draw(st.sampled_from(["", "", "", "no absorption"]))}


def all_float(desc):
    """a model without integer parameters"""
    parts = [desc["n"]] if desc["kind"] == "mixed" else [desc]
    return all(isinstance(p, float) for part in parts
               for p in part.get("par", []))


def load(path, case):
    """load with unrelated defaults"""
    from dispersion import Material
    rep = case.get("defaults")
    if rep is None:
        return Material(file_path=path)
    return Material(file_path=path, spectrum_type=rep["type"],
                    unit=rep["unit"])


def facts(mat, spec):
    """a snapshot"""
    return (np.array(mat.get_nk_data(spec)), copy.deepcopy(mat.meta_data),
            np.array(mat.get_maximum_valid_range()), dict(mat.defaults))


def unchanged(before, after):
    """the snapshots agree"""
    return (np.array_equal(before[0], after[0], equal_nan=True) and
            before[1] == after[1] and np.array_equal(before[2], after[2]) and
            before[3] == after[3])


def check(case, env):
    """write, load, compare; again"""
    from dispersion import Writer
    desc, meta = case["desc"], case["meta"]
    mat = files.build(desc, env)
    files.set_metadata(mat, meta, case.get("numpy"))
    if case.get("numpy") and meta:
        env.label("numpy metadata")
    if case["changed"] and desc["kind"] in ('tab_n', 'tab_nk', 'tab_eps'):
        mat.remove_absorption()
        env.label(case["changed"])
    env.label(desc.get("name", desc["kind"]))
    if len(desc.get("x", ())) > 60:
        env.label("big")
    spec = reqs.as_spectrum(reqs.values_of(desc, case["req"]), case["req"])
    current = mat
    for cycle in range(case["cycles"]):
        before = facts(current, spec)
        path = files.path_for(env, case, ".yml")
        if case["exists"]:
            files.write_text(path, "# old\nDATA: [1, 2, 3]\n" * 200)
        with files.surroundings(case):
            if case.get("constants"):
                Writer(path, current).write_file(ignore_constant=False)
                env.label("with constants")
            else:
                Writer(path, current).write_file()
            ensure(unchanged(before, facts(current, spec)),
                   "writing changed the material")
            loaded = load(path, case)
        what = "file {}".format(cycle + 1)
        files.compare(mat, loaded, desc, case["req"], what,
                      model=not all_float(desc))
        files.check_metadata(loaded, meta, what)
        if cycle:
            env.label("again")
        current = loaded
    if meta:
        env.label("metadata")
    if case["locale"]:
        env.label("C locale")


# --------------------------------------------------------------------------
# nothing but constants
# --------------------------------------------------------------------------

@st.composite
def constant_case(draw):
    if draw(st.booleans()):
        desc = draw(mats.fixed())
    else:
        desc = draw(mats.table(max_rows=2))
        desc = dict(desc, x=desc["x"][:1], re=desc["re"][:1],
                    im=desc["im"][:1])
    return {"desc": desc, "meta": draw(files.metadata()),
            "rep": draw(gens.rep()),
            "at": draw(st.lists(gens.log_between(1e-8, 1e-3), min_size=1,
                                max_size=3)),
            "defaults": draw(st.one_of(st.none(), gens.rep())),
            "file": draw(files.file_name()),
            "print": draw(files.print_settings()),
            "locale": draw(st.integers(0, 3)) == 0,
            "cycles": draw(st.integers(1, 3))}


def check_constant(case, env):
    """fixed values and tables of one row"""
    from dispersion import Spectrum, Writer
    desc, meta = case["desc"], case["meta"]
    mat = files.build(desc, env)
    files.set_metadata(mat, meta)
    env.label(desc["kind"])
    if desc["kind"].startswith("fixed"):
        rep = case["rep"]
        spec = Spectrum([ora.from_metres(m, rep["type"], rep["unit"])
                         for m in case["at"]], spectrum_type=rep["type"],
                        unit=rep["unit"])
    else:
        spec = Spectrum(desc["x"][0], spectrum_type=desc["type"],
                        unit=desc["unit"])
    wanted = [np.array(mat.get_nk_data(spec)),
              np.array(mat.get_permittivity(spec))]
    reach = files.physical_range(mat)
    current = mat
    for cycle in range(case["cycles"]):
        path = files.path_for(env, case, ".yml")
        before = facts(current, spec)
        if not cycle:
            files.write_text(path, "keep me")
            try:
                Writer(path, current).write_file()
            except ValueError:
                with open(path, encoding="utf8") as fpt:
                    ensure(fpt.read() == "keep me", "refusing to write a "
                           "constant changed the existing file")
                env.label("refused")
            else:
                fail("a material of constants only was written")
        with files.surroundings(case):
            Writer(path, current).write_file(ignore_constant=False)
            ensure(unchanged(before, facts(current, spec)),
                   "writing changed the material")
            loaded = load(path, case)
        what = "file {}".format(cycle + 1)
        same_constant(loaded, wanted, reach, spec, what)
        files.check_metadata(loaded, meta, what)
        current = loaded


def same_constant(loaded, wanted, reach, spec, what):
    """same values, same range"""
    for name, want in zip(("get_nk_data", "get_permittivity"), wanted):
        got = np.array(getattr(loaded, name)(spec))
        ensure(got.shape == want.shape and np.allclose(
            got, want, rtol=1e-15, atol=0.0), "{}: {} is {} instead of {}",
               what, name, got, want)
    now = files.physical_range(loaded)
    for a, b in zip(reach, now):
        ensure(a == b or abs(a - b) <= 3.0 * (
            1e-9 * a * a / ora.HC_EV + 1e-15 + 1e-12 * a),
               "{}: valid range {} m instead of {} m", what, now, reach)


# --------------------------------------------------------------------------
# effective media, and materials that have been extrapolated
# --------------------------------------------------------------------------

@st.composite
def derived_case(draw, extensions=(".yml",)):
    wrap = draw(st.sampled_from(["effective", "effective", "effective",
                                 "extrapolate"]))
    if wrap == "extrapolate":
        desc = draw(mats.table(kinds=('tab_n', 'tab_nk', 'tab_eps')))
    else:
        desc = draw(mats.any_material())
    text = extensions != (".yml",)
    return {"desc": desc, "wrap": wrap, "by": draw(st.floats(0.05, 0.6)),
            "medium": draw(st.sampled_from(['Simple', 'MaxwellGarnett',
                                            'Bruggeman'])),
            "at": draw(st.lists(st.floats(0.001, 0.999), min_size=1,
                                max_size=5)),
            "extension": draw(st.sampled_from(list(extensions))),
            "meta": draw(files.metadata(yaml=not text)),
            "defaults": draw(st.one_of(st.none(), gens.rep())),
            "print": draw(files.print_settings()),
            "cycles": draw(st.integers(1, 2))}


def check_derived(case, env):
    """written as what they have become, or not at all"""
    from dispersion import Spectrum, Writer
    mat, low, high = c07.build(case, env)
    files.set_metadata(mat, case["meta"])
    env.label(case["wrap"])
    points = [low * (high / low) ** t for t in case["at"]]
    if case["wrap"] == "effective":
        points += [float(x) for x in mat.spectrum.convert_to("wavelength",
                                                             "m")]
    spec = Spectrum(np.array(points))
    wanted = [np.array(mat.get_nk_data(spec)),
              np.array(mat.get_permittivity(spec))]
    reach = files.physical_range(mat)
    current = mat
    for cycle in range(case["cycles"]):
        path = files.path_for(env, case, case["extension"])
        files.write_text(path, "keep me")
        before = facts(current, spec)
        try:
            with files.surroundings(case):
                Writer(path, current).write_file()
        except Exception:
            if case["wrap"] == "effective":
                raise
            with open(path, encoding="utf8") as fpt:
                ensure(fpt.read() == "keep me", "refusing to write an "
                       "extrapolated material changed the existing file")
            env.label("refused")
            return
        ensure(unchanged(before, facts(current, spec)),
               "writing changed the material")
        loaded = load(path, case)
        what = "{} file {}".format(case["extension"], cycle + 1)
        for name, want in zip(("get_nk_data", "get_permittivity"), wanted):
            got = np.array(getattr(loaded, name)(spec))
            good = np.isfinite(want)
            ensure(got.shape == want.shape and np.allclose(
                got[good], want[good], rtol=1e-13, atol=1e-300), "{}: {} is "
                   "{} instead of {}", what, name, got, want)
        now = files.physical_range(loaded)
        for a, b in zip(reach, now):
            ensure(abs(a - b) <= 1e-13 * a, "{}: valid range {} m instead of "
                   "{} m", what, now, reach)
        files.check_metadata(loaded, case["meta"], what,
                             yaml=case["extension"] == ".yml")
        current = loaded


# --------------------------------------------------------------------------
# one writer, used more than once
# --------------------------------------------------------------------------

@st.composite
def writer_case(draw):
    kind = draw(st.sampled_from(["any", "constant", "rii", "rii"]))
    if kind == "any":
        desc = draw(material())
    elif kind == "constant":
        desc = draw(mats.fixed())
    else:
        desc = draw(alias_case())["desc"]
    call = st.fixed_dictionaries({
        "constants": st.booleans(),
        "rii": st.booleans() if kind == "rii" else st.just(False)})
    case = {"kind": kind, "desc": desc, "meta": draw(files.metadata()),
            "defaults": draw(gens.rep(types=['wavelength'], units=['um'])),
            "calls": draw(st.lists(call, min_size=2, max_size=4))}
    if kind == "constant":
        case["at"] = draw(st.lists(gens.log_between(1e-8, 1e-3), min_size=1,
                                   max_size=3))
    else:
        case["req"] = draw(reqs.request(desc))
    return case


def check_writer(case, env):
    """every file it writes holds the material"""
    from dispersion import Spectrum, Writer
    desc, meta = case["desc"], case["meta"]
    mat = files.build(desc, env)
    files.set_metadata(mat, meta)
    path = os.path.join(env.fresh_dir(), "x.yml")
    if case["kind"] == "constant":
        spec = Spectrum(np.array(case["at"]))
        wanted = [np.array(mat.get_nk_data(spec)),
                  np.array(mat.get_permittivity(spec))]
        reach = files.physical_range(mat)
    else:
        spec = reqs.as_spectrum(reqs.values_of(desc, case["req"]),
                                case["req"])
    before = facts(mat, spec)
    writer = Writer(path, mat)
    for number, call in enumerate(case["calls"]):
        text = "# old\n"
        if number % 2 == 0:
            files.write_text(path, text)
        else:
            with open(path, encoding="utf8") as fpt:
                text = fpt.read()
        what = "write {}".format(number + 1)
        if case["kind"] == "constant" and not call["constants"]:
            try:
                writer.write_file()
            except ValueError:
                with open(path, encoding="utf8") as fpt:
                    ensure(fpt.read() == text, "{}: refusing to write a "
                           "constant changed the existing file", what)
                env.label("refused")
                continue
            fail("{}: a material of constants only was written", what)
        writer.write_file(ignore_constant=not call["constants"],
                          use_rii_aliases=call["rii"])
        ensure(unchanged(before, facts(mat, spec)), "{} changed the material",
               what)
        loaded = load(path, case)
        if case["kind"] == "constant":
            same_constant(loaded, wanted, reach, spec, what)
        else:
            files.compare(mat, loaded, desc, case["req"], what,
                          model=not all_float(desc))
        files.check_metadata(loaded, meta, what)
        env.label("rii" if call["rii"] else "plain")
        if number:
            env.label("again")
    env.label(case["kind"])


# --------------------------------------------------------------------------
# refractiveindex.info names
# --------------------------------------------------------------------------

@st.composite
def alias_case(draw):
    kind = draw(st.sampled_from(['table', 'table', 'n_model', 'n_model',
                                 'mixed']))
    rep = draw(gens.rep(types=['wavelength'], units=['um']))
    if kind == 'table':
        desc = draw(mats.table(kinds=('tab_n', 'tab_nk', 'tab_eps'), rep=rep,
                               big=0.1))
    elif kind == 'n_model':
        desc = draw(mats.n_model())
    else:
        desc = draw(mats.mixed())
        tab = desc["k"]
        low, high = mats.bounds_metres(tab)
        xs = np.geomspace(low * 1e6, high * 1e6, len(tab["x"]))
        desc["k"] = dict(tab, type=rep["type"], unit=rep["unit"],
                         x=[float(x) for x in xs])
    return {"desc": desc, "meta": draw(files.metadata()),
            "req": draw(reqs.request(desc)),
            "defaults": draw(gens.rep(types=['wavelength'], units=['um'])),
            "print": draw(files.print_settings())}


def check_alias(case, env):
    """written for refractiveindex.info"""
    from dispersion import Writer
    desc, meta = case["desc"], case["meta"]
    mat = files.build(desc, env)
    files.set_metadata(mat, meta)
    env.label(desc.get("name", desc["kind"]))
    path = os.path.join(env.fresh_dir(), "x.yml")
    spec = reqs.as_spectrum(reqs.values_of(desc, case["req"]), case["req"])
    before = facts(mat, spec)
    with files.surroundings(case):
        Writer(path, mat).write_file(use_rii_aliases=True)
        ensure(unchanged(before, facts(mat, spec)),
               "writing changed the material")
        loaded = load(path, case)
    files.compare(mat, loaded, desc, case["req"], "file",
                  model=not all_float(desc))
    files.check_metadata(loaded, meta, "file")
    with open(path, encoding="utf8") as fpt:
        data = yaml.safe_load(fpt)
    parts = [desc["n"], desc["k"]] if desc["kind"] == "mixed" else [desc]
    ensure(len(data["DATA"]) == len(parts), "{} data sets instead of {}",
           len(data["DATA"]), len(parts))
    for part, dataset in zip(parts, data["DATA"]):
        names = {"type", "data"}
        if part["kind"] == "model":
            names = {"type", "coefficients", "wavelength_range"}
        ensure(names <= set(dataset), "keys {} instead of {}",
               sorted(dataset), sorted(names))
        if part["kind"] == "model":
            want = "formula {}".format(mats.FORMULA[part["name"]])
            ensure(dataset.get("type") == want,
                   "{} is written as {!r}, not {!r}", part["name"],
                   dataset.get("type"), want)


@st.composite
def model_case(draw, name):
    """every model both ways"""
    if name in mats.FORMULA:
        desc = draw(mats.n_model(names=[name],
                                 integers=draw(st.integers(0, 5)) == 0))
        rii = draw(st.booleans())
    else:
        desc, rii = draw(mats.eps_model(names=[name])), False
    case = {"desc": desc, "meta": draw(st.one_of(st.just({}),
                                                 files.metadata())),
            "req": draw(reqs.request(desc)), "rii": rii}
    if rii:
        case["defaults"] = draw(gens.rep(types=['wavelength'], units=['um']))
    else:
        case.update({"cycles": 2, "exists": False, "changed": "",
                     "locale": False})
    return case


def check_model(case, env):
    """one model"""
    if case["rii"]:
        env.label("rii")
        check_alias(case, env)
    else:
        check(case, env)


FACETS = [
    Facet("round_trip", case_strategy, check, lambda case, labels: True, 480,
          9000, shards=4),
    Facet("constants", constant_case, check_constant,
          lambda case, labels: True, 120, 2000),
    Facet("derived", derived_case, check_derived,
          lambda case, labels: True, 100, 2000),
    Facet("writer", writer_case, check_writer,
          lambda case, labels: "again" in labels, 80, 1500),
    Facet("rii", alias_case, check_alias, lambda case, labels: True, 200,
          3000, shards=2),
] + [
    Facet(name, lambda name=name: model_case(name), check_model,
          lambda case, labels: True, 24, 800)
    for name in mats.N_MODELS + mats.EPS_MODELS
]
