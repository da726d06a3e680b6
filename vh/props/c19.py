"""C19: histories over a pool of spectra and materials"""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure
from vh.props import c14

RULE = ("a case counts if at least six operations were carried out on a pool "
        "that held two or more materials, one of them explicitly modified or "
        "built from another; distinct by its full JSON description")
ASSUMPTIONS = ["objects are only compared through their public methods and "
               "attributes",
               "extrapolating may leave values outside the known range "
               "different, never those inside"]

WINDOW = (4e-7, 8e-7)  # every material of the pool covers this interval


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

@st.composite
def pool_table(draw):
    """a table that covers the window"""
    rep = draw(gens.rep())
    kind = draw(st.sampled_from(['tab_n', 'tab_nk', 'tab_eps', 'tab_n_alpha']))
    low = WINDOW[0] * draw(st.sampled_from([0.5, 0.8, 0.99]))
    high = WINDOW[1] * draw(st.sampled_from([1.01, 1.3, 2.5]))
    rows = draw(st.integers(3, 6))
    ratio = (high / low) ** (1.0 / (rows - 1))
    xs = sorted(ora.from_metres(low * ratio ** i, rep["type"], rep["unit"])
                for i in range(rows))
    return {"kind": kind, "type": rep["type"], "unit": rep["unit"], "x": xs,
            "re": [draw(st.floats(1.0, 4.0)) for _ in xs],
            "im": [draw(st.floats(0.0, 3.0)) for _ in xs],
            "order": draw(st.integers(0, 3))}


@st.composite
def pool_model(draw):
    """a model that covers the window"""
    if draw(st.booleans()):
        name = draw(st.sampled_from(['Sellmeier', 'Sellmeier2', 'Cauchy',
                                     'Polynomial', 'Gases', 'Herzberger']))
        par = {'Sellmeier': [0.1, 1.2, 0.1], 'Sellmeier2': [0.1, 1.2, 0.01],
               'Cauchy': [1.5, 0.01, -2.0], 'Polynomial': [2.2, 0.01, -2.0],
               'Gases': [0.0, 0.05, 200.0],
               'Herzberger': [1.5, 0.01, 0.001, -0.001, 1e-4, 1e-5]}[name]
        return {"kind": "model", "name": name, "par": par,
                "type": "wavelength", "unit": draw(st.sampled_from(
                    ["um", "micrometer"])), "range": [0.3, 1.1]}
    name = draw(st.sampled_from(['Drude', 'DrudeLorentz', 'TaucLorentz']))
    par = {'Drude': [9.0, 0.1], 'DrudeLorentz': [9.0, 0.5, 3.0, 0.4],
           'TaucLorentz': [100.0, 3.5, 1.5, 1.2, 1.0]}[name]
    return {"kind": "model", "name": name, "par": par, "type": "energy",
            "unit": "eV", "range": [1.0, 5.0]}


@gens.cached
def pool_material():
    """any kind"""
    return st.one_of(pool_table(), pool_table(), pool_model(), mats.fixed())


@gens.cached
@st.composite
def pool_spectrum(draw):
    """a spectrum inside the window, in any form"""
    return {"rep": draw(gens.rep()),
            "container": draw(st.sampled_from(['float', 'list', 'tuple',
                                               'array', 'array'])),
            "t": draw(st.lists(gens.unit_float(), min_size=2, max_size=5))}


OPS = (["spectrum", "material", "evaluate", "evaluate", "convert", "contains",
        "in place", "effective", "effective", "plot", "file", "file",
        "extrapolate", "extrapolate", "remove", "meta", "specification",
        "scribble", "scribble", "equal", "refused"])


@st.composite
def step(draw):
    op = draw(st.sampled_from(OPS))
    out = {"op": op, "a": draw(st.integers(0, 9)),
           "b": draw(st.integers(0, 9)), "s": draw(st.integers(0, 9))}
    if op == "spectrum":
        out["new"] = draw(pool_spectrum())
    elif op == "material":
        out["new"] = draw(pool_material())
    elif op in ("convert", "in place", "plot"):
        out["rep"] = draw(gens.rep())
    elif op == "effective":
        out["rule"] = draw(st.sampled_from(["Simple", "MaxwellGarnett",
                                            "Bruggeman"]))
        out["frac"] = draw(st.floats(0.0, 1.0))
    elif op == "file":
        out["ext"] = draw(st.sampled_from([".yml", ".txt"]))
    elif op == "extrapolate":
        out["factor"] = draw(st.sampled_from([0.25, 0.4, 3.0, 4.0]))
        out["order"] = draw(st.sampled_from([1, 2, 3]))
        out["rep"] = draw(gens.rep())
    elif op in ("meta", "specification"):
        out["key"] = draw(st.sampled_from(files.KEYS + ["MetaComment",
                                                        "Alias"]))
        out["text"] = draw(st.sampled_from(["x", "", "other text"]))
    elif op == "scribble":
        out["what"] = draw(st.sampled_from(["inputs", "inputs", "range",
                                            "nk", "eps", "values", "sample",
                                            "data"]))
    return out


@st.composite
def history_case(draw):
    return {"materials": draw(st.lists(pool_material(), min_size=1,
                                       max_size=3)),
            "spectra": draw(st.lists(pool_spectrum(), min_size=1,
                                     max_size=2)),
            "steps": draw(st.lists(step(), min_size=3, max_size=14))}


# --------------------------------------------------------------------------
# the pool
# --------------------------------------------------------------------------

class Pool():
    """objects with what they returned when they were created"""

    def __init__(self, env):
        from dispersion import Spectrum
        self.env = env
        self.Spectrum = Spectrum
        self.spectra = []
        self.materials = []
        metres = [WINDOW[0] * 2.0 ** t for t in (0.0, 0.31, 0.62, 1.0)]
        self.probe = metres
        self.modified = set()

    # -- spectra ----------------------------------------------------------
    def add_spectrum(self, desc):
        rep = desc["rep"]
        values = [ora.from_metres(WINDOW[0] * 2.0 ** (0.01 + 0.98 * t),
                                  rep["type"], rep["unit"])
                  for t in desc["t"]]
        given = gens.pack(values, desc["container"])
        spec = self.Spectrum(given, spectrum_type=rep["type"],
                             unit=rep["unit"])
        entry = {"spec": spec, "inputs": [given],
                 "copies": [copy.deepcopy(given)]}
        entry["facts"] = self.spectrum_facts(spec)
        self.spectra.append(entry)
        return entry

    def spectrum_facts(self, spec):
        return {"values": plain(spec.values), "type": spec.spectrum_type,
                "unit": spec.unit, "nm": plain(spec.convert_to('wavelength',
                                                               'nm')),
                "hz": plain(spec.convert_to('frequency', 'Hz')),
                "label": spec.get_type_unit_string()}

    # -- materials --------------------------------------------------------
    def add_material(self, desc):
        from dispersion import Material
        inputs = []
        kind = desc["kind"]
        if kind == "model":
            kwargs = {"model_kw": mats.model_kw(desc)}
            inputs = [kwargs["model_kw"]]
        elif kind.startswith("fixed"):
            value = float(desc["re"]) if kind in ("fixed_n", "fixed_eps_r") \
                else complex(desc["re"], desc["im"])
            kwargs = {kind: value}
        else:
            name = {'tab_n': 'tabulated_n', 'tab_nk': 'tabulated_nk',
                    'tab_eps': 'tabulated_eps',
                    'tab_n_alpha': 'tabulated_n_alpha'}[kind]
            kwargs = {name: mats.array_of(desc), "unit": desc["unit"],
                      "spectrum_type": desc["type"]}
            inputs = [kwargs[name]]
        copies = copy.deepcopy(inputs)
        entry = self.enter(Material(**kwargs), desc)
        entry["inputs"], entry["copies"] = inputs, copies
        return entry

    def enter(self, mat, desc):
        entry = {"mat": mat, "desc": desc, "inputs": [], "copies": []}
        entry["facts"] = self.material_facts(mat)
        self.materials.append(entry)
        return entry

    def material_facts(self, mat):
        spec = self.Spectrum(list(self.probe))
        scalar = self.Spectrum(500.0, unit='nm')
        return {"nk": plain(mat.get_nk_data(spec)),
                "eps": plain(mat.get_permittivity(spec)),
                "one": plain(mat.get_nk_data(scalar)),
                "range": plain(mat.get_maximum_valid_range()),
                "defaults": dict(mat.defaults),
                "meta": copy.deepcopy(mat.meta_data)}

    # -- checking ---------------------------------------------------------
    def check(self, what):
        """nothing moved"""
        for i, entry in enumerate(self.spectra):
            differs("spectrum {}".format(i), what, entry["facts"],
                    self.spectrum_facts(entry["spec"]))
            untouched("spectrum {}".format(i), what, entry)
        for i, entry in enumerate(self.materials):
            name = "material {} ({})".format(
                i, entry["desc"].get("name", entry["desc"]["kind"]))
            differs(name, what, entry["facts"],
                    self.material_facts(entry["mat"]))
            untouched(name, what, entry)

    def update(self, entry, keys):
        """accept the present facts of an object that was modified"""
        if "mat" in entry:
            now = self.material_facts(entry["mat"])
        else:
            now = self.spectrum_facts(entry["spec"])
        for key in keys:
            entry["facts"][key] = now[key]


def plain(values):
    """comparable copy of an array or number"""
    values = np.array(values)
    return (values.shape, values.tolist())


def equal(a, b):
    """the same, nan included"""
    return repr(a) == repr(b)


def differs(name, what, before, after):
    for key in before:
        ensure(equal(before[key], after[key]),
               "{}: {} of {} was {!r} and is {!r}", what, key, name,
               before[key], after[key])


def untouched(name, what, entry):
    for given, kept in zip(entry["inputs"], entry["copies"]):
        ensure(equal(given, kept), "{}: what {} was made from was {!r} and "
               "is {!r}", what, name, kept, given)


# --------------------------------------------------------------------------
# operations
# --------------------------------------------------------------------------

def pick(items, index):
    return items[index % len(items)]


def apply(pool, op, env):
    """carry out one operation; True if it did something"""
    a, b = pick(pool.materials, op["a"]), pick(pool.materials, op["b"])
    spectrum = pick(pool.spectra, op["s"])
    spec, kind = spectrum["spec"], op["op"]
    if kind == "spectrum":
        if len(pool.spectra) < 5:
            pool.add_spectrum(op["new"])
    elif kind == "material":
        if len(pool.materials) < 6:
            pool.add_material(op["new"])
    elif kind == "evaluate":
        a["mat"].get_nk_data(spec)
        a["mat"].get_permittivity(spec)
        a["mat"].get_sample_spectrum()
    elif kind == "convert":
        spec.convert_to(op["rep"]["type"], op["rep"]["unit"])
    elif kind == "contains":
        other = pick(pool.spectra, op["a"])["spec"]
        try:
            spec.contains(other)
        except ValueError:
            env.label("not contained")
    elif kind == "in place":
        spec.convert_to(op["rep"]["type"], op["rep"]["unit"], in_place=True)
        ensure(spec.unit == ora.canonical(op["rep"]["unit"]), "unit {}",
               spec.unit)
        pool.update(spectrum, ["values", "type", "unit", "label", "nm", "hz"])
        env.label("converted in place")
    elif kind == "effective":
        if len(pool.materials) >= 6 or np.ndim(spec.values) == 0:
            return False
        make_effective(pool, op, a, b, spectrum, env)
    elif kind == "plot":
        make_plot(op, a, spec)
    elif kind == "file":
        through_file(pool, op, a, env)
    elif kind == "extrapolate":
        extrapolate(pool, op, a, env)
    elif kind == "remove":
        a["mat"].remove_absorption()
        pool.update(a, ["nk", "eps", "one", "range"])
        env.label("modified")
    elif kind == "meta":
        a["mat"].meta_data[op["key"]] = op["text"]
        a["facts"]["meta"][op["key"]] = op["text"]
        env.label("modified")
    elif kind == "specification":
        if isinstance(a["mat"].meta_data.get("Specification"), dict):
            a["mat"].meta_data["Specification"][op["key"]] = op["text"]
            a["facts"]["meta"]["Specification"][op["key"]] = op["text"]
            env.label("modified")
    elif kind == "equal":
        ensure(a["mat"] == a["mat"], "a material does not equal itself")
        ensure((a["mat"] == b["mat"]) == (b["mat"] == a["mat"]),
               "equality depends on the order")
        ensure(not a["mat"] == 1.5, "a material equals a number")
    elif kind == "refused":
        refused(pool, a, spec)
    elif kind == "scribble":
        scribble(pool, op, a, spectrum, env)
    return True


def make_effective(pool, op, a, b, spectrum, env):
    """a new material from two others; covers only its spectrum"""
    import dispersion.material as module
    metres = [ora.to_metres(v, spectrum["spec"].spectrum_type,
                            spectrum["spec"].unit)
              for v in spectrum["spec"].values]
    full = pool.Spectrum(np.geomspace(WINDOW[0] * 0.999, WINDOW[1] * 1.001, 7))
    # alternately over a spectrum of the pool and over the whole window
    whole = op["s"] % 2 == 0 or len(set(metres)) < 2
    try:
        mat = getattr(module, op["rule"])(full if whole else spectrum["spec"],
                                          a["mat"], b["mat"], op["frac"])
    except ValueError:
        env.label("effective medium refused")
        return
    env.label("effective")
    if whole:
        pool.enter(mat, {"kind": op["rule"]})


def make_plot(op, a, spec):
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        if op["b"] % 2:
            a["mat"].plot_nk_data(values=spec.values,
                                  spectrum_type=spec.spectrum_type,
                                  unit=spec.unit)
        else:
            a["mat"].plot_permittivity(spectrum_type=op["rep"]["type"],
                                       unit=op["rep"]["unit"])
    finally:
        plt.close("all")


def through_file(pool, op, a, env):
    """write, load twice"""
    from dispersion import Material, Writer
    if a["desc"]["kind"].startswith("fixed") or a.get("extended"):
        return  # a file holds no constants or extrapolations
    if op["ext"] == ".txt" and a["desc"]["kind"] == "model":
        return
    path = os.path.join(env.fresh_dir(), "x" + op["ext"])
    Writer(path, a["mat"]).write_file()
    first = Material(file_path=path)
    second = Material(file_path=path)
    env.label("file " + op["ext"])
    for mat in (first, second):
        if len(pool.materials) < 6:
            pool.enter(mat, dict(a["desc"]))


def extrapolate(pool, op, a, env):
    """extends one material; values inside stay"""
    mat = a["mat"]
    if mat.data['complex'] is not None or a["desc"]["kind"] == "Bruggeman":
        return
    rep = op["rep"]
    metre = WINDOW[0] * op["factor"] if op["factor"] < 1.0 else \
        WINDOW[1] * op["factor"]
    limit = pool.Spectrum(float(ora.from_metres(metre, rep["type"],
                                                rep["unit"])),
                          spectrum_type=rep["type"], unit=rep["unit"])
    before = pool.spectrum_facts(limit)
    try:
        mat.extrapolate(limit, spline_order=op["order"])
    except ValueError:
        env.label("extrapolation refused")
        return
    finally:
        differs("the limit", "extrapolation", before,
                pool.spectrum_facts(limit))
    a["extended"] = True
    pool.update(a, ["range"])
    env.label("modified")
    env.label("extended")


def refused(pool, a, spec):
    """errors change nothing either"""
    for call in (lambda: a["mat"].get_nk_data(pool.Spectrum(1e-12)),
                 lambda: spec.convert_to("energy", "nm", in_place=True),
                 lambda: spec.convert_to("energie", "eV", in_place=True),
                 lambda: a["mat"].extrapolate(pool.Spectrum(5e-7))):
        try:
            call()
        except (ValueError, NotImplementedError):
            continue


def scribble(pool, op, a, spectrum, env):
    """overwrite arrays that were handed in or out"""
    what, spec, mat = op["what"], spectrum["spec"], a["mat"]
    probe = pool.Spectrum(list(pool.probe))
    target = None
    if what == "inputs":
        for entry in (a, spectrum):
            for given in entry["inputs"]:
                overwrite(given)
            entry["copies"] = copy.deepcopy(entry["inputs"])
        env.label("inputs overwritten")
        return
    if what == "range":
        target = mat.get_maximum_valid_range()
    elif what == "nk":
        target = mat.get_nk_data(probe)
    elif what == "eps":
        target = mat.get_permittivity(probe)
    elif what == "values":
        target = spec.convert_to(spec.spectrum_type, spec.unit)
        overwrite(target)
        target = spec.convert_to('wavelength', 'm')
    elif what == "sample":
        target = mat.get_sample_spectrum().values
    elif what == "data":
        for part in ("real", "imag", "complex"):
            if mat.data[part] is not None:
                overwrite(mat.data[part].evaluate(probe))
    overwrite(target)
    env.label("results overwritten")


def overwrite(target):
    """destroy the content of an array, list or dictionary of arrays"""
    if isinstance(target, np.ndarray):
        if target.flags.writeable and target.ndim:
            target[...] = -7
    elif isinstance(target, list):
        for i in range(len(target)):
            target[i] = -7.0
    elif isinstance(target, dict):
        for value in target.values():
            overwrite(value)
        target["name"] = "Nothing"


def check_history(case, env):
    """run a history"""
    pool = Pool(env)
    for desc in case["materials"]:
        pool.add_material(desc)
    for desc in case["spectra"]:
        pool.add_spectrum(desc)
    pool.check("creation")
    for number, op in enumerate(case["steps"]):
        what = "operation {} ({})".format(number, op["op"])
        apply(pool, op, env)
        pool.check(what)
        env.label(op["op"])
    if len(pool.materials) > 1:
        env.label("several")


# --------------------------------------------------------------------------
# materials from a catalogue
# --------------------------------------------------------------------------

@st.composite
def catalogue_case(draw):
    return {"user": draw(st.lists(c14.data("UserData"), min_size=1,
                                  max_size=3)),
            "rii": draw(st.lists(c14.data("RefractiveIndexInfo"),
                                 max_size=2)),
            "ref": 500.0, "file": "catalogue.csv",
            "aliases": draw(st.booleans()),
            "steps": draw(st.lists(st.fixed_dictionaries({
                "at": st.integers(0, 9),
                "by": st.sampled_from(["row", "alias"]),
                "do": st.sampled_from(["remove", "extrapolate", "meta",
                                       "specification", "write", "overwrite",
                                       "nothing"])}),
                min_size=2, max_size=8))}


def tree_content(root):
    """all files below a folder"""
    out = {}
    for folder, _, names in os.walk(root):
        for name in names:
            path = os.path.join(folder, name)
            with open(path, "rb") as fpt:
                out[os.path.relpath(path, root)] = fpt.read()
    return out


def check_catalogue(case, env):
    """what is done to a material never reaches the catalogue, the files or
    other materials of the same entry"""
    from dispersion import Spectrum, Writer
    world = c14.World(case, env)
    conf = copy.deepcopy(world.conf)
    if case["aliases"]:
        for i, row in enumerate(world.rows):
            world.cat.register_alias(i, "alias{}".format(i))
            row[1] = "alias{}".format(i)
        world.cat.save_to_file()
    before = world.frame()
    content = tree_content(world.root)
    pool = Pool(env)
    for number, op in enumerate(case["steps"]):
        at = op["at"] % len(world.rows)
        key, alias = world.rows[at]
        identifier = alias if op["by"] == "alias" and alias else at
        mat = world.material(identifier, key)
        what = "operation {} ({})".format(number, op["do"])
        entry = {"mat": mat, "desc": {"kind": "catalogue"}, "inputs": [],
                 "copies": [], "facts": pool.material_facts(mat)}
        pool.materials.append(entry)
        if op["do"] == "remove":
            mat.remove_absorption()
        elif op["do"] == "extrapolate":
            mat.extrapolate(Spectrum(2e-6), spline_order=1)
        elif op["do"] == "meta":
            mat.meta_data["Name"] = "changed"
            mat.meta_data["Comment"] = "changed"
        elif op["do"] == "specification":
            mat.meta_data["Specification"]["x"] = 1
        elif op["do"] == "write":
            Writer(os.path.join(env.fresh_dir(), "x.yml"), mat).write_file()
        elif op["do"] == "overwrite":
            overwrite(mat.get_maximum_valid_range())
            overwrite(mat.get_nk_data(Spectrum([4e-7, 6e-7])))
        entry["facts"] = pool.material_facts(mat) if op["do"] in (
            "remove", "extrapolate", "meta", "specification") else \
            entry["facts"]
        env.label(op["do"])
        pool.check(what)
        ensure(before.equals(world.cat.get_database()),
               "{}: the catalogue changed", what)
        world.material(identifier, key)
    ensure(tree_content(world.root) == content, "the database files changed")
    ensure(conf == world.conf, "the configuration changed from {} to {}",
           conf, world.conf)


FACETS = [
    Facet("histories", history_case, check_history,
          lambda case, labels: len(case["steps"]) >= 6 and "several" in labels
          and bool(labels & {"modified", "effective", "file .yml",
                             "file .txt"}), 1400, 30000, shards=7),
    Facet("catalogue", catalogue_case, check_catalogue,
          lambda case, labels: len(case["steps"]) > 2 and bool(
              labels & {"remove", "extrapolate", "meta", "specification"}),
          100, 4000),
]
