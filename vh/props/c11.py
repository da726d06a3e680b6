"""C11: text files"""
import os

from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import mats
from vh import reqs
from vh.core import Facet, ensure, fail
from vh.props import c10

RULE = ("a case counts if a table is written, loaded and compared point by "
        "point, or a material that is no single table has to be refused; "
        "distinct by its full JSON description")
ASSUMPTIONS = ["tables have at least two rows and order 1",
               "metadata is one line of printable text without white space "
               "at its ends; no line of the meta comment looks like a "
               "metadata entry"]
EXTENSIONS = ['.txt', '.csv', '.nk']


@st.composite
def case_strategy(draw, extension):
    if draw(st.integers(0, 4)) == 0:
        desc = draw(mats.table(kinds=('tab_n',), shuffle=False, big=0.1))
        desc["kind"] = "tab_k"
    else:
        desc = draw(mats.table(kinds=('tab_n', 'tab_nk', 'tab_eps', 'tab_nk',
                                      'tab_n_alpha'), big=0.12))
    return {"desc": desc, "meta": draw(files.metadata(yaml=False)),
            "req": draw(reqs.request(desc, long=0.05)),
            "file": draw(files.file_name()),
            "extensions": [extension] + draw(st.lists(
                st.sampled_from(EXTENSIONS + ['.yml']), max_size=2)),
            "defaults": draw(st.one_of(st.none(), gens.rep())),
            "print": draw(files.print_settings()),
            "locale": draw(st.integers(0, 3)) == 0,
            "exists": draw(st.booleans()),
            "numpy": draw(st.integers(0, 4)) == 0,
            "twice": draw(st.integers(0, 4)) == 0,
            "changed": draw(st.sampled_from(["", "", "", "no absorption"]))}


def check(case, env):
    """write, load, compare; again in another format"""
    from dispersion import Writer
    desc, meta = case["desc"], case["meta"]
    mat = files.build(desc, env)
    files.set_metadata(mat, meta, case.get("numpy"))
    if case["changed"] and desc["kind"] in ('tab_n', 'tab_nk', 'tab_eps'):
        mat.remove_absorption()
        env.label(case["changed"])
    env.label(desc["kind"])
    if len(desc["x"]) > 60:
        env.label("big")
    spec = reqs.as_spectrum(reqs.values_of(desc, case["req"]), case["req"])
    current = mat
    for cycle, extension in enumerate(case["extensions"]):
        before = c10.facts(current, spec)
        path = files.path_for(env, case, extension)
        if case["exists"]:
            files.write_text(path, "1000 1 1\n" * 500)
        with files.surroundings(case):
            writer = Writer(path, current)
            writer.write_file()
            if case.get("twice"):
                writer.write_file()
                env.label("written twice")
            ensure(c10.unchanged(before, c10.facts(current, spec)),
                   "writing changed the material")
            loaded = c10.load(path, case)
        what = "file {} ({})".format(cycle + 1, extension)
        files.compare(mat, loaded, desc, case["req"], what)
        files.same_representation(mat, loaded, what)
        files.check_metadata(loaded, meta, what, yaml=False)
        if cycle:
            env.label("again")
        current = loaded
    if meta:
        env.label("metadata")


@st.composite
def refused_case(draw):
    return {"desc": draw(st.one_of(mats.n_model(max_terms=3),
                                   mats.eps_model(), mats.mixed(),
                                   files.two_tables(), files.two_tables().map(
                                       lambda d: dict(d, eps=True)))),
            "at": draw(st.lists(gens.unit_float(), min_size=1, max_size=5)),
            "extension": draw(st.sampled_from(EXTENSIONS * 3 + [
                ".dat", ".xls", ".json", ""])),
            "old": draw(st.one_of(st.none(), st.sampled_from(
                ["", "400 1.5\n800 1.4\n", "keep me"])))}


def check_refused(case, env):
    """more than one table, or none"""
    from dispersion import Material, Writer
    desc = case["desc"]
    env.label(desc["kind"])
    mat = files.build(desc, env)
    folder = env.fresh_dir()
    path = os.path.join(folder, "x" + case["extension"])
    if case.get("old") is not None:
        files.write_text(path, case["old"])
    there = os.listdir(folder)
    try:
        Writer(path, mat).write_file()
    except Exception:
        ensure(os.listdir(folder) == there, "a refused {} file left {} "
               "instead of {}", case["extension"], os.listdir(folder), there)
        if there:
            with open(path, encoding="utf8") as fpt:
                now = fpt.read()
            ensure(now == case["old"], "refusing to write a {} changed the "
                   "existing file from {!r} to {!r}", desc["kind"],
                   case["old"], now)
            env.label("existing file kept")
        return
    ensure(case["extension"] in EXTENSIONS, "a file named {!r} was written",
           os.path.basename(path))
    if desc["kind"] == "two" and desc["n"]["x"] == desc["k"]["x"] and \
            reqs.same(desc["n"], desc["k"]):
        # two tables on the same grid may be written as one
        env.label("same grid")
        loaded = Material(file_path=path)
        files.compare(mat, loaded, desc, {
            "rep": {"type": desc["n"]["type"], "unit": desc["n"]["unit"]},
            "container": "array", "points": case["at"]}, "file")
        return
    fail("a {} was written to a {} file", desc["kind"], case["extension"])


FACETS = [
    Facet(ext[1:], lambda ext=ext: case_strategy(ext), check,
          lambda case, labels: True, 260, 5000, shards=2)
    for ext in EXTENSIONS] + [
    Facet("refused", refused_case, check_refused, lambda case, labels: True,
          120, 2000),
    Facet("derived", lambda: c10.derived_case(tuple(EXTENSIONS)),
          c10.check_derived, lambda case, labels: True, 100, 2000)]
