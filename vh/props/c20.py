"""C20: what is shown and printed is what is stored"""
import contextlib
import io
import os
import sys

from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import grid
from vh import mats
from vh import trees
from vh.core import Facet, ensure, fail
from vh.props import c14

if getattr(sys.modules.get("qgrid"), "show_grid", None) is not grid.show_grid:
    grid.install()

RULE = ("a case counts if a grid with at least one row was shown, a text was "
        "printed, or two different material objects were compared; distinct "
        "by its full JSON description")
ASSUMPTIONS = ["the package qgrid is replaced by a stand-in with its "
               "documented behaviour (it works on a copy, cells can be "
               "edited unless the option editable is False)",
               "aliases typed into the grid are unique and not empty"]

TEXTS = ["Name", "FullName", "Author", "Comment", "Reference"]


# --------------------------------------------------------------------------
# interactive catalogue
# --------------------------------------------------------------------------

@st.composite
def edit(draw):
    """what a user does in a grid"""
    what = draw(st.sampled_from(["text", "alias", "alias", "sort", "filter",
                                 "number"]))
    out = {"what": what, "at": draw(st.integers(0, 9))}
    if what == "text":
        out["column"] = draw(st.sampled_from(TEXTS))
        out["text"] = draw(files.line(8))
    elif what == "alias":
        out["text"] = draw(c14.alias())
    elif what == "number":
        out["value"] = draw(gens.unit_float())
    return out


@st.composite
def step(draw):
    """one operation"""
    op = draw(st.sampled_from(["view", "view", "edit", "edit", "edit", "save",
                               "save", "save", "register", "reopen", "set",
                               "get", "act"]))
    out = {"op": op, "at": draw(st.integers(0, 9))}
    if op in ("view", "edit", "act"):
        out["edits"] = draw(st.lists(edit(), max_size=3))
    elif op == "register":
        out["alias"] = draw(c14.alias())
    return out


@st.composite
def grid_case(draw):
    return {"enabled": draw(st.integers(0, 4)) != 0,
            "user": [draw(c14.data("UserData")) for _ in
                     range(draw(st.integers(1, 3)))], "rii": [],
            "steps": [draw(step()) for _ in range(
                draw(st.sampled_from([2, 4, 5, 6, 8, 10])))]}


class World():
    """catalogue, the grid last shown and models of both"""

    def __init__(self, case, env):
        self.env = env
        self.root = env.fresh_dir()
        self.tree, self.found = c14.tree_of(case)
        trees.write_tree(self.root, self.tree)
        self.conf = trees.config(
            self.root, [["UserData", True]],
            {"value": 500.0, "type": "wavelength", "unit": "nm"})
        self.conf["Interactive"] = case["enabled"]
        self.cat = self.open("All")
        self.rows = self.cat.get_database().copy(deep=True)
        ensure(len(self.rows) == len(case["user"]), "{} rows built",
               len(self.rows))
        self.cat.save_to_file()
        self.shown = None
        self.want = None

    def open(self, rebuild="None"):
        """a catalogue object"""
        from dispersion import Catalogue
        with contextlib.redirect_stdout(io.StringIO()):
            return Catalogue(config=self.conf, rebuild=rebuild)

    def check(self, what, index=True):
        """database as modelled"""
        c14.compare(self.cat.get_database(), self.rows, what, index)

    def run(self, item):
        """one step"""
        self.env.label(item["op"])
        getattr(self, "do_" + item["op"])(item)
        self.check("after " + item["op"])

    # ------------------------------------------------------------------
    def do_view(self, item):
        self.shown = self.cat.view_interactive()
        self.want = self.rows.copy(deep=True)
        self.look(False, "view_interactive")
        self.do_act(item)

    def do_edit(self, item):
        self.shown = self.cat.edit_interactive()
        self.want = self.rows.copy(deep=True)
        self.look(True, "edit_interactive")
        self.do_act(item)

    def look(self, editable, what):
        """the grid shows everything"""
        ensure(isinstance(self.shown, grid.Widget), "{} returned {!r}", what,
               self.shown)
        c14.compare(self.shown.df, self.want, what, True)
        ensure(self.shown.editable == editable, "{}: editable is {}", what,
               self.shown.editable)

    def do_act(self, item):
        """the user uses the grid"""
        if self.shown is None:
            return
        for action in item["edits"]:
            if not len(self.want):
                return
            at = action["at"] % len(self.want)
            what = action["what"]
            if what == "sort":
                order = mats.permute(list(range(len(self.want))),
                                     action["at"])
            elif what == "filter":
                order = [i for i in range(len(self.want))
                         if i != at or len(self.want) == 1]
            if what in ("sort", "filter"):
                self.want = self.want.iloc[order]
                self.shown.user_keeps(order)
                continue
            if what == "alias":
                column, value = "Alias", action["text"]
                if value in list(self.want.Alias):
                    continue
            elif what == "text":
                column, value = action["column"], action["text"]
            else:
                column, value = "N_Reference", action["value"]
            self.shown.user_edits(at, column, value)
            if self.shown.editable:
                self.want = self.want.copy(deep=True)
                self.want.iloc[at, list(self.want.columns).index(column)] = \
                    value
                self.env.label("edited " + what)

    def do_save(self, item):
        if self.shown is None:
            return
        self.cat.save_interactive()
        self.rows = self.want.copy(deep=True)
        self.check("after save_interactive")
        self.env.label("saved")

    def do_register(self, item):
        if not len(self.rows):
            return
        at = item["at"] % len(self.rows)
        if item["alias"] in list(self.rows.Alias):
            return
        self.cat.register_alias(self.cat.get_database().iloc[at:at + 1],
                                item["alias"])
        self.rows.iloc[at, list(self.rows.columns).index("Alias")] = \
            item["alias"]

    def do_reopen(self, item):
        self.cat.save_to_file()
        self.cat = self.open()
        self.check("after reopening", False)
        self.rows = self.cat.get_database().copy(deep=True)
        self.shown = None

    def do_set(self, item):
        order = mats.permute(list(range(len(self.rows))), item["at"])
        self.rows = self.rows.iloc[order].reset_index(drop=True)
        self.cat.set_database(self.rows.copy(deep=True))

    def do_get(self, item):
        for at in range(len(self.rows)):
            row = self.rows.iloc[at]
            value, _ = self.found[(row.Module, row.Path)]
            for name in (at, row.Alias):
                if name == "":
                    continue
                mat = self.cat.get_material(name)
                got = complex(mat.get_nk_data(500.0, "wavelength", "nm"))
                ensure(abs(got - value) < 1e-9, "looking up {!r} gave {} "
                       "instead of {}", name, got, value)


def check_grid(case, env):
    """grids, edits and saves in any order"""
    world = World(case, env)
    if not case["enabled"]:
        env.label("disabled")
        for item in case["steps"]:
            if item["op"] in ("view", "edit", "save"):
                refuse_disabled(world, item["op"])
            elif item["op"] in ("register", "reopen", "set", "get"):
                world.run(item)
        for name in ("view", "edit", "save"):
            refuse_disabled(world, name)
        return
    for item in case["steps"]:
        world.run(item)
    world.do_get({})
    world.do_reopen({})
    world.do_view({"edits": []})


def refuse_disabled(world, name):
    """not interactive"""
    try:
        getattr(world.cat, name + "_interactive")()
    except ValueError:
        world.check("after refusing " + name)
        return
    fail("{}_interactive did not raise ValueError", name)


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------

@st.composite
def text_case(draw):
    texts = st.one_of(files.line(), files.paragraph(), st.text(
        st.characters(exclude_categories=("Cs",)), max_size=20))
    return {"desc": draw(st.one_of(mats.fixed(), mats.table(max_rows=3))),
            "Reference": draw(texts), "Comment": draw(texts),
            "file": draw(st.integers(0, 3)) == 0}


def printed(call):
    """what a call prints"""
    out = io.StringIO(newline="")
    with contextlib.redirect_stdout(out):
        call()
    return out.getvalue()


def check_texts(case, env):
    """ASCII characters of reference and comment, in order"""
    from dispersion import Material, Writer
    mat = mats.build(case["desc"], env)
    mat.meta_data["Reference"] = case["Reference"]
    mat.meta_data["Comment"] = case["Comment"]
    if case["file"] and case["desc"]["kind"] in ("tab_n", "tab_nk",
                                                 "tab_eps"):
        env.label("file")
        path = os.path.join(env.fresh_dir(), "x.yml")
        try:
            Writer(path, mat).write_file()
            mat = Material(file_path=path)
        except Exception:  # odd control characters; what loads is C10
            pass
    for name, call in (("Reference", mat.print_reference),
                       ("Comment", mat.print_comment)):
        stored = mat.meta_data[name]
        want = "".join(c for c in stored if ord(c) < 128) + "\n"
        got = printed(call)
        ensure(got == want, "{} {!r} was printed as {!r} instead of {!r}",
               name, stored, got, want)
        ensure(mat.meta_data[name] == stored, "{} changed", name)
        if want != stored + "\n":
            env.label("not ascii")
        if stored:
            env.label("text")


# --------------------------------------------------------------------------
# comparing
# --------------------------------------------------------------------------

META = ["Reference", "Comment", "Name", "FullName", "Author", "Alias",
        "MetaComment"]


@st.composite
def equal_case(draw):
    desc = st.one_of(mats.fixed(), mats.table(max_rows=3),
                     mats.n_model(max_terms=2), mats.eps_model())
    text = st.sampled_from(["", "", "a", "b", "A", "a "])
    first = {"desc": draw(desc), "meta": {key: draw(text) for key in META},
             "spec": draw(st.sampled_from([{}, {"t": 1}, {"t": 2},
                                           {"t": 1, "u": [1, 2]}]))}
    second = {"desc": first["desc"] if draw(st.booleans()) else draw(desc),
              "meta": dict(first["meta"]), "spec": first["spec"]}
    for key in draw(st.lists(st.sampled_from(META), max_size=2)):
        second["meta"][key] = draw(text)
    if draw(st.integers(0, 4)) == 0:
        second["spec"] = draw(st.sampled_from([{}, {"t": 1}, {"t": 2}, {
            "t": 1, "u": [1, 3]}]))
    for item in (first, second):
        if draw(st.integers(0, 5)) == 0:
            item["medium"] = True
    return {"first": first, "second": second,
            "other": draw(st.sampled_from([None, 1, "a", 1.5, [], {}]))}


PERMITTIVITY = ("fixed_eps", "fixed_eps_r", "tab_eps")


def form(item):
    """n/k or permittivity"""
    desc = item["desc"]
    if item.get("medium"):
        return "eps"
    if desc["kind"] == "model":
        return "nk" if desc["name"] in mats.FORMULA else "eps"
    return "eps" if desc["kind"] in PERMITTIVITY else "nk"


def made(item, env):
    """material with metadata"""
    import copy
    if item.get("medium"):  # an effective medium is a permittivity
        from dispersion import Material, Spectrum
        from dispersion.material import Simple
        mat = Simple(Spectrum([4e-7, 5e-7]), Material(fixed_n=1.5),
                     Material(fixed_n=2.0), 0.5)
    else:
        mat = mats.build(item["desc"], env)
    mat.meta_data.update(item["meta"])
    mat.meta_data["Specification"] = copy.deepcopy(item["spec"])
    return mat


def check_equal(case, env):
    """equal exactly if metadata and form agree"""
    a, b = made(case["first"], env), made(case["second"], env)
    want = case["first"]["meta"] == case["second"]["meta"] and \
        case["first"]["spec"] == case["second"]["spec"] and \
        form(case["first"]) == form(case["second"])
    env.label("equal" if want else "different")
    for x, y, same in ((a, b, want), (b, a, want), (a, a, True),
                       (b, b, True)):
        ensure(bool(x == y) == same, "{} == {} is {}", label(x), label(y),
               x == y)
        ensure(bool(x != y) != same, "{} != {} is {}", label(x), label(y),
               x != y)
    ensure(not a == case["other"] and a != case["other"],
           "a material equals {!r}", case["other"])


def label(mat):
    """short description"""
    return "material with {}".format(mat.meta_data)


FACETS = [
    Facet("grid", grid_case, check_grid, lambda case, labels: True, 400,
          8000, shards=4),
    Facet("texts", text_case, check_texts,
          lambda case, labels: "text" in labels, 300, 5000, shards=2),
    Facet("equal", equal_case, check_equal, lambda case, labels: True, 400,
          6000, shards=2)]
