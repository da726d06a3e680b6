"""C13: building the catalogue"""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from vh import files
from vh import trees
from vh.core import Facet, ensure, fail

RULE = ("a case counts if a catalogue with at least one row is built (and, in "
        "histories, rebuilt after a change) and every row compared with its "
        "data file, or a disabled module has to be refused; distinct by its "
        "full JSON description")
ASSUMPTIONS = ["the folders of enabled modules exist and their data files are "
               "valid", "each library file belongs to one page",
               "extensions are in lower case"]


def build(conf, rebuild, missing):
    """(catalogue, frame); checks the warnings for missing pages"""
    from dispersion import Catalogue
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        cat = Catalogue(config=conf, rebuild=rebuild)
    told = [str(w.message) for w in caught
            if issubclass(w.category, UserWarning)]
    ensure(len(told) >= missing, "{} pages without file gave {} warnings: {}",
           missing, len(told), told)
    return cat


def missing_pages(tree):
    """library pages without a file"""
    return sum(page["file"] is None for _, _, page in
               trees.pages(tree["rii"]))


def check_module(frame, root, tree, module, ref, env):
    """rows of one freshly built module"""
    rows = [row for row in frame.itertuples() if row.Module == module]
    want = trees.expected_rows(tree, module)
    if module in trees.FOLDER:
        rows.sort(key=lambda row: row.Path)
        want.sort(key=lambda item: item[0])
    ensure([row.Path for row in rows] == [item[0] for item in want],
           "{}: rows for {} instead of {}", module, [r.Path for r in rows],
           [item[0] for item in want])
    for row, item in zip(rows, want):
        trees.check_row(row, root, module, *item, ref, env)
    return len(rows)


def check_frame(frame):
    """columns and row numbers"""
    ensure(list(frame.columns) == trees.COLUMNS, "columns {}",
           list(frame.columns))
    ensure(list(frame.index) == list(range(len(frame))), "row numbers {}",
           list(frame.index))


# --------------------------------------------------------------------------
# one build
# --------------------------------------------------------------------------

@st.composite
def build_case(draw):
    tree = draw(trees.tree())
    descs = [item["desc"] for item in trees.all_files(tree)]
    return {"tree": tree, "modules": draw(trees.modules()),
            "ref": draw(trees.reference(descs))}


def check_build(case, env):
    """build everything once"""
    root = env.fresh_dir()
    trees.write_tree(root, case["tree"])
    conf = trees.config(root, case["modules"], case["ref"])
    enabled = [name for name, on in case["modules"] if on]
    missing = missing_pages(case["tree"]) if "RefractiveIndexInfo" in \
        enabled else 0
    cat = build(conf, 'All', missing)
    frame = cat.get_database()
    check_frame(frame)
    total = 0
    for module in enabled:
        total += check_module(frame, root, case["tree"], module, case["ref"],
                              env)
    ensure(len(frame) == total, "{} rows, {} of them of enabled modules",
           len(frame), total)
    env.label("missing" if missing else "complete")
    if total:
        env.label("rows")


# --------------------------------------------------------------------------
# a file that is not a material
# --------------------------------------------------------------------------

BROKEN_YAML = ["DATA: [1, 2\n", "NAME: 'x\nDATA: y\n",
               "DATA:\n  - type: tabulated xyz\n    data: |\n"
               "        0.4 1\n        0.5 2\n",
               "DATA:\n  - type: tabulated n\n    data: |\n"
               "        0.4 a\n        0.5 2\n",
               "DATA:\n  - type: formula 12\n    wavelength_range: 0.4 0.5\n"
               "    coefficients: 1 2 3\n",
               "DATA:\n  - type: formula 1\n    wavelength_range: 0.4 0.5\n"
               "    coefficients: 1 x 3\n",
               "DATA:\n  - type: unknown n\n    data: |\n        0.4 1\n"]
BROKEN_TEXT = ["{c} a table\n400{s}abc\n500{s}1.5\n", "400{s}1.5\n500\n",
               "{c} DataType: tabulated xyz\n400{s}1.5\n500{s}1.6\n",
               "{c} Unit: parsec\n400{s}1.5\n500{s}1.6\n",
               "{c} SpectrumType: colour\n400{s}1.5\n500{s}1.6\n"]


@st.composite
def broken_case(draw):
    case = draw(build_case())
    case["at"] = draw(st.integers(0, 20))
    case["mistake"] = draw(st.integers(0, 34))
    return case


def check_broken(case, env):
    """a data file that cannot be read is reported, not left out"""
    from dispersion import Catalogue
    root = env.fresh_dir()
    trees.write_tree(root, case["tree"])
    conf = trees.config(root, case["modules"], case["ref"])
    found = [(module, item[0]) for module, on in case["modules"] if on
             for item in trees.expected_rows(case["tree"], module)]
    if not found:
        return
    module, path = found[case["at"] % len(found)]
    extension = os.path.splitext(path)[1]
    if extension == ".yml":
        text = BROKEN_YAML[case["mistake"] % len(BROKEN_YAML)]
    else:
        text = BROKEN_TEXT[case["mistake"] % len(BROKEN_TEXT)].format(
            c=";" if extension == ".nk" else "#",
            s="," if extension == ".csv" else " ")
    files.write_text(os.path.join(root, module, path), text)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            cat = Catalogue(config=conf, rebuild='All')
        except Exception:
            env.label("refused")
            env.label(module)
            return
    rows = [(row.Module, row.Path) for row in cat.get_database().itertuples()]
    fail("{}/{} with {!r}: built a catalogue of {}", module, path, text, rows)


# --------------------------------------------------------------------------
# histories of changes and rebuilds
# --------------------------------------------------------------------------

@st.composite
def step(draw):
    """one operation; row numbers and positions are taken modulo"""
    op = draw(st.sampled_from(["rebuild", "rebuild", "rebuild", "rebuild", "add",
                               "remove", "replace", "alias", "alias",
                               "toggle", "reference", "page", "library"]))
    if op == "rebuild":
        names = draw(st.permutations(trees.MODULES))
        names = names[:draw(st.sampled_from([1, 1, 1, 2, 2, 3, 0]))]
        how = draw(st.sampled_from(["list", "str", "list", "All", "tuple",
                                    "none"]))
        return {"op": op, "how": how, "modules": names,
                "save": draw(st.integers(0, 3)) != 0}
    if op == "add":
        module = draw(st.sampled_from(["UserData", "Filmetrics"]))
        return {"op": op, "module": module,
                "file": draw(trees.data_file(module))}
    if op == "remove":
        return {"op": op, "module": draw(st.sampled_from(
            ["UserData", "Filmetrics"])), "at": draw(st.integers(0, 9))}
    if op == "replace":
        return {"op": op, "file": draw(trees.data_file("UserData")),
                "at": draw(st.integers(0, 9))}
    if op == "alias":
        return {"op": op, "at": draw(st.integers(0, 30)),
                "alias": draw(st.sampled_from(["a", "b", "c", "d", "e", "f",
                                               "NA", "1", "ä"]))}
    if op == "toggle":
        return {"op": op, "module": draw(st.sampled_from(trees.MODULES))}
    if op == "reference":
        return {"op": op, "ref": draw(trees.reference([]))}
    if op == "page":
        return {"op": op, "at": draw(st.integers(0, 9)),
                "file": draw(st.one_of(st.none(), trees.data_file(
                    "RefractiveIndexInfo", "-")))}
    return {"op": op, "rii": draw(trees.library(3))}


@st.composite
def history_case(draw):
    tree = draw(trees.tree(max_files=2))
    descs = [item["desc"] for item in trees.all_files(tree)]
    return {"tree": tree, "modules": draw(trees.modules(trees.MODULES)),
            "ref": draw(trees.reference(descs)),
            "steps": [draw(step()) for _ in range(draw(st.sampled_from(
                [3, 4, 5, 6, 1, 2, 8])))]}


def snapshot(frame):
    """rows of a frame by module: list of dicts"""
    out = {}
    for _, row in frame.iterrows():
        out.setdefault(row["Module"], []).append(
            {name: row[name] for name in trees.COLUMNS})
    return out


def check_kept(rows, before, module):
    """rows of a module that was not rebuilt"""
    ensure(len(rows) == len(before), "{} was not rebuilt: {} rows instead of "
           "{}", module, len(rows), len(before))
    for new, old in zip(rows, before):
        for name in trees.COLUMNS:
            a, b = new[name], old[name]
            if isinstance(b, str):
                same = a == b
            else:
                same = (np.isnan(a) and np.isnan(b)) or a == b or \
                    abs(a - b) <= 1e-14 * abs(b)
            ensure(same, "{} was not rebuilt, but {} of {} changed from {!r} "
                   "to {!r}", module, name, old["Path"], b, a)


class World():
    """files, configuration, open catalogue and saved rows"""

    def __init__(self, case, env):
        import copy
        self.env = env
        self.tree = copy.deepcopy(case["tree"])
        self.modules = [list(item) for item in case["modules"]]
        self.ref = case["ref"]
        self.root = env.fresh_dir()
        trees.write_tree(self.root, self.tree)
        self.cat = None
        self.saved = {}
        self.rebuild("All", True)

    def enabled(self):
        """names of enabled modules"""
        return [name for name, on in self.modules if on]

    def rebuild(self, how, save):
        """build some modules; how is 'All', a name, or a list of names"""
        conf = trees.config(self.root, self.modules, self.ref)
        if how is None or how == "None":
            names = []
        elif how == "All":
            names = self.enabled()
        else:
            names = [how] if isinstance(how, str) else list(how)
        if any(name not in self.enabled() for name in names):
            from dispersion import Catalogue
            try:
                Catalogue(config=conf, rebuild=how)
            except ValueError:
                self.env.label("refused")
                return
            fail("rebuilding {!r} did not raise ValueError, enabled are {}",
                 how, self.enabled())
        missing = missing_pages(self.tree) if "RefractiveIndexInfo" in \
            names else 0
        self.cat = build(conf, how, missing)
        frame = self.cat.get_database()
        check_frame(frame)
        if how is None or how == "None":
            shown = list(self.saved)  # the catalogue as saved
        else:
            shown = self.enabled()
        rows = snapshot(frame)
        ensure(set(rows) <= set(shown), "rows of modules {}, expected {}",
               sorted(rows), shown)
        for module in shown:
            if module in names:
                check_module(frame, self.root, self.tree, module, self.ref,
                             self.env)
            else:
                check_kept(rows.get(module, []), self.saved.get(module, []),
                           module)
                if self.saved.get(module) and names:
                    self.env.label("kept rows")
        if save:
            self.cat.save_to_file()
            self.saved = snapshot(frame)

    def run(self, item):
        """one step"""
        import os
        op = item["op"]
        tree = self.tree
        if op == "rebuild":
            how = item["how"]
            if how == "list":
                how = list(item["modules"])
            elif how == "tuple":
                how = tuple(item["modules"])
            elif how == "str":
                if not item["modules"]:
                    return
                how = item["modules"][0]
            elif how == "none":
                how = None if item["save"] else "None"
            self.rebuild(how, item["save"])
        elif op == "add":
            key = trees.FOLDER[item["module"]]
            new = item["file"]
            name = new["stem"] + new["ext"]
            tree[key] = [old for old in tree[key]
                         if old["stem"] + old["ext"] != name] + [new]
            trees.write_file(os.path.join(self.root, item["module"]), name,
                             new)
        elif op == "remove":
            items = tree[trees.FOLDER[item["module"]]]
            if items:
                old = items.pop(item["at"] % len(items))
                os.remove(os.path.join(self.root, item["module"],
                                       old["stem"] + old["ext"]))
        elif op == "replace":
            if tree["user"]:
                at = item["at"] % len(tree["user"])
                old = tree["user"][at]
                if old["ext"] != item["file"]["ext"]:
                    return
                tree["user"][at] = dict(item["file"], stem=old["stem"])
                trees.write_file(os.path.join(self.root, "UserData"),
                                 old["stem"] + old["ext"], item["file"])
        elif op == "alias":
            frame = self.cat.get_database()
            if len(frame) and item["alias"] not in list(frame.Alias):
                self.cat.register_alias(item["at"] % len(frame),
                                        item["alias"])
                self.cat.save_to_file()
                self.saved = snapshot(self.cat.get_database())
                self.env.label("alias")
        elif op == "toggle":
            for entry in self.modules:
                if entry[0] == item["module"]:
                    entry[1] = not entry[1]
        elif op == "reference":
            self.ref = item["ref"]
        elif op == "page":
            found = [page for _, _, page in trees.pages(tree["rii"])]
            if found:
                page = found[item["at"] % len(found)]
                base = os.path.join(self.root, "RefractiveIndexInfo",
                                    "database", tree["rii"]["data"])
                if page["file"] is not None:
                    os.remove(os.path.join(base, page["path"]))
                page["file"] = item["file"]
                if item["file"] is not None:
                    trees.write_file(base, page["path"], item["file"])
        elif op == "library":
            import shutil
            shutil.rmtree(os.path.join(self.root, "RefractiveIndexInfo"))
            tree["rii"] = item["rii"]
            trees.write_library(self.root, tree["rii"])


def check_history(case, env):
    """changes and rebuilds in any order"""
    world = World(case, env)
    for item in case["steps"]:
        world.run(item)
        env.label(item["op"])
    if sum(len(rows) for rows in world.saved.values()):
        env.label("rows")


FACETS = [
    Facet("build", build_case, check_build,
          lambda case, labels: "rows" in labels, 400, 6000, shards=3),
    Facet("history", history_case, check_history,
          lambda case, labels: "rows" in labels and "rebuild" in labels,
          500, 8000, shards=5),
    Facet("broken", broken_case, check_broken,
          lambda case, labels: "refused" in labels, 300, 3000, shards=2)]
