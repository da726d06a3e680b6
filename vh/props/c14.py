"""C14: histories of aliases, lookups, saving and rebuilding"""
import csv
import os
import unicodedata

import numpy as np
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import trees
from vh.core import Facet, ensure, fail
from vh.oracle import from_metres

RULE = ("a case counts if at least one alias was registered and looked up "
        "after some other operation, or a registration had to be refused; "
        "distinct by its full JSON description")
ASSUMPTIONS = ["aliases are not empty; row numbers passed to register_alias "
               "are row labels, passed to get_material positions (the two "
               "agree unless a reordered copy was set)",
               "file names contain no backslash"]


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

@gens.cached
def alias():
    """any text"""
    odd = st.sampled_from(["NA", "nan", "null", "None", "1", "1.0", "1e5", "0",
                           "-1", "True", "si", "Si", "SI", " Si", "Si ", " ",
                           "a,b", 'a"b', '"', "'", "a\nb", "\n", "a\rb", "a\r\nb", "\r", "a\tb", "#",
                           ";", "Ünï", "中文", "N/A", "", "inf", "Name",
                           "UserData", "f0", "f1.txt", "Alias", "\\", "%s",
                           "007", "1_000", "2020-01-01", "1+1j"])
    return st.one_of(st.sampled_from("abc"), st.sampled_from("abc"),
                     odd, files.line(8)).filter(bool)


@st.composite
def step(draw):
    """one operation"""
    op = draw(st.sampled_from(["register", "register", "register", "register",
                               "get", "row", "select", "used", "bad",
                               "reopen", "reopen", "rebuild", "set",
                               "unknown", "own", "near", "near", "outside"]))
    out = {"op": op}
    if op == "outside":
        out["at"] = draw(st.integers(0, 23))
        out["alias"] = draw(st.one_of(st.just(""), alias(), alias()))
        out["quote"] = draw(st.sampled_from(["MINIMAL", "ALL"]))
        out["end"] = draw(st.sampled_from(["\n", "\r\n"]))
    if op in ("register", "select", "used", "own"):
        out["at"] = draw(st.integers(0, 23))
        out["alias"] = draw(alias())
        out["by"] = draw(st.sampled_from(["mask", "slice", "loc"]))
    elif op == "reopen":
        out["how"] = draw(st.sampled_from(["word", "word", "none", "absent"]))
    elif op in ("get", "row"):
        out["at"] = draw(st.integers(0, 23))
    elif op == "bad":
        out["how"] = draw(st.sampled_from(["beyond", "negative", "many", "gap",
                                           "none", "type", "foreign"]))
        out["alias"] = draw(alias())
        out["at"] = draw(st.integers(0, 30))
    elif op == "rebuild":
        out["modules"] = draw(st.sampled_from(
            [["UserData"], ["RefractiveIndexInfo"], ["Filmetrics"], "All"]))
        out["save"] = draw(st.booleans())
    elif op == "set":
        out["how"] = draw(st.sampled_from(["reverse", "rotate", "filter",
                                           "sort", "copy"]))
        out["reset"] = draw(st.booleans())
        out["at"] = draw(st.integers(0, 23))
    elif op == "unknown":
        out["alias"] = draw(alias())
    elif op == "near":
        out["like"] = draw(st.sampled_from(NEAR))
        out["register"] = draw(st.booleans())
        out["at"] = draw(st.integers(0, 23))
        out["by"] = draw(st.sampled_from(["mask", "slice", "loc"]))
    return out


@st.composite
def data(draw, module):
    """what is in a file besides its number"""
    out = {"ext": draw(st.sampled_from([".txt", ".csv", ".nk", ".yml"]))
           if module != "RefractiveIndexInfo" else ".yml",
           "named": draw(st.booleans()), "rep": draw(gens.rep()),
           "kind": draw(st.sampled_from(['tab_nk', 'tab_n'])), "meta": {}}
    for key in files.KEYS:
        if draw(st.integers(0, 2)) == 0:
            out["meta"][key] = draw(st.one_of(files.line(8), alias()))
    if out["ext"] != ".yml":
        out["meta"] = {key: value for key, value in out["meta"].items()
                       if value.strip() == value and value.isprintable()}
    if out["ext"] == ".yml":
        # YAML drops the case of nothing else, but texts must be texts
        out["meta"] = {key: value for key, value in out["meta"].items()
                       if value.strip()}
    return out


@st.composite
def history(draw):
    return {"more": draw(st.sampled_from([0] * 11 + [7, 9, 12])), "user": [draw(data("UserData")) for _ in
                     range(draw(st.integers(1, 4)))],
            "rii": [draw(data("RefractiveIndexInfo")) for _ in
                    range(draw(st.integers(0, 2)))],
            # files of another module, with the names of the user's files
            "film": [draw(data("Filmetrics")) for _ in
                     range(draw(st.sampled_from([0, 0, 0, 1, 2])))],
            "steps": [draw(step()) for _ in range(
                draw(st.sampled_from([4, 6, 8, 10, 12, 2, 20])))],
            "ref": draw(st.sampled_from([500.0, 632.8, 100.0])),
            "file": draw(st.sampled_from(["catalogue.csv", "catalogue.csv",
                                          "a b.csv", "c", "Ünï.csv",
                                          "x.txt"]))}


NEAR = ["swapcase", "upper", "lower", "space", "blank", "longer", "shorter",
        "dot", "star", "strip", "decomposed", "float", "name", "path"]


def near(text, like, row):
    """another text that something sloppy would take for the same"""
    name = os.path.splitext(row[0][1])[0]
    return {"swapcase": text.swapcase(), "upper": text.upper(),
            "lower": text.lower(), "space": text + " ", "blank": " " + text,
            "longer": text + "a", "shorter": text[:-1],
            "dot": "." * len(text), "star": text + "*",
            "strip": text.strip(), "decomposed":
            unicodedata.normalize("NFD", text), "float": text + ".0",
            "name": name, "path": row[0][1]}[like]


# --------------------------------------------------------------------------
# the world
# --------------------------------------------------------------------------

PLAIN = {"ext": ".txt", "named": True, "kind": "tab_nk", "meta": {},
         "rep": {"type": "wavelength", "unit": "nm"}}


def tree_of(case):
    """files with recognisable constants"""
    number = 0
    out = {"user": [], "film": [], "foreign": [], "rii": None}
    found = {}
    pages = []
    for module, key in (("UserData", "user"), ("RefractiveIndexInfo", "rii"),
                        ("Filmetrics", "film")):
        items = list(case.get(key, []))
        if key == "user":
            items += [PLAIN] * case.get("more", 0)
        for item in items:
            rep = item["rep"] if item["named"] else {
                "type": "wavelength", "unit": trees.DEFAULT_UNIT[module]}
            xs = sorted(from_metres(w, rep["type"], rep["unit"])
                        for w in (3e-7, 9e-7))
            n, k = 1.1 + 0.237 * number, 0.1 * (number + 1) / 3.0
            desc = {"kind": item["kind"], "type": rep["type"],
                    "unit": rep["unit"], "x": xs, "re": [n, n], "im": [k, k]}
            entry = {"stem": "f{}".format(len(out["film"]) if key == "film"
                                          else number), "ext": item["ext"],
                     "desc": desc, "meta": item["meta"],
                     "named": item["named"]}
            if key == "film" and len(out["film"]) < len(out["user"]):
                # the extension too, with metadata that fit in
                entry["ext"] = out["user"][len(out["film"])]["ext"]
                item = dict(item, meta={
                    name: text for name, text in item["meta"].items()
                    if text.strip() == text and text.isprintable() and text})
                entry["meta"] = item["meta"]
            name = entry["stem"] + entry["ext"]
            value = complex(n, k if item["kind"] == 'tab_nk' else 0.0)
            if module != "RefractiveIndexInfo":
                out[key].append(entry)
                found[(module, name)] = value, item["meta"]
            else:
                path = "main/" + name
                pages.append({"page": "page{}".format(number), "path": path,
                              "file": entry})
                found[(module, os.path.join("database", "data", path))] = \
                    value, item["meta"]
            number += 1
    out["rii"] = {"index": "library.yml", "data": "data", "shelves": [
        {"name": "main", "content": [{"book": "B", "name": "Book",
                                      "content": pages}]}]}
    return out, found


class World():
    """catalogue, its model and what was saved

    self.rows: [[key, alias], ...] in order; key is (module, path)
    self.saved: the same for the catalogue file
    """

    def __init__(self, case, env):
        self.env = env
        self.root = env.fresh_dir()
        self.tree, self.found = tree_of(case)
        trees.write_tree(self.root, self.tree)
        self.names = ["UserData", "RefractiveIndexInfo"]
        if self.tree["film"]:
            env.label("same names")
            self.names.append("Filmetrics")
        self.conf = trees.config(
            self.root, [[name, True] for name in self.names],
            {"value": case["ref"], "type": "wavelength", "unit": "nm"},
            case["file"])
        self.cat = self.open("All")
        self.rows = [[key, ""] for key in self.keys()]
        ensure(sorted(key for key, _ in self.rows) == sorted(self.found),
               "built rows {}", self.rows)
        self.cat.save_to_file()
        self.saved = [list(row) for row in self.rows]

    def open(self, rebuild="None"):
        """a catalogue object"""
        from dispersion import Catalogue
        return Catalogue(config=self.conf, rebuild=rebuild)

    def keys(self):
        """(module, path) of the rows"""
        return [(row.Module, row.Path) for row in
                self.cat.get_database().itertuples()]

    def check(self):
        """rows and aliases as modelled"""
        frame = self.cat.get_database()
        got = [[(row.Module, row.Path), row.Alias] for row in
               frame.itertuples()]
        ensure(got == self.rows, "rows and aliases are {} instead of {}", got,
               self.rows)

    def frame(self):
        """deep copy of all columns"""
        return self.cat.get_database().copy(deep=True)

    def material(self, identifier, key):
        """look up and compare"""
        mat = self.cat.get_material(identifier)
        value, meta = self.found[key]
        got = complex(mat.get_nk_data(500.0, spectrum_type="wavelength",
                                      unit="nm"))
        ensure(abs(got - value) < 1e-9, "looking up {!r} gave n and k {} "
               "instead of {} of {}", identifier, got, value, key)
        for name in files.KEYS:
            ensure(mat.meta_data[name] == meta.get(name, ""),
                   "looking up {!r}: {} is {!r} instead of {!r}", identifier,
                   name, mat.meta_data[name], meta.get(name, ""))
        return mat

    def refuse(self, row_id, text, what):
        """a registration that has to fail"""
        before = self.frame()
        try:
            self.cat.register_alias(row_id, text)
        except ValueError:
            compare(self.cat.get_database(), before, "after refusing " + what,
                    True)
            self.env.label("refused")
            return
        fail("registering {!r} for {} did not raise ValueError", text, what)

    def used_elsewhere(self, text, at):
        """is an alias used by another row"""
        return any(a == text for i, (_, a) in enumerate(self.rows) if i != at)

    # ------------------------------------------------------------------
    def run(self, item):
        """one step"""
        op = item["op"]
        self.env.label(op)
        getattr(self, "do_" + op)(item)
        self.check()

    def row_id(self, at, item):
        """row number or selection"""
        frame = self.cat.get_database()
        if item["op"] == "register" and frame.index[at] == at:
            return at
        if item["by"] == "mask":
            return frame[(frame.Path == frame.Path.iloc[at]) &
                         (frame.Module == frame.Module.iloc[at])]
        if item["by"] == "slice":
            return frame.iloc[at:at + 1]
        return frame.loc[[frame.index[at]]]

    def do_register(self, item):
        if not self.rows:
            return
        at = item["at"] % len(self.rows)
        row_id = self.row_id(at, item)
        if self.used_elsewhere(item["alias"], at):
            self.refuse(row_id, item["alias"], "row {}".format(at))
            return
        before = self.frame()
        self.cat.register_alias(row_id, item["alias"])
        self.rows[at][1] = item["alias"]
        column = list(before.columns).index("Alias")
        before.iloc[at, column] = item["alias"]
        compare(self.cat.get_database(), before, "after registering", True)

    do_select = do_register

    def do_used(self, item):
        """take an alias that is in use"""
        if not self.rows:
            return
        taken = [i for i, (_, a) in enumerate(self.rows) if a]
        if not taken:
            return
        owner = taken[item["at"] % len(taken)]
        at = (item["at"] // 3) % len(self.rows)
        item = dict(item, alias=self.rows[owner][1], at=at)
        self.do_register(item)

    def do_own(self, item):
        """register the alias a row already has, then give it another"""
        self.do_used(item)
        self.do_register(item)

    def do_bad(self, item):
        frame = self.cat.get_database()
        how = item["how"]
        if how == "beyond":
            top = max(list(frame.index), default=-1)
            self.refuse(int(top) + 1 + item["at"], item["alias"],
                        "a row number beyond the end")
        elif how == "negative":
            self.refuse(-1 - item["at"], item["alias"],
                        "a negative row number")
        elif how == "gap":
            self.gap(item)
        elif how == "many":
            if len(frame) > 1:
                self.refuse(frame.iloc[:2], item["alias"], "two rows")
        elif how == "none":
            self.refuse(frame.iloc[:0], item["alias"], "no row")
        elif how == "type":
            self.refuse(["0", 0.5, None, [0]][item["at"] % 4], item["alias"],
                        "something that is no row")
        elif how == "foreign":
            if len(frame):
                other = frame.iloc[:1].copy()
                other.index = [int(max(frame.index)) + 1 + item["at"]]
                self.refuse(other, item["alias"], "a row that is not there")

    def gap(self, item):
        """a number that is no label, if rows were left out; it may be taken
        for a position"""
        free = sorted(set(range(len(self.rows))) -
                      set(self.cat.get_database().index))
        if not free:
            return
        self.env.label("gap")
        at = free[item["at"] % len(free)]
        before = self.frame()
        try:
            self.cat.register_alias(at, item["alias"])
        except ValueError:
            compare(self.cat.get_database(), before, "after refusing", True)
            return
        ensure(not self.used_elsewhere(item["alias"], at), "alias {!r} given "
               "twice", item["alias"])
        self.rows[at][1] = item["alias"]

    def do_get(self, item):
        taken = [(key, a) for key, a in self.rows if a]
        if taken:
            key, text = taken[item["at"] % len(taken)]
            self.material(text, key)
            self.env.label("looked up")

    def do_row(self, item):
        if self.rows:
            at = item["at"] % len(self.rows)
            self.material(at, self.rows[at][0])

    def do_unknown(self, item):
        if any(a == item["alias"] for _, a in self.rows):
            return
        for name in (item["alias"], item["alias"] + "?"):
            if any(a == name for _, a in self.rows):
                continue
            try:
                self.cat.get_material(name)
            except ValueError:
                continue
            fail("unknown alias {!r} gave a material", name)

    def do_near(self, item):
        """an alias much like one in use, looked up or registered elsewhere"""
        taken = [i for i, (_, a) in enumerate(self.rows) if a]
        if not taken:
            return
        owner = taken[item["at"] % len(taken)]
        text = near(self.rows[owner][1], item["like"], self.rows[owner])
        if not text:
            return
        if not item["register"]:
            self.do_unknown({"alias": text})
            return
        at = (owner + 1 + item["at"] // 3) % len(self.rows)
        self.do_register({"op": "register", "at": at, "alias": text,
                          "by": item["by"]})
        for i in (owner, at):
            key, alias_of = self.rows[i]
            if alias_of:
                self.material(alias_of, key)
                self.env.label("looked up")

    def do_reopen(self, item):
        before = self.frame()
        self.cat.save_to_file()
        self.saved = [list(row) for row in self.rows]
        from dispersion import Catalogue
        more = {"none": {"rebuild": None}, "absent": {}}.get(
            item.get("how"), {"rebuild": "None"})
        self.cat = Catalogue(config=self.conf, **more)
        compare(self.cat.get_database(), before, "after reopening", False)

    def do_outside(self, item):
        """the alias column of the saved file edited by another program"""
        if not self.rows:
            return
        at = item["at"] % len(self.rows)
        if item["alias"] and self.used_elsewhere(item["alias"], at):
            return
        before = self.frame()
        self.cat.save_to_file()
        path = os.path.join(self.root, self.conf["File"])
        with open(path, newline="", encoding="utf8") as fpt:
            lines = list(csv.reader(fpt))
        column = lines[0].index("Alias")
        ensure(len(lines) == len(self.rows) + 1, "{} lines in the catalogue "
               "file for {} rows", len(lines), len(self.rows))
        lines[at + 1][column] = item["alias"]
        with open(path, "w", newline="", encoding="utf8") as fpt:
            csv.writer(fpt, quoting=getattr(csv, "QUOTE_" + item["quote"]),
                       lineterminator=item["end"]).writerows(lines)
        self.rows[at][1] = item["alias"]
        self.saved = [list(row) for row in self.rows]
        before.iloc[at, list(before.columns).index("Alias")] = item["alias"]
        self.cat = self.open()
        compare(self.cat.get_database(), before, "after editing the file",
                False)
        if item["alias"]:
            self.material(item["alias"], self.rows[at][0])
            self.env.label("looked up")

    def do_rebuild(self, item):
        names = item["modules"]
        if names != "All" and not set(names) <= set(self.names):
            names = ["UserData"]
        self.cat = self.open(names)
        if names == "All":
            names = self.names
        old = {key: a for key, a in self.saved}
        kept = [row for row in self.saved if row[0][0] not in names]
        keys = self.keys()
        fresh = [key for key in keys if key[0] in names]
        ensure(sorted(fresh) == sorted(k for k in self.found
                                       if k[0] in names),
               "rebuilding {} gave rows for {}", names, fresh)
        for name in set(self.names) - set(names):
            ensure([key for key in keys if key[0] == name] ==
                   [key for key, _ in kept if key[0] == name],
                   "rebuilding {} gave rows {}", names, keys)
        self.rows = [[key, "" if key[0] in names else old[key]]
                     for key in keys]
        self.check()
        if item["save"]:
            self.cat.save_to_file()
            self.saved = [list(row) for row in self.rows]

    def do_set(self, item):
        frame = self.frame()
        how = item["how"]
        order = list(range(len(self.rows)))
        if how == "reverse":
            order = order[::-1]
        elif how == "rotate" and order:
            by = item["at"] % len(order)
            order = order[by:] + order[:by]
        elif how == "filter" and len(order) > 1:
            order.pop(item["at"] % len(order))
        elif how == "sort":
            order.sort(key=lambda i: (self.rows[i][1], self.rows[i][0]))
        frame = frame.iloc[order]
        if item["reset"]:
            frame = frame.reset_index(drop=True)
        self.cat.set_database(frame)
        self.rows = [list(self.rows[i]) for i in order]


def compare(frame, want, what, index):
    """same cells in the same order"""
    ensure(list(frame.columns) == list(want.columns), "{}: columns {}", what,
           list(frame.columns))
    ensure(len(frame) == len(want), "{}: {} rows instead of {}", what,
           len(frame), len(want))
    if index:
        ensure(list(frame.index) == list(want.index), "{}: row labels {} "
               "instead of {}", what, list(frame.index), list(want.index))
    for name in want.columns:
        for i, (a, b) in enumerate(zip(list(frame[name]), list(want[name]))):
            if isinstance(b, str):
                same = isinstance(a, str) and a == b
            else:
                same = (np.isnan(a) and np.isnan(b)) or a == b or \
                    abs(a - b) <= 1e-14 * abs(b)
            ensure(same, "{}: {} of row {} is {!r} instead of {!r}", what,
                   name, i, a, b)


def check_history(case, env):
    """all steps, then every alias and row once more"""
    world = World(case, env)
    if len(world.rows) > 9:
        env.label("ten or more rows")
    for item in case["steps"]:
        world.run(item)
    for i, (key, text) in enumerate(world.rows):
        world.material(i, key)
        if text:
            world.material(text, key)
            env.label("looked up")
    world.do_reopen({})
    world.check()
    for key, text in world.rows:
        if text:
            world.material(text, key)


FACETS = [
    Facet("history", history, check_history,
          lambda case, labels: "looked up" in labels or "refused" in labels,
          700, 12000, shards=8)]
