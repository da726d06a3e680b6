"""database trees: data files, library, configuration, and the rows of the
catalogue they stand for

A tree is JSON data:
  {"user": [file, ...], "film": [file, ...], "foreign": [[name, kind], ...],
   "rii": {"index": name, "data": folder, "shelves": [...]}}
A file is {"stem":, "ext":, "desc": description, "meta": {...}, "named": bool}
A shelf is {"name":, "content": [book or {"divider": text}]}, a book
{"book":, "name":, "content": [page or {"divider": text}]}, a page
{"page":, "path":, "file": file or None (missing)}
"""
import math
import os

import yaml
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import ensure, fail

MODULES = ['UserData', 'RefractiveIndexInfo', 'Filmetrics']
FOLDER = {'UserData': 'user', 'Filmetrics': 'film'}
DEFAULT_UNIT = {'UserData': 'nm', 'Filmetrics': 'nm',
                'RefractiveIndexInfo': 'um'}
COLUMNS = ['Alias', 'Name', 'FullName', 'Author', 'Comment', 'Reference',
           'SpectrumType', 'Unit', 'SpectrumLowerBound', 'SpectrumUpperBound',
           'N_Reference', 'K_Reference', 'Path', 'Module']


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

@gens.cached
def stem():
    """file name without extension"""
    return st.one_of(
        st.sampled_from(["Si", "Au", "SiO2", "a.b", "two words", "Ünï", "n.txt",
                         "x.yml", "100%", "#1", "-", "A,B", "it's", "NA",
                         "null", "1", "1.0", "007", "True", "nan", "inf"]),
        st.text("abcxyzABC019 _-.,+()=&%'äµ中", min_size=1,
                max_size=10).map(str.strip).filter(
                    lambda s: s and not s.startswith(".") and
                    not s.endswith(".")))


@gens.cached
@st.composite
def description(draw, ext, unit):
    """a data set, sometimes in the default unit of the module"""
    rep = draw(st.one_of(gens.rep(), st.just({"type": "wavelength",
                                              "unit": unit})))
    kinds = ['tab_n', 'tab_nk', 'tab_nk', 'tab_k', 'tab_eps', 'tab_n_alpha']
    if ext == '.yml':
        which = draw(st.integers(0, 9))
        if which in (0, 1):
            return draw(mats.n_model(max_terms=3))
        if which == 2:
            return draw(mats.eps_model())
        if which == 3:
            return draw(files.two_tables())
    desc = draw(mats.table(kinds=[draw(st.sampled_from(kinds))], rep=rep,
                           max_rows=5, shuffle=False))
    if draw(st.integers(0, 12)) == 0 and desc["kind"] != 'tab_n_alpha':
        for key in ("x", "re", "im"):
            desc[key] = desc[key][:1]
    return desc


def single(desc):
    """a table of one row: valid at one point"""
    return "x" in desc and len(desc["x"]) == 1


@gens.cached
@st.composite
def data_file(draw, module='UserData', name=None):
    """one data file"""
    ext = '.yml' if module == 'RefractiveIndexInfo' else draw(
        st.sampled_from(['.txt', '.csv', '.nk', '.yml']))
    desc = draw(description(ext, DEFAULT_UNIT[module]))
    meta = {}
    for key in files.KEYS:
        if draw(st.booleans()):
            meta[key] = draw(files.line(12))
    named = True
    if not (desc["kind"] in ("two", "model")):
        if (desc["type"].lower(), ora.canonical(desc["unit"])) == \
                ('wavelength', DEFAULT_UNIT[module]):
            named = draw(st.booleans())
    elif desc["kind"] == "model" and module == 'RefractiveIndexInfo' and \
            desc["type"].lower() == 'wavelength':
        named = draw(st.booleans())
    return {"stem": name or draw(stem()), "ext": ext, "desc": desc,
            "meta": meta, "named": named}


def unique(items):
    """drop files with a name that occurred before"""
    out, seen = [], set()
    for item in items:
        name = item["stem"] + item["ext"]
        if name not in seen:
            seen.add(name)
            out.append(item)
    return out


@gens.cached
def title():
    """name of a shelf, book or page"""
    return st.one_of(files.line(10), st.sampled_from(
        ["Ag", "SiO<sub>2</sub>", "Johnson", "1985", "Palik, E.",
         "α-n 20°C"]))


@gens.cached
@st.composite
def library(draw, max_pages=6):
    """a refractiveindex.info library"""
    name = title()
    shelves = []
    count = 0
    for s in range(draw(st.integers(1, 2))):
        books = []
        for b in range(draw(st.sampled_from([1, 2, 0, 3]))):
            if draw(st.integers(0, 4)) == 0:
                books.append({"divider": draw(name)})
            pages = []
            for p in range(draw(st.sampled_from([1, 2, 0, 3]))):
                if count >= max_pages:
                    break
                if draw(st.integers(0, 4)) == 0:
                    pages.append({"divider": draw(name)})
                exists = draw(st.integers(0, 4)) != 0
                path = draw(st.sampled_from(
                    ["main/Ag/nk", "main/x", "organic/CH4 - methane", "",
                     "glass/schott"]))
                path = os.path.join(path, "{}{}.yml".format(
                    draw(st.sampled_from(["P", "N-BK7_", "ä", "a.b"])), count))
                count += 1
                pages.append({"page": draw(name), "path": path, "file": draw(
                    data_file('RefractiveIndexInfo', "-")) if exists
                              else None})
            books.append({"book": draw(name), "name": draw(name),
                          "content": pages})
        shelves.append({"name": draw(name), "content": books})
    return {"index": draw(st.sampled_from(["catalog-nk.yml", "library.yml"])),
            "data": draw(st.sampled_from(["data", "data-nk"])),
            "shelves": shelves}


@gens.cached
def foreign():
    """entries of a data folder that are no data files"""
    return st.lists(st.sampled_from(
        [["notes.md", "text"], ["table.dat", "text"], ["README", "text"],
         ["old.txt~", "text"], ["x.yaml", "text"], ["x.json", "text"],
         ["image.png", "binary"], ["old", "folder"], ["folder.txt", "folder"],
         ["folder.yml", "folder"], ["b.csv.bak", "text"],
         ["txt", "text"], ["x.nkk", "text"]]), max_size=3,
                    unique_by=lambda item: item[0])


@gens.cached
@st.composite
def tree(draw, max_files=4):
    """a whole database"""
    def some(module, most):
        return unique([draw(data_file(module)) for _ in range(
            draw(st.integers(0, 2 * most + 1)) % (most + 1))])
    return {"user": some('UserData', max_files),
            "film": some('Filmetrics', 2),
            "foreign": draw(foreign()),
            "rii": draw(library())}


@gens.cached
@st.composite
def modules(draw, names=None):
    """enabled modules in some order"""
    chosen = draw(st.permutations(names or MODULES))
    if names is None:
        chosen = chosen[:draw(st.integers(1, 3))]
    return [[name, draw(st.integers(0, 4)) != 4] for name in chosen]


@gens.cached
@st.composite
def reference(draw, descs):
    """a reference spectrum, mostly inside the range of some file"""
    rep = draw(gens.rep())
    if descs and draw(st.integers(0, 7)):
        low, high = mats.bounds_metres(draw(st.sampled_from(descs)))
        if low > high:
            low, high = high, low
        metres = low * (high / low) ** draw(st.one_of(
            st.integers(1, 99).map(lambda i: i / 100.0),
            st.integers(1, 99).map(lambda i: i / 100.0),
            st.floats(-0.3, 1.3)))
    else:
        metres = draw(gens.log_between(1e-8, 1e-3))
    return {"type": rep["type"], "unit": rep["unit"],
            "value": ora.from_metres(metres, rep["type"], rep["unit"])}


def all_files(tree_desc):
    """files of a tree, missing pages left out"""
    out = list(tree_desc["user"]) + list(tree_desc["film"])
    for _, _, page in pages(tree_desc["rii"]):
        if page["file"] is not None:
            out.append(page["file"])
    return out


def pages(lib):
    """(shelf, book, page) in library order"""
    for shelf in lib["shelves"]:
        for book in shelf["content"]:
            if "divider" in book:
                continue
            for page in book["content"]:
                if "divider" not in page:
                    yield shelf, book, page


# --------------------------------------------------------------------------
# on disk
# --------------------------------------------------------------------------

LETTER = {'tab_n': 'n', 'tab_k': 'k', 'tab_nk': 'nk', 'tab_eps': 'eps',
          'tab_n_alpha': 'n_alpha'}


def rows_of(desc):
    """rows of a table as text"""
    columns = [desc["x"], desc["re"]]
    if desc["kind"] not in ('tab_n', 'tab_k'):
        columns.append(desc["im"])
    return [[repr(float(v)) for v in row] for row in zip(*columns)]


def content(item):
    """text of a data file"""
    desc, meta = item["desc"], item["meta"]
    if item["ext"] != '.yml':
        char = ";" if item["ext"] == '.nk' else "#"
        sep = "," if item["ext"] == '.csv' else " "
        text = ""
        for key, value in meta.items():
            text += "{} {}: {}\n".format(char, key.upper(), value)
        if item["named"]:
            text += "{0} SPECTRUMTYPE: {1}\n{0} UNIT: {2}\n".format(
                char, desc["type"], desc["unit"])
        text += "{} DATATYPE: tabulated {}\n".format(char,
                                                     LETTER[desc["kind"]])
        return text + "".join(sep.join(row) + "\n" for row in rows_of(desc))
    text = yaml.safe_dump({key.upper(): value for key, value in meta.items()},
                          allow_unicode=True) if meta else ""
    text += "DATA:\n"
    sets = [desc["n"], desc["k"]] if desc["kind"] == "two" else [desc]
    for one in sets:
        if one["kind"] == "model":
            name = "formula {}".format(mats.FORMULA[one["name"]]) if \
                one["name"] in mats.FORMULA else "model " + one["name"]
            text += "  - type: {}\n    coefficients: {}\n".format(
                name, " ".join(repr(float(p)) for p in one["par"]))
            text += "    wavelength_range: {!r} {!r}\n".format(
                *[float(v) for v in mats.ends(one)])
        else:
            text += "  - type: tabulated {}\n    data: |\n".format(
                LETTER[one["kind"]])
            text += "".join("        " + " ".join(row) + "\n"
                            for row in rows_of(one))
        if item["named"]:
            text += "    SpectrumType: {}\n    Unit: '{}'\n".format(
                one["type"], one["unit"])
    return text


def write_file(folder, name, item):
    """one data file"""
    path = os.path.join(folder, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    files.write_text(path, content(item))


def write_library(root, lib):
    """the library of refractiveindex.info"""
    base = os.path.join(root, 'RefractiveIndexInfo', 'database')
    os.makedirs(os.path.join(base, lib["data"]), exist_ok=True)
    shelves = []
    for i, shelf in enumerate(lib["shelves"]):
        books = []
        for book in shelf["content"]:
            if "divider" in book:
                books.append({"DIVIDER": book["divider"]})
                continue
            entries = []
            for page in book["content"]:
                if "divider" in page:
                    entries.append({"DIVIDER": page["divider"]})
                    continue
                entries.append({"PAGE": page["page"], "name": page["page"],
                                "data": page["path"]})
                if page["file"] is not None:
                    write_file(os.path.join(base, lib["data"]), page["path"],
                               page["file"])
            books.append({"BOOK": book["book"], "name": book["name"],
                          "content": entries})
        shelves.append({"SHELF": "shelf{}".format(i), "name": shelf["name"],
                        "content": books})
    files.write_text(os.path.join(base, lib["index"]),
                     yaml.safe_dump(shelves, allow_unicode=True,
                                    sort_keys=False))


def write_tree(root, tree_desc):
    """all files"""
    for module, key in FOLDER.items():
        folder = os.path.join(root, module)
        os.makedirs(folder, exist_ok=True)
        for item in tree_desc[key]:
            write_file(folder, item["stem"] + item["ext"], item)
        for name, kind in tree_desc["foreign"]:
            path = os.path.join(folder, name)
            if kind == "folder":
                os.makedirs(path, exist_ok=True)
                files.write_text(os.path.join(path, "inner.txt"),
                                 "400 1.5\n500 1.6\n")
            elif kind == "binary":
                with open(path, "wb") as fpt:
                    fpt.write(bytes(range(256)))
            else:
                files.write_text(path, "no data\n")
    write_library(root, tree_desc["rii"])


def config(root, mods, ref, file_name="catalogue.csv"):
    """configuration dictionary"""
    return {"Path": root, "File": file_name, "Interactive": False,
            "WarnMissingPackages": False,
            "Modules": {name: enabled for name, enabled in mods},
            "ReferenceSpectrum": {"Value": float(ref["value"]),
                                  "SpectrumType": ref["type"],
                                  "Unit": ref["unit"]}}


# --------------------------------------------------------------------------
# expected rows
# --------------------------------------------------------------------------

def expected_rows(tree_desc, module):
    """[(path relative to the module, texts, description)]"""
    out = []
    if module in FOLDER:
        for item in tree_desc[FOLDER[module]]:
            texts = {key: item["meta"].get(key, "") for key in
                     ('FullName', 'Author', 'Comment', 'Reference')}
            texts['Name'] = item["stem"]
            out.append((item["stem"] + item["ext"], texts, item["desc"]))
        return out
    lib = tree_desc["rii"]
    for _, book, page in pages(lib):
        if page["file"] is None:
            continue
        texts = {key: page["file"]["meta"].get(key, "") for key in
                 ('Comment', 'Reference')}
        texts.update({'Name': book["book"], 'FullName': book["name"],
                      'Author': page["page"]})
        out.append((os.path.join('database', lib["data"], page["path"]),
                    texts, page["file"]["desc"]))
    return out


def parts_of(desc):
    """data sets of a description"""
    return [desc["n"], desc["k"]] if desc["kind"] == "two" else [desc]


def expected_nk(desc, metres):
    """(value, tolerance) at a wavelength, None if not judged"""
    re = im = None
    name = 'nk'
    for part in parts_of(desc):
        if single(part):
            part = dict(part, x=[part["x"][0] * 0.5, part["x"][0] * 2.0],
                        re=part["re"] * 2, im=part["im"] * 2)
            name, exp = mats.stored(part, ora.to_metres(
                part["x"][0] * 2.0, part["type"], part["unit"]))
        else:
            name, exp = mats.stored(part, metres)
        if exp is None:
            return None
        if part["kind"] == 'tab_k':
            im = exp.re, exp.dre
        elif part["kind"] == 'tab_n' or part.get("name") in mats.FORMULA:
            re = exp.re, exp.dre
        else:
            re, im = (exp.re, exp.dre), (exp.im, exp.dim)
    re, im = re or (0.0, 0.0), im or (0.0, 0.0)
    exp = mats.Expected(re[0], im[0], re[1], im[1])
    if name == 'nk':
        return exp.value, exp.tol
    return mats.root_of(exp)


def check_row(row, root, module, path, texts, desc, ref, env):
    """one row of a freshly built catalogue"""
    where = "row of {}/{}".format(module, path)
    ensure(os.path.normpath(os.path.join(root, module, row.Path)) ==
           os.path.normpath(os.path.join(root, module, path)),
           "{}: path {!r}", where, row.Path)
    ensure(row.Module == module, "{}: module {!r}", where, row.Module)
    ensure(row.Alias == "", "{}: alias {!r} of a new row", where, row.Alias)
    for key, want in texts.items():
        ensure(getattr(row, key) == want, "{}: {} is {!r} instead of {!r}",
               where, key, getattr(row, key), want)
    check_bounds(row, desc, where)
    check_reference(row, desc, ref, where, env)


def check_bounds(row, desc, where):
    """range in the quantity and unit the row names"""
    low, high = mats.bounds_metres(desc)
    if low > high:  # the two data sets do not overlap
        return
    got = [float(row.SpectrumLowerBound), float(row.SpectrumUpperBound)]
    ensure(got[0] <= got[1], "{}: bounds {}", where, got)
    metres = sorted(ora.to_metres(v, row.SpectrumType, row.Unit) for v in got)
    for a, b in zip(metres, (low, high)):
        tol = 3.0 * (1e-9 * b * b / ora.HC_EV + 1e-15 + 1e-12 * b)
        ensure(abs(a - b) <= tol, "{}: bounds {} m instead of {} m", where,
               metres, (low, high))


def check_reference(row, desc, ref, where, env):
    """n and k at the reference spectrum"""
    rep = {"type": ref["type"], "unit": ref["unit"]}
    answer = reqs.verdict(reqs.parts(desc), ref["value"], rep)
    got = complex(row.N_Reference, row.K_Reference)
    env.label("reference " + answer)
    if answer == 'out':
        ensure(math.isnan(got.real) and math.isnan(got.imag),
               "{}: n and k at the reference {} outside of the range", where,
               got)
        return
    if answer == 'edge':
        if math.isnan(got.real):
            return
    want = expected_nk(desc, ora.to_metres(ref["value"], ref["type"],
                                           ref["unit"]))
    if want is None:
        return
    if not abs(got - want[0]) <= want[1]:
        fail("{}: n and k at the reference are {} instead of {} (+- {})",
             where, got, want[0], want[1])
