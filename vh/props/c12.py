"""C12: files in the documented formats, written by hand or by others"""
import math
import os

import numpy as np
import yaml
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure, fail

RULE = ("a case counts if a generated file is loaded and its material "
        "compared with the rows or coefficients in the file, or has to be "
        "refused; distinct by its full JSON description")
ASSUMPTIONS = ["numbers are written in lossless notations",
               "in files with several data sets either all name their "
               "spectrum type and unit or none does",
               "free comment lines do not look like metadata"]

FULL = {'n': 'tab_n', 'k': 'tab_k', 'nk': 'tab_nk', 'eps': 'tab_eps',
        'n_alpha': 'tab_n_alpha', 'eps_r': 'tab_eps_r',
        'eps_i': 'tab_eps_i'}


# --------------------------------------------------------------------------
# rows and numbers
# --------------------------------------------------------------------------

def number(value, notation):
    """a lossless decimal notation"""
    value = float(value)
    text = repr(value)
    if notation == 1:
        text = "{:.17e}".format(value)
    elif notation == 2:
        text = "{:.17E}".format(value)
    elif notation == 3:
        text = "{:+.17g}".format(value)
    elif notation == 4:
        text = "{:.17g}".format(value)
    elif notation == 5 and text.endswith(".0"):
        text = text[:-1]
    elif notation == 6 and text.startswith("0."):
        text = text[1:]
    elif notation == 7 and text.endswith(".0"):
        text = text[:-2]
    assert float(text) == value
    return text


@st.composite
def rows(draw, rep, columns, big=0.08, min_rows=1):
    """table rows in file order, in any order and with repetitions"""
    desc = draw(mats.grid(rep=rep, min_rows=2, max_rows=8, big=big))
    xs = desc["x"]
    if draw(st.integers(0, 9)) == 0 and min_rows == 1:
        xs = xs[:1]
    if len(xs) > 60:
        seed = draw(st.integers(0, 99))
        cols = [[0.5 + t for t in gens.spread(len(xs), seed + c)]
                for c in range(columns)]
    else:
        cols = [[draw(mats.optical() if c == 0 else mats.passive())
                 for _ in xs] for c in range(columns)]
    table = [list(row) for row in zip(xs, *cols)]
    table = mats.permute(table, draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4])))
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2, 4]))):
        # a row that repeats an earlier one
        at = draw(st.integers(1, len(table)))
        source = draw(st.integers(0, at - 1))
        table.insert(at, [table[source][0]] + [draw(st.floats(0.1, 9.0))
                                               for _ in range(columns)])
    return table


def kept(table):
    """rows in increasing order, the first of each spectral value"""
    out = {}
    for row in table:
        out.setdefault(row[0], row)
    return [out[x] for x in sorted(out)]


def column_count(kind):
    """value columns of a data type"""
    return 1 if kind in ('n', 'k', 'eps_r', 'eps_i') else 2


def described(kind, table, rep):
    """description of the material a table stands for"""
    good = kept(table)
    return {"kind": FULL[kind], "type": rep["type"], "unit": rep["unit"],
            "x": [r[0] for r in good], "re": [r[1] for r in good],
            "im": [r[2] if len(r) > 2 else 0.0 for r in good], "order": 0}


# --------------------------------------------------------------------------
# expected constants
# --------------------------------------------------------------------------

def expected(parts, metres, eps):
    """(value, tolerance) or None; parts are one or two data sets"""
    re = im = None
    name = 'nk'
    for part in parts:
        half = part["kind"] in ('tab_eps_r', 'tab_eps_i')
        name, exp = mats.stored(dict(part, kind='tab_n') if half else part,
                                metres)
        if exp is None:
            return None
        if half:
            name = 'eps'
        if part["kind"] in ('tab_k', 'tab_eps_i'):
            im = exp.re, exp.dre
        elif part["kind"] in ('tab_n', 'tab_eps_r') or part.get("name") in mats.FORMULA:
            re = exp.re, exp.dre
        else:
            re, im = (exp.re, exp.dre), (exp.im, exp.dim)
    re = re or (0.0, 0.0)
    im = im or (0.0, 0.0)
    exp = mats.Expected(re[0], im[0], re[1], im[1])
    if name == ('eps' if eps else 'nk'):
        return exp.value, exp.tol
    if eps:
        return exp.value ** 2, 2.0 * abs(exp.value) * exp.tol + exp.tol ** 2 \
            + 1e-13 * abs(exp.value) ** 2
    return mats.root_of(exp)


def check_material(mat, parts, req, what):
    """values and range"""
    if len(parts) == 1 and len(parts[0].get("x", (1, 2))) == 1:
        own = parts[0]
        from dispersion import Spectrum
        spec = Spectrum(float(own["x"][0]), spectrum_type=own["type"],
                        unit=own["unit"])
        metres = ora.to_metres(own["x"][0], own["type"], own["unit"])
        one = dict(own, x=[own["x"][0], own["x"][0] * 2.0],
                   re=own["re"] * 2, im=own["im"] * 2)
        for eps in (False, True):
            call = mat.get_permittivity if eps else mat.get_nk_data
            if own["kind"] == 'tab_n_alpha':
                want = expected([dict(own, x=own["x"] + [own["x"][0] * 2.0],
                                      re=own["re"] * 2,
                                      im=own["im"] + [0.0])], metres, eps)
                want = want and (want[0], want[1] + 1e-6 * abs(want[0]))
            else:
                want = expected([one], metres, eps)
            reqs.check_values([complex(call(spec))], [want], own["x"], what)
        return
    desc = parts[0] if len(parts) == 1 else {"kind": "two", "n": parts[0],
                                             "k": parts[1]}
    values = reqs.values_of(desc, req)
    metres = reqs.metres_of(values, req)
    spec = reqs.as_spectrum(values, req)
    for eps in (False, True):
        call = mat.get_permittivity if eps else mat.get_nk_data
        got = reqs.result_list(call(spec), req, len(values))
        reqs.check_values(got, [expected(parts, m, eps) for m in metres],
                          values, what)
    low, high = mats.bounds_metres(desc)
    got = files.physical_range(mat)
    for a, b in zip(got, (low, high)):
        tol = 3.0 * (1e-9 * b * b / ora.HC_EV + 1e-15 + 1e-12 * b)
        ensure(abs(a - b) <= tol, "{}: valid range {} m instead of {} m",
               what, got, (low, high))


def check_nodes(mat, parts, what):
    """the rows themselves, in their own unit"""
    from dispersion import Spectrum
    if len(parts) != 1 or "x" not in parts[0] or len(parts[0]["x"]) < 2:
        return
    own = parts[0]
    spec = Spectrum(np.array(own["x"]), spectrum_type=own["type"],
                    unit=own["unit"])
    call = mat.get_permittivity if own["kind"].startswith('tab_eps') else \
        mat.get_nk_data
    got = call(spec)
    ensure(np.shape(got) == (len(own["x"]),), "{}: shape {}", what,
           np.shape(got))
    for x, re, im, value in zip(own["x"], own["re"], own["im"], got):
        if own["kind"] in ('tab_k', 'tab_eps_i'):
            re, im = 0.0, re
        elif own["kind"] in ('tab_n', 'tab_eps_r'):
            im = 0.0
        elif own["kind"] == 'tab_n_alpha':
            wvl = ora.to_metres(x, own["type"], own["unit"]) * 100.0
            im, slack = im * wvl / (4.0 * math.pi), im * 1e-13
            ensure(abs(value.imag - im) <= slack + 1e-12 * im, "{}: k is "
                   "{!r} instead of {!r} at {!r}", what, value.imag, im, x)
            im = value.imag
        ensure(abs(value.real - re) <= 1e-14 * abs(re) and
               abs(value.imag - im) <= 1e-14 * abs(im),
               "{}: {!r} at {!r} instead of {!r}", what, value, x,
               complex(re, im))


# --------------------------------------------------------------------------
# who names the unit
# --------------------------------------------------------------------------

@st.composite
def naming(draw, rep):
    """which of type and unit the file names, and the defaults"""
    named = draw(st.sampled_from(["both", "both", "none", "type", "unit"]))
    other = draw(gens.rep())
    default = {"type": rep["type"], "unit": rep["unit"]}
    if named in ("both", "type"):
        default["type"] = draw(st.sampled_from([other["type"], None]))
    if named in ("both", "unit"):
        default["unit"] = draw(st.sampled_from([other["unit"], None]))
    return {"named": named, "default": default}


def load(path, default):
    """load with defaults; None means not given"""
    from dispersion import Material
    kwargs = {}
    if default["type"] is not None:
        kwargs["spectrum_type"] = default["type"]
    if default["unit"] is not None:
        kwargs["unit"] = default["unit"]
    return Material(file_path=path, **kwargs)


# --------------------------------------------------------------------------
# text files
# --------------------------------------------------------------------------

SPELLINGS = {'Reference': ['REFERENCES', 'REFERENCE'],
             'Comment': ['COMMENTS', 'COMMENT'], 'Name': ['NAME'],
             'FullName': ['FULLNAME'], 'Author': ['AUTHOR']}


@st.composite
def free_line(draw):
    """a header line that is no metadata"""
    text = draw(files.line())
    if ":" in text and text.upper().lstrip().startswith(files.HEADER_WORDS):
        text = text.replace(":", "")
    return text


@st.composite
def text_case(draw, extension):
    kind = draw(st.sampled_from(['n', 'nk', 'n', 'nk', 'k', 'eps',
                                 'n_alpha']))
    rep = draw(st.one_of(gens.rep(), st.just({"type": "wavelength",
                                              "unit": "nm"})))
    case = {"extension": extension, "kind": kind, "rep": rep,
            "naming": draw(naming(rep)),
            "rows": draw(rows(rep, column_count(kind))),
            "notations": draw(st.lists(st.integers(0, 7), min_size=1,
                                       max_size=4)),
            "sep": draw(st.integers(0, 3)), "crlf": draw(st.integers(0, 5)),
            "blank": draw(st.integers(0, 4)), "gap": draw(gap()), "locale":
            draw(st.integers(0, 4)) == 0, "end": draw(st.integers(0, 3))}
    case["explicit"] = kind not in ('n', 'nk') or draw(st.booleans())
    meta = {}
    for key in files.KEYS:
        if draw(st.booleans()):
            meta[key] = draw(files.line())
    case["meta"] = meta
    header = [["meta", key, draw(st.sampled_from(SPELLINGS[key])),
               draw(st.integers(0, 3)), draw(st.integers(0, 2)),
               draw(st.integers(0, 2))] for key in meta]
    for text in draw(st.lists(free_line(), max_size=3)):
        header.append(["free", text, draw(st.integers(0, 2))])
    if draw(st.integers(0, 9)) == 0:
        header += [["free", "remark {}".format(i), i % 3]
                   for i in range(draw(st.integers(8, 60)))]
    for word in ("SpectrumType", "Unit", "DataType"):
        header.append(["set", word, draw(st.integers(0, 3)),
                       draw(st.integers(0, 2)), draw(st.integers(0, 2))])
    case["header"] = draw(st.permutations(header))
    desc = described(kind, case["rows"], rep)
    case["req"] = draw(reqs.request(desc, long=0.05))
    return case


def spell(word, how):
    """a key in some letter case"""
    if how == 0:
        return word.upper()
    if how == 1:
        return word.lower()
    if how == 2:
        return word[:1].upper() + word[1:].lower()
    return "".join(c.upper() if i % 2 else c.lower()
                   for i, c in enumerate(word))


def text_of(case):
    """content of a text file"""
    char = ";" if case["extension"] == ".nk" else "#"
    lines = []
    free = []
    named = case["naming"]["named"]
    for item in case["header"]:
        if item[0] == "free":
            text = " " * item[2] + item[1]
            free.append(text)
            lines.append(char + text)
            continue
        if item[0] == "meta":
            key, value = item[2], case["meta"][item[1]]
            how, before, after = item[3:]
        else:
            key, how, before, after = item[1:]
            if key == "SpectrumType":
                if named not in ("both", "type"):
                    continue
                value = case["rep"]["type"]
            elif key == "Unit":
                if named not in ("both", "unit"):
                    continue
                value = case["rep"]["unit"]
            else:
                if not case["explicit"]:
                    continue
                value = "tabulated " + case["kind"]
        lines.append(char + " " * before + spell(key, how) + ":" +
                     " " * after + value)
    if case["blank"] == 0:
        lines.append("")
    elif case["blank"] == 1:
        lines.append(char)
    notations = case["notations"]
    if case["extension"] == ".csv":
        sep = [",", ", ", " , ", ",  "][case["sep"]]
        indent = ""
    else:
        sep = [" ", "\t", "   ", " \t "][case["sep"]]
        indent = "  " if case["sep"] == 2 else ""
    table = [indent + sep.join(number(v, notations[(i + j) % len(notations)])
                               for j, v in enumerate(row))
             for i, row in enumerate(case["rows"])]
    where = case.get("gap")
    if where:
        where = [where[0], "" if case["extension"] == ".csv" else where[1],
                 where[2]]
    lines += with_gap(table, where)
    end = "\r\n" if case["crlf"] == 0 else "\n"
    text = end.join(lines)
    if case["end"] == 0:
        return text, free
    if case["end"] == 1:
        return text + end + end, free
    return text + end, free


def check_text(case, env):
    """a text file"""
    text, free = text_of(case)
    path = os.path.join(env.fresh_dir(), "data" + case["extension"])
    files.write_text(path, text)
    with files.surroundings(case):
        mat = load(path, case["naming"]["default"])
    parts = [described(case["kind"], case["rows"], case["rep"])]
    env.label(case["kind"])
    env.label("named " + case["naming"]["named"])
    if len(parts[0]["x"]) < len(case["rows"]):
        env.label("dropped rows")
    check_nodes(mat, parts, "rows")
    check_material(mat, parts, case["req"], "values")
    for key in files.KEYS:
        want = case["meta"].get(key, "")
        ensure(mat.meta_data[key] == want, "{} is {!r} instead of {!r}", key,
               mat.meta_data[key], want)
    check_comment(mat, free)


def check_comment(mat, free):
    """free lines in order"""
    got = [line.strip() for line in
           mat.meta_data["MetaComment"].rstrip().split("\n")]
    want = [line.strip() for line in "\n".join(free).rstrip().split("\n")]
    ensure(got == want, "meta comment {!r} instead of {!r}", got, want)


# --------------------------------------------------------------------------
# YAML files
# --------------------------------------------------------------------------

@st.composite
def dataset(draw, what, rep):
    """one data set"""
    out = {"what": what, "rep": rep, "style": draw(st.sampled_from(
        ["own", "rii"])), "block": draw(st.integers(0, 4)),
           "range_key": draw(st.integers(0, 4)),
           "order": draw(st.integers(0, 5)),
           "notations": draw(st.lists(st.integers(0, 7), min_size=1,
                                      max_size=4))}
    if what == "model":
        model = draw(st.one_of(mats.n_model(), mats.n_model(),
                               mats.eps_model()))
        out["model"] = model
        out["rep"] = {"type": model["type"], "unit": model["unit"]}
        out["formula"] = draw(st.booleans())
    else:
        out["rows"] = draw(rows(rep, column_count(what)))
        out["gap"] = draw(gap())
    return out


@st.composite
def gap(draw):
    """blank lines in a table: before which row, how they are written"""
    if draw(st.integers(0, 2)):
        return None
    return [draw(st.integers(0, 4)), draw(st.sampled_from(["", " ", "\t"])),
            draw(st.integers(1, 2))]


def with_gap(lines, where):
    """table lines with blank ones in between"""
    if not where:
        return lines
    at = where[0] % len(lines) if lines else 0
    return lines[:at] + [where[1]] * where[2] + lines[at:]


@st.composite
def yaml_case(draw):
    kinds = draw(st.sampled_from(
        [['n'], ['k'], ['nk'], ['eps'], ['n_alpha'], ['nk'], ['model'],
         ['model'], ['n', 'k'], ['k', 'n'], ['model', 'k'], ['k', 'model'],
         ['eps_r', 'eps_i'], ['eps_i', 'eps_r'], ['eps_r'], ['eps_i']]))
    sets = []
    if len(kinds) == 1:
        rep = draw(gens.rep())
        sets = [draw(dataset(kinds[0], rep))]
        rep = sets[0]["rep"]
        name = draw(naming(rep))
    else:
        if "model" in kinds:
            desc = draw(mats.mixed())
        else:
            desc = draw(files.two_tables())
        together = draw(st.booleans())
        if together:  # the file leaves the unit to the defaults
            rep = {"type": desc["n"]["type"], "unit": desc["n"]["unit"]}
            xs = sorted(ora.convert(x, desc["k"]["type"], desc["k"]["unit"],
                                    rep["type"], rep["unit"])
                        for x in desc["k"]["x"])
            desc["k"] = dict(desc["k"], x=xs, type=rep["type"],
                             unit=rep["unit"])
            name = {"named": draw(st.sampled_from(["none", "type", "unit"])),
                    "default": rep}
        else:
            name = {"named": "both", "default":
                    draw(st.one_of(gens.rep(), st.just({"type": None,
                                                        "unit": None})))}
        for what in kinds:
            own = desc["k"] if what in ("k", "eps_i") else desc["n"]
            item = draw(dataset("k", gens_rep(own)).filter(bool))
            item["what"] = what
            if what == "model":
                item.pop("rows", None)
                item["model"] = own
                item["formula"] = draw(st.booleans())
            else:
                item["rows"] = [[x, y] for x, y in zip(own["x"], own["re"])]
            sets.append(item)
    meta = draw(files.metadata())
    case = {"sets": sets, "naming": name, "meta": meta,
            "spell": [draw(st.integers(0, 3)) for _ in range(7)],
            "plural": draw(st.integers(0, 31)),
            "style": draw(st.sampled_from([None, None, '"', "'"])),
            "unicode": draw(st.booleans()), "last": draw(st.booleans()),
            "crlf": draw(st.integers(0, 5)),
            "locale": draw(st.integers(0, 4)) == 0}
    parts = parts_of(case)
    desc = parts[0] if len(parts) == 1 else {"kind": "two", "n": parts[0],
                                             "k": parts[1]}
    case["req"] = draw(reqs.request(desc, max_points=5))
    return case


def gens_rep(desc):
    """representation of a description"""
    return {"type": desc["type"], "unit": desc["unit"]}


def parts_of(case):
    """descriptions of the data sets"""
    out = []
    for item in case["sets"]:
        if item["what"] == "model":
            out.append(item["model"])
        else:
            out.append(described(item["what"], item["rows"], item["rep"]))
    return out


RANGE_KEYS = ["wavelength_range", "range", "validRange", "spectra_range",
              "ValidRange"]


def scalar(value, case):
    """YAML of a metadata value"""
    text = yaml.safe_dump({"k": value}, default_style=case["style"] if
                          isinstance(value, str) else None,
                          allow_unicode=case["unicode"], width=10 ** 6)
    assert yaml.safe_load(text) == {"k": value}
    return text.split(":", 1)[1]


def yaml_of(case):
    """content of a YAML file"""
    head = ""
    if "MetaComment" in case["meta"]:
        for line in case["meta"]["MetaComment"].rstrip("\n").split("\n"):
            head += "#" + line + "\n"
        head += "\n"
    entries = []
    for i, key in enumerate(files.KEYS):
        if key in case["meta"]:
            word = SPELLINGS[key][(case["plural"] >> i) % len(SPELLINGS[key])]
            entries.append(spell(word, case["spell"][i]) + ":" +
                           scalar(case["meta"][key], case))
    if case["meta"].get("Specification"):
        entries.append(spell("SPECS", case["spell"][5]) + ":" +
                       spec_block(case))
    data = spell("DATA", case["spell"][6]) + ":\n"
    for item in case["sets"]:
        data += set_text(item, case)
    text = "".join(entries) + data if case["last"] else data + \
        "".join(entries)
    text = head + text
    if case["crlf"] == 0:
        text = text.replace("\n", "\r\n")
    return text


def spec_block(case):
    """nested mapping"""
    inner = yaml.safe_dump(case["meta"]["Specification"],
                           allow_unicode=case["unicode"], width=10 ** 6)
    return "\n" + "".join("    " + line + "\n"
                          for line in inner.rstrip("\n").split("\n"))


def set_text(item, case):
    """one entry of DATA"""
    named = case["naming"]["named"]
    own = item["style"] == "own"
    lines = []
    notations = item["notations"]
    if item["what"] == "model":
        model = item["model"]
        name = "model " + model["name"]
        if item["formula"] and model["name"] in mats.FORMULA:
            name = "formula {}".format(mats.FORMULA[model["name"]])
        lines.append([("DataType" if own else "type") + ": " + name])
        key = RANGE_KEYS[4 if own else item["range_key"]]
        lines.append([key + ": {} {}".format(number(mats.ends(model)[0], 0),
                                             number(mats.ends(model)[1], 4))])
        lines.append([("Parameters" if own else "coefficients") + ": " +
                      " ".join(number(p, notations[j % len(notations)])
                               for j, p in enumerate(model["par"]))])
        if own:
            lines.append(["Yields: " + ("n" if model["name"] in mats.FORMULA
                                        else "eps")])
    else:
        lines.append([("DataType" if own else "type") + ": tabulated " +
                      item["what"]])
        key = "Data" if own else "data"
        table = [" ".join(number(v, notations[(i + j) % len(notations)])
                          for j, v in enumerate(row))
                 for i, row in enumerate(item["rows"])]
        if item["block"] == 4:
            table = with_gap(table, item.get("gap"))
            lines.append([key + ': "' + "\\n".join(table) + '"'])
        else:
            sign = ["|", "|-", "|+", "|"][item["block"]]
            block = [key + ": " + sign]
            where = item.get("gap")
            if where and where[1] == " " and where[0] % len(table) == 0:
                where = None
            table = with_gap(table, where)
            block += ["    " + (row.replace(" ", "\t") if item["block"] == 3
                                else row) for row in table]
            lines.append(block)
    if named in ("both", "type"):
        lines.append(["SpectrumType: " + item["rep"]["type"]])
    if named in ("both", "unit"):
        lines.append(["Unit: '" + item["rep"]["unit"] + "'"])
    lines = mats.permute(lines, item["order"])
    text = ""
    for i, block in enumerate(lines):
        for j, line in enumerate(block):
            text += ("  - " if i == 0 and j == 0 else "    ") + line + "\n"
    return text


def check_yaml(case, env):
    """a YAML file"""
    path = os.path.join(env.fresh_dir(), "data.yml")
    files.write_text(path, yaml_of(case))
    with files.surroundings(case):
        mat = load(path, case["naming"]["default"])
    parts = parts_of(case)
    env.label("+".join(item["what"] for item in case["sets"]))
    env.label(case["sets"][0]["style"])
    env.label("named " + case["naming"]["named"])
    check_nodes(mat, parts, "rows")
    check_material(mat, parts, case["req"], "values")
    files.check_metadata(mat, case["meta"], "metadata")


# --------------------------------------------------------------------------
# refused files
# --------------------------------------------------------------------------

@st.composite
def refused_case(draw):
    what = draw(st.sampled_from(["extension", "text type", "yaml type",
                                 "yaml type", "rows", "rows", "rows"]))
    case = {"what": what}
    if what == "rows":
        case.update({"extension": draw(st.sampled_from(
            [".txt", ".csv", ".nk", ".yml"])), "rows": draw(bad_rows()),
                     "named": draw(st.booleans()),
                     "head": draw(st.integers(0, 2))})
        return case
    if what == "extension":
        case["extension"] = draw(st.sampled_from(
            ["", ".dat", ".json", ".md", ".nkk", ".text", ".cs", ".tx", ".ri",
             ".bak", ".tab"]))
        case["content"] = draw(st.sampled_from(["text", "yaml"]))
    elif what == "text type":
        case["extension"] = draw(st.sampled_from([".txt", ".csv", ".nk"]))
        case["type"] = draw(unknown_table())
    else:
        case["type"] = draw(st.one_of(
            unknown_table(), st.sampled_from(
                ["formula 10", "formula 0", "formula x", "formula -1",
                 "model Foo", "model sellmeier", "formula", "model",
                 "constant n", "table n", "nk", "spline nk", "formulas 1"]),
            st.integers(10, 99).map("formula {}".format)))
    return case


@st.composite
def bad_rows(draw):
    """rows of which one is not complete, or not made of numbers"""
    columns = draw(st.sampled_from([2, 3]))
    rows = [[repr(400.0 + 10.0 * i)] + ["1.5", "0.25"][:columns - 1]
            for i in range(draw(st.sampled_from([1, 2, 3, 8, 70])))]
    at = draw(st.integers(0, len(rows) - 1))
    how = draw(st.sampled_from(["short", "word", "word", "long", "columns"]))
    if how == "columns":
        rows = [row[:1] for row in rows]
    elif how == "word":
        rows[at][draw(st.integers(0, columns - 1))] = draw(st.sampled_from(
            ["x", "n", "-", "1.5.2", "1,,5", "--", "1.5m", "0x", "?", "n/a",
             "1e", "1.5e-", "(1)", "1:5", "None", "NULL"]))
    elif len(rows) == 1:
        rows[0] = rows[0][:1]
    elif how == "short":
        rows[at] = rows[at][:-1]
    else:
        rows[at] = rows[at] + ["0.5"]
    return rows


def unknown_table():
    """data types that do not exist"""
    return st.one_of(st.sampled_from(
        ["tabulated foo", "tabulated m", "tabulated kn", "tabulated epsilon",
         "tabulated alpha", "tabulated x", "foo nk", "tabulated"]),
                     st.text("abcdefghijlmopqrstuvwxyz", min_size=3,
                             max_size=8).filter(
                                 lambda s: s not in ('eps',)).map(
                                     "tabulated {}".format))


def check_refused(case, env):
    """must not load"""
    from dispersion import Material
    directory = env.fresh_dir()
    env.label(case["what"])
    if case["what"] == "extension":
        path = os.path.join(directory, "data" + case["extension"])
        content = "400 1.5 0.1\n500 1.6 0.2\n"
        if case["content"] == "yaml":
            content = ("DATA:\n  - type: tabulated nk\n    data: |\n"
                       "      400 1.5 0.1\n      500 1.6 0.2\n")
    elif case["what"] == "rows":
        path = os.path.join(directory, "data" + case["extension"])
        columns = max(len(row) for row in case["rows"])
        name = "tabulated " + ("nk" if columns == 3 else "n")
        if case["extension"] == ".yml":
            content = "# x\n" * case["head"] + \
                "DATA:\n  - type: {}\n    data: |\n".format(name) + "".join(
                    "      " + " ".join(row) + "\n" for row in case["rows"])
        else:
            sep = "," if case["extension"] == ".csv" else " "
            char = ";" if case["extension"] == ".nk" else "#"
            content = (char + " x\n") * case["head"]
            if case["named"]:
                content += "{} DATATYPE: {}\n".format(char, name)
            content += "".join(sep.join(row) + "\n" for row in case["rows"])
    elif case["what"] == "text type":
        path = os.path.join(directory, "data" + case["extension"])
        sep = "," if case["extension"] == ".csv" else "\t"
        char = ";" if case["extension"] == ".nk" else "#"
        content = "{} DATATYPE: {}\n".format(char, case["type"]) + \
            "".join(sep.join(row) + "\n" for row in
                    (("400", "1.5", "0.1"), ("500", "1.6", "0.2")))
    else:
        path = os.path.join(directory, "data.yml")
        content = ("DATA:\n  - type: {}\n    wavelength_range: 0.4 0.5\n"
                   "    coefficients: 0 1 0.1\n    data: |\n"
                   "      0.4 1.5 0.1\n      0.5 1.6 0.2\n").format(
                       case["type"])
    files.write_text(path, content)
    try:
        Material(file_path=path, spectrum_type='wavelength',
                 unit='micrometer')
    except Exception:
        return
    fail("{} {!r} loaded", case["what"], case.get(
        "rows", case.get("type", case.get("extension"))))


# --------------------------------------------------------------------------
# files with syntax errors
# --------------------------------------------------------------------------

MISTAKES = ["\tNAME: x", "NAME: [1, 2", "NAME: 'it", "NAME: \"it", "@name: x",
            "`name: x", "NAME: a: b", "- x", "NAME: *x", "NAME: {a: b",
            "NAME: !!foo x", "]", "---", "...\nNAME: [", "NAME: x\n COMMENTS: y"]


@st.composite
def broken_case(draw):
    return {"file": draw(yaml_case()),
            "mistake": draw(st.sampled_from(MISTAKES)),
            "at": draw(st.sampled_from([0, 0, 0, 1, 2, 5, 100])),
            "fill": draw(st.sampled_from([0, 0, 1, 40, 100, 200, 1000])),
            "width": draw(st.integers(0, 90)),
            "before": draw(st.booleans())}


def check_broken(case, env):
    """no YAML: never loads as something else"""
    import yaml
    from dispersion import Material
    from dispersion.io import read_yaml_file
    lines = yaml_of(case["file"]).split("\n")
    fill = ["#" + " x" * case["width"]] * case["fill"]
    at = min(case["at"], len(lines))
    lines[at:at] = ([] if case["before"] else [case["mistake"]]) + fill + (
        [case["mistake"]] if case["before"] else [])
    text = "\n".join(lines)
    try:
        yaml.safe_load(text)
    except yaml.YAMLError:
        pass
    else:
        env.label("valid after all")
        return
    env.label("broken")
    if len(text) > 4096:
        env.label("long")
    path = os.path.join(env.fresh_dir(), "data.yml")
    files.write_text(path, text)
    for what, call in (
            ("Material", lambda: Material(
                file_path=path, spectrum_type='wavelength', unit='um')),
            ("read_yaml_file", lambda: read_yaml_file(path))):
        try:
            got = call()
        except Exception:
            continue
        fail("{} loads a file that is no YAML, as {}", what, got)


FACETS = [
    Facet(ext[1:], lambda ext=ext: text_case(ext), check_text,
          lambda case, labels: True, 260, 5000, shards=1)
    for ext in (".txt", ".csv", ".nk")] + [
    Facet("yaml", yaml_case, check_yaml, lambda case, labels: True, 600, 9000,
          shards=4),
    Facet("refused", refused_case, check_refused, lambda case, labels: True,
          260, 4000),
    Facet("broken", broken_case, check_broken,
          lambda case, labels: "broken" in labels, 200, 3000)]
