"""what the file properties share: texts, metadata, writing, comparison"""
import contextlib
import locale
import os

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import ensure

KEYS = ['Reference', 'Comment', 'Name', 'FullName', 'Author']
# first words that the text format gives a meaning
HEADER_WORDS = ('COMMENT', 'REFERENCE', 'AUTHOR', 'NAME', 'FULLNAME',
                'METACOMMENT', 'VALIDRANGE', 'DATATYPE', 'SPECTRUMTYPE',
                'UNIT', 'YIELDS')

SPECIAL = ['yes', 'no', 'null', '~', 'true', '1e5', '12', '1.50', '0x1F',
           '2020-01-01', '- a', '{a: b}', '[1, 2]', '? x', 'key: value',
           "it's", '"quoted"', '%TAG', '---', '...', '&a', '*a', '!tag', '@x',
           '`x`', '#x', '; x', 'a # b', 'a ; b', 'a: b: c', ': x', 'x:',
           'http://dx.doi.org/10.1000/182', 'NAME: x', 'DATA', '<a href="x">',
           'n,k', '1,2,3', 'µm', 'Å', 'O\u2082', '=1', '\\n', '\\', '|', '>',
           "100%", "%s", "{}", "{0}"]


@gens.cached
def character():
    """one printable character"""
    return st.one_of(
        gens.TEXT_ALPHABET, gens.TEXT_ALPHABET,
        st.characters(exclude_categories=(
            'Cc', 'Cf', 'Cs', 'Co', 'Cn', 'Zl', 'Zp', 'Zs')).filter(
                str.isprintable))


@gens.cached
def line(max_size=24):
    """one line of printable text, no white space at its ends"""
    short = st.text(character(), max_size=max_size).map(str.strip)
    long = st.lists(st.sampled_from(['Handbook', 'of', 'optical', 'constants,',
                                     'α-SiO2:', '1985', '“II”', 'pp.', '#3',
                                     'J. Appl. Phys.']),
                    min_size=10, max_size=60).map(" ".join)
    return st.one_of(short, short, short, st.sampled_from(SPECIAL), long)


@gens.cached
def paragraph(max_lines=4):
    """several lines"""
    return st.lists(line(), min_size=0, max_size=max_lines).map("\n".join)


@gens.cached
@st.composite
def metadata(draw, yaml=True):
    """values of the metadata entries a user may set"""
    out = {}
    for key in KEYS:
        if draw(st.integers(0, 2)):
            out[key] = draw(line())
    if yaml and draw(st.integers(0, 5)) == 0:
        out[draw(st.sampled_from(KEYS))] = draw(paragraph())
    if draw(st.booleans()):
        out["MetaComment"] = draw(comment(yaml))
    if yaml and draw(st.booleans()):
        out["Specification"] = draw(specification())
    return out


@gens.cached
@st.composite
def comment(draw, yaml=True):
    """a meta comment"""
    lines = draw(st.lists(line(), min_size=0, max_size=4))
    if draw(st.integers(0, 9)) == 0:
        lines += ["remark {}".format(i)
                  for i in range(draw(st.integers(8, 60)))]
    lines = [draw(st.sampled_from(["", " ", "  "])) + text for text in lines]
    if not yaml:
        lines = [text for text in lines
                 if not (":" in text and
                         text.upper().lstrip().startswith(HEADER_WORDS))]
    return "\n".join(lines) + draw(st.sampled_from(["", "", "\n", "\n\n"]))


@gens.cached
@st.composite
def specification(draw):
    """a specification as in refractiveindex.info files"""
    values = st.one_of(st.booleans(), st.none(), st.integers(-1000, 1000),
                       gens.log_between(1e-9, 1e9), line(10),
                       st.lists(st.integers(0, 9), max_size=3))
    names = st.sampled_from(['n_absolute', 'wavelength_vacuum',
                             'film_thickness', 'substrate', 'temperature',
                             'pressure', 'deposition_temperature',
                             'direction', 'remark', 'grown by', 'Z', 'a'])
    return draw(st.dictionaries(names, values, max_size=4))


def set_metadata(mat, meta, as_numpy=False):
    """as a user would"""
    for key, value in meta.items():
        if as_numpy:
            mat.meta_data[key] = to_numpy(value)
            continue
        mat.meta_data[key] = dict(value) if isinstance(value, dict) else value


def to_numpy(value):
    """numbers and texts as they come out of arrays"""
    if isinstance(value, dict):
        return {key: to_numpy(item) for key, item in value.items()}
    if isinstance(value, list):
        return [to_numpy(item) for item in value]
    for plain, scalar in ((int, np.int64), (float, np.float64),
                          (str, np.str_)):
        if type(value) is plain:
            return scalar(value)
    return value


def check_metadata(mat, meta, what, yaml=True):
    """metadata as set, empty otherwise"""
    for key in KEYS:
        got = mat.meta_data[key]
        want = meta.get(key, "")
        ensure(got == want, "{}: {} is {!r} instead of {!r}", what, key, got,
               want)
    got = mat.meta_data["MetaComment"]
    want = meta.get("MetaComment", "")
    ensure(isinstance(got, str), "{}: meta comment {!r}", what, got)
    if yaml:
        ensure(got.rstrip("\n\r") == want.rstrip("\n\r"),
               "{}: meta comment {!r} instead of {!r}", what, got, want)
        got, want = mat.meta_data["Specification"], meta.get("Specification",
                                                             {})
        ensure(got == want and all(type(got[k]) is type(want[k])
                                   for k in want),
               "{}: specification {!r} instead of {!r}", what, got, want)
    else:
        ensure(got.rstrip() == want.rstrip(),
               "{}: meta comment {!r} instead of {!r}", what, got, want)


@gens.cached
def file_name():
    """name without extension"""
    return st.sampled_from(["x", "x", "x", "Si", "a.b", "two words", "Ünï-中",
                            "UPPER", "n.txt", "n.yml", "100%", "#1", "-"])


# --------------------------------------------------------------------------
# environment
# --------------------------------------------------------------------------

@contextlib.contextmanager
def surroundings(case):
    """locale and numpy print settings a user may have"""
    old = locale.setlocale(locale.LC_CTYPE)
    with np.printoptions(**case.get("print", {})):
        try:
            if case.get("locale"):
                locale.setlocale(locale.LC_CTYPE, "C")
            yield
        finally:
            locale.setlocale(locale.LC_CTYPE, old)


@gens.cached
def print_settings():
    """numpy print settings"""
    return st.sampled_from([{}, {}, {}, {"precision": 2},
                            {"threshold": 5, "edgeitems": 1},
                            {"suppress": True}, {"linewidth": 20},
                            {"sign": "+"}, {"floatmode": "fixed"}])


# --------------------------------------------------------------------------
# comparison of two materials
# --------------------------------------------------------------------------

def nodes(desc):
    """[(rep, values)]: spectral values to compare two materials at, exactly
    representable in the unit of the data"""
    if desc["kind"] in ("two", "mixed"):
        return []
    own = {"type": desc["type"], "unit": desc["unit"]}
    if desc["kind"] == "model":
        low, high = desc["range"]
        return [(own, [float(low), float(high)])]
    return [(own, [float(v) for v in desc["x"]])]


def compare(first, second, desc, req, what, model=False):
    """same optical constants and range"""
    from dispersion import Spectrum
    for rep, values in nodes(desc):
        spec = Spectrum(np.array(values), spectrum_type=rep["type"],
                        unit=rep["unit"])
        for name in ("get_nk_data", "get_permittivity"):
            a = np.asarray(getattr(first, name)(spec))
            b = np.asarray(getattr(second, name)(spec))
            _equal(a, b, values, what + " at its points, " + name, model, 0.0)
    values = reqs.values_of(desc, req)
    spec = reqs.as_spectrum(values, req)
    for name in ("get_nk_data", "get_permittivity"):
        a = np.atleast_1d(np.asarray(getattr(first, name)(spec)))
        b = np.atleast_1d(np.asarray(getattr(second, name)(spec)))
        _equal(a, b, values, what + ", " + name, model, 1e-14)
    one, two = physical_range(first), physical_range(second)
    exact = (first.defaults['spectrum_type'].lower(),
             ora.canonical(first.defaults['unit'])) == \
        (second.defaults['spectrum_type'].lower(),
         ora.canonical(second.defaults['unit']))
    for a, b in zip(one, two):
        tol = 1e-13 * a if exact else 3.0 * (
            1e-9 * a * a / ora.HC_EV + 1e-15 + 1e-12 * a)
        ensure(a == b or abs(a - b) <= tol,
               "{}: valid range {} m instead of {} m", what, two, one)


def _equal(a, b, values, what, model, loose):
    ensure(a.shape == b.shape, "{}: shapes {} and {}", what, a.shape, b.shape)
    for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
        if not (np.isfinite(x) and np.isfinite(y)):
            ensure(np.isfinite(x) == np.isfinite(y) or model,
                   "{}: {!r} became {!r} at {!r}", what, x, y, values[i])
            continue
        tol = 1e-15 + loose
        if model:
            tol = 1e-6
            ensure(abs(x - y) <= tol * (1.0 + abs(x)), "{}: {!r} became {!r} "
                   "at {!r}", what, x, y, values[i])
            continue
        for p, q in ((x.real, y.real), (x.imag, y.imag)):
            scale = abs(p) + (abs(x) if loose else 0.0)
            ensure(abs(p - q) <= tol * scale, "{}: {!r} became {!r} at {!r}",
                   what, x, y, values[i])


def physical_range(mat):
    """maximum valid range in metres, increasing"""
    values = mat.get_maximum_valid_range()
    return sorted(ora.to_metres(v, mat.defaults['spectrum_type'],
                                mat.defaults['unit']) for v in values)


def same_representation(first, second, what):
    """same default quantity and unit"""
    for mat, other in ((first, second),):
        ensure(mat.defaults['spectrum_type'].lower() ==
               other.defaults['spectrum_type'].lower() and
               ora.canonical(mat.defaults['unit']) ==
               ora.canonical(other.defaults['unit']),
               "{}: {} became {}", what, mat.defaults, other.defaults)


def write_text(path, text):
    """a hand-written file"""
    with open(path, "w", encoding="utf8", newline="") as fpt:
        fpt.write(text)


def rows_text(desc, sep=" "):
    """rows of a two-column table"""
    return "".join("{!r}{}{!r}\n".format(x, sep, y)
                   for x, y in zip(desc["x"], desc["re"]))


def path_for(env, case, extension):
    """where to write, in a fresh directory"""
    return os.path.join(env.fresh_dir(), case.get("file", "x") + extension)


def build(desc, env):
    """material of a description, 'tab_k' and 'two' tables included"""
    from dispersion import Material
    if desc["kind"] == "tab_k":
        path = os.path.join(env.fresh_dir(), "k.yml")
        write_text(path, "DATA:\n  - DataType: tabulated k\n"
                   "    SpectrumType: {}\n    Unit: '{}'\n    Data: |\n{}"
                   .format(desc["type"], desc["unit"],
                           "".join("        {!r} {!r}\n".format(x, y) for x, y
                                   in zip(desc["x"], desc["re"]))))
        return Material(file_path=path)
    if desc["kind"] == "two":
        path = os.path.join(env.fresh_dir(), "two.yml")
        text = "DATA:\n"
        for letter in ("n", "k") if not desc["swap"] else ("k", "n"):
            tab = desc[letter]
            name = letter
            if desc.get("eps"):
                name = {"n": "eps_r", "k": "eps_i"}[letter]
            text += ("  - DataType: tabulated {}\n    SpectrumType: {}\n"
                     "    Unit: '{}'\n    Data: |\n".format(
                         name, tab["type"], tab["unit"]))
            text += "".join("        {!r} {!r}\n".format(x, y)
                            for x, y in zip(tab["x"], tab["re"]))
        write_text(path, text)
        return Material(file_path=path)
    return mats.build(desc, env)


@gens.cached
@st.composite
def two_tables(draw):
    """n and k in tables of their own, possibly in different units"""
    how = draw(st.sampled_from(["free", "free", "free", "same", "near",
                                "longer", "numbers"]))
    if how == "numbers":
        return draw(same_numbers())
    first = draw(mats.table(kinds=('tab_n',), shuffle=False, max_rows=6))
    if how == "free":
        low, high = mats.bounds_metres(first)
        rep = draw(st.one_of(gens.rep(), st.just({"type": first["type"],
                                                  "unit": first["unit"]})))
        rows = draw(st.integers(2, 6))
        start = low * (high / low) ** draw(st.floats(-0.3, 0.2))
        stop = low * (high / low) ** draw(st.floats(0.7, 1.4))
        ratio = (stop / start) ** (1.0 / (rows - 1))
        xs = sorted(ora.from_metres(start * ratio ** i, rep["type"],
                                    rep["unit"]) for i in range(rows))
    else:
        rep = {"type": first["type"], "unit": first["unit"]}
        xs = list(first["x"])
        if how == "longer":
            extra = xs[-1] * (1.0 + draw(gens.log_between(1e-3, 1.0)))
            xs = draw(st.sampled_from([xs + [extra], xs[:-1] + [extra]]))
        elif how == "near":
            at = draw(st.integers(0, len(xs) - 1))
            left = xs[at - 1] if at else 0.0
            xs[at] -= (xs[at] - left) * draw(gens.log_between(1e-9, 0.3))
    second = {"kind": "tab_k", "type": rep["type"], "unit": rep["unit"],
              "x": xs, "re": [draw(mats.passive()) for _ in xs], "order": 0}
    return {"kind": "two", "n": first, "k": second,
            "swap": draw(st.booleans())}


@st.composite
def same_numbers(draw):
    """n and k whose spectral values are the same numbers in other units"""
    one, two, low, high = draw(st.sampled_from([
        (("wavelength", "a"), ("wavelength", "nm"), 1e3, 3e4),
        (("wavelength", "nm"), ("wavelength", "um"), 1.0, 5e4),
        (("wavelength", "um"), ("wavelength", "nm"), 1.0, 5e4),
        (("energy", "ev"), ("wavelength", "um"), 0.3, 4.0),
        (("wavelength", "um"), ("energy", "ev"), 0.3, 4.0),
        (("frequency", "hz"), ("angularfrequency", "1/s"), 1e14, 2e15)]))
    rows = draw(st.integers(2, 6))
    xs = [low * (high / low) ** (i / (rows - 1)) for i in range(rows)]
    xs[0] *= draw(st.floats(0.9, 1.0))
    parts = [{"kind": kind, "type": rep[0], "unit": rep[1], "x": list(xs),
              "re": [draw(values()) for _ in xs], "order": 0}
             for kind, rep, values in (("tab_n", one, mats.optical),
                                       ("tab_k", two, mats.passive))]
    return {"kind": "two", "n": parts[0], "k": parts[1],
            "swap": draw(st.booleans())}


@gens.cached
@st.composite
def separate(draw):
    """real and imaginary part in tables of their own, of n and k or of the
    permittivity, of one row or more, with any overlap, often zero"""
    start = draw(gens.log_between(1e-7, 1e-4))
    parts = []
    rep = draw(gens.rep())
    for values in (mats.optical(), mats.passive()):
        if draw(st.booleans()):
            rep = draw(gens.rep())
        rows = draw(st.sampled_from([1, 1, 2, 2, 3, 5]))
        wvl = [start * draw(st.sampled_from([0.7, 0.9, 1.0, 1.0, 1.3]))]
        while len(wvl) < rows:
            wvl.append(wvl[-1] * draw(st.sampled_from([1.05, 1.3, 2.0])))
        xs = sorted(ora.from_metres(w, rep["type"], rep["unit"]) for w in wvl)
        level = draw(st.sampled_from(["any", "any", "flat", "zero"]))
        flat = 0.0 if level == "zero" else draw(values)
        parts.append({"kind": "tab_n", "type": rep["type"],
                      "unit": rep["unit"], "x": xs, "order": 0,
                      "re": [draw(values) if level == "any" else flat
                             for _ in xs]})
    parts[1]["kind"] = "tab_k"
    return {"kind": "two", "n": parts[0], "k": parts[1],
            "eps": draw(st.booleans()), "swap": draw(st.booleans())}
