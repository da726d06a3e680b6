"""strategies; every generated object is plain JSON data"""
import ast
import functools
import glob
import math

from hypothesis import strategies as st

from vh import oracle as ora
from vh.core import REPO_SRC

TYPES = list(ora.CANONICAL)


def cached(function):
    """keep the strategies a function makes (making them is slow)"""
    made = {}

    @functools.wraps(function)
    def wrapper(*args, **kwargs):
        key = (args, tuple(sorted(kwargs.items())))
        try:
            return made[key]
        except TypeError:
            return function(*args, **kwargs)
        except KeyError:
            made[key] = function(*args, **kwargs)
            return made[key]
    return wrapper


# --------------------------------------------------------------------------
# literals of the code under test, used as a dictionary for generation only
# --------------------------------------------------------------------------

@functools.lru_cache(maxsize=None)
def literals():
    """(positive floats, integers, short strings) that occur in the source"""
    floats, ints, texts = set(), set(), set()
    for path in sorted(glob.glob(REPO_SRC + "/dispersion/**/*.py",
                                 recursive=True)):
        try:
            with open(path, encoding="utf8") as fpt:
                tree = ast.parse(fpt.read())
        except (SyntaxError, ValueError, OSError):
            continue
        for node in ast.walk(tree):
            if not isinstance(node, ast.Constant):
                continue
            value = node.value
            if isinstance(value, bool):
                continue
            if isinstance(value, (int, float)):
                try:
                    number = float(abs(value))
                except OverflowError:
                    continue
                if 0.0 < number < math.inf:
                    floats.add(number)
                if isinstance(value, int) or number == int(min(number, 1e9)):
                    if number <= 1e6:
                        ints.add(int(number))
            elif isinstance(value, str) and 0 < len(value) <= 24:
                texts.add(value)
    return sorted(floats), sorted(ints), sorted(texts)


@functools.lru_cache(maxsize=None)
def _near(low, high):
    """literals and their neighbours inside an interval"""
    out = set()
    for value in literals()[0]:
        for scale in (1.0, 1e-3, 1e-6, 1e-9, 1e-10, 1e-2, 1e3, 1e9):
            for near in (value * scale,
                         math.nextafter(value * scale, math.inf),
                         math.nextafter(value * scale, 0.0),
                         value * scale * 1.001, value * scale * 0.999):
                if low <= near <= high:
                    out.add(near)
    return sorted(out)


@cached
def lengths(low, high):
    """array lengths: small ones, and around integers found in the source"""
    near = sorted({n + d for n in literals()[1] for d in (-1, 0, 1)
                   if low <= n + d <= high} |
                  {n for n in (7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 99,
                               100, 101, 127, 128, 129, 255, 256, 257, 499,
                               500, 501, 511, 513, 999, 1000, 1001, 1023,
                               1024, 1025, 1500, 2000, 2049, 4097, 5001,
                               10001)
                   if low <= n <= high})
    small = st.integers(low, min(high, low + 5))
    if not near:
        return small
    return st.one_of(small, small, st.sampled_from(near))


# --------------------------------------------------------------------------
# names and units
# --------------------------------------------------------------------------

@cached
def cased(text):
    """a name in one of several letter cases"""
    variants = sorted({text, text.upper(), text.title(),
                       "".join(c.upper() if i % 2 else c
                               for i, c in enumerate(text))} - {text})
    return st.sampled_from([text] * 4 + variants)


@cached
@st.composite
def rep(draw, types=None, case=True, units=None):
    """a spectrum type and unit name"""
    spectrum_type = draw(st.sampled_from(types or TYPES +
                                         ['wavelength', 'wavelength']))
    choice = [u for u in ora.CANONICAL[spectrum_type]
              if units is None or u in units]
    unit = draw(st.sampled_from(choice))
    alias = draw(st.sampled_from(ora.ALIASES[unit]))
    if case:
        return {"type": draw(cased(spectrum_type)), "unit": draw(cased(alias))}
    return {"type": spectrum_type, "unit": alias}


ALL_NAMES = [(t, a) for t, units in ora.CANONICAL.items() for u in units
             for a in ora.ALIASES[u]]
ALL_REPS = [(t, u) for t, units in ora.CANONICAL.items() for u in units]


@st.composite
def other_rep(draw, rep_from):
    """mostly another quantity or unit than the given one"""
    here = (rep_from["type"].lower(), ora.canonical(rep_from["unit"]))
    others = [r for r in ALL_REPS if r != here]
    index = draw(st.integers(0, len(others) + 1))
    if index >= len(others):
        spectrum_type, unit = here
    else:
        spectrum_type, unit = others[index]
    alias = draw(st.sampled_from(ora.ALIASES[unit]))
    return {"type": draw(cased(spectrum_type)), "unit": draw(cased(alias))}


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------

@cached
def unit_float():
    """float in [0, 1], ends included, well spread"""
    return st.one_of(st.floats(0.0, 1.0, allow_subnormal=False),
                     st.integers(0, 1000).map(lambda i: i / 1000.0))


@cached
def log_between(low, high):
    """log-uniform positive float in [low, high], sometimes a literal of the
    source or a short decimal"""
    a, b = math.log10(low), math.log10(high)

    def make(t):
        return min(max(10.0 ** (a + (b - a) * t), low), high)

    def short(t):
        return min(max(float("{:.2g}".format(make(t))), low), high)
    near = _near(low, high)
    choices = [unit_float().map(make)] * 4 + [unit_float().map(short)]
    if near:
        choices.append(st.sampled_from(near))
    return st.one_of(choices)


@cached
def signed(low, high):
    """log-uniform magnitude with sign, or zero"""
    return st.one_of(st.just(0.0), log_between(low, high),
                     log_between(low, high).map(lambda v: -v),
                     st.integers(-9, 9).map(float))


def spread(n, seed):
    """n deterministic numbers in [0, 1) (expansion of a compact case)"""
    golden = 0.6180339887498949
    return [((i + 1) * golden + seed * 0.7548776662466927 +
             ((i * i) % 97) * 0.31) % 1.0 for i in range(n)]


CONTAINERS = ['float', 'npfloat', 'list', 'tuple', 'array']


def pack(values, container):
    """put floats in a container; a scalar container takes one value"""
    import numpy as np
    if container == 'float':
        return float(values[0])
    if container == 'npfloat':
        return np.float64(values[0])
    if container == 'list':
        return list(values)
    if container == 'tuple':
        return tuple(values)
    return np.array(values, dtype=float)


# texts a metadata entry may hold: printable, no line breaks or exotic spaces
TEXT_ALPHABET = st.one_of(
    st.sampled_from("abcXYZ019 -_.,;:#'\"()[]{}%&*!?/\\|@~^+=<>$`"),
    st.sampled_from("äöüßéÅμΩλ²³°€–“”中文Жя"))


@cached
def line(max_size=30, min_size=0):
    """one line of text without leading or trailing white space"""
    return st.text(TEXT_ALPHABET, min_size=min_size,
                   max_size=max_size).map(lambda s: s.strip())
