"""reference physics, written independently of the code under test"""
import math

import numpy as np

C = 299792458.0
H = 6.62607015e-34
QE = 1.602176634e-19
HC_EV = H * C / QE  # eV m
TWO_PI = 2.0 * math.pi

# canonical unit -> factor to metres
WAVELENGTH = {'m': 1.0, 'cm': 1e-2, 'um': 1e-6, 'nm': 1e-9, 'a': 1e-10}

CANONICAL = {'wavelength': ['m', 'cm', 'um', 'nm', 'a'],
             'frequency': ['hz'],
             'energy': ['ev'],
             'angularfrequency': ['1/s'],
             'wavenumber': ['1/cm']}

ALIASES = {'m': ['meter', 'metre', 'm'],
           'cm': ['centimeter', 'centimetre', 'cm'],
           'um': ['micrometer', 'micrometre', 'um'],
           'nm': ['nanometer', 'nanometre', 'nm'],
           'hz': ['hertz', 'hz'],
           'ev': ['electronvolt', 'ev'],
           '1/s': ['1/s', 'rad/s'],
           '1/cm': ['1/cm'],
           'a': ['a', 'angstrom']}

TO_CANONICAL = {alias: unit for unit, names in ALIASES.items()
                for alias in names}

# constant k of lambda = k / value (metres) for the inverse quantities
INVERSE = {'frequency': C,
           'energy': HC_EV,
           'angularfrequency': TWO_PI * C,
           'wavenumber': TWO_PI * 1e-2}

# largest rounding error a converted result may carry, in its own unit
ROUNDING = {'m': 0.0, 'cm': 1e-13, 'um': 1e-9, 'nm': 1e-6, 'a': 1e-5,
            'hz': 0.0, 'ev': 1e-9, '1/s': 0.0, '1/cm': 0.0}

REL = 1e-12


def canonical(unit):
    """canonical unit name of an alias in any case"""
    return TO_CANONICAL[unit.lower()]


def _inv(value):
    if value == 0.0:
        return math.inf
    if value == math.inf:
        return 0.0
    return 1.0 / value


def to_metres(value, spectrum_type, unit):
    """wavelength in metres of a spectral value"""
    spectrum_type = spectrum_type.lower()
    unit = canonical(unit)
    value = float(value)
    if spectrum_type == 'wavelength':
        return value * WAVELENGTH[unit]
    return INVERSE[spectrum_type] * _inv(value)


def from_metres(metres, spectrum_type, unit):
    """spectral value of a wavelength in metres"""
    spectrum_type = spectrum_type.lower()
    unit = canonical(unit)
    if spectrum_type == 'wavelength':
        return metres / WAVELENGTH[unit]
    return INVERSE[spectrum_type] * _inv(metres)


def convert(value, from_type, from_unit, to_type, to_unit):
    """spectral value in another quantity and unit"""
    return from_metres(to_metres(value, from_type, from_unit),
                       to_type, to_unit)


def slack(value, unit):
    """uncertainty of a converted value in its unit"""
    if not math.isfinite(value):
        return 0.0
    return REL * abs(value) + ROUNDING[canonical(unit)]


def close(actual, expected, tol):
    """scalar closeness, exact for infinities"""
    if math.isinf(expected) or math.isinf(actual):
        return actual == expected
    return abs(actual - expected) <= tol


# --------------------------------------------------------------------------
# piecewise linear tables with uncertain argument
# --------------------------------------------------------------------------

def linear_bounds(xs, ys, x, dx):
    """smallest and largest value of the piecewise linear interpolant over
    [x-dx, x+dx] clipped to the table (xs increasing)"""
    low = min(max(x - dx, xs[0]), xs[-1])
    high = min(max(x + dx, xs[0]), xs[-1])
    values = [_linear(xs, ys, low), _linear(xs, ys, high)]
    first = int(np.searchsorted(xs, low, side='left'))
    last = int(np.searchsorted(xs, high, side='right'))
    values.extend(ys[first:last])
    return min(values), max(values)


def _linear(xs, ys, x):
    i = int(np.searchsorted(xs, x, side='right')) - 1
    i = min(max(i, 0), len(xs) - 2)
    t = (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[i] * (1.0 - t) + ys[i + 1] * t


# --------------------------------------------------------------------------
# refractive index models: wavelength w in micrometres
# each returns (value, scale): scale bounds the terms that were added, for the
# rounding error; value is None where the formula has no real finite value
# --------------------------------------------------------------------------

def _root(square, scale):
    if not math.isfinite(square) or square <= 0.0:
        return None, scale
    root = math.sqrt(square)
    return root, scale / root


def model_n(name, par, w):
    """value of a refractive index model"""
    par = [float(p) for p in par]
    try:
        return _model_n(name, par, w)
    except (ZeroDivisionError, OverflowError, TypeError):
        return None, math.inf  # a pole, or the root of a negative number


def _pairs(par, start=1):
    for i in range(start, len(par) - 1, 2):
        yield par[i], par[i + 1]


def _model_n(name, par, w):
    w2 = w * w
    terms = [par[0]] if par else [0.0]
    if name == 'Sellmeier':
        terms.append(1.0)
        for b, c in _pairs(par):
            terms.append(b * w2 / (w2 - c * c))
        return _root(math.fsum(terms), _abs(terms))
    if name == 'Sellmeier2':
        terms.append(1.0)
        for b, c in _pairs(par):
            terms.append(b * w2 / (w2 - c))
        return _root(math.fsum(terms), _abs(terms))
    if name == 'Polynomial':
        for b, c in _pairs(par):
            terms.append(b * w ** c)
        return _root(math.fsum(terms), _abs(terms))
    if name == 'RefractiveIndexInfo':
        for i in (1, 5):
            if len(par) > i:
                terms.append(par[i] * w ** par[i + 1] /
                             (w2 - par[i + 2] ** par[i + 3]))
        for b, c in _pairs(par, 9):
            terms.append(b * w ** c)
        return _root(math.fsum(terms), _abs(terms))
    if name == 'Cauchy':
        for b, c in _pairs(par):
            terms.append(b * w ** c)
        return math.fsum(terms), _abs(terms)
    if name == 'Gases':
        terms.append(1.0)
        for b, c in _pairs(par):
            terms.append(b / (c - 1.0 / w2))
        return math.fsum(terms), _abs(terms)
    if name == 'Herzberger':
        ell = 1.0 / (w2 - 0.028)
        terms.extend([par[1] * ell, par[2] * ell * ell, par[3] * w2,
                      par[4] * w2 * w2, par[5] * w2 * w2 * w2])
        return math.fsum(terms), _abs(terms)
    if name == 'Retro':
        terms.extend([par[1] * w2 / (w2 - par[2]), par[3] * w2])
        r = math.fsum(terms)
        scale = _abs(terms)
        value, _ = _root((1.0 + 2.0 * r) / (1.0 - r), 1.0)
        if value is None:
            return None, scale
        # d n / d r = 3 / (2 n (1-r)^2)
        return value, value + (1.0 + scale) * 1.5 / (value * (1.0 - r) ** 2)
    if name == 'Exotic':
        d = w - par[4]
        terms.extend([par[1] / (w2 - par[2]), par[3] * d / (d * d + par[5])])
        return _root(math.fsum(terms), _abs(terms))
    raise KeyError(name)


def _abs(terms):
    return math.fsum(abs(t) for t in terms)


# --------------------------------------------------------------------------
# permittivity models: energy e in eV
# --------------------------------------------------------------------------

def drude(par, e):
    """1 - wp^2/(E^2 + i g E)"""
    wp, g = float(par[0]), float(par[1])
    return 1.0 - wp ** 2 / complex(e * e, g * e)


def drude_lorentz(par, e):
    """1 + f wp^2/(w0^2 - E^2 - i g E)"""
    wp, f, w0, g = [float(p) for p in par]
    return 1.0 + f * wp ** 2 / complex(w0 * w0 - e * e, -g * e)


def tauc_lorentz_imag(par, e):
    """Jellison-Modine imaginary part"""
    a, e0, c, eg = [float(p) for p in par[:4]]
    if e <= eg:
        return 0.0
    return (a * e0 * c * (e - eg) ** 2 /
            ((e * e - e0 * e0) ** 2 + c * c * e * e) / e)


def tauc_lorentz_real(par, e):
    """eps_inf plus the Kramers-Kronig transform of the imaginary part

    the pole at e is subtracted from the integrand and integrated by hand; the
    rest is smooth and integrated in panels that resolve pole and resonance
    """
    from scipy.integrate import quad
    e0, c, eg, eps_inf = (float(par[1]), float(par[2]), float(par[3]),
                          float(par[4]))
    at_e = tauc_lorentz_imag(par, e)

    def smooth(x):
        if x == e:
            x = e * (1.0 + 1e-7)
        return (x * tauc_lorentz_imag(par, x) - e * at_e) / (x * x - e * e)

    split = 3.0 * e + 3.0 * e0 + 5.0 * c + 2.0 * eg
    marks = [0.1 * e, 0.5 * e, e, 2.0 * e, 10.0 * e] + \
        [e0 + f * c for f in (-2.0, -1.0, -0.3, 0.0, 0.3, 1.0, 2.0)]
    ends = [eg] + sorted({m for m in marks if eg < m < split}) + [split]
    value = sum(quad(smooth, low, high, limit=400, epsabs=1e-12)[0]
                for low, high in zip(ends, ends[1:]))
    value += quad(smooth, split, np.inf, limit=800, epsabs=1e-12)[0]
    if at_e > 0.0:
        value -= 0.5 * at_e * math.log(abs(e - eg) / (e + eg))
    return eps_inf + 2.0 / math.pi * value


def fano(par, e):
    """normalised Fano profile"""
    q, e0, g = [float(p) for p in par]
    eps = 2.0 * (e - e0) / g
    return (eps + q) ** 2 / ((1.0 + q * q) * (eps * eps + 1.0))
