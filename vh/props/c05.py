"""C05: permittivity models"""
import os

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import oracle as ora
from vh import reqs
from vh.core import Facet, ensure

RULE = ("a case counts if it evaluates a model with non-zero strength at one "
        "or more points the oracle judges; distinct by its full JSON "
        "description")
ASSUMPTIONS = ["non-negative strengths and losses, positive energies",
               "Tauc-Lorentz: broadening below twice the pole energy (the "
               "closed form is real there); real part compared with a "
               "numerical Kramers-Kronig integral (2e-7)",
               "Drude and Drude-Lorentz away from a lossless pole"]


@st.composite
def case_strategy(draw, name):
    desc = draw(mats.eps_model(names=[name]))
    few = name == 'TaucLorentz'
    return {"desc": desc, "way": draw(st.sampled_from(
        ['direct', 'material', 'material', 'file'])),
            "params": draw(st.sampled_from(['list', 'array'])),
            "req": draw(reqs.request(desc, long=0.0 if few else 0.05,
                                     max_points=3 if few else 6))}


def build(case, env):
    """(evaluator of eps, material or None)"""
    import dispersion
    from dispersion import Material
    desc, way = case["desc"], case["way"]
    par = np.array(desc["par"]) if case["params"] == 'array' else desc["par"]
    if way == 'direct':
        model = getattr(dispersion.spectral_data, desc["name"])(
            par, tuple(mats.ends(desc)), spectrum_type=desc["type"],
            unit=desc["unit"])
        return model.evaluate, None
    if way == 'material':
        kw = mats.model_kw(desc)
        kw['parameters'] = par
        mat = Material(model_kw=kw)
    else:
        path = os.path.join(env.fresh_dir(), "m.yml")
        with open(path, "w", encoding="utf8") as fpt:
            fpt.write("DATA:\n  - DataType: model {}\n"
                      "    ValidRange: {!r} {!r}\n    SpectrumType: {}\n"
                      "    Unit: {}\n    Yields: eps\n    Parameters: {}\n"
                      .format(desc["name"], mats.ends(desc)[0],
                              mats.ends(desc)[1], desc["type"], desc["unit"],
                              " ".join(repr(p) for p in desc["par"])))
        mat = Material(file_path=path)
    return mat.get_permittivity, mat


def check(case, env):
    """the formula at every point, passivity, refractive index"""
    desc, req = case["desc"], case["req"]
    values = reqs.values_of(desc, req)
    metres = reqs.metres_of(values, req)
    call, mat = build(case, env)
    spec = reqs.as_spectrum(values, req)
    eps = reqs.result_list(call(spec), req, len(values))
    env.label(case["way"])
    if desc["par"][0] and (desc["name"] != 'DrudeLorentz' or desc["par"][1]):
        env.label("strength")
    exps = [mats.stored(desc, metre)[1] for metre in metres]
    expected = [None if e is None else (e.value, e.tol) for e in exps]
    if reqs.check_values(eps, expected, values, desc["name"]):
        env.label("judged")
    for value, item, exp in zip(values, eps, exps):
        if exp is None:
            continue
        # each part on its own
        ensure(abs(item.real - exp.re) <= exp.dre, "real part at {!r}: {!r}, "
               "expected {!r}", value, item.real, exp.re)
        im_tol = imag_tolerance(desc, exp)
        ensure(abs(item.imag - exp.im) <= im_tol, "imaginary part at {!r}: "
               "{!r}, expected {!r}", value, item.imag, exp.im)
        ensure(item.imag >= -1e-13 * (1.0 + abs(item)),
               "negative imaginary part {!r} at {!r}", item, value)
    if desc["name"] == 'TaucLorentz':
        for item, metre in zip(eps, metres):
            energy = ora.from_metres(metre, "energy", "ev")
            if energy < desc["par"][3] * (1.0 - 1e-6) - 1e-8:
                env.label("below gap")
                ensure(item.imag == 0.0, "{!r} eV below the gap {!r}: {!r}",
                       energy, desc["par"][3], item)
    if mat is not None:
        index = reqs.result_list(mat.get_nk_data(spec), req, len(values))
        for value, item, square in zip(values, index, eps):
            ensure(reqs.near(item * item, square,
                             1e-12 * (abs(square) + 1e-300)),
                   "index {!r} of permittivity {!r} at {!r}", item, square,
                   value)
            ensure(item.real >= -1e-12 * abs(item) and
                   item.imag >= -1e-12 * abs(item),
                   "index {!r} of permittivity {!r}", item, square)


def imag_tolerance(desc, exp):
    """the imaginary parts are simple expressions, also for Tauc-Lorentz"""
    if desc["name"] == 'TaucLorentz':
        low = [ora.tauc_lorentz_imag(desc["par"], e) for e in exp.energies]
        spread = max(low) - min(low)
        return 2.0 * spread + 1e-11 * abs(exp.im)
    return exp.dim


# --------------------------------------------------------------------------
# Fano
# --------------------------------------------------------------------------

@st.composite
def fano_case(draw):
    low = draw(gens.log_between(0.05, 5.0))
    high = low * (1.0 + draw(gens.log_between(0.05, 10.0)))
    par = [draw(st.one_of(gens.signed(1e-2, 20.0), st.integers(-3, 3))),
           draw(st.one_of(st.floats(low, high), st.sampled_from([low, high]))),
           draw(st.one_of(gens.log_between(1e-2, 3.0), st.integers(1, 3)))]
    rep = draw(gens.rep(types=['energy']))
    desc = {"kind": "model", "name": "Fano", "par": par, "type": rep["type"],
            "unit": rep["unit"], "range": [low, high]}
    return {"desc": desc, "params": draw(st.sampled_from(['list', 'array'])),
            "req": draw(reqs.request(desc, long=0.05))}


def check_fano(case, env):
    """the normalised profile"""
    import dispersion
    desc, req = case["desc"], case["req"]
    values = reqs.values_of(desc, req)
    par = np.array(desc["par"]) if case["params"] == 'array' else desc["par"]
    model = dispersion.spectral_data.Fano(par, tuple(desc["range"]),
                                          spectrum_type=desc["type"],
                                          unit=desc["unit"])
    got = reqs.result_list(model.evaluate(reqs.as_spectrum(values, req)), req,
                           len(values))
    expected = []
    for metre in reqs.metres_of(values, req):
        energy = ora.from_metres(metre, "energy", "ev")
        dx = ora.slack(energy, "ev")
        three = [ora.fano(desc["par"], e)
                 for e in (energy - dx, energy, energy + dx)]
        expected.append((three[1], 2.0 * (max(three) - min(three)) +
                         1e-11 * (1.0 + abs(three[1]))))
    reqs.check_values(got, expected, values, "Fano")


FACETS = [
    Facet("Drude", lambda: case_strategy('Drude'), check,
          lambda case, labels: {"strength", "judged"} <= labels, 800, 12000,
          shards=2),
    Facet("DrudeLorentz", lambda: case_strategy('DrudeLorentz'), check,
          lambda case, labels: {"strength", "judged"} <= labels, 800, 12000,
          shards=2),
    Facet("TaucLorentz", lambda: case_strategy('TaucLorentz'), check,
          lambda case, labels: {"strength", "judged"} <= labels, 700, 10000,
          shards=3),
    Facet("Fano", fano_case, check_fano, lambda case, labels: True, 400, 8000),
]
