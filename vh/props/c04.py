"""C04: refractive index models"""
import os

import numpy as np
from hypothesis import strategies as st

from vh import gens
from vh import mats
from vh import reqs
from vh.core import Facet, ensure

RULE = ("a case counts if the formula has a finite real value at one or more "
        "of its points and the model has more parameters than a constant; "
        "distinct by its full JSON description")
ASSUMPTIONS = ["points where a formula has a pole or no real value are not "
               "judged", "parameters come in complete terms"]

WAYS = ['direct', 'material', 'file_model', 'file_formula']


@st.composite
def case_strategy(draw, name):
    integers = draw(st.integers(0, 4)) == 0
    desc = draw(mats.n_model(names=[name], max_terms=draw(
        st.sampled_from([3, 8, 12])), integers=integers))
    return {"desc": desc, "way": draw(st.sampled_from(WAYS)),
            "params": draw(st.sampled_from(['list', 'array', 'array'])),
            "range": draw(st.sampled_from(['list', 'tuple', 'array'])),
            "req": draw(reqs.request(desc, long=0.05, max_points=6))}


def parameters(case):
    """parameters in their container"""
    par = case["desc"]["par"]
    if case["params"] == 'array':
        return np.array(par)
    return list(par)


def build(case, env):
    """callable returning n on a spectrum"""
    import dispersion
    from dispersion import Material
    desc, way = case["desc"], case["way"]
    low, high = desc["range"]
    if way == 'direct':
        cls = getattr(dispersion, desc["name"])
        bounds = {'list': [low, high], 'tuple': (low, high),
                  'array': np.array([low, high])}[case["range"]]
        return cls(parameters(case), bounds, spectrum_type=desc["type"],
                   unit=desc["unit"]).evaluate
    if way == 'material':
        bounds = {'list': [low, high], 'tuple': (low, high),
                  'array': np.array([low, high])}[case["range"]]
        kw = {'name': desc["name"], 'parameters': parameters(case),
              'valid_range': bounds, 'spectrum_type': desc["type"],
              'unit': desc["unit"]}
        return Material(model_kw=kw).get_nk_data
    numbers = " ".join(repr(p) for p in desc["par"])
    path = os.path.join(env.fresh_dir(), "m.yml")
    if way == 'file_model':
        text = ("NAME: x\nDATA:\n  - DataType: model {}\n"
                "    ValidRange: {!r} {!r}\n    SpectrumType: {}\n"
                "    Unit: {}\n    Yields: n\n    Parameters: {}\n").format(
                    desc["name"], low, high, desc["type"], desc["unit"],
                    numbers)
        kwargs = {}
    else:
        text = ("REFERENCES: none\nDATA:\n  - type: formula {}\n"
                "    wavelength_range: {!r} {!r}\n"
                "    coefficients: {}\n").format(
                    mats.FORMULA[desc["name"]], low, high, numbers)
        kwargs = {'spectrum_type': desc["type"], 'unit': desc["unit"]}
    with open(path, "w", encoding="utf8") as fpt:
        fpt.write(text)
    return Material(file_path=path, **kwargs).get_nk_data


def check(case, env):
    """the formula at every point"""
    desc, req = case["desc"], case["req"]
    values = reqs.values_of(desc, req)
    metres = reqs.metres_of(values, req)
    call = build(case, env)
    got = reqs.result_list(call(reqs.as_spectrum(values, req)), req,
                           len(values))
    expected = []
    for metre in metres:
        exp = mats.stored(desc, metre)[1]
        expected.append(None if exp is None else (exp.value, exp.tol))
    env.label(case["way"])
    judged = reqs.check_values(got, expected, values, desc["name"])
    if judged:
        env.label("judged")
    if len(desc["par"]) > 1:
        env.label("terms")
    if len(desc["par"]) > 9:
        env.label("many terms")
    if all(isinstance(p, int) for p in desc["par"]):
        env.label("integers")
    if any(e is not None and e[1] > 1e-6 * (1.0 + abs(e[0]))
           for e in expected):
        env.label("loose tolerance")


FACETS = [
    Facet(name, lambda name=name: case_strategy(name), check,
          lambda case, labels: {"judged", "terms"} <= labels, 260, 8000)
    for name in mats.N_MODELS
]
