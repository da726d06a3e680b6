"""C16: the setup dialogue and the rebuild command"""
import builtins
import csv
import importlib
import os
import shutil
import sys
import types

import numpy as np
from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import oracle as ora
from vh import trees
from vh.core import Facet, Violation, ensure, fail

RULE = ("a case counts if a whole dialogue was answered and the saved "
        "configuration, files and catalogue compared with the answers, or the "
        "rebuild command was answered; distinct by its full JSON description")
ASSUMPTIONS = ["downloading is replaced by a stand-in for GitPython that "
               "writes a library into the folder it is given, and is only "
               "asked for if that folder is empty",
               "the catalogue is not named like a module folder"]


class Exhausted(Violation):
    """the script asked a question too many"""


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

GARBAGE = ["", "maybe", "yy", "ye", "1", "0", " ", "?", "non", "nope",
           "/tmp/x", "true", "y es", "q", "yn", "-", "jä"]


@st.composite
def confirmation(draw, answer):
    """invalid answers, then yes or no"""
    return draw(st.lists(st.sampled_from(GARBAGE), max_size=2)) + [draw(
        st.sampled_from(["y", "yes"] if answer else ["n", "no"]))]


ROOTS = ["root", "root", "a b", "deep/er", "x #1", "k: v", "Ünï", "'q'", "{}",
         "%s", "root/", "-"]
BAD_ROOTS = ["relative", "./here", "~/data", "a/b", " ", "..", "C:\\data",
             "root"]
NAMES = ["cat.csv", "c", "a b.csv", "Ünï.csv", "#1", "x.txt", "k: v", "%s",
         "null", "1", "yes", "y", "n", "{}", "catalogue.csv"]
BAD_NAMES = ["a/b.csv", ".", "..", "x" * 300, "sub/", "./missing/x"]


@st.composite
def rounds(draw, good, bad):
    """[[invalid answers, answer, confirmation answers], ...]; the last round
    is confirmed; None as answer means the default"""
    out = []
    for last in [False] * draw(st.sampled_from([0, 0, 0, 1, 2])) + [True]:
        answer = draw(st.one_of(st.none(), st.sampled_from(good),
                                st.sampled_from(good)))
        out.append([draw(st.lists(st.sampled_from(bad), max_size=2)), answer,
                    draw(confirmation(last))])
    return out


STATES = ["absent", "empty", "nodata", "nolibrary", "present", "present"]


@st.composite
def setup_case(draw):
    case = {"root": draw(rounds(ROOTS, BAD_ROOTS)),
            "name": draw(rounds(NAMES, BAD_NAMES)),
            "exists": draw(st.booleans()), "state": draw(
                st.sampled_from(STATES)), "library": draw(trees.library(3)),
            "user": trees.unique([draw(trees.data_file("UserData")) for _ in
                                  range(draw(st.sampled_from([0, 0, 1, 2])))]),
            "foreign": draw(trees.foreign()), "saved": draw(st.booleans()),
            "catalogue": draw(st.booleans())}
    accepted = draw(st.sampled_from([True, True, False]))
    case["module"] = draw(confirmation(accepted))
    case["accepted"] = accepted
    download = accepted and case["state"] in ("absent", "empty") and \
        draw(st.booleans())
    case["download"] = draw(confirmation(download)) if accepted else []
    case["downloaded"] = download
    rebuild = draw(st.booleans())
    case["rebuild"] = draw(confirmation(rebuild))
    case["rebuilt"] = rebuild
    case["points"] = draw(st.lists(gens.unit_float(), min_size=1, max_size=4))
    return case


# --------------------------------------------------------------------------
# running a script
# --------------------------------------------------------------------------

class Dialogue():
    """answers one after the other, and a stand-in for GitPython"""

    def __init__(self, answers, home, library=None):
        self.answers = list(answers)
        self.asked = []
        self.home = home
        self.library = library
        self.cloned = []

    def ask(self, prompt=""):
        """replaces input()"""
        if not self.answers:
            raise Exhausted("after all answers the script asks {!r}; asked "
                            "before: {}".format(str(prompt),
                                                self.asked[-3:]))
        self.asked.append(str(prompt))
        answer = self.answers.pop(0)
        if answer == "@eof":
            raise EOFError()
        if answer == "@interrupt":
            raise KeyboardInterrupt()
        return answer

    def clone(self, url, to_path, *args, **kwargs):
        """replaces git.Repo.clone_from"""
        self.cloned.append((url, to_path))
        if os.path.isdir(to_path) and os.listdir(to_path):
            raise OSError("destination path exists and is not empty")
        os.makedirs(to_path, exist_ok=True)
        root = os.path.dirname(os.path.normpath(to_path))
        if os.path.basename(os.path.normpath(to_path)) != \
                'RefractiveIndexInfo':
            return
        trees.write_library(root, self.library)

    def run(self, call):
        """run a script with this dialogue"""
        git = types.ModuleType("git")
        git.Repo = type("Repo", (), {"clone_from": staticmethod(self.clone)})
        old_home, old_input = os.environ["HOME"], builtins.input
        old_git = sys.modules.get("git")
        os.environ["HOME"] = self.home
        builtins.input = self.ask
        sys.modules["git"] = git
        try:
            return call()
        finally:
            builtins.input = old_input
            os.environ["HOME"] = old_home
            if old_git is None:
                del sys.modules["git"]
            else:
                sys.modules["git"] = old_git


def read_yaml(path):
    """YAML file"""
    import yaml
    with open(path, encoding="utf8") as fpt:
        return yaml.safe_load(fpt)


def listed(path):
    """(module, path) of the rows of a catalogue file"""
    with open(path, encoding="utf8", newline="") as fpt:
        return sorted((row["Module"], row["Path"])
                      for row in csv.DictReader(fpt))


# --------------------------------------------------------------------------
# setup
# --------------------------------------------------------------------------

def answers_of(case, base, default):
    """all answers in order, the path and the name that were confirmed"""
    answers = []
    chosen = []
    for key, default_value in (("root", default), ("name", "catalogue.csv")):
        value = None
        for bad, answer, confirm in case[key]:
            answers += bad
            if answer is None:
                value = default_value
                answers.append("")
            else:
                value = os.path.join(base, answer) if key == "root" else \
                    answer
                answers.append(value)
            answers += confirm
        chosen.append(value)
    answers += case["module"] + case["download"] + case["rebuild"]
    return answers, chosen[0], chosen[1]


def prepare_root(case, root):
    """what is there before the setup"""
    if case["exists"]:
        os.makedirs(os.path.join(root, "UserData"), exist_ok=True)
        tree = {"user": case["user"], "film": [], "foreign": case["foreign"]}
        for item in tree["user"]:
            trees.write_file(os.path.join(root, "UserData"),
                             item["stem"] + item["ext"], item)
        for name, kind in tree["foreign"]:
            path = os.path.join(root, "UserData", name)
            if kind == "folder":
                os.makedirs(path)
            else:
                files.write_text(path, "no data")
    module = os.path.join(root, "RefractiveIndexInfo")
    if case["state"] == "empty":
        os.makedirs(module)
    elif case["state"] == "nodata":
        os.makedirs(os.path.join(module, "other"))
    elif case["state"] == "nolibrary":
        os.makedirs(os.path.join(module, "database", "data"))
    elif case["state"] == "present":
        trees.write_library(root, case["library"])


def check_setup(case, env):
    """one dialogue"""
    script = importlib.import_module("dispersion.scripts.setup_dispersion")
    base = env.fresh_dir()
    home = os.path.join(base, "home")
    os.makedirs(home)
    user_dir = os.path.join(home, ".config", "dispersion")
    if case["saved"]:
        os.makedirs(user_dir)
        files.write_text(os.path.join(user_dir, "config.yaml"),
                         "Path: /nowhere\nFile: old.csv\n")
    answers, root, name = answers_of(case, base, user_dir)
    prepare_root(case, root)
    catalogue = os.path.join(root, name)
    old = None
    if case["catalogue"]:
        os.makedirs(root, exist_ok=True)
        old = "old catalogue\n"
        files.write_text(catalogue, old)
    dialogue = Dialogue(answers, home, case["library"])
    os.chdir(base)
    dialogue.run(script.main)
    ensure(not dialogue.answers, "the script ended without asking for {}",
           dialogue.answers)
    installed = case["accepted"] and (case["downloaded"] or
                                      case["state"] == "present")
    want = {"Path": root, "File": name, "Interactive": False,
            "WarnMissingPackages": False,
            "Modules": {"UserData": True, "RefractiveIndexInfo": installed},
            "ReferenceSpectrum": {"Value": 632.8, "SpectrumType":
                                  "wavelength", "Unit": "nanometer"}}
    saved = os.path.join(user_dir, "config.yaml")
    ensure(os.path.isfile(saved), "no configuration was saved")
    got = read_yaml(saved)
    ensure(got == want, "saved {} instead of {}", got, want)
    check_again(home, want)
    ensure(len(dialogue.cloned) == int(case["downloaded"]), "downloads: {}",
           dialogue.cloned)
    if case["downloaded"]:
        ensure(os.path.realpath(dialogue.cloned[0][1]) == os.path.realpath(
            os.path.join(root, "RefractiveIndexInfo")), "downloaded to {}",
               dialogue.cloned)
    check_examples(os.path.join(root, "UserData"), case["points"])
    expect = [("UserData", "example_file.txt"),
              ("UserData", "example_file2.yml")]
    if case["exists"]:
        expect += [("UserData", item["stem"] + item["ext"])
                   for item in case["user"]]
    if installed:
        tree = {"rii": case["library"]}
        expect += [("RefractiveIndexInfo", item[0]) for item in
                   trees.expected_rows(tree, "RefractiveIndexInfo")]
    check_catalogue(case, catalogue, expect, old)
    check_others(case, base, root, catalogue)
    env.label(case["state"] + (" accepted" if case["accepted"] else
                               " declined"))
    env.label("rebuilt" if case["rebuilt"] else "not rebuilt")
    if len(case["root"]) + len(case["name"]) > 2:
        env.label("asked again")


def check_again(home, want):
    """get_config() returns what was saved"""
    config = importlib.import_module("dispersion.config")
    got = Dialogue([], home).run(config.get_config)
    ensure(got == want, "get_config() returns {} instead of {}", got, want)


def check_catalogue(case, path, expect, old):
    """catalogue file after the setup"""
    if case["rebuilt"]:
        ensure(os.path.isfile(path), "no catalogue {}", path)
        got = listed(path)
        ensure(got == sorted(expect), "the catalogue lists {} instead of {}",
               got, sorted(expect))
        return
    if old is None:
        ensure(not os.path.exists(path), "a catalogue was written")
    else:
        with open(path, encoding="utf8") as fpt:
            ensure(fpt.read() == old, "the catalogue was overwritten")


def check_others(case, base, root, catalogue):
    """nothing was put where it was not confirmed"""
    inside = {os.path.normpath(root)}
    for folder, subfolders, names in os.walk(base):
        here = os.path.normpath(folder)
        if here in inside:
            subfolders[:] = []
            continue
        if os.path.basename(here) == "dispersion" and \
                os.path.normpath(os.path.join(base, "home", ".config")) == \
                os.path.dirname(here):
            ensure(set(names) <= {"config.yaml"} and not subfolders,
                   "unexpected {} in {}", names + subfolders, here)
            continue
        ensure(not names, "unexpected files {} in {}", names, here)


COMMENT = ("This is a multiline meta-comment which provides information not in "
           "metadata")


def check_examples(folder, points):
    """example materials"""
    from dispersion import Material
    meta = {'Reference': "Literature reference to the data",
            'Comment': "Any additional information goes here",
            'Name': "Short name of the material",
            'FullName': "Full name of the material",
            'Author': "The author of this data file"}
    xs = [400.0, 500.0, 600.0, 700.0]
    k = [0.1, 0.05, 0.0, 0.0]
    par = [0, 1.0, 0.05, 2.0, 0.1, 10.0, 25.0]
    for name in ("example_file.txt", "example_file2.yml"):
        path = os.path.join(folder, name)
        ensure(os.path.isfile(path), "no example file {}", path)
        mat = Material(file_path=path)
        for key, value in meta.items():
            ensure(mat.meta_data[key] == value, "{}: {} is {!r}", name, key,
                   mat.meta_data[key])
        got = mat.meta_data['MetaComment'].split()
        ensure(got == COMMENT.split(), "{}: MetaComment is {!r}", name,
               mat.meta_data['MetaComment'])
        low, high = files.physical_range(mat)
        ensure(abs(low - 4e-7) < 1e-15 and abs(high - 7e-7) < 1e-15,
               "{}: range {} to {} m", name, low, high)
        for t in points:
            wvl = 400.0 + 300.0 * min(max(t, 1e-6), 1.0 - 1e-6)
            got = complex(mat.get_nk_data(wvl, spectrum_type='wavelength',
                                          unit='nm'))
            if name.endswith("txt"):
                n = float(np.interp(wvl, xs, [1.7, 1.6, 1.5, 1.4]))
            else:
                n = float(ora.model_n('Sellmeier', par, wvl * 1e-3)[0])
            want = complex(n, float(np.interp(wvl, xs, k)))
            ensure(abs(got - want) < 1e-6, "{}: {} instead of {} at {} nm",
                   name, got, want, wvl)
    # without the table for k the model counts: documented for 350 to 2000 nm
    mat.remove_absorption()
    for wvl in (350.01, 1999.9, 349.0, 2001.0):
        try:
            got = complex(mat.get_nk_data(wvl, spectrum_type='wavelength',
                                          unit='nm'))
        except ValueError:
            ensure(not 350.0 < wvl < 2000.0, "{}: n refused at {} nm", name,
                   wvl)
            continue
        want = float(ora.model_n('Sellmeier', par, wvl * 1e-3)[0])
        ensure(350.0 < wvl < 2000.0, "{}: n given at {} nm", name, wvl)
        ensure(abs(got - want) < 1e-6, "{}: n is {} instead of {} at {} nm",
               name, got, want, wvl)


# --------------------------------------------------------------------------
# rebuild command
# --------------------------------------------------------------------------

@st.composite
def rebuild_case(draw):
    return {"answers": draw(st.lists(st.sampled_from(
        [g for g in GARBAGE if g not in ("ye", "non", "nope")]),
                                     max_size=3)) +
            [draw(st.sampled_from(["y", "y", "n", "n", "@eof",
                                   "@interrupt"]))],
            "user": trees.unique([draw(trees.data_file("UserData"))
                                  for _ in range(draw(st.integers(0, 3)))]),
            "library": draw(st.one_of(st.none(), trees.library(3))),
            "name": draw(st.sampled_from(NAMES)),
            "old": draw(st.sampled_from(["text", "catalogue", "none"])),
            "entry": draw(st.sampled_from(["command", "function",
                                           "package"]))}


def check_rebuild(case, env):
    """overwrite only after a yes"""
    config = importlib.import_module("dispersion.config")
    base = env.fresh_dir()
    root = os.path.join(base, "root")
    home = os.path.join(base, "home")
    os.makedirs(os.path.join(home, ".config", "dispersion"))
    os.makedirs(os.path.join(root, "UserData"))
    for item in case["user"]:
        trees.write_file(os.path.join(root, "UserData"),
                         item["stem"] + item["ext"], item)
    if case["library"] is not None:
        trees.write_library(root, case["library"])
    conf = trees.config(root, [["UserData", True],
                               ["RefractiveIndexInfo",
                                case["library"] is not None]],
                        {"value": 632.8, "type": "wavelength",
                         "unit": "nanometer"}, case["name"])
    config.write_config(conf, dir_path=os.path.join(home, ".config",
                                                    "dispersion"))
    path = os.path.join(root, case["name"])
    old = {"text": "something\n", "none": None, "catalogue":
           ",".join(trees.COLUMNS) + "\n"}[case["old"]]
    if old is not None:
        files.write_text(path, old)
    if case["entry"] == "command":
        call = importlib.import_module(
            "dispersion.scripts.catalogue_rebuild").main
    elif case["entry"] == "function":
        call = importlib.import_module(
            "dispersion.catalogue").rebuild_catalogue
    else:
        call = importlib.import_module("dispersion").rebuild_catalogue
    dialogue = Dialogue(case["answers"], home)
    last = case["answers"][-1]
    env.label(last)
    try:
        dialogue.run(call)
    except (EOFError, KeyboardInterrupt):
        ensure(last.startswith("@"), "{} after {}", last, dialogue.asked)
    ensure(not dialogue.answers, "the command ended without asking for {}",
           dialogue.answers)
    if last == "y":
        expect = [("UserData", item["stem"] + item["ext"])
                  for item in case["user"]]
        if case["library"] is not None:
            expect += [("RefractiveIndexInfo", item[0]) for item in
                       trees.expected_rows({"rii": case["library"]},
                                           "RefractiveIndexInfo")]
        check_catalogue({"rebuilt": True}, path, expect, old)
    else:
        check_catalogue({"rebuilt": False}, path, [], old)


FACETS = [
    Facet("setup", setup_case, check_setup, lambda case, labels: True, 600,
          8000, shards=6),
    Facet("rebuild", rebuild_case, check_rebuild, lambda case, labels: True,
          240, 4000, shards=2)]
