"""C15: configurations"""
import contextlib
import copy
import importlib
import io
import os
import pathlib
import warnings

from hypothesis import strategies as st

from vh import files
from vh import gens
from vh import trees
from vh.core import Facet, ensure, fail

RULE = ("a case counts if a configuration is validated and used to open a "
        "catalogue with a known verdict, or written and read back, or read "
        "from a home directory in a known state; distinct by its full JSON "
        "description")
ASSUMPTIONS = ["catalogue file names contain no parent directory or absolute "
               "path", "names of quantities and units in the reference "
               "spectrum are known ones"]

# what stands for an entry that is not plain JSON
OBJECTS = {"@none": lambda: None, "@tuple": lambda: ("a",),
           "@set": lambda: {"a"}, "@bytes": lambda: b"abc",
           "@complex": lambda: 1j, "@object": object}


# --------------------------------------------------------------------------
# verdicts
# --------------------------------------------------------------------------

@gens.cached
def wrong(kind):
    """values that are not of a type"""
    values = {"str": [0, 1, 1.5, True, [], ["x"], {}, {"x": "y"}, "@none",
                      "@bytes", "@tuple", "@encoded", "@listed", "@pathlib"],
              "bool": [0, 1, "true", "True", "yes", "", 1.0, [], [True], {},
                       "@none", "@object"],
              "float": [0, 1, 632, "632.8", "", True, False, [632.8], {},
                        "@none", "@complex", "@tuple"],
              "dict": [0, 1.0, "x", "", True, ["UserData"], [], "@none",
                       "@set", "@tuple"]}
    return st.sampled_from(values[kind])


def real(value):
    """expand a marker"""
    if isinstance(value, str) and value in OBJECTS:
        return OBJECTS[value]()
    return value


ENTRIES = [("Path", "str"), ("File", "str"), ("Interactive", "bool"),
           ("WarnMissingPackages", "bool"), ("Modules", "dict"),
           ("Modules/", "bool"), ("ReferenceSpectrum", "dict"),
           ("ReferenceSpectrum/Value", "float"),
           ("ReferenceSpectrum/SpectrumType", "str"),
           ("ReferenceSpectrum/Unit", "str")]

GOOD_FILES = ["catalogue.csv", "c", "a b.csv", "Ünï-中.csv", "x.txt", "-", "%s",
              "~", "c.csv.bak", "#1", "a;b", "*", "{}", "CON", ".hidden",
              "x" * 200, "a\\b", "a:b", "'", '"', "\n", " ", "null", "1"]
BAD_FILES = ["", ".", "..", "a/b.csv", "sub/", "./missing/x", "x" * 256,
             "y" * 300, "a\0b", "a/", "ä" * 128]
BAD_PATHS = ["missing", "missing/deeper", "file.txt", "file.txt/x", "", "~",
             "data/missing", "data\0"]


@gens.cached
def module_names():
    """names of modules"""
    return st.one_of(st.sampled_from(trees.MODULES + ["Other", "userdata", "",
                                                      "My Data"]),
                     files.line(6))


@st.composite
def valid(draw):
    """entries of a valid configuration; the path is relative to a root"""
    rep = draw(gens.rep())
    return {"path": draw(st.sampled_from(["data", "data", "data/", "data/sub",
                                          "with space", "Ünï", "."])),
            "File": draw(st.one_of(st.just("catalogue.csv"),
                                   st.sampled_from(GOOD_FILES))),
            "Interactive": False, "WarnMissingPackages": draw(st.booleans()),
            "Modules": draw(st.dictionaries(module_names(), st.booleans(),
                                            max_size=4)),
            "ReferenceSpectrum": {
                "Value": draw(gens.log_between(1e-9, 1e16)),
                "SpectrumType": rep["type"], "Unit": rep["unit"]}}


@st.composite
def verdict_case(draw):
    conf = draw(valid())
    case = {"config": conf, "extra": draw(st.dictionaries(
        st.sampled_from(["Plotting", "Comment", "Version"]),
        st.one_of(st.booleans(), st.integers(0, 9), files.line(5)),
        max_size=2))}
    how = draw(st.sampled_from(["good", "good", "type", "type", "type",
                                "missing", "missing", "path", "file",
                                "interactive"]))
    case["how"] = how
    if how == "type":
        entry, kind = draw(st.sampled_from(ENTRIES))
        case["entry"] = entry
        if entry == "Modules/":
            case["module"] = draw(module_names())
        case["value"] = draw(wrong(kind))
    elif how == "missing":
        case["entry"] = draw(st.sampled_from(
            [e for e, _ in ENTRIES if e != "Modules/"]))
    elif how == "path":
        case["value"] = draw(st.sampled_from(BAD_PATHS))
    elif how == "file":
        case["value"] = draw(st.sampled_from(BAD_FILES))
    return case


def make_config(case, root):
    """the configuration of a case"""
    for name in ("data/sub", "with space", "Ünï"):
        os.makedirs(os.path.join(root, name), exist_ok=True)
    files.write_text(os.path.join(root, "file.txt"), "x")
    conf = copy.deepcopy(case["config"])
    conf["Path"] = os.path.join(root, conf.pop("path"))
    conf.update(case.get("extra", {}))
    how = case.get("how", "good")
    if how == "type":
        put(conf, case["entry"], real(case["value"]), case.get("module"))
    elif how == "missing":
        place = conf
        keys = case["entry"].split("/")
        for key in keys[:-1]:
            place = place[key]
        del place[keys[-1]]
    elif how == "path":
        value = case["value"]
        conf["Path"] = value if value in ("", "~") else os.path.join(root,
                                                                    value)
    elif how == "file":
        conf["File"] = case["value"]
    elif how == "interactive":
        conf["Interactive"] = True
    return conf


def put(conf, entry, value, module):
    """set an entry"""
    keys = entry.split("/")
    if keys[-1] == "" and module is not None:
        keys[-1] = module
    place = conf
    for key in keys[:-1]:
        place = place[key]
    if value in ("@encoded", "@listed", "@pathlib"):  # the right one, nearly
        text = place[keys[-1]]
        value = {"@encoded": lambda: text.encode(), "@listed": lambda: [text],
                 "@pathlib": lambda: pathlib.Path(text)}[value]()
    place[keys[-1]] = value


def check_verdict(case, env):
    """validate, and open a catalogue"""
    from dispersion import Catalogue
    from dispersion.config import validate_config
    root = env.fresh_dir()
    os.chdir(root)
    conf = make_config(case, root)
    good = case["how"] in ("good", "interactive")
    env.label(case["how"])
    if good:
        files.write_text(os.path.join(conf["Path"], conf["File"]),
                         ",".join(trees.COLUMNS) + "\n")
    listing = sorted(os.listdir(root))
    for what, call in (("validation", lambda: validate_config(conf)),
                       ("opening", lambda: Catalogue(config=conf)),
                       ("building", lambda: Catalogue(config=conf,
                                                      rebuild='All'))):
        if what == "building":
            if good:
                continue
        if what == "opening" and case["how"] == "interactive":
            continue
        try:
            call()
        except Exception as exc:
            ensure(not good, "{} refused a valid configuration {}: {!r}", what,
                   conf, exc)
            continue
        ensure(good, "{} accepted a configuration with a wrong {}: {}", what,
               case.get("entry", case["how"]), conf)
    ensure(sorted(os.listdir(root)) == listing, "validation changed {}",
           os.listdir(root))


# --------------------------------------------------------------------------
# saving and reading
# --------------------------------------------------------------------------

@gens.cached
def scalar_text():
    """texts a configuration may hold"""
    return st.one_of(files.line(10), st.sampled_from(
        ["/home/x #1", "/a: b", "C:\\data", "/tmp/ünï", "/x/'y'", '/"z"',
         "/path with spaces ", "~/data", "/a\nb", "on", "0", "1e3", "/tab\t"]))


@st.composite
def saved(draw):
    """a configuration to save"""
    conf = {"Path": draw(scalar_text()), "File": draw(scalar_text()),
            "Interactive": draw(st.booleans()),
            "WarnMissingPackages": draw(st.booleans()),
            "Modules": draw(st.dictionaries(module_names(), st.booleans(),
                                            max_size=3)),
            "ReferenceSpectrum": {
                "Value": draw(st.one_of(gens.log_between(1e-12, 1e17),
                                        st.integers(1, 2000).map(float),
                                        st.floats(0.0, 1e6))),
                "SpectrumType": draw(st.sampled_from(
                    ["wavelength", "energy", "angularfrequency"])),
                "Unit": draw(st.sampled_from(["nanometer", "ev", "1/s",
                                              "a"]))}}
    if draw(st.integers(0, 3)) == 0:
        conf[draw(st.sampled_from(["Plotting", "Extra"]))] = draw(
            st.one_of(st.booleans(), st.integers(-5, 5), files.line(6)))
    return conf


HOMES = ["none", "config", "dispersion", "saved"]


@st.composite
def home_case(draw):
    """a state of the home directory and a sequence of writes and reads"""
    return {"home": draw(st.sampled_from(["home", "home", "a b", "x #y",
                                          "k: v", "Ünï", "{x}", "%s", "'q'",
                                          "deep/er"])),
            "state": draw(st.sampled_from(HOMES)), "first": draw(saved()),
            "locale": draw(st.integers(0, 4)) == 0,
            "steps": [draw(st.one_of(
                st.just({"op": "read"}), st.just({"op": "get"}),
                st.just({"op": "get"}), st.just({"op": "default"}),
                st.just({"op": "forget"}),
                st.fixed_dictionaries({"op": st.just("print"),
                                       "numpy": st.booleans(),
                                       "config": saved()}),
                st.fixed_dictionaries({"op": st.just("write"),
                                       "where": st.sampled_from(
                                           ["user", "default", "other"]),
                                       "numpy": st.sampled_from(
                                           [False, False, False, True]),
                                       "config": saved()})))
                      for _ in range(draw(st.integers(1, 5)))]}


def same(got, want, what):
    """same keys, values and types"""
    ensure(isinstance(got, dict), "{}: {!r}", what, got)
    ensure(set(got) == set(want), "{}: entries {} instead of {}", what,
           sorted(map(str, got)), sorted(map(str, want)))
    for key, value in want.items():
        if isinstance(value, dict):
            same(got[key], value, what + ", " + str(key))
            continue
        ensure(type(got[key]) is type(value) and got[key] == value,
               "{}: {} is {!r} instead of {!r}", what, key, got[key], value)


def defaults(home):
    """documented default configuration"""
    return {"Path": os.path.join(home, ".config", "dispersion"),
            "File": "catalogue.csv", "Interactive": False,
            "WarnMissingPackages": False,
            "Modules": {"UserData": True, "RefractiveIndexInfo": True},
            "ReferenceSpectrum": {"Value": 632.8, "SpectrumType":
                                  "wavelength", "Unit": "nanometer"}}


def check_home(case, env):
    """configuration files of one user"""
    config = importlib.import_module("dispersion.config")
    home = os.path.join(env.fresh_dir(), case["home"])
    os.makedirs(home)
    user = os.path.join(home, ".config", "dispersion")
    if case["state"] in ("config", "dispersion", "saved"):
        os.makedirs(os.path.dirname(user))
    if case["state"] in ("dispersion", "saved"):
        os.makedirs(user)
    other = env.fresh_dir()
    old = os.environ["HOME"]
    os.environ["HOME"] = home
    try:
        with files.surroundings(case):
            state = None
            if case["state"] == "saved":
                config.write_config(copy.deepcopy(case["first"]),
                                    dir_path=user)
                state = case["first"]
            for item in case["steps"]:
                state = run_step(config, item, state, home, user, other, env)
            read_back(config, state, home, env)
            ensure(os.path.isdir(user), "no directory {}", user)
    finally:
        os.environ["HOME"] = old


def run_step(config, item, state, home, user, other, env):
    """one operation; returns what is saved in the user's directory"""
    op = item["op"]
    env.label(op)
    if op == "get":
        read_back(config, state, home, env)
    elif op == "read":
        if state is not None:
            same(config.read_config(), state, "read_config")
            return state
        try:
            config.read_config()
        except (ValueError, OSError):
            return state
        fail("read_config without a file")
    elif op == "default":
        same(config.default_config(), defaults(home), "default_config")
    elif op == "forget":
        path = os.path.join(user, "config.yaml")
        if os.path.exists(path):
            os.remove(path)
        return None
    elif op == "print":
        given = copy.deepcopy(item["config"])
        if item["numpy"]:
            given = files.to_numpy(given)
        kept = copy.deepcopy(given)
        same(read_printed(given), item["config"], "printed as YAML")
        same(given, kept, "configuration after printing")
    elif op == "write":
        given = copy.deepcopy(item["config"])
        if item.get("numpy"):
            env.label("numpy values")
            given = files.to_numpy(given)
        kept = copy.deepcopy(given)
        if item["where"] == "default":
            config.write_config(given)
            env.label("first" if state is None else "again")
        elif item["where"] == "user":
            os.makedirs(user, exist_ok=True)
            config.write_config(given, dir_path=user)
        else:
            config.write_config(given, dir_path=other)
            same(given, kept, "configuration after writing")
            from dispersion.io import read_yaml_file
            same(read_yaml_file(os.path.join(other, "config.yaml")),
                 item["config"], "written elsewhere")
            return state
        same(given, kept, "configuration after writing")
        return item["config"]
    return state


def read_printed(given):
    """what the text printed for a configuration says"""
    from dispersion.io import print_yaml_string, read_yaml_string
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        print_yaml_string(given)
    return read_yaml_string(text.getvalue())


def read_back(config, state, home, env):
    """what get_config has to return"""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        got = config.get_config()
    told = [w for w in caught if issubclass(w.category, UserWarning)]
    if state is None:
        same(got, defaults(home), "configuration without a file")
        ensure(told, "no warning that there is no configuration")
        env.label("defaults")
    else:
        same(got, state, "saved configuration")
        ensure(not told, "warning about a saved configuration: {}",
               [str(w.message) for w in told])
        env.label("saved")


# --------------------------------------------------------------------------
# a catalogue opened with the saved configuration
# --------------------------------------------------------------------------

@st.composite
def open_case(draw):
    return {"config": draw(valid()), "alias": draw(st.booleans())}


def check_open(case, env):
    """Catalogue() uses the saved configuration"""
    from dispersion import Catalogue
    from dispersion.config import write_config
    root = env.fresh_dir()
    home = env.fresh_dir()
    conf = make_config({"config": case["config"]}, root)
    row = ['al', 'N', 'F', 'A', 'C', 'R', 'wavelength', 'nanometer', '400.0',
           '500.0', '1.5', '0.0', 'f.txt', 'UserData']
    files.write_text(os.path.join(conf["Path"], conf["File"]),
                     ",".join(trees.COLUMNS) + "\n" + ",".join(row) + "\n")
    os.makedirs(os.path.join(conf["Path"], "UserData"))
    files.write_text(os.path.join(conf["Path"], "UserData", "f.txt"),
                     "400 1.5\n500 1.75\n")
    old = os.environ["HOME"]
    os.environ["HOME"] = home
    try:
        write_config(conf)
        cat = Catalogue()
        same(cat.config, conf, "configuration of the catalogue")
        mat = cat.get_material("al")
        got = complex(mat.get_nk_data(500.0, unit="nm"))
        ensure(abs(got - 1.75) < 1e-12, "material of the catalogue: {}", got)
    finally:
        os.environ["HOME"] = old


# --------------------------------------------------------------------------
# a saved configuration with a syntax error
# --------------------------------------------------------------------------

MISTAKES = ["\tFile: x", "File: [1, 2", "File: 'it", "@File: x", "File: a: b",
            "- x", "File: *x", "]", "---", "File: x\n Path: y", "Modules: {a: b",
            # values that cannot be made, and text that is not UTF-8
            "File: 2020-13-45", "File: !!int x", "File: !!float x", "\x01",
            "File: k\xe4se.csv", "# \xb5m", "Extra: 1h\xa0"]


@st.composite
def broken_case(draw):
    return {"config": draw(valid()), "mistake": draw(st.sampled_from(MISTAKES)),
            "at": draw(st.integers(0, 12)), "twice": draw(st.booleans()),
            "fill": draw(st.sampled_from([0, 0, 1, 60, 200]))}


def check_broken(case, env):
    """never taken for something else"""
    import yaml
    from dispersion import Catalogue
    config = importlib.import_module("dispersion.config")
    home = env.fresh_dir()
    conf = make_config({"config": case["config"]}, env.fresh_dir())
    lines = yaml.safe_dump(conf).split("\n")
    fill = ["# " + "comment " * 9] * case["fill"]
    more = list(lines) if case["twice"] else []
    at = min(case["at"], len(lines))
    lines[at:at] = [case["mistake"]] + fill
    text = "\n".join(lines + fill + more).encode("latin-1")
    try:
        yaml.safe_load(text.decode("utf-8"))
    except yaml.YAMLError:
        env.label("broken")
    except UnicodeDecodeError:
        env.label("broken")
        env.label("not UTF-8")
    except ValueError:
        env.label("broken")
        env.label("no value")
    else:
        return
    user = os.path.join(home, ".config", "dispersion")
    os.makedirs(user)
    with open(os.path.join(user, "config.yaml"), "wb") as fpt:
        fpt.write(text)
    old = os.environ["HOME"]
    os.environ["HOME"] = home
    try:
        for what, call in (("read_config", config.read_config),
                           ("get_config", config.get_config),
                           ("Catalogue", Catalogue)):
            try:
                got = call()
            except Exception:
                continue
            fail("{} accepts a saved configuration that is no YAML: {!r}",
                 what, got)
    finally:
        os.environ["HOME"] = old


FACETS = [
    Facet("verdict", verdict_case, check_verdict,
          lambda case, labels: True, 1200, 20000, shards=4),
    Facet("home", home_case, check_home,
          lambda case, labels: "saved" in labels or "defaults" in labels,
          900, 12000, shards=3),
    Facet("open", open_case, check_open, lambda case, labels: True, 150,
          2000),
    Facet("broken", broken_case, check_broken,
          lambda case, labels: "broken" in labels, 150, 2000)]
