"""runner: generated-input search for one property, evidence, replay files

A property module (vh/props/cXX.py) lists facets.  A facet is a strategy that
generates JSON-serialisable cases and a function check(case, env) that runs the
case against the code in /repo and raises if the oracle disagrees.  The same
check function replays a saved case without Hypothesis.
"""
import glob
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VH_LAB_SRC", "/repo/src")  # override: tools/ only
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.json")
CASE_SECONDS = 90
QUICK_SCALE = 10
SEARCH_SECONDS = {"quick": 240.0, "thorough": 7200.0}  # slow machines: stop here
GROUPS = 4
GROUP_WORKERS = max(1, min(8, os.cpu_count() or 1) // GROUPS)


class Violation(Exception):
    """the code disagrees with the oracle"""


class HarnessError(Exception):
    """the check itself could not run"""


class Enough(KeyboardInterrupt):
    """the search has used its time (Hypothesis lets interrupts pass)"""


class TimeLimit(BaseException):
    """a case runs for far longer than any case needs"""


def _on_alarm(signum, frame):
    raise TimeLimit()


# --------------------------------------------------------------------------
# environment
# --------------------------------------------------------------------------

def _link_hypothesis(scratch):
    """make only Hypothesis importable, not the rest of the tooling venv
    (the code under test behaves differently if ruamel.yaml or qgrid exist)"""
    target = os.path.join(scratch, "site")
    os.makedirs(target)
    names = ["hypothesis", "sortedcontainers", "_hypothesis_globals.py",
             "_hypothesis_ftz_detector.py"]
    if os.path.isdir(os.path.join(TOOLS, "hypothesis")):
        for name in names:
            source = os.path.join(TOOLS, name)
            if os.path.exists(source):
                os.symlink(source, os.path.join(target, name))
    else:
        import zipfile
        for pattern in ("hypothesis-*cp312*x86_64.whl",
                        "sortedcontainers-*.whl"):
            for wheel in sorted(glob.glob(os.path.join(WHEELS, pattern)))[:1]:
                with zipfile.ZipFile(wheel) as archive:
                    archive.extractall(target)
    sys.path.append(target)
    importlib.invalidate_caches()


def prepare():
    """scratch directory, HOME, imports"""
    scratch = tempfile.mkdtemp(prefix="vh-")
    home = os.path.join(scratch, "home")
    os.makedirs(os.path.join(home, ".config"))
    os.environ["HOME"] = home
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    tempfile.tempdir = os.path.join(scratch, "tmp")
    os.makedirs(tempfile.tempdir)
    os.environ["TMPDIR"] = tempfile.tempdir
    warnings.simplefilter("ignore")
    try:
        _link_hypothesis(scratch)
        import hypothesis  # noqa: F401
        import hypothesis.internal.conjecture.engine as engine
        tier = os.environ.get("VERIF_TIER", "quick")
        engine.MAX_SHRINKING_SECONDS = 20 if tier == "quick" else 60
        for name in ("numpy", "pandas", "scipy.interpolate", "yaml",
                     "scipy.integrate", "scipy.constants"):
            importlib.import_module(name)
        if any("C20" in arg for arg in sys.argv):
            from vh import grid
            grid.install()
        sys.path.insert(0, REPO_SRC)
        sys.pycache_prefix = os.path.join(scratch, "pyc")  # no stale bytecode
        import dispersion
        import dispersion.scripts.setup_dispersion  # noqa: F401
        import dispersion.scripts.catalogue_rebuild  # noqa: F401
        sys.pycache_prefix = None
        where = os.path.realpath(dispersion.__file__)
        if not where.startswith(REPO_SRC + "/"):
            raise HarnessError("dispersion imported from " + where)
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise
    return scratch


# --------------------------------------------------------------------------
# facets
# --------------------------------------------------------------------------

class Facet():
    """one executable form of (part of) a property

    name: str
    strategy: callable returning a Hypothesis strategy of JSON-able cases
    check: callable (case, env); raises when the property is violated
    nontrivial: callable (case, labels) -> bool
    quick, thorough: number of generated cases
    """

    def __init__(self, name, strategy, check, nontrivial, quick, thorough,
                 shards=1):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.nontrivial = nontrivial
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


class Env():
    """what a check may use besides its case"""

    def __init__(self, directory):
        self.directory = directory
        self.labels = set()
        self._counter = 0

    def label(self, text):
        """classify the current case"""
        self.labels.add(text)

    def fresh_dir(self):
        """an empty directory for this case, removed after it"""
        self._counter += 1
        path = os.path.join(self.directory, "case{}".format(self._counter))
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        return path

    def start_case(self):
        """forget the previous case"""
        self.labels = set()
        if self._counter:
            for entry in os.listdir(self.directory):
                shutil.rmtree(os.path.join(self.directory, entry),
                              ignore_errors=True)
        self._counter = 0


def fail(message, *args):
    """report a disagreement between code and oracle"""
    raise Violation(message.format(*args) if args else message)


def ensure(condition, message, *args):
    """raise Violation unless condition"""
    if not condition:
        fail(message, *args)


def case_key(case):
    """stable digest of a case"""
    text = json.dumps(case, sort_keys=True)
    return hashlib.blake2b(text.encode(), digest_size=12).hexdigest()


def run_case(facet, case, env):
    """run a case; Violation if the property does not hold for it"""
    env.start_case()
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            facet.check(case, env)
    except Violation:
        raise
    except TimeLimit:
        raise Violation("the case did not finish within {} s".format(
            CASE_SECONDS)) from None
    except MemoryError:
        raise
    except OSError as exc:
        if exc.errno in (28, 12, 24):  # ENOSPC, ENOMEM, EMFILE
            raise HarnessError(repr(exc)) from exc
        raise Violation("unexpected " + _describe(exc)) from exc
    except Exception as exc:
        raise Violation("unexpected " + _describe(exc)) from exc
    except SystemExit as exc:
        raise Violation("unexpected " + _describe(exc)) from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0.0)
        if os.getcwd() != cwd:
            os.chdir(cwd)


def _describe(exc):
    tail = traceback.extract_tb(exc.__traceback__)[-1]
    return "{}: {} (at {}:{})".format(type(exc).__name__, str(exc)[:300],
                                      os.path.basename(tail.filename),
                                      tail.lineno)


# --------------------------------------------------------------------------
# search
# --------------------------------------------------------------------------

def _search(prop_id, facet_index, shard, examples, seed, scratch, queue,
            deadline):
    """worker process: one shard of one facet"""
    result = {"facet": facet_index, "shard": shard, "evaluations": 0,
              "nontrivial": [], "labels": {}, "samples": [], "failure": None,
              "error": None}
    try:
        sys.stdout.flush()
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        sys.stdout = open(os.devnull, "w")
        module = load(prop_id)
        facet = module.FACETS[facet_index]
        directory = os.path.join(scratch, "w{}-{}".format(facet_index, shard))
        os.makedirs(directory)
        home = os.path.join(directory, "home")
        os.makedirs(os.path.join(home, ".config"))
        os.environ["HOME"] = home
        os.makedirs(os.path.join(directory, "cases"))
        env = Env(os.path.join(directory, "cases"))
        if shard % 4 != 3:
            _fresh_examples_only()
        _generate(facet, env, examples, seed, result, deadline)
    except BaseException as exc:  # reported to the parent as harness error
        result["error"] = "".join(traceback.format_exception(exc))[-3000:]
    queue.put(result)


def _fresh_examples_only():
    """draw every example anew: by default most examples of Hypothesis are
    mutations of the previous one, which clumps the few hundred of a quick
    run around a few structures"""
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        engine.ConjectureRunner.generate_mutations_from = \
            lambda self, data: None


def _generate(facet, env, examples, seed, result, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis import errors as herrors
    seen = set()
    last = {}

    def record(case):
        result["evaluations"] += 1
        for label in env.labels:
            result["labels"][label] = result["labels"].get(label, 0) + 1
        if facet.nontrivial(case, env.labels):
            key = case_key(case)
            if key not in seen:
                seen.add(key)
                size = len(json.dumps(case))
                if len(result["samples"]) < 3 and size < 2500 and len(seen) > 3:
                    result["samples"].append(case)

    @hypothesis.seed(seed)
    @settings(max_examples=examples, database=None, deadline=None,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck),
              print_blob=False, report_multiple_bugs=False)
    @hypothesis.given(facet.strategy())
    def search(case):
        if "case" not in last and time.time() > deadline:
            raise Enough()
        try:
            run_case(facet, case, env)
        except Violation as exc:
            last["case"] = case
            last["message"] = str(exc)
            last.setdefault("first", case)
            cause = exc.__cause__
            if cause is not None:
                last["trace"] = "".join(
                    traceback.format_exception(cause))[-3000:]
            raise
        record(case)

    try:
        search()
    except Violation:
        pass
    except Enough:
        result["cut"] = True
    except (herrors.Flaky, BaseExceptionGroup):
        if "case" not in last:
            raise
        last["note"] = ("the failure depends on earlier cases of the same "
                        "run and did not repeat in isolation")
    result["nontrivial"] = sorted(seen)
    if "case" in last:
        result["failure"] = last


def load(prop_id):
    """the module of a property"""
    return importlib.import_module("vh.props." + prop_id.lower())


def facet_seed(seed, prop_id, facet, shard):
    """seed of one shard"""
    text = "{}/{}/{}/{}".format(seed, prop_id, facet.name, shard)
    return int.from_bytes(hashlib.blake2b(text.encode(),
                                          digest_size=8).digest(), "big")


def all_jobs(module, tier):
    """(facet index, shard, number of examples), every facet early"""
    jobs = []
    for index, facet in enumerate(module.FACETS):
        total = facet.quick * QUICK_SCALE if tier == "quick" else \
            facet.thorough
        shards = max(facet.shards, 1)
        if tier == "quick":
            shards *= 2
        else:
            shards = max(shards, min(16, total // 500))
        for shard in range(shards):
            jobs.append((index, shard, max(1, total // shards)))
    return sorted(jobs, key=lambda job: job[1])


def run_jobs(prop_id, module, jobs, tier, seed, scratch, deadline):
    """jobs of one group in parallel processes"""
    context = multiprocessing.get_context("fork")
    queue = context.Queue()
    results = []
    running = {}
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < GROUP_WORKERS:
            index, shard, examples = pending.pop(0)
            facet = module.FACETS[index]
            process = context.Process(
                target=_search,
                args=(prop_id, index, shard, examples,
                      facet_seed(seed, prop_id, facet, shard), scratch, queue,
                      deadline))
            process.start()
            running[(index, shard)] = process
        try:
            result = queue.get(timeout=1.0)
        except Exception:
            for key, process in list(running.items()):
                if not process.is_alive():
                    process.join()
                    time.sleep(0.2)
                    if queue.empty():
                        raise HarnessError("worker {} ended with exit code {}"
                                           .format(key, process.exitcode))
            continue
        key = (result["facet"], result["shard"])
        running.pop(key).join()
        results.append(result)
        if result["failure"] is not None and tier == "quick":
            pending = []
    return results


def group(prop_id, tier, number, out, deadline):
    """one group of jobs in an interpreter with a hash seed of its own"""
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = prepare()
    try:
        module = load(prop_id)
        jobs = all_jobs(module, tier)[number::GROUPS]
        results = run_jobs(prop_id, module, jobs, tier, seed, scratch,
                           deadline)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "w", encoding="utf8") as fpt:
        json.dump(results, fpt)
    return 0


def search_all(prop_id, tier, scratch):
    """all facets of a property.  The interpreter's hash seed decides the
    order of sets and with it what the code does, so each group has another"""
    deadline = time.time() + SEARCH_SECONDS.get(tier, 7200.0)
    base = int(os.environ.get("PYTHONHASHSEED", "0") or "0")
    children = []
    for number in range(GROUPS):
        out = os.path.join(scratch, "group{}.json".format(number))
        hashseed = str(base * GROUPS + number)
        environ = dict(os.environ, PYTHONHASHSEED=hashseed)
        child = subprocess.Popen(
            [sys.executable, "-X", "utf8=0", "-m", "vh", "group", prop_id,
             tier, str(number), out, str(deadline)],
            cwd=VERIF, env=environ, stdin=subprocess.DEVNULL)
        children.append((child, out, hashseed))
    results = []
    problem = None
    for child, out, hashseed in children:
        if child.wait() != 0 or not os.path.isfile(out):
            problem = "a group ended with exit code {}".format(
                child.returncode)
            continue
        with open(out, encoding="utf8") as fpt:
            for result in json.load(fpt):
                if result["failure"] is not None:
                    result["failure"]["hashseed"] = hashseed
                results.append(result)
    if problem is not None and not any(r["failure"] for r in results):
        raise HarnessError(problem)
    results.sort(key=lambda item: (item["facet"], item["shard"]))
    return results


# --------------------------------------------------------------------------
# regression cases and known findings
# --------------------------------------------------------------------------

def regression_cases(prop_id):
    """saved shrunk failures: list of {"facet":, "case":, "what":}"""
    path = os.path.join(VERIF, "regress", prop_id + ".json")
    if not os.path.isfile(path):
        return []
    with open(path, encoding="utf8") as fpt:
        return json.load(fpt)


def known_findings(prop_id):
    """entries of the known-findings file that are not fixed"""
    if not os.path.isfile(FINDINGS):
        return []
    with open(FINDINGS, encoding="utf8") as fpt:
        data = json.load(fpt)
    return [item for item in data.get("known", [])
            if item["property"] == prop_id]


def facet_by_name(module, name):
    """facet of a property module"""
    for facet in module.FACETS:
        if facet.name == name:
            return facet
    raise HarnessError("no facet " + name)


def write_replay(prop_id, facet_name, failure):
    """save a failing case"""
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "{}-{}.json".format(prop_id, facet_name))
    data = {"property": prop_id, "facet": facet_name,
            "case": failure["case"], "message": failure["message"]}
    for key in ("note", "trace", "hashseed"):
        if key in failure:
            data[key] = failure[key]
    with open(path, "w", encoding="utf8") as fpt:
        json.dump(data, fpt, indent=1)
    return path


# --------------------------------------------------------------------------
# commands
# --------------------------------------------------------------------------

def decide(prop_id, tier):
    """run the check of one property"""
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.environ["VERIF_TIER"] = tier
    scratch = prepare()
    try:
        module = load(prop_id)
        return _decide(prop_id, module, tier, seed, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _decide(prop_id, module, tier, seed, scratch, start):
    failures = []
    evaluations = 0
    replayed = 0
    # saved cases first
    regressions = regression_cases(prop_id)
    directory = os.path.join(scratch, "regress")
    os.makedirs(directory)
    env = Env(directory)
    stdout = sys.stdout
    for item in regressions:
        facet = facet_by_name(module, item["facet"])
        sys.stdout = open(os.devnull, "w")
        try:
            run_case(facet, item["case"], env)
        except Violation as exc:
            failures.append((facet.name, {"case": item["case"],
                                          "message": str(exc)}))
        finally:
            sys.stdout.close()
            sys.stdout = stdout
        evaluations += 1
        replayed += 1
    findings = []
    for item in known_findings(prop_id):
        facet = facet_by_name(module, item["facet"])
        sys.stdout = open(os.devnull, "w")
        try:
            run_case(facet, item["case"], env)
        except Violation:
            findings.append(item["what"])
        finally:
            sys.stdout.close()
            sys.stdout = stdout
    results = []
    if not failures or tier != "quick":
        results = search_all(prop_id, tier, scratch)
    errors = [item["error"] for item in results if item["error"]]
    facets = {}
    distinct = 0
    samples = []
    for index, facet in enumerate(module.FACETS):
        mine = [item for item in results if item["facet"] == index]
        keys = set()
        labels = {}
        count = 0
        for item in mine:
            keys.update(item["nontrivial"])
            count += item["evaluations"]
            for label, number in item["labels"].items():
                labels[label] = labels.get(label, 0) + number
            if item["failure"] is not None:
                failures.append((facet.name, item["failure"]))
        for item in mine[:1]:
            for case in item["samples"][:2]:
                samples.append({"facet": facet.name, "case": case})
        facets[facet.name] = {"cases": count, "distinct_nontrivial": len(keys),
                              "labels": dict(sorted(labels.items()))}
        evaluations += count
        distinct += len(keys)
    for what in findings:
        print("KNOWN-FINDING: property={} {}".format(prop_id, what))
    seen = set()
    for name, failure in failures:
        if name in seen:
            continue
        seen.add(name)
        path = write_replay(prop_id, name, failure)
        print("{} [{}]: {}".format(prop_id, name, failure["message"][:600]))
        print("VIOLATION property={} replay={}".format(prop_id, path))
    evidence = {
        "property": prop_id, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": module.RULE,
            "samples": samples,
            "regression_cases_replayed": replayed,
            "shards_cut_short": sum(1 for item in results
                                    if item.get("cut")),
            "facets": facets},
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(seen)}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop_id + ".json"), "w",
              encoding="utf8") as fpt:
        json.dump(evidence, fpt, indent=1)
    if seen:
        return 1
    if errors:
        print("harness error:\n" + errors[0], file=sys.stderr)
        return 2
    print("{} {}: held on {} cases ({} distinct non-trivial), {:.1f} s".format(
        prop_id, tier, evaluations, distinct, time.time() - start))
    return 0


def replay(path):
    """re-run a saved case"""
    with open(path, encoding="utf8") as fpt:
        data = json.load(fpt)
    hashseed = data.get("hashseed", os.environ.get("PYTHONHASHSEED"))
    if hashseed != os.environ.get("PYTHONHASHSEED"):
        os.environ["PYTHONHASHSEED"] = hashseed
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, "-X", "utf8=0", "-m", "vh",
                                  "replay", path])
    scratch = prepare()
    try:
        module = load(data["property"])
        facet = facet_by_name(module, data["facet"])
        directory = os.path.join(scratch, "replay")
        os.makedirs(directory)
        try:
            run_case(facet, data["case"], Env(directory))
        except Violation as exc:
            traceback.print_exc()
            print("{} [{}]: {}".format(data["property"], facet.name, exc))
            print("VIOLATION property={} replay={}".format(data["property"],
                                                           path))
            return 1
        print("case passes")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    """check the tools"""
    scratch = prepare()
    shutil.rmtree(scratch, ignore_errors=True)
    import hypothesis
    print("hypothesis", hypothesis.__version__, "ok")
    return 0


def main(args):
    """command line"""
    if not args:
        print("usage: run.sh <property> [quick|thorough] | replay FILE | setup")
        return 2
    try:
        if args[0] == "setup":
            return setup()
        if args[0] == "group":
            return group(args[1], args[2], int(args[3]), args[4],
                         float(args[5]))
        if args[0] == "replay":
            return replay(args[1])
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER",
                                                            "quick")
        return decide(args[0].upper(), tier)
    except HarnessError as exc:
        print("harness error:", exc, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
