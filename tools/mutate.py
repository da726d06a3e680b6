"""lab tool: small systematic changes of the source, run against the checks

usage: mutate.py list [FILE ...]                    number of changes per file
       mutate.py run OUT.jsonl EXAMPLES [FILE ...]  run them, 8 at a time
       mutate.py again OUT.jsonl OUT2.jsonl EXAMPLES  survivors once more
Each change is applied to a copy of /repo/src in a scratch directory; the
facets of all properties run with a small number of cases (no saved cases, no
shrinking) until one reports a violation.  Nothing here touches /repo.
"""
import ast
import copy
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
SRC = "/repo/src"
FILES = ["spectrum.py", "spectral_data.py", "material.py", "io.py",
         "catalogue.py", "config.py", "scripts/setup_dispersion.py",
         "scripts/catalogue_rebuild.py"]
FIRST = {"spectrum.py": "C01 C02 C18 C07 C17",
         "spectral_data.py": "C03 C04 C05 C02 C07 C08 C10 C18",
         "material.py": "C18 C06 C03 C10 C12 C11 C17 C09 C08 C07 C20",
         "io.py": "C12 C11 C10 C04", "catalogue.py": "C13 C14 C20",
         "config.py": "C15 C16", "scripts/setup_dispersion.py": "C16 C15",
         "scripts/catalogue_rebuild.py": "C16"}
ALL = ["C{:02d}".format(i) for i in range(1, 21)]
COMPARE = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
           ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
           ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BINARY = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
          ast.Div: ast.Mult, ast.Pow: ast.Mult}
UNWRAP = {"abs", "sort", "strip", "lstrip", "rstrip", "lower", "upper", "copy",
          "deepcopy", "real", "imag", "round", "array", "asarray", "sorted",
          "atleast_1d", "squeeze", "reset_index", "float", "int", "str",
          "list", "dict", "abspath", "expanduser", "conj", "flatten", "min",
          "max", "sum", "isclose", "fillna", "astype", "dropna"}


def quiet(node):
    """messages and documentation are not judged"""
    if isinstance(node, ast.Raise):
        return True
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
        return True
    if isinstance(node, ast.Call):
        func = node.func
        name = func.id if isinstance(func, ast.Name) else \
            getattr(func, "attr", "")
        return name in ("print", "warn")
    return False


def sites(tree):
    """(path to node, description, function that changes the node) ..."""
    out = []

    def visit(node, path, muted):
        muted = muted or quiet(node)
        if not muted:
            expression(node, path)
        for field, value in ast.iter_fields(node):
            if isinstance(value, list):
                for index, item in enumerate(value):
                    if isinstance(item, ast.AST):
                        if isinstance(item, ast.stmt):
                            statement(item, path + [(field, index)])
                        visit(item, path + [(field, index)], muted)
            elif isinstance(value, ast.AST):
                visit(value, path + [(field, None)], muted)

    def add(path, node, what, change):
        out.append((path, getattr(node, "lineno", 0), what, change))

    def statement(node, path):
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
            add(path, node, "delete", lambda n: ast.Pass())
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            add(path, node, "delete", lambda n: ast.Pass())
        if isinstance(node, ast.Return) and node.value is not None:
            add(path, node, "return None",
                lambda n: ast.Return(ast.Constant(None)))
        if isinstance(node, ast.Continue):
            add(path, node, "continue to break", lambda n: ast.Break())
            add(path, node, "delete", lambda n: ast.Pass())
        if isinstance(node, ast.Break):
            add(path, node, "break to continue", lambda n: ast.Continue())
            add(path, node, "delete", lambda n: ast.Pass())
        if isinstance(node, (ast.If, ast.While)):
            for flag in (True, False):
                if isinstance(node, ast.While) and flag:
                    continue

                def force(n, flag=flag):
                    n.test = ast.Constant(flag)
                    return n
                add(path, node, "condition {}".format(flag), force)

    def expression(node, path):
        if isinstance(node, ast.Compare):
            for i, oper in enumerate(node.ops):
                if type(oper) in COMPARE:
                    def swap(n, i=i, oper=oper):
                        n.ops[i] = COMPARE[type(oper)]()
                        return n
                    add(path, node, "compare", swap)
                    if isinstance(oper, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                        def turn(n, i=i, oper=oper):
                            n.ops[i] = {ast.Lt: ast.Gt, ast.LtE: ast.GtE,
                                        ast.Gt: ast.Lt, ast.GtE: ast.LtE}[
                                            type(oper)]()
                            return n
                        add(path, node, "compare reversed", turn)
        elif isinstance(node, ast.BinOp) and type(node.op) in BINARY:
            def other(n):
                n.op = BINARY[type(n.op)]()
                return n
            add(path, node, "arithmetic", other)
        elif isinstance(node, ast.BoolOp):
            def logic(n):
                n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
                return n
            add(path, node, "and/or", logic)
            for i in range(len(node.values)):
                def drop(n, i=i):
                    left = [v for j, v in enumerate(n.values) if j != i]
                    return left[0] if len(left) == 1 else \
                        ast.BoolOp(n.op, left)
                add(path, node, "operand {} dropped".format(i), drop)
        elif isinstance(node, ast.UnaryOp):
            add(path, node, "unary dropped", lambda n: n.operand)
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                add(path, node, "not", lambda n: ast.Constant(not n.value))
            elif isinstance(node.value, (int, float)):
                add(path, node, "plus one",
                    lambda n: ast.Constant(n.value + 1))
                if node.value != 0:
                    add(path, node, "minus one",
                        lambda n: ast.Constant(n.value - 1))
            elif isinstance(node.value, str):
                add(path, node, "text",
                    lambda n: ast.Constant(n.value + "x"))
        elif isinstance(node, ast.Call):
            for i in range(len(node.keywords)):
                def less(n, i=i):
                    del n.keywords[i]
                    return n
                add(path, node, "keyword {} dropped".format(
                    node.keywords[i].arg), less)
            func = node.func
            name = func.id if isinstance(func, ast.Name) else \
                getattr(func, "attr", "")
            if name in UNWRAP:
                if isinstance(func, ast.Attribute) and not (
                        isinstance(func.value, ast.Name) and
                        func.value.id in ("np", "os", "copy")) and not (
                            isinstance(func.value, ast.Attribute)):
                    add(path, node, "call {} dropped".format(name),
                        lambda n: n.func.value)
                elif node.args:
                    add(path, node, "call {} dropped".format(name),
                        lambda n: n.args[0])
            if len(node.args) >= 2 and not any(
                    isinstance(a, ast.Starred) for a in node.args):
                def exchange(n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                    return n
                add(path, node, "arguments exchanged", exchange)
        elif isinstance(node, ast.Slice):
            if node.step is not None:
                def step(n):
                    n.step = None
                    return n
                add(path, node, "step dropped", step)
            if node.lower is not None:
                def lower(n):
                    n.lower = None
                    return n
                add(path, node, "lower dropped", lower)
            if node.upper is not None:
                def upper(n):
                    n.upper = None
                    return n
                add(path, node, "upper dropped", upper)
        elif isinstance(node, (ast.List, ast.Tuple, ast.Set)) and \
                len(node.elts) > 1 and isinstance(node.ctx if hasattr(
                    node, "ctx") else ast.Load(), ast.Load):
            for i in range(len(node.elts)):
                def without(n, i=i):
                    del n.elts[i]
                    return n
                add(path, node, "element {} dropped".format(i), without)
        elif isinstance(node, ast.Dict) and node.keys:
            for i in range(len(node.keys)):
                def remove(n, i=i):
                    del n.keys[i]
                    del n.values[i]
                    return n
                add(path, node, "entry {} dropped".format(i), remove)

    visit(tree, [], False)
    return out


def apply(tree, path, change):
    """a changed copy of the tree"""
    tree = copy.deepcopy(tree)
    parent, node = None, tree
    for field, index in path:
        parent, last = node, (field, index)
        node = getattr(node, field)
        if index is not None:
            node = node[index]
    new = change(node)
    if new is not node:
        field, index = last
        if index is None:
            setattr(parent, field, new)
        else:
            getattr(parent, field)[index] = new
    return ast.fix_missing_locations(tree)


def mutants(names):
    """all changes: {"file", "line", "what", "old", "new", "text"}"""
    for name in names:
        with open(os.path.join(SRC, "dispersion", name)) as fpt:
            source = fpt.read()
        tree = ast.parse(source)
        before = ast.unparse(tree).split("\n")
        seen = {"\n".join(before)}
        for path, line, what, change in sites(tree):
            text = ast.unparse(apply(tree, path, change))
            if text in seen:
                continue
            seen.add(text)
            try:
                compile(text, name, "exec")
            except (SyntaxError, ValueError):
                continue
            after = text.split("\n")
            first = next((i for i, (a, b) in enumerate(zip(before, after))
                          if a != b), 0)
            yield {"file": name, "line": line, "what": what,
                   "old": before[first].strip(), "new": after[first].strip(),
                   "text": text}


def work(mutant, src, props, examples, queue, limit):
    """one changed source in a process of its own"""
    from vh import core
    core.REPO_SRC = src
    core.CASE_SECONDS = 20.0
    log = os.open(os.devnull, os.O_WRONLY)
    os.dup2(log, 1)
    os.dup2(log, 2)
    sys.argv = ["vh"] + (["C20"] if props == ["C20"] else [])
    verdict = "survived"
    scratch = None
    try:
        try:
            scratch = core.prepare()
        except BaseException as exc:
            queue.put("import: " + repr(exc)[:100])
            return
        from hypothesis import Phase, HealthCheck, settings, given, seed
        core._fresh_examples_only()
        end = time.time() + limit
        for prop in props:
            module = core.load(prop)
            for number, facet in enumerate(module.FACETS):
                directory = os.path.join(scratch, prop + str(number))
                home = os.path.join(directory, "home")
                os.makedirs(os.path.join(home, ".config"))
                os.environ["HOME"] = home
                os.makedirs(os.path.join(directory, "cases"))
                env = core.Env(os.path.join(directory, "cases"))

                @seed(7)
                @settings(max_examples=examples, database=None,
                          deadline=None, phases=(Phase.generate,),
                          suppress_health_check=list(HealthCheck),
                          report_multiple_bugs=False)
                @given(facet.strategy())
                def search(case):
                    if time.time() > end:
                        raise TimeoutError()
                    core.run_case(facet, case, env)
                try:
                    search()
                except TimeoutError:
                    verdict = "survived (time)"
                except core.Violation as exc:
                    queue.put("{} {}: {}".format(prop, facet.name,
                                                 str(exc)[:150]))
                    return
                except BaseException as exc:
                    queue.put("{} {}: error {}".format(prop, facet.name,
                                                       repr(exc)[:150]))
                    return
        queue.put(verdict)
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)


def preload():
    """what every process needs, once"""
    from vh import core
    scratch = tempfile.mkdtemp(prefix="vh-")
    core._link_hypothesis(scratch)
    import hypothesis  # noqa: F401
    import hypothesis.strategies  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.integrate  # noqa: F401
    import scipy.constants  # noqa: F401
    import yaml  # noqa: F401
    import matplotlib  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    return scratch


def run(todo, out, examples, workers=8, limit=1500):
    """all mutants, in parallel"""
    site = preload()
    base = tempfile.mkdtemp(prefix="mut-")
    context = multiprocessing.get_context("fork")
    running = []
    count = 0
    with open(out, "a") as fpt:
        while todo or running:
            while todo and len(running) < workers:
                mutant = todo.pop(0)
                count += 1
                src = os.path.join(base, str(count), "src")
                shutil.copytree(SRC, src,
                                ignore=shutil.ignore_patterns("__pycache__"))
                with open(os.path.join(src, "dispersion", mutant["file"]),
                          "w") as target:
                    target.write(mutant["text"])
                first = FIRST[mutant["file"]].split()
                props = mutant.get("props") or first + [
                    p for p in ALL if p not in first]
                stages = [[p for p in props if p != "C20"]]
                if "C20" in props:
                    stages.append(["C20"])
                running.append([mutant, src, stages, None, None, 0])
            for item in list(running):
                mutant, src, stages, process, queue, begun = item
                if process is None:
                    queue = context.SimpleQueue()
                    process = context.Process(
                        target=work, args=(mutant, src, stages.pop(0),
                                           examples, queue, limit))
                    process.start()
                    item[3:] = [process, queue, time.time()]
                    continue
                if process.is_alive() and time.time() - begun < limit + 120:
                    continue
                if process.is_alive():
                    process.kill()
                process.join()
                verdict = queue.get() if not queue.empty() else \
                    "ended {}".format(process.exitcode)
                if verdict.startswith("survived") and stages:
                    item[3:] = [None, None, 0]
                    continue
                running.remove(item)
                shutil.rmtree(os.path.dirname(src), ignore_errors=True)
                fpt.write(json.dumps(dict(mutant, verdict=verdict)) + "\n")
                fpt.flush()
            time.sleep(0.05)
    shutil.rmtree(base, ignore_errors=True)
    shutil.rmtree(site, ignore_errors=True)


def main():
    """command line"""
    args = sys.argv[1:]
    if args[0] == "list":
        for name in args[1:] or FILES:
            print(name, len(list(mutants([name]))))
    elif args[0] == "run":
        done = set()
        if os.path.isfile(args[1]):
            with open(args[1]) as fpt:
                for line in fpt:
                    item = json.loads(line)
                    done.add((item["file"], item["text"]))
        todo = [m for m in mutants(args[3:] or FILES)
                if (m["file"], m["text"]) not in done]
        run(todo, args[1], int(args[2]))
    elif args[0] == "again":
        with open(args[1]) as fpt:
            todo = [json.loads(line) for line in fpt]
        todo = [m for m in todo if m["verdict"].startswith("survived")]
        run(todo, args[2], int(args[3]))


main()
