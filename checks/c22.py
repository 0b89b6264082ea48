"""C22 converting .py inputs to .xlsx preserves the model"""
import itertools
import os
import runpy
import shutil
import subprocess
import sys
import warnings

from mc import boot
from mc.lib import core
from checks.c17 import ALT, BASES, DEFAULTS, compare_usecases, reference, variants
from checks.c19 import windows_declared

BOUNDS = dict(
    quick="3 styles of files x 5 forms of import x 6 base models and every alternative value of every parameter; 12 forms of path x 4 output folders "
    "x 4 suffixes x file in another folder or not; every sequence of up to 3 conversions among 7 (same file, same name elsewhere, "
    "edited file, command line); 12 special files",
    thorough="the same with every pair of parameters and sequences of up to 4 conversions",
)
ASSUMPTIONS = ["the .py file defines User_list at its first level", "user names are unique"]
CASE_TIMEOUT = 850

IMPORTS = {
    "old": "from core import User, np\n",
    "package": "from ramp.core.core import User, Appliance\nimport numpy as np\n",
    "top": "from ramp import User\nimport numpy as np\n",
    "old-two": "from core import User\nfrom core import Appliance, np\n",
    "old-comment": "# model written for the old code\nimport numpy as np\nimport pandas as pd\nfrom core import User  # class of users\n",
}
STYLES = ("legacy", "keywords", "objects")


def lit(k, v):
    if isinstance(v, tuple):
        return repr(list(v))
    if k == "power" and isinstance(v, list):
        return f"__import__('pandas').DataFrame({{'p': {v!r}}})"
    return repr(v)


ORDER = ["number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
         "occasional_use", "flat", "thermal_P_var", "pref_index", "wd_we_type", "name"]


def lines_of(var, user, d, style):
    """source of the definition of an appliance"""
    args = [k for k in DEFAULTS if k in d and not k.startswith(("window", "random_var", "p_", "t_", "r_c", "cw"))] + (["name"] if "name" in d else [])
    win = [k for k in ("window_1", "window_2", "window_3", "random_var_w") if k in d]
    cyc = {i: [k for k in (f"p_{i}1", f"t_{i}1", f"p_{i}2", f"t_{i}2", f"r_c{i}") if k in d] for i in (1, 2, 3)}
    cws = [k for k in ("cw11", "cw12", "cw21", "cw22", "cw31", "cw32") if k in d]
    if style == "keywords":
        every = args + win + sum(cyc.values(), []) + cws
        return [f"{var} = {user}.add_appliance(" + ", ".join(f"{k}={lit(k, d[k])}" for k in every) + ")"]
    if style == "objects":
        out = [f"{var} = Appliance({user}, " + ", ".join(f"{k}={lit(k, d[k])}" for k in args) + ")"]
    else:
        kw = [("thermal_P_var" if k == "thermal_p_var" else k) for k in args]
        vals = {("thermal_P_var" if k == "thermal_p_var" else k): lit(k, d[k]) for k in args}
        # the leading arguments are given by position
        pos = list(itertools.takewhile(lambda k: k in vals, ORDER))
        out = [f"{var} = {user}.Appliance(" + ", ".join([vals[k] for k in pos] + [f"{k}={vals[k]}" for k in kw if k not in pos]) + ")"]
    out.append(f"{var}.windows(" + ", ".join(f"{k}={lit(k, d[k])}" for k in win) + ")")
    for i in (1, 2, 3):
        if cyc[i]:
            out.append(f"{var}.specific_cycle_{i}(" + ", ".join(f"{k}={lit(k, d[k])}" for k in cyc[i]) + ")")
    if cws:
        full = reference(d, "x")
        out.append(f"{var}.cycle_behaviour(" + ", ".join(f"{k}={lit(k, full[k])}" for k in ("cw11", "cw12", "cw21", "cw22", "cw31", "cw32")) + ")")
    return out


def source(model, style, imports, end="\n", middle=()):
    """model: [(variable, user name, number, preference, [(variable, parameters)])]"""
    out = [IMPORTS[imports], "User_list = []\n", '"""', "text of the model, with 'quotes'", '"""']
    if style == "objects" and "Appliance" not in IMPORTS[imports]:
        out.append("from ramp.core.core import Appliance")
    for var, name, n, pref, apps in model:
        out.append(f"{var} = User({name!r}, {n}, {pref})")
        out.append(f"User_list.append({var})")
    out += list(middle)
    for var, name, n, pref, apps in model:
        for a, d in apps:
            out += [""] + lines_of(a, var, d, style)
    return "\n".join(out) + end


def refs_of(model, names=True):
    return [(name, n, pref, [dict(reference(d, a), name=a if names else d.get("name", a)) for a, d in apps]) for _, name, n, pref, apps in model]


def small(tag="", k=0):
    return [
        (f"HI{tag}", f"high income {k}", 11 + k, 3, [(f"HI_bulb{tag}", dict(BASES["plain"], number=2 + k)), (f"HI_tv{tag}", dict(BASES["windows"], pref_index=1))]),
        (f"LI{tag}", "low income", 4, 0, [(f"LI_cooker{tag}", dict(BASES["duty"])), (f"LI_bulb{tag}", dict(BASES["series"], power=BASES["plain"]["power"]))]),
    ]


class Work:
    def __enter__(self):
        self.dir = os.path.realpath(boot.scratch_dir("c22"))
        self.here = os.getcwd()
        self.path = list(sys.path)
        self.modules = set(sys.modules)
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.here)
        sys.path[:] = self.path
        for k in set(sys.modules) - self.modules:
            if not k.startswith(("ramp", "numpy", "pandas")):
                del sys.modules[k]
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        out = set()
        for base, dirs, names in os.walk(self.dir):
            if "__pycache__" in dirs:
                dirs.remove("__pycache__")
            out |= {os.path.relpath(os.path.join(base, n), self.dir) for n in names}
        return out


def write(path, text):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fp:
        fp.write(text)


def convert(path, **kw):
    import ramp.ramp_convert_old_input_files as m

    return m.convert_old_user_input_file(path, **kw)


def command(*args):
    import ramp.ramp_convert_old_input_files as m

    argv = sys.argv
    sys.argv = ["ramp_convert"] + list(args)
    try:
        m.cli()
    finally:
        sys.argv = argv


def attempt(res, label, f):
    res.stats.executions += 1
    res.stats.transitions += 1
    try:
        f()
    except Exception as e:
        res.violate(f"{label}: {type(e).__name__}: {str(e)[:200]}")
        return False
    return True


def compare_xlsx(res, label, path, refs):
    if not os.path.exists(path):
        res.violate(f"{label}: {os.path.basename(path)} is not written")
        return False
    uc = core().UseCase()
    uc.load(path)
    res.stats.states += len(uc.users)
    return compare_usecases(res, label, uc, refs)


def compare_py(res, label, path, refs, modules=True):
    """the python file still defines the model"""
    users = runpy.run_path(path)["User_list"]
    return compare_usecases(res, label + ", the python file after the conversion", core().UseCase(users=users), refs)


def cases(tier):
    out = [(f"model-{b}-{s}-{i}", ("model", b, s, i, tier)) for b in BASES for s in STYLES for i in IMPORTS]
    out += [(f"paths-{i}", ("paths", i)) for i in range(len(PATHS))]
    out += [(f"history-{i}", ("history", i, tier)) for i in range(len(OPS))]
    out += [("special", ("special",)), ("examples", ("examples",)), ("command", ("command",)), ("process", ("process",))]
    return out


def run_case(case, res):
    warnings.simplefilter("ignore")
    with boot.private_package():
        globals()[case[0] + "_case"](case, res)


def model_case(case, res):
    _, base, style, imports, tier = case
    defs = [d for d in (variants(base, tier) if tier != "quick" else singles(base)) if "name" not in d]
    if style == "legacy":
        defs = [d for d in defs if d.get("continuous_duty_cycle", 1) == 1]
    k = list(IMPORTS).index(imports)
    if tier == "quick":
        defs = defs[:1] + [d for i, d in enumerate(defs[1:]) if i % len(IMPORTS) == k]
    size = 8
    with Work() as w:
        for batch in range(0, len(defs), 4 * size):
            model = []
            part = defs[batch: batch + 4 * size]
            for i in range(0, len(part), size):
                model.append((f"U_{i}", f"user {i}", 1 + i, i % 4, [(f"app_{i}_{j}", d) for j, d in enumerate(part[i: i + size])]))
            name = f"model_{batch}.py"
            write(name, source(model, style, imports))
            label = f"{base} model, {style}, {imports} imports"
            if not attempt(res, label, lambda: convert(name)):
                return
            if not compare_xlsx(res, label, name.replace(".py", ".xlsx"), refs_of(model)):
                return
            if not compare_py(res, label, name, refs_of(model)):
                return
        res.sample = dict(base=base, style=style, imports=imports, appliances=len(defs))


def singles(base):
    out = [dict(BASES[base])]
    for k, vs in ALT.items():
        for v in vs:
            if dict(DEFAULTS, **BASES[base]).get(k) != v:
                d = windows_declared(dict(BASES[base], **{k: v}))
                if d is not None:
                    out.append(d)
    return out


# ------------------------------------------------------------------------------------- paths
PATHS = ("input_1.py", os.path.join("models", "input.py"), os.path.join(".", "x.py"), os.path.join("..", "w", "y.py"), "my file.py",
         os.path.join("some dir", "with-dash.v2.py"), "/abs.py", os.path.join("a.py.d", "z.py"), os.path.join("/deep", "er", "json.py"),
         "json.py", "string.py", os.path.join("pkg", "sub", "code.py"), "village_.py", "_lead.py", "my.python.model.py",
         os.path.join("x.pyz", "a.pyx.py"), "UPPER.py", "1st.py", "a b_c-.py", "p.py.py")
FOLDERS = (None, "out", "/out abs", os.path.join("other.py", "deep"))
SUFFIXES = ("", "_new", ".v1", " copy")


def paths_case(case, res):
    shape = PATHS[case[1]]
    for k, (folder, suffix) in enumerate(itertools.product(FOLDERS, SUFFIXES)):
        with Work() as w:
            work = os.path.join(w.dir, "w")
            os.makedirs(work)
            os.chdir(work)
            path = os.path.join(w.dir, shape[1:]) if shape.startswith("/") else shape
            out = os.path.join(w.dir, folder[1:]) if folder and folder.startswith("/") else folder
            model = small(k=k)
            write(path, source(model, STYLES[k % 2], list(IMPORTS)[k % 5]))
            if out:
                os.makedirs(out)
            before = w.files()
            label = f"converting {shape} to {folder} with the suffix {suffix!r}"
            if not attempt(res, label, lambda: convert(path, output_path=out, suffix=suffix)):
                return
            stem = os.path.basename(path)[:-3]
            want = os.path.join(os.path.dirname(path) if out is None else out, stem + suffix + ".xlsx")
            new = w.files() - before
            rel = os.path.relpath(os.path.realpath(want), w.dir)
            if new != {rel}:
                res.violate(f"{label}: the files {sorted(new)} are written instead of {rel}")
                return
            if not compare_xlsx(res, label, want, refs_of(model)) or not compare_py(res, label, path, refs_of(model)):
                return
    res.sample = dict(path=shape)


# ------------------------------------------------------------------------------------- histories
OPS = ("same", "other-folder", "edit", "command", "edited-names", "absolute", "keep")


def history_case(case, res):
    _, first, tier = case
    depth = 2 if tier == "quick" else 3
    for d in range(depth + 1):
        for rest in itertools.product(range(len(OPS)), repeat=d):
            hist = [OPS[i] for i in (first,) + rest]
            with Work() as w:
                models = {"a": small(), "b": small("_b", 5)}
                names = {"a": True, "b": True}
                os.makedirs("b")
                files = {"a": "model.py", "b": os.path.join("b", "model.py")}
                for k in files:
                    write(files[k], source(models[k], "legacy" if k == "a" else "keywords", "old"))
                for n, op in enumerate(hist):
                    target = "a"
                    f = None
                    if op == "same":
                        f = lambda: convert("model.py")  # noqa
                    elif op == "other-folder":
                        target = "b"
                        here = os.getcwd()

                        def f():
                            os.chdir("b")
                            try:
                                convert("model.py")
                            finally:
                                os.chdir(here)
                    elif op in ("edit", "edited-names"):
                        # the file is written again, the code added by a previous conversion is lost
                        models["a"] = small("_e" if op == "edited-names" else "", n + 10)
                        write(files["a"], source(models["a"], "keywords", "package"))
                        f = lambda: convert("model.py")  # noqa
                    elif op == "command":
                        target = "b"
                        f = lambda: command("-i", "model.py", os.path.join("b", "model.py"))  # noqa
                    elif op == "absolute":
                        f = lambda: convert(os.path.join(w.dir, "model.py"))  # noqa
                    elif op == "keep":
                        f = lambda: convert("model.py", keep_names=True)  # noqa
                    label = f"after {hist[: n + 1]}"
                    if not attempt(res, label, f):
                        return
                    for t in {target} | ({"a"} if op == "command" else set()):
                        if not compare_xlsx(res, label, files[t].replace(".py", ".xlsx"), refs_of(models[t])):
                            return
                        if n == len(hist) - 1 and not compare_py(res, label, files[t], refs_of(models[t])):
                            return
                for t in files:
                    with open(files[t]) as fp:
                        text = fp.read()
                    if text.count("Code automatically added") > 1:
                        res.violate(f"after {hist}: the code which names the appliances is added several times")
                        return


VARIABLES = ("_x", "__y", "_", "i", "a", "X_1", "appliance_1", "appliance_7", "name", "user", "list_", "T" * 40, "UseCase", "users")


def special_case(case, res):
    """special files: names given or not, no variable, several variables, no newline at the end..."""
    plain = dict(BASES["plain"], num_windows=1)

    def app(user, **kw):
        d = dict(plain, **kw)
        return f"{user}.add_appliance(" + ", ".join(f"{k}={lit(k, v)}" for k, v in d.items()) + ")"

    head = "from core import User\n"
    two = "A = User('a', 2, 1)\nB = User('b', 3)\n"

    def ref(*apps):
        return [dict(reference(dict(plain, **kw), n), name=n) for n, kw in apps]

    texts = {
        "no newline at the end": (head + two + f"x = {app('A')}\ny = {app('B', number=4)}\nUser_list = [A, B]",
                                  [("a", 2, 1, ref(("x", {}))), ("b", 3, 0, ref(("y", dict(number=4))))]),
        "list defined last, other order": (head + two + f"x = {app('A')}\ny = {app('B', number=4)}\nUser_list = [B, A]\n",
                                           [("b", 3, 0, ref(("y", dict(number=4)))), ("a", 2, 1, ref(("x", {})))]),
        "users which are not in the list": (head + two + "C = User('c')\n" + f"x = {app('A')}\nz = {app('C')}\nUser_list = [A]\n",
                                            [("a", 2, 1, ref(("x", {})))]),
        "names are replaced by the variables": (head + two + f"x = {app('A', name='given')}\nUser_list = [A]\n", [("a", 2, 1, ref(("x", {})))]),
        "appliances without variable": (head + two + f"{app('A', number=7, name='free')}\nx = {app('A')}\nUser_list = [A]\n",
                                        [("a", 2, 1, ref(("free", dict(number=7)), ("x", {})))]),
        "appliances of a loop": (head + two + "for i in range(3):\n    last = " + app("A", number=9).replace("number=9", "number=1 + i, name=f'n{i}'")
                                 + "\nUser_list = [A]\n",
                                 [("a", 2, 1, ref(("n0", dict(number=1)), ("n1", dict(number=2)), ("last", dict(number=3))))]),
        "a list of appliances": (head + two + f"apps = [{app('A', number=2, name='p')}, {app('A', number=3, name='q')}]\nUser_list = [A]\n",
                                 [("a", 2, 1, ref(("p", dict(number=2)), ("q", dict(number=3))))]),
        "accents": (head + "A = User('ménage', 2, 1)\n" + f"x_é = {app('A')}\nUser_list = [A]  # à la fin\n", [("ménage", 2, 1, ref(("x_é", {})))]),
        "functions and other variables": (head + two + "n = 3\nimport os\ndef add(u, **k):\n    return u.add_appliance(num_windows=1, **k)\n"
                                          + "x = add(A, power=100, func_time=30, func_cycle=2, window_1=[100, 500])\nUser_list = [A]\n",
                                          [("a", 2, 1, ref(("x", {})))]),
        "comprehension": (head + "users = {k: User(k, 1) for k in 'ab'}\n" + "x = " + app("users['a']") + "\nUser_list = list(users.values())[:1]\n",
                          [("a", 1, 0, ref(("x", {})))]),
        "windows line endings": ((head + two + f"x = {app('A')}\nUser_list = [A]\n").replace("\n", "\r\n"), [("a", 2, 1, ref(("x", {})))]),
        "main block": (head + two + f"x = {app('A')}\nUser_list = [A]\nif __name__ == '__main__':\n    print('main')\n", [("a", 2, 1, ref(("x", {})))]),
        "variable names": (head + two + "".join(f"{v} = {app('A', number=n)}\n" for n, v in enumerate(VARIABLES, 1)) + "User_list = [A]\n",
                           [("a", 2, 1, ref(*[(v, dict(number=n)) for n, v in enumerate(VARIABLES, 1)]))]),
    }
    for what, (text, refs) in texts.items():
        with Work():
            with open("special.py", "w", newline="") as fp:
                fp.write(text)
            for n in range(2):
                label = f"{what}, conversion {n + 1}"
                if not attempt(res, label, lambda: convert("special.py")):
                    break
                if not compare_xlsx(res, label, "special.xlsx", refs) or not compare_py(res, label, "special.py", refs):
                    break
    # names kept
    with Work():
        write("kept.py", head + two + f"x = {app('A', name='given')}\ny = {app('B')}\nUser_list = [A, B]\n")
        if attempt(res, "keep_names=False", lambda: convert("kept.py", keep_names=False)):
            compare_xlsx(res, "keep_names=False", "kept.xlsx", [("a", 2, 1, ref(("given", {}))), ("b", 3, 0, ref(("appliance_1", {})))])
            with open("kept.py") as fp:
                if "automatically" in fp.read():
                    res.violate("keep_names=False: code is added to the python file")
    res.sample = dict(files=list(texts))


def examples_case(case, res):
    """the examples of the package"""
    import ramp

    folder = os.path.join(os.path.dirname(ramp.__file__), "example")
    with Work() as w:
        for k in (1, 2, 3):
            # the examples read files relatively to the root of the repository
            copy = os.path.join("ramp", "example")
            shutil.copytree(folder, copy, dirs_exist_ok=True)
            path = os.path.join(copy, f"input_file_{k}.py")
            users = runpy.run_path(path)
            os.makedirs("o", exist_ok=True)
            if not attempt(res, f"example {k}", lambda: convert(path, output_path="o", suffix="_c")):
                return
            uc = core().UseCase()
            uc.load(os.path.join("o", f"input_file_{k}_c.xlsx"))
            variables = {id(v): n for n, v in users.items() if isinstance(v, core().Appliance)}
            want = users["User_list"]
            res.stats.states += 1
            if [(u.user_name, u.num_users, u.user_preference) for u in want] != [(u.user_name, u.num_users, u.user_preference) for u in uc.users]:
                res.violate(f"example {k}: the users are not the same")
                return
            for u, v in zip(want, uc.users):
                if len(u.App_list) != len(v.App_list):
                    res.violate(f"example {k}: {u.user_name} has {len(v.App_list)} appliances instead of {len(u.App_list)}")
                    return
                for a, b in zip(u.App_list, v.App_list):
                    a.name = variables.get(id(a), a.name)
                    if not a == b:
                        res.violate(f"example {k}: the appliance {a.name} of {u.user_name} is different (named {b.name})")
                        return
                    res.validated += 1


def command_case(case, res):
    """options of the command"""
    for files, folder, suffix in itertools.product((1, 2, 3), (None, "out"), (None, "_x")):
        with Work() as w:
            models = {}
            os.makedirs("sub")
            os.makedirs("out")
            for i in range(files):
                name = ["m1.py", os.path.join("sub", "m2.py"), "m3 b.py"][i]
                models[name] = small(f"_{i}", i)
                write(name, source(models[name], STYLES[i], list(IMPORTS)[i]))
            args = ["-i"] + list(models) + (["-o", folder] if folder else []) + (["--suffix", suffix] if suffix else [])
            before = w.files()
            label = "ramp_convert " + " ".join(args)
            if not attempt(res, label, lambda: command(*args)):
                return
            want = {}
            for name in models:
                stem = os.path.basename(name)[:-3] + (suffix or "") + ".xlsx"
                want[os.path.join(folder if folder else os.path.dirname(name), stem)] = models[name]
            if w.files() - before != set(want):
                res.violate(f"{label}: {sorted(w.files() - before)} are written instead of {sorted(want)}")
                return
            for path, model in want.items():
                if not compare_xlsx(res, label, path, refs_of(model)):
                    return
    with Work() as w:
        before = w.files()
        attempt(res, "without input", lambda: command())
        if w.files() != before:
            res.violate("something is written without input")


def process_case(case, res):
    """the command in another process"""
    import ramp

    root = os.path.dirname(os.path.dirname(os.path.abspath(ramp.__file__)))
    env = dict(os.environ, PYTHONPATH=root, PYTHONWARNINGS="ignore")
    with Work() as w:
        model, other = small(), small("_b", 3)
        os.makedirs("b")
        write("m.py", source(model, "legacy", "old"))
        write(os.path.join("b", "m.py"), source(other, "keywords", "top"))
        for n in range(2):
            r = subprocess.run([sys.executable, "-c", "from ramp.ramp_convert_old_input_files import cli; cli()", "-i", "m.py", "b/m.py", "--suffix", "_s"],
                               env=env, capture_output=True, timeout=300)
            res.stats.executions += 1
            if r.returncode:
                res.violate(f"ramp_convert: exit code {r.returncode}: {r.stderr.decode()[-300:]}")
                return
            compare_xlsx(res, "ramp_convert", "m_s.xlsx", refs_of(model))
            compare_xlsx(res, "ramp_convert", os.path.join("b", "m_s.xlsx"), refs_of(other))
        # the converted python file can still be run
        r = subprocess.run([sys.executable, "m.py"], env=env, capture_output=True, timeout=300)
        if r.returncode:
            res.violate(f"the converted python file cannot be executed: {r.stderr.decode()[-300:]}")
