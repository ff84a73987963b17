""" C15: Configuration is found in the documented places, by precedence, with defaults. """
import os
import shutil
import sys
import tempfile
from typing import List

from pbt import api, build
from pbt.core import REPO, Note, Sub, Violation
from pbt.sandbox import call, fork

SHARDS = {"fork": 7}
QUICK = 1.5
RULE = (
    "A case is a tree of up to four nested directories, some of them packages, with configuration files "
    "of all four kinds in them, in the home directory and where ASTARC points, each with some of the "
    "options, in some spelling, or none, and with unrelated content; a fresh process imports asta in the "
    "innermost directory. Distinct cases with a file which counts count as non-trivial."
)
NOTE = (
    "The model picks the first file by the documented order and overlays its options on the defaults; the "
    "options in force are read off the behaviour of decorated functions. /etc/astarc, home directories "
    "called /root and files which are not well-formed (for the toml library, TOML 0.5) are out of domain."
)
DEFAULTS = {
    "on": "yes", "raise-errors": "yes", "print-passes": "yes", "check-non-asta-types": "no",
    "check-all-sequence-elements": "yes",
}
KINDS = ["astarc", ".astarc", "pyproject.toml", "setup.cfg"]
JUNK_INI = [
    "[metadata]\nname = x%y\nversion = 100%\nlong = %(undefined)s\n",
    "[tool:pytest]\naddopts = -v %s\n",
    "# a comment\n; another\n[flake8]\nignore =\n    E1,\n    W2\n",
    "[asta]\non = no\nraise-errors = no\n",
    "[asta-other]\non = no\n",
    "[assets.master]\non = no\n",
    "[coverage:run]\nomit = \u00e9\u4e2d/*\n",
    "[options]\non = no\nprint-passes = no\n",
    "[DEFAULT]\nunrelated = 1\n",
    "[mastery]\non = no\n",
]
JUNK_TOML = [
    "[build-system]\nrequires = [\"setuptools\"]\n",
    "[tool.black]\nline-length = 100\non = \"no\"\ninclude = '''\\.pyi?$'''\n",
    "[project]\nname = \"x\"\nauthors = [{name = \"\u00e9\"}]\n",
    "[master]\non = \"no\"\n",
    "[asta.master]\non = \"no\"\n",
    "[tool.assets.master]\non = \"no\"\n",
    "[[tool.mypy.overrides]]\nmodule = \"a.*\"\n",
    "[tool.poetry]\ndescription = \"100% %s %(x)s\"\n",
    "[tool.MASTER]\non = \"no\"\n",
]


def make_spec(d, kind):
    """ The content of a file. """
    ini = kind != "pyproject.toml"
    section = d.pick(["MASTER", "MASTER", "MASTER", "master", None, "Master", "MASTERS", "masters", "OLDMASTER"])
    names = d.shuffle(DEFAULTS)[: d.pick([1, 2, 3, 4, 5, 0])]
    opts = [[n, d.pick(["no", "yes"]) if n != "on" or d.bool(30) else "yes"] for n in names]
    junk = d.shuffle(range(len(JUNK_INI if ini else JUNK_TOML)))[: d.pick([0, 1, 2])]
    style = d.int(0, 3)
    return dict(
        kind=kind, section=section, opts=opts, before=junk[:1], after=junk[1:], style=style,
        prefix=kind == "setup.cfg" or (ini and d.bool(15)), other=d.bool(20), bom=ini and d.bool(10),
        top=d.bool(10),
    )


def render(spec):
    """ The text of a file. """
    ini = spec["kind"] != "pyproject.toml"
    junk = JUNK_INI if ini else JUNK_TOML
    parts = [junk[i] for i in spec["before"]]
    prefix = ("asta." if spec["prefix"] else "") if ini else "tool.asta."
    if not ini and spec["top"] and (spec["section"] or spec["other"]):
        # A value next to the sections.
        parts.append("[tool.asta]\nversion = 3\n")
    if spec["other"]:
        parts.append(f"[{prefix}other]\n" + ("on = no\n" if ini else 'on = "no"\n'))
    if spec["section"]:
        lines = [f"[{prefix}{spec['section']}]"]
        for key, value in spec["opts"]:
            if not ini:
                text = f'"{value}"' if spec["style"] < 2 else f"'{value}'" if spec["style"] == 2 else (
                    "true" if value == "yes" else "false"
                )
                lines.append(f"{key} = {text}")
            else:
                lines.append(
                    [f"{key}={value}", f"{key} = {value}  ", f"{key}: {value}", f"\n{key.upper()}  =  {value}"][spec["style"]]
                )
        parts.append("\n".join(lines) + "\n")
    parts += [junk[i] for i in spec["after"]]
    return ("\ufeff" if spec["bom"] else "") + "\n".join(parts)


def counts(spec):
    """ Whether the file is a configuration of asta. """
    if spec["kind"] in ("astarc", ".astarc"):
        return True
    return bool(spec["section"] or spec["other"])


def make(d):
    """ A tree of directories with files. """
    depth = d.pick([1, 2, 3, 4])
    nested = d.bool(50)
    packages = [d.bool(75 if nested else 20) for _ in range(depth)]
    # In a package, the files of the enclosing ones matter only without one here.
    here = 12 if nested else 45
    files = []
    seen = set()
    for _ in range(d.pick([1, 2, 3, 4, 0, 6])):
        # Level 0 is above the outermost directory; the last one is the working directory.
        level = depth if d.bool(here) else d.int(0, depth - 1)
        kind = d.pick(KINDS if level == depth or d.bool(25) else KINDS[:2])
        if (level, kind) not in seen:
            seen.add((level, kind))
            files.append([level, make_spec(d, kind), d.bool(5)])
    rc = home = homeconf = None
    mode = d.pick(["unset", "unset", "file", "file", "missing", "empty", "directory"])
    if mode == "file":
        rc = make_spec(d, d.pick(["astarc", "astarc", "pyproject.toml"]))
        if rc["kind"] == "pyproject.toml" and not counts(rc):
            rc["section"] = "MASTER"
    if d.bool(40):
        home = make_spec(d, ".astarc")
    if d.bool(30):
        homeconf = make_spec(d, "astarc")
    if mode == "directory":
        # Whether the home directory counts then is not documented.
        home = homeconf = None
    return dict(packages=packages, files=files, mode=mode, rc=rc, home=home, homeconf=homeconf)


def chosen(case):
    """ The file which counts, by the documented order. """
    depth = len(case["packages"])

    def at(level, kind):
        for where, spec, isdir in case["files"]:
            if where == level and spec["kind"] == kind and not isdir:
                return spec
        return None

    for kind in KINDS:
        spec = at(depth, kind)
        if spec and counts(spec):
            return spec, "working directory"
    level = depth
    while level and case["packages"][level - 1]:
        level -= 1
        for kind in KINDS[:2]:
            spec = at(level, kind)
            if spec:
                return spec, "package"
    if case["mode"] == "file":
        return case["rc"], "ASTARC"
    if case["home"]:
        return case["home"], "home"
    if case["homeconf"]:
        return case["homeconf"], "home"
    return None, "none"


def write(path, spec):
    """ Write a file. """
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as handle:
        handle.write(render(spec))


def child(case, scratch):
    """ In a fresh process: import, and look at what decorated functions do. """
    home = os.path.join(scratch, "home")
    os.makedirs(home)
    dirs = [os.path.join(scratch, "w")]
    for index in range(len(case["packages"])):
        dirs.append(os.path.join(dirs[-1], f"d{index}"))
    os.makedirs(dirs[-1])
    for path, package in zip(dirs[1:], case["packages"]):
        if package:
            with open(os.path.join(path, "__init__.py"), "w"):
                pass
    for level, spec, isdir in case["files"]:
        path = os.path.join(dirs[level], spec["kind"])
        if isdir:
            os.makedirs(path)
        else:
            write(path, spec)
    if case["home"]:
        write(os.path.join(home, ".astarc"), case["home"])
    if case["homeconf"]:
        write(os.path.join(home, ".config", "astarc"), case["homeconf"])
    os.environ["HOME"] = home
    os.environ.pop("ASTA_TYPECHECK", None)
    os.environ.pop("ASTARC", None)
    if case["mode"] == "empty":
        os.environ["ASTARC"] = ""
    elif case["mode"] == "missing":
        os.environ["ASTARC"] = os.path.join(scratch, "missing")
    elif case["mode"] == "directory":
        os.environ["ASTARC"] = home
    elif case["mode"] == "file":
        path = os.path.join(scratch, "rc", "my.toml" if case["rc"]["kind"].endswith("toml") else "my-rc")
        write(path, case["rc"])
        os.environ["ASTARC"] = path
    os.chdir(dirs[-1])
    import asta

    if not os.path.realpath(asta.__file__).startswith(os.path.realpath(REPO)):
        raise RuntimeError(asta.__file__)
    return observe()


def observe():
    """ The options in force. """
    good, bad = build.array([2]), build.array([3])

    def array(x: api.Array[2]) -> api.Array:
        return x

    def number(x: int) -> int:
        return 1

    def several(x: List[api.Array[2]]) -> None:
        return None

    checked = api.typechecked(array)
    if checked is array:
        return {"on": "no"}
    res = {"on": "yes"}
    out = call(checked, good)
    passes = bool(out.out.strip())
    res["print-passes"] = "yes" if passes else "no"
    if not out.ok:
        raise RuntimeError(repr(out))

    def reported(out):
        return not out.ok or ("FAILED" in out.out if passes else bool(out.out.strip()))

    out = call(checked, bad)
    if not reported(out):
        raise RuntimeError("checks do nothing")
    res["raise-errors"] = "no" if out.ok else "yes"
    res["check-non-asta-types"] = "yes" if reported(call(api.typechecked(number), "s")) else "no"
    res["check-all-sequence-elements"] = "yes" if reported(call(api.typechecked(several), [good, bad])) else "no"
    return res


def decide(case):
    """ One configuration, in a fresh process. """
    if "asta" in sys.modules:
        raise RuntimeError("asta was imported")
    scratch = tempfile.mkdtemp(prefix="pbt-c15-")
    try:
        res = fork(child, case, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    spec, where = chosen(case)
    if "error" in res:
        raise Violation(f"the configuration in force is of {where}: {spec}, but {res['error']}, {res['trace'][-600:]}")
    want = dict(DEFAULTS)
    if spec and spec["section"] and spec["section"].upper() == "MASTER":
        want.update(dict(spec["opts"]))
    got = res["value"]
    for key, value in got.items():
        if want[key] != value:
            raise Violation(f"the configuration in force is of {where}: {spec}, but {key} is {value}")
    if len(got) == 1 and want["on"] == "yes":
        raise Violation(f"the configuration in force is of {where}: {spec}, but checks are off")
    return Note(spec is not None, where, *(["off"] if want["on"] == "no" else []))


SUBS = [Sub("trees", make, decide, 3000, 60000, profile="fork", size=128, batch=2)]
