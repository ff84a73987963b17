""" C26: Calls and checks which overlap have the outcomes they have alone. """
import collections.abc
import gc
import os
import sys
import threading
import time
import types
from typing import Dict, List, Optional, Sequence, Tuple, Union

import numpy as np

from pbt import api, build, core, funcs, gen
from pbt.core import Note, Sub, Violation
from pbt.sandbox import Outcome

SHARDS = {"core": 6, "soft": 2}
RULE = (
    "A case of 'schedule' is 2 to 4 tasks (calls of shared @typechecked functions with symbols, variables, containers and "
    "attributes, some of which fail or raise in the body; isinstance checks; new annotations and functions; hashes), each "
    "in a thread, and a schedule: at which steps (lines of asta, and points within the bodies) to pause one and let "
    "another go on. Exactly one thread runs at any time, so a case is repeatable. 'lines': two tasks, the first of which is "
    "paused at up to 40 of its lines in turn. 'reentrant': the tasks are run by what a check itself calls: items, "
    "properties, comparisons and texts of the values. Non-trivial: a task was paused while another ran, more than twice or "
    "with different verdicts; a check was made within another."
)
NOTE = (
    "The oracle is the outcome (verdict, text of the error, result, arguments the body got) of each task when it is run "
    "by itself with functions made afresh. Switches happen between lines, not between bytecodes. What each "
    "task prints is compared with what it prints alone. Assignments to variables only concern variables which no other task uses."
)

SX, SY = ["sym", "X"], ["sym", "Y"]
NX = ["dim", "N"]
# Parameters: [container, pattern, attributes]; the return annotation likewise.
FUNCS = {
    "same": ([["one", [SX], None], ["one", [SX], None]], ["one", [SX], None]),
    "matmul": ([["one", [SX, SY], None], ["one", [SY, ["sym", "Z"]], None]], ["one", [SX, ["sym", "Z"]], None]),
    "batch": ([["one", [SX, "..."], None], ["one", ["...", SY], None]], ["one", [SX, SY], None]),
    "grow": ([["one", [SX], None], ["one", [["+", SX, 1]], None]], ["one", [["*", SX, 2]], None]),
    "boxed": ([["list", [SX, -1], None], ["dict", [SX], None]], ["many", [SX], None]),
    "either": ([["union", [SX, SX], None], ["optional", [SX], None]], ["one", [SX], None]),
    "fixed": ([["one", [NX, ["+", NX, 1]], None], ["list", [SX, NX], None]], ["one", [SX, NX], None]),
    "tall": ([["seq", ["...", -1, SX, "..."], None]], ["one", [3, "..."], None]),
    "two": ([["one", [2, "..."], None]], ["one", [2], None]),
    "three": ([["one", [-1, 3], None], ["list", ["...", 3], None]], ["one", [3], None]),
    "typed": ([["one", ["...", 2, -1], None], ["optional", [4], {"ndim": 1}]], ["one", ["..."], None]),
    "attrs": ([["one", [SX, SX], {"ndim": 2}], ["one", None, {"size": SX}]], ["one", [SX, "..."], None]),
}
NAMES = ["X", "Y", "Z"]
HINTS = {
    "one": lambda a: a, "list": lambda a: List[a], "dict": lambda a: Dict[str, a], "many": lambda a: Tuple[a, ...],
    "union": lambda a: Union[a, List[a]], "optional": lambda a: Optional[a], "seq": lambda a: Sequence[a],
}
STATE = threading.local()


class Reports:
    """ Standard output: what a task prints goes to the task. """

    def __init__(self):
        self.before = None

    def write(self, text):
        """ To the innermost task this thread runs. """
        sinks = getattr(STATE, "sinks", None)
        if sinks:
            sinks[-1].append(text)
        return len(text)

    def flush(self):
        """ Nothing is kept back. """

    def __enter__(self):
        self.before, sys.stdout = sys.stdout, self
        return self

    def __exit__(self, *_):
        sys.stdout = self.before


class Sink:
    """ Collects what is printed until the end of a block. """

    def __init__(self):
        self.parts = []

    def __enter__(self):
        STATE.sinks = getattr(STATE, "sinks", []) + [self.parts]
        return self

    def __exit__(self, *_):
        STATE.sinks = STATE.sinks[:-1]

    def lines(self, clean):
        """ What was printed, line by line. """
        return [clean(line) for line in "".join(self.parts).splitlines()]


class Boom(Exception):
    """ Raised by a body. """


# --------------------------------------------------------------- generation


def fill(d, pattern, env):
    """ A shape which fits with these values of the symbols. """
    if pattern is None:
        return [env["X"]]
    res = []
    for elem in pattern:
        if elem == "...":
            res += d.some(lambda: d.int(1, 3), 0, 2)
        elif elem == -1:
            res.append(d.int(1, 3))
        elif isinstance(elem, list):
            res.append(evaluate(elem, dict(env, N=3)))
        else:
            res.append(elem)
    return res


def evaluate(tree, env):
    """ The value of an expression. """
    if isinstance(tree, int):
        return tree
    if tree[0] in ("sym", "dim"):
        return env[tree[1]]
    left, right = evaluate(tree[1], env), evaluate(tree[2], env)
    return left + right if tree[0] == "+" else left * right


def make_args(d, spec, env):
    """ The shapes given for a parameter. """
    kind, pattern, _ = spec
    count = d.int(1, 3) if kind in ("list", "dict", "many", "seq") else 1
    shapes = [fill(d, pattern, env) for _ in range(count)]
    if d.bool(12):
        i = d.int(0, count - 1)
        shapes[i] = gen.mutate(d, shapes[i], 1)
    return shapes


def make_call_task(d):
    """ A call. """
    name = d.pick(sorted(FUNCS))
    params, ret = FUNCS[name]
    env = gen.assignment(d, NAMES, 1, 4)
    return ["call", name, [make_args(d, p, env) for p in params], make_args(d, ret, env), d.bool(8)]


def make_task(d):
    """ Something to do. """
    kind = d.pick(["call"] * 6 + ["is", "make", "hash", "decorate", "set", "soft"])
    if kind in ("call", "soft"):
        return make_call_task(d)
    if kind == "set":
        return ["set", d.pick(["P", "Q"]), d.some(lambda: d.int(1, 4), 1, 2), d.some(lambda: d.int(1, 4), 1, 2)]
    name = d.pick(sorted(FUNCS))
    spec = d.pick(FUNCS[name][0] + [FUNCS[name][1]])
    shape = fill(d, spec[1], gen.assignment(d, NAMES, 1, 4))
    if d.bool(35):
        shape = gen.mutate(d, shape, 1)
    if kind == "decorate":
        return ["decorate", make_call_task(d), d.bool()]
    return [kind, name, FUNCS[name][0].index(spec) if spec in FUNCS[name][0] else -1, shape]


def make(d):
    """ Cases of 'schedule'. """
    tasks = [make_task(d) for _ in range(d.pick([2, 2, 2, 3, 3, 4]))]
    if d.bool(30):
        tasks[1] = tasks[0][:1] + [tasks[0][1]] + make_like(d, tasks[0]) if tasks[0][0] == "call" else tasks[1]
    turns, last = [], None
    for _ in range(d.int(2, 12)):
        last = d.pick([i for i in range(len(tasks)) if i != last])
        turns.append([last, quantum(d)])
    return dict(tasks=tasks, turns=turns)


def make_like(d, task):
    """ The rest of a call of the same function with other arguments. """
    params, ret = FUNCS[task[1]]
    env = gen.assignment(d, NAMES, 1, 4)
    return [[make_args(d, p, env) for p in params], make_args(d, ret, env), d.bool(8)]


def quantum(d):
    """ How far to let a thread go: a number of steps, until a line, until the body, or to the end. """
    how = d.int(0, 9)
    if how < 2:
        return ["steps", d.int(1, d.pick([6, 40, 400]))]
    if how < 6:
        return ["line", d.int(0, 999), d.pick([0, 0, 0, 1, 2])]
    return ["body"] if how < 8 else ["end"]


# -------------------------------------------------------------------- world


class World:
    """ The shared functions and annotations of a case. """

    count = 0

    def __init__(self, specs):
        World.count += 1
        self.tag = f"_{World.count}_"
        names = sorted({s[1][1] if s[0] == "decorate" else s[1] for s in specs if s[0] != "set"})
        # N is still variable when the shared annotations are written.
        self.raw = {name: self.annotations(name) for name in names}
        setattr(api.dims, "N" + self.tag, 3)
        self.functions = {name: api.typechecked(self.plain(name)) for name in names}

    def rename(self, name):
        """ Variables of different worlds differ, symbols do not. """
        return name if name in NAMES else name + self.tag

    def annotation(self, spec):
        """ Array[pattern, attributes]. """
        items = [] if spec[1] is None else list(build.pattern(spec[1], self.rename))
        if spec[2]:
            items.append({k: build.expr(v, self.rename) for k, v in spec[2].items()})
        return build.annotate(api.Array, *items)

    def annotations(self, name):
        """ The annotations of a function, the return annotation last. """
        params, ret = FUNCS[name]
        return [self.annotation(p) for p in params + [ret]]

    def plain(self, name, raw=None):
        """ An undecorated function. """
        params, ret = FUNCS[name]
        raw = self.raw[name] if raw is None else raw
        return funcs.function(
            [funcs.param(f"p{i}", HINTS[p[0]](a)) for i, (p, a) in enumerate(zip(params, raw))],
            HINTS[ret[0]](raw[-1]), body, name=name,
        )

    def text(self, obj):
        """ A text without what differs between worlds. """
        return system(str(obj).replace(self.tag, ""))


def body(arguments):
    """ What all the functions do. """
    task = STATE.stack[-1]
    task.got = list(arguments.values())
    point()
    if task.spec[4]:
        raise Boom
    return task.result


def container(kind, shapes):
    """ An argument. """
    arrays = [build.array(s) for s in shapes]
    if kind in ("list", "seq"):
        return arrays
    if kind == "many":
        return tuple(arrays)
    if kind == "dict":
        return {f"k{i}": a for i, a in enumerate(arrays)}
    return arrays[0]


class Task:
    """ Something to do, and how it went. """

    def __init__(self, world, spec):
        self.world = world
        self.spec = spec
        self.got = None
        self.result = None
        self.outcome = None

    def run(self):
        """ Do it. """
        kind = self.spec[0]
        with Sink() as sink:
            try:
                self.outcome = getattr(self, "run_" + kind)()
            except Exception as exc:  # pylint: disable=broad-except
                self.outcome = [type(exc).__name__, self.world.text(exc)]
        # Variables of their own have names of their own.
        self.outcome.append([] if kind == "set" else sink.lines(self.world.text))

    def run_call(self, func=None):
        """ Call a shared function, or this one. """
        spec = self.spec
        params, ret = FUNCS[spec[1]]
        args = [container(p[0], shapes) for p, shapes in zip(params, spec[2])]
        self.result = container(ret[0], spec[3])
        STATE.stack.append(self)
        try:
            got = (func or self.world.functions[spec[1]])(*args)
        except Exception as exc:  # pylint: disable=broad-except
            return [type(exc).__name__, self.world.text(exc), self.same(args)]
        finally:
            STATE.stack.pop()
        return ["ok", got is self.result, self.same(args)]

    def same(self, args):
        """ Whether the body got these arguments. """
        return self.got is not None and len(self.got) == len(args) and all(a is b for a, b in zip(self.got, args))

    def run_is(self):
        """ An isinstance check. """
        return ["is", isinstance(build.array(self.spec[3]), self.world.raw[self.spec[1]][self.spec[2]])]

    def run_make(self):
        """ Write an annotation. """
        params, ret = FUNCS[self.spec[1]]
        spec = (params + [ret])[self.spec[2]]
        ann = self.world.annotation(spec)
        return ["made", self.world.text(repr(ann)), isinstance(build.array(self.spec[3]), ann)]

    def run_hash(self):
        """ Hash, compare and print an annotation. """
        ann = self.world.raw[self.spec[1]][self.spec[2]]
        params, ret = FUNCS[self.spec[1]]
        other = self.world.annotation((params + [ret])[self.spec[2]])
        return ["hash", hash(ann) == hash(ann), ann == other, len({ann, ann}), self.world.text(repr(ann))]

    def run_decorate(self):
        """ Write, decorate and call another function or class. """
        inner = self.spec[1]
        plain = self.world.plain(inner[1])
        if self.spec[2]:
            cls = type("Holder", (), {inner[1]: staticmethod(plain)})
            func = getattr(api.typechecked(cls), inner[1])
        else:
            func = api.typechecked(plain)
        outer, self.spec = self.spec, inner
        try:
            return self.run_call(func)
        finally:
            self.spec = outer

    def run_set(self):
        """ Variables of its own. """
        _, name, value, shape = self.spec
        World.count += 1
        name += str(World.count)
        before = api.Array[getattr(api.dims, "D" + name), ...]
        early = (getattr(api.shapes, "S" + name) + (len(value),))
        func = api.typechecked(funcs.function(
            [funcs.param("x", before), funcs.param("y", api.Array[early])], None, lambda _: None))
        setattr(api.dims, "D" + name, value[0])
        setattr(api.shapes, "S" + name, tuple(value))
        try:
            func(build.array(shape), build.array(value + [len(value)]))
        except TypeError as exc:
            return ["TypeError", str(exc).replace(name, "")]
        return ["ok", getattr(api.dims, "D" + name), list(getattr(api.shapes, "S" + name))]


# ---------------------------------------------------------------- scheduler


ROOT = os.path.join(core.REPO, "asta") + os.sep


class Scheduler:
    """ Lets one thread run at a time. """

    # How long, in seconds, a thread may run before the others are assumed to block it.
    patience = 10

    def __init__(self, tasks, turns, lines):
        self.tasks = tasks
        self.turns = list(turns)
        self.lines = lines
        self.locks = [threading.Semaphore(0) for _ in tasks]
        self.done = [False] * len(tasks)
        self.left = 0
        self.until = None
        self.free = False
        self.switches = 0
        self.errors = []
        self.moved = time.monotonic()

    def next(self):
        """ The thread which runs next, or None; sets how far it goes. """
        self.until = None
        while self.turns:
            index, how = self.turns.pop(0)
            if self.done[index]:
                continue
            self.left = 10 ** 9
            if how[0] == "steps":
                self.left = how[1]
            elif how[0] == "line" and self.lines[index]:
                # Each line is as likely, however often it is executed.
                self.until = self.lines[index][how[1] * len(self.lines[index]) // 1000]
                self.left = 1 + how[2]
            elif how[0] == "body":
                self.until = "body"
                self.left = 1
            return index
        self.left = 10 ** 9
        return next((i for i, done in enumerate(self.done) if not done), None)

    def step(self, index, where):
        """ A point at which a thread can be paused. """
        if self.free or (self.until is not None and self.until != where):
            return
        self.left -= 1
        if self.left > 0:
            return
        other = self.next()
        if other is None or other == index:
            return
        self.switches += 1
        self.pass_on(other)
        self.wait(index)

    def pass_on(self, index):
        """ Let a thread go on. """
        self.moved = time.monotonic()
        self.locks[index].release()

    def wait(self, index):
        """ Until it is this thread's turn; or all of them, should the one which runs wait for another (for a lock). """
        while not self.locks[index].acquire(timeout=min(1, Scheduler.patience)):
            if self.free:
                return
            if time.monotonic() - self.moved > Scheduler.patience:
                self.free = True
                Scheduler.patience = max(0.1, Scheduler.patience / 2)
                return

    def work(self, index):
        """ What a thread does. """
        STATE.stack = []
        STATE.point = lambda: self.step(index, "body")
        self.wait(index)
        STATE.step = lambda where: self.step(index, where)
        try:
            self.tasks[index].run()
        except BaseException as exc:  # pylint: disable=broad-except
            self.errors.append(exc)
        finally:
            STATE.step = None
            self.done[index] = True
            other = self.next()
            if other is not None:
                self.pass_on(other)

    def run(self):
        """ Run all of the tasks. """
        threads = [threading.Thread(target=self.work, args=(i,), daemon=True) for i in range(len(self.tasks))]
        for thread in threads:
            thread.start()
        self.pass_on(self.next())
        for thread in threads:
            while thread.is_alive():
                thread.join(5)
        for exc in self.errors:
            raise exc


def point():
    """ A point within a body. """
    STATE.point()


TOOL = 3


def code_objects(code):
    """ A code object, and those within. """
    yield code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            yield from code_objects(const)


def watch_lines():
    """ Have ``STATE.step`` called before each line of asta (once per process). """
    monitoring = sys.monitoring
    if monitoring.get_tool(TOOL) is not None:
        return
    monitoring.use_tool_id(TOOL, "pbt")

    def line(code, number):
        step = getattr(STATE, "step", None)
        if step is not None:
            step((code.co_filename, number))

    monitoring.register_callback(TOOL, monitoring.events.LINE, line)
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) and obj.__code__.co_filename.startswith(ROOT):
            for code in code_objects(obj.__code__):
                monitoring.set_local_events(TOOL, code, monitoring.events.LINE)


def alone(specs, lines=None):
    """ The outcomes of tasks, each by itself; and the lines executed. """
    res = []
    for spec in specs:
        task = Task(World([spec]), spec)
        STATE.stack = []
        STATE.point = lambda: None
        with Reports():
            if lines is None:
                task.run()
            else:
                seen = {}
                STATE.step = seen.setdefault
                try:
                    task.run()
                finally:
                    STATE.step = None
                lines.append(list(seen))
        res.append(task.outcome)
    return res


def decide(case):
    """ Threads. """
    watch_lines()
    lines = []
    want = alone(case["tasks"], lines)
    world = World(case["tasks"])
    tasks = [Task(world, spec) for spec in case["tasks"]]
    scheduler = Scheduler(tasks, case["turns"], lines)
    with Reports():
        scheduler.run()
    for task, outcome in zip(tasks, want):
        if task.outcome != outcome:
            raise Violation(
                f"{task.spec} has the outcome {task.outcome} while others run ({case['tasks']}, schedule "
                f"{case['turns']}), but {outcome} alone"
            )
    return Note(
        scheduler.switches and len({str(w[0]) for w in want}) > 1 or scheduler.switches > 2,
        f"{min(scheduler.switches, 6)} switches", "free" if scheduler.free else "scheduled",
    )


# --------------------------------------------------------------- every line


def make_lines(d):
    """ Cases of 'lines'. """
    first = make_call_task(d) if d.bool(80) else make_task(d)
    second = make_task(d)
    if first[0] == "call" and d.bool(40):
        second = ["call", first[1]] + make_like(d, first)
    return dict(tasks=[first, second], times=d.pick([0, 0, 1]), start=d.int(0, 999))


def decide_lines(case):
    """ One task is paused at each of its lines in turn, while the other one runs. """
    lines = []
    want = alone(case["tasks"], lines)
    count = len(lines[0])
    switches = 0
    wanted = min(count, 40)
    for index in range(wanted):
        number = (case["start"] * count // 1000 + index * count // wanted) % count
        turns = [[0, ["line", -(-number * 1000 // count), case["times"]]], [1, ["end"]]]
        world = World(case["tasks"])
        tasks = [Task(world, spec) for spec in case["tasks"]]
        scheduler = Scheduler(tasks, turns, lines)
        with Reports():
            scheduler.run()
        switches += scheduler.switches
        for task, outcome in zip(tasks, want):
            if task.outcome != outcome:
                where = lines[0][number]
                raise Violation(
                    f"{task.spec} has the outcome {task.outcome} when {case['tasks'][1]} runs at {where[0][len(ROOT):]}:"
                    f"{where[1]} of {case['tasks'][0]}, but {outcome} alone"
                )
    return Note(switches, f"{switches // 10 * 10} lines and more", want[0][0])


# ---------------------------------------------------------------- reentrant


class Lazy(collections.abc.Sequence):
    """ A sequence whose items are computed. """

    def __init__(self, items, hook):
        self.items = items
        self.hook = hook

    def __len__(self):
        return len(self.items)

    def __getitem__(self, index):
        res = self.items[index]
        self.hook()
        return res


class Eager(list):
    """ A list which does something when it is iterated over. """

    hook = None

    def __iter__(self):
        for item in list.__iter__(self):
            self.hook()
            yield item


class Key(str):
    """ A key which does something when it is printed. """

    hook = None

    def __str__(self):
        self.hook()
        return str.__str__(self)

    def __format__(self, spec):
        self.hook()
        return str.__format__(self, spec)


class Tagged(np.ndarray):
    """ An array with a computed attribute. """

    hook = None

    @property
    def tag(self):
        """ Always 7. """
        self.hook()
        return 7


class Meta(type):
    """ A metaclass whose instance checks do something. """

    hook = None

    def __instancecheck__(cls, inst):
        cls.hook()
        return isinstance(inst, np.ndarray)


KINDS = ["lazy", "eager", "key", "tagged", "body"]


def make_reentrant(d):
    """ Cases of 'reentrant'. """
    env = gen.assignment(d, ["X"], 1, 4)
    shapes = [[env["X"], d.int(1, 3)] for _ in range(d.int(1, 3))]
    other = [env["X"]]
    ret = [env["X"], d.int(1, 3)]
    for shape in (shapes[-1], other, ret):
        if d.bool(12):
            shape[:] = gen.mutate(d, shape, 1)
    return dict(
        kind=d.pick(KINDS), shapes=shapes, other=other, ret=ret, order=d.bool(),
        inner=[make_task(d) for _ in range(d.int(1, 3))],
    )


def run_outer(case, hook):
    """ The outcome of the outer call. """
    sym = api.symbols.X
    arrays = [build.array(s) for s in case["shapes"]]
    kind = case["kind"]
    ann = api.Array[sym, -1]
    if kind == "lazy":
        hint, value = Sequence[ann], Lazy(arrays, hook)
    elif kind == "eager":
        hint, value = List[ann], Eager(arrays)
        value.hook = hook
    elif kind == "key":
        keys = [Key(f"k{i}") for i in range(len(arrays))]
        for key in keys:
            key.hook = hook
        hint, value = Dict[str, ann], dict(zip(keys, arrays))
    elif kind == "tagged":
        value = arrays[-1].view(Tagged)
        value.hook = hook
        hint = ann[{"tag": 7}]
    else:
        hint, value = List[ann], arrays
    params = [funcs.param("box", hint), funcs.param("other", api.Array[sym])]
    args = [value, build.array(case["other"])]
    if case["order"]:
        params.reverse()
        args.reverse()
    result = build.array(case["ret"])
    seen = []

    def inner(arguments):
        seen.append(list(arguments.values()))
        if kind == "body":
            hook()
        return result

    func = api.typechecked(funcs.function(params, api.Array[sym, ...], inner, name="outer"))
    with Reports(), Sink() as sink:
        try:
            out = Outcome(func(*args))
        except Exception as exc:  # pylint: disable=broad-except
            out = Outcome(exc=exc)
    ran = [len(s) == 2 and s[0] is args[0] and s[1] is args[1] for s in seen]
    text = "" if out.ok else str(out.exc)
    return [out.kind, system(text), out.value is result, ran, sink.lines(system)]


def system(text):
    """ The order of the members of a set is not part of a text. """
    return "system" if "for system" in text else text


def decide_reentrant(case):
    """ Checks run by what a check calls. """
    want_inner = alone(case["inner"])
    want = run_outer(case, lambda: None)
    world = World(case["inner"])
    runs = []

    def hook():
        if len(runs) >= 6:
            return
        STATE.stack = []
        STATE.point = lambda: None
        spec = case["inner"][len(runs) % len(case["inner"])]
        task = Task(world, spec)
        runs.append(task)
        task.run()

    got = run_outer(case, hook)
    if got != want:
        raise Violation(
            f"a call ({case['kind']}, {case['shapes']}, {case['other']} -> {case['ret']}) has the outcome {got} when "
            f"its values run {[t.spec for t in runs]}, but {want} otherwise"
        )
    for i, task in enumerate(runs):
        if task.outcome != want_inner[i % len(case["inner"])]:
            raise Violation(
                f"{task.spec} has the outcome {task.outcome} within a check ({case['kind']}), but "
                f"{want_inner[i % len(case['inner'])]} alone"
            )
    return Note(runs, case["kind"], want[0])


SUBS = [
    Sub("schedule", make, decide, 1500, 30000, size=160, batch=3),
    Sub("lines", make_lines, decide_lines, 90, 2500, size=128, batch=1),
    Sub("reentrant", make_reentrant, decide_reentrant, 1500, 25000, size=160, batch=3),
    Sub("schedule soft", make, decide, 500, 10000, profile="soft", size=160, batch=3),
]
