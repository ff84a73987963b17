"""
Runner for the property-based checks.

A property (module ``pbt.props.cNN``) is a list of ``Sub`` checks. A ``Sub``
has a generator ``make(d)``, which builds a case of plain JSON data out of
choices drawn from ``d`` (``gen.D``, which decodes bytes), and a function
``decide(case)`` which builds the objects, runs the code under test and
compares the outcome with an oracle. ``decide`` raises ``Violation`` when the
property is broken and returns a ``Note`` (labels, and whether the case was
non-trivial) otherwise. The bytes are drawn, and shrunk, by Hypothesis: one
example is a batch of ``BATCH`` cases, which keeps the engine's cost per case
low; a failure is shrunk and reported as the single case which fails.

The parent process (``main``) starts one worker process for each (profile,
shard); a profile fixes the environment the code under test is imported in
(configuration file, which frameworks are present). Nothing under test is
imported by the parent. Everything random is drawn by Hypothesis, seeded from
VERIF_SEED, the property, the sub-check and the shard.
"""
import contextlib
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ASTA_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
SAMPLE_AT = {5, 50, 250, 1000, 3000}


class Violation(Exception):
    """ The property does not hold for a case. """


class HarnessError(Exception):
    """ The machinery itself went wrong. """


class TooLong(BaseException):
    """ A case has used far more processor time than any should. """


class StopShrinking(KeyboardInterrupt):
    """ Leaves Hypothesis when shrinking has taken long enough. """


class Note:
    """ What a case which held was like. """

    def __init__(self, nontrivial=True, *labels):
        self.nontrivial = bool(nontrivial)
        self.labels = labels


class Sub:
    """ One generated check. ``quick``/``thorough``: cases per property run. """

    def __init__(
        self, name, make, decide, quick, thorough, profile="core", size=64, batch=8
    ):
        self.name = name
        self.make = make
        self.decide = decide
        # A module's QUICK multiplies the number of quick cases.
        self.base_quick = quick
        self.counts = {"quick": quick, "thorough": thorough}
        self.profile = profile
        self.size = size
        self.batch = batch


# How the environment of the code under test is set up for a profile.
# config: lines of [MASTER] in ./astarc, or None for no file (the defaults).
# tf: "real" or "absent"; torch: "fake" (a stand-in) or "absent".
# load: import asta in the worker (False: the checks fork and import it there).
QUIET = {"print-passes": "no"}
PROFILES = {
    "core": dict(config=QUIET, tf="absent", torch="absent"),
    "tf": dict(config=QUIET, tf="real", torch="absent"),
    "torch": dict(config=QUIET, tf="absent", torch="fake"),
    "both": dict(config=QUIET, tf="real", torch="fake"),
    # For checks which fork: the worker itself never runs the code under test.
    "fresh": dict(config=QUIET, tf="absent", torch="absent"),
    "soft": dict(config={"print-passes": "no", "raise-errors": "no"}, tf="absent", torch="absent"),
    "nonasta": dict(
        config={"print-passes": "no", "check-non-asta-types": "yes"}, tf="absent", torch="absent"
    ),
    "first": dict(
        config={"print-passes": "no", "check-all-sequence-elements": "no"},
        tf="absent", torch="absent",
    ),
    "softloud": dict(config={"raise-errors": "no"}, tf="absent", torch="absent"),
    "softfirst": dict(
        config={"print-passes": "no", "raise-errors": "no", "check-all-sequence-elements": "no"},
        tf="absent", torch="absent",
    ),
    "softnonasta": dict(
        config={"print-passes": "no", "raise-errors": "no", "check-non-asta-types": "yes"},
        tf="absent", torch="absent",
    ),
    "off": dict(config={"on": "no", "print-passes": "no"}, tf="absent", torch="absent"),
    "loud": dict(config=None, tf="absent", torch="absent"),
    "fork": dict(config=None, tf="absent", torch="absent", load=False),
    "forktf": dict(config=None, tf="preload", torch="absent", load=False),
}


def seed_for(*parts):
    """ A seed which depends on VERIF_SEED and ``parts`` only. """
    text = "/".join(str(x) for x in (os.environ.get("VERIF_SEED", "1"),) + parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def from_asta(exc):
    """ Whether the exception was raised in, or below, the code under test. """
    tb = exc.__traceback__
    root = os.path.join(os.path.realpath(REPO), "asta") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


CASE_CPU_S = 40


def too_long(*_):
    """ Signal handler: end the case. """
    raise TooLong("still running after many seconds of processor time")


def watch(seconds):
    """ End the case after so many seconds of this process's time (0: stop watching). """
    signal.signal(signal.SIGVTALRM, too_long)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, seconds and 5)


@contextlib.contextmanager
def within(seconds):
    """ A part of a case with a limit of its own; TooLong if it takes longer. """
    watch(seconds)
    try:
        yield
    finally:
        watch(CASE_CPU_S)


def judge(sub, case):
    """ Run ``decide``; an unforeseen exception from the code under test is a violation. """
    try:
        watch(CASE_CPU_S)
        try:
            return decided(sub, case)
        finally:
            watch(0)
    except TooLong as exc:
        if not from_asta(exc):
            raise HarnessError(f"{sub.name}: {exc}") from exc
        raise Violation(f"a check does not end: {exc}") from exc


def decided(sub, case):
    """ The outcome of a case. """
    from pbt.build import TooBig

    try:
        note = sub.decide(case)
    except Violation:
        raise
    except TooBig:
        return Note(False, "too big for numpy")
    except Exception as exc:  # pylint: disable=broad-except
        if from_asta(exc):
            last = traceback.extract_tb(exc.__traceback__)[-1]
            where = f"{os.path.basename(last.filename)}:{last.name}"
            raise Violation(
                f"unforeseen {type(exc).__name__}: {str(exc)[:300]} (from {where})"
            ) from exc
        raise
    if not isinstance(note, Note):
        raise HarnessError(f"{sub.name}: decide returned {note!r}")
    return note


# ---------------------------------------------------------------- worker side


def setup_profile(name, scratch):
    """ Prepare the process: working directory, configuration, frameworks. """
    profile = PROFILES[name]
    os.chdir(scratch)
    os.environ["HOME"] = scratch
    for key in ("ASTA_TYPECHECK", "ASTARC", "PYTHONPATH"):
        os.environ.pop(key, None)
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    os.environ["TF_ENABLE_ONEDNN_OPTS"] = "0"
    os.environ["CUDA_VISIBLE_DEVICES"] = "-1"
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if profile["config"] is not None:
        with open("astarc", "w") as handle:
            handle.write("[MASTER]\n\n")
            for key, value in profile["config"].items():
                handle.write(f"{key}={value}\n")
    if profile["tf"] == "absent":
        sys.modules["tensorflow"] = None
    elif profile["tf"] == "preload":
        import tensorflow  # noqa: F401 pylint: disable=import-error,unused-import
    if profile["torch"] == "fake":
        from pbt import faketorch

        faketorch.install()
    else:
        sys.modules["torch"] = None
    import numpy  # noqa: F401 pylint: disable=unused-import
    import sympy  # noqa: F401 pylint: disable=unused-import

    if profile.get("load", True):
        import contextlib
        import io

        try:
            with contextlib.redirect_stdout(io.StringIO()):
                import asta
        except Exception as exc:  # pylint: disable=broad-except
            raise Violation(
                f"importing asta failed in environment {profile}: "
                f"{type(exc).__name__}: {exc}"
            ) from exc
        path = os.path.realpath(asta.__file__)
        if not path.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError(f"asta was imported from {path}")


def load_property(prop):
    """ The module of a property. """
    module = importlib.import_module("pbt.props." + prop.lower())
    for sub in module.SUBS:
        quick = sub.base_quick * getattr(module, "QUICK", 1)
        sub.counts["quick"] = int(min(quick, max(sub.base_quick, sub.counts["thorough"] / 2)))
    return module


def polish(one, state):
    """ Shrink the bytes of the one failing case further, on their own. """
    deadline = time.monotonic() + 6

    def better(blob):
        if time.monotonic() > deadline:
            return False
        before = state["best"]
        try:
            one(blob)
        except Violation:
            pass
        return state["best"] is not before

    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        for width in (16, 8, 4, 2, 1):
            pos = 0
            while pos < len(state["best"][3]):
                blob = state["best"][3]
                if any(
                    better(blob[:pos] + fill + blob[pos + width :])
                    for fill in (b"", bytes(width))
                    if fill != blob[pos : pos + width]
                ):
                    improved = True
                else:
                    pos += width
        for pos in range(len(state["best"][3])):
            blob = state["best"][3]
            for value in sorted({1, blob[pos] // 2, blob[pos] - 1}) if pos < len(blob) and blob[pos] else ():
                if better(blob[:pos] + bytes([value]) + blob[pos + 1 :]):
                    improved = True
                    break


def steady():
    """
    Newer versions of Hypothesis draw constants found in the source of the
    modules loaded; without them a campaign depends on its seed only.
    """
    try:
        from hypothesis.internal.conjecture import providers

        empty = providers.Constants()
        providers._get_local_constants = lambda: empty
    except (ImportError, AttributeError, TypeError):
        pass


def run_sub(prop, sub, tier, shard, shards, budget):
    """ One campaign of a sub-check. Returns a result dictionary. """
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, strategies

    from pbt.gen import D

    steady()
    count = sub.counts[tier]
    share = count // shards + (1 if shard < count % shards else 0)
    result = dict(
        sub=sub.name, evaluations=0, nontrivial=[], labels=collections.Counter(),
        samples=[], violation=None, harness=None, truncated=False,
    )
    if share == 0:
        return result
    batch = max(1, min(sub.batch, share))
    seen = set()
    state = dict(best=None, first=None, t_first=None)
    started = time.monotonic()

    def one(blob):
        case = sub.make(D(blob))
        if state["t_first"] is None:
            result["evaluations"] += 1
        try:
            note = judge(sub, case)
        except Violation as exc:
            text = json.dumps(case, sort_keys=True)
            found = (len(text), text, str(exc), blob)
            if state["first"] is None:
                state["first"] = found
                state["t_first"] = time.monotonic()
            if state["best"] is None or found < state["best"]:
                state["best"] = found
            raise
        if state["t_first"] is None:
            for label in note.labels:
                result["labels"][label] += 1
            if note.nontrivial:
                text = json.dumps(case, sort_keys=True)
                digest = hashlib.sha256((sub.name + text).encode()).hexdigest()[:16]
                if digest not in seen:
                    seen.add(digest)
                    if len(seen) in SAMPLE_AT and len(text) < 1500:
                        result["samples"].append(case)

    def test(blob):
        now = time.monotonic()
        if state["t_first"] is not None and now - state["t_first"] > 15:
            raise StopShrinking
        if state["t_first"] is None and now - started > budget:
            result["truncated"] = True
            raise StopShrinking
        for index in range(batch):
            one(blob[index * sub.size : (index + 1) * sub.size])

    wrapped = hypothesis.seed(seed_for(prop, sub.name, shard))(
        settings(
            max_examples=-(-share // batch),
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=[
                HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example
            ],
            phases=(Phase.explicit, Phase.generate, Phase.shrink),
            verbosity=hypothesis.Verbosity.quiet,
        )(given(strategies.binary(min_size=batch * sub.size, max_size=batch * sub.size))(test))
    )
    try:
        wrapped()
    except StopShrinking:
        pass
    except Violation:
        pass
    except BaseException as exc:  # pylint: disable=broad-except
        # Hypothesis reports failures which do not repeat as flaky ones; the
        # failure itself was real, so keep it, along with how to get there.
        if state["first"] is None or isinstance(exc, HarnessError):
            result["harness"] = "".join(traceback.format_exception(exc))[-6000:]
    result["nontrivial"] = sorted(seen)
    if state["best"] is not None and result["harness"] is None:
        try:
            polish(one, state)
        except Exception:  # pylint: disable=broad-except
            result["harness"] = traceback.format_exc()[-6000:]
    if state["best"] is not None and result["harness"] is None:
        result["violation"] = dict(
            case=json.loads(state["best"][1]), message=state["best"][2],
            first=json.loads(state["first"][1]), first_message=state["first"][2],
        )
    return result


def worker(prop, profile, tier, shard, shards, out, budget, only=None):
    """ Entry point of a worker process. """
    from pbt import sandbox

    scratch = tempfile.mkdtemp(prefix=f"pbt-{prop}-")
    payload = dict(profile=profile, shard=shard, results=[])
    try:
        try:
            setup_profile(profile, scratch)
        except Violation as exc:
            payload["setup_violation"] = str(exc)
        else:
            module = load_property(prop)
            with sandbox.silence():
                for sub in module.SUBS:
                    if sub.profile != profile or (only and sub.name != only):
                        continue
                    res = run_sub(prop, sub, tier, shard, shards, budget)
                    payload["results"].append(res)
                    if res["violation"] or res["harness"]:
                        break
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out + ".tmp", "w") as handle:
        json.dump(payload, handle)
    os.rename(out + ".tmp", out)


def replay(path):
    """ Re-run the case of a replay file, without Hypothesis, in this process. """
    with open(path) as handle:
        data = json.load(handle)
    scratch = tempfile.mkdtemp(prefix="pbt-replay-")
    try:
        try:
            setup_profile(data["profile"], scratch)
            if data.get("case") is None:
                print("replay: held (import)")
                return 0
            module = load_property(data["property"])
            (sub,) = [s for s in module.SUBS if s.name == data["sub"]]
            judge(sub, data["case"])
        except Violation as exc:
            print(f"replay: {data['property']}/{data['sub']}: {exc}")
            print(f"VIOLATION property={data['property']} replay={path}")
            return 1
        print("replay: held")
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- parent side


def env_for(shard):
    """ The environment of a worker. """
    env = dict(os.environ)
    for key in ("ASTA_TYPECHECK", "ASTARC", "PYTHONPATH"):
        env.pop(key, None)
    env.update(
        PYTHONHASHSEED=str(shard), PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1",
        PYTHONPATH=VERIF,
    )
    return env


def spawn(args, shard, log):
    """ Start a worker in its own process group. """
    return subprocess.Popen(
        [PYTHON, "-m", "pbt.core"] + args, cwd=VERIF, env=env_for(shard),
        stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True,
    )


def kill(proc):
    """ End a worker and everything it started. """
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    proc.wait()


def load_known(prop):
    """ Known findings: lines of known_findings.jsonl with status "open". """
    path = os.path.join(VERIF, "known_findings.jsonl")
    known = []
    if os.path.isfile(path):
        with open(path) as handle:
            for line in handle:
                if line.strip():
                    entry = json.loads(line)
                    if entry["property"] == prop and entry["status"] == "open":
                        known.append(entry)
    return known


def main(prop, tier):
    """ Run all sub-checks of a property and report. """
    started = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = load_property(prop)
    plan = dict(
        shards={s.profile: module.SHARDS.get(s.profile, 1) for s in module.SUBS},
        rule=module.RULE, assumptions=getattr(module, "ASSUMPTIONS", []),
    )
    limit = 700 if tier == "quick" else 6 * 3600
    budget = 240 if tier == "quick" else 2 * 3600
    cores = os.cpu_count() or 4
    scratch = tempfile.mkdtemp(prefix=f"pbt-parent-{prop}-")
    jobs = []
    for profile, shards in plan["shards"].items():
        shards = shards if tier == "quick" else max(shards, cores)
        for shard in range(shards):
            jobs.append((profile, shard, shards))
    running, payloads, errors, timed_out = [], [], [], False
    pending = list(jobs)
    stop = False
    try:
        while (pending or running) and not stop:
            while pending and len(running) < cores:
                profile, shard, shards = pending.pop(0)
                out = os.path.join(scratch, f"{profile}-{shard}.json")
                log = open(out + ".log", "w+")
                args = ["--worker", prop, profile, tier, str(shard), str(shards), out, str(budget)]
                running.append((spawn(args, shard, log), profile, shard, out, log))
            time.sleep(0.05)
            for item in list(running):
                proc, profile, shard, out, log = item
                if proc.poll() is None:
                    continue
                running.remove(item)
                if proc.returncode != 0 or not os.path.isfile(out):
                    log.seek(0)
                    errors.append(
                        f"worker {profile}/{shard} ended with {proc.returncode}:\n"
                        + log.read()[-3000:]
                    )
                    stop = True
                else:
                    with open(out) as handle:
                        payload = json.load(handle)
                    payloads.append(payload)
                    if payload.get("setup_violation"):
                        stop = True
                    for res in payload["results"]:
                        if res["violation"] or res["harness"]:
                            stop = True
                log.close()
            if time.monotonic() - started > limit:
                timed_out = True
                stop = True
    finally:
        for item in running:
            kill(item[0])
        shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, tier, seed, plan, payloads, errors, timed_out, started)


def report(prop, tier, seed, plan, payloads, errors, timed_out, started):
    """ Merge the results, write the evidence and the replay file, print the verdict. """
    violations = []
    subs = collections.OrderedDict()
    payloads.sort(key=lambda p: (p["profile"], p["shard"]))
    for payload in payloads:
        if payload.get("setup_violation"):
            violations.append(
                dict(property=prop, sub="import", profile=payload["profile"], case=None,
                     message=payload["setup_violation"])
            )
        for res in payload["results"]:
            agg = subs.setdefault(
                res["sub"],
                dict(evaluations=0, nontrivial=set(), labels=collections.Counter(), samples=[],
                     truncated=False),
            )
            agg["evaluations"] += res["evaluations"]
            agg["nontrivial"].update(res["nontrivial"])
            agg["labels"].update(res["labels"])
            agg["samples"].extend(res["samples"])
            agg["truncated"] = agg["truncated"] or res["truncated"]
            if res["harness"]:
                errors.append(f"{res['sub']}: {res['harness']}")
            if res["violation"]:
                violations.append(
                    dict(property=prop, sub=res["sub"], profile=payload["profile"],
                         **res["violation"], seed=seed, tier=tier, shard=payload["shard"])
                )
    total = sum(a["evaluations"] for a in subs.values())
    nontrivial = sum(len(a["nontrivial"]) for a in subs.values())
    samples = []
    for name, agg in subs.items():
        for case in agg["samples"][:2]:
            samples.append(dict(sub=name, case=case))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=total,
            distinct_nontrivial=nontrivial,
            rule=plan["rule"],
            samples=samples[:24],
            subchecks={
                name: dict(
                    evaluations=agg["evaluations"],
                    distinct_nontrivial=len(agg["nontrivial"]),
                    classes=dict(agg["labels"].most_common(20)),
                    truncated_by_time=agg["truncated"],
                )
                for name, agg in subs.items()
            },
            workers=len(payloads),
        ),
        assumptions=plan.get("assumptions", []),
        wall_s=round(time.monotonic() - started, 2),
        violations=len(violations),
    )
    text = json.dumps(evidence, indent=1)
    while len(text) > 60000 and evidence["coverage"]["samples"]:
        evidence["coverage"]["samples"].pop()
        text = json.dumps(evidence, indent=1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as handle:
        handle.write(text + "\n")
    for name, agg in subs.items():
        print(f"{prop} {name}: {agg['evaluations']} cases, {len(agg['nontrivial'])} distinct non-trivial")
    known = load_known(prop)
    for entry in known:
        if still_fails(entry):
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    fresh = []
    for violation in violations:
        text = json.dumps(violation.get("case"), sort_keys=True)
        if not any(
            e["sub"] == violation["sub"] and json.dumps(e["case"], sort_keys=True) == text
            for e in known
        ):
            fresh.append(violation)
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for violation in fresh[:3]:
            text = json.dumps(violation, indent=1, sort_keys=True)
            digest = hashlib.sha256(text.encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{prop}-{violation['sub'].replace(' ', '_')}-{digest}.json")
            with open(path, "w") as handle:
                handle.write(text + "\n")
            confirm(violation, path)
            print(f"{prop} {violation['sub']}: {violation['message']}")
            print(f"  case: {json.dumps(violation.get('case'), sort_keys=True)[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or timed_out:
        for err in errors:
            print("HARNESS ERROR:", err)
        if timed_out:
            print("HARNESS ERROR: out of time (inconclusive)")
        return 2
    if not total:
        print("HARNESS ERROR: nothing was run")
        return 2
    return 0


def run_replay(path):
    """ Exit code of a replay in a fresh process. """
    try:
        return subprocess.run(
            [PYTHON, "-m", "pbt.core", "--replay", path], cwd=VERIF, env=env_for(0),
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120,
        ).returncode
    except subprocess.TimeoutExpired:
        return None


def still_fails(entry):
    """ Whether the input of a known finding fails on this tree. """
    with tempfile.NamedTemporaryFile("w", suffix=".json") as handle:
        json.dump(entry, handle)
        handle.flush()
        return run_replay(handle.name) == 1


def confirm(violation, path):
    """
    Re-run a replay file in a fresh process. If the smallest case does not fail
    there, fall back to the first one; if that does not either, the failure
    depends on the cases before it, and the file says how to get there again.
    """

    def write():
        with open(path, "w") as handle:
            json.dump(violation, handle, indent=1, sort_keys=True)
            handle.write("\n")

    def fails():
        return run_replay(path) == 1

    write()
    if violation.get("first") is not None and not fails():
        small, message = violation["case"], violation["message"]
        violation.update(case=violation["first"], message=violation["first_message"])
        write()
        if violation["first"] == small or not fails():
            violation.update(
                case=small, message=message,
                note="Fails only after other cases in the same process. To see it again, run "
                f"the whole check: VERIF_SEED={violation['seed']} ./check "
                f"{violation['property']} {violation['tier']} (shard {violation['shard']})",
            )
            write()


def cli(argv):
    """ python -m pbt.core PROP [quick|thorough] | --replay FILE | --worker ... """
    if argv[0] == "--worker":
        prop, profile, tier, shard, shards, out, budget = argv[1:8]
        worker(prop, profile, tier, int(shard), int(shards), out, float(budget))
        return 0
    if argv[0] == "--replay":
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return main(argv[0], tier)


if __name__ == "__main__":
    # Use the importable module, so that its classes exist once.
    from pbt import core as _core

    sys.exit(_core.cli(sys.argv[1:]))
