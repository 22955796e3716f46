"""What is compared, when a template of the specification is replayed on the code under test."""
from __future__ import annotations

import json
import os
import resource
import signal
import sys
import tempfile
import time
from pathlib import Path

import project
import sched


# seconds of computing, after which a call is taken to have no outcome
ENDLESS = 15


class Endless(Exception):
    pass


def endless(*_):
    raise Endless(f"no outcome within {ENDLESS} s of computing")


class Runner:
    """lines: compare line numbers; order: compare the order of the entries."""

    def __init__(self, job):
        from pycep import BicepParser
        from pycep.models import BicepElement

        signal.signal(signal.SIGVTALRM, endless)
        self.job = job
        self.cls, self.elem = BicepParser, BicepElement
        self.parsers = {}
        self.parses = 0
        self.notes = {}
        self.trees = {}
        self.mode = getattr(self, "check_" + job.get("mode", "replay"))

    def parser(self, lines: bool):
        if lines not in self.parsers:
            self.parsers[lines] = self.cls(add_line_numbers=lines)
        return self.parsers[lines]

    def parse(self, text: str, lines: bool):
        """-> ("ok", elements, result) | ("err", message, None) | ("bad", message, None)"""
        self.parses += 1
        status, result = self.attempt(self.parser(lines).parse, {"text": text})
        if status == "err":
            return "err", result, None
        try:
            return "ok", project.elements(result, self.elem), result
        except project.NotPlain as e:
            return "bad", str(e), None

    def judge(self, doc, status, got, lines):
        """Differences between specification and code for one document; known: the recorded deviation was seen."""
        if not doc["ok"]:
            if status == "err":
                return [], False
            return [f"malformed template accepted ({doc['why']})"], False
        if status != "ok":
            return [f"{'rejected' if status == 'err' else 'not plain data'}: {got}"], False
        if not lines:
            for e in got:
                if (e["sl"], e["el"]) != (-1, -1):
                    return [f"{e['cat']}.{e['name']}: line numbers although not asked for"], False
        opts = {"lines": lines and self.job.get("lines", False), "order": self.job.get("order", True)}
        d = project.diff_elements(doc["e"], got, **opts)
        if d and doc["k"]:
            for alt in doc["k"]:
                if not project.diff_elements(alt, got, **opts):
                    return [], True
        return d, False

    def check(self, doc, text, rnd):
        diffs, known = self.mode(doc, text, rnd)
        return (diffs, known) if not self.hung else ([self.hung] + diffs, False)

    def check_replay(self, doc, text, rnd):
        lines = self.job.get("lines") or rnd.random() < 0.3
        status, got, _ = self.parse(text, lines)
        return self.judge(doc, status, got, lines)

    # ------------------------------------------------------------ configurations
    def check_options(self, doc, text, rnd):
        """One template under every option and through every entry point."""
        if not hasattr(self, "configs"):
            self.configs = {(lines, cache): self.cls(add_line_numbers=lines, cache=cache) for lines in (False, True) for cache in (True, False)}
            self.dir = Path(tempfile.mkdtemp())
            odd = os.fsdecode("\u00fc\u65e5".encode())
            (self.dir / "d.x" / odd).mkdir(parents=True)
            # neither the name of a file nor the way to it matters
            self.files = [self.dir / n for n in ("with space.bicep", "main.bicep", "x.bicepparam", "noending", ".bicep", "X.BICEP", "a.json", "d.x/../y.txt", f"d.x/{odd}/{odd}.bicep", "z.tar.gz", "link.bicep")]
            os.symlink("target.bicep", self.files[-1])
            self.files.append(Path(os.path.relpath(self.dir / "relative.bicep")))
        self.file = rnd.choice(self.files)
        # a template that is refused for its meaning only may have a tree
        tree = "ok" if doc["ok"] else "any" if doc.get("why") in MEANING else "err"
        self.file.write_bytes(text.encode("utf-8"))
        diffs, first, first_tree = [], None, None
        order = list(self.configs)
        rnd.shuffle(order)
        for lines, cache in order:
            p = self.configs[lines, cache]
            for how, args in (("text", {"text": text}), ("file", {"file_path": self.file})):
                name = f"add_line_numbers={lines} cache={cache} from {how}"
                self.parses += 2
                trees = [self.attempt(p.create_tree, args)] if rnd.random() < 0.5 else []
                status, got = self.attempt(p.parse, args)
                trees.append(self.attempt(p.create_tree, args))
                if (status == "ok") != doc["ok"]:
                    diffs.append(f"{name}: {got if status == 'err' else 'malformed template accepted'} ({doc.get('why')})")
                    continue
                if status == "ok":
                    plain = json.dumps(stripped(got) if lines else got)
                    if lines:
                        diffs += [f"{name}: {x}" for x in unnumbered(got)]
                    if first is None:
                        first = (name, plain)
                    elif first[1] != plain:
                        diffs.append(f"{name}: {plain} instead of {first[1]} with {first[0]}")
                for kind, t in trees:
                    if tree != "any" and kind != tree:
                        diffs.append(f"{name}: tree: {t if kind == 'err' else 'given for a malformed template'}")
                    elif kind == "ok" and type(t) is not str:
                        diffs.append(f"{name}: tree is a {type(t)}")
                    elif kind == "ok":
                        first_tree = first_tree or (name, t)
                        if t != first_tree[1]:
                            diffs.append(f"{name}: tree {t} instead of {first_tree[1]} with {first_tree[0]}")
        if not diffs:
            diffs += self.sources(text, rnd)
        return diffs, False

    def sources(self, text, rnd):
        """Characters the specification does not speak of: whatever they mean, text and file mean the same."""
        c = rnd.choice(STRANGE)
        at = rnd.choice([0, len(text), rnd.randrange(len(text) + 1)])
        text = text[:at] + c + text[at:]
        if rnd.random() < 0.1:
            # a large file
            text = rnd.choice(["// ", "/*", "# ", "var big = '"]) + rnd.choice(["", "x", "xy"]) + rnd.choice(["\u00e4", "\u65e5", "\U0001F680", "\u00e4\u65e5 "]) * rnd.choice([2000, 9000, 40000]) + rnd.choice(["\n", "*/", "'\n"]) + text
        self.file.write_bytes(text.encode("utf-8"))
        p = self.configs[rnd.random() < 0.5, rnd.random() < 0.5]
        self.parses += 4
        diffs = []
        for call in (p.parse, p.create_tree):
            a, b = (self.attempt(call, args) for args in ({"text": text}, {"file_path": self.file}))
            if a[0] != b[0] or a[0] == "ok" and json.dumps(a[1]) != json.dumps(b[1]):
                diffs.append(f"{call.__name__} with {c!r} at {at}: {a} as text, {b} as file")
        return diffs

    hung = ""

    def attempt(self, call, args):
        signal.setitimer(signal.ITIMER_VIRTUAL, ENDLESS)
        try:
            return "ok", call(**args)
        except Exception as e:
            if "no outcome within" in str(e):
                self.hung = str(e)[-200:]
            return "err", f"{type(e).__name__}: {str(e)[:300]}"
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    # --------------------------------------------------------------- plain data
    def check_plain(self, doc, text, rnd):
        if not hasattr(self, "recent"):
            self.recent = []
        lines = rnd.random() < 0.5
        diffs = []
        for _ in range(2):
            status, got, result = self.parse(text, lines)
            if status == "bad":
                diffs.append(got)
            if status != "ok":
                # acceptance itself is the subject of other properties
                continue
            diffs += plain_problems(result)
            back = json.loads(json.dumps(result))
            if back != result or json.dumps(back) != json.dumps(result):
                diffs.append("not the same after a JSON round trip")
            ids = {}
            for path, part in mutable_parts(result):
                if id(part) in ids:
                    diffs.append(f"{path} and {ids[id(part)]} are one object")
                ids[id(part)] = path
            for other, other_ids in self.recent:
                for i in ids.keys() & other_ids.keys():
                    diffs.append(f"{ids[i]} is also {other_ids[i]} of another result")
            self.recent.append((result, ids))
        del self.recent[:-6]
        return diffs, False

    # ------------------------------------------------------------------ histories
    def check_history(self, doc, text, rnd):
        table, pool = self.job["table"], self.job["pool"]
        if not hasattr(self, "dir"):
            self.dir = Path(tempfile.mkdtemp())
            self.ages = [999, 999]
            self.base = [None, None]
            for i, t in enumerate(pool):
                (self.dir / f"t{i + 1}.bicep").write_bytes(t.encode("utf-8"))
        fresh = self.job.get("fresh", 1)
        for i in (0, 1):
            self.ages[i] += 1
            if self.ages[i] >= fresh:
                self.base[i], self.ages[i] = self.cls(add_line_numbers=i == 1), 0
        parsers = [(self.base[0], False), (self.base[1], True)]
        held = []  # [result, its text, changed]
        diffs = []

        def source(step):
            if step["how"] == "text":
                t = pool[step["t"] - 1]
                # the same object as before, or another one that does not live on
                return {"text": t if rnd.random() < 0.5 else "".join((t[:1], t[1:]))}
            if step["how"] == "reused":
                f = self.dir / "reused.bicep"
                f.write_bytes(pool[step["t"] - 1].encode("utf-8"))
                os.utime(f, (1, 1))
                return {"file_path": f}
            return {"file_path": self.dir / f"t{step['t']}.bicep"}

        for n, step in enumerate(doc["hist"], 1):
            what = f"step {n} of {describe(doc['hist'][:n])}"
            kind = step["a"]
            self.parses += 1
            if kind == "new":
                parsers.append((self.cls(add_line_numbers=step["lines"]), step["lines"]))
            elif kind == "parse":
                p, lines = parsers[step["p"] - 1]
                exp = table[step["t"] - 1]
                status, got = self.attempt(p.parse, source(step))
                diffs += [f"{what}: {d}" for d in self.outcome(exp, status, got, lines)]
                if status == "ok" and exp["ok"]:
                    held.append([got, json.dumps(got), False])
                if (status == "ok") != exp["ok"]:
                    break
            elif kind == "tree":
                status, got = self.attempt(parsers[step["p"] - 1][0].create_tree, source(step))
                exp = table[step["t"] - 1]["tree"]
                if exp != "any" and exp != status:
                    diffs.append(f"{what}: {got if status == 'err' else 'tree of a malformed template'}")
                elif status == "ok":
                    if self.trees.setdefault(step["t"], got) != got:
                        diffs.append(f"{what}: another tree than before")
            elif kind == "wrong":
                p = parsers[step["p"] - 1][0]
                f = self.dir / "t1.bicep"
                args = {"none": {}, "both": {"text": pool[0], "file_path": f}, "bothempty": {"text": "", "file_path": f}}[step["how"]]
                status, got = self.attempt(p.parse if step["what"] == "parse" else p.create_tree, args)
                if status == "ok":
                    diffs.append(f"{what}: accepted")
            elif kind == "change" and step["r"] <= len(held):
                ruin(held[step["r"] - 1][0])
                held[step["r"] - 1][2] = True
            for i, (result, was, changed) in enumerate(held, 1):
                if not changed and json.dumps(result) != was:
                    diffs.append(f"{what}: result {i} is no longer what was returned")
            if diffs:
                break
        return diffs, False

    def outcome(self, exp, status, got, lines):
        if status == "ok":
            try:
                els = project.elements(got, self.elem)
            except project.NotPlain as e:
                return [str(e)]
        else:
            els = got
        return self.judge({"ok": exp["ok"], "e": exp["e"], "k": None, "why": "as alone"}, status, els, lines)[0]

    # ------------------------------------------------------------------ schedules
    def check_schedule(self, doc, text, rnd):
        table, pool = self.job["table"], self.job["pool"]
        lines = rnd.random() < 0.5
        one = self.parser(lines)
        if doc["same"]:
            parsers = [(one, lines)] * 2
        else:
            other = not lines if rnd.random() < 0.5 else lines
            if not hasattr(self, "second"):
                self.second = {x: self.cls(add_line_numbers=x) for x in (False, True)}
            parsers = [(one, lines), (self.second[other], other)]
        texts = [pool[t - 1] for t in doc["pair"]]
        self.parses += 2
        if [1, -1] in doc["sched"]:
            return self.stopped(doc, one, lines, texts), False
        results = sched.Schedule(doc["sched"]).play([lambda p=p, t=t: p.parse(text=t) for (p, _), t in zip(parsers, texts)])
        diffs = []
        for i, (status, got) in enumerate(results):
            for d in self.outcome(table[doc["pair"][i] - 1], status, got, parsers[i][1]):
                diffs.append(f"thread {i + 1} of schedule {doc['sched']} ({'one parser' if doc['same'] else 'two parsers'}, {texts}): {d}")
        if sched.Schedule.stuck > 5:
            self.notes["not_stepped"] = self.notes.get("not_stepped", 0) + 1
        return diffs, False


    def stopped(self, doc, parser, lines, texts):
        """A call is stopped from outside, the next ones know nothing of it."""
        at = doc["sched"][0][1]
        if not sched.stopped(lambda: parser.parse(text=texts[0]), at):
            self.notes["ended_before_the_stop"] = self.notes.get("ended_before_the_stop", 0) + 1
        diffs = []
        for i in (1, 0):
            self.parses += 1
            status, got = self.attempt(parser.parse, {"text": texts[i]})
            for d in self.outcome(self.job["table"][doc["pair"][i] - 1], status, got, lines):
                diffs.append(f"after parse({texts[0]!r}) was stopped at step {at}, {'then' if i else 'and then again'} parse({texts[i]!r}): {d}")
        return diffs

    # ----------------------------------------------------------------------- time
    def check_time(self, doc, text, rnd):
        """Does the time to parse grow with the length of the template, and not faster?"""
        if not hasattr(self, "sizes"):
            self.sizes = self.job["sizes"]
            self.parse("var v = [\n  'a ${b}'\n]", True)
        short, medium, long = (stretched(doc["t"], n) for n in self.sizes)
        lines = rnd.random() < 0.5
        diffs = []
        got = self.measure([short, medium], lines)
        if got and suspicious(got):
            # again, to be sure that nothing else has used the time
            self.notes["measured_again"] = self.notes.get("measured_again", 0) + 1
            rounds = [got] + [self.measure([short, medium], lines) for _ in range(2)]
            if all(rounds):
                got = [min(r[i] for r in rounds) for i in range(2)]
                if suspicious(got):
                    more = [self.measure([long], lines) for _ in range(2)]
                    got = got + [min(m[0] for m in more)] if all(more) else None
                    if got and got[2] > 1 and got[2] > 8 * got[1]:
                        diffs.append("time to parse grows faster than the template: " + ", ".join(f"{t:.3f} s for {len(x)} characters" for t, x in zip(got, (short, medium, long))))
            else:
                got = None
        if not got:
            diffs.append(f"parse did not end with a result or an error within {CPU_LIMIT} s of computing for up to {len(medium) if not self.died_long else len(long)} characters ({self.died})")
        return diffs, False

    # ----------------------------------------------------------------------- work
    def check_work(self, doc, text, rnd):
        """Do the steps the code executes grow with the template, and not faster?"""
        lines = rnd.random() < 0.5
        got = []
        # what is prepared once does not count
        self.attempt(self.parser(lines).parse, {"text": "var v = [\n  'a ${b}'\n]"})
        for _, t in doc["t"]:
            steps = Steps()
            with steps:
                status, what = self.attempt(self.parser(lines).parse, {"text": t})
            self.parses += 1
            if self.hung:
                return [f"{len(t)} characters: {what}"], False
            if status != "ok" and "RecursionError" not in what:
                return [f"not parsed: {what}"], False
            got.append((steps.package, steps.all))
        self.notes["steps"] = max(self.notes.get("steps", 0), got[-1][1])
        diffs = []
        for name, counts in zip(("the package", "all code"), zip(*got)):
            if counts[2] > STEPS_FLOOR and all(b > 3 * a for a, b in zip(counts, counts[1:])):
                diffs.append(f"steps executed in {name} grow faster than the template: {counts} for {[len(t) for _, t in doc['t']]} characters")
        return diffs, False

    died, died_long = "", False

    def measure(self, texts, lines):
        """Seconds of computing for each text, in a process of its own; nothing, if it did not survive."""
        r, w = os.pipe()
        pid = os.fork()
        self.parses += len(texts)
        if pid == 0:
            try:
                resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                sys.setrecursionlimit(1000)
                p = self.parser(lines)
                out = []
                for t in texts:
                    start = time.process_time()
                    try:
                        p.parse(text=t)
                    except Exception:
                        pass
                    out.append(time.process_time() - start)
                os.write(w, json.dumps(out).encode())
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            got = f.read()
        _, status = os.waitpid(pid, 0)
        if not got:
            self.died, self.died_long = (f"ended by signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else "ended"), len(texts) == 1
        return json.loads(got) if got else None


CPU_LIMIT = 20
STEPS_FLOOR = 100_000


class Steps:
    """Counts the calls, lines and jumps Python executes."""
    def __enter__(self):
        m, e = sys.monitoring, sys.monitoring.events
        self.package = self.all = 0

        def step(code, *_):
            self.all += 1
            if sched.counts_file(code):
                self.package += 1

        m.use_tool_id(4, "verif")
        for event in (e.PY_START, e.LINE, e.JUMP):
            m.register_callback(4, event, step)
        m.set_events(4, e.PY_START | e.LINE | e.JUMP)

    def __exit__(self, *_):
        sys.monitoring.set_events(4, 0)
        sys.monitoring.free_tool_id(4)


# byte order mark, end of file, control characters, line ends of Unicode, and what a decoder or an universal newline mode might change
STRANGE = ["\ufeff", "\x1a", "\r", "\n\r", "\x0c", "\x0b", "\x00", "\u2028", "\x85", "\xa0", "\xad", "\u00ff", "\u0130", "\u1e9e", "\U0010ffff", "\t", "e\u0301", "\ufffd"]


def stretched(segments, length):
    """The text of the segments, with the repeated ones repeated to reach the length."""
    unit = sum(len(x) for kind, x in segments if kind == "rep") or 1
    fixed = sum(len(x) for kind, x in segments if kind != "rep")
    n = max(1, (length - fixed) // unit)
    return "".join(x * n if kind == "rep" else x for kind, x in segments)


def suspicious(got):
    return got[1] > 0.03 and got[1] > 8 * got[0]


MEANING = {"invalid scope", "invalid module reference", "invalid resource type", "too few arguments", "decorator argument missing",
           "lambda variable expected", "parenthesis not closed"}
LINES = project.LINES


def stripped(v):
    if isinstance(v, dict):
        return {k: stripped(x) for k, x in v.items() if k not in LINES}
    if isinstance(v, list):
        return [stripped(x) for x in v]
    return v


def unnumbered(result):
    """Entries without line numbers."""
    for cat, entries in result.items():
        for name, attrs in entries.items():
            s, e = (attrs.get(k) for k in LINES)
            if type(s) is not int or type(e) is not int or not 0 <= s <= e:
                yield f"{cat}.{name}: lines {s!r} to {e!r}"


def plain_problems(v, path="result"):
    """What is neither dictionary, list, string, integer, boolean nor None."""
    from pycep.models import BicepElement

    t = type(v)
    if t is dict:
        for k, x in v.items():
            if type(k) not in (str, BicepElement):
                yield f"{path}: key {k!r} of type {type(k).__qualname__}"
            yield from plain_problems(x, f"{path}[{k!r}]")
    elif t is list:
        for i, x in enumerate(v):
            yield from plain_problems(x, f"{path}[{i}]")
    elif t not in (str, int, bool, type(None), BicepElement):
        yield f"{path}: {v!r} of type {t.__qualname__}"


def mutable_parts(v, path="result"):
    if isinstance(v, dict):
        yield path, v
        for k, x in v.items():
            yield from mutable_parts(x, f"{path}[{k!r}]")
    elif isinstance(v, list):
        yield path, v
        for i, x in enumerate(v):
            yield from mutable_parts(x, f"{path}[{i}]")
    elif getattr(v, "__dict__", None):
        yield path + ".__dict__", v.__dict__


def ruin(v):
    """Changes every mutable part."""
    for _, part in list(mutable_parts(v)):
        if isinstance(part, dict):
            part.clear()
            part["ruined"] = {"ruined": []}
        else:
            part[:] = ["ruined"]


def describe(hist):
    return " ".join("{}({})".format(s["a"], ",".join(str(s[k]) for k in ("p", "t", "how", "r", "lines", "what") if k in s)) for s in hist)
