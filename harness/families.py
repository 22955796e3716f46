"""Which explorations of the specification decide which property."""
from __future__ import annotations

import record

LEVEL = "model_checking"
# the oracle of these is not the specification alone
LEVELS = {"P20": "exploration"}


def tree(c, profile, thorough, job=None, **kw):
    c.generate("GenTree", {"PROFILE": profile, "SCALE": int(thorough)}, job or {}, f"tree:{profile}")


def docs(c, profile, thorough, quick=1600, job=None):
    """Pseudo-random templates; the thorough tier uses other and more runs."""
    rounds = [(c.seed, quick)] if not thorough else [(c.seed * 31 + i, 6000) for i in range(6)]
    for seed, count in rounds:
        env = {"PROFILE": profile, "SEED": seed, "COUNT": count, "FIRST": 1, "FUEL": 90}
        c.generate("GenDoc", env, dict({"styles": ["min", "random"]}, **(job or {})), f"docs:{profile}:{seed}")


def sizes(c, thorough, job=None):
    """Constructs repeated and nested from zero to many times."""
    c.generate("Pump", {"PROFILE": "size", "OF": c.prop, "SCALE": int(thorough), "SEED": c.seed}, job or {}, "sizes")


def names(c, thorough, job=None):
    """Equal, similar and special names everywhere."""
    c.generate("GenName", {"OF": c.prop, "SCALE": int(thorough)}, job or {}, "names")


def shapes(c, thorough, job=None):
    """Objects with the keys of the result."""
    c.generate("GenShape", {"OF": c.prop, "SCALE": int(thorough)}, job or {}, "shapes")


def values(tree_profile, doc_profiles, corpus=True, size=True, name=True):
    def run(c, thorough):
        shapes(c, thorough)
        if name:
            names(c, thorough)
        if size:
            sizes(c, thorough)
        if tree_profile:
            tree(c, tree_profile, thorough)
        for p in doc_profiles:
            docs(c, p, thorough, 1600 // len(doc_profiles))
        if corpus:
            c.validate("corpus", lines=False)
    return run


def module(c, name, profile, thorough, job=None):
    c.generate(name, {"PROFILE": profile, "SCALE": int(thorough)}, job or {}, f"{name}:{profile}")


def vary(c, mode, bases, share, job=None, name=None):
    c.generate("Mutate", {"PROFILE": mode, "SCALE": 0, "BASES": bases, "SHARE": share}, job or {}, name or f"vary:{mode}")


def p14(c, thorough):
    sizes(c, thorough, {"lines": True})
    bases = c.bases(["layout"] if not thorough else ["layout", "base", "children"], 12 if not thorough else 60, 40, record.GAPS)
    vary(c, "layout", bases, 100, {"lines": True})
    docs(c, "layout", thorough, 1000, {"lines": True, "styles": ["min", "random", "crlf-random"]})
    c.validate("corpus", lines=True)
    c.validate("gaps-all" if thorough else "gaps", lines=True)


def p16(c, thorough):
    sizes(c, thorough)
    bases = c.bases(["layout"] if not thorough else ["layout", "base", "operators", "functions"], 12 if not thorough else 60, 40, record.GAPS)
    vary(c, "layout", bases, 100, {"styles": ["auto"]})
    docs(c, "layout", thorough, 1000, {"styles": ["spaces", "min", "random", "crlf-random"]})
    c.validate("gaps-all" if thorough else "gaps", lines=False)


def p04(c, thorough):
    sizes(c, thorough)
    for p in ("chars", "text", "ml", "chunks"):
        module(c, "GenStr", p, thorough)
    docs(c, "strings", thorough, 1000)
    c.validate("corpus", lines=False)


def p08(c, thorough):
    sizes(c, thorough)
    shapes(c, thorough)
    module(c, "GenFn", "calls", thorough)
    docs(c, "functions", thorough, 1000)
    c.validate("corpus", lines=False)


def p13(c, thorough):
    module(c, "GenRef", "references", thorough)
    docs(c, "base", thorough, 600)
    c.validate("corpus", lines=False)


def p18(c, thorough):
    for p in ("N1", "N2", "N3", "N4", "N5"):
        tree(c, p, thorough)
    bases = c.bases(["base"] if not thorough else ["base", "children", "loops", "functions", "flat"], 15 if not thorough else 60, 40, record.GAPS)
    vary(c, "corrupt", bases, 40 if not thorough else 100)


# templates of histories and schedules: text, in the small histories?, 1: first or second call of a schedule, 2: second only
POOL = {
    "imports": ("import {a, b as c} from 'x.bicep'\nimport * as n from 'y.bicep'\nparam p string = a", True, 1),
    "children": ("resource r 'A/b@1' = {\n  name: 'n'\n  resource c 'd' = {\n    name: 'm'\n  }\n}\nvar v = r::c.name", True, 1),
    "imports then bad scope": ("import {z} from 'z.bicep'\nresource r 'A/b@1' = {\n  resource y 'd' = {\n    k: 1\n  }\n}\ntargetScope = 'nowhere'", True, 1),
    "child then bad reference": ("resource r 'A/b@1' = {\n  resource x 'd' = {\n    k: 1\n  }\n}\nmodule m 'br:x' = {\n}", False, 2),
    "syntax error": ("param p string\nvar v = {", True, 0),
    "decorators": ("@description('d')\n@minLength(1)\n@sys.allowed([\n  'a'\n  'b'\n])\nparam p string = 'a'\nvar o = { k: 1, l: [ true, null ] }", False, 2),
    "same names": ("resource r 'E/f@2' = {\n  resource c 'g' = {\n    other: 'x'\n  }\n}\nimport {a} from 'o.bicep'\nvar v = null", True, 1),
    "nothing": ("", False, 0),
    "not closed": ("var v = '''a''", False, 0),
    "characters": ("var v = '''\r\n\u00e4\u00df ${x}\r\n\u65e5\u672c'''\nvar w = '\U0001F680 ${v}'\n", False, 0),
    "scope": ("targetScope = 'tenant'\nmodule m 'br:r.io/a/b:1' = [for (x, i) in items(y): if (z) {\n  name: x\n}]", False, 2),
    "twin": ("var v = [ 'a', 1, true ]\n@description('one')\nparam p string = 'left'\n// the end", False, 0),
    "other twin": ("var v = [ 'b', 2, null ]\n@description('two')\nparam q string = 'rite'\n// the end", False, 0),
    "functions": ("func f(a string, b int) string => '${a}${b}'\nvar v = map(range(0, 3), i => f('x', i).y[0] ?? !g)\ntype t = 'a' | 'b'", False, 2),
}


# templates of which each has near relatives
KIN = {
    "plain": "var a = 'x Y  z'\nparam p int = 12\n",
    "nested": "@description('a b')\nresource r 'A/b@1' = {\n  k: [ 'x', y, 21 ]\n  resource c 'd' = {\n    m: '''\n l1\n  l2'''\n  }\n}",
    "several": "import {a as b} from 'f.bicep'\nvar t = [for i in x: '${i}\u00e9']\noutput o string = f('q', !p)\ntype u = 'a' | 'b'\n// end\n",
}


def kin(text):
    """The template and others that differ from it in little: blanks, letters, line ends, order of characters, beginning, end."""
    half = text.index("\n", len(text) // 2) + 1
    return dict.fromkeys([
        text, text.replace("  ", " "), text.replace(" ", "  "), text.replace("' ", "'\t").replace(" b'", "\tb'").replace("x Y", "x\tY"),
        text.swapcase(), text.lower(), text.upper(), text.replace("12", "21").replace("21 ]", "12 ]").replace("'q'", "'r'"), text.replace("x", "y"),
        text.replace("'a b'", "'b a'").replace("x Y", "Y x").replace("'a' | 'b'", "'b' | 'a'"), text + "\n", text + "// end", text + "var zz = 1\n",
        "\n" + text, "// c\n" + text, "  " + text, text.rstrip("\n"), text.rstrip(), text.replace("\n", "\r\n"), text[:half], text[half:], text[:-3], text * 2,
        text.replace("// end", "/* end */"), text.replace("\u00e9", "e\u0301").replace("Y", "\uff11\ufb01"), text.replace("'A/b@1'", "'A/b@2'"),
        text.replace("'", '"'), text.replace("x", "\x00"), "var a = 1\n" + text, text.replace("param", "var").replace("int", ""), text.replace("\n", "\n\n"),
        text.replace(" = ", "="), ""])


def pool(c):
    path = c.pool(POOL)
    return path, {"pool": [t for t, _, _ in POOL.values()], "lines": True}


def p17(c, thorough):
    path, job = pool(c)
    env = {"BASES": path, "SEED": c.seed, "COUNT": 1, "SCALE": int(thorough)}
    c.generate("Session", dict(env, PROFILE="deep"), dict(job, mode="history", fresh=8), "histories:deep")
    c.generate("Session", dict(env, PROFILE="wide"), dict(job, mode="history", fresh=40), "histories:wide")
    c.generate("Session", dict(env, PROFILE="walk", COUNT=4000 if thorough else 400), dict(job, mode="history", fresh=1), "histories:walk")
    c.generate("Session", dict(env, PROFILE="long", COUNT=64 if thorough else 8), dict(job, mode="history", fresh=1), "histories:long")
    related = {f"{name}:{i}": (t, True, 0) for name, text in KIN.items() for i, t in enumerate(kin(text))}
    c.generate("Session", dict(env, BASES=c.pool(related), PROFILE="twins"), {"mode": "history", "fresh": 40, "pool": [t for t, _, _ in related.values()], "lines": True}, "histories:twins")
    c.generate("Sched", {"BASES": path, "SCALE": 0, "STRIDE": 1, "RUNS": 3, "STOP": 0}, dict(job, mode="schedule"), "schedules:1 preemption")
    c.generate("Sched", {"BASES": path, "SCALE": 0, "STRIDE": 7 if thorough else 31, "RUNS": 4, "STOP": 0}, dict(job, mode="schedule"), "schedules:2 preemptions")
    c.generate("Sched", {"BASES": path, "SCALE": 0, "STRIDE": 1, "RUNS": 3, "STOP": 1}, dict(job, mode="schedule"), "schedules:stopped")


def p15(c, thorough):
    job = {"mode": "options"}
    docs(c, "layout", thorough, 400, job)
    docs(c, "base", thorough, 300, job)
    module(c, "GenStr", "text", thorough, job)
    bases = c.bases(["base"] if not thorough else ["base", "children", "flat"], 4 if not thorough else 30, 40)
    vary(c, "corrupt", bases, 20 if not thorough else 40, job)
    path, job = pool(c)
    c.generate("Session", {"BASES": path, "SEED": c.seed + 7, "COUNT": 1000 if thorough else 100, "SCALE": 0, "PROFILE": "walk"}, dict(job, mode="history"), "histories:walk")


def p19(c, thorough):
    job = {"mode": "plain"}
    for p in ("flat", "children", "decorators", "accessors", "functions", "lambdas", "strings"):
        docs(c, p, thorough, 300, job)
    for p in ("P03", "P10") if not thorough else ("P02", "P03", "P06", "P09", "P10", "P11", "P12"):
        tree(c, p, thorough and p not in ("P03", "P06", "P09"), job)
    c.generate("Pump", {"PROFILE": "size", "OF": "P02", "SCALE": 0, "SEED": c.seed}, job, "sizes")
    shapes(c, thorough, job)
    tree(c, "P02", False, job) if not thorough else None
    module(c, "GenRef", "references", thorough, job)
    c.validate("corpus", lines=False)


def p20(c, thorough):
    job = {"mode": "time", "max_violations": 3, "sizes": [4000, 16000, 64000] if thorough else [2000, 8000, 32000]}
    for mode in ("long", "pairs", "time"):
        c.generate("Pump", {"PROFILE": mode, "OF": "", "SCALE": int(thorough), "SEED": c.seed}, job, f"growth:{mode}")
    c.generate("Pump", {"PROFILE": "work", "OF": "", "SCALE": int(thorough), "SEED": c.seed}, {"mode": "work", "max_violations": 3}, "growth:work")


# a line break after the question mark: the specification leaves open what follows
KF_03 = ("var v = {\n  k: a ?\n  b : c\n}", {"globals": {"scope": {"value": "resourceGroup"}},
                                               "variables": {"v": {"decorators": [], "value": {"k": "a", "b": "c"}}}})


# the name given to the nested resource is also that of another one
KF_05 = ("resource r 'A/b@1' = {\n  resource c 'x' = {\n  }\n}\nresource r__c 'A/d@1' = {\n}",
         {"globals": {"scope": {"value": "resourceGroup"}}, "resources": {
             "r": {"decorators": [], "type": "A/b", "api_version": "1", "existing": False, "config": {}},
             "r__c": {"decorators": [], "type": "A/b/x", "api_version": "1", "existing": False, "config": {"depends_on": ["r"]}}}})


def p01(c, thorough):
    values("P01", ["flat", "base"])(c, thorough)
    c.probe("KF-05", *KF_05)


def p11(c, thorough):
    values("P11", ["children"])(c, thorough)
    c.probe("KF-05", *KF_05)


def p06(c, thorough):
    values("P06", ["operators"], name=False)(c, thorough)
    c.probe("KF-03", *KF_03)


FAMILIES = {
    "P01": p01,
    "P02": values("P02", ["flat"]),
    "P03": values("P03", ["values"]),
    "P04": p04,
    "P05": values("P05", ["refs"]),
    "P06": p06,
    "P07": values("P07", ["accessors"]),
    "P08": p08,
    "P09": values("P09", ["lambdas"]),
    "P10": values("P10", ["decorators"]),
    "P11": p11,
    "P12": values("P12", ["loops"]),
    "P13": p13,
    "P14": p14,
    "P15": p15,
    "P16": p16,
    "P17": p17,
    "P18": p18,
    "P19": p19,
    "P20": p20,
}

_LANG = "TLA+ language machine, TLC: "
_REPLAY = ", replayed on the code; recorded executions validated against the machine"
_TRUST = " Trusted: the machine as statement of the language, tokenizer and projection of the harness."
_SEQ = ("TLC explores every token sequence up to a bound that the machine reads at {0}, seeded pseudo-random whole templates, slots filled "
        "with related and special names (GenName), objects with the result's own keys (GenShape) and constructs repeated up to hundreds of times (Pump); each is parsed "
        "by the code and compared with the elements the machine derives; recorded executions on the example templates are validated by TraceDoc." + _TRUST)


def _seq(where):
    return _LANG + "exhaustive and seeded templates" + _REPLAY, _SEQ.format(where)


NOTES = {
    "P01": _seq("top level: sequences of up to 3 of 15 kinds of declarations with colliding names, with declarations before and after"),
    "P02": _seq("the header of each kind of declaration (data types, defaults, imports, extensions, existing, function arguments)"),
    "P03": _seq("47 value positions with literals, brackets, keys and separators as alphabet"),
    "P04": (_LANG + "strings character by character" + _REPLAY,
            "TLC explores every string literal over an alphabet of critical characters up to a length, quoted and multi-line, at every place a string may "
            "stand, with a stack machine for interpolations as oracle; malformed ones must be refused." + _TRUST),
    "P05": _seq("47 value positions with references, keywords and equal strings as alphabet"),
    "P06": _seq("47 value positions with all operators, parentheses and operands as alphabet"),
    "P07": _seq("47 value positions with bases and accessors as alphabet"),
    "P08": (_LANG + "calls of every built-in function" + _REPLAY,
            "TLC explores calls of every built-in function (plain and namespaced), of look-alikes and unknown functions with every number of arguments and "
            "special arguments at each position; invariants Complete and Same on the model." + _TRUST),
    "P09": _seq("value positions with lambdas and at function declarations"),
    "P10": _seq("decorators and their arguments before each kind of declaration"),
    "P11": _seq("nested resources up to depth 3, in loops and conditions"),
    "P12": _seq("loops and conditions of variables, outputs, resources and modules"),
    "P13": (_LANG + "module references part by part" + _REPLAY,
            "TLC explores references composed of parts (kinds, registries, aliases, paths, tags) and defects; invariants Faithful and Lossless (the parts give "
            "back the reference) hold on the model and each reference is parsed by the code." + _TRUST),
    "P14": (_LANG + "layouts of templates with line numbers" + _REPLAY,
            "The machine counts lines. TLC varies the layout of templates at every gap; start and end lines of every element are compared." + _TRUST),
    "P15": (_LANG + "templates under every option and entry point",
            "Accepted and malformed templates of the machine, and histories of Session, are run with both line options, with and without grammar cache, as "
            "text and file, in UTF-8 and C locale, with trees in between; results, trees and failures are compared with each other and with the machine." + _TRUST),
    "P16": (_LANG + "layout variations" + _REPLAY,
            "TLC varies spaces, comments, line breaks and separators at every gap of templates; invariant LayoutFree on the model, and the code is compared "
            "with the machine on every variation." + _TRUST),
    "P17": ("TLA+ model of sessions and of two threads, TLC: all histories and schedules up to a bound, replayed on the code",
            "Session: every history of calls, wrong calls and changes of results up to a length and long random ones. Sched: every schedule of two calls with one "
            "preemption at each line event of the package, two preemptions at a stride, and a call stopped from outside at each step; each is forced on the code through a tracing function." + _TRUST),
    "P18": (_LANG + "refused token sequences" + _REPLAY,
            "TLC explores token sequences and single corruptions of templates at every place; what the machine refuses, the code must refuse, and what it still "
            "reads must be reported as it says." + _TRUST),
    "P19": (_LANG + "exhaustive and seeded templates, results inspected for plain data",
            "Templates of the machine are parsed twice; every part of the results must be plain data, survive JSON and be shared with no other part or result." + _TRUST),
    "P20": ("TLA+ specification of growing templates (Pump), TLC: every combination of start, repeated part and end, timed on the code",
            "TLC enumerates templates of which parts are repeated: every construct of the language, opening and closing marks, strange characters after every kind of "
            "start. Each is parsed in a process of its own at growing lengths; a violation is a call that does not end, or computing time that grows more than twice as fast "
            "as the length at two steps in a row, measured repeatedly; constructs at three sizes are judged by the number of steps the interpreter executes. Time itself is no state of the specification, hence level exploration."),
}
REASONS = {}
