"""Projection of results of the code under test to the values of the specification, and comparison."""
from __future__ import annotations

LINES = ("__start_line__", "__end_line__")


class NotPlain(Exception):
    pass


def tag(v, element_type):
    """Python value -> tagged value; anything but plain data (or BicepElement) is refused."""
    t = type(v)
    if v is None:
        return ["n", ""]
    if t is bool:
        return ["b", "true" if v else "false"]
    if t is int:
        return ["i", str(v)]
    if t is element_type:
        return ["e", str.__str__(v)]
    if t is str:
        return ["s", v]
    if t is list:
        return ["a", [tag(x, element_type) for x in v]]
    if t is dict:
        return ["d", [[key(k, element_type), tag(x, element_type)] for k, x in v.items()]]
    raise NotPlain(f"value of type {t.__module__}.{t.__qualname__}: {v!r}")


def key(k, element_type):
    if type(k) in (str, element_type):
        return str.__str__(k)
    raise NotPlain(f"key of type {type(k).__module__}.{type(k).__qualname__}: {k!r}")


def elements(result, element_type):
    """result of parse -> list of {cat, name, attrs, sl, el}, in order of appearance in the result."""
    if type(result) is not dict:
        raise NotPlain(f"result is a {type(result)}")
    out = []
    for cat, entries in result.items():
        if type(entries) is not dict or type(cat) is not str:
            raise NotPlain(f"category {cat!r}: {entries!r}")
        for name, attrs in entries.items():
            if type(attrs) is not dict:
                raise NotPlain(f"{cat}.{name}: {attrs!r}")
            body = {k: v for k, v in attrs.items() if k not in LINES}
            el = {"cat": cat, "name": key(name, element_type), "attrs": tag(body, element_type)}
            el["sl"], el["el"] = (attrs.get(k, -1) for k in LINES)
            out.append(el)
    return out


def diff(exp, act, path=""):
    """Differences between a tagged value of the specification and one of the code; [] if none.

    'o' (an object of the template) is compared with key order, 'd' (structure) without.
    """
    te, ta = exp[0], act[0]
    if te in ("o", "d"):
        if ta != "d":
            return [f"{path}: expected an object, got {show(act)}"]
        ke, ka = [k for k, _ in exp[1]], [k for k, _ in act[1]]
        if sorted(ke) != sorted(ka):
            return [f"{path}: expected keys {ke}, got {ka}"]
        if te == "o" and ke != ka:
            return [f"{path}: expected key order {ke}, got {ka}"]
        a = dict((k, v) for k, v in act[1])
        out = []
        for k, v in exp[1]:
            out += diff(v, a[k], f"{path}.{k}")
        return out
    if te == "a":
        if ta != "a" or len(exp[1]) != len(act[1]):
            return [f"{path}: expected {show(exp)}, got {show(act)}"]
        out = []
        for i, (x, y) in enumerate(zip(exp[1], act[1])):
            out += diff(x, y, f"{path}[{i}]")
        return out
    if te == "w":
        return [] if ta == "s" else [f"{path}: expected a string, got {show(act)}"]
    return [] if list(exp) == list(act) else [f"{path}: expected {show(exp)}, got {show(act)}"]


def show(v):
    t = v[0]
    if t in ("o", "d"):
        return "{" + ", ".join(f"{k}: {show(x)}" for k, x in v[1]) + "}"
    if t == "a":
        return "[" + ", ".join(show(x) for x in v[1]) + "]"
    return {"s": repr(v[1]), "e": f"<{v[1]}>", "i": v[1], "b": v[1], "n": "null", "w": "some string"}[t]


def with_scope(els):
    """Adds the default scope to the elements the specification expects."""
    if any(e["cat"] == "globals" for e in els):
        return els
    return [{"cat": "globals", "name": "scope", "attrs": ["d", [["value", ["s", "resourceGroup"]]]], "sl": 0, "el": 0}] + els


def diff_elements(exp, act, lines=True, order=True):
    """Compares the list of expected elements with the elements of a result."""
    exp = with_scope(exp)
    ke = [(e["cat"], e["name"]) for e in exp]
    ka = [(e["cat"], e["name"]) for e in act]
    if sorted(ke) != sorted(ka):
        missing, extra = [k for k in ke if k not in ka], [k for k in ka if k not in ke]
        return [f"inventory: missing {missing}, unexpected {extra}"]
    out = []
    if order:
        for cat in {c for c, _ in ke}:
            fixed = {e["name"] for e in exp if e["cat"] == cat and not e.get("free")}
            oe, oa = ([n for c, n in k if c == cat and n in fixed] for k in (ke, ka))
            if oe != oa:
                out.append(f"order of {cat}: expected {oe}, got {oa}")
    a = {(e["cat"], e["name"]): e for e in act}
    for e in exp:
        x = a[(e["cat"], e["name"])]
        p = f"{e['cat']}.{e['name']}"
        out += diff(e["attrs"], x["attrs"], p)
        if lines and (e["sl"], e["el"]) != (x["sl"], x["el"]):
            out.append(f"{p}: expected lines {e['sl']}-{e['el']}, got {x['sl']}-{x['el']}")
    return out
