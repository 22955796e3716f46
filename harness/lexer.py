"""Tokenizer of the conformance harness.

It is independent of the grammar of the code under test: it turns a template
into the tokens of spec/Bicep.tla.
"""
from __future__ import annotations

import re

OPS = ["=>", "==", "=~", "!=", "!~", ">=", "<=", "&&", "||", "??", "::"]
SINGLE = set("()[]{},:.?!=@|+-*/%<>")
FN = re.compile(r"(?:(?:sys|az)\.)?[A-Za-z0-9_]+\(")
IDENT = re.compile(r"[A-Za-z_]\w*")
SPACED = re.compile(r"(if|items)[ \t]+\(")


class LexError(Exception):
    pass


def scan_interpolation(text: str, i: int) -> int:
    """text[i] is the first character after '${' or '{'; returns the index after '}'."""
    while i < len(text):
        c = text[i]
        if c == "}":
            return i + 1
        if c == "{":
            i = scan_interpolation(text, i + 1)
        elif c == "'":
            i = scan_string(text, i)
        else:
            i += 1
    raise LexError("interpolation not closed")


def scan_string(text: str, i: int) -> int:
    """text[i] is the opening quote; returns the index after the closing one."""
    i += 1
    while i < len(text):
        c = text[i]
        if c == "\\":
            i += 2
        elif c == "'":
            return i + 1
        elif text.startswith("${", i):
            i = scan_interpolation(text, i + 2)
        else:
            i += 1
    raise LexError("string not closed")


def line_break(text: str, i: int) -> tuple[int, bool]:
    """text[i] starts a line comment or ends a line; returns the end of the run of empty and comment lines."""
    end, comment = i, False
    while i < len(text):
        if text.startswith("//", i):
            i = text.find("\n", i) if "\n" in text[i:] else len(text)
            end, comment = i, True
        elif text[i] == "\n" or text.startswith("\r\n", i):
            i += 1 if text[i] == "\n" else 2
            end = i
        elif text[i] in " \t":
            i += 1
        elif text[i] == "#":
            i = skip_directive(text, i)
        elif text.startswith("/*", i) and "*/" in text[i + 2 :]:
            i = text.find("*/", i + 2) + 2
        else:
            break
    return end, comment


def skip_directive(text: str, i: int) -> int:
    j = text.find("\n", i)
    j = len(text) if j < 0 else j
    return j - 1 if text[j - 1] == "\r" else j


def tok(c, x, v=None):
    return {"c": c, "x": x, "v": x if v is None else v, "n": x.count("\n")}


def spaced_ok(out: list[dict], word: str) -> bool:
    before = [t for t in out[-3:] if t["c"] != "ws"][-1:]
    if word == "items":
        return before != [] and before[0]["x"] == "in"
    return before != [] and before[0]["c"] in (":", "=", "nl")


def lex(text: str) -> list[dict]:
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c in " \t":
            i += 1
        elif text.startswith("//", i) or c == "\n" or text.startswith("\r\n", i):
            j, comment = line_break(text, i)
            out.append(tok("nl", text[i:j], "cm" if comment else "nl"))
            i = j
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                raise LexError("comment not closed")
            out.append(tok("ws", text[i : j + 2]))
            i = j + 2
        elif c == "#":
            i = skip_directive(text, i)
        elif text.startswith("'''", i):
            j = text.find("'''", i + 3)
            if j < 0:
                raise LexError("multi-line string not closed")
            body = text[i + 3 : j]
            v = body[2:] if body.startswith("\r\n") else body[1:] if body.startswith("\n") else body
            out.append(tok("ml", text[i : j + 3], v))
            i = j + 3
        elif c == "'":
            j = scan_string(text, i)
            out.append(tok("str", text[i:j], text[i + 1 : j - 1]))
            i = j
        elif (m := SPACED.match(text, i)) and spaced_ok(out, m.group(1)):
            # where a loop or condition may follow, 'if' and 'items' may be separated from the parenthesis
            out.append(tok("fn" if m.group(1) == "if" else "items", m.group(), m.group(1)))
            i = m.end()
        elif m := FN.match(text, i):
            out.append(tok("fn", m.group(), m.group()[:-1]))
            i = m.end()
        elif m := IDENT.match(text, i):
            out.append(tok("id", m.group()))
            i = m.end()
        elif m := re.compile(r"[0-9]+").match(text, i):
            out.append(tok("int", m.group(), m.group().lstrip("0") or "0"))
            i = m.end()
        else:
            for op in OPS:
                if text.startswith(op, i):
                    out.append(tok(op, op))
                    i += len(op)
                    break
            else:
                if c not in SINGLE:
                    raise LexError(f"no token at {text[i:i+10]!r}")
                out.append(tok(c, c))
                i += 1
    out.append(tok("eof", ""))
    return out
