------------------------------- MODULE GenStr --------------------------------
(* String literals, character by character.  A state is a literal read so    *)
(* far; every sequence of characters up to a bound is explored.  A literal   *)
(* that ends is put at a place of a template and must be reported verbatim;  *)
(* a literal that can not have ended, with no quote following in the         *)
(* template, makes the template malformed.                                   *)
(*                                                                           *)
(* stack: what is open, innermost first: "s" a string, "b" a brace (of an    *)
(* interpolation or of an object in it), "m" a multi-line string             *)
EXTENDS Hosts

Profile == IOEnv.PROFILE
Scale == atoi(IOEnv.SCALE)
Q(a, b) == IF Scale = 0 THEN a ELSE b

Place(h, quote, alpha, max) == [h |-> h, quote |-> quote, alpha |-> alpha, max |-> max]
Core == {"'", "\\", "$", "{", "}", "a"}
Text == {"//", "/*", "*/", "#", "~U2~", "~U3~", "${", "}", "'", "\\'", "\\\\", " ", "@x", ",", "="}
\* pieces of every kind: escapes, interpolations, blanks, characters of other scripts and planes, text that looks like something else
Chunks == {"'", "a", "Z9", "0", "_", " ", "  ", "\t", "\\n", "\\r", "\\t", "\\'", "\\\\", "\\$", "\\${", "\\u{1F600}", "\\u{a}", "${a}", "${a.b[0]}", "${'x'}", "${ 'y${z}' }", "${f('q', \"w\")}",
           "${{k: 'v'}}", "${a ? '}' : '{'}", "$", "$$", "{", "}", "{}", "{0}", "[", "]", "(", ")", "\"", "`", "//", "/*", "*/", "#", "@", ":", ",", "=", "=>", "?", "!", "|", "&", "%", "%s", "\\u", "true", "null", "for",
           "br:", "ts/", "~U1~", "~U2~", "~U3~", "~U4~", "~U5~", "~U6~", "~ID~"}
MlChunks == {"'", "a", " ", "\t", Lf, "~CR~" \o Lf, "'", "''", "\\", "\\n", "\\r\\n", "\\'", "${a}", "${'x'}", "${", "}", "{", "\"", "//", "/*", "*/", "#", "@d()", "var v = 1", "~U1~", "~U3~", "~U4~", "~U5~", "~U6~", "0", ",", "]"}
Escapes == {"'", "a", "\\n", "\\r", "\\t", "\\'", "\\\\", "\\$", "${a}", "${'x'}", " ", "{"}
MlLead == {"'''", " ", "\t", Lf, "~CR~" \o Lf, "~CR~", "a"}
Closers == {"'", "'''"}
MlCore == {"'", "'''", "a", Lf, "\\", "$", "{"}
MlText == {"''", "~CR~" \o Lf, Lf, "//", "/*", "${", "}", "~U1~", "a", " ", "#"}
StrHosts == {HostVar, HostNamed("arr1"), HostNamed("arrcomma"), HostNamed("objcomma"), HostNamed("fn2"), HostNamed("acc1"), HostNamed("idx"), HostNamed("then"),
             HostNamed("member"), HostNamed("param"), HostNamed("metadeco"), HostNamed("loopbody"), HostNamed("left"),
             Host("metadata", <<Id("metadata"), Id("m"), T("=")>>, <<>>),
             Host("import", <<Id("import")>>, <<>>),
             Host("importfrom", <<Id("import"), T("{"), Id("a"), T("}"), Id("from")>>, <<>>),
             Host("description", <<T("@"), Fn("description")>>, <<T(")"), Nl, Id("param"), Id("p"), Id("string")>>),
             InVar("key", <<T("{"), Id("j"), T(":"), Id("q"), T(",")>>, <<T(":"), Id("s"), T("}")>>)}
MlHosts == {h \in StrHosts : h.name \notin {"metadata", "import", "importfrom", "key"}}
\* several literals in one template: the end of one must not depend on the others
Twin(h, q) == [h EXCEPT !.suf = <<Nl, Id("var"), Id("w"), T("=")>> \o q \o h.suf]

Places ==
  CASE Profile = "chars" -> {Place(HostVar, "s", Core, Q(7, 9))} \union {Place(h, "s", Core, Q(4, 6)) : h \in StrHosts}
    [] Profile = "text" -> {Place(h, "s", Text, Q(2, 3)) : h \in StrHosts} \union {Place(HostVar, "s", Text, Q(4, 5))}
    [] Profile = "chunks" -> {Place(h, "s", Chunks, 3) : h \in IF Scale = 0 THEN {HostVar, HostNamed("objcomma")} ELSE StrHosts}
                             \union {Place(HostVar, "s", Chunks, Q(3, 4))} \union {Place(HostVar, "s", Escapes, Q(5, 6))}
                             \union {Place(HostVar, "m", MlChunks, Q(3, 4))} \union {Place(h, "m", MlChunks, Q(2, 3)) : h \in MlHosts}
                             \union {Place(HostVar, "m", MlLead, Q(5, 7))}
    [] Profile = "ml" -> {Place(HostVar, "m", MlCore, Q(6, 7))} \union {Place(h, "m", MlCore, Q(4, 6)) : h \in MlHosts}
                         \union {Place(HostVar, "m", MlText, Q(4, 5))} \union {Place(h, "m", MlText, Q(2, 3)) : h \in MlHosts}

VARIABLES pl, stack, esc, run, text, len, closed, open
vars == <<pl, stack, esc, run, text, len, closed, open>>

Init == /\ pl \in Places
        /\ stack = <<pl.quote>> /\ esc = FALSE /\ run = 0 /\ text = "" /\ len = 0
        /\ closed = FALSE /\ open = FALSE

\* one character (or chunk of characters that mean nothing) c
After(stk, e, c) ==
  LET m == Head(stk) IN
  CASE m = "s" /\ e -> [stk |-> stk, esc |-> FALSE, open |-> FALSE]
    [] m = "s" /\ c = "\\" -> [stk |-> stk, esc |-> TRUE, open |-> FALSE]
    [] m = "s" /\ c = "'" -> [stk |-> Tail(stk), esc |-> FALSE, open |-> FALSE]
    \* a dollar sign followed by a brace: the brace is looked at in the next step
    [] m = "s" -> [stk |-> stk, esc |-> FALSE, open |-> FALSE]
    [] m = "b" /\ c = "'" -> [stk |-> <<"s">> \o stk, esc |-> FALSE, open |-> FALSE]
    [] m = "b" /\ c = "{" -> [stk |-> <<"b">> \o stk, esc |-> FALSE, open |-> FALSE]
    [] m = "b" /\ c = "}" -> [stk |-> Tail(stk), esc |-> FALSE, open |-> FALSE]
    \* no well-formed expression has a backslash outside of a string
    [] m = "b" /\ c = "\\" -> [stk |-> stk, esc |-> FALSE, open |-> TRUE]
    [] OTHER -> [stk |-> stk, esc |-> FALSE, open |-> FALSE]

\* run: inside a string 1 after an unescaped dollar sign, in a multi-line string the number of quotes just read
Char(cur, c) ==
  IF cur.closed THEN cur
  ELSE IF Head(cur.stk) = "m"
  THEN LET n == IF c = "'" THEN cur.run + 1 ELSE 0 IN
       [cur EXCEPT !.run = n, !.stk = IF n = 3 THEN <<>> ELSE @, !.closed = n = 3]
  ELSE IF Head(cur.stk) = "s" /\ cur.run = 1 /\ c = "{"
  THEN [cur EXCEPT !.stk = <<"b">> \o @, !.run = 0]
  ELSE LET r == After(cur.stk, cur.esc, c)
           dollar == Head(cur.stk) = "s" /\ ~cur.esc /\ c = "$"
       IN [cur EXCEPT !.stk = r.stk, !.esc = r.esc, !.open = @ \/ r.open, !.run = IF dollar THEN 1 ELSE 0, !.closed = r.stk = <<>>]

RECURSIVE Chars(_, _, _)
Chars(cur, u, i) ==
  IF i > Len(u) THEN cur
  ELSE IF cur.closed THEN [cur EXCEPT !.open = TRUE]   \* ended inside of a chunk
  ELSE Chars(Char(cur, Chr(u, i)), u, i + 1)

Next == /\ ~closed /\ ~open /\ len < pl.max
        /\ \E u \in (IF Profile = "chunks" /\ len = pl.max - 1 THEN pl.alpha \cap Closers ELSE pl.alpha) :
             LET r == Chars([stk |-> stack, esc |-> esc, run |-> run, closed |-> FALSE, open |-> FALSE], u, 1) IN
             /\ stack' = r.stk /\ esc' = r.esc /\ run' = r.run /\ closed' = r.closed /\ open' = r.open
             /\ text' = text \o u /\ len' = len + 1 /\ pl' = pl
Spec == Init /\ [][Next]_vars

Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

\* without the quotes, and for multi-line strings without one leading line break
Crlf == "~CR~" \o Lf
MlValue(c) == IF StartsWith(c, Crlf) THEN SubSeq(c, Len(Crlf) + 1, Len(c)) ELSE IF StartsWith(c, Lf) THEN SubSeq(c, 2, Len(c)) ELSE c
Lit == IF pl.quote = "m" THEN LET c == SubSeq(text, 1, Len(text) - 3) IN Tok("ml", "'''" \o text, MlValue(c), Len(SplitAt(text, Lf)) - 1)
       ELSE Str(SubSeq(text, 1, Len(text) - 1))

\* the machine is the judge of what the whole template means
Whole(h) == LET toks == h.pre \o <<Lit>> \o h.suf
                r == Run(Fresh, toks, 1)
            IN IF r.err = "" /\ r.done THEN EmitDoc(h.name, toks, r) ELSE Assert(IsOpen(r), <<"place for a string", h.name, r.err>>)

NoQuotes(q) == \A i \in 1..Len(q) : q[i].c \notin {"str", "ml"}
\* the literal as written, with everything before and after it; blanks are explicit
Spaced(q) == [i \in 1..(2 * Len(q)) |-> IF i % 2 = 1 THEN <<q[(i + 1) \div 2].c, q[(i + 1) \div 2].x>> ELSE <<"ws", " ">>]
EmitRawBad(id, q, why) == PrintT("DOC " \o ToJson([id |-> id, t |-> Spaced(q), ok |-> FALSE, why |-> why, raw |-> TRUE]))
QuoteMark == IF pl.quote = "m" THEN "'''" ELSE "'"
Unclosed(h) == EmitRawBad(h.name, h.pre \o <<Tok("raw", QuoteMark \o text, "", 0)>> \o h.suf, "string not terminated")

Out ==
  /\ (closed /\ ~open /\ ~(pl.quote = "s" /\ Contains(text, "'''"))) => Whole(pl.h)
  \* also refused when a quote ends the text before the interpolation is closed
  /\ (~closed /\ ~open /\ Profile # "chunks" /\ NoQuotes(pl.h.suf)
        /\ (pl.quote = "s" => NoQuotes(pl.h.pre) \/ TRUE)
        /\ ~(pl.quote = "s" /\ StartsWith(text, "''"))) => Unclosed(pl.h)
=============================================================================
