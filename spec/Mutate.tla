------------------------------- MODULE Mutate --------------------------------
(* Variations of given templates, one at a time at every place of each:      *)
(*   layout   spaces, comments and line breaks are inserted, exchanged or    *)
(*            removed and separators exchanged.  Where the machine still     *)
(*            reads the template, the elements must be the same apart from   *)
(*            line numbers (LayoutFree, checked on the model).               *)
(*   corrupt  tokens are removed, repeated, exchanged, replaced, inserted,   *)
(*            or the template ends early.  The machine tells which of these  *)
(*            are templates of the language, and what they mean.             *)
EXTENDS Hosts

Mode == IOEnv.PROFILE
Scale == atoi(IOEnv.SCALE)
Q(a, b) == IF Scale = 0 THEN a ELSE b
Base == ndJsonDeserialize(IOEnv.BASES)      \* [id, toks]
\* share of the places that are varied, in percent
Share == atoi(IOEnv.SHARE)

Ws(x, n) == Tok("ws", x, "", n)
Brk(x, n) == Tok("nl", x, "nl", n)
Cm(x, n) == Tok("nl", x, "cm", n)
WsForms == {Ws("\t", 0), Ws("   ", 0), Ws("/* c */", 0), Ws("/**/", 0), Ws("/* 'a" \o Lf \o "*/", 1), Ws("/* // ''' ~U2~" \o Lf \o Lf \o "{ */", 2)}
NlForms == {Brk(Lf, 1), Brk("~CR~" \o Lf, 1), Brk(Lf \o " \t" \o Lf, 2), Brk(Lf \o "#disable-next-line x" \o Lf, 2), Brk(Lf \o "/* a" \o Lf \o "b */" \o Lf, 3)}
CmForms == {Cm("// c" \o Lf, 1), Cm("//'~CR~" \o Lf \o " " \o Lf, 2), Cm(Lf \o Lf \o "  // [a, {" \o Lf \o "// ''' ~U2~" \o Lf, 4), Cm("/// var x = 1" \o Lf \o "#y" \o Lf, 2), Cm(Lf \o "/* a */ //" \o Lf \o "  ", 2)}

\* variations of the token t before which the machine is; each is what stands in its place
Comma == T(",")
LayoutVariants(t, prev) ==
  LET breaks == NlForms \union CmForms IN
  {<<w, t>> : w \in WsForms} \union
  (IF t.c = "nl" THEN {<<b>> : b \in breaks} \union {<<Comma>>, <<Comma, t>>, <<>>}
   ELSE IF prev = "nl" THEN {}
   ELSE IF t.c = "," THEN {<<b>> : b \in NlForms} \union {<<b, t>> : b \in breaks} ELSE {<<b, t>> : b \in breaks})
  \union (IF t.c = "ws" THEN {<<>>} ELSE {})

Stray == {T(x) : x \in {"(", ")", "[", "]", "{", "}", ",", ":", "=", ".", "?", "@", "|", "=>", "::", "+", "-", "!", "==", "*"}}
  \union {Id("a"), Id("if"), Id("for"), Id("var"), Num("1", "1"), Str("s"), Tok("ml", "'''m'''", "m", 0), Fn("f"), Nl}
  \union {Tok("bad", x, "", 0) : x \in {";", "\"", "$", "&", "\\", "`", "^", "~"}}
\* what may not be the end
Unended == {Tok("bad", x, "", 0) : x \in {"'", "'''", "/*", "/* a", "'a${", "'a${b'", "'${'x", "'''a''", "\\", "'a\\'"}}
CorruptVariants(t, next) ==
  {<<>>, <<t, t>>} \union {<<r>> : r \in {r \in Stray : r.c # t.c}} \union {<<r, t>> : r \in Stray}
  \* strings whose content may matter
  \union (IF t.c # "str" THEN {} ELSE {<<Str(x)>> : x \in {"", "x", t.v \o "@1", t.v \o "a", t.v \o ":", t.v \o " ", "br:" \o t.v, "ts/" \o t.v}
                                                          \union (IF Len(t.v) > 1 THEN {SubSeq(t.v, 2, Len(t.v))} ELSE {})})

VARIABLES d, l, st
vars == <<d, l, st>>
Toks == Base[d].toks
Init == d \in 1..Len(Base) /\ l = 1 /\ st = Fresh
Next == /\ l <= Len(Toks)
        /\ st' = Consume(st, Toks[l])
        /\ l' = l + 1 /\ d' = d
Spec == Init /\ [][Next]_vars

Rest == SubSeq(Toks, l + 1, Len(Toks))
Before == SubSeq(Toks, 1, l - 1)
\* pseudo-random choice of places
Chosen == ((d * 7919 + l * 104729 + ((d * l) % 97)) % 100) < Share

\* two line breaks with nothing between are one
NotLayout(q) == SelectSeq(q, LAMBDA t : t.c # "ws")
Twin(q) == LET p == NotLayout(q) IN \E i \in 2..Len(p) : p[i - 1].c = "nl" /\ p[i].c = "nl"
Near(q) == LET p == NotLayout(Before) IN Twin((IF p = <<>> THEN <<>> ELSE <<p[Len(p)]>>) \o q \o (IF Len(Rest) > 2 THEN SubSeq(Rest, 1, 3) ELSE Rest))
\* a comment sign must not arise from a division sign
Slash(q) == LET p == Before \o q \o (IF Rest = <<>> THEN <<>> ELSE <<Rest[1]>>) IN
            \E i \in Len(Before)..(Len(p) - 1) : i > 0 /\ p[i].c \in {"/", "*"} /\ p[i + 1].c \in {"nl", "ws", "*", "/"}

\* the whole template as read without variation
Whole == Run(st, SubSeq(Toks, l, Len(Toks)), 1)
Sans(els) == [i \in 1..Len(els) |-> [els[i] EXCEPT !.sl = 0, !.el = 0]]

\* q stands in the place of the token, rest follows; want: elements that have to be the same
Try(id, q, rest, same, want) ==
  LET r == Run(st, q \o rest, 1)
      toks == Before \o q \o rest
  IN IF r.err = "" /\ r.done
     THEN IF same /\ Sans(Elements(r)) # want THEN TRUE ELSE EmitDoc(id, toks, r)
     ELSE IF same \/ r.err = "" \/ IsOpen(r) THEN TRUE
     ELSE EmitBad(id, toks, r.err)
Judge(id, q, same, want) == IF Near(q) \/ Slash(q) THEN TRUE ELSE Try(id, q, Rest, same, want)

\* spaces and block comments never matter, and neither does the form of a line break or what it is made of,
\* as long as it is not a comment
LayoutFree ==
  (Mode = "layout" /\ l <= Len(Toks) /\ Chosen) =>
   LET whole == Whole
       want == Sans(Elements(whole))
   IN whole.err = "" =>
    /\ \A w \in WsForms : LET r == Run(st, <<w>> \o SubSeq(Toks, l, Len(Toks)), 1) IN r.err = "" /\ Sans(Elements(r)) = want
    /\ Toks[l].c = "nl" => \A b \in (IF Toks[l].v = "nl" THEN NlForms ELSE CmForms) :
                             LET r == Run(st, <<b>> \o Rest, 1) IN r.err = "" /\ Sans(Elements(r)) = want

\* exchanged with the next token
Swap(t) ==
  LET q == <<Rest[1], t>>
      rest == Tail(Rest)
      p == NotLayout(Before)
      around == (IF p = <<>> THEN <<>> ELSE <<p[Len(p)]>>) \o q \o (IF Len(rest) > 2 THEN SubSeq(rest, 1, 3) ELSE rest)
  IN IF Twin(around) \/ \E i \in 1..(Len(around) - 1) : around[i].c \in {"/", "*"} /\ around[i + 1].c \in {"nl", "ws", "*", "/"} THEN TRUE
     ELSE Try(Base[d].id, q, rest, FALSE, <<>>)

Active == l <= Len(Toks) /\ Chosen /\ st.err = ""
Out ==
  Active =>
    LET t == Toks[l]
        prev == IF l = 1 THEN "nl" ELSE LET p == NotLayout(Before) IN IF p = <<>> THEN "" ELSE p[Len(p)].c
    IN IF Mode = "layout"
       THEN LET want == Sans(Elements(Whole)) IN \A q \in LayoutVariants(t, prev) : Judge(Base[d].id, q, TRUE, want)
       ELSE /\ t.c # "eof" => \A q \in CorruptVariants(t, prev) : Judge(Base[d].id, q, FALSE, <<>>)
            /\ (t.c # "eof" /\ Len(Rest) > 0 /\ Rest[1].c # "eof" /\ Rest[1].c # "ws") => Swap(t)
            /\ t.c # "eof" => Try(Base[d].id, <<Eof>>, <<>>, FALSE, <<>>)
            \* ended here by the beginning of something
            /\ prev # "nl" => \A u \in Unended : Try(Base[d].id, <<u, Eof>>, <<>>, FALSE, <<>>)
            /\ (l > 1 /\ prev = "nl" /\ t.c = "eof") => \A u \in Unended : Try(Base[d].id, <<Nl, u, Eof>>, <<>>, FALSE, <<>>)
=============================================================================
