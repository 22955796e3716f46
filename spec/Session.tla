------------------------------- MODULE Session -------------------------------
(* What a program does with the parser over time.  Parser objects are made   *)
(* with options, asked for results and trees of templates (given as text or  *)
(* as a file), wrongly called, and results that were handed out are changed  *)
(* by their owner.  The outcome of every call is that of the template and    *)
(* the options alone: Outcome[t] does not mention the history, and a result  *)
(* once handed out is only changed by its owner.  TLC explores all histories *)
(* up to a length; each is replayed on the code.                             *)
EXTENDS Emit, FiniteSets

Scale == atoi(IOEnv.SCALE)
Mode == IOEnv.PROFILE                        \* wide: every action, deep: few actions, walk: pseudo-random histories, long: very long ones, twins: templates that are nearly the same
Pool == ndJsonDeserialize(IOEnv.BASES)       \* [id, toks, core, group]
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Q(a, b) == IF Scale = 0 THEN a ELSE b

T0 == 1..Len(Pool)
\* evaluated once
ASSUME TLCSet(1, [t \in T0 |-> Run(Fresh, Pool[t].toks, 1)])
Read == TLCGet(1)
\* errors that only show when the meaning of a template is determined: a tree may be had all the same
Meaning == {"invalid scope", "invalid module reference", "invalid resource type", "too few arguments", "decorator argument missing", "lambda variable expected",
            "parenthesis not closed"}
ASSUME TLCSet(2, [t \in T0 |-> LET r == Read[t] IN
  IF r.err = "" /\ r.done THEN [ok |-> TRUE, tree |-> "ok", e |-> Elements(r)]
  ELSE [ok |-> FALSE, tree |-> IF r.err \in Meaning THEN "any" ELSE "err", e |-> <<>>]])
Outcome == TLCGet(2)

VARIABLES parsers,   \* options of the parser objects
          held,      \* results in the hands of the user: template, options, changed by the user?
          hist,      \* what was done
          run, g     \* number and generator of a pseudo-random history
vars == <<parsers, held, hist, run, g>>

Deep == IF Mode = "deep" THEN {t \in T0 : Pool[t].core} ELSE T0
\* reused: always the same file, whose content is exchanged before
Hows == IF Mode = "deep" THEN {"text"} ELSE {"text", "file", "reused"}
Max == CASE Mode = "wide" -> Q(2, 3) [] Mode = "deep" -> Q(3, 4) [] Mode = "long" -> Q(200, 800) [] Mode = "twins" -> 3 [] OTHER -> 14

Do(a) == hist' = Append(hist, a)
New == /\ Mode # "deep" /\ Len(parsers) < 3
       /\ \E lines \in BOOLEAN : parsers' = Append(parsers, lines) /\ Do([a |-> "new", p |-> Len(parsers) + 1, lines |-> lines])
       /\ held' = held
Parse == \E p \in 1..Len(parsers), t \in Deep, how \in Hows :
           /\ Do([a |-> "parse", p |-> p, t |-> t, how |-> how])
           /\ held' = IF Outcome[t].ok THEN Append(held, [t |-> t, lines |-> parsers[p], changed |-> FALSE]) ELSE held
           /\ parsers' = parsers
Tree == \E p \in 1..Len(parsers), t \in Deep, how \in Hows :
           /\ Mode = "deep" => p = 1
           /\ Do([a |-> "tree", p |-> p, t |-> t, how |-> how]) /\ UNCHANGED <<parsers, held>>
\* no source, two sources, or two of which one is empty
Wrong == \E p \in 1..Len(parsers), how \in {"none", "both", "bothempty"}, what \in {"parse", "tree"} :
           /\ Mode # "deep"
           /\ Do([a |-> "wrong", p |-> p, how |-> how, what |-> what]) /\ UNCHANGED <<parsers, held>>
Change == \E r \in 1..Len(held) :
           /\ ~held[r].changed
           /\ held' = [held EXCEPT ![r].changed = TRUE]
           /\ Do([a |-> "change", r |-> r]) /\ parsers' = parsers
\* what the specification leaves open is no subject here
ASSUME TLCSet(3, {t \in T0 : Read[t].err = "" \/ ~IsOpen(Read[t])})
Settled == TLCGet(3)
\* one template, one that differs from it in little, and the first one again
Twin == \E p \in 1..2, how \in {"text", "reused"}, t \in Settled :
           /\ LET n == Len(hist) IN
              /\ n > 0 => Pool[t].group = Pool[hist[1].t].group /\ how = hist[1].how
              /\ n = 0 => (Scale = 1 \/ p = (t % 2) + 1)
              /\ n = 1 => t # hist[1].t /\ (Scale = 1 \/ (t + hist[1].t) % 2 = (IF how = "text" THEN 0 ELSE 1))
              /\ n = 2 => t = hist[1].t /\ p = hist[1].p
           /\ Do([a |-> "parse", p |-> p, t |-> t, how |-> how])
           /\ held' = IF Outcome[t].ok THEN Append(held, [t |-> t, lines |-> parsers[p], changed |-> FALSE]) ELSE held
           /\ parsers' = parsers
Anything == New \/ Parse \/ Tree \/ Wrong \/ Change

\* pseudo-random histories: Wichmann-Hill, all in the state
Advance(h) == <<(171 * h[1]) % 30269, (172 * h[2]) % 30307, (170 * h[3]) % 30323>>
Draw(h, n) == (((h[1] + 3 * h[2] + 7 * h[3]) \div 5) % n) + 1
Walk == LET g1 == Advance(g)
            g2 == Advance(g1)
            k == Draw(g, 10)
            p == Draw(g1, Len(parsers))
            t == Draw(g2, Len(Pool))
            how == CASE Draw(g2, 4) = 1 -> "file" [] Draw(g2, 4) = 2 -> "reused" [] OTHER -> "text"
        IN /\ g' = Advance(g2)
           /\ CASE k <= 6 -> /\ Do([a |-> "parse", p |-> p, t |-> t, how |-> how])
                             /\ held' = IF Outcome[t].ok THEN Append(held, [t |-> t, lines |-> parsers[p], changed |-> FALSE]) ELSE held
                             /\ parsers' = parsers
                [] k = 7 -> Do([a |-> "tree", p |-> p, t |-> t, how |-> how]) /\ UNCHANGED <<parsers, held>>
                [] k = 8 /\ Len(parsers) < 3 -> parsers' = Append(parsers, t % 2 = 0) /\ Do([a |-> "new", p |-> Len(parsers) + 1, lines |-> t % 2 = 0]) /\ held' = held
                [] k >= 9 /\ held # <<>> -> LET r == Draw(g1, Len(held)) IN
                       held' = [held EXCEPT ![r].changed = TRUE] /\ Do([a |-> "change", r |-> r]) /\ parsers' = parsers
                [] OTHER -> /\ Do([a |-> "wrong", p |-> p, how |-> <<"both", "bothempty", "none", "both", "bothempty">>[Draw(g1, 5)], what |-> IF Draw(g2, 3) = 1 THEN "tree" ELSE "parse"])
                           /\ UNCHANGED <<parsers, held>>

Init == /\ parsers = <<FALSE, TRUE>> /\ held = <<>> /\ hist = <<>>
        /\ run \in (IF Mode \in {"walk", "long"} THEN 1..Count ELSE {0})
        /\ g = <<((Seed * 7919 + run * 613) % 30268) + 1, ((Seed * 104 + run * 977 + 5) % 30306) + 1, ((run * 31 + Seed * 17) % 30322) + 1>>
Next == /\ Len(hist) < Max
        /\ IF Mode \in {"walk", "long"} THEN Walk ELSE IF Mode = "twins" THEN Twin /\ UNCHANGED g ELSE Anything /\ UNCHANGED g
        /\ run' = run
Spec == Init /\ [][Next]_vars

\* a result in the hands of the user stays what it was, unless the user changes it
Stable == [][\A r \in 1..Len(held) : held'[r].t = held[r].t /\ held'[r].lines = held[r].lines /\ (held'[r].changed # held[r].changed => hist'[Len(hist')].a = "change")]_vars
\* every successful parse, and nothing else, hands out a result
Counted == Len(held) = Cardinality({i \in 1..Len(hist) : hist[i].a = "parse" /\ Outcome[hist[i].t].ok})

Out == /\ (hist = <<>> /\ run <= 1) => PrintT("TABLE " \o ToJson([t \in T0 |-> Outcome[t]]))
       /\ Len(hist) = Max => PrintT("DOC " \o ToJson([id |-> "session", hist |-> hist, ok |-> TRUE, t |-> <<>>]))
=============================================================================
