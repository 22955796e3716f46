-------------------------------- MODULE Sched --------------------------------
(* Calls in several threads.  A call reads its template declaration by       *)
(* declaration into a state of its own and hands out what it has collected.  *)
(* Between any two steps another thread may run.  The number of steps of a   *)
(* call is that of the code under test (events counted when the template was *)
(* parsed alone); a schedule says which thread runs for how many steps.      *)
EXTENDS Emit, FiniteSets

Pool == ndJsonDeserialize(IOEnv.BASES)       \* [id, toks, steps]
Scale == atoi(IOEnv.SCALE)
Stride == atoi(IOEnv.STRIDE)
Stop == IOEnv.STOP = "1"                      \* the first call is stopped from outside (an interrupt), the second follows
MaxRuns == atoi(IOEnv.RUNS)                  \* uninterrupted runs of a schedule

T0 == 1..Len(Pool)
\* evaluated once
ASSUME TLCSet(1, [t \in T0 |-> LET r == Run(Fresh, Pool[t].toks, 1) IN
  IF r.err = "" /\ r.done THEN [ok |-> TRUE, tree |-> "ok", e |-> Elements(r)] ELSE [ok |-> FALSE, tree |-> "any", e |-> <<>>]])
Outcome == TLCGet(1)

\* two calls: templates, and whether they use the same parser object
Pairs == {<<a, b>> \in T0 \X T0 : Pool[a].pair = 1 /\ Pool[b].pair >= 1}

VARIABLES pair, same, pc, st, out, cur, runs, hist
vars == <<pair, same, pc, st, out, cur, runs, hist>>
Th == {1, 2}
Steps(i) == Pool[pair[i]].steps
Toks(i) == Pool[pair[i]].toks
\* the tokens a call has read after n of its steps
Upto(i, n) == IF n >= Steps(i) THEN Len(Toks(i)) ELSE (n * Len(Toks(i))) \div Steps(i)

Init == /\ pair \in Pairs /\ same \in (IF Stop THEN {TRUE} ELSE {TRUE, FALSE})
        /\ pc = <<0, 0>> /\ st = <<Fresh, Fresh>> /\ out = <<"", "">>
        /\ cur = 0 /\ runs = 0 /\ hist = <<>>

RECURSIVE Feed(_, _, _, _)
Feed(s, toks, i, n) == IF i > n \/ s.err # "" THEN s ELSE Feed(Consume(s, toks[i]), toks, i + 1, n)

\* thread i runs for n steps, or to the end
Go(i, n) ==
  LET to == IF pc[i] + n > Steps(i) THEN Steps(i) ELSE pc[i] + n
      s == Feed(st[i], Toks(i), Upto(i, pc[i]) + 1, Upto(i, to))
  IN /\ pc' = [pc EXCEPT ![i] = to]
     /\ st' = [st EXCEPT ![i] = s]
     /\ out' = [out EXCEPT ![i] = IF to < Steps(i) THEN "" ELSE IF s.err = "" /\ s.done THEN "ok" ELSE "err"]
     /\ hist' = Append(hist, <<i, to - pc[i]>>)
     /\ cur' = i /\ runs' = runs + 1 /\ UNCHANGED <<pair, same>>
\* what the stopped call has read is lost
Stopped == /\ out' = [out EXCEPT ![1] = "stopped"] /\ pc' = [pc EXCEPT ![1] = Steps(1)] /\ hist' = Append(hist, <<1, -1>>)
           /\ cur' = 1 /\ runs' = runs + 1 /\ UNCHANGED <<pair, same, st>>
Next == IF Stop THEN
          CASE runs = 0 -> \E k \in {k \in 1..(Steps(1) - 1) : k % Stride = (pair[1] + pair[2]) % Stride} : Go(1, k)
            [] runs = 1 -> Stopped
            [] runs = 2 -> Go(2, Steps(2))
            [] OTHER -> FALSE
        ELSE \E i \in Th :
          /\ i # cur /\ pc[i] < Steps(i)
          \* the last runs go to the end, all others may end anywhere
          /\ IF runs >= MaxRuns - 2 \/ pc[3 - i] = Steps(3 - i) THEN Go(i, Steps(i) - pc[i])
             ELSE \E k \in 1..(Steps(i) - pc[i]) : (k % Stride = (Len(hist) + pair[1]) % Stride \/ k = Steps(i) - pc[i]) /\ Go(i, k)
Spec == Init /\ [][Next]_vars

Over == \A i \in Th : pc[i] = Steps(i)
\* whatever the schedule, each call ends as it does alone
NonInterference == \A i \in Th : out[i] \notin {"", "stopped"} => (/\ (out[i] = "ok") = Outcome[pair[i]].ok
                                                 /\ (Outcome[pair[i]].ok => Elements(st[i]) = Outcome[pair[i]].e))
Out == /\ hist = <<>> => PrintT("TABLE " \o ToJson([t \in T0 |-> Outcome[t]]))
       /\ Over => PrintT("DOC " \o ToJson([id |-> "schedule", pair |-> pair, same |-> same, sched |-> hist, ok |-> TRUE, t |-> <<>>]))
=============================================================================
