-------------------------------- MODULE GenFn --------------------------------
(* Calls of every built-in function, plain and with its namespace, and of    *)
(* functions the parser does not know, with every number of arguments up to  *)
(* a bound.  Arguments are distinct references, so that exchanged or lost    *)
(* ones show, apart from a bounded number of special ones.                   *)
EXTENDS Hosts, FiniteSets

Scale == atoi(IOEnv.SCALE)
Q(a, b) == IF Scale = 0 THEN a ELSE b

Up(s) == LET lo == "abcdefghijklmnopqrstuvwxyz"
             hi == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
         IN IF \E i \in 1..26 : Chr(lo, i) = Chr(s, 1)
            THEN Chr(hi, CHOOSE i \in 1..26 : Chr(lo, i) = Chr(s, 1)) \o SubSeq(s, 2, Len(s)) ELSE s
Builtins == DOMAIN Builtin
\* names that only look like those of built-in functions
Lookalikes == UNION {{b \o "2", "_" \o b, "my" \o Up(b), Up(b), b \o "_", "sys." \o Up(b), "az." \o b \o "2", "sys" \o b, b \o b, SubSeq(b, 1, Len(b) - 1)} : b \in Builtins}
  \union {"az." \o b : b \in DOMAIN SysFns} \union {"sys." \o b : b \in DOMAIN AzFns}
  \union {"foo", "f", "_", "sys.foo", "az.foo", "sys.a_1", "sys.sysfoo", "sys.azfoo", "az.azfoo", "az.sysfoo", "sys.sys", "az.az", "sys.az", "az.sys", "sys_foo", "az_foo", "sys.concat2", "az.resourceGroup2", "toObject", "map", "reduce", "sort", "items", "cidrSubnet", "list", "listSecrets", "getSecret",
          "sysx", "az_", "readEnvironmentVariable", "nameof", "fail", "if2", "for1", "objectKeys"}
Unknown == {n \in Lookalikes : n \notin DOMAIN FnTable}
Names == DOMAIN FnTable \union Unknown

Special == {
  <<Num("0", "0")>>, <<Id("false")>>, <<Id("null")>>, <<Str("")>>, <<T("["), T("]")>>, <<T("{"), T("}")>>, <<T("-"), Num("1", "1")>>,
  <<Str("q")>>, <<Tok("ml", "'''m'''", "m", 0)>>, <<Fn("newGuid"), T(")")>>, <<Fn("g"), Id("x"), T(","), Num("0", "0"), T(")")>>, <<Id("x"), T("=>"), Id("x")>>,
  <<Id("x"), T("."), Id("y")>>, <<Id("x"), T("."), Fn("listKeys"), T(")")>>, <<Id("x"), T("+"), Id("y")>>, <<T("!"), Id("x")>>, <<T("("), Id("x"), T(")")>>,
  <<Id("x"), T("?"), Num("0", "0"), T(":"), Id("y")>>, <<T("["), Id("x"), T(","), Id("y"), T("]")>>, <<T("{"), Id("k"), T(":"), Id("x"), T("}")>>}
Falsy == {<<Num("0", "0")>>, <<Id("false")>>, <<Id("null")>>, <<Str("")>>, <<T("["), T("]")>>, <<T("{"), T("}")>>}
Plain(i) == <<Id("a" \o ToString(i))>>

\* lay 0: on one line, 1: with line breaks and comments where a call admits them
VARIABLES name, args, special, lay
vars == <<name, args, special, lay>>

Known(n) == n \in DOMAIN FnTable
\* the number of arguments explored
Bound(n) == IF Known(n) THEN (IF Builtin[FnTable[n]].rest # "" THEN Q(6, 8) ELSE MaxArgs(FnTable[n])) ELSE IF n \in {"foo", "_", "sys.foo"} THEN Q(5, 7) ELSE Q(2, 3)
Rare(n) == ~Known(n) /\ n \notin {"foo", "_", "sys.foo"}

Init == name \in Names /\ args = <<>> /\ special = 0 /\ lay \in {0, 1}

\* functions with any number of arguments, far beyond the bound: all distinct, and one that is falsy
Endless(n) == n \in {"foo", "sys.foo"} \/ (Known(n) /\ Builtin[FnTable[n]].rest # "")
Many == /\ Endless(name) /\ lay = 0 /\ special = 0 /\ Len(args) >= Bound(name) /\ Len(args) < Q(13, 34)
        /\ \/ args' = Append(args, Plain(Len(args) + 1)) /\ special' = special
           \/ \E x \in Falsy : args' = Append(args, x) /\ special' = 3
        /\ UNCHANGED <<name, lay>>
Few ==  /\ special < 3
        /\ Len(args) < (IF special = 0 THEN Bound(name)
                         ELSE IF special = 1 /\ lay = 0 /\ \E i \in 1..Len(args) : args[i] \in Falsy THEN Bound(name)
                         ELSE IF Bound(name) > Q(4, 6) THEN Q(4, 6) ELSE Bound(name))
        /\ \/ args' = Append(args, Plain(Len(args) + 1)) /\ special' = special
           \/ /\ special = 0 /\ lay = 0
              /\ \E x \in IF Rare(name) THEN Falsy ELSE Special : args' = Append(args, x)
              /\ special' = 1
           \/ /\ special = 1 /\ lay = 0 /\ ~Rare(name) /\ Len(args) < Q(2, 4)
              /\ \E x \in Falsy : args' = Append(args, x)
              /\ special' = 2
        /\ UNCHANGED <<name, lay>>
Next == Few \/ Many
Spec == Init /\ [][Next]_vars

Cm(x, n) == Tok("nl", x, "cm", n)
Brk(i) == IF lay = 0 THEN <<>> ELSE CASE i = 1 -> <<Nl>> [] i = 2 -> <<Cm("// c" \o Lf, 1)>> [] OTHER -> <<Cm(Lf \o "// c, d)" \o Lf \o " ", 2)>>
RECURSIVE List(_)
\* line breaks are admitted before the first operand and before simple ones
List(i) == IF i > Len(args) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<T(",")>> \o (IF lay = 1 /\ i % 2 = 0 THEN <<Nl>> ELSE <<>>)) \o args[i] \o List(i + 1)
Call == <<Fn(name)>> \o (IF args = <<>> THEN <<>> ELSE Brk(1)) \o List(1) \o (IF args = <<>> THEN Brk(2) ELSE Brk(3)) \o <<T(")")>>

Doc(h) == LET toks == h.pre \o Call \o h.suf
              r == Run(Fresh, toks, 1)
          IN IF r.err = "" /\ r.done THEN EmitDoc(h.name, toks, r)
             ELSE IF IsOpen(r) THEN TRUE
             ELSE EmitBad(h.name, toks, r.err)
Wide == {"var", "arrcomma", "objcomma", "fn2", "left", "right", "then", "not", "idx", "filter", "deco", "lam1", "resprop", "child", "param", "func", "iter"}
Out == /\ Doc(HostVar)
       /\ (special = 0 /\ Known(name) /\ Len(args) <= Bound(name)) => Doc(InVar("post", <<>>, <<T("."), Id("p"), T("["), Num("0", "0"), T("]")>>))
       /\ (special = 0 /\ (Known(name) \/ name = "foo") /\ lay = 0 /\ Len(args) <= Bound(name)) => \A w \in Wide : Doc(HostNamed(w))

\* what a call is said to report: every argument once, in the slots of its position, the rest null
Values(pairs) == {pairs[i][2] : i \in 1..Len(pairs)}
Complete == LET given == [i \in 1..Len(args) |-> E("a" \o ToString(i))]
                f == CallResult(name, given)[2][1][2][2]     \* type and parameters
            IN (special = 0 /\ CallOk(name, Len(args)) /\ Len(f) = 2) =>
               LET ps == f[2][2][2] IN
               /\ \A i \in 1..Len(args) : Cardinality({j \in 1..Len(ps) : ps[j][2] = given[i]}) = 1
               /\ Cardinality({ps[j][1] : j \in 1..Len(ps)}) = Len(ps)
Same == (Known(name) /\ CallOk(name, Len(args))) =>
   CallResult(name, [i \in 1..Len(args) |-> E("a")]) = CallResult(FnTable[name], [i \in 1..Len(args) |-> E("a")])
=============================================================================
