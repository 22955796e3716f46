------------------------------- MODULE Bicep --------------------------------
(* The template language as a deterministic pushdown machine: Consume(s, t)  *)
(* is the state after token t.  The same machine is driven by a generator    *)
(* (Gen*.tla: the specification chooses the tokens), by corrupted token      *)
(* sequences (Corrupt.tla) and by tokens of recorded executions              *)
(* (TraceDoc.tla: the implementation's runs choose the tokens).              *)
(*                                                                           *)
(* A token is a record                                                       *)
(*   c: class - "id", "int", "str", "ml" (multi-line string), "fn" (a name   *)
(*      with its opening parenthesis), "nl" (a line break, possibly with     *)
(*      comments), "eof", or the punctuation character itself                *)
(*   x: the text as written                                                  *)
(*   v: payload - name, numeral, string content, "nl" / "cm" for line breaks *)
(*   n: number of line breaks in the text                                    *)
(*                                                                           *)
(* ctl is the control stack, top first.  Frames are records with a kind k.   *)
EXTENDS ModPath

DeclKw == DOMAIN Category
Tok(c, x, v, n) == [c |-> c, x |-> x, v |-> v, n |-> n]
Letters == {Chr("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", i) : i \in 1..52}
IsAccessorName(n) == n = "getSecret" \/ ((StartsWith(n, "list") \/ StartsWith(n, "List")) /\ \A i \in 1..Len(n) : Chr(n, i) \in Letters)

Fresh == [ctl |-> <<[k |-> "top"]>>, els |-> <<>>, imps |-> <<>>, kids |-> <<>>, kidsKF |-> <<>>,
          line |-> 1, last |-> 1, done |-> FALSE, err |-> ""]

Top(s) == Head(s.ctl)
Push(s, f) == [s EXCEPT !.ctl = <<f>> \o @]
Pop(s) == [s EXCEPT !.ctl = Tail(@)]
Repl(s, f) == [s EXCEPT !.ctl = <<f>> \o Tail(@)]
Err(s, why) == [s EXCEPT !.err = why]
\* neither claimed to be accepted nor to be refused
LeftOpen(s, why) == Err(s, "open: " \o why)
IsOpen(s) == SubSeq(s.err, 1, 5) = "open:"

\* lp: a loop may stand here, cd: a deployment condition may stand here,
\* body: an object here is the body of a resource
\* nl: a line break has been read, only a simple operand may follow
\* bo: nothing but an object (or a loop / condition, where they may stand)
Val(lp, cd, body) == [k |-> "val", lp |-> lp, cd |-> cd, body |-> body, nl |-> "", bo |-> FALSE]
BodyVal(lp, cd, body) == [Val(lp, cd, body) EXCEPT !.bo = TRUE]
PlainVal == Val(FALSE, FALSE, FALSE)
Post(v, fin) == [k |-> "post", v |-> v, fin |-> fin, bang |-> FALSE]

NestKinds == {"bin", "pre", "cond1", "cond2", "prop", "nest", "lam"}
RECURSIVE HostIdx(_, _)
HostIdx(ctl, i) == IF ctl[i].k \in NestKinds THEN HostIdx(ctl, i + 1) ELSE i
RECURSIVE DeclIdx(_, _)
DeclIdx(ctl, i) == IF ctl[i].k \in {"decl", "top", "decl0"} THEN i ELSE DeclIdx(ctl, i + 1)
RECURSIVE OwnerIdx(_, _)
OwnerIdx(ctl, i) == IF ctl[i].k = "decl" THEN i ELSE OwnerIdx(ctl, i + 1)

Build(f, v) ==
  CASE f.k = "bin" -> Oper(BinType[f.op], <<<<"operand_1", f.l>>, <<"operand_2", v>>>>)
    [] f.k = "pre" -> IF f.op = "!" THEN Oper("not", <<<<"bool_value", v>>>>)
                      ELSE Oper("minus", <<<<"integer_value", v>>>>)
    [] f.k = "cond2" -> Oper("conditional", <<<<"condition", f.c>>, <<"true_value", f.l>>, <<"false_value", v>>>>)
    [] f.k = "prop" -> Oper("property_accessor", <<<<"operand_1", f.l>>, <<"operand_2", v>>>>)
    [] f.k = "nest" -> Oper("nested_resource_accessor", <<<<"operand_1", f.l>>, <<"operand_2", v>>>>)
    [] f.k = "lam" -> D(<<<<"type", S("lambda_expression")>>,
                          <<"detail", D([i \in 1..Len(f.vars) |-> <<"var_" \o ToString(i), S(f.vars[i][2])>>]
                                        \o <<<<"expression", v>>>>)>>>>)

\* a user's object: a repeated key keeps its place and takes the last value
PutPair(pairs, key, v) ==
  IF \E i \in 1..Len(pairs) : pairs[i][1] = key
  THEN [i \in 1..Len(pairs) |-> IF pairs[i][1] = key THEN <<key, v>> ELSE pairs[i]]
  ELSE Append(pairs, <<key, v>>)

AddDepends(cfg, parent) ==
  LET p == cfg[2]
      at == {i \in 1..Len(p) : p[i][1] = "depends_on"}
      given(v) == IF v[1] = "a" THEN v[2] ELSE <<v>>
  IN IF at # {} THEN LET i == CHOOSE i \in at : TRUE IN
                     <<cfg[1], [p EXCEPT ![i] = <<"depends_on", A(Append(given(@[2]), E(parent)))>>]>>
     ELSE <<cfg[1], Append(p, <<"depends_on", A(<<E(parent)>>)>>)>>

(* nested resources: pre-order list of full entries.  With lastOnly the      *)
(* known deviation of the implementation: of several nested resources of one *)
(* resource only the last one is reported.                                   *)
RECURSIVE Flatten(_, _, _, _, _)
Flatten(pname, ptype, api, kids, lastOnly) ==
  IF kids = <<>> THEN <<>>
  ELSE IF lastOnly /\ Len(kids) > 1 THEN Flatten(pname, ptype, api, <<kids[Len(kids)]>>, lastOnly)
  ELSE LET c == Head(kids)
           name == pname \o "__" \o c.name
           type == ptype \o "/" \o c.type
           el == [cat |-> "resources", name |-> name, sl |-> c.sl, el |-> c.el,
                  attrs |-> D(<<<<"decorators", A(<<>>)>>, <<"type", S(type)>>, <<"api_version", S(api)>>,
                              <<"existing", B(c.existing)>>, <<"config", AddDepends(c.config, pname)>>>>)]
       IN <<el>> \o Flatten(name, type, api, c.kids, lastOnly) \o Flatten(pname, ptype, api, Tail(kids), lastOnly)

Fld(d, n) == n \in DOMAIN d.f
Get(d, n, default) == IF Fld(d, n) THEN d.f[n] ELSE default

PyStr(v) == CASE v[1] = "b" -> IF v[2] = "true" THEN "True" ELSE "False"
              [] v[1] = "n" -> "None"
              [] OTHER -> v[2]
RECURSIVE UnionFrom(_, _)
UnionFrom(vs, i) == PyStr(vs[i]) \o (IF i = Len(vs) THEN "" ELSE " | " \o UnionFrom(vs, i + 1))
\* a union with a structured member is reported as some string: left open here
Union(vs) == IF \A i \in 1..Len(vs) : vs[i][1] \in {"s", "e", "i", "b", "n"} THEN S(UnionFrom(vs, 1)) ELSE AnyStr

Header(d) == IF d.kind \in {"targetScope", "metadata", "extension", "import"} THEN <<>>
             ELSE <<<<"decorators", A(d.decos)>>>>

Element(d, s, name, attrs) ==
  [cat |-> Category[d.kind], name |-> name, sl |-> d.sl, el |-> s.last, attrs |-> D(Header(d) \o attrs)]

AddEl(s, e) == [Pop(s) EXCEPT !.els = Append(@, e)]
AddImps(s, es) == [Pop(s) EXCEPT !.imps = @ \o es]

ImportEls(d, s) ==
  IF ~Fld(d, "aliases") THEN <<Element(d, s, d.f.path, <<>>)>>
  ELSE [i \in 1..Len(d.f.aliases) |->
          LET a == d.f.aliases[i] IN
          Element(d, s, a.name, <<<<"file_path", S(d.f.path)>>>>
                                \o (IF a.alias = "" THEN <<>> ELSE <<<<"alias", S(a.alias)>>>>))]

Finish(s) ==
  LET d == Top(s) IN
  CASE d.kind = "targetScope" ->
         IF d.f.str \in Scopes THEN AddEl(s, Element(d, s, "scope", <<<<"value", S(d.f.str)>>>>))
         ELSE Err(s, "invalid scope")
    [] d.kind = "metadata" -> AddEl(s, Element(d, s, d.f.name, <<<<"value", S(d.f.str)>>>>))
    [] d.kind = "extension" ->
         AddEl(s, Element(d, s, d.f.name,
               (IF Fld(d, "config") THEN <<<<"config", d.f.config>>>> ELSE <<>>)
               \o (IF Fld(d, "alias") THEN <<<<"alias", S(d.f.alias)>>>> ELSE <<>>)))
    [] d.kind = "import" -> AddImps(s, ImportEls(d, s))
    [] d.kind = "param" ->
         AddEl(s, Element(d, s, d.f.name, <<<<"type", d.f.type>>, <<"default", Get(d, "val", N)>>>>))
    [] d.kind = "var" ->
         AddEl(s, Element(d, s, d.f.name, <<<<"value", d.f.val>>>>
               \o (IF Fld(d, "type") THEN <<<<"type", d.f.type>>>> ELSE <<>>)))
    [] d.kind = "output" ->
         AddEl(s, Element(d, s, d.f.name, <<<<"type", d.f.type>>, <<"value", d.f.val>>>>))
    [] d.kind = "type" ->
         AddEl(s, Element(d, s, d.f.name,
               <<<<"value", IF Len(d.f.vals) = 1 THEN d.f.vals[1] ELSE Union(d.f.vals)>>>>))
    [] d.kind = "func" ->
         AddEl(s, Element(d, s, d.f.name, <<<<"args", O(d.f.args)>>, <<"type", d.f.type>>, <<"expression", d.f.val>>>>))
    [] d.kind = "module" ->
         LET m == Classify(d.f.str) IN
         IF m = Invalid THEN Err(s, "invalid module reference")
         ELSE AddEl(s, Element(d, s, d.f.name, m[2] \o <<<<"config", d.f.val>>>>))
    [] d.kind = "resource" ->
         LET pair == SplitAt(d.f.str, "@") IN
         IF Len(pair) # 2 THEN Err(s, "invalid resource type")
         ELSE LET e == Element(d, s, d.f.name,
                         <<<<"type", S(pair[1])>>, <<"api_version", S(pair[2])>>,
                           <<"existing", B(Get(d, "existing", "false"))>>, <<"config", d.f.val>>>>)
                  s2 == AddEl(s, e)
              IN [s2 EXCEPT !.kids = @ \o Flatten(d.f.name, pair[1], pair[2], d.kids, FALSE),
                            !.kidsKF = @ \o Flatten(d.f.name, pair[1], pair[2], d.kids, TRUE)]
    [] d.kind = "child" ->
         \* handed to the resource that contains it
         LET c == [name |-> d.f.name, type |-> d.f.str, existing |-> Get(d, "existing", "false"),
                   config |-> d.f.val, kids |-> d.kids, sl |-> d.sl, el |-> s.last]
             s2 == Pop(s)
             i == OwnerIdx(s2.ctl, 1)
         IN [s2 EXCEPT !.ctl[i].kids = Append(@, c)]

Todo(kind) ==
  CASE kind = "targetScope" -> <<"eq", "str", "end">>
    [] kind = "metadata" -> <<"name", "eq", "str", "end">>
    [] kind = "extension" -> <<"name", "with", "as", "end">>
    [] kind = "import" -> <<"imp", "end">>
    [] kind = "param" -> <<"name", "dt", "q", "eqopt", "end">>
    [] kind = "var" -> <<"name", "tyopt", "eq", "val", "end">>
    [] kind = "output" -> <<"name", "dt", "q", "eq", "val", "end">>
    [] kind = "type" -> <<"name", "eq", "tval", "end">>
    [] kind = "func" -> <<"fname", "fargs", "dt", "arrow", "val", "end">>
    [] kind = "module" -> <<"name", "str", "eq", "val", "end">>
    [] kind = "resource" -> <<"name", "str", "ex", "eq", "val", "end">>
    [] kind = "child" -> <<"name", "str", "ex", "eq", "val", "end">>

Decl(kind, decos, sl) ==
  [k |-> "decl", kind |-> kind, decos |-> decos, sl |-> sl, todo |-> Todo(kind),
   f |-> [x \in {} |-> ""], kids |-> <<>>]

ValOf(d) ==
  CASE d.kind \in {"var", "output"} -> Val(TRUE, FALSE, FALSE)
    [] d.kind \in {"resource", "child", "module"} -> BodyVal(TRUE, TRUE, d.kind # "module")
    [] d.kind = "extension" -> BodyVal(FALSE, FALSE, FALSE)
    [] OTHER -> PlainVal

OperandStart == {"id", "int", "str", "ml", "fn", "(", "[", "{", "!", "-"}

RECURSIVE Step(_, _), Reduce(_, _, _, _), Deliver(_, _, _, _)

(* the operand v is complete; it goes to the innermost open construct, t is  *)
(* the token that shows this                                                 *)
Reduce(s, v, t, fin) ==
  LET f == Top(s) IN
  IF f.k = "cond1"
  THEN IF t.c = ":" THEN Push(Repl(s, [k |-> "cond2", c |-> f.l, l |-> v]), PlainVal)
       ELSE Err(s, "conditional without alternative")
  ELSE IF f.k \in NestKinds THEN Reduce(Pop(s), Build(f, v), t, fin)
  ELSE Deliver(s, v, t, fin)

CloseBracket(s, v) == Push(Pop(s), Post(v, Top(s).k = "obj" /\ Top(s).bo))

Deliver(s, v, t, fin) ==
  LET f == Top(s) IN
  CASE f.k = "par" ->
         IF t.c = ")" THEN CloseBracket(s, v)
         ELSE IF t.c = "," /\ v[1] = "e" THEN Push(Repl(s, [k |-> "lamargs", vars |-> <<v>>]), PlainVal)
         ELSE Err(s, "parenthesis not closed")
    [] f.k = "lamargs" ->
         IF t.c = "," /\ v[1] = "e" THEN Push(Repl(s, [f EXCEPT !.vars = Append(@, v)]), PlainVal)
         ELSE IF t.c = ")" /\ v[1] = "e" THEN Repl(s, [k |-> "lamarrow", vars |-> Append(f.vars, v)])
         ELSE Err(s, "lambda variables not closed")
    [] f.k = "idx" ->
         IF t.c = "]" THEN CloseBracket(s, Oper("index_accessor", <<<<"operand_1", f.l>>, <<"operand_2", v>>>>))
         ELSE Err(s, "index not closed")
    [] f.k = "fn" ->
         CASE t.c = "," -> Repl(s, [f EXCEPT !.args = Append(@, v), !.st = "arg"])
           [] t.c = ")" -> Step(Repl(s, [f EXCEPT !.args = Append(@, v), !.st = "close"]), t)
           [] t.c = "nl" -> Repl(s, [f EXCEPT !.args = Append(@, v), !.st = "close"])
           [] OTHER -> Err(s, "call not closed")
    [] f.k = "arr" ->
         LET g == [f EXCEPT !.items = Append(@, v)] IN
         CASE t.c = "," -> Push(Repl(s, [g EXCEPT !.st = "item"]), PlainVal)
           [] t.c = "nl" -> Repl(s, [g EXCEPT !.st = "sep"])
           [] t.c = "]" -> CloseBracket(s, A(g.items))
           \* accepted, although no template should be written like this
           [] t.c \in OperandStart -> LeftOpen(s, "array items without separator")
           [] OTHER -> Err(s, "array not closed")
    [] f.k = "obj" ->
         LET g == [f EXCEPT !.pairs = PutPair(@, f.key, v), !.key = "", !.st = "sep"] IN
         CASE t.c = "," -> Repl(s, [g EXCEPT !.st = "key"])
           [] t.c \in {"nl", "}"} -> Step(Repl(s, g), t)
           [] t.c \in {"id", "str"} -> LeftOpen(s, "properties without separator")
           [] OTHER -> Err(s, "object not closed")
    [] f.k = "loop" ->
         CASE f.st = "array" /\ t.c = ":" -> Repl(s, [f EXCEPT !.it = v, !.st = "cond"])
           [] f.st = "items" /\ t.c = ")" -> Repl(s, [f EXCEPT !.it = v, !.st = "colon"])
           [] f.st = "if" /\ t.c = ")" -> Repl(s, [f EXCEPT !.cond = v, !.st = "body"])
           [] f.st = "body" /\ t.c \in {"nl", "]"} -> Step(Repl(s, [f EXCEPT !.val = v, !.st = "close"]), t)
           [] OTHER -> Err(s, "loop malformed")
    [] f.k = "ifc" ->
         IF f.st = "if" THEN IF t.c = ")" THEN Push(Repl(s, [f EXCEPT !.cond = v, !.st = "body"]), Val(FALSE, FALSE, f.body))
                             ELSE Err(s, "condition not closed")
         ELSE Step(Push(Pop(s), Post(D(<<<<"condition", f.cond>>, <<"config", v>>>>), TRUE)), t)
    [] f.k = "deco" ->
         LET g == [f EXCEPT !.args = Append(@, v), !.st = "close"] IN
         IF t.c \in {")", "nl"} THEN Step(Repl(s, g), t) ELSE Err(s, "decorator not closed")
    [] f.k = "decl" ->
         CASE Head(f.todo) = "tval" ->
                LET vals == Append(Get(f, "vals", <<>>), v) IN
                IF t.c = "|" THEN Push(Repl(s, [f EXCEPT !.f = ("vals" :> vals) @@ @]), PlainVal)
                ELSE Step(Repl(s, [f EXCEPT !.f = ("vals" :> vals) @@ @, !.todo = Tail(@)]), t)
           [] Head(f.todo) = "config" ->
                Step(Repl(s, [f EXCEPT !.f = ("config" :> v) @@ @, !.todo = Tail(@)]), t)
           [] OTHER -> Step(Repl(s, [f EXCEPT !.f = ("val" :> v) @@ @, !.todo = Tail(@)]), t)
    [] OTHER -> Err(s, "value out of place")

(* an operand is expected *)
StepVal(s, t) ==
  LET f == Top(s)
      r == Pop(s)
      below == Top(r)
      done(v) == Push(r, Post(v, FALSE))
      \* "key: type?" in an object: the marker is not the start of a conditional
      nullable == below.k = "cond1" /\ r.ctl[2].k = "obj" /\
                    \/ t.c \in {",", "}"}
                    \/ t.c = "nl" /\ r.ctl[DeclIdx(r.ctl, 1)].k = "decl" /\ r.ctl[DeclIdx(r.ctl, 1)].kind = "type"
      \* a line break after the "?" of a conditional in an object: reported as the known finding KF-03
      ambiguous == t.c = "nl" /\ below.k = "cond1" /\ r.ctl[HostIdx(r.ctl, 1)].k = "obj"
      afterDot == below.k = "prop"
  IN
  CASE nullable -> Reduce(Pop(r), below.l, t, FALSE)
    [] below.k = "cond1" /\ t.c \in {",", "}"} /\ r.ctl[HostIdx(r.ctl, 1)].k = "obj" -> LeftOpen(s, "marker after an expression")
    [] ambiguous -> LeftOpen(s, "line break after ? in an object")
    [] t.c = "fn" /\ afterDot /\ below.q -> LeftOpen(s, "safe access to a call")
    [] t.c = "nl" /\ f.nl = "" /\ (t.v = "nl" \/ f.cd) -> Push(r, [f EXCEPT !.nl = t.v])
    [] f.bo /\ ~(t.c = "{" \/ (t.c = "[" /\ f.lp) \/ (t.c = "fn" /\ t.v = "if" /\ f.cd)) -> Err(s, "body expected")
    [] f.nl = "cm" /\ ~(t.c = "fn" /\ t.v = "if") -> Err(s, "condition expected")
    [] f.nl = "nl" /\ t.c \notin {"id", "int", "str", "fn"} -> Err(s, "no line break before this operand")
    [] t.c = "id" /\ t.v \in {"true", "false"} -> done(B(t.v))
    [] t.c = "id" /\ t.v = "null" -> done(N)
    [] t.c = "id" -> done(E(t.v))
    [] t.c = "int" -> done(I(t.v))
    [] t.c \in {"str", "ml"} -> done(S(t.v))
    [] t.c = "fn" /\ t.v = "if" /\ f.cd -> Push(Push(r, [k |-> "ifc", st |-> "if", cond |-> N, body |-> f.body]), PlainVal)
    [] t.c = "fn" /\ afterDot /\ IsAccessorName(t.v) ->
         Push(Pop(r), [k |-> "fn", name |-> t.v, args |-> <<>>, acc |-> <<below.l>>, st |-> "first"])
    [] t.c = "fn" /\ t.x # t.v \o "(" -> Err(s, "no space between a name and its arguments")
    [] t.c = "fn" -> Push(r, [k |-> "fn", name |-> t.v, args |-> <<>>, acc |-> <<>>, st |-> "first"])
    [] t.c = "(" -> Push(Push(r, [k |-> "par"]), PlainVal)
    [] t.c = "[" -> Push(r, [k |-> "arr", items |-> <<>>, st |-> "open", lp |-> f.lp, body |-> f.body, nls |-> 0, bo |-> f.bo])
    [] t.c = "{" -> Push(r, [k |-> "obj", pairs |-> <<>>, key |-> "", st |-> "open", body |-> f.body, bo |-> f.bo])
    [] t.c \in {"!", "-"} -> Push(Push(r, [k |-> "pre", op |-> t.c]), PlainVal)
    [] t.c = "?" /\ afterDot /\ ~below.q -> Push(Push(Pop(r), [below EXCEPT !.q = TRUE]), PlainVal)
    [] t.c = "?" /\ below.k = "idx" /\ ~below.q -> Push(Push(Pop(r), [below EXCEPT !.q = TRUE]), PlainVal)
    [] OTHER -> Err(s, "operand expected")

Goes(t) == t.c \in BinOps \union {"?", ".", "::", "[", "=>"}
(* an operand has just been read *)
StepPost(s, t) ==
  LET f == Top(s)
      r == Pop(s)
      go(frame) == Push(Push(r, frame), PlainVal)
  IN
  IF f.fin THEN Reduce(r, f.v, t, TRUE)
  ELSE IF Goes(t) /\ f.v[1] = "o" /\ Top(r).k \in {"loop", "ifc"} /\ Top(r).body /\ r.ctl[OwnerIdx(r.ctl, 1)].kids # <<>>
  THEN LeftOpen(s, "operator after the body of a resource")
  ELSE
  CASE t.c \in BinOps -> go([k |-> "bin", op |-> t.c, l |-> f.v])
    [] t.c = "?" -> go([k |-> "cond1", l |-> f.v])
    [] t.c = "." -> go([k |-> "prop", l |-> f.v, q |-> FALSE])
    [] t.c = "::" -> go([k |-> "nest", l |-> f.v])
    [] t.c = "[" -> go([k |-> "idx", l |-> f.v, q |-> FALSE])
    [] t.c = "!" -> IF f.bang THEN LeftOpen(s, "repeated marker") ELSE Repl(s, [f EXCEPT !.bang = TRUE])
    [] t.c = "=>" -> IF f.v[1] = "e" THEN go([k |-> "lam", vars |-> <<f.v>>]) ELSE Err(s, "lambda variable expected")
    [] OTHER -> Reduce(r, f.v, t, FALSE)

StepFn(s, t) ==
  LET f == Top(s) IN
  CASE t.c = ")" /\ f.st # "arg" ->
         IF f.acc # <<>>
         THEN CloseBracket(s, Oper("function_accessor",
                <<<<"operand_1", f.acc[1]>>, <<"func_name", S(f.name)>>>>
                \o [i \in 1..Len(f.args) |-> <<"operand_" \o ToString(i + 1), f.args[i]>>]))
         ELSE IF CallOk(f.name, Len(f.args)) THEN CloseBracket(s, CallResult(f.name, f.args))
         ELSE IF Len(f.args) > 0 /\ Len(f.args) >= MinArgs(FnTable[f.name]) THEN LeftOpen(s, "too many arguments")
         ELSE Err(s, "too few arguments")
    [] f.st = "close" -> Err(s, "call not closed")
    [] t.c = "nl" -> s
    [] OTHER -> Step(Push(Repl(s, [f EXCEPT !.st = "next"]), PlainVal), t)

StepArr(s, t) ==
  LET f == Top(s) IN
  CASE t.c = "nl" -> Repl(s, [f EXCEPT !.nls = @ + 1])
    [] t.c = "id" /\ t.v = "for" /\ f.st = "open" /\ f.lp /\ f.nls <= 1 ->
         Repl(s, [k |-> "loop", st |-> "item", vars |-> <<>>, it |-> N, cond |-> N, val |-> N,
                  items |-> FALSE, body |-> f.body])
    [] f.bo -> Err(s, "loop expected")
    [] t.c = "]" -> CloseBracket(s, A(f.items))
    [] t.c \in OperandStart -> Step(Push(Repl(s, [f EXCEPT !.st = "item"]), PlainVal), t)
    [] OTHER -> Err(s, "array item expected")

StepObj(s, t) ==
  LET f == Top(s) IN
  CASE t.c = "nl" /\ f.st \in {"open", "sep"} -> s
    [] t.c = "}" /\ f.st \in {"open", "sep"} -> CloseBracket(s, O(f.pairs))
    [] f.st = "colon" /\ t.c = ":" -> Push(Repl(s, [f EXCEPT !.st = "value"]), Val(TRUE, FALSE, FALSE))
    [] f.st = "colon" /\ f.key = "resource" /\ t.c = "id" /\ f.quiet /\ ~f.body -> LeftOpen(s, "nested resource outside of a resource body")
    [] f.st = "colon" /\ f.key = "resource" /\ t.c = "id" /\ f.quiet ->
         Step(Push(Repl(s, [f EXCEPT !.key = "", !.st = "sep"]), Decl("child", <<>>, f.ksl)), t)
    [] f.st \in {"open", "sep", "key"} /\ t.c = "id" -> Repl(s, (("ksl" :> s.line) @@ ("quiet" :> (f.st # "key")) @@ [f EXCEPT !.st = "colon", !.key = t.v]))
    [] f.st \in {"open", "sep", "key"} /\ t.c = "str" -> Repl(s, (("ksl" :> s.line) @@ ("quiet" :> FALSE) @@ [f EXCEPT !.st = "colon", !.key = t.x]))
    [] OTHER -> Err(s, "property expected")

LoopResult(f) ==
  D(<<<<"loop_type",
        IF f.items THEN D(<<<<"type", S("object")>>, <<"detail", D(<<<<"item_name", S(f.vars[1])>>, <<"object_name", f.it>>>>)>>>>)
        ELSE IF Len(f.vars) = 1
        THEN D(<<<<"type", S("array")>>, <<"detail", D(<<<<"item_name", S(f.vars[1])>>, <<"array_name", f.it>>>>)>>>>)
        ELSE D(<<<<"type", S("array_index")>>,
                 <<"detail", D(<<<<"item_name", S(f.vars[1])>>, <<"index_name", S(f.vars[2])>>, <<"array_name", f.it>>>>)>>>>)>>,
      <<"condition", f.cond>>, <<"config", f.val>>>>)

StepLoop(s, t) ==
  LET f == Top(s)
      to(st) == Repl(s, [f EXCEPT !.st = st])
      var(st) == Repl(s, [f EXCEPT !.st = st, !.vars = Append(@, t.v)])
  IN
  CASE f.st = "item" /\ t.c = "id" -> var("in")
    [] f.st = "item" /\ t.c = "(" -> to("p1")
    [] f.st = "p1" /\ t.c = "id" -> var("p2")
    [] f.st = "p2" /\ t.c = "," -> to("p3")
    [] f.st = "p3" /\ t.c = "id" -> var("p4")
    [] f.st = "p4" /\ t.c = ")" -> to("in")
    [] f.st = "in" /\ t.c = "id" /\ t.v = "in" -> to("array")
    [] f.st = "array" /\ t.c = "items" /\ Len(f.vars) = 1 ->
         Push(Repl(s, [f EXCEPT !.st = "items", !.items = TRUE]), PlainVal)
    [] f.st = "array" -> Step(Push(s, PlainVal), t)
    [] f.st = "colon" /\ t.c = ":" -> to("cond")
    [] f.st = "cond" /\ t.c = "nl" /\ t.v = "nl" -> to("condnl")
    [] f.st \in {"cond", "condnl"} /\ t.c = "fn" /\ t.v = "if" -> Push(to("if"), PlainVal)
    [] f.st = "condnl" -> Step(Push(to("body"), [Val(FALSE, FALSE, f.body) EXCEPT !.nl = "nl"]), t)
    [] f.st = "cond" -> Step(Push(to("body"), Val(FALSE, FALSE, f.body)), t)
    [] f.st = "body" -> Step(Push(s, Val(FALSE, FALSE, f.body)), t)
    [] f.st = "close" /\ t.c = "nl" -> Repl(s, [f EXCEPT !.st = "close2"])
    [] f.st \in {"close", "close2"} /\ t.c = "]" -> Push(Pop(s), Post(LoopResult(f), TRUE))
    [] OTHER -> Err(s, "loop malformed")

StepDeco(s, t) ==
  LET f == Top(s) IN
  CASE f.st = "name" /\ t.c = "fn" -> Repl(s, [f EXCEPT !.name = t.v, !.st = "open"])
    [] f.st \in {"open", "close"} /\ t.c = "nl" -> s
    [] f.st \in {"open", "close"} /\ t.c = ")" ->
         IF ~DecoOk(f.name, Len(f.args)) THEN IF f.args = <<>> THEN Err(s, "decorator argument missing") ELSE LeftOpen(s, "surplus decorator argument")
         ELSE LET r == Pop(s) IN Repl(r, [Top(r) EXCEPT !.decos = Append(@, DecoResult(f.name, f.args))])
    [] f.st = "open" -> Step(Push(s, PlainVal), t)
    [] OTHER -> Err(s, "decorator malformed")

Decorable == {"param", "var", "output", "resource", "module", "type", "func"}
NewDeco == [k |-> "deco", st |-> "name", name |-> "", args |-> <<>>]

StepTop(s, t) ==
  CASE t.c = "nl" -> s
    [] t.c = "eof" -> [s EXCEPT !.done = TRUE]
    [] t.c = "@" -> Push(Push(s, [k |-> "decl0", decos |-> <<>>, sl |-> s.line]), NewDeco)
    [] t.c = "id" /\ t.v \in DeclKw -> Push(s, Decl(t.v, <<>>, s.line))
    [] OTHER -> Err(s, "declaration expected")

StepDecl0(s, t) ==
  LET f == Top(s) IN
  CASE t.c = "nl" -> s
    [] t.c = "@" -> Push(s, NewDeco)
    [] t.c = "id" /\ t.v \in Decorable -> Repl(s, Decl(t.v, f.decos, f.sl))
    [] OTHER -> Err(s, "decorated declaration expected")

(* data types *)
StepDt(s, t) ==
  LET f == Top(s)
      r == Pop(s)
      below == Top(r)
      done == CASE below.k = "decl" -> Step(Repl(r, [below EXCEPT !.f = ("type" :> f.v) @@ @]), t)
                [] below.k = "fargs" -> Step(Repl(r, [below EXCEPT !.args = Append(@, <<below.name, f.v>>), !.st = "sep"]), t)
                [] below.k = "dtu" -> Step(Repl(r, [below EXCEPT !.ms = Append(@, f.v), !.st = "sep"]), t)
  IN
  CASE f.st = "base" /\ t.c = "id" -> Repl(s, [f EXCEPT !.v = S(t.v), !.st = "suffix"])
    [] f.st = "base" /\ t.c = "(" -> Push(Push(s, [k |-> "dtu", ms |-> <<>>, st |-> "open"]), [k |-> "dt", st |-> "base", v |-> N])
    [] f.st = "suffix" /\ t.c = "[" -> Repl(s, [f EXCEPT !.st = "close"])
    [] f.st = "close" /\ t.c = "]" ->
         Repl(s, [f EXCEPT !.st = "suffix", !.v = D(<<<<"type", S("array")>>, <<"item_type", f.v>>>>)])
    [] f.st = "suffix" -> done
    [] OTHER -> Err(s, "data type expected")

StepDtu(s, t) ==
  LET f == Top(s) IN
  CASE t.c = "|" -> Push(s, [k |-> "dt", st |-> "base", v |-> N])
    [] t.c = ")" /\ Len(f.ms) >= 2 ->
         LET r == Pop(s) IN
         Repl(r, [Top(r) EXCEPT !.st = "suffix", !.v = D(<<<<"type", S("union")>>, <<"members", A(f.ms)>>>>)])
    [] OTHER -> Err(s, "union type malformed")

NewDt == [k |-> "dt", st |-> "base", v |-> N]

StepFargs(s, t) ==
  LET f == Top(s) IN
  CASE t.c = ")" /\ f.st \in {"open", "sep"} ->
         IF \E i, j \in 1..Len(f.args) : i # j /\ f.args[i][1] = f.args[j][1] THEN LeftOpen(s, "repeated argument")
         ELSE LET r == Pop(s) IN Repl(r, [Top(r) EXCEPT !.f = ("args" :> f.args) @@ @])
    [] t.c = "id" /\ f.st \in {"open", "name"} -> Push(Repl(s, [f EXCEPT !.name = t.v, !.st = "type"]), NewDt)
    [] t.c = "," /\ f.st = "sep" -> Repl(s, [f EXCEPT !.st = "name"])
    [] OTHER -> Err(s, "function argument malformed")

StepImp(s, t) ==
  LET f == Top(s)
      full(a) == Append(f.as, a)
      isName == t.c = "id" \/ t.c = "*"
      finish == LET r == Pop(s) IN Repl(r, [Top(r) EXCEPT !.f = ("aliases" :> f.as) @@ ("path" :> t.v) @@ @])
  IN
  CASE f.st = "start" /\ t.c = "str" ->
         LET r == Pop(s) IN Repl(r, [Top(r) EXCEPT !.f = ("path" :> t.v) @@ @])
    [] f.st = "start" /\ t.c = "{" -> Repl(s, [f EXCEPT !.st = "name", !.br = TRUE])
    [] f.st \in {"start", "name"} /\ isName ->
         Repl(s, [f EXCEPT !.st = "as", !.as = Append(@, [name |-> t.v, alias |-> ""])])
    [] f.st = "as" /\ t.c = "id" /\ t.v = "as" -> Repl(s, [f EXCEPT !.st = "alias"])
    [] f.st = "alias" /\ t.c = "id" ->
         Repl(s, [f EXCEPT !.st = "sep", !.as[Len(f.as)].alias = t.v])
    [] f.st \in {"as", "sep"} /\ f.br /\ t.c = "," -> Repl(s, [f EXCEPT !.st = "name"])
    [] f.st \in {"as", "sep"} /\ f.br /\ t.c = "}" -> Repl(s, [f EXCEPT !.st = "from"])
    [] f.st \in {"as", "sep"} /\ ~f.br /\ t.c = "id" /\ t.v = "from" -> Repl(s, [f EXCEPT !.st = "path"])
    [] f.st = "from" /\ t.c = "id" /\ t.v = "from" -> Repl(s, [f EXCEPT !.st = "path"])
    [] f.st = "path" /\ t.c = "str" -> finish
    [] OTHER -> Err(s, "import malformed")

StepDecl(s, t) ==
  LET d == Top(s)
      step == Head(d.todo)
      skip == Repl(s, [d EXCEPT !.todo = Tail(@)])
      adv(fld, v) == Repl(s, [d EXCEPT !.todo = Tail(@), !.f = (fld :> v) @@ @])
      need(cond, next) == IF cond THEN next ELSE Err(s, d.kind \o ": " \o step \o " expected")
  IN
  CASE step = "name" -> need(t.c = "id", adv("name", t.v))
    [] step = "eq" -> need(t.c = "=", skip)
    [] step = "str" -> need(t.c = "str", adv(IF d.kind = "import" THEN "path" ELSE "str", t.v))
    [] step = "dt" -> Step(Push(skip, NewDt), t)
    [] step = "tyopt" -> IF t.c = "=" THEN Step(skip, t)
                         ELSE Step(Push(Repl(s, [d EXCEPT !.todo = <<"q">> \o Tail(@)]), NewDt), t)
    [] step = "q" -> IF t.c = "?" THEN skip ELSE Step(skip, t)
    [] step = "eqopt" -> IF t.c = "=" THEN Repl(s, [d EXCEPT !.todo = <<"val">> \o Tail(@)]) ELSE Step(skip, t)
    [] step = "ex" -> IF t.c = "id" /\ t.v = "existing" THEN adv("existing", "true") ELSE Step(skip, t)
    [] step \in {"val", "config"} -> Step(Push(s, ValOf(d)), t)
    [] step = "tval" -> Step(Push(s, PlainVal), t)
    [] step = "arrow" -> need(t.c = "=>", skip)
    [] step = "fname" -> need(t.c = "fn", adv("name", t.v))
    [] step = "fargs" -> Step(Push(skip, [k |-> "fargs", args |-> <<>>, st |-> "open", name |-> ""]), t)
    [] step = "imp" -> Step(Push(skip, [k |-> "imp", st |-> "start", as |-> <<>>, br |-> FALSE]), t)
    [] step = "with" -> IF t.c = "id" /\ t.v = "with" THEN Repl(s, [d EXCEPT !.todo = <<"config">> \o Tail(@)])
                        ELSE Step(skip, t)
    [] step = "as" -> IF t.c = "id" /\ t.v = "as" THEN Repl(s, [d EXCEPT !.todo = <<"alias">> \o Tail(@)])
                      ELSE Step(skip, t)
    [] step = "alias" -> need(t.c = "id", adv("alias", t.v))
    [] step = "end" -> LET r == Finish(s) IN
                       IF r.err # "" THEN r
                       ELSE IF d.kind = "child" /\ t.c \notin {"nl", "}", "id", "str"} THEN Err(s, "nested resource not closed")
                       ELSE IF t.c \in {"id", "str", "@"} THEN LeftOpen(s, "nothing between declarations")
                       ELSE Step(r, t)

Step(s, t) ==
  IF s.err # "" THEN s
  ELSE IF t.c = "bad" THEN Err(s, "no such token")
  ELSE LET k == Top(s).k IN
  CASE k = "val" -> StepVal(s, t)
    [] k = "post" -> StepPost(s, t)
    [] k = "fn" -> StepFn(s, t)
    [] k = "arr" -> StepArr(s, t)
    [] k = "obj" -> StepObj(s, t)
    [] k = "loop" -> StepLoop(s, t)
    [] k = "decl" -> StepDecl(s, t)
    [] k = "deco" -> StepDeco(s, t)
    [] k = "top" -> StepTop(s, t)
    [] k = "decl0" -> StepDecl0(s, t)
    [] k = "dt" -> StepDt(s, t)
    [] k = "dtu" -> StepDtu(s, t)
    [] k = "fargs" -> StepFargs(s, t)
    [] k = "imp" -> StepImp(s, t)
    [] k = "lamarrow" -> IF t.c = "=>" THEN Push(Repl(s, [k |-> "lam", vars |-> Top(s).vars]), PlainVal)
                         ELSE Err(s, "=> expected")

Layout(t) == t.c \in {"nl", "ws", "eof"}

(* one token: the transition function of the machine *)
Consume(s, t) ==
  LET r == IF t.c = "ws" THEN s ELSE Step(s, t)
      end == s.line + t.n
  IN [r EXCEPT !.line = end, !.last = IF Layout(t) THEN @ ELSE end]

RECURSIVE Run(_, _, _)
Run(s, toks, i) == IF i > Len(toks) \/ s.err # "" THEN s ELSE Run(Consume(s, toks[i]), toks, i + 1)

(***************************** the whole result ****************************)
\* of several declarations of one name in one category the last one counts
Resolve(q) ==
  LET keep == {i \in 1..Len(q) : ~\E j \in (i + 1)..Len(q) : q[j].cat = q[i].cat /\ q[j].name = q[i].name}
      \* the position among the entries of the category is left open for repeated names
      again(i) == \E j \in 1..(i - 1) : q[j].cat = q[i].cat /\ q[j].name = q[i].name
      RECURSIVE pick(_)
      pick(i) == IF i > Len(q) THEN <<>>
                 ELSE (IF i \in keep THEN <<("free" :> again(i)) @@ q[i]>> ELSE <<>>) \o pick(i + 1)
  IN pick(1)
All(s) == s.els \o s.imps \o s.kids
Elements(s) == Resolve(All(s))
ElementsKF(s) == Resolve(s.els \o s.imps \o s.kidsKF)
=============================================================================
