------------------------------- MODULE GenDoc -------------------------------
(* Pseudo-random templates: N independent runs of the machine, each driven   *)
(* by its own generator seeded with SEED.  At every step a token is chosen   *)
(* that suits the innermost open construct, with the weights of the profile; *)
(* a token the machine refuses is passed over.  All randomness is in the     *)
(* state, so the set of templates depends on the seed alone.                 *)
EXTENDS Emit

Profile == IOEnv.PROFILE
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
First == atoi(IOEnv.FIRST)     \* number of the first run
DocFuel == atoi(IOEnv.FUEL)    \* tokens until a template is brought to its end

(************************* pseudo-random numbers ***************************)
\* Wichmann-Hill
Advance(g) == <<(171 * g[1]) % 30269, (172 * g[2]) % 30307, (170 * g[3]) % 30323>>
Draw(r, n) == (((r[1] + 3 * r[2] + 7 * r[3]) \div 5) % n) + 1
SeedGen(i) == <<((Seed * 7919 + i * 613) % 30268) + 1, ((Seed * 104 + i * 977 + 5) % 30306) + 1, ((i * 31 + Seed * 17) % 30322) + 1>>

RECURSIVE Total(_, _)
Total(q, i) == IF i > Len(q) THEN 0 ELSE q[i][1] + Total(q, i + 1)
RECURSIVE PickAt(_, _, _)
PickAt(q, i, r) == IF r <= q[i][1] THEN q[i][2] ELSE PickAt(q, i + 1, r - q[i][1])
Weighted(q, g) == PickAt(q, 1, Draw(g, Total(q, 1)))
OneOf(q, g) == q[Draw(g, Len(q))]

(****************************** vocabulary *********************************)
IdPool == <<"a", "b2", "_c", "camelCase", "d", "foo_bar", "x", "y", "item", "index", "location", "env", "e~ID~f">>
KwPool == <<"for", "if", "in", "existing", "resource", "param", "var", "type", "func", "module", "output", "import",
            "extension", "metadata", "targetScope", "with", "as", "from", "items", "listKeys", "getSecret", "sys", "az", "nullable", "trues">>
NamePool == <<"a", "b", "c1", "_d", "nameOne", "nameTwo", "x_y", "Z", "longerNameOfADeclaration", "resource", "for", "items", "v9">>
KeyPool == <<"k", "name", "properties", "a", "b", "for", "resource", "if", "tags", "l_1", "true", "null", "value", "type", "config", "depends_on", "condition">>
QKeyPool == <<"k", "quoted-key", "a.b", "", "x y", "Microsoft.Web/sites", "k~U2~", "${x}", "it\\'s">>
NumPool == << <<"0", "0">>, <<"1", "1">>, <<"7", "7">>, <<"42", "42">>, <<"007", "7">>, <<"100", "100">>, <<"2147483648", "2147483648">>,
             <<"99999999999999999999", "99999999999999999999">> >>
StrPool == <<"", "a", "b2", "0", "true", "null", "hello world", "//no comment", "/* no */", "#no", "it\\'s", "${x}", "pre ${a.b} post",
            "${f('q')}", "${x}${y}", "{", "}", "[0]", "a,b", "a: b", "\\\\", "\\n", "\\${no}", "~U1~", "~U2~~U3~", "${toUpper('${x}-${y}')}",
            "${ {a: 'b'}.a }", "A.B/c@1", "@", "=>", "?", "for x in y", "  lead", "trail  ", "\"", "`", "$", "$$", "$x", "100%">>
MlPool == <<"", "a", "a\nb", "\na\n", "  indented\n\n\nlines\n", "it's", "// c", "/* c", "${x}", "\\", "''x", "~U1~", "{\n}", "@x\n#y\n">>
TypePool == <<"string", "int", "bool", "object", "array", "myType", "resource">>
ResTypePool == <<"A.B/c@2020-01-01", "Microsoft.Storage/storageAccounts@2021-06-01", "x/y/z/w@9-preview", "A/b@1">>
ChildTypePool == <<"blobServices", "t", "sub/type">>
RefPool == <<"./m.bicep", "a/b/c.bicep", "../up.bicep", "br:reg.azurecr.io/p/q:v1", "br:mcr.microsoft.com/bicep/m:1.0.0", "br/public:storage/x:2.1", "br/alias:p:t", "ts:00000000-0000-0000-0000-0000000000ab/rg/name:1", "ts/al:n:v"  >>
UnknownFns == <<"foo", "my_func", "loadx", "toObject", "map", "reduce", "sort", "items", "cidrSubnet", "sys.foo", "az.bar", "if2", "list", "getSecret", "listFoo">>
KnownFns == <<"concat", "format", "resourceId", "subscriptionResourceId", "resourceGroup", "subscription", "union", "contains", "empty", "uniqueString",
   "guid", "padLeft", "substring", "utcNow", "newGuid", "reference", "listKeys", "pickZones", "loadJsonContent", "dateTimeAdd", "environment", "tenant",
   "extensionResourceId", "tenantResourceId", "managementGroupResourceId", "max", "sys.concat", "az.resourceId", "sys.split", "az.subscription", "any", "json", "filter", "sys.filter">>
AccFns == <<"listKeys", "listSecrets", "ListX", "getSecret", "list">>
DecoPool == <<"allowed", "batchSize", "description", "export", "minLength", "maxLength", "minValue", "maxValue", "metadata", "sealed", "secure",
   "sys.description", "sys.secure", "sys.allowed", "sys.minValue", "custom", "discriminator", "sys.other">>
ScopePool == <<"resourceGroup", "subscription", "managementGroup", "tenant">>
NlPool == <<"\n", "\n", "\n\n", "\n \t\n", "\n/* c */\n", "\n#disable-next-line x\n", "\n  /* 'a\n*/  \n">>
CmPool == <<"// c\n", "//\n", "\n// a 'quote\n", "// {[(\n\n", "\n\n  // x\n  // ''' y\n", "// var z = 1\n", "//~U2~\n", "/// #\n#x\n", "\n/* b */ // c\n \n">>
WsPool == <<"/* c */", "/**/", "/* a\nb */", "/*'*/", "/* // */", "/* ''' */", "\t", "   ", "/*~U1~\n\n*/">>

Lines(x) == Len(SplitAt(x, Lf)) - 1
NlTok(x) == Tok("nl", x, "nl", Lines(x))
CmTok(x) == Tok("nl", x, "cm", Lines(x))
WsTok(x) == Tok("ws", x, "", Lines(x))
MlTok(b) == Tok("ml", "'''" \o b \o "'''", IF StartsWith(b, Lf) THEN SubSeq(b, 2, Len(b)) ELSE b, Lines(b))
StrTok(q, g) == Str(OneOf(q, g))

(******************************** profiles *********************************)
Base == [leaf |-> 30, kw |-> 2, num |-> 8, lit |-> 5, str |-> 10, ml |-> 2, known |-> 4, unknown |-> 4, par |-> 4, arr |-> 5, obj |-> 5,
         pre |-> 3, lam |-> 1, op |-> 10, tern |-> 3, dot |-> 8, acc |-> 2, idx |-> 4, nest |-> 1, bang |-> 1, safe |-> 1, stop |-> 40,
         loop |-> 6, cond |-> 5, child |-> 5, more |-> 55, lay |-> 6, ws |-> 4, deco |-> 20, depth |-> 9]
W ==
  CASE Profile = "flat" -> [Base EXCEPT !.arr = 0, !.obj = 0, !.op = 3, !.stop = 100, !.lay = 10]
    [] Profile = "values" -> [Base EXCEPT !.arr = 25, !.obj = 25, !.num = 12, !.lit = 12, !.op = 2, !.tern = 1, !.more = 70, !.stop = 80]
    [] Profile = "strings" -> [Base EXCEPT !.str = 60, !.ml = 15, !.leaf = 10, !.ws = 10, !.lay = 10]
    [] Profile = "refs" -> [Base EXCEPT !.leaf = 20, !.kw = 25, !.str = 25, !.ml = 8]
    [] Profile = "operators" -> [Base EXCEPT !.op = 40, !.tern = 12, !.pre = 12, !.par = 12, !.stop = 25]
    [] Profile = "accessors" -> [Base EXCEPT !.dot = 30, !.acc = 14, !.idx = 18, !.nest = 8, !.bang = 5, !.safe = 5, !.stop = 25, !.op = 4]
    [] Profile = "functions" -> [Base EXCEPT !.known = 25, !.unknown = 15, !.more = 60, !.lit = 12, !.num = 10]
    [] Profile = "lambdas" -> [Base EXCEPT !.lam = 18, !.unknown = 12]
    [] Profile = "decorators" -> [Base EXCEPT !.deco = 80]
    [] Profile = "children" -> [Base EXCEPT !.child = 40, !.stop = 80, !.loop = 10, !.cond = 10]
    [] Profile = "loops" -> [Base EXCEPT !.loop = 40, !.cond = 25, !.stop = 60]
    [] Profile = "layout" -> [Base EXCEPT !.lay = 25, !.ws = 15, !.deco = 35, !.child = 12]
    [] OTHER -> Base

KindPool ==
  CASE Profile = "decorators" -> << <<1, "targetScope">>, <<6, "param">>, <<4, "var">>, <<4, "output">>, <<4, "resource">>, <<4, "module">>, <<4, "type">>, <<4, "func">>, <<1, "metadata">> >>
    [] Profile = "children" -> << <<1, "param">>, <<20, "resource">>, <<2, "module">> >>
    [] Profile = "loops" -> << <<1, "param">>, <<6, "var">>, <<5, "output">>, <<5, "resource">>, <<5, "module">> >>
    [] Profile = "lambdas" -> << <<3, "param">>, <<6, "var">>, <<3, "output">>, <<10, "func">>, <<1, "type">> >>
    [] OTHER -> << <<2, "targetScope">>, <<2, "metadata">>, <<3, "extension">>, <<3, "import">>, <<8, "param">>, <<10, "var">>, <<3, "type">>, <<4, "func">>,
                   <<7, "resource">>, <<4, "module">>, <<6, "output">> >>

(***************************** choice of a token ***************************)
VARIABLES run, g, st, hist, fuel, idle, glued
vars == <<run, g, st, hist, fuel, idle, glued>>

Deep == Len(st.ctl)
Tight == fuel <= 0 \/ Deep > W.depth * 3
f == Top(st)
LastTok == IF hist = <<>> THEN Nl ELSE hist[Len(hist)]

Leaf(a, b) ==
  LET kind == Weighted(<< <<W.leaf, "id">>, <<W.kw, "kw">>, <<W.num, "num">>, <<W.lit, "lit">>, <<W.str, "str">>, <<W.ml, "ml">> >>, a) IN
  CASE kind = "id" -> Id(OneOf(IdPool, b))
    [] kind = "kw" -> Id(OneOf(KwPool, b))
    [] kind = "num" -> LET n == OneOf(NumPool, b) IN Num(n[1], n[2])
    [] kind = "lit" -> Id(OneOf(<<"true", "false", "null">>, b))
    [] kind = "str" -> StrTok(StrPool, b)
    [] kind = "ml" -> MlTok(OneOf(MlPool, b))

Operand(a, b, c) ==
  LET kind == IF f.bo THEN Weighted(<< <<10, "obj">>, <<IF f.lp THEN W.loop ELSE 0, "arr">>, <<IF f.cd THEN W.cond ELSE 0, "if">> >>, a)
              ELSE IF Tight THEN "leaf"
              ELSE Weighted(<< <<60, "leaf">>, <<W.known, "known">>, <<W.unknown, "unknown">>, <<W.par, "(">>,
                               <<W.arr + (IF f.lp THEN W.loop ELSE 0), "arr">>, <<W.obj, "obj">>, <<W.pre, "pre">>, <<W.lam, "lam">>, <<W.lay, "nl">>,
                               <<IF Top(Pop(st)).k = "prop" THEN W.acc * 6 ELSE 0, "acc">>,
                               <<IF Top(Pop(st)).k \in {"prop", "idx"} THEN W.safe ELSE 0, "?">> >>, a) IN
  CASE kind = "leaf" -> Leaf(b, c)
    [] kind = "known" -> Fn(OneOf(KnownFns, b))
    [] kind = "unknown" -> Fn(OneOf(UnknownFns, b))
    [] kind = "acc" -> Fn(OneOf(AccFns, b))
    [] kind = "(" -> T("(")
    [] kind = "arr" -> T("[")
    [] kind = "obj" -> T("{")
    [] kind = "if" -> Fn("if")
    [] kind = "pre" -> T(OneOf(<<"!", "-">>, b))
    [] kind = "lam" -> IF Draw(b, 2) = 1 THEN T("(") ELSE Id(OneOf(IdPool, c))
    [] kind = "nl" -> NlTok(OneOf(NlPool, b))
    [] kind = "?" -> T("?")

\* tokens that may end a value, by the construct that contains it
Host1 == st.ctl[HostIdx(Tail(st.ctl), 1) + 1]
HasCond1 == \E i \in 2..HostIdx(Tail(st.ctl), 1) : st.ctl[i].k = "cond1"
BreakTok(a, b) == IF Draw(a, 100) <= W.lay * 2 THEN CmTok(OneOf(CmPool, b)) ELSE NlTok(OneOf(NlPool, b))
MayAdd(h) == h.k = "fn" => ~(h.acc = <<>> /\ h.name \in DOMAIN FnTable /\ Len(h.args) + 1 >= MaxArgs(FnTable[h.name]))
MustAdd(h) == h.k = "fn" /\ h.acc = <<>> /\ h.name \in DOMAIN FnTable /\ Len(h.args) + 1 < MinArgs(FnTable[h.name])
More == IF Tight THEN 0 ELSE W.more
Ender(a, b, c) ==
  IF HasCond1 THEN T(":")
  ELSE CASE Host1.k = "par" -> IF f.v[1] = "e" /\ ~f.bang /\ st.ctl[2].k = "par" /\ Draw(a, 100) <= W.lam * 4 THEN T(",") ELSE T(")")
         [] Host1.k = "lamargs" -> IF Tight \/ Draw(a, 3) > 1 THEN T(")") ELSE T(",")
         [] Host1.k = "idx" -> T("]")
         [] Host1.k = "fn" -> IF MustAdd(Host1) THEN T(",") ELSE Weighted(<< <<IF MayAdd(Host1) THEN More ELSE 0, T(",")>>, <<45, T(")")>>, <<W.lay, BreakTok(b, c)>> >>, a)
         [] Host1.k = "arr" -> Weighted(<< <<More, T(",")>>, <<More, BreakTok(b, c)>>, <<30, T("]")>>, <<3, BreakTok(b, c)>> >>, a)
         [] Host1.k = "obj" -> Weighted(<< <<More, T(",")>>, <<More, BreakTok(b, c)>>, <<30, T("}")>>, <<IF Host1.bo THEN 60 ELSE 3, BreakTok(b, c)>> >>, a)
         [] Host1.k = "loop" -> CASE Host1.st = "array" -> T(":")
                                  [] Host1.st = "body" -> Weighted(<< <<3, T("]")>>, <<1, BreakTok(b, c)>> >>, a)
                                  [] OTHER -> T(")")
         [] Host1.k = "ifc" -> IF Host1.st = "if" THEN T(")") ELSE BreakTok(b, c)
         [] Host1.k = "deco" -> Weighted(<< <<6, T(")")>>, <<1, BreakTok(b, c)>> >>, a)
         [] Host1.k = "decl" -> IF Host1.kind = "type" /\ Draw(a, 100) <= More \div 2 THEN T("|")
                                ELSE IF Host1.kind = "child" /\ Draw(a, 8) = 1 THEN T("}")
                                ELSE IF Host1.kind # "child" /\ Draw(a, 40) = 1 THEN (IF fuel <= 0 THEN Eof ELSE Id(Weighted(KindPool, b)))
                                ELSE BreakTok(b, c)
         [] OTHER -> BreakTok(b, c)

After(a, b, c) ==
  LET kind == IF f.fin \/ Tight THEN "stop"
              ELSE Weighted(<< <<W.stop, "stop">>, <<W.op, "op">>, <<W.tern, "?">>, <<W.dot, ".">>, <<W.idx, "[">>, <<W.nest, "::">>, <<W.bang, "!">>,
                               <<IF f.v[1] = "e" THEN W.lam ELSE 0, "=>">> >>, a) IN
  CASE kind = "stop" -> Ender(b, c, a)
    [] kind = "op" -> T(OneOf(<<"+", "-", "*", "/", "%", ">=", ">", "<=", "<", "==", "!=", "=~", "!~", "&&", "||", "??">>, b))
    [] OTHER -> T(kind)

Key(a, b) == IF Draw(a, 4) = 1 THEN StrTok(QKeyPool, b) ELSE Id(OneOf(KeyPool, b))
InObject(a, b, c) ==
  CASE f.st = "colon" -> IF f.key = "resource" /\ f.body /\ Draw(a, 100) <= 80 THEN Id(OneOf(NamePool, b)) ELSE T(":")
    [] f.st = "key" -> Key(a, b)
    [] OTHER -> LET kind == Weighted(<< <<IF Tight THEN 0 ELSE 10, "key">>, <<IF Tight THEN 0 ELSE W.lay \div 2, "nl">>, <<5, "}">>,
                                        <<IF f.body /\ ~Tight THEN W.child ELSE 0, "child">> >>, a) IN
                CASE kind = "key" -> Key(b, c)
                  [] kind = "nl" -> BreakTok(b, c)
                  [] kind = "}" -> T("}")
                  [] kind = "child" -> Id("resource")

InArray(a, b, c) ==
  IF f.bo THEN (IF f.nls = 0 /\ Draw(a, 5) = 1 THEN BreakTok(b, c) ELSE Id("for"))
  ELSE IF f.st = "open" /\ f.lp /\ Draw(a, 100) <= 2 * W.loop THEN Id("for")
  ELSE Weighted(<< <<5, T("]")>>, <<IF Tight THEN 0 ELSE 4, BreakTok(b, c)>>, <<IF Tight THEN 0 ELSE 15, Leaf(b, c)>>, <<IF Tight THEN 0 ELSE 2, T("{")>>, <<IF Tight THEN 0 ELSE 2, T("[")>> >>, a)

InFn(a, b, c) ==
  LET known == f.acc = <<>> /\ f.name \in DOMAIN FnTable
      none == IF known /\ MinArgs(FnTable[f.name]) > 0 THEN 0 ELSE IF known /\ MaxArgs(FnTable[f.name]) = 0 THEN 1000 ELSE 5
  IN IF f.st = "first" THEN Weighted(<< <<none, T(")")>>, <<W.lay, BreakTok(b, c)>>, <<30, Leaf(b, c)>>, <<IF Tight THEN 0 ELSE 3, T("[")>>, <<IF Tight THEN 0 ELSE 3, T("{")>>, <<IF Tight THEN 0 ELSE 3, T("-")>> >>, a)
     ELSE IF f.st = "close" THEN T(")")
     ELSE Weighted(<< <<W.lay, BreakTok(b, c)>>, <<30, Leaf(b, c)>> >>, a)

InLoop(a, b, c) ==
  CASE f.st = "item" -> IF Draw(a, 3) = 1 THEN T("(") ELSE Id(OneOf(IdPool, b))
    [] f.st \in {"p1", "p3"} -> Id(OneOf(IdPool, b))
    [] f.st = "p2" -> T(",")
    [] f.st = "p4" -> T(")")
    [] f.st = "in" -> Id("in")
    [] f.st = "array" -> IF Draw(a, 6) = 1 /\ Len(f.vars) = 1 THEN Tok("items", "items (", "items", 0)
                         ELSE IF Tight THEN Id(OneOf(IdPool, b))
                         ELSE Weighted(<< <<10, Id(OneOf(IdPool, b))>>, <<2, Fn("range")>>, <<2, Fn("items")>>, <<2, T("[")>>, <<1, T("{")>> >>, c)
    [] f.st = "colon" -> T(":")
    [] f.st = "cond" -> Weighted(<< <<3, Fn("if")>>, <<1, Tok("fn", "if (", "if", 0)>>, <<2, T("{")>>, <<IF Tight THEN 0 ELSE 2, T("[")>>, <<IF f.body THEN 0 ELSE 3, Leaf(b, c)>>, <<1, NlTok(OneOf(NlPool, b))>> >>, a)
    [] f.st = "condnl" -> IF Draw(a, 2) = 1 THEN Fn("if") ELSE Id(OneOf(IdPool, b))
    [] f.st = "body" -> T("{")
    [] OTHER -> T("]")

InDecl(a, b, c) ==
  LET step == Head(f.todo) IN
  CASE step \in {"name", "alias"} -> Id(OneOf(NamePool, b))
    [] step = "eq" -> T("=")
    [] step = "str" -> CASE f.kind = "targetScope" -> StrTok(ScopePool, b)
                         [] f.kind = "resource" -> StrTok(ResTypePool, b)
                         [] f.kind = "child" -> StrTok(ChildTypePool, b)
                         [] f.kind = "module" -> StrTok(RefPool, b)
                         [] OTHER -> StrTok(StrPool, b)
    [] step = "dt" -> IF Draw(a, 6) = 1 THEN T("(") ELSE Id(OneOf(TypePool, b))
    [] step = "tyopt" -> IF Draw(a, 4) = 1 THEN Id(OneOf(TypePool, b)) ELSE T("=")
    [] step = "q" -> IF Draw(a, 6) = 1 THEN T("?") ELSE IF f.kind = "param" /\ Draw(b, 2) = 1 THEN BreakTok(a, c) ELSE T("=")
    [] step = "eqopt" -> IF Draw(a, 2) = 1 THEN T("=") ELSE BreakTok(b, c)
    [] step = "ex" -> IF Draw(a, 4) = 1 THEN Id("existing") ELSE T("=")
    [] step = "arrow" -> T("=>")
    [] step = "fname" -> Fn(OneOf(NamePool, b))
    [] step = "fargs" -> IF Draw(a, 3) = 1 THEN T(")") ELSE Id(OneOf(NamePool, b))
    [] step = "imp" -> Weighted(<< <<2, StrTok(StrPool, b)>>, <<3, T("{")>>, <<1, T("*")>>, <<1, Id(OneOf(NamePool, b))>> >>, a)
    [] step = "with" -> Weighted(<< <<2, Id("with")>>, <<1, Id("as")>>, <<2, BreakTok(b, c)>> >>, a)
    [] step = "as" -> IF Draw(a, 2) = 1 THEN Id("as") ELSE BreakTok(b, c)
    [] step = "config" -> T("{")
    [] step \in {"val", "tval"} -> IF f.kind \in {"resource", "child", "module"} THEN T("{") ELSE Leaf(b, c)
    [] OTHER -> BreakTok(b, c)

NewDecl(b) == Id(Weighted(KindPool, b))
\* the first token of a value is chosen like any operand
Choice(a, b, c) ==
  CASE f.k = "val" -> Operand(a, b, c)
    [] f.k = "post" -> After(a, b, c)
    [] f.k = "fn" -> InFn(a, b, c)
    [] f.k = "arr" -> InArray(a, b, c)
    [] f.k = "obj" -> InObject(a, b, c)
    [] f.k = "loop" -> InLoop(a, b, c)
    [] f.k = "decl" -> IF Head(f.todo) \in {"val", "config", "tval"}
                       THEN Weighted(<< <<2, T("{")>>, <<3, IF Draw(c, 4) = 1 THEN T("[") ELSE Leaf(b, c)>>, <<1, Fn("if")>>, <<2, T("[")>>, <<1, T("(")>>, <<2, Fn(OneOf(KnownFns, b))>>,
                                        <<1, T("!")>>, <<1, T("-")>> >>, a)
                       ELSE InDecl(a, b, c)
    [] f.k = "deco" -> CASE f.st = "name" -> Fn(OneOf(DecoPool, b))
                         [] f.st = "close" -> T(")")
                         [] OTHER -> LET bare == f.name \in DOMAIN DecoTable /\ DecoTable[f.name] \in DecoBare
                                         needs == f.name \in DOMAIN DecoTable /\ ~bare
                                     IN Weighted(<< <<IF bare THEN 9 ELSE IF needs THEN 0 ELSE 2, T(")")>>, <<IF bare THEN 0 ELSE 8, Leaf(b, c)>>,
                                                    <<IF bare \/ Tight THEN 0 ELSE 2, T("[")>>, <<IF bare \/ Tight THEN 0 ELSE 2, T("{")>>, <<IF bare \/ Tight THEN 0 ELSE 2, T("-")>>, <<1, BreakTok(b, c)>> >>, a)
    [] f.k = "top" -> IF fuel <= 0 THEN Eof
                      ELSE Weighted(<< <<W.lay, BreakTok(b, c)>>, <<80, NewDecl(b)>>, <<W.deco, T("@")>> >>, a)
    [] f.k = "decl0" -> Weighted(<< <<60, NewDecl(b)>>, <<20, BreakTok(b, c)>>, <<W.deco, T("@")>> >>, a)
    [] f.k = "dt" -> IF f.st = "base" THEN (IF Draw(a, 8) = 1 THEN T("(") ELSE Id(OneOf(TypePool, b)))
                     ELSE IF f.st = "close" THEN T("]")
                     ELSE LET below == Top(Pop(st)) IN
                          Weighted(<< <<3, T("[")>>, <<10, CASE below.k = "fargs" -> IF Draw(b, 3) = 1 THEN T(",") ELSE T(")")
                                                             [] below.k = "dtu" -> IF Len(below.ms) = 0 \/ (Draw(b, 3) = 1 /\ ~Tight) THEN T("|") ELSE T(")")
                                                             [] below.k = "decl" -> CASE below.kind = "func" -> T("=>")
                                                                                     [] below.kind = "param" -> Weighted(<< <<2, T("=")>>, <<1, T("?")>>, <<2, BreakTok(b, c)>> >>, c)
                                                                                     [] OTHER -> IF Draw(b, 6) = 1 THEN T("?") ELSE T("=")
                                                             [] OTHER -> T("=")>> >>, a)
    [] f.k = "dtu" -> IF Draw(a, 2) = 1 THEN T("|") ELSE T(")")
    [] f.k = "fargs" -> IF f.st = "sep" THEN (IF Draw(a, 2) = 1 THEN T(",") ELSE T(")")) ELSE Id(OneOf(NamePool, b))
    [] f.k = "imp" -> CASE f.st = "as" -> Weighted(<< <<2, Id("as")>>, <<2, Id("from")>>, <<2, T(",")>>, <<2, T("}")>> >>, a)
                        [] f.st = "alias" -> Id(OneOf(NamePool, b))
                        [] f.st = "sep" -> Weighted(<< <<2, Id("from")>>, <<2, T(",")>>, <<2, T("}")>> >>, a)
                        [] f.st = "from" -> Id("from")
                        [] f.st = "path" -> StrTok(StrPool, b)
                        [] f.st = "name" -> IF Draw(a, 4) = 1 THEN T("*") ELSE Id(OneOf(NamePool, b))
                        [] OTHER -> T("{")
    [] f.k = "lamarrow" -> T("=>")
    [] OTHER -> T(")")

(********************************* runs ************************************)
Init == /\ run \in First..(First + Count - 1)
        /\ g = Advance(Advance(SeedGen(run)))
        /\ st = Fresh /\ hist = <<>>
        /\ fuel = DocFuel \div 4 + Draw(g, DocFuel)
        /\ idle = 0 /\ glued = 0

\* a line break, or a block comment, that belongs to no construct
Spacing(a) == W.ws > 0 /\ Draw(a, 100) <= W.ws /\ LastTok.c \notin {"ws", "nl", "/", "*"}

Stuck == idle > 60 \/ fuel < -120
Next ==
  /\ ~st.done /\ ~Stuck
  /\ LET g1 == Advance(g)
         g2 == Advance(g1)
         g3 == Advance(g2)
         t == IF Spacing(g3) THEN WsTok(OneOf(WsPool, g2)) ELSE Choice(g1, g2, g3)
         \* two line breaks in a row would be read as one
         twin == t.c = "nl" /\ (LastTok.c = "nl" \/ (LastTok.c = "ws" /\ Len(hist) > 1 /\ hist[Len(hist) - 1].c = "nl"))
         \* a comment sign must not arise from a division sign
         slash == t.c \in {"nl", "ws"} /\ LastTok.c \in {"/", "*"}
         r == Consume(st, t)
     IN IF twin \/ slash \/ r.err # ""
        THEN g' = g3 /\ idle' = idle + 1 /\ UNCHANGED <<run, st, hist, fuel, glued>>
        ELSE /\ g' = g3 /\ st' = r /\ hist' = Append(hist, t) /\ fuel' = fuel - 1 /\ idle' = 0
             /\ UNCHANGED <<run, glued>>
Spec == Init /\ [][Next]_vars

Out == st.done => EmitDoc(Profile, hist, st)
GaveUp == Stuck => PrintT("STUCK " \o ToJson([k |-> f.k, top |-> st.ctl[2].k, toks |-> [i \in 1..Len(hist) |-> hist[i].x]]))
Sane == /\ st.ctl # <<>> /\ st.ctl[Len(st.ctl)].k = "top" /\ st.last <= st.line
=============================================================================
