---------------------------- MODULE BicepTables ----------------------------
(* Data of the language: built-in functions with the names of their         *)
(* parameters by position, decorators, operators, declaration kinds.        *)
EXTENDS Integers, Sequences, TLC

(***************************** tagged JSON values **************************)
(* TLC cannot compare values of different types, so every value is a tuple  *)
(* whose first component is a tag.                                           *)
S(x) == <<"s", x>>            \* plain string
E(x) == <<"e", x>>            \* reference: a BicepElement
I(x) == <<"i", x>>            \* integer, as decimal numeral
B(x) == <<"b", x>>            \* boolean, "true" / "false"
N    == <<"n", "">>           \* null
A(q) == <<"a", q>>            \* array
O(q) == <<"o", q>>            \* object written by the user, ordered pairs
D(q) == <<"d", q>>            \* structure made by the parser, pairs
AnyStr == <<"w", "">>         \* some string, content left open

(********************************* functions *******************************)
\* ty: reported type, req / opt: parameter names by position,
\* rest: prefix of numbered further parameters ("" = none), from: first number
F(ty, req, opt)             == [ty |-> ty, req |-> req, opt |-> opt, rest |-> "", from |-> 0]
V(ty, req, rest, from)      == [ty |-> ty, req |-> req, opt |-> <<>>, rest |-> rest, from |-> from]

SysFns == [
  any |-> F("any", <<"value">>, <<>>),
  array |-> F("array", <<"convert_to_array">>, <<>>),
  concat |-> V("concat", <<"arg_1">>, "arg_", 2),
  contains |-> F("contains", <<"container", "item_to_find">>, <<>>),
  empty |-> F("empty", <<"item_to_test">>, <<>>),
  first |-> F("first", <<"arg_1">>, <<>>),
  flatten |-> F("flatten", <<"array_to_flattern">>, <<>>),
  intersection |-> V("intersection", <<"arg_1", "arg_2">>, "arg_", 3),
  last |-> F("last", <<"arg_1">>, <<>>),
  length |-> F("length", <<"arg_1">>, <<>>),
  max |-> V("max", <<"arg_1">>, "arg_", 2),
  min |-> V("min", <<"arg_1">>, "arg_", 2),
  range |-> F("range", <<"start_index", "count">>, <<>>),
  skip |-> F("skip", <<"original_value", "number_to_skip">>, <<>>),
  take |-> F("take", <<"original_value", "number_to_take">>, <<>>),
  union |-> V("union", <<"arg_1", "arg_2">>, "arg_", 3),
  dateTimeAdd |-> F("date_time_add", <<"base", "duration">>, <<"format">>),
  dateTimeFromEpoch |-> F("date_time_from_epoch", <<"epoch_time">>, <<>>),
  dateTimeToEpoch |-> F("date_time_to_epoch", <<"date_time">>, <<>>),
  utcNow |-> F("utc_now", <<>>, <<"format">>),
  loadFileAsBase64 |-> F("load_file_as_base64", <<"file_path">>, <<>>),
  loadJsonContent |-> F("load_json_content", <<"file_path">>, <<"json_path", "encoding">>),
  loadTextContent |-> F("load_text_content", <<"file_path">>, <<"encoding">>),
  loadYamlContent |-> F("load_yaml_content", <<"file_path">>, <<"path_filter", "encoding">>),
  filter |-> F("filter", <<"input_array", "expression">>, <<>>),
  bool |-> F("bool", <<"arg_1">>, <<>>),
  int |-> F("int", <<"value_to_convert">>, <<>>),
  json |-> F("json", <<"arg_1">>, <<>>),
  base64 |-> F("base64", <<"input_string">>, <<>>),
  base64ToJson |-> F("base64_to_json", <<"base64_value">>, <<>>),
  base64ToString |-> F("base64_to_string", <<"base64_value">>, <<>>),
  dataUri |-> F("data_uri", <<"string_to_convert">>, <<>>),
  dataUriToString |-> F("data_uri_to_string", <<"data_uri_to_convert">>, <<>>),
  endsWith |-> F("ends_with", <<"string_to_search", "string_to_find">>, <<>>),
  format |-> V("format", <<"format_string">>, "arg_", 1),
  guid |-> V("guid", <<"base_string">>, "extra_string_", 1),
  indexOf |-> F("index_of", <<"string_to_search", "string_to_find">>, <<>>),
  join |-> F("join", <<"input_array", "delimiter">>, <<>>),
  lastIndexOf |-> F("last_index_of", <<"string_to_search", "string_to_find">>, <<>>),
  newGuid |-> F("new_guid", <<>>, <<>>),
  padLeft |-> F("pad_left", <<"value_to_pad", "total_length">>, <<"padding_character">>),
  replace |-> F("replace", <<"original_string", "old_string", "new_string">>, <<>>),
  split |-> F("split", <<"input_string", "delimiter">>, <<>>),
  startsWith |-> F("starts_with", <<"string_to_search", "string_to_find">>, <<>>),
  string |-> F("string", <<"value_to_convert">>, <<>>),
  substring |-> F("substring", <<"string_to_parse", "start_index">>, <<"length">>),
  toLower |-> F("to_lower", <<"string_to_change">>, <<>>),
  toUpper |-> F("to_upper", <<"string_to_change">>, <<>>),
  trim |-> F("trim", <<"string_to_trim">>, <<>>),
  uniqueString |-> V("unique_string", <<"base_string">>, "extra_string_", 1),
  uri |-> F("uri", <<"base_uri", "relative_uri">>, <<>>),
  uriComponent |-> F("uri_component", <<"string_to_encode">>, <<>>),
  uriComponentToString |-> F("uri_component_to_string", <<"uri_encoded_string">>, <<>>)
]

AzFns == [
  deployment |-> F("deployment", <<>>, <<>>),
  environment |-> F("environment", <<>>, <<>>),
  extensionResourceId |-> [ty |-> "extension_resource_id",
       req |-> <<"resource_id", "resource_type", "resource_name_1">>,
       opt |-> <<"resource_name_2">>, rest |-> "resource_name_", from |-> 3],
  listKeys |-> F("list_func", <<"resource_identifier", "api_version">>, <<>>),
  managementGroupResourceId |-> [ty |-> "management_group_resource_id",
       req |-> <<"resource_type", "resource_name_1">>,
       opt |-> <<"resource_name_2">>, rest |-> "resource_name_", from |-> 3],
  pickZones |-> F("pick_zones", <<"provider_namespace", "resource_type", "location">>,
                  <<"number_of_zones", "offset">>),
  reference |-> F("reference", <<"resource_identifier">>, <<"api_version", "full">>),
  \* the first arguments of these two are optional: by the number of arguments, see Positions
  resourceId |-> [ty |-> "resource_id", req |-> <<"resource_type", "resource_name_1">>,
       opt |-> <<>>, rest |-> "resource_name_", from |-> 2],
  subscriptionResourceId |-> [ty |-> "subscription_resource_id",
       req |-> <<"resource_type", "resource_name_1">>,
       opt |-> <<>>, rest |-> "resource_name_", from |-> 2],
  tenantResourceId |-> [ty |-> "tenant_resource_id",
       req |-> <<"resource_type", "resource_name_1">>,
       opt |-> <<"resource_name_2">>, rest |-> "resource_name_", from |-> 3],
  managementGroup |-> F("management_group", <<>>, <<"identifier">>),
  resourceGroup |-> F("resource_group", <<>>, <<"resource_group_name", "subscription_id">>),
  subscription |-> F("subscription", <<>>, <<"subscription_id">>),
  tenant |-> F("tenant", <<>>, <<>>)
]

Builtin == SysFns @@ AzFns
\* functions without any parameter report no "parameters" at all
Bare == {"newGuid", "deployment", "environment", "tenant"}

FnTable == [n \in {"sys." \o f : f \in DOMAIN SysFns} \union {"az." \o f : f \in DOMAIN AzFns}
                  \union DOMAIN Builtin |->
              IF n \in DOMAIN Builtin THEN n
              ELSE CHOOSE f \in DOMAIN Builtin : n \in {"sys." \o f, "az." \o f}]

MinArgs(f) == Len(Builtin[f].req)
MaxArgs(f) == IF Builtin[f].rest # "" THEN 99 ELSE Len(Builtin[f].req) + Len(Builtin[f].opt)

RECURSIVE Numbered(_, _, _)
Numbered(prefix, from, n) ==
  IF n = 0 THEN <<>> ELSE <<prefix \o ToString(from)>> \o Numbered(prefix, from + 1, n - 1)

\* names of the parameters for n arguments, by position
Positions(f, n) ==
  LET b == Builtin[f] IN
  CASE f = "resourceId" /\ n <= 3 -> <<"resource_type">> \o Numbered("resource_name_", 1, n - 1)
    [] f = "resourceId" /\ n = 4 -> <<"resource_group_name", "resource_type", "resource_name_1", "resource_name_2">>
    [] f = "resourceId" -> <<"subscription_id", "resource_group_name", "resource_type">>
                             \o Numbered("resource_name_", 1, n - 3)
    [] f = "subscriptionResourceId" /\ n <= 3 -> <<"resource_type">> \o Numbered("resource_name_", 1, n - 1)
    [] f = "subscriptionResourceId" -> <<"subscription_id", "resource_type">>
                             \o Numbered("resource_name_", 1, n - 2)
    [] f = "resourceGroup" /\ n = 2 -> <<"subscription_id", "resource_group_name">>
    [] OTHER -> LET named == b.req \o b.opt IN
                IF n <= Len(named) THEN SubSeq(named, 1, n)
                ELSE named \o Numbered(b.rest, b.from, n - Len(named))

\* parameters that are always reported, null if omitted
AlwaysNamed(f) ==
  CASE f = "resourceId" -> {"resource_name_2", "resource_group_name", "subscription_id"}
    [] f = "subscriptionResourceId" -> {"resource_name_2", "subscription_id"}
    [] OTHER -> {Builtin[f].opt[i] : i \in 1..Len(Builtin[f].opt)}

RECURSIVE SetToPairs(_)
SetToPairs(set) == IF set = {} THEN <<>>
                   ELSE LET x == CHOOSE x \in set : TRUE IN <<<<x, N>>>> \o SetToPairs(set \ {x})

CallResult(written, args) ==
  LET known == written \in DOMAIN FnTable
      f == FnTable[written]
      names == IF known THEN Positions(f, Len(args)) ELSE Numbered("arg_", 1, Len(args))
      given == [i \in 1..Len(args) |-> <<names[i], args[i]>>]
      missing == IF known THEN AlwaysNamed(f) \ {names[i] : i \in 1..Len(names)} ELSE {}
      extra == IF known /\ f = "listKeys" THEN <<<<"func_name", S("listKeys")>>>> ELSE <<>>
      params == D(given \o SetToPairs(missing) \o extra)
  IN D(<<<<"function",
          IF known /\ f \in Bare THEN D(<<<<"type", S(Builtin[f].ty)>>>>)
          ELSE D(<<<<"type", S(IF known THEN Builtin[f].ty ELSE written)>>, <<"parameters", params>>>>)>>>>)

CallOk(written, n) ==
  written \in DOMAIN FnTable => (n >= MinArgs(FnTable[written]) /\ n <= MaxArgs(FnTable[written]))

(********************************* decorators ******************************)
\* written name -> reported type; arity: 0, 1
DecoTypes == [allowed |-> "allowed", batchSize |-> "batchSize", description |-> "description",
   export |-> "export", minLength |-> "min_length", maxLength |-> "max_length",
   minValue |-> "min_value", maxValue |-> "max_value", metadata |-> "metadata",
   sealed |-> "sealed", secure |-> "secure"]
DecoBare == {"export", "sealed", "secure"}
DecoTable == [n \in DOMAIN DecoTypes \union {"sys." \o d : d \in DOMAIN DecoTypes} |->
   IF n \in DOMAIN DecoTypes THEN n ELSE CHOOSE d \in DOMAIN DecoTypes : n = "sys." \o d]

\* -5 written as an argument of a bound is the number -5
Negated(v) ==
  IF v[1] = "d" /\ Len(v[2]) = 1 /\ v[2][1][1] = "operator"
     /\ v[2][1][2][2][1][2] = S("minus") /\ v[2][1][2][2][2][2][2][1][2][1] = "i"
  THEN LET num == v[2][1][2][2][2][2][2][1][2][2] IN I(IF num = "0" THEN "0" ELSE "-" \o num)
  ELSE v

DecoResult(written, args) ==
  LET known == written \in DOMAIN DecoTable
      d == DecoTable[written]
      ty == IF known THEN DecoTypes[d] ELSE written
      arg == IF known /\ d \in {"minValue", "maxValue"} THEN Negated(args[1]) ELSE args[1]
  IN IF Len(args) = 0 \/ (known /\ d \in DecoBare) THEN D(<<<<"type", S(ty)>>>>)
     ELSE D(<<<<"type", S(ty)>>, <<"argument", arg>>>>)

DecoOk(written, n) ==
  written \in DOMAIN DecoTable => n = (IF DecoTable[written] \in DecoBare THEN 0 ELSE 1)

(********************************* operators *******************************)
BinType == ("+" :> "add") @@ ("-" :> "substract") @@ ("*" :> "multiply") @@ ("/" :> "divide")
  @@ ("%" :> "modulo") @@ (">=" :> "greater_than_or_equals") @@ (">" :> "greater_than")
  @@ ("<=" :> "less_than_or_equals") @@ ("<" :> "less_than") @@ ("==" :> "equals")
  @@ ("!=" :> "not_equals") @@ ("=~" :> "equals_case_insensitive")
  @@ ("!~" :> "not_equals_case_insensitive") @@ ("&&" :> "and") @@ ("||" :> "or") @@ ("??" :> "coalesce")
BinOps == DOMAIN BinType

Oper(type, pairs) == D(<<<<"operator", D(<<<<"type", S(type)>>, <<"operands", D(pairs)>>>>)>>>>)

Category == [targetScope |-> "globals", metadata |-> "metadata", extension |-> "extensions",
   import |-> "imports", param |-> "parameters", var |-> "variables", type |-> "types",
   func |-> "functions", resource |-> "resources", module |-> "modules", output |-> "outputs"]
Scopes == {"resourceGroup", "subscription", "managementGroup", "tenant"}
=============================================================================
