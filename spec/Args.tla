-------------------------------- MODULE Args --------------------------------
(* The values that the generators give to builder calls: for each method the keys and values tried. *)
EXTENDS Builder

Texts == {"", "a", "Lamp", "$uni", "$ctl", "$long", "$json", "null", "true", "0"}
Uris == {"http://h/p", "/rel", "", "coap://h:5683/x{?a}", "$uni", "urn:dev:ops:32473"}
SecPool == {"a", "b", "basic", "nosec", "$uni", "", "A"}
DefPool == {"d1", "d2", "$uni", "", "D1"}
Names == {"p", "q", "status", "$uni", "", "P", "type", "$ctl"}
Customs == {"x:custom", "ace:ACESecurityScheme", "Nosec"}

AnyVals == {S(""), S("x"), S("$uni"), N("0"), N("-1"), N("1.5"), N("-9223372036854775808"), N("18446744073709551615"),
            N("9007199254740993"), N("1e300"), True, False, Z, A(<<>>), A(<<Z, N("1"), A(<<>>)>>), O(EmptyFn), O("k" :> N("1")),
            O(("type" :> S("object")) @@ ("const" :> Z)), A(<<S("x")>>)}
SomeVals == AnyVals \ {Z}

SV(s) == {<<"", S(x)>> : x \in s}
NV(s) == {<<"", N(x)>> : x \in s}
NoArg == {<<"", Z>>}
Bools == {<<"", True>>, <<"", False>>}

FloatArgs == {"-1.7976931348623157e308", "-1000.5", "-5", "-1.5", "-1", "-0.5", "-0.0", "0", "5e-324", "0.1", "0.5", "1", "1.5",
              "2", "5", "1e5", "9007199254740993", "1e300", "1.7976931348623157e308"}
OddFloats == {"$inf", "$-inf", "$nan"}
IntArgs == {"-9223372036854775808", "-9223372036854775807", "-4294967296", "-5", "-2", "-1", "0", "1", "2", "5", "100",
            "4294967296", "9007199254740993", "9223372036854775806", "9223372036854775807"}
StepArgs == {"1", "2", "5", "4294967296", "9223372036854775808", "18446744073709551615"}
LenArgs == {"0", "1", "2", "3", "7", "255", "65536", "4294967295"}
FloatStepsGood == {"5e-324", "0.1", "0.5", "1", "2", "1e300"}
FloatStepsBad == {"0", "-0.0", "-1", "-0.5", "-5e-324", "$nan"}

LimitMethods == {"minimum", "exclusive_minimum", "maximum", "exclusive_maximum"}
Versions == {S("1.0.0"), S(""), O("instance" :> S("$uni")), O(("instance" :> S("1")) @@ ("model" :> S("2.1"))),
             O(("instance" :> S("")) @@ ("model" :> S("")))}
ContextUris == {TD11, TD10, "https://schema.org", "", "$uni"}

(* extension members by family and place *)
Place_(fr, m) ==
  LET base == IF m \in {"ext_with", "ext"} THEN "ext" ELSE IF m \in {"ext_interaction", "ext_interaction_with"} THEN "int" ELSE m
  IN CASE m \in {"ext_data_schema", "ext_data_schema_with"} -> "ds"
       [] base = "int" -> "int"
       [] fr.k = "thing" -> "thing" [] fr.k = "form" -> "form" [] fr.k = "action" -> "act" [] fr.k = "event" -> "ev"
       [] fr.k = "prop" -> "prop" [] OTHER -> "ds"
OptF(w, vs) == {EmptyFn} \cup {w :> v : v \in vs}
Opt(w, vs) == {EmptyFn} \cup {w :> S(v) : v \in vs}
OptN(w, vs) == {EmptyFn} \cup {w :> N(v) : v \in vs}
Cross2(a, b) == {x @@ y : x \in a, y \in b}
BlockVals == {O(x) : x \in Cross2(OptN("cov:block2Size", BlockSizes), OptN("cov:block1Size", {"16", "256", "1024"}))}
Headers == {O(x) : x \in Cross2(Opt("htv:fieldName", {"Accept", ""}), Opt("htv:fieldValue", {"$uni", "x"}))}
HeaderLists == {A(<<x>>) : x \in Headers} \cup {A(<<x, y>>) : x \in Headers, y \in Headers}
ExtVals0(f, pl) ==
  CASE f \in {"a", "b"} -> LET w == f \o ":" \o pl IN
         {O(EmptyFn)} \cup {O(w :> v) : v \in SomeVals} \cup {O((w \o "2") :> v) : v \in {S("x"), O("title" :> S("no")), A(<<Z>>)}}
         \cup {O((w :> S("1")) @@ ((w \o "2") :> N("2")))}
    [] f = "http" /\ pl = "form" -> {O(x) : x \in Opt("htv:methodName", HttpMethods)}
    [] f = "http" /\ pl = "resp" -> {O(x) : x \in Cross2(OptF("htv:headers", HeaderLists),
                                                         OptN("htv:statusCodeValue", {"0", "200", "404", "65536", "18446744073709551615"}))}
    [] f = "coap" /\ pl = "form" ->
         {O(x) : x \in Cross2(Opt("cov:method", CoapMethods), OptN("cov:hopLimit", {"0", "1", "255"}))}
         \cup {O(x) : x \in Cross2(OptN("cov:accept", {"0", "65535"}), OptN("cov:contentFormat", {"0", "50", "65535"} \cap U16))}
         \cup {O(x) : x \in Cross2(OptF("cov:blockwise", BlockVals), OptF("cov:qblockwise", {O(EmptyFn), O("cov:block1Size" :> N("32"))}))}
         \cup {O(("cov:method" :> S("iPATCH")) @@ ("cov:blockwise" :> O("cov:block2Size" :> N("64"))) @@ ("cov:accept" :> N("1"))
                 @@ ("cov:qblockwise" :> O("cov:block2Size" :> N("512"))) @@ ("cov:hopLimit" :> N("7")) @@ ("cov:contentFormat" :> N("2")))}
    [] f = "coap" /\ pl = "resp" -> {O(x) : x \in OptN("cov:contentFormat", {"0", "1", "255", "65535"})}
    [] f = "mqtt" /\ pl = "form" ->
         {O(x) : x \in Cross2(Cross2(OptF("mqv:retain", {True}), Opt("mqv:controlPacket", {"mqv:publish", "mqv:subscribe", "mqv:unsubscribe"})),
                              Cross2(Opt("mqv:qos", {"quality:0", "quality:1", "quality:2"}), Opt("mqv:topic", {"a/b", ""})))}
         \cup {O("mqv:filter" :> v) : v \in {S("a/#"), A(<<S("a/#"), S("+/b")>>), A(<<S(""), S("x"), S("$uni")>>)}}
         \cup {O(("mqv:filter" :> S("f")) @@ ("mqv:topic" :> S("t")) @@ ("mqv:retain" :> True) @@ ("mqv:qos" :> S("quality:2"))
                 @@ ("mqv:controlPacket" :> S("mqv:subscribe")))}
    [] OTHER -> {O(EmptyFn)}

ExtPlaceNames == {"thing", "form", "resp", "int", "prop", "act", "ev", "ds", "arr", "obj"}
ExtTable == [f \in {Fam[i] : i \in DOMAIN Fam} |-> [pl \in ExtPlaceNames |-> ExtVals0(f, pl)]]
ExtVals(f, pl) == ExtTable[f][pl]

RECURSIVE ExtTuples(_, _)
ExtTuples(pl, i) == IF i = 0 THEN {<<>>} ELSE {Append(s, v) : s \in ExtTuples(pl, i - 1), v \in ExtVals(Fam[i], pl)}
(* one value for each extension of the family *)
ExtLists0(pl) == IF NExt <= 1 THEN ExtTuples(pl, NExt)
                ELSE {<<v, w>> : v \in ExtVals(Fam[1], pl), w \in {O(EmptyFn), O((Fam[2] \o ":" \o pl) :> S("b"))}}
                     \cup {<<v, w>> : w \in ExtVals(Fam[2], pl), v \in {O(EmptyFn), O((Fam[1] \o ":" \o pl) :> S("a"))}}
ExtListTable == [pl \in {"resp", "arr", "obj"} |-> ExtLists0(pl)]
ExtLists(pl) == ExtListTable[pl]
NextExt(fr, w) == Fam[1 + ExtLen(fr.m, w)]

(* operations that a form may have where it is opened *)
FormPlace(st) == IF Len(st) > 1 THEN st[Len(st) - 1].k ELSE "thing"
OpsFor(k) == CASE k = "thing" -> ThingOps [] k = "prop" -> PropertyOps [] k = "action" -> ActionOps [] k = "event" -> EventOps

(* <<key, value>> pairs for method m on the innermost builder; with faulty values if bad *)
ArgsOf(st, fr, m, bad) ==
  CASE m \in {"finish_extend", "no_sec", "auto", "combo", "basic", "digest", "bearer", "psk", "apikey", "required", "safe", "idempotent",
              "success", "read_only", "write_only", "bool", "number", "integer", "string", "null", "tuple", "vec", "object"} -> NoArg
    [] m \in {"created", "modified"} -> SV(Times)
    [] m = "version" -> {<<"", v>> : v \in Versions}
    [] fr.k = "ctxmap" -> {<<x, S(y)>> : x \in {"ex", "saref", "$uni", ""}, y \in Uris}
    [] m = "context" /\ fr.k = "thing" -> SV(ContextUris)
    [] m = "context_map" -> NoArg
    [] fr.k = "ml" -> {<<x, S(y)>> : x \in IF bad THEN BadTags ELSE GoodTags, y \in Texts}
    [] m \in {"titles", "descriptions", "link_with", "security", "form", "additional_response"} /\ m \in DOMAIN OpenAt(fr) -> NoArg
    [] m = "hreflang" -> SV(IF bad THEN BadTags ELSE GoodTags)
    [] m = "sizes" -> SV({"16x16", "any", ""})
    [] m = "rel" -> SV(IF bad THEN {"Icon", "icons", "", "item", "icon "} ELSE {"icon", "icon", "item", "alternate", "$uni", "Icon"})
    [] m = "op" -> SV(IF bad THEN Ops ELSE OpsFor(FormPlace(st)))
    [] m = "security" -> SV(SecPool)
    [] m = "schema" -> SV(DefPool)
    [] m = "with_key" \/ (fr.k = "sec" /\ m = "name" /\ fr.p \in {"combo0", "combo"}) -> SV(SecPool)
    [] m = "location" -> SV(Locations)
    [] m = "qop" -> SV(Qops)
    [] m = "alg" -> SV({"ES256", "", "ES512-256", "$uni"})
    [] fr.k = "sec" /\ m = "format" -> SV({"jwt", "cwt", "jwe", ""})
    [] m = "oauth2" -> SV({"code", "client", "device", "", "$uni"})
    [] m = "custom" -> SV(Customs)
    [] m = "data" /\ fr.k = "sec" -> {<<"", v>> : v \in {O(EmptyFn), O("k" :> N("1")), O(("in" :> S("x")) @@ ("$uni" :> A(<<Z, True>>))), O("x:y" :> Z)}}
    [] fr.k = "sec" /\ m \in {"all_of", "one_of", "extend"} ->
         {<<"", A(s)>> : s \in {<<>>} \cup {<<S(x)>> : x \in SecPool} \cup {<<S(x), S(y)>> : x \in SecPool, y \in SecPool}}
    [] m = "push" -> SV(SecPool)
    [] m \in {"response", "response_default_ext"} ->
         IF m = "response" THEN {<<"", A(<<S(c)>> \o x)>> : c \in {"application/json", "", "$uni"}, x \in ExtLists("resp")}
         ELSE {<<"", A(<<S(c)>>)>> : c \in {"application/json", "", "$uni"}}
    [] m \in {"ext", "ext_with", "ext_interaction", "ext_interaction_with", "ext_data_schema", "ext_data_schema_with"} ->
         {<<"", v>> : v \in ExtVals(NextExt(fr, LeafAt(fr)[m].w), Place_(fr, m))}
    [] m \in {"tuple_ext", "vec_ext"} -> {<<"", A(x)>> : x \in ExtLists("arr")}
    [] m = "object_ext" -> {<<"", A(x)>> : x \in ExtLists("obj")}
    [] m \in {"synchronous", "observable"} -> Bools
    [] m \in {"constant", "default_value", "enumeration"} -> {<<"", v>> : v \in AnyVals}
    [] m = "multiple_of" -> NV(IF fr.p = "integer" THEN StepArgs ELSE IF bad THEN FloatStepsBad \cup {"$inf"} ELSE FloatStepsGood)
    [] m \in LimitMethods -> NV(IF fr.p = "integer" THEN IntArgs ELSE IF bad THEN FloatArgs \cup OddFloats ELSE FloatArgs)
    [] m \in {"min_items", "max_items", "min_length", "max_length"} -> NV(LenArgs)
    [] m = "uri_variable" -> {<<x, Z>> : x \in Names}
    [] m = "schema_definition" -> {<<x, Z>> : x \in DefPool}
    [] m \in {"property", "action", "event"} /\ fr.k = "thing" -> {<<x, Z>> : x \in Names}
    [] m = "property" -> {<<x, b[2]>> : x \in Names, b \in Bools}
    [] m \in {"input", "output", "subscription", "data", "data_response", "cancellation", "one_of", "set_item", "append"} -> NoArg
    [] m \in {"href", "link", "anchor", "proxy", "authorization", "token", "refresh", "support", "base", "profile", "id"} -> SV(Uris)
    [] m \in {"content_type"} -> SV({"application/json", "text/plain;charset=utf-8", "", "$uni"})
    [] OTHER -> SV(Texts)
=============================================================================
