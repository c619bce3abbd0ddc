-------------------------------- MODULE Docs --------------------------------
(* Documents of other producers: a document is edited step by step, one member of one element at a time, with proper and
   improper values; what reading it must give is Read (ReadAsIs for the recorded findings). *)
EXTENDS Vocab, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, CSV, IOUtils

VARIABLES doc,      \* the document
          phase     \* what happens next

dvars == <<doc, phase>>

FamSeq == CASE IOEnv.FAM = "" -> <<>> [] IOEnv.FAM = "a,b" -> <<"a", "b">> [] OTHER -> <<IOEnv.FAM>>

(***************************************************************************)
(* Values                                                                   *)
(***************************************************************************)
Weird == O("not a tag" :> S("x"))
Wrongs == {True, N("1"), N("1.5"), N("-1"), S("x"), A(<<>>), O(EmptyFn), Weird, A(<<True>>)}
Texts == {S(""), S("x"), S("$uni"), S("$json"), S("null"), S("0"), S("$long"), S("$ctl")}
AnyPool == {S(""), S("$uni"), N("0"), N("-1"), N("1.5"), N("-9223372036854775808"), N("18446744073709551615"), N("1e300"), True, False, Z,
            A(<<>>), A(<<Z, N("1"), A(<<>>)>>), O(EmptyFn), O("k" :> Z), O(("type" :> S("object")) @@ ("const" :> Z)), A(<<S("x")>>)}
NumPool == {N(x) : x \in NumTokens \ Special}
Strings(s) == {S(x) : x \in s}
TermPool == Strings({"Header", "HEADER", "head", "get", "Get", "FETCH", "GET", "iPATCH", "ipatch", "AUTH", "auth_int", "readProperty", "read_property",
                     "publish", "mqv:publishs", "quality:3", "0", "16", "", "true"})
FewNums == {N(x) : x \in {"0", "1", "-1", "1.5", "1.0", "16", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616"}}

MinSub(k, sub) ==
  CASE k = "thing" -> ("title" :> S("T")) @@ ("security" :> A(<<>>)) @@ ("securityDefinitions" :> O(EmptyFn)) @@ ("@context" :> S(TD11))
    [] k = "version" -> "instance" :> S("1")
    [] k = "link" -> "href" :> S("/l")
    [] k = "form" -> "href" :> S("/f")
    [] k = "resp" -> "contentType" :> S("a/b")
    [] k \in {"action", "event"} -> "forms" :> A(<<>>)
    [] k = "prop" -> ("forms" :> A(<<>>)) @@ (IF sub = "" THEN EmptyFn ELSE "type" :> S(sub))
    [] k = "schema" -> IF sub = "" THEN EmptyFn ELSE "type" :> S(sub)
    [] k = "sec" -> ("scheme" :> S(IF sub = "" THEN "x:custom" ELSE sub))
                    @@ (IF sub = "combo" THEN "oneOf" :> A(<<S("a"), S("b")>>) ELSE IF sub = "oauth2" THEN "flow" :> S("code") ELSE EmptyFn)
    [] OTHER -> EmptyFn
Subs(k) == IF k \in {"schema", "prop"} THEN SchemaTypes \cup {""} ELSE IF k = "sec" THEN KnownSchemes \cup {""} ELSE {""}
MinEl(k, sub) == O(MinSub(k, sub))
SomeEls(k) == {MinEl(k, sub) : sub \in Subs(k)}

Pool(t) ==
  CASE t = "any" -> AnyPool
    [] t = "str" -> Texts \cup Wrongs
    [] t = "bool" -> {True, False} \cup Wrongs \cup {S("true"), N("0")}
    [] t = "time" -> Strings(DOMAIN TimeCanon) \cup Strings(BadTimes) \cup Wrongs
    [] t = "lang" -> Strings(GoodTags \cup BadTags) \cup Wrongs
    [] t = "op" -> Strings(Ops) \cup TermPool \cup Wrongs
    [] t = "loc" -> Strings(Locations) \cup TermPool \cup Wrongs
    [] t = "qop" -> Strings(Qops) \cup TermPool \cup Wrongs
    [] t = "http" -> Strings(HttpMethods) \cup TermPool \cup Wrongs
    [] t = "coap" -> Strings(CoapMethods) \cup TermPool \cup Wrongs
    [] t = "packet" -> Strings(MqttPackets) \cup TermPool \cup Wrongs
    [] t = "qos" -> Strings(MqttQos) \cup TermPool \cup Wrongs
    [] t \in {"u8", "u16", "u32", "u64", "i64", "u64nz", "f64", "blocksize"} -> NumPool \cup Wrongs \cup {S("1")}
    [] OTHER -> SomeEls(t) \cup (Wrongs \ {A(<<True>>)})
(* one proper value of a type *)
One(t) ==
  CASE t = "any" -> O("k" :> N("1")) [] t = "str" -> S("x") [] t = "bool" -> True [] t = "time" -> S("2022-11-25T18:00:00Z")
    [] t = "lang" -> S("en") [] t = "op" -> S("readproperty") [] t = "loc" -> S("body") [] t = "qop" -> S("auth-int")
    [] t = "http" -> S("PATCH") [] t = "coap" -> S("iPATCH") [] t = "packet" -> S("mqv:subscribe") [] t = "qos" -> S("quality:1")
    [] t = "blocksize" -> N("64") [] t \in {"u8", "u16", "u32", "u64", "i64", "u64nz", "f64"} -> N("5")
    [] t \in {"schema"} -> MinEl("schema", "boolean") [] t = "prop" -> MinEl("prop", "null") [] t = "sec" -> MinEl("sec", "basic")
    [] OTHER -> MinEl(t, "")
Two_(t) == IF t = "str" THEN S("y") ELSE IF t = "op" THEN S("writeproperty") ELSE IF t = "lang" THEN S("it") ELSE One(t)

InCard(f, pool) ==
  LET g == One(f.t)
  IN CASE f.c = "1" -> pool
       [] f.c = "*" -> {A(<<>>), g, Weird} \cup {A(<<v>>) : v \in pool} \cup {A(<<g, v>>) : v \in pool} \cup {A(<<v, g, g>>) : v \in pool}
       [] f.c \in {"o", "p"} -> {A(<<>>)} \cup pool \cup {A(<<v>>) : v \in pool} \cup {A(<<g, v>>) : v \in pool} \cup {A(<<v, g, g>>) : v \in pool}
       [] f.c = "m" -> {O(EmptyFn), A(<<>>), A(<<g>>), True, S("x")} \cup {O("k" :> v) : v \in pool} \cup {O(("k" :> g) @@ ("$uni" :> v)) : v \in pool}
       [] f.c = "l" -> {O(EmptyFn), A(<<>>), True, S("x")} \cup {O("en" :> v) : v \in pool} \cup {O(t :> g) : t \in GoodTags \cup BadTags}
                       \cup {O(("it" :> g) @@ (t :> S("2"))) : t \in (GoodTags \cup BadTags) \ {"it"}}
       [] f.c = "v" -> {A(<<>>)} \cup pool \cup {A(<<v>>) : v \in pool} \cup {A(<<g, v>>) : v \in pool}
Nullable(f) == f.p \in {"o", "n"}
ValuesOf(f) == InCard(f, Pool(f.t)) \cup (IF Nullable(f) THEN {Z} ELSE {})

(* a proper value of a member, with several things in it where possible *)
Canon(f) == CASE f.c = "1" -> One(f.t) [] f.c \in {"*", "o", "p"} -> A(<<One(f.t), Two_(f.t)>>) [] f.c = "m" -> O(("k" :> One(f.t)) @@ ("l" :> One(f.t)))
              [] f.c = "l" -> O(("en" :> S("x")) @@ ("it" :> S("y"))) [] f.c = "v" -> A(<<One(f.t), One(f.t)>>)

Partner == ("minimum" :> "exclusiveMinimum") @@ ("exclusiveMinimum" :> "minimum") @@ ("maximum" :> "exclusiveMaximum") @@ ("exclusiveMaximum" :> "maximum")
Fixed == {"type", "scheme"}
FieldsAt(k, sub) == Fields(k, sub)
(* known finding both-limits: no document has both kinds of a limit *)
Put(o, w, v) == (w :> v) @@ (IF w \in DOMAIN Partner THEN Without(o, {Partner[w]}) ELSE o)
FullEl(k, sub) ==
  LET fs == FieldsAt(k, sub)
      ws == {w \in DOMAIN fs : w \notin Fixed \cup {"exclusiveMinimum", "maximum"} /\ ~(sub = "combo" /\ w = "allOf")}
  IN O(MinSub(k, sub) @@ [w \in ws |-> Canon(fs[w])])

(***************************************************************************)
(* Places                                                                   *)
(***************************************************************************)
InThing(w, v) == O((w :> v) @@ MinSub("thing", ""))
In1(k, sub, w, v) == O((w :> v) @@ MinSub(k, sub))
InAff(w, k, v) == InThing(w, O(("n" :> v) @@ ("o" :> MinEl(k, ""))))
InForm(w, v) == InAff("properties", "prop", In1("prop", "integer", "forms", A(<<In1("form", "", w, v)>>)))
SchemaPlaces == {"thing-uri", "definition", "prop-uri", "input", "output", "action-uri", "subscription", "data", "dataResponse", "cancellation", "event-uri"}
SchemaAt(pl, v) ==
  CASE pl = "thing-uri" -> InThing("uriVariables", O("u" :> v)) [] pl = "definition" -> InThing("schemaDefinitions", O(("d" :> v) @@ ("e" :> MinEl("schema", "null"))))
    [] pl = "prop-uri" -> InAff("properties", "prop", In1("prop", "", "uriVariables", O("u" :> v)))
    [] pl \in {"input", "output"} -> InAff("actions", "action", In1("action", "", pl, v))
    [] pl = "action-uri" -> InAff("actions", "action", In1("action", "", "uriVariables", O("u" :> v)))
    [] pl = "event-uri" -> InAff("events", "event", In1("event", "", "uriVariables", O("u" :> v)))
    [] OTHER -> InAff("events", "event", In1("event", "", pl, v))
WrapIn == {"direct", "items", "items1", "items2", "member", "oneOf"}
WrapSchema(w, v) ==
  CASE w = "direct" -> v [] w = "items" -> In1("schema", "array", "items", v)
    [] w = "items1" -> In1("schema", "array", "items", A(<<v>>)) [] w = "items2" -> In1("schema", "array", "items", A(<<MinEl("schema", "boolean"), v>>))
    [] w = "member" -> In1("schema", "object", "properties", O(("m" :> v) @@ ("l" :> MinEl("schema", ""))))
    [] w = "oneOf" -> In1("schema", "", "oneOf", A(<<MinEl("schema", "string"), v>>))
FormPlaces == {"thing", "properties", "actions", "events"}
KindOf == ("properties" :> "prop") @@ ("actions" :> "action") @@ ("events" :> "event")
FormAt(pl, v) == IF pl = "thing" THEN InThing("forms", A(<<v>>)) ELSE InAff(pl, KindOf[pl], In1(KindOf[pl], "", "forms", A(<<v, MinEl("form", "")>>)))
(* the element of kind k in a document; pl tells where *)
Embed(k, pl, v) ==
  CASE k = "thing" -> v
    [] k = "version" -> InThing("version", v) [] k = "link" -> InThing("links", A(<<MinEl("link", ""), v>>))
    [] k = "form" -> FormAt(pl[1], v)
    [] k = "resp" -> FormAt(pl[1], In1("form", "", "response", v))
    [] k = "aresp" -> FormAt(pl[1], In1("form", "", "additionalResponses", A(<<MinEl("aresp", ""), v>>)))
    [] k = "prop" -> InAff("properties", "prop", v) [] k = "action" -> InAff("actions", "action", v) [] k = "event" -> InAff("events", "event", v)
    [] k = "schema" -> SchemaAt(pl[1], WrapSchema(pl[2], v))
    [] k = "sec" -> InThing("securityDefinitions", O(("s" :> v) @@ ("t" :> MinEl("sec", "nosec"))))
    [] k = "header" -> FormAt("properties", In1("form", "", "response", In1("resp", "", "htv:headers", A(<<v>>))))
    [] k = "block" -> FormAt("actions", In1("form", "", pl[1], v))
PlacesOf(k) == CASE k \in {"form", "resp", "aresp"} -> {<<p, "">> : p \in FormPlaces} [] k = "schema" -> SchemaPlaces \X WrapIn
                 [] k = "block" -> {<<"cov:blockwise", "">>, <<"cov:qblockwise", "">>} [] OTHER -> {<<"", "">>}
Place1(k) == CASE k \in {"form", "resp", "aresp"} -> <<"events", "">> [] k = "schema" -> <<"input", "direct">> [] k = "block" -> <<"cov:blockwise", "">> [] OTHER -> <<"", "">>
HasKind(k) == CASE k = "header" -> "http" \in {Fam[i] : i \in DOMAIN Fam} [] k = "block" -> "coap" \in {Fam[i] : i \in DOMAIN Fam} [] OTHER -> TRUE

Unknown == {"zzz", "Title", "type ", "data_schema", "$schema", "x:y", "properties_"}
ExtNames == UNION {DOMAIN ExtFieldsOf(f, pl) : f \in {"a", "http", "coap", "mqtt"}, pl \in {"form", "resp", "thing", "prop", "ds", "int", "act", "ev", "arr", "obj"}}
(* unknown members: also those of extensions that are not there *)
Foreign(k) == (Unknown \cup ExtNames) \ UNION {DOMAIN Fields(k, sub) : sub \in Subs(k)}

(* all edits of one member of an element *)
Edits(k, sub, o) ==
  LET fs == FieldsAt(k, sub)
  IN {<<w, Put(o, w, v)>> : <<w, v>> \in UNION {{<<w, v>> : v \in ValuesOf(fs[w])} : w \in DOMAIN fs \ Fixed}}
     \cup {<<w, Without(o, {w})>> : w \in DOMAIN o}
Indices == {N(x) : x \in {"0", "2", "3", "4", "5", "7", "10", "5.0"}}
Foreigns(k, o) == {<<w, Put(o, w, v)>> : w \in Foreign(k), v \in {S("x"), Z, O("k" :> A(<<>>))}}
Selects(k, o) == IF k \in {"schema", "prop"} THEN {<<"type", Put(o, "type", v)>> : v \in Strings(SchemaTypes \cup {"Array", "", "any", "float"}) \cup Wrongs \cup Indices}
                 ELSE IF k = "sec" THEN {<<"scheme", Put(o, "scheme", v)>> : v \in Strings(KnownSchemes \cup {"Basic", "", "x:y"}) \cup Wrongs \cup Indices} ELSE {}

(***************************************************************************)
(* Records                                                                  *)
(***************************************************************************)
NoSchemes(d) == IF IsO(d) /\ "securityDefinitions" \in DOMAIN d[2] THEN O([d[2] EXCEPT !["securityDefinitions"] = O(EmptyFn)]) ELSE d
RECURSIVE HasNumTag(_)
HasNumTag(j) == CASE IsO(j) -> NumTagged("type", j[2]) \/ NumTagged("scheme", j[2]) \/ \E x \in DOMAIN j[2] : HasNumTag(j[2][x])
                  [] IsA(j) -> \E i \in DOMAIN j[2] : HasNumTag(j[2][i]) [] OTHER -> FALSE
Finding(d) == IF Read(d) = ReadAsIs(d) THEN ""
              ELSE IF HasNumTag(d) THEN "numeric-tag"
              ELSE IF Read(NoSchemes(d)) # ReadAsIs(NoSchemes(d)) THEN "malformed-schema-member-dropped" ELSE "malformed-scheme-kept"
ClassOf(w) == CASE w \in {"htv:methodName", "htv:headers", "htv:statusCodeValue", "htv:fieldName", "htv:fieldValue"} -> <<"C18">>
                [] w \in DOMAIN ExtFieldsOf("coap", "form") \cup DOMAIN ExtFieldsOf("mqtt", "form") \cup DOMAIN BlockFields -> <<"C18">>
                [] w \in UNION {DOMAIN ExtFieldsOf(f, pl) : f \in {"a", "b"}, pl \in {"form", "resp", "thing", "prop", "ds", "int", "act", "ev", "arr", "obj"}} -> <<"C17">>
                [] w = "op" -> <<"C02">> [] OTHER -> <<>>
Rec(d, w, n) == [t |-> "read", fam |-> IOEnv.FAM, doc |-> d, ideal |-> Read(d), asis |-> ReadAsIs(d), finding |-> Finding(d), why |-> w,
                 classes |-> ClassOf(w), seed |-> n]
EmitDoc(d, w, n) == CSVWrite("%1$s", <<ToJson(Rec(d, w, n))>>, IOEnv.OUT)

(* properties of the reader *)
Faithful(d) == LET r == Read(d) IN r # Bad => /\ ReadAsIs(d) = r
                                              /\ Read(r) = r
LaxFaithful(d) == LET r == ReadAsIs(d) IN r # Bad => ReadAsIs(r) = r
=============================================================================
