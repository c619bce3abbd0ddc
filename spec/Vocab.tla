------------------------------- MODULE Vocab -------------------------------
(* The Thing Description vocabulary as wot-td reads and writes it.

   Fields(kind, sub) maps each member name of an element to a descriptor:
     c  cardinality: "1" one, "*" list, "o" one value or a list of them, "p" operations (one or list; always written
        as list; absent when empty), "m" map, "l" map keyed by language tags, "v" one schema or a list of them
     t  type of the values: a scalar type, "any", or the kind of an element
     p  presence: "r" required, "o" optional (null means absent), "n" optional where null is a value,
        "d" has the default d and is always written, "h" has the default d and is written only if different
   Norm(strict, kind, json) is the document that results from reading json as an element of that kind and writing it
   again, or Bad when it has to be refused.  strict = FALSE describes what the implementation does in the cases
   recorded as known findings (malformed members of a schema type or of a security scheme do not make it refuse). *)
EXTENDS JVal, Nums, FiniteSets

CONSTANT Fam    \* the extensions of the descriptions (names), in the order they are added

TD11 == "https://www.w3.org/2022/wot/td/v1.1"
TD10 == "https://www.w3.org/2019/wot/td/v1"

PropertyOps == {"readproperty", "writeproperty", "observeproperty", "unobserveproperty"}
ActionOps == {"invokeaction", "queryaction", "cancelaction"}
EventOps == {"subscribeevent", "unsubscribeevent"}
ThingOps == {"readallproperties", "writeallproperties", "readmultipleproperties", "writemultipleproperties",
             "observeallproperties", "unobserveallproperties", "subscribeallevents", "unsubscribeallevents",
             "queryallactions"}
Ops == PropertyOps \cup ActionOps \cup EventOps \cup ThingOps
Locations == {"header", "query", "body", "cookie", "uri"}
Qops == {"auth", "auth-int"}

(* pools of language tags: well-formed and malformed according to BCP 47 *)
GoodTags == {"en", "En", "ZH-hant-tw", "it", "en-US", "EN", "de-CH-1996", "zh-Hant-TW", "sl-rozaj-biske", "x-private", "i-klingon",
             "es-419", "en-a-bbb-x-a-ccc", "de-Latn-DE-1996", "zh-cmn-Hans-CN", "en-GB-oed", "mn-Cyrl-MN"}
BadTags == {"", "e", "en_US", "en-", "-en", "1", "en--US", "abcdefghi", "en-abcdefghij", "e n", "en-US-", "$uni", "x-", "x",
            "not a tag", "en-a", "it\"quote"}
WellTags == GoodTags \cup {"x-n" \o ToString(i) : i \in 1..260}       \* every well-formed tag among those used

(* times as written by the implementation *)
TimeCanon == ("2022-11-25T18:00:00Z" :> "2022-11-25T18:00:00Z")
          @@ ("1970-01-01T00:00:00Z" :> "1970-01-01T00:00:00Z")
          @@ ("2023-02-28T23:59:59.5Z" :> "2023-02-28T23:59:59.5Z")
          @@ ("2024-02-29T12:30:15.123456789Z" :> "2024-02-29T12:30:15.123456789Z")
          @@ ("2022-05-01T09:00:00+05:30" :> "2022-05-01T09:00:00+05:30")
          @@ ("1969-12-31T23:59:59-11:00" :> "1969-12-31T23:59:59-11:00")
          @@ ("2022-11-25T18:00:00+00:00" :> "2022-11-25T18:00:00Z")
          @@ ("2022-11-25T18:00:00.500Z" :> "2022-11-25T18:00:00.5Z")
          @@ ("2022-11-25T18:00:00.5Z" :> "2022-11-25T18:00:00.5Z")
          @@ ("0000-01-01T00:00:00Z" :> "0000-01-01T00:00:00Z")
          @@ ("9999-12-31T23:59:59Z" :> "9999-12-31T23:59:59Z")
Times == {t \in DOMAIN TimeCanon : TimeCanon[t] = t}
BadTimes == {"", "2022-11-25", "2022-13-25T18:00:00Z", "2022-02-30T18:00:00Z", "2022-11-25T25:00:00Z", "18:00:00Z",
             "2022-11-25T18:00:00", "yesterday", "2022-11-25T18:00Z"}

F(c, t, p) == [c |-> c, t |-> t, p |-> p, d |-> Nothing]
D(c, t, p, d) == [c |-> c, t |-> t, p |-> p, d |-> d]

HrFields == ("@type" :> F("o", "str", "o")) @@ ("title" :> F("1", "str", "o")) @@ ("titles" :> F("l", "str", "o"))
         @@ ("description" :> F("1", "str", "o")) @@ ("descriptions" :> F("l", "str", "o"))

ThingFields == ("@context" :> D("1", "any", "d", S(TD11))) @@ ("id" :> F("1", "str", "o"))
  @@ ("title" :> F("1", "str", "r"))
  @@ HrFields
  @@ ("version" :> F("1", "version", "o")) @@ ("created" :> F("1", "time", "o")) @@ ("modified" :> F("1", "time", "o"))
  @@ ("support" :> F("1", "str", "o")) @@ ("base" :> F("1", "str", "o"))
  @@ ("properties" :> F("m", "prop", "o")) @@ ("actions" :> F("m", "action", "o")) @@ ("events" :> F("m", "event", "o"))
  @@ ("links" :> F("*", "link", "o")) @@ ("forms" :> F("*", "form", "o"))
  @@ ("security" :> F("o", "str", "r")) @@ ("securityDefinitions" :> F("m", "sec", "r"))
  @@ ("uriVariables" :> F("m", "schema", "o")) @@ ("profile" :> F("o", "str", "o"))
  @@ ("schemaDefinitions" :> F("m", "schema", "o"))

VersionFields == ("instance" :> F("1", "str", "r")) @@ ("model" :> F("1", "str", "o"))

LinkFields == ("href" :> F("1", "str", "r")) @@ ("type" :> F("1", "str", "o")) @@ ("rel" :> F("1", "str", "o"))
  @@ ("anchor" :> F("1", "str", "o")) @@ ("sizes" :> F("1", "str", "o")) @@ ("hreflang" :> F("o", "lang", "o"))

FormFields == ("op" :> F("p", "op", "o")) @@ ("href" :> F("1", "str", "r")) @@ ("contentType" :> F("1", "str", "o"))
  @@ ("contentCoding" :> F("1", "str", "o")) @@ ("subprotocol" :> F("1", "str", "o"))
  @@ ("security" :> F("o", "str", "o")) @@ ("scopes" :> F("o", "str", "o"))
  @@ ("response" :> F("1", "resp", "o")) @@ ("additionalResponses" :> F("o", "aresp", "o"))

RespFields == "contentType" :> F("1", "str", "r")
ArespFields == ("success" :> D("1", "bool", "h", False)) @@ ("contentType" :> F("1", "str", "o"))
  @@ ("schema" :> F("1", "str", "o"))

InteractionFields == HrFields @@ ("forms" :> F("*", "form", "r")) @@ ("uriVariables" :> F("m", "schema", "o"))
ActionFields == InteractionFields @@ ("input" :> F("1", "schema", "o")) @@ ("output" :> F("1", "schema", "o"))
  @@ ("safe" :> D("1", "bool", "d", False)) @@ ("idempotent" :> D("1", "bool", "d", False))
  @@ ("synchronous" :> F("1", "bool", "o"))
(* the vocabulary says dataResponse; see the known findings for the name that is written *)
EventFields == InteractionFields @@ ("subscription" :> F("1", "schema", "o")) @@ ("data" :> F("1", "schema", "o"))
  @@ ("dataResponse" :> F("1", "schema", "o")) @@ ("cancellation" :> F("1", "schema", "o"))

SchemaCommon == HrFields @@ ("const" :> F("1", "any", "n")) @@ ("default" :> F("1", "any", "n"))
  @@ ("unit" :> F("1", "str", "o")) @@ ("oneOf" :> F("*", "schema", "o")) @@ ("enum" :> F("*", "any", "o"))
  @@ ("readOnly" :> D("1", "bool", "d", False)) @@ ("writeOnly" :> D("1", "bool", "d", False))
  @@ ("format" :> F("1", "str", "o"))
SchemaTypes == {"array", "boolean", "number", "integer", "object", "string", "null"}
NoFields == [x \in {} |-> F("1", "any", "o")]
LimitNames == {"minimum", "exclusiveMinimum", "maximum", "exclusiveMaximum"}
LimitFields(t) == [x \in LimitNames |-> F("1", t, "o")]
SubtypeFields(ty) == CASE ty = "array" -> ("items" :> F("v", "schema", "o")) @@ ("minItems" :> F("1", "u32", "o"))
                                          @@ ("maxItems" :> F("1", "u32", "o"))
                       [] ty = "number" -> LimitFields("f64") @@ ("multipleOf" :> F("1", "f64", "o"))
                       [] ty = "integer" -> LimitFields("i64") @@ ("multipleOf" :> F("1", "u64nz", "o"))
                       [] ty = "object" -> ("properties" :> F("m", "schema", "o")) @@ ("required" :> F("*", "str", "o"))
                       [] ty = "string" -> ("minLength" :> F("1", "u32", "o")) @@ ("maxLength" :> F("1", "u32", "o"))
                                          @@ ("pattern" :> F("1", "str", "o")) @@ ("contentEncoding" :> F("1", "str", "o"))
                                          @@ ("contentMediaType" :> F("1", "str", "o"))
                       [] OTHER -> NoFields
TypeField == "type" :> F("1", "str", "r")
SchemaFields(ty) == SchemaCommon @@ (IF ty \in SchemaTypes THEN TypeField @@ SubtypeFields(ty) ELSE NoFields)
PropFields(ty) == SchemaFields(ty) @@ InteractionFields @@ ("observable" :> F("1", "bool", "o"))

SecCommon == ("@type" :> F("o", "str", "o")) @@ ("description" :> F("1", "str", "o"))
  @@ ("descriptions" :> F("l", "str", "o")) @@ ("proxy" :> F("1", "str", "o")) @@ ("scheme" :> F("1", "str", "r"))
KnownSchemes == {"nosec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey"}
NameIn(loc) == ("name" :> F("1", "str", "o")) @@ ("in" :> D("1", "loc", "d", S(loc)))
SchemeFields(sc) == CASE sc = "combo" -> ("oneOf" :> F("o", "str", "o")) @@ ("allOf" :> F("o", "str", "o"))
                      [] sc = "basic" -> NameIn("header")
                      [] sc = "digest" -> NameIn("header") @@ ("qop" :> D("1", "qop", "d", S("auth")))
                      [] sc = "apikey" -> NameIn("query")
                      [] sc = "bearer" -> NameIn("header") @@ ("authorization" :> F("1", "str", "o"))
                                          @@ ("alg" :> D("1", "str", "d", S("ES256")))
                                          @@ ("format" :> D("1", "str", "d", S("jwt")))
                      [] sc = "psk" -> "identity" :> F("1", "str", "o")
                      [] sc = "oauth2" -> ("authorization" :> F("1", "str", "o")) @@ ("token" :> F("1", "str", "o"))
                                          @@ ("refresh" :> F("1", "str", "o")) @@ ("scopes" :> F("o", "str", "o"))
                                          @@ ("flow" :> F("1", "str", "r"))
                      [] OTHER -> NoFields
SecFields(sc) == SecCommon @@ SchemeFields(sc)

(* Extensions: members of their own for each place *)
HttpMethods == {"GET", "PUT", "POST", "DELETE", "PATCH"}
CoapMethods == HttpMethods \cup {"FETCH", "iPATCH"}
MqttPackets == {"mqv:publish", "mqv:subscribe", "mqv:unsubscribe"}
MqttQos == {"quality:0", "quality:1", "quality:2"}
BlockSizes == {"16", "32", "64", "128", "256", "512", "1024"}
HeaderFields == ("htv:fieldName" :> F("1", "str", "o")) @@ ("htv:fieldValue" :> F("1", "str", "o"))
BlockFields == ("cov:block2Size" :> F("1", "blocksize", "o")) @@ ("cov:block1Size" :> F("1", "blocksize", "o"))
ExtFieldsOf(f, pl) ==
  CASE f \in {"a", "b"} -> LET w == f \o ":" \o pl IN (w :> F("1", "any", "o")) @@ ((w \o "2") :> F("1", "any", "o"))
    [] f = "http" /\ pl = "form" -> "htv:methodName" :> F("1", "http", "o")
    [] f = "http" /\ pl = "resp" -> ("htv:headers" :> D("*", "header", "h", A(<<>>))) @@ ("htv:statusCodeValue" :> F("1", "u64", "o"))
    [] f = "coap" /\ pl = "form" -> ("cov:method" :> F("1", "coap", "o")) @@ ("cov:blockwise" :> F("1", "block", "o"))
                                    @@ ("cov:qblockwise" :> F("1", "block", "o")) @@ ("cov:hopLimit" :> F("1", "u8", "o"))
                                    @@ ("cov:accept" :> F("1", "u16", "o")) @@ ("cov:contentFormat" :> F("1", "u16", "o"))
    [] f = "coap" /\ pl = "resp" -> "cov:contentFormat" :> F("1", "u16", "o")
    [] f = "mqtt" /\ pl = "form" -> ("mqv:retain" :> D("1", "bool", "h", False)) @@ ("mqv:controlPacket" :> F("1", "packet", "o"))
                                    @@ ("mqv:qos" :> F("1", "qos", "o")) @@ ("mqv:topic" :> F("1", "str", "o"))
                                    @@ ("mqv:filter" :> D("o", "str", "h", A(<<>>)))
    [] OTHER -> NoFields
RECURSIVE ExtFieldsUpTo(_, _)
ExtFieldsUpTo(pl, i) == IF i = 0 THEN NoFields ELSE ExtFieldsUpTo(pl, i - 1) @@ ExtFieldsOf(Fam[i], pl)
ExtFields(pl) == ExtFieldsUpTo(pl, Len(Fam))
(* the places of the extensions of an element *)
ExtPlaces(k, sub) ==
  LET data == {"ds"} \cup (IF sub = "array" THEN {"arr"} ELSE IF sub = "object" THEN {"obj"} ELSE {})
  IN CASE k = "thing" -> {"thing"} [] k = "form" -> {"form"} [] k = "resp" -> {"resp"}
       [] k = "action" -> {"int", "act"} [] k = "event" -> {"int", "ev"} [] k = "prop" -> {"int", "prop"} \cup data
       [] k = "schema" -> data [] OTHER -> {}
RECURSIVE JoinFields(_)
JoinFields(pls) == IF pls = {} THEN NoFields ELSE LET x == CHOOSE y \in pls : TRUE IN ExtFields(x) @@ JoinFields(pls \ {x})
ExtOf(k, sub) == JoinFields(ExtPlaces(k, sub))

ElementKinds == {"thing", "version", "link", "form", "resp", "aresp", "prop", "action", "event", "schema", "sec", "header", "block"}

(* constant tables, evaluated once *)
SchemaTable == [ty \in SchemaTypes \cup {""} |-> SchemaFields(ty) @@ ExtOf("schema", ty)]
PropTable == [ty \in SchemaTypes \cup {""} |-> PropFields(ty) @@ ExtOf("prop", ty)]
SecTable == [sc \in KnownSchemes \cup {""} |-> SecFields(sc)]
PlainTable == [k \in ElementKinds \ {"schema", "prop", "sec"} |->
  ExtOf(k, "") @@
  CASE k = "thing" -> ThingFields [] k = "version" -> VersionFields [] k = "link" -> LinkFields
    [] k = "form" -> FormFields [] k = "resp" -> RespFields [] k = "aresp" -> ArespFields
    [] k = "action" -> ActionFields [] k = "event" -> EventFields [] k = "header" -> HeaderFields [] k = "block" -> BlockFields]

Fields(k, sub) == CASE k = "prop" -> PropTable[IF sub \in SchemaTypes THEN sub ELSE ""]
                    [] k = "schema" -> SchemaTable[IF sub \in SchemaTypes THEN sub ELSE ""]
                    [] k = "sec" -> SecTable[IF sub \in KnownSchemes THEN sub ELSE ""]
                    [] OTHER -> PlainTable[k]

(* the member that selects the fields of an element *)
SubOf(k, o) == LET w == IF k = "sec" THEN "scheme" ELSE "type"
               IN IF k \in {"schema", "prop", "sec"} /\ w \in DOMAIN o /\ IsS(o[w]) THEN o[w][2] ELSE ""

-----------------------------------------------------------------------------
(* Reading *)

RECURSIVE Norm(_, _, _)

ScalarOk(t, j) ==
  CASE t = "any" -> TRUE
    [] t = "str" -> IsS(j)
    [] t = "bool" -> IsB(j)
    [] t = "time" -> IsS(j) /\ j[2] \in DOMAIN TimeCanon
    [] t = "lang" -> IsS(j) /\ j[2] \in WellTags
    [] t = "op" -> IsS(j) /\ j[2] \in Ops
    [] t = "loc" -> IsS(j) /\ j[2] \in Locations
    [] t = "qop" -> IsS(j) /\ j[2] \in Qops
    [] t = "u32" -> IsN(j) /\ j[2] \in U32
    [] t = "u8" -> IsN(j) /\ j[2] \in U8
    [] t = "u16" -> IsN(j) /\ j[2] \in U16
    [] t = "u64" -> IsN(j) /\ j[2] \in U64
    [] t = "http" -> IsS(j) /\ j[2] \in HttpMethods
    [] t = "coap" -> IsS(j) /\ j[2] \in CoapMethods
    [] t = "packet" -> IsS(j) /\ j[2] \in MqttPackets
    [] t = "qos" -> IsS(j) /\ j[2] \in MqttQos
    [] t = "blocksize" -> IsN(j) /\ j[2] \in BlockSizes
    [] t = "i64" -> IsN(j) /\ j[2] \in I64
    [] t = "u64nz" -> IsN(j) /\ j[2] \in NonZeroU64
    [] t = "f64" -> IsN(j)

NormT(strict, t, j) ==
  IF t \in ElementKinds THEN Norm(strict, t, j)
  ELSE IF ~ScalarOk(t, j) THEN Bad
  ELSE IF t = "time" THEN S(TimeCanon[j[2]]) ELSE j

NormList(strict, t, s) == LET r == [i \in DOMAIN s |-> NormT(strict, t, s[i])]
                          IN IF \E i \in DOMAIN r : r[i] = Bad THEN Bad ELSE A(r)

NormMap(strict, t, m) == LET r == [x \in DOMAIN m |-> NormT(strict, t, m[x])]
                         IN IF \E x \in DOMAIN r : r[x] = Bad THEN Bad ELSE O(r)

(* Nothing: the member is treated as if it were not there *)
NormField(strict, f, j) ==
  IF IsZ(j) /\ f.p = "o" THEN Nothing
  ELSE CASE f.c = "1" -> NormT(strict, f.t, j)
         [] f.c = "*" -> IF IsA(j) THEN NormList(strict, f.t, j[2]) ELSE Bad
         [] f.c = "o" -> LET r == IF IsA(j) THEN NormList(strict, f.t, j[2]) ELSE NormList(strict, f.t, <<j>>)
                         IN IF r = Bad THEN Bad ELSE OneOrMany(r[2])
         [] f.c = "p" -> LET r == IF IsA(j) THEN NormList(strict, f.t, j[2]) ELSE NormList(strict, f.t, <<j>>)
                         IN IF r = Bad THEN Bad ELSE IF r[2] = <<>> THEN Nothing ELSE r
         [] f.c = "m" -> IF IsO(j) THEN NormMap(strict, f.t, j[2]) ELSE Bad
         [] f.c = "l" -> IF IsO(j) /\ DOMAIN j[2] \subseteq WellTags THEN NormMap(strict, f.t, j[2]) ELSE Bad
         [] f.c = "v" -> IF IsA(j) THEN NormList(strict, f.t, j[2]) ELSE NormT(strict, f.t, j)

FieldOf(strict, f, o, w) ==
  IF w \notin DOMAIN o
  THEN IF f.p = "r" THEN Bad ELSE IF f.p = "d" THEN f.d ELSE Nothing
  ELSE LET r == NormField(strict, f, o[w]) IN IF f.p = "h" /\ r = f.d THEN Nothing ELSE r

NormFields(strict, fs, o) ==
  LET r == [w \in DOMAIN fs |-> FieldOf(strict, fs[w], o, w)]
  IN IF \E w \in DOMAIN r : r[w] = Bad THEN Bad
     ELSE O([w \in {x \in DOMAIN r : r[x] # Nothing} |-> r[w]])

(* known finding: a malformed limit is dropped, any other malformed member drops the whole type *)
LaxSubtype(ty, o) ==
  LET fs == SubtypeFields(ty) @@ (IF ty = "array" THEN ExtFields("arr") ELSE IF ty = "object" THEN ExtFields("obj") ELSE NoFields)
      r == [w \in DOMAIN fs |-> FieldOf(FALSE, fs[w], o, w)]
  IN IF \E w \in DOMAIN r \ LimitNames : r[w] = Bad THEN EmptyFn
     ELSE ("type" :> S(ty)) @@ [w \in {x \in DOMAIN r : r[x] \notin {Nothing, Bad}} |-> r[w]]

(* known finding: the tag may be the index of the term *)
Types == <<"array", "boolean", "number", "integer", "object", "string", "null">>
Schemes_ == <<"nosec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey">>
Digit == ("0" :> 1) @@ ("1" :> 2) @@ ("2" :> 3) @@ ("3" :> 4) @@ ("4" :> 5) @@ ("5" :> 6) @@ ("6" :> 7) @@ ("7" :> 8) @@ ("8" :> 9)
Untag(strict, w, names, o) ==
  IF strict \/ w \notin DOMAIN o THEN o
  ELSE IF IsN(o[w]) /\ o[w][2] \in DOMAIN Digit /\ Digit[o[w][2]] <= Len(names) THEN [o EXCEPT ![w] = S(names[Digit[o[w][2]]])] ELSE o
NumTagged(w, o) == w \in DOMAIN o /\ IsN(o[w])

NormSchema(strict, k, o_) ==
  LET o == Untag(strict, "type", Types, o_)
      sub == SubOf(k, o)
      untyped == "type" \notin DOMAIN o
      rest == NormFields(strict, Without(Fields(k, ""), {}), o)
  IN IF strict
     THEN IF untyped THEN rest
          ELSE IF sub \notin SchemaTypes THEN Bad
          ELSE NormFields(TRUE, Fields(k, sub), o)
     ELSE IF rest = Bad THEN Bad
          ELSE IF untyped \/ sub \notin SchemaTypes THEN rest
          ELSE O(rest[2] @@ LaxSubtype(sub, o))

ComboOk(o) == Cardinality({w \in {"oneOf", "allOf"} \cap DOMAIN o : ~IsZ(o[w])}) = 1
NormSec(strict, o_) ==
  LET o == Untag(strict, "scheme", Schemes_, o_)
      sub == SubOf("sec", o)
      common == NormFields(strict, SecCommon, o)
      verbatim == IF common = Bad THEN Bad ELSE O(common[2] @@ Without(o, DOMAIN SecCommon))
      fields == NormFields(strict, Fields("sec", sub), o)
      known == IF sub # "combo" THEN fields
               ELSE IF ~ComboOk(o) THEN Bad ELSE fields
  IN IF sub \notin KnownSchemes THEN verbatim
     ELSE IF known # Bad THEN known
     ELSE IF strict \/ NumTagged("scheme", o_) THEN Bad ELSE verbatim

Norm(strict, k, j) ==
  IF ~IsO(j) THEN Bad
  ELSE IF k \in {"schema", "prop"} THEN NormSchema(strict, k, j[2])
  ELSE IF k = "sec" THEN NormSec(strict, j[2])
  ELSE NormFields(strict, Fields(k, ""), j[2])

Read(j) == Norm(TRUE, "thing", j)
ReadAsIs(j) == Norm(FALSE, "thing", j)
=============================================================================
