------------------------------ MODULE Builder ------------------------------
(* The builders of wot-td as a state machine.

   A state is a stack of open builders (frames), each with the raw content given so far; a step is one public builder
   call on the innermost builder, opening a nested builder (a closure call), or closing it.  What a call may follow is
   the typestate of the Rust builders: LeafAt and OpenAt give the methods that exist at a point.
   Build is the last step: it gives either an error or a description.

   Events (elements of hist) are tuples <<form, method, key, value>> with form "." (call), "(" (call that opens a
   nested builder) or ")" (end of the nested builder).

   Raw elements are <<"e", kind, mem>>, mem mapping member names to the sequence of <<key, value>> given for it; names
   starting with % are not members of the document. *)
EXTENDS Vocab, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANT Menu(_)     \* the calls tried in a state, given the stack

VARIABLES stack, hist, result

vars == <<stack, hist, result>>

NExt == Len(Fam)

El(k, m) == <<"e", k, m>>
EmptyMem == [x \in {} |-> <<>>]

(***************************************************************************)
(* The methods of each builder                                              *)
(***************************************************************************)
L(e, w) == [e |-> e, w |-> w]
HrLeaf == ("attype" :> L("app", "@type")) @@ ("title" :> L("set", "title")) @@ ("description" :> L("set", "description"))
MlOpen(w) == [k |-> "ml", e |-> "set", w |-> w]
HrOpen == ("titles" :> MlOpen("titles")) @@ ("descriptions" :> MlOpen("descriptions"))
NoLeaf == [x \in {} |-> L("set", "")]
NoOpen == [x \in {} |-> MlOpen("")]
Op(k, e, w) == [k |-> k, e |-> e, w |-> w]

ExtLen(m, w) == IF w \in DOMAIN m THEN Len(m[w]) ELSE 0
ExtLeaf(m, name, w) == IF ExtLen(m, w) < NExt THEN (name :> L("app", w)) @@ ((name \o "_with") :> L("app", w)) ELSE NoLeaf
ExtDone(m, w) == ExtLen(m, w) = NExt

ThingLeafBoth == ("id" :> L("set", "id")) @@ ("description" :> L("set", "description"))
  @@ ("version" :> L("version", "version")) @@ ("created" :> L("set", "created")) @@ ("modified" :> L("set", "modified"))
  @@ ("support" :> L("set", "support")) @@ ("base" :> L("set", "base")) @@ ("context" :> L("context", "@context"))
  @@ ("attype" :> L("app", "@type")) @@ ("profile" :> L("app", "profile")) @@ ("link" :> L("link", "links"))
ThingOpenBoth == HrOpen @@ ("context_map" :> Op("ctxmap", "app", "@context")) @@ ("link_with" :> Op("link", "app", "links"))
  @@ ("security" :> Op("sec", "sec", "securityDefinitions"))
ThingOpenExt == ("form" :> Op("form", "app", "forms")) @@ ("uri_variable" :> Op("schema", "put", "uriVariables"))
  @@ ("schema_definition" :> Op("schema", "put", "schemaDefinitions"))
  @@ ("property" :> Op("prop", "put", "properties")) @@ ("action" :> Op("action", "put", "actions"))
  @@ ("event" :> Op("event", "put", "events"))

LinkLeaf == ("ty" :> L("set", "type")) @@ ("rel" :> L("set", "rel")) @@ ("anchor" :> L("set", "anchor"))
  @@ ("sizes" :> L("set", "sizes")) @@ ("hreflang" :> L("app", "hreflang"))
Once(m, name, w) == IF w \in DOMAIN m THEN NoLeaf ELSE name :> L("set", w)

FormLeaf == ("op" :> L("app", "op")) @@ ("content_type" :> L("set", "contentType"))
  @@ ("content_coding" :> L("set", "contentCoding")) @@ ("subprotocol" :> L("set", "subprotocol"))
  @@ ("security" :> L("app", "security")) @@ ("scope" :> L("app", "scopes")) @@ ("response" :> L("resp", "response"))
  @@ ("response_default_ext" :> L("resp", "response"))
FormOpen == "additional_response" :> Op("aresp", "app", "additionalResponses")
ArespLeaf == ("success" :> L("flag", "success")) @@ ("content_type" :> L("set", "contentType")) @@ ("schema" :> L("set", "schema"))

InteractionOpen == HrOpen @@ ("form" :> Op("form", "app", "forms")) @@ ("uri_variable" :> Op("schema", "put", "uriVariables"))
ActionLeaf == HrLeaf @@ ("safe" :> L("flag", "safe")) @@ ("idempotent" :> L("flag", "idempotent"))
  @@ ("synchronous" :> L("set", "synchronous"))
ActionOpen == InteractionOpen @@ ("input" :> Op("schema", "set", "input")) @@ ("output" :> Op("schema", "set", "output"))
EventOpen == InteractionOpen @@ ("subscription" :> Op("schema", "set", "subscription")) @@ ("data" :> Op("schema", "set", "data"))
  @@ ("data_response" :> Op("schema", "set", "dataResponse")) @@ ("cancellation" :> Op("schema", "set", "cancellation"))

(* security schemes: phase "E", then the scheme ("combo0": a combo without kind) *)
SecLeafCommon == ("attype" :> L("app", "@type")) @@ ("description" :> L("set", "description"))
  @@ ("proxy" :> L("set", "proxy")) @@ ("with_key" :> L("set", "%key")) @@ ("required" :> L("flag", "%req"))
SecSelectors == ("no_sec" :> L("scheme", "nosec")) @@ ("auto" :> L("scheme", "auto")) @@ ("combo" :> L("combo", "combo0"))
  @@ ("basic" :> L("scheme", "basic")) @@ ("digest" :> L("scheme", "digest")) @@ ("bearer" :> L("scheme", "bearer"))
  @@ ("psk" :> L("scheme", "psk")) @@ ("oauth2" :> L("oauth2", "oauth2")) @@ ("apikey" :> L("scheme", "apikey"))
  @@ ("custom" :> L("custom", "custom"))
NameLocation == ("name" :> L("set", "name")) @@ ("location" :> L("set", "in"))
SecLeafAt(p, m) == SecLeafCommon @@
  CASE p = "E" -> SecSelectors
    [] p = "combo0" -> ("all_of" :> L("combokind", "allOf")) @@ ("one_of" :> L("combokind", "oneOf")) @@ ("name" :> L("set", "%key"))
    [] p = "combo" -> ("extend" :> L("comboext", "")) @@ ("push" :> L("combopush", "")) @@ ("name" :> L("set", "%key"))
    [] p \in {"basic", "apikey"} -> NameLocation
    [] p = "digest" -> NameLocation @@ ("qop" :> L("set", "qop"))
    [] p = "bearer" -> NameLocation @@ ("authorization" :> L("set", "authorization")) @@ ("alg" :> L("set", "alg"))
                       @@ ("format" :> L("set", "format"))
    [] p = "oauth2" -> ("authorization" :> L("set", "authorization")) @@ ("token" :> L("set", "token"))
                       @@ ("refresh" :> L("set", "refresh")) @@ ("scope" :> L("app", "scopes"))
    [] p = "custom" -> "data" :> L("set", "%data")
    [] OTHER -> NoLeaf

(* data schemas: phase "E", then "X", then what the schema is *)
ValueLeaf == ("unit" :> L("set", "unit")) @@ ("format" :> L("set", "format")) @@ ("default_value" :> L("set", "default"))
SchemaSelectors == ("tuple" :> L("type", "tuple")) @@ ("vec" :> L("type", "vec")) @@ ("bool" :> L("type", "boolean"))
  @@ ("number" :> L("type", "number")) @@ ("integer" :> L("type", "integer")) @@ ("object" :> L("type", "object"))
  @@ ("string" :> L("type", "string")) @@ ("null" :> L("type", "null")) @@ ("constant" :> L("constant", "const"))
  @@ ("tuple_ext" :> L("type", "tuple")) @@ ("vec_ext" :> L("type", "vec")) @@ ("object_ext" :> L("type", "object"))
NumberLeaf == ("minimum" :> L("lim", "minimum")) @@ ("exclusive_minimum" :> L("lim", "exclusiveMinimum"))
  @@ ("maximum" :> L("lim", "maximum")) @@ ("exclusive_maximum" :> L("lim", "exclusiveMaximum"))
  @@ ("multiple_of" :> L("set", "multipleOf"))
Partner == ("minimum" :> "exclusiveMinimum") @@ ("exclusiveMinimum" :> "minimum") @@ ("maximum" :> "exclusiveMaximum")
  @@ ("exclusiveMaximum" :> "maximum")
Marked(m) == "readOnly" \in DOMAIN m \/ "writeOnly" \in DOMAIN m
MarkLeaf(p, m) == IF p \in {"tuple", "vec", "boolean", "number", "integer", "object", "string", "null", "enum"} /\ ~Marked(m)
                  THEN ("read_only" :> L("flag", "readOnly")) @@ ("write_only" :> L("flag", "writeOnly")) ELSE NoLeaf
EnumLeaf == "enumeration" :> L("enum", "enum")
(* the schema of a property has these members only when all its extensions are there; the harness adds the extensions of
   a property before finish_extend (the API does not ask for it) *)
AllExtDone(k, m) == ExtDone(m, "%ext") /\ (k = "prop" => ExtDone(m, "%extp") /\ ExtDone(m, "%exti"))
SchemaLeafAt(k, p, m) == HrLeaf @@ MarkLeaf(p, m) @@ (IF k = "prop" /\ ~ExtDone(m, "%ext") THEN NoLeaf ELSE ValueLeaf) @@
  CASE p = "E" -> IF AllExtDone(k, m) THEN "finish_extend" :> L("phase", "X") ELSE NoLeaf
    [] p = "X" -> SchemaSelectors @@ EnumLeaf
    [] p = "vec" -> ("min_items" :> L("set", "minItems")) @@ ("max_items" :> L("set", "maxItems"))
    [] p \in {"number", "integer"} -> NumberLeaf
    [] p = "string" -> IF k = "prop" \/ Marked(m) THEN NoLeaf
                       ELSE ("min_length" :> L("set", "minLength")) @@ ("max_length" :> L("set", "maxLength"))
                         @@ ("pattern" :> L("set", "pattern")) @@ ("content_encoding" :> L("set", "contentEncoding"))
                         @@ ("content_media_type" :> L("set", "contentMediaType"))
    [] p = "enum" -> EnumLeaf
    [] OTHER -> NoLeaf
SchemaOpenAt(p) == HrOpen @@
  CASE p \in {"X", "oneof"} -> "one_of" :> Op("schema", "app", "oneOf")
    [] p = "vec" -> "set_item" :> Op("schema", "set", "items")
    [] p = "tuple" -> "append" :> Op("schema", "app", "items")
    [] p = "object" -> "property" :> Op("schema", "member", "properties")
    [] OTHER -> NoOpen

LeafAt(fr) ==
  CASE fr.k = "thing" -> ThingLeafBoth @@ (IF fr.p = "E" THEN ExtLeaf(fr.m, "ext", "%ext") @@
                                            (IF ExtDone(fr.m, "%ext") THEN "finish_extend" :> L("phase", "X") ELSE NoLeaf)
                                           ELSE NoLeaf)
    [] fr.k = "ml" -> "add" :> L("put", "*")
    [] fr.k = "ctxmap" -> "context" :> L("put", "*")
    [] fr.k = "link" -> LinkLeaf @@ Once(fr.m, "href", "href")
    [] fr.k = "sec" -> SecLeafAt(fr.p, fr.m)
    [] fr.k = "form" -> FormLeaf @@ Once(fr.m, "href", "href") @@ ExtLeaf(fr.m, "ext", "%ext")
    [] fr.k = "aresp" -> ArespLeaf
    [] fr.k = "action" -> ActionLeaf @@ ExtLeaf(fr.m, "ext", "%ext") @@ ExtLeaf(fr.m, "ext_interaction", "%exti")
    [] fr.k = "event" -> HrLeaf @@ ExtLeaf(fr.m, "ext", "%ext") @@ ExtLeaf(fr.m, "ext_interaction", "%exti")
    [] fr.k = "schema" -> SchemaLeafAt(fr.k, fr.p, fr.m) @@ (IF fr.p = "E" THEN ExtLeaf(fr.m, "ext", "%ext") ELSE NoLeaf)
    [] fr.k = "prop" -> SchemaLeafAt(fr.k, fr.p, fr.m) @@ ("observable" :> L("set", "observable"))
                        @@ (IF fr.p = "E" THEN ExtLeaf(fr.m, "ext", "%extp") @@ ExtLeaf(fr.m, "ext_interaction", "%exti")
                                               @@ ExtLeaf(fr.m, "ext_data_schema", "%ext") ELSE NoLeaf)

OpenAt(fr) ==
  CASE fr.k = "thing" -> ThingOpenBoth @@ (IF fr.p = "X" THEN ThingOpenExt ELSE NoOpen)
    [] fr.k = "form" -> FormOpen
    [] fr.k = "sec" -> "descriptions" :> MlOpen("descriptions")
    [] fr.k = "action" -> ActionOpen
    [] fr.k = "event" -> EventOpen
    [] fr.k = "schema" -> SchemaOpenAt(fr.p)
    [] fr.k = "prop" -> SchemaOpenAt(fr.p) @@ InteractionOpen
    [] OTHER -> NoOpen

CanClose(fr) ==
  CASE fr.k = "link" -> "href" \in DOMAIN fr.m
    [] fr.k = "form" -> "href" \in DOMAIN fr.m /\ ExtDone(fr.m, "%ext")
    [] fr.k = "sec" -> fr.p \notin {"E", "combo0"}
    [] fr.k = "schema" -> fr.p \notin {"E", "X"}
    [] fr.k = "prop" -> fr.p \notin {"E", "X"} /\ ExtDone(fr.m, "%extp") /\ ExtDone(fr.m, "%exti")
    [] fr.k \in {"action", "event"} -> ExtDone(fr.m, "%ext") /\ ExtDone(fr.m, "%exti")
    [] OTHER -> TRUE

(***************************************************************************)
(* The effect of calls                                                      *)
(***************************************************************************)
MemOf(m, w) == IF w \in DOMAIN m THEN m[w] ELSE <<>>
SetM(m, w, v) == (w :> <<<<"", v>>>>) @@ m
App(m, w, key, v) == (w :> Append(MemOf(m, w), <<key, v>>)) @@ m
AppAll(m, w, vs) == (w :> (MemOf(m, w) \o [i \in DOMAIN vs |-> <<"", vs[i]>>])) @@ m
JsonType(p) == IF p \in {"tuple", "vec"} THEN "array" ELSE p
Phase0(k) == IF k \in {"thing", "sec", "schema", "prop"} THEN "E" ELSE ""

(* extension values: the argument of an ext call carries the name of the extension as key *)
Leaf(fr, c) ==
  LET d == LeafAt(fr)[c[2]]  m == fr.m  v == c[4]
      upd(m2) == [fr EXCEPT !.m = m2, !.n = @ + 1]
      updp(m2, p2) == [fr EXCEPT !.m = m2, !.p = p2, !.n = @ + 1]
  IN CASE d.e = "set" -> upd(SetM(m, d.w, v))
       [] d.e = "app" -> upd(App(m, d.w, c[3], v))
       [] d.e = "put" -> upd(App(m, d.w, c[3], v))
       [] d.e = "flag" -> upd(SetM(m, d.w, True))
       [] d.e = "lim" -> upd(SetM(Without(m, {Partner[d.w]}), d.w, v))
       [] d.e = "phase" -> updp(m, d.w)
       [] d.e = "type" -> updp(SetM(IF IsA(v) THEN AppAll(SetM(m, "%sub", S(d.w)), "%exts", v[2]) ELSE SetM(m, "%sub", S(d.w)),
                                    "type", S(JsonType(d.w))), d.w)
       [] d.e = "constant" -> updp(SetM(SetM(m, "const", v), "readOnly", True), "const")
       [] d.e = "enum" -> updp(App(m, "enum", "", v), "enum")
       [] d.e = "scheme" -> updp(SetM(m, "scheme", S(d.w)), d.w)
       [] d.e = "oauth2" -> updp(SetM(SetM(m, "scheme", S("oauth2")), "flow", v), "oauth2")
       [] d.e = "custom" -> updp(SetM(SetM(m, "scheme", v), "%custom", True), "custom")
       [] d.e = "combo" -> updp(SetM(m, "scheme", S("combo")), "combo0")
       [] d.e = "combokind" -> updp(AppAll(SetM(m, "%combo", S(d.w)), "%names", v[2]), "combo")
       [] d.e = "comboext" -> upd(AppAll(m, "%names", v[2]))
       [] d.e = "combopush" -> upd(App(m, "%names", "", v))
       [] d.e = "link" -> upd(App(m, "links", "", El("link", SetM(EmptyMem, "href", v))))
       [] d.e = "version" -> upd(SetM(m, "version", IF IsS(v) THEN O("instance" :> v) ELSE v))
       [] d.e = "context" -> upd(IF v = S(TD11) THEN m ELSE App(m, "@context", "", v))
       [] d.e = "resp" -> upd(SetM(m, "response", El("resp", LET r == SetM(EmptyMem, "contentType", v[2][1])
                                                             IN IF Len(v[2]) = 1 THEN r ELSE AppAll(r, "%ext", Tail(v[2])))))

NewFrame(fr, c) == [k |-> OpenAt(fr)[c[2]].k, o |-> c, p |-> Phase0(OpenAt(fr)[c[2]].k), m |-> EmptyMem, n |-> 0]
(* opening an alternative already makes the schema a union *)
AtOpen(fr, c) == [fr EXCEPT !.n = @ + 1, !.p = IF c[2] = "one_of" /\ fr.k # "sec" THEN "oneof" ELSE @]

SecKey(ch) == IF "%key" \in DOMAIN ch.m THEN ch.m["%key"][1][2][2] ELSE ch.m["scheme"][1][2][2]
Attach(fr, ch) ==
  LET d == OpenAt(fr)[ch.o[2]]  e == El(ch.k, ch.m)
  IN CASE d.e = "set" -> [fr EXCEPT !.m = SetM(@, d.w, e)]
       [] d.e = "app" -> [fr EXCEPT !.m = App(@, d.w, "", e)]
       [] d.e = "put" -> [fr EXCEPT !.m = App(@, d.w, ch.o[3], e)]
       [] d.e = "member" -> [fr EXCEPT !.m = LET m1 == App(@, d.w, ch.o[3], e)
                                             IN IF ch.o[4] = True THEN App(m1, "required", "", S(ch.o[3])) ELSE m1]
       [] d.e = "sec" -> [fr EXCEPT !.m = LET m1 == App(@, d.w, SecKey(ch), e)
                                          IN IF "%req" \in DOMAIN ch.m THEN App(m1, "security", "", S(SecKey(ch))) ELSE m1]

(***************************************************************************)
(* The document that says what was given                                    *)
(***************************************************************************)
RECURSIVE DocEl(_), DocVal(_)

Keyed(s) == {s[i][1] : i \in DOMAIN s}
Last_(s, key) == s[Max({i \in DOMAIN s : s[i][1] = key})][2]
(* infinite limits have no JSON form: they are written as null (known finding) *)
DocVal(v) == IF v[1] = "e" THEN DocEl(v)
             ELSE IF v \in {N("$inf"), N("$-inf"), N("$nan")} THEN Z ELSE v
DocMap(s) == O([x \in Keyed(s) |-> DocVal(Last_(s, x))])
DocSeq(s) == [i \in DOMAIN s |-> DocVal(s[i][2])]

DocContext(m) == LET rest == DocSeq(MemOf(m, "@context"))
                 IN IF rest = <<>> THEN S(TD11) ELSE A(<<S(TD11)>> \o rest)

EmptyOf(c) == IF c \in {"*", "o"} THEN A(<<>>) ELSE O(EmptyFn)
DocMember(k, m, w, f) ==
  IF k = "thing" /\ w = "@context" THEN DocContext(m)
  ELSE IF w \notin DOMAIN m THEN IF f.p = "d" THEN f.d ELSE IF f.p = "r" THEN EmptyOf(f.c) ELSE Nothing
  ELSE CASE f.c = "1" -> DocVal(m[w][1][2])
         [] f.c \in {"*", "p"} -> A(DocSeq(m[w]))
         [] f.c = "o" -> OneOrMany(DocSeq(m[w]))
         [] f.c = "m" -> DocMap(m[w])
         [] f.c = "l" -> DocMap(m[w][1][2][3]["*"])
         [] f.c = "v" -> IF m["%sub"][1][2] = S("tuple") THEN A(DocSeq(m[w])) ELSE DocVal(m[w][1][2])

SubRaw(k, m) == LET w == IF k = "sec" THEN "scheme" ELSE "type"
                IN IF k \in {"schema", "prop", "sec"} /\ w \in DOMAIN m THEN m[w][1][2][2] ELSE ""

(* empty multi-language maps have no "*" member *)
RawMl(m, w) == IF "*" \in DOMAIN m[w][1][2][3] THEN m[w][1][2][3]["*"] ELSE <<>>

RECURSIVE MergeAll(_)
MergeAll(s) == IF s = <<>> THEN EmptyFn ELSE Head(s)[2] @@ MergeAll(Tail(s))
ExtMembers(m) == MergeAll(DocSeq(MemOf(m, "%ext")) \o DocSeq(MemOf(m, "%exti")) \o DocSeq(MemOf(m, "%extp"))
                          \o DocSeq(MemOf(m, "%exts")))

DocEl(el) ==
  LET k == el[2]  m == el[3]
  IN IF k \in {"ml", "ctxmap"} THEN DocMap(MemOf(m, "*"))
     ELSE LET fs == Fields(k, SubRaw(k, m))
              extra == DOMAIN ExtOf(k, SubRaw(k, m))
              tuple0 == k \in {"schema", "prop"} /\ "%sub" \in DOMAIN m /\ m["%sub"][1][2] = S("tuple") /\ "items" \notin DOMAIN m
              r == [w \in DOMAIN fs |->
                      IF w \in extra THEN Nothing
                      ELSE IF fs[w].c = "l" /\ w \in DOMAIN m THEN DocMap(RawMl(m, w))
                      ELSE IF w = "items" /\ tuple0 THEN A(<<>>)
                      ELSE DocMember(k, m, w, fs[w])]
              base == [w \in {x \in DOMAIN r : r[x] # Nothing} |-> r[w]]
              combo == IF "%combo" \in DOMAIN m THEN m["%combo"][1][2][2] :> OneOrMany(DocSeq(MemOf(m, "%names"))) ELSE EmptyFn
              data == IF "%data" \in DOMAIN m THEN m["%data"][1][2][2] ELSE EmptyFn
          IN O(base @@ combo @@ data @@ ExtMembers(m))

Doc(th) == DocEl(th)

(***************************************************************************)
(* The rules                                                                *)
(***************************************************************************)
(* the children of an element, in the document (redefined members are gone) or as given *)
Overwritten(k, w) == w \in {"uriVariables", "schemaDefinitions"} \/ (k = "schema" /\ w = "properties")
                     \/ (k = "prop" /\ w = "properties")
Live(k, m, w) == IF Overwritten(k, w) THEN {Last_(m[w], x) : x \in Keyed(m[w])} ELSE {m[w][i][2] : i \in DOMAIN m[w]}
Children(el) == UNION {{v \in Live(el[2], el[3], w) : v[1] = "e"} : w \in DOMAIN el[3]}
RECURSIVE Below(_)
Below(el) == {el} \cup UNION {Below(c) : c \in Children(el)}

IsSchema(el) == el[2] \in {"schema", "prop"}
LimOf(m, kind) == LET inc == IF kind = "min" THEN "minimum" ELSE "maximum"
                      exc == IF kind = "min" THEN "exclusiveMinimum" ELSE "exclusiveMaximum"
                  IN IF inc \in DOMAIN m THEN <<TRUE, m[inc][1][2][2]>>
                     ELSE IF exc \in DOMAIN m THEN <<FALSE, m[exc][1][2][2]>> ELSE <<>>
(* the limits admit no value *)
EmptyRange(lo, hi, rank) == IF lo[1] /\ hi[1] THEN rank[lo[2]] > rank[hi[2]] ELSE rank[lo[2]] >= rank[hi[2]]
Num1(m, w) == m[w][1][2][2]
Above(m, a, b) == a \in DOMAIN m /\ b \in DOMAIN m /\ Rank[Num1(m, a)] > Rank[Num1(m, b)]

Cause(code, a, b) == <<code, a, b>>
LimitCauses(el) ==
  LET m == el[3]  ty == SubRaw(el[2], m)  lo == LimOf(m, "min")  hi == LimOf(m, "max")
      nan(l) == l # <<>> /\ l[2] = "$nan"
      mult == IF "multipleOf" \in DOMAIN m THEN Num1(m, "multipleOf") ELSE "1"
  IN CASE ty = "number" ->
            (IF nan(lo) \/ nan(hi) THEN {Cause("NanMinMax", "", "")}
             ELSE IF lo # <<>> /\ hi # <<>> /\ EmptyRange(lo, hi, FRank) THEN {Cause("InvalidMinMax", "", "")} ELSE {})
            \cup (IF mult \in PositiveF64 THEN {} ELSE {Cause("InvalidMultipleOf", "", "")})
       [] ty = "integer" -> IF lo # <<>> /\ hi # <<>> /\ EmptyRange(lo, hi, Rank) THEN {Cause("InvalidMinMax", "", "")} ELSE {}
       [] ty = "array" -> IF Above(m, "minItems", "maxItems") THEN {Cause("InvalidMinMax", "", "")} ELSE {}
       [] ty = "string" -> IF Above(m, "minLength", "maxLength") THEN {Cause("InvalidMinMax", "", "")} ELSE {}
       [] OTHER -> {}

TagCause(t) == IF t \in WellTags THEN {} ELSE {Cause("InvalidLanguageTag", t, "")}
TagCauses(el) == UNION {TagCause(t) : t \in IF el[2] = "ml" THEN Keyed(MemOf(el[3], "*")) ELSE {}}
                 \cup UNION {TagCause(t) : t \in IF el[2] = "link" THEN {MemOf(el[3], "hreflang")[i][2][2] : i \in DOMAIN MemOf(el[3], "hreflang")} ELSE {}}

Vals(m, w) == {MemOf(m, w)[i][2] : i \in DOMAIN MemOf(m, w)}
Strs(m, w) == {v[2] : v \in Vals(m, w)}

SecKeys(th) == Keyed(MemOf(th[3], "securityDefinitions"))
DefKeys(th) == Keyed(MemOf(th[3], "schemaDefinitions"))

FormCauses(th, ctx, allowed, needop, f) ==
  LET m == f[3] IN
     {Cause("UndefinedSecurity", n, "") : n \in Strs(m, "security") \ SecKeys(th)}
  \cup {Cause("InvalidOpInForm", ctx, o) : o \in Strs(m, "op") \ allowed}
  \cup (IF needop /\ MemOf(m, "op") = <<>> THEN {Cause("MissingOpInForm", "", "")} ELSE {})
  \cup {Cause("MissingSchemaDefinition", n, "form") : n \in (UNION {Strs(r[3], "schema") : r \in Vals(m, "additionalResponses")}) \ DefKeys(th)}

UriCauses(el) == IF \E v \in {Last_(MemOf(el[3], "uriVariables"), x) : x \in Keyed(MemOf(el[3], "uriVariables"))} :
                       SubRaw("schema", v[3]) \in {"array", "object"}
                 THEN {Cause("InvalidUriVariables", "", "")} ELSE {}

LinkCauses(l) == IF "sizes" \in DOMAIN l[3] /\ (IF "rel" \in DOMAIN l[3] THEN l[3]["rel"][1][2] # S("icon") ELSE TRUE)
                 THEN {Cause("SizesWithRelNotIcon", "", "")} ELSE {}

Dups(s) == {s[i][1] : i \in {j \in DOMAIN s : \E k \in DOMAIN s : k < j /\ s[k][1] = s[j][1]}}

Places == {<<"properties", "Property", "property", PropertyOps>>, <<"actions", "Action", "action", ActionOps>>,
           <<"events", "Event", "event", EventOps>>}

(* every rule that is broken by what was given; this is the specification of the outcome of build *)
Causes(th) ==
  LET m == th[3]  all == Below(th)
  IN UNION {LimitCauses(e) : e \in {x \in all : IsSchema(x)}}
     \cup UNION {TagCauses(e) : e \in all}
     \cup {Cause("DuplicatedSecurityDefinition", n, "") : n \in Dups(MemOf(m, "securityDefinitions"))}
     \cup {Cause("MissingSchemaDefinition", n, "combo") : n \in (UNION {Strs(s[3], "%names") : s \in Vals(m, "securityDefinitions")}) \ SecKeys(th)}
     \cup UNION {FormCauses(th, "Thing", ThingOps, TRUE, f) : f \in Vals(m, "forms")}
     \cup UriCauses(th)
     \cup UNION {LinkCauses(l) : l \in Vals(m, "links")}
     \cup UNION {{Cause("DuplicatedAffordance", pl[3], n) : n \in Dups(MemOf(m, pl[1]))}
                 \cup UNION {UriCauses(a) \cup UNION {FormCauses(th, pl[2], pl[4], FALSE, f) : f \in Vals(a[3], "forms")}
                             : a \in Vals(m, pl[1])} : pl \in Places}

(***************************************************************************)
(* The algorithm of build: the checks in the order of the implementation.   *)
(* Each stage is the set of errors it may report (several where the order   *)
(* is that of a hash map); the first non-empty one ends the build.          *)
(***************************************************************************)
SeqOfCauses(S_) == IF S_ = {} THEN <<>> ELSE <<S_>>
Flat(ss) == FlattenSeq(ss)
TagStage(els) == UNION {UNION {TagCauses(e) : e \in Below(x)} : x \in els}
LimStage(els) == UNION {UNION {LimitCauses(e) : e \in {y \in Below(x) : IsSchema(y)}} : x \in els}
FirstBad(s, good) == LET b == {i \in DOMAIN s : s[i][2][2] \notin good} IN IF b = {} THEN {} ELSE {s[Min(b)][2][2]}

SecStages(m) == LET s == MemOf(m, "securityDefinitions")
  IN Flat([i \in DOMAIN s |-> <<TagStage({s[i][2]}),
                                IF \E j \in 1..(i-1) : s[j][1] = s[i][1]
                                THEN {Cause("DuplicatedSecurityDefinition", s[i][1], "")} ELSE {}>>])
ComboStage(th) == {Cause("MissingSchemaDefinition", n, "combo") : n \in (UNION {Strs(s[3], "%names") : s \in Vals(th[3], "securityDefinitions")}) \ SecKeys(th)}
SchemaRefStage(th, f) ==
  LET refs == Flat([i \in DOMAIN MemOf(f[3], "additionalResponses") |-> MemOf(MemOf(f[3], "additionalResponses")[i][2][3], "schema")])
  IN {Cause("MissingSchemaDefinition", n, "form") : n \in FirstBad(refs, DefKeys(th))}
SecurityStage(th, f) == {Cause("UndefinedSecurity", n, "") : n \in FirstBad(MemOf(f[3], "security"), SecKeys(th))}
OpStage(ctx, ok, f) == {Cause("InvalidOpInForm", ctx, o) : o \in FirstBad(MemOf(f[3], "op"), ok)}
ThingFormStages(th, f) == <<SecurityStage(th, f),
                            IF MemOf(f[3], "op") = <<>> THEN {Cause("MissingOpInForm", "", "")} ELSE OpStage("Thing", ThingOps, f),
                            SchemaRefStage(th, f)>>
FormStages(th, pl, f) == <<OpStage(pl[2], pl[4], f), SecurityStage(th, f), SchemaRefStage(th, f)>>
UriStages(el) == LET live == IF "uriVariables" \in DOMAIN el[3] THEN Live(el[2], el[3], "uriVariables") ELSE {}
                 IN <<UriCauses(el), LimStage(live)>>
OwnSchemas(a) == IF a[2] = "prop" THEN {a}
                 ELSE UNION {Vals(a[3], w) : w \in {"input", "output", "subscription", "data", "dataResponse", "cancellation"}}
(* the schema of a property, without its URI variables and forms *)
SchemaPart(a) == IF a[2] = "prop" THEN El("prop", Without(a[3], {"uriVariables", "forms"})) ELSE a
AffStages(th, pl) ==
  LET s == MemOf(th[3], pl[1])
  IN Flat([i \in DOMAIN s |->
       LET a == s[i][2]
       IN Flat([j \in DOMAIN MemOf(a[3], "forms") |-> FormStages(th, pl, MemOf(a[3], "forms")[j][2])])
          \o UriStages(a) \o <<LimStage({SchemaPart(x) : x \in OwnSchemas(a)})>>
          \o <<IF \E j \in 1..(i-1) : s[j][1] = s[i][1] THEN {Cause("DuplicatedAffordance", pl[3], s[i][1])} ELSE {}>>
          \o <<TagStage({a})>>])
Place(w) == CHOOSE pl \in Places : pl[1] = w
Stages(th) ==
  LET m == th[3]  live(w) == IF w \in DOMAIN m THEN Live("thing", m, w) ELSE {}
  IN SecStages(m) \o <<ComboStage(th), LimStage(live("schemaDefinitions")), TagStage(live("schemaDefinitions"))>>
     \o Flat([i \in DOMAIN MemOf(m, "forms") |-> ThingFormStages(th, MemOf(m, "forms")[i][2])])
     \o UriStages(th) \o <<TagStage(live("uriVariables"))>>
     \o AffStages(th, Place("properties")) \o AffStages(th, Place("actions")) \o AffStages(th, Place("events"))
     \o Flat([i \in DOMAIN MemOf(m, "links") |-> <<LinkCauses(MemOf(m, "links")[i][2]), TagCauses(MemOf(m, "links")[i][2])>>])
     \o <<TagStage(live("titles")), TagStage(live("descriptions"))>>

BuildErrors(th) == LET s == SelectSeq(Stages(th), LAMBDA x : x # {}) IN IF s = <<>> THEN {} ELSE s[1]

(***************************************************************************)
(* Behaviours                                                               *)
(***************************************************************************)
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Open == result = <<"open">>

InitWith(title) ==
  /\ stack = <<[k |-> "thing", o |-> <<"(", "thing", "", S(title)>>, p |-> "E", m |-> SetM(EmptyMem, "title", S(title)), n |-> 0]>>
  /\ hist = <<<<"(", "thing", "", S(title)>>>>
  /\ result = <<"open">>

Call(c) ==
  /\ c[1] = "." /\ c[2] \in DOMAIN LeafAt(Top)
  /\ stack' = Append(Pop, Leaf(Top, c))
  /\ hist' = Append(hist, c)
  /\ UNCHANGED result

OpenCall(c) ==
  /\ c[1] = "(" /\ c[2] \in DOMAIN OpenAt(Top)
  /\ stack' = Append(Append(Pop, AtOpen(Top, c)), NewFrame(AtOpen(Top, c), c))
  /\ hist' = Append(hist, c)
  /\ UNCHANGED result

Close ==
  /\ Len(stack) > 1 /\ CanClose(Top)
  /\ stack' = Append(SubSeq(Pop, 1, Len(Pop) - 1), Attach(Pop[Len(Pop)], Top))
  /\ hist' = Append(hist, <<")", "", "", Z>>)
  /\ UNCHANGED result

TheThing == El("thing", stack[1].m)
CanBuild == Open /\ Len(stack) = 1 /\ ExtDone(stack[1].m, "%ext")

Outcome(th) == LET e == BuildErrors(th) IN IF e = {} THEN <<"ok", Doc(th)>> ELSE <<"err", e>>

Build ==
  /\ CanBuild
  /\ result' = Outcome(TheThing)
  /\ UNCHANGED <<stack, hist>>

Step == Open /\ \E c \in Menu(stack) : Call(c) \/ OpenCall(c)

Built == result[1] = "ok"
Failed == result[1] = "err"
TheDoc == result[2]

(***************************************************************************)
(* Properties of every state (invariants)                                   *)
(***************************************************************************)
(* C09: the algorithm fails exactly when a rule is broken, and reports only broken rules *)
ErrorsAreTrue == /\ Failed => result[2] # {} /\ result[2] \subseteq Causes(TheThing)
                 /\ Built => Causes(TheThing) = {}

(* members of all elements of a document *)
RECURSIVE SubDocs(_)
SubDocs(j) == {j} \cup CASE IsO(j) -> UNION {SubDocs(j[2][x]) : x \in DOMAIN j[2]}
                         [] IsA(j) -> UNION {SubDocs(j[2][i]) : i \in DOMAIN j[2]}
                         [] OTHER -> {}
Mem(j, w) == IF w \in Keys(j) THEN j[2][w] ELSE Nothing
ListOf(j) == IF j = Nothing THEN <<>> ELSE IF IsA(j) THEN j[2] ELSE <<j>>
MapVals(j) == IF IsO(j) THEN Img(j[2]) ELSE {}
StrsIn(j) == {x[2] : x \in {y \in Img(ListOf(j)) : IsS(y)}}
AffDocs(d, w) == MapVals(Mem(d, w))
FormDocs(j) == Img(ListOf(Mem(j, "forms")))
AllFormDocs(d) == FormDocs(d) \cup UNION {UNION {FormDocs(a) : a \in AffDocs(d, w)} : w \in {"properties", "actions", "events"}}

(* C01 on the document *)
InvSecurity == Built => LET keys == Keys(Mem(TheDoc, "securityDefinitions")) IN
  /\ StrsIn(Mem(TheDoc, "security")) \subseteq keys
  /\ \A f \in AllFormDocs(TheDoc) : StrsIn(Mem(f, "security")) \subseteq keys
  /\ \A s \in MapVals(Mem(TheDoc, "securityDefinitions")) :
       Mem(s, "scheme") = S("combo") => (StrsIn(Mem(s, "oneOf")) \cup StrsIn(Mem(s, "allOf"))) \subseteq keys
(* C02 on the document *)
InvOps == Built =>
  /\ \A f \in FormDocs(TheDoc) : StrsIn(Mem(f, "op")) \subseteq ThingOps /\ StrsIn(Mem(f, "op")) # {}
  /\ \A pl \in Places : \A a \in AffDocs(TheDoc, pl[1]) : \A f \in FormDocs(a) : StrsIn(Mem(f, "op")) \subseteq pl[4]
(* C03 on the document *)
InvSchemaNames == Built => \A f \in AllFormDocs(TheDoc) : \A r \in Img(ListOf(Mem(f, "additionalResponses"))) :
  StrsIn(Mem(r, "schema")) \subseteq Keys(Mem(TheDoc, "schemaDefinitions"))
(* C04: everything that was added is there *)
Opens(m) == SelectSeq(hist, LAMBDA c : c[1] = "(" /\ c[2] = m)
InvNothingLost == Built =>
  /\ \A pl \in {<<"properties", "property">>, <<"actions", "action">>, <<"events", "event">>} :
       LET added == MemOf(TheThing[3], pl[1]) IN
         /\ Cardinality(Keyed(added)) = Len(added)
         /\ Keys(Mem(TheDoc, pl[1])) = Keyed(added)
  /\ Cardinality(Keys(Mem(TheDoc, "securityDefinitions"))) = Len(MemOf(TheThing[3], "securityDefinitions"))
(* C06 on the document *)
InvUriVariables == Built => \A j \in {TheDoc} \cup AffDocs(TheDoc, "properties") \cup AffDocs(TheDoc, "actions") \cup AffDocs(TheDoc, "events") :
  \A v \in MapVals(Mem(j, "uriVariables")) : Mem(v, "type") \notin {S("object"), S("array")}
(* C08 on the document *)
InvLinks == Built => \A l \in Img(ListOf(Mem(TheDoc, "links"))) : Mem(l, "sizes") # Nothing => Mem(l, "rel") = S("icon")
(* C07 and C14: the document is in the normal form of the reader *)
Finite(th) == \A e \in Below(th) : \A w \in LimitNames \cup {"multipleOf"} :
                 w \in DOMAIN e[3] => e[3][w][1][2] \notin {N("$inf"), N("$-inf"), N("$nan")}
(* known finding: a custom scheme with the name or the shape of another one, or with data that is not an object *)
CustomOk(th) == \A s \in Vals(th[3], "securityDefinitions") :
                  IF "%custom" \in DOMAIN s[3]
                  THEN /\ s[3]["scheme"][1][2][2] \notin KnownSchemes
                       /\ "%data" \in DOMAIN s[3] => DOMAIN s[3]["%data"][1][2][2] \cap DOMAIN SecCommon = {}
                  ELSE TRUE
InvRoundTrip == (Built /\ Finite(TheThing) /\ CustomOk(TheThing)) =>
  /\ Read(TheDoc) = TheDoc
  /\ ReadAsIs(TheDoc) = TheDoc

Invariants == /\ ErrorsAreTrue /\ InvSecurity /\ InvOps /\ InvSchemaNames /\ InvNothingLost /\ InvUriVariables
              /\ InvLinks /\ InvRoundTrip
=============================================================================
