-------------------------------- MODULE More --------------------------------
(* More alphabets: elements with every subset of their members, in several orders, with extensions given late; long lists
   with the fault at every position; deep nesting. *)
EXTENDS Blocks, Texts

(***************************************************************************)
(* Subsets and orders of calls                                              *)
(***************************************************************************)
RECURSIVE AllOf_(_), Halves(_), AtMost(_, _), AllBut(_, _), Pick_(_, _, _)
AllOf_(s) == IF s = <<>> THEN {<<>>} ELSE LET r == AllOf_(Tail(s)) IN r \cup {Head(s) \o x : x \in r}
(* every way to cut s in two: <<the chosen, the others, the number of the chosen>> *)
Halves(s) == IF s = <<>> THEN {<<<<>>, <<>>, 0>>} ELSE LET r == Halves(Tail(s)) IN {<<x[1], Head(s) \o x[2], x[3]>> : x \in r} \cup {<<Head(s) \o x[1], x[2], x[3] + 1>> : x \in r}
AtMost(s, k) == IF s = <<>> \/ k = 0 THEN {<<>>} ELSE AtMost(Tail(s), k) \cup {Head(s) \o x : x \in AtMost(Tail(s), k - 1)}
AllBut(s, k) == IF k = 0 THEN {Flat_(s)} ELSE IF s = <<>> THEN {<<>>} ELSE AllBut(Tail(s), k - 1) \cup {Head(s) \o x : x \in AllBut(Tail(s), k)}
(* few members, or all but few *)
FewOrMost(s, a, b) == AtMost(s, a) \cup AllBut(s, b)
Pick_(s, T, i) == IF i > Len(s) THEN <<>> ELSE (IF i \in T THEN s[i] ELSE <<>>) \o Pick_(s, T, i + 1)
Pick(s, T) == Pick_(s, T, 1)
Rotate(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
SwapAt(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
CtxOne == CHOOSE c \in Ctx : TRUE
Reversed(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Orders(s) == {Flat_(s), Flat_(Reversed(s))} \cup {Flat_(Rotate(s, k)) : k \in 1..(Len(s) - 1)} \cup {Flat_(SwapAt(s, i)) : i \in 1..(Len(s) - 1)}

(* the richest extension value *)
RichTable == [f \in {Fam[i] : i \in DOMAIN Fam} |-> [pl \in ExtPlaceNames |->
  LET vs == {x \in ExtVals(f, pl) : IsO(x)} IN CHOOSE v \in vs : \A w \in vs : Cardinality(DOMAIN v[2]) >= Cardinality(DOMAIN w[2])]]
Rich(f, pl) == RichTable[f][pl]
RepV(m, pl) == [i \in 1..NExt |-> Do(m, Rich(Fam[i], pl))]

HrAll == <<<<Do("attype", S("T1"))>>, <<Do("title", S("A"))>>, Ml("titles", <<"en", "it">>), <<Do("description", S("C"))>>, Ml("descriptions", <<"it">>)>>
FormX(body) == FormB(body)
ActAll == HrAll \o <<FormX(<<>>), <<Dn("safe")>>, <<Dn("idempotent")>>, <<Do("synchronous", True)>>, UriVar("u", Bool), Blk("input", "", Kind(Bool)), Blk("output", "", Kind(<<Dn("string")>>))>>
EvAll == HrAll \o <<FormX(<<>>), Blk("subscription", "", Kind(Bool)), Blk("data", "", Kind(<<Dn("string")>>)), UriVar("u", Bool), Blk("data_response", "", Kind(<<Dn("null")>>)),
                    Blk("cancellation", "", Kind(<<Dn("object")>>))>>
PropAll == HrAll \o <<FormX(<<>>), <<Do("observable", True)>>, UriVar("u", Bool), <<Do("unit", S("m"))>>, <<Do("format", S("f"))>>, <<Do("default_value", N("1"))>>>>
PropEarly == HrAll \o <<FormX(<<>>), <<Do("observable", False)>>, UriVar("u", Bool)>>
FormAll(pl) == <<Calls("op", FormOps(pl)), <<Do("content_type", S("a/b"))>>, <<Do("content_coding", S("gzip"))>>, <<Do("subprotocol", S("sse"))>>, Calls("security", <<"s1", "s2">>),
                 <<Do("scope", S("r")), Do("scope", S("w"))>>, <<Do("response", A(<<S("x/y")>> \o [i \in 1..NExt |-> Rich(Fam[i], "resp")]))>>,
                 Aresp(<<Dn("success"), Do("schema", S("d"))>>), Aresp(<<Do("content_type", S("x")), Do("schema", S("d"))>>)>>
NeedOp(pl) == IF pl = "thing" THEN ThingOp ELSE <<>>
LinkAll == <<<<Do("href", S("/l"))>>, <<Do("rel", S("icon"))>>, <<Do("ty", S("image/png"))>>, <<Do("anchor", S("#a"))>>, <<Do("sizes", S("16x16"))>>, <<Do("hreflang", S("en")), Do("hreflang", S("it"))>>>>
OwnAll(k) ==
  CASE k \in {"number", "integer"} -> <<<<Do("minimum", N("1"))>>, <<Do("exclusive_maximum", N("5"))>>, <<Do("multiple_of", N("2"))>>>>
    [] k = "vec" -> <<<<Do("min_items", N("1"))>>, <<Do("max_items", N("3"))>>, Blk("set_item", "", Kind(Bool))>>
    [] k = "tuple" -> <<Blk("append", "", Kind(Bool)), Blk("append", "", Kind(<<Dn("string")>>)), Blk("append", "", Kind(<<Dn("null")>>))>>
    [] k = "object" -> <<BlkV("property", "m", True, Kind(Bool)), BlkV("property", "n", False, Kind(<<Dn("string")>>)), BlkV("property", "o", True, Kind(<<Dn("null")>>))>>
    [] k = "string" -> <<<<Do("min_length", N("1"))>>, <<Do("max_length", N("3"))>>, <<Do("pattern", S("a*"))>>, <<Do("content_encoding", S("base64"))>>, <<Do("content_media_type", S("image/png"))>>>>
    [] OTHER -> <<>>
DataAll == <<<<Do("attype", S("T1"))>>, <<Do("title", S("A"))>>, Ml("titles", <<"en", "it">>), <<Do("description", S("C"))>>, Ml("descriptions", <<"it">>),
             <<Do("unit", S("m"))>>, <<Do("format", S("f"))>>, <<Do("default_value", N("1"))>>>>
(* a choice of the common members that goes with all subsets of the members of the kind *)
DataFew == {<<>>} \cup {DataAll[i] : i \in DOMAIN DataAll} \cup {Flat_(DataAll)} \cup {Pick(DataAll, (DOMAIN DataAll) \ {i}) : i \in DOMAIN DataAll}
Marks == {<<>>, <<Dn("read_only")>>, <<Dn("write_only")>>}
Heads == {<<Dn(k)>> : k \in PlainKinds} \cup {<<Do("constant", N("3"))>>, <<Do("enumeration", N("1")), Do("enumeration", N("2"))>>} \cup {Blk("one_of", "", Kind(Bool)) \o Blk("one_of", "", Kind(<<Dn("null")>>))}
NoMark(hd) == hd[1][2] \in {"constant", "one_of"}
FullSchemas(nil_) == UNION {{<<Dn(k)>> \o own \o mark \o few : own \in AllOf_(OwnAll(k)), mark \in Marks, few \in DataFew} : k \in PlainKinds}
               \cup UNION {{<<Dn(k)>> \o few \o own \o mark : own \in FewOrMost(OwnAll(k), 1, 0), mark \in Marks, few \in DataFew} : k \in PlainKinds}
FullCommon(nil_) == UNION {{hd \o x \o mark : x \in AllOf_(DataAll), mark \in IF NoMark(hd) THEN {<<>>} ELSE {<<>>, <<Dn("read_only")>>}} : hd \in {h \in Heads : h[1][2] \in {"bool", "constant", "one_of", "enumeration"}}}
FullOrders(nil_) == UNION {{hd \o x : x \in Orders(DataAll)} : hd \in Heads} \cup UNION {{<<Dn(k)>> \o x : x \in Orders(OwnAll(k) \o DataAll \o <<<<Dn("write_only")>>>>)} : k \in PlainKinds}
SecAll(sc) ==
  <<<<Do("attype", S("T1"))>>, <<Do("description", S("A"))>>, Ml("descriptions", <<"en", "it">>), <<Do("proxy", S("/p"))>>, <<Do("with_key", S("k"))>>, <<Dn("required")>>>>
  \o CASE sc \in {"basic", "apikey"} -> <<<<Do("name", S("n"))>>, <<Do("location", S("cookie"))>>>>
       [] sc = "digest" -> <<<<Do("name", S("n"))>>, <<Do("location", S("body"))>>, <<Do("qop", S("auth-int"))>>>>
       [] sc = "bearer" -> <<<<Do("name", S("n"))>>, <<Do("location", S("uri"))>>, <<Do("authorization", S("/a"))>>, <<Do("alg", S("x"))>>, <<Do("format", S("y"))>>>>
       [] sc = "oauth2" -> <<<<Do("authorization", S("/a"))>>, <<Do("token", S("/t"))>>, <<Do("refresh", S("/r"))>>, <<Do("scope", S("r")), Do("scope", S("w"))>>>>
       [] sc = "custom" -> <<<<Do("data", O(("k" :> N("1")) @@ ("scopes" :> S("x"))))>>>>
       [] OTHER -> <<>>
ComboAll == <<<<Do("attype", S("T1"))>>, <<Do("description", S("A"))>>, Ml("descriptions", <<"en">>), <<Do("proxy", S("/p"))>>, <<Do("with_key", S("k"))>>, <<Dn("required")>>,
              <<Do("push", S("nosec"))>>, <<Do("extend", A(<<S("basic"), S("nosec")>>))>>>>
ThingAll == <<<<Do("id", S("urn:1"))>>, <<Do("description", S("C"))>>, Ml("descriptions", <<"it">>), Ml("titles", <<"en", "it">>), <<Do("support", S("/s"))>>, <<Do("base", S("/b"))>>,
              <<Do("version", O(("instance" :> S("2")) @@ ("model" :> S("m"))))>>, <<Do("created", S("2022-11-25T18:00:00Z"))>>, <<Do("modified", S("2022-05-01T09:00:00+05:30"))>>,
              <<Do("context", S("https://schema.org"))>>, <<Do("attype", S("T1"))>>, <<Do("profile", S("/p1"))>>, <<Do("link", S("/l"))>>,
              Blk("context_map", "", <<Dk("context", "ex", S("/ex"))>>), Sec(Dn("basic"), <<Dn("required")>>), Blk("link_with", "", Flat_(LinkAll)), Sec(Dn("psk"), <<>>)>>
ThingExtra == <<FormB(ThingOp), UriVar("u", Bool), SchemaDef("d", Bool), Prop("p", <<>>), Act("a", <<>>), Ev("e", <<>>)>>

(***************************************************************************)
(* Extensions before, between and after the members                         *)
(***************************************************************************)
ActExt(w) == <<RepV("ext" \o w, "act"), RepV("ext_interaction" \o w, "int")>>
EvExt(w) == <<RepV("ext" \o w, "ev"), RepV("ext_interaction" \o w, "int")>>
PropExt(w) == <<RepV("ext_data_schema" \o w, "ds"), RepV("ext_interaction" \o w, "int"), RepV("ext" \o w, "prop")>>
FormExt(w) == <<RepV("ext" \o w, "form")>>
Mid(a, h) == h[1] \o a \o h[2]
Ws(h) == IF (h[3] % 2) = 0 THEN "" ELSE "_with"
LateActs(nil_) == UNION {{Blk("action", "a", h[1] \o Flat_(ActExt(Ws(h)))), Blk("action", "a", Mid(Flat_(ActExt(Ws(h))), h))} : h \in Halves(ActAll)}
LateEvs(nil_) == UNION {{Blk("event", "e", h[1] \o Flat_(EvExt(Ws(h)))), Blk("event", "e", Mid(Flat_(EvExt(Ws(h))), h))} : h \in Halves(EvAll)}
(* the extensions of the interaction and those of the action, in other orders and with members in between *)
Splits(kind, n, s, x) == {Blk(kind, n, Pick(s, 1..i) \o Flat_(Rotate(x, k)) \o Pick(s, (i+1)..Len(s))) : i \in 0..Len(s), k \in 0..(Len(x) - 1)}
                         \cup {Blk(kind, n, Pick(s, 1..i) \o x[1] \o Pick(s, (i+1)..j) \o Flat_(Tail(x)) \o Pick(s, (j+1)..Len(s))) : i \in 0..Len(s), j \in 0..Len(s)}
                         \cup {Blk(kind, n, Pick(s, 1..i) \o Flat_(Tail(x)) \o Pick(s, (i+1)..j) \o x[1] \o Pick(s, (j+1)..Len(s))) : i \in 0..Len(s), j \in 0..Len(s)}
PropLate(pre, post) == Blk("property", "p", pre \o <<Dn("finish_extend"), Dn("bool")>> \o post)
LateProps(nil_) == UNION {{PropLate(h[1] \o Flat_(PropExt(Ws(h))), <<>>), PropLate(Mid(Flat_(PropExt(Ws(h))), h), <<>>)} : h \in Halves(PropEarly)}
             \cup {PropLate(PropExt("")[1] \o x \o Flat_(Tail(PropExt(""))), <<>>) : x \in AllOf_(PropAll)}
             \cup {PropLate(Pick(PropEarly, 1..i) \o PropExt("_with")[(k % 3) + 1] \o Pick(PropEarly, (i+1)..j) \o PropExt("")[((k + d) % 3) + 1] \o PropExt("")[((k + 3 - d) % 3) + 1] \o Pick(PropEarly, (j+1)..Len(PropEarly)), <<>>)
                   : i \in 0..Len(PropEarly), j \in 0..Len(PropEarly), k \in 0..2, d \in {1, 2}}
Href == <<Do("href", S("/h"))>>
LateFormBodies(pl, h) ==
  LET need == IF pl = "thing" THEN ThingOp ELSE <<>>  x == Flat_(FormExt(Ws(h)))
  IN {need \o h[1] \o Href \o x, need \o h[1] \o x \o Href, Href \o h[1] \o x \o need, Href \o Mid(x, h), Mid(x \o Href, h)}
InPlace(pl, body) == CASE pl = "thing" -> Blk("form", "", body) [] pl = "prop" -> Prop("n", Blk("form", "", body)) [] pl = "action" -> Act("n", Blk("form", "", body)) [] pl = "event" -> Ev("n", Blk("form", "", body))
LateForms(pls) == UNION {{InPlace(pl, b) : b \in UNION {LateFormBodies(pl, h) : h \in Halves(FormAll(pl))}} : pl \in pls}
LateSchemas(nil_) == UNION {{Act("a", Blk("input", "", h[1] \o RepV("ext" \o Ws(h), "ds") \o <<Dn("finish_extend"), Dn("bool")>>)),
                       Blk("uri_variable", "u", Mid(RepV("ext" \o Ws(h), "ds"), h) \o <<Dn("finish_extend"), Dn("number")>>),
                       Ev("e", Blk("data", "", RepV("ext", "ds") \o h[1] \o <<Dn("finish_extend")>> \o h[2] \o <<Do("constant", N("1"))>>))} : h \in Halves(DataAll)}
LateThings(nil_) == {x \o RepV("ext", "thing") \o <<Dn("finish_extend")>> \o Flat_(ThingExtra) : x \in FewOrMost(ThingAll, 2, 2)}
              \cup {Pick(ThingAll, 1..i) \o RepV("ext_with", "thing") \o Pick(ThingAll, (i+1)..j) \o <<Dn("finish_extend")>> \o Pick(ThingAll, (j+1)..Len(ThingAll)) : i \in 0..Len(ThingAll), j \in 0..Len(ThingAll)}

(***************************************************************************)
(* Long lists, the fault at every position                                  *)
(***************************************************************************)
BulkN == 6
(* n things of which those at the positions T are of the other kind *)
Mix(n, good(_), bad(_), T) == Flat_([i \in 1..n |-> IF i \in T THEN bad(i) ELSE good(i)])
Mixes(n, good(_), bad(_)) == {Mix(n, good, bad, T) : T \in {{}} \cup {{i} : i \in 1..n} \cup {{i, n} : i \in 1..(n-1)}}
Nth(i) == "n" \o ToString(i)
SecDefs(n) == Flat_([i \in 1..n |-> SecKeyed(Nth(i), Dn("no_sec"), <<>>)])
BulkNames(nil_) == (LET good(i) == <<S(Nth(i))>>  bad(i) == <<S("z" \o ToString(i))>> IN Mixes(BulkN, good, bad))
BulkForms(b) == (LET good(i) == FormB(<<>>)  bad(i) == FormB(b) IN Mixes(BulkN, good, bad))
BulkThingForms(b) == (LET good(i) == FormB(ThingOp)  bad(i) == FormB(ThingOp \o b) IN Mixes(BulkN, good, bad))
BulkPlaces(b) == BulkThingForms(b) \cup {Prop("n", x) : x \in BulkForms(b)} \cup {Act("n", x) : x \in BulkForms(b)} \cup {Ev("n", x) : x \in BulkForms(b)}
                 \cup (LET g(i) == Prop(Nth(i), FormB(<<>>))  w(i) == Prop(Nth(i), FormB(b)) IN Mixes(BulkN, g, w))
                 \cup (LET g(i) == Act(Nth(i), FormB(<<>>))  w(i) == Act(Nth(i), FormB(b)) IN Mixes(BulkN, g, w))
                 \cup (LET g(i) == Ev(Nth(i), FormB(<<>>))  w(i) == Ev(Nth(i), FormB(b)) IN Mixes(BulkN, g, w))
AllForms(bodies) == UNION {{FormIn(pl, "n", b) : b \in bodies} : pl \in FormPlaces}
Stringy(x) == [i \in DOMAIN x |-> x[i][2]]
BulkSec(nil_) == {SecDefs(BulkN) \o x : x \in AllForms({Calls("security", Stringy(l)) : l \in BulkNames(0)}) \cup BulkPlaces(Calls("security", <<"n2", "zz">>))}
           \cup {SecDefs(BulkN) \o SecKeyed("c", Dn("combo"), <<Do(k, A(l))>>) : k \in {"one_of", "all_of"}, l \in BulkNames(0)}
           \cup {SecKeyed("c", Dn("combo"), <<Do(k, A(<<l[1]>>)), Do("extend", A(SubSeq(l, 2, 4))), Do("push", l[5]), Do("push", l[6])>>) \o SecDefs(BulkN) : k \in {"one_of", "all_of"}, l \in BulkNames(0)}
           \cup (LET g(i) == SecKeyed(Nth(i), Dn("no_sec"), <<>>)  w(i) == SecKeyed("c" \o ToString(i), Dn("combo"), <<Do("one_of", A(<<S("n1"), S("zz")>>))>>) IN Mixes(BulkN, g, w))
           \cup (LET g(i) == SecKeyed(Nth(i), Dn("combo"), <<Do("all_of", A(<<S("n1"), S(Nth(i))>>))>>)  w(i) == SecKeyed(Nth(i), Dn("combo"), <<Do("one_of", A(<<S("n1"), S("zz")>>))>>) IN Mixes(BulkN, g, w))
(* the defined names are not all there *)
BulkMissing(nil_) == {Flat_([i \in 1..Len(q) |-> SecKeyed(Nth(q[i]), Dn("auto"), <<>>)]) \o FormIn(pl, "n", Calls("security", [i \in 1..BulkN |-> Nth(i)])) :
                  q \in {SelectSeq([i \in 1..BulkN |-> i], LAMBDA x : x # d) : d \in 0..BulkN}, pl \in FormPlaces}
               \cup {Flat_([i \in 1..Len(q) |-> SchemaDef(Nth(q[i]), Bool)]) \o FormIn(pl, "n", Flat_([i \in 1..BulkN |-> Aresp(<<Do("schema", S(Nth(i)))>>)])) :
                  q \in {SelectSeq([i \in 1..BulkN |-> i], LAMBDA x : x # d) : d \in 0..BulkN}, pl \in FormPlaces}
OpsOk(pl) == CASE pl = "thing" -> <<"readallproperties", "writeallproperties", "queryallactions", "subscribeallevents", "unobserveallproperties">>
               [] pl = "prop" -> <<"readproperty", "writeproperty", "observeproperty", "unobserveproperty", "readproperty">>
               [] pl = "action" -> <<"invokeaction", "queryaction", "cancelaction", "invokeaction", "queryaction">>
               [] pl = "event" -> <<"subscribeevent", "unsubscribeevent", "subscribeevent", "unsubscribeevent", "unsubscribeevent">>
BulkOps(nil_) == UNION {{FormRaw(pl, "n", Calls("op", [OpsOk(pl) EXCEPT ![i] = o])) : i \in 1..5, o \in Ops} : pl \in FormPlaces}
           \cup UNION {BulkPlaces(Calls("op", <<o>>)) : o \in {"invokeaction", "readproperty", "subscribeevent"}}
           \cup (LET g(i) == FormB(ThingOp)  w(i) == FormB(<<>>) IN Mixes(BulkN, g, w))
BulkSchemas(nil_) == {SchemaDef("d", Bool) \o x : x \in AllForms((LET g(i) == Aresp(<<Do("schema", S("d"))>>)  w(i) == Aresp(<<Do("schema", S("z"))>>) IN Mixes(BulkN, g, w)))
                                              \cup AllForms((LET g(i) == Aresp(<<>>)  w(i) == Aresp(<<Do("schema", S("z"))>>) IN Mixes(BulkN, g, w))) \cup BulkPlaces(Aresp(<<Do("schema", S("z"))>>))}
BulkDup(nil_) == LET pos == {<<i, j>> \in (1..BulkN) \X (1..BulkN) : i < j}
               name(i, p) == IF i = p[2] THEN Nth(p[1]) ELSE Nth(i)
           IN UNION {{Flat_([i \in 1..BulkN |-> Prop(name(i, p), <<>>)]), Flat_([i \in 1..BulkN |-> Act(name(i, p), <<>>)]), Flat_([i \in 1..BulkN |-> Ev(name(i, p), <<>>)]),
                      Flat_([i \in 1..BulkN |-> SecKeyed(name(i, p), IF i = p[2] THEN Dn("basic") ELSE Dn("no_sec"), <<>>)]),
                      Flat_([i \in 1..BulkN |-> CASE i = 1 -> Prop("x", <<>>) [] i % 3 = 0 -> Prop(name(i, p), <<>>) [] i % 3 = 1 -> Act(name(i, p), <<>>) [] OTHER -> Ev(name(i, p), <<>>)])} : p \in pos}
           \cup {Flat_([i \in 1..BulkN |-> Prop(Nth(i), <<>>) \o Act(Nth(i), <<>>) \o Ev(Nth(i), <<>>) \o SecKeyed(Nth(i), Dn("psk"), <<>>)])}
BadRange == <<Dn("integer"), Do("minimum", N("2")), Do("maximum", N("1"))>>
BadNan == <<Dn("number"), Do("maximum", N("$nan"))>>
BadStep == <<Dn("number"), Do("multiple_of", N("0"))>>
OkRange == <<Dn("integer"), Do("minimum", N("1")), Do("maximum", N("2"))>>
BulkSchema(f, n) ==
  {<<Dn("tuple")>> \o x : x \in (LET g(i) == Blk("append", "", Kind(OkRange))  w(i) == Blk("append", "", Kind(f)) IN Mixes(n, g, w))}
  \cup {<<Dn("object")>> \o x : x \in (LET g(i) == BlkV("property", Nth(i), IF (i % 2) = 0 THEN True ELSE False, Kind(Bool))
                                            w(i) == BlkV("property", Nth(i), IF i = 3 THEN True ELSE False, Kind(f)) IN Mixes(n, g, w))}
  \cup (LET g(i) == Blk("one_of", "", Kind(Bool))  w(i) == Blk("one_of", "", Kind(f)) IN Mixes(n, g, w))
BulkUris(f) == (LET g(i) == UriVar(Nth(i), Bool)  w(i) == UriVar(Nth(i), f) IN Mixes(BulkN, g, w))
UriHolders(b) == {Prop("n", b), Act("n", b), Ev("n", b), b}
BulkLimits(nil_) == UNION {{InHolder(h, "n", b) : b \in BulkSchema(f, BulkN)} : f \in {BadRange, BadStep}, h \in Holders}
              \cup UNION {UriHolders(b) : b \in BulkUris(BadNan)}
              \cup (LET g(i) == SchemaDef(Nth(i), OkRange)  w(i) == SchemaDef(Nth(i), BadRange) IN Mixes(BulkN, g, w))
              \cup (LET g(i) == PropK(Nth(i), OkRange, <<>>)  w(i) == PropK(Nth(i), BadRange, <<>>) IN Mixes(BulkN, g, w))
              \cup (LET g(i) == Act(Nth(i), Blk("input", "", Kind(OkRange)) \o Blk("output", "", Kind(OkRange)))  w(i) == Act(Nth(i), Blk("input", "", Kind(Bool)) \o Blk("output", "", Kind(BadRange))) IN Mixes(BulkN, g, w))
              \cup {Ev("n", Flat_([i \in 1..4 |-> Blk(<<"subscription", "data", "data_response", "cancellation">>[i], "", Kind(IF i = j THEN BadRange ELSE OkRange))])) : j \in 0..4}
BulkUri(nil_) == UNION {UriHolders(b) : b \in BulkUris(<<Dn("object")>>) \cup BulkUris(<<Dn("vec")>>) \cup BulkUris(<<Dn("tuple")>>)}
           \cup (LET g(i) == Prop(Nth(i), UriVar("u", Bool))  w(i) == Prop(Nth(i), UriVar("u", <<Dn("object")>>)) IN Mixes(BulkN, g, w))
           \cup (LET g(i) == Act(Nth(i), UriVar("u", Bool))  w(i) == Act(Nth(i), UriVar("u", <<Dn("vec")>>)) IN Mixes(BulkN, g, w))
           \cup (LET g(i) == Ev(Nth(i), UriVar("u", Bool))  w(i) == Ev(Nth(i), UriVar("u", <<Dn("tuple")>>)) IN Mixes(BulkN, g, w))
LongTags == <<"en", "it", "zh-Hant-TW", "de-CH-1996", "x-private", "EN">>
TagLists == {[LongTags EXCEPT ![i] = b] : i \in 1..6, b \in {"en_US", ""}} \cup {LongTags}
BulkTags(nil_) == UNION {UNION {{Ml(m, l), Prop("n", Ml(m, l)), Act("n", Ml(m, l)), Ev("n", Ml(m, l)), InHolder("output", "n", Bool \o Ml(m, l)), InHolder("prop", "n", Wrap("tuple2", Bool \o Ml(m, l)))} : m \in {"titles", "descriptions"}} : l \in TagLists}
            \cup {Sec(Dn("auto"), Ml("descriptions", l)) : l \in TagLists}
            \cup {Blk("link_with", "", Href \o Calls("hreflang", l)) : l \in TagLists}
            \cup UNION {(LET g(i) == Prop(Nth(i), Ml(m, <<"en">>))  w(i) == Prop(Nth(i), Ml(m, <<"e_n">>)) IN Mixes(BulkN, g, w)) : m \in {"titles", "descriptions"}}
            \cup UNION {(LET g(i) == SchemaDef(Nth(i), Bool \o Ml(m, <<"en">>))  w(i) == SchemaDef(Nth(i), Bool \o Ml(m, <<"e_n">>)) IN Mixes(BulkN, g, w)) : m \in {"titles", "descriptions"}}
            \cup UNION {UNION {UriHolders(b) : b \in (LET g(i) == UriVar(Nth(i), Bool \o Ml(m, <<"en">>))  w(i) == UriVar(Nth(i), Bool \o Ml(m, <<"e_n">>)) IN Mixes(4, g, w))} : m \in {"titles", "descriptions"}}
            \cup (LET g(i) == SecKeyed(Nth(i), Dn("psk"), Ml("descriptions", <<"en">>))  w(i) == SecKeyed(Nth(i), Dn("psk"), Ml("descriptions", <<"e_n">>)) IN Mixes(BulkN, g, w))
LinkW(b) == Blk("link_with", "", Href \o b)
BulkLinks(nil_) == (LET g(i) == LinkW(<<Do("rel", S("icon")), Do("sizes", S("1x1"))>>)  w(i) == LinkW(<<Do("rel", S("item")), Do("sizes", S("1x1"))>>) IN Mixes(BulkN, g, w))
             \cup (LET g(i) == <<Do("link", S("/l" \o ToString(i)))>>  w(i) == LinkW(<<Do("sizes", S("1x1"))>>) IN Mixes(BulkN, g, w))
             \cup (LET g(i) == LinkW(<<Do("rel", S("item")), Do("hreflang", S("en"))>>)  w(i) == LinkW(<<Do("rel", S("icon")), Do("hreflang", S("en_US"))>>) IN Mixes(BulkN, g, w))
(* many elements of everything *)
Many(nil_) == {Flat_([i \in 1..k |-> Prop(Nth(i), FormB(<<Do("content_type", S(Nth(i)))>>) \o FormB(<<>>)) \o Act(Nth(i), Blk("input", "", Kind(<<Do("constant", N(ToString(i)))>>))) \o Ev(Nth(i), UriVar(Nth(i), Bool))
                                  \o <<Do("link", S("/" \o Nth(i))), Do("profile", S("/" \o Nth(i))), Do("attype", S(Nth(i))), Do("context", S("/" \o Nth(i)))>> \o FormB(ThingOp \o Calls("scope", <<Nth(i), "x">>)) \o SchemaDef(Nth(i), Bool)
                                  \o UriVar(Nth(i), <<Dn("string")>>) \o SecKeyed(Nth(i), Dn("auto"), <<Dn("required")>>)]) : k \in {1, 2, 3, 7, 12}}
        \cup {Flat_([i \in 1..20 |-> CASE w = 1 -> Prop(Nth(i), <<>>) [] w = 2 -> Act(Nth(i), <<>>) [] w = 3 -> Ev(Nth(i), <<>>) [] w = 4 -> <<Do("profile", S(Nth(i)))>> [] w = 5 -> <<Do("attype", S(Nth(i)))>>
                                        [] w = 6 -> <<Do("context", S(Nth(i)))>> [] w = 7 -> Blk("context_map", "", <<Dk("context", Nth(i), S("/x"))>>) [] w = 8 -> <<Do("link", S(Nth(i)))>>
                                        [] w = 9 -> SecKeyed(Nth(i), Dn("auto"), <<Dn("required")>>) [] w = 10 -> FormB(ThingOp) [] w = 11 -> UriVar(Nth(i), Bool) [] w = 12 -> SchemaDef(Nth(i), Bool)]) : w \in 1..12}
        \cup {InHolder(h, "n", b) : h \in {"prop", "output", "thing-uri"}, b \in {<<Do("enumeration", N("0"))>> \o [i \in 1..19 |-> Do("enumeration", N("1"))]} \cup UNION {BulkSchema(k, 15) : k \in {<<Dn("null")>>}}}

(***************************************************************************)
(* Deep nesting                                                             *)
(***************************************************************************)
RECURSIVE Deep(_, _, _)
Deep(ws, n, ks) == IF n = 0 THEN ks ELSE Wrap(ws[((n - 1) % Len(ws)) + 1], Deep(ws, n - 1, ks))
DeepWays == {<<w>> : w \in {"vec", "tuple1", "tuple2", "object", "object2", "oneof1", "oneof2"}} \cup {<<"vec", "object", "oneof2", "tuple2">>, <<"object2", "tuple1">>, <<"oneof1", "vec">>}
DeepOf(ns, bodies, hs) == {InHolder(h, "n", Deep(ws, n, k)) : ws \in DeepWays, n \in ns, k \in bodies, h \in hs}
DeepLimits(nil_) == DeepOf({3, 5, 8, 13}, {BadRange, OkRange, BadStep}, {"prop", "input", "data", "definition"}) \cup DeepOf({4, 8}, {BadRange}, {"output", "subscription", "data_response", "cancellation"})
              \cup {UriVar("u", Deep(<<w>>, n, BadRange)) : w \in {"oneof1", "oneof2"}, n \in {3, 5, 8, 13}} \cup {UriVar("u", Deep(<<"oneof2">>, n, Wrap("vec", BadRange))) : n \in {2, 6}}
DeepTags(nil_) == DeepOf({3, 6, 11}, {Bool \o Ml("titles", <<"en_US">>), Bool \o Ml("descriptions", <<"en_US">>), Bool \o Ml("titles", <<"EN">>)}, {"prop", "output", "data", "definition"})
            \cup {UriVar("u", Deep(<<w>>, n, Bool \o Ml(m, <<t>>))) : w \in {"oneof1", "oneof2"}, n \in {3, 8}, m \in {"titles", "descriptions"}, t \in {"en", "en_US"}}
DeepData(nil_) == DeepOf({3, 7, 15}, {Bool \o Flat_(DataAll), <<Do("constant", A(<<O("k" :> Z)>>))>>, <<Dn("string"), Dn("read_only")>>, <<Do("enumeration", N("1"))>>, <<Dn("tuple")>>, <<Dn("vec")>>, <<Dn("object")>>},
                   {"prop", "input", "definition", "cancellation"})

(***************************************************************************)
(* Unusual texts in every place that takes a text                           *)
(***************************************************************************)
FreeText == {"attype", "title", "description", "unit", "format", "content_type", "content_coding", "subprotocol", "scope", "ty", "anchor", "sizes", "pattern", "content_encoding",
             "content_media_type", "proxy", "authorization", "token", "refresh", "alg", "id", "support", "base", "context", "profile", "link", "href", "add"}
OddTexts == {"", "$mix", "$uni", "$ctl", "@type", "null", "$json"}
RetextV(v, t) == CASE v[1] = "s" -> S(t) [] v[1] = "o" -> O([x \in DOMAIN v[2] |-> IF v[2][x][1] = "s" THEN S(t) ELSE v[2][x]]) [] OTHER -> v
Retext1(e, t) == CASE e[2] \in FreeText -> [e EXCEPT ![4] = RetextV(@, t)]
                   [] e[2] \in {"response", "response_default_ext"} -> [e EXCEPT ![4] = A(<<S(t)>> \o Tail(@[2]))]
                   [] e[2] = "default_value" -> [e EXCEPT ![4] = S(t)]
                   [] e[2] = "version" -> [e EXCEPT ![4] = RetextV(@, t)]
                   [] OTHER -> e
Retext(b, t) == [i \in DOMAIN b |-> Retext1(b[i], t)]
(* all members, and each alone *)
Each(s, need(_)) == {Flat_(s)} \cup {need(s[i]) : i \in DOMAIN s}
Odd(bs) == {Retext(b, t) : b \in bs, t \in OddTexts}
Same(x) == x
OddForms(nil_) == UNION {{CtxOne \o x : x \in Odd({FormIn(pl, "n", y) : y \in Each(FormAll(pl), Same)})} : pl \in FormPlaces}
OddSchemas(nil_) == Odd(UNION {{InHolder(h, "n", hd \o y) : y \in Each(DataAll, Same)} : h \in {"prop", "input", "definition"}, hd \in Heads}
                   \cup UNION {{InHolder(h, "n", <<Dn("string")>> \o y) : y \in Each(OwnAll("string") \o DataAll, Same)} : h \in Holders})
OddSchemes(nil_) == Odd(UNION {UNION {{Blk("security", "", <<Selector(sc)>> \o y), Blk("security", "", y \o <<Selector(sc)>>)} : y \in Each(SecAll(sc), Same)} : sc \in Schemes})
                   \cup Odd(UNION {{Sec(Dn("no_sec"), <<>>) \o Blk("security", "", <<Dn("combo"), Do("one_of", A(<<>>))>> \o y) : y \in Each(ComboAll, Same)}})
OddAffs(nil_) == Odd({Prop("p", y) : y \in Each(PropAll, Same)} \cup {Act("a", y) : y \in Each(ActAll, Same)} \cup {Ev("e", y) : y \in Each(EvAll, Same)})
OddLinks(nil_) == Odd({LinkW(y) : y \in Each(Tail(LinkAll), Same)} \cup {LinkW(<<Do("rel", S("icon"))>> \o y) : y \in Each(SubSeq(LinkAll, 3, 6), Same)} \cup {<<Do("link", S("x")), Do("link", S("x"))>>})
                   \cup {LinkW(<<Do("rel", S(t))>> \o y) : t \in OddTexts, y \in {<<>>, <<Do("ty", S("x"))>>}}
OddThings(nil_) == Odd(Each(ThingAll \o ThingExtra, Same))
(* unusual names, and references to them *)
OddNames == {"", " ", "$mix", "$uni", "$ctl", "@type", "a/b", "~0", "title", "properties", "$json"}
KeysOf(ns) == UNION {{Prop(n, UriVar(n, Bool)) \o Act(n, UriVar(n, Bool)) \o Ev(n, UriVar(n, Bool)) \o UriVar(n, Bool) \o SchemaDef(n, Bool) \o SecKeyed(n, Dn("auto"), <<Dn("required")>>)
                        \o FormB(ThingOp \o Calls("security", <<n>>) \o Aresp(<<Do("schema", S(n))>>)) \o Blk("context_map", "", <<Dk("context", n, S("/x"))>>)
                        \o SecKeyed("c" \o n, Dn("combo"), <<Do("all_of", A(<<S(n)>>))>>),
                      FormB(ThingOp \o Calls("security", <<n>>)), FormB(ThingOp \o Aresp(<<Do("schema", S(n))>>)), SecKeyed("c", Dn("combo"), <<Do("one_of", A(<<S(n)>>))>>),
                      Prop(n, <<>>) \o Prop(n, <<>>), Act(n, <<>>) \o Act(n, <<>>), Ev(n, <<>>) \o Ev(n, <<>>), SecKeyed(n, Dn("psk"), <<>>) \o SecKeyed(n, Dn("psk"), <<>>),
                      InHolder("prop", n, Wrap("object", Bool) \o BlkV("property", n, True, Kind(Bool)) \o BlkV("property", n \o "2", False, Kind(<<Dn("null")>>))),
                      InHolder("input", n, <<Dn("object")>> \o BlkV("property", n, True, Kind(<<Dn("object")>> \o BlkV("property", n, False, Kind(Bool))))),
                      Ev(n, Blk("data", "", Kind(<<Dn("object")>> \o BlkV("property", n, True, Kind(BadRange))))),
                      UriVar(n, <<Dn("object")>>), Act(n, UriVar(n, <<Dn("tuple")>>))} : n \in ns}
OddKeys(nil_) == KeysOf(OddNames)
               \cup {SecKeyed(n, Dn("auto"), <<>>) \o SecKeyed(m, Dn("auto"), <<Dn("required")>>) \o FormB(ThingOp \o Calls("security", <<m>>)) : n, m \in OddNames}
               \cup {Prop(n, <<>>) \o Prop(m, <<Do("unit", S("m"))>>) \o SchemaDef(n, Bool) : n, m \in OddNames}

(* the same with many more texts: each member alone in one place, all members in every place *)
Hard(bs) == {Retext(b, t) : b \in bs, t \in ManyTexts}
Alone(s, all(_)) == {all(s[i]) : i \in {j \in DOMAIN s : \E x \in DOMAIN s[j] : s[j][x][2] \in FreeText \cup {"response", "default_value", "version"}}}
TextForms(nil_) == UNION {{CtxOne \o x : x \in Hard({FormIn(pl, "n", Flat_(FormAll(pl)))})} : pl \in FormPlaces}
                   \cup {CtxOne \o x : x \in Hard({FormIn("event", "n", y) : y \in Alone(FormAll("event"), Same)} \cup {FormIn("prop", "n", <<Do("response_default_ext", A(<<S("x")>>))>>)})}
TextSchemas(nil_) == Hard({InHolder(h, "n", <<Dn(IF h = "prop" THEN "number" ELSE "string")>> \o Flat_(IF h = "prop" THEN <<>> ELSE OwnAll("string")) \o Flat_(DataAll)) : h \in Holders}
                          \cup {InHolder("data", "n", <<Dn("string")>> \o y) : y \in Alone(OwnAll("string") \o DataAll, Same)}
                          \cup {InHolder("prop", "n", <<Dn("null")>> \o y) : y \in Alone(DataAll, Same)})
                     \cup UNION {{InHolder(h, "n", <<Do("constant", S(t))>>), InHolder(h, "n", <<Do("enumeration", S(t)), Do("enumeration", S("x"))>>), InHolder(h, "n", <<Do("constant", O(t :> S(t)))>>),
                                   InHolder(h, "n", <<Do("default_value", A(<<O(t :> A(<<S(t)>>))>>)), Dn("bool")>>)} : h \in {"prop", "output"}, t \in ManyTexts}
TextSchemes(nil_) == Hard(UNION {{Blk("security", "", <<Selector(sc)>> \o y) : y \in {Flat_(SecAll(sc))} \cup (IF sc \in {"bearer", "oauth2"} THEN Alone(SecAll(sc), Same) ELSE {})} : sc \in Schemes}
                          \cup {Sec(Dn("no_sec"), <<>>) \o Sec(Dn("basic"), <<>>) \o Blk("security", "", <<Dn("combo"), Do("one_of", A(<<S("basic")>>))>> \o Flat_(ComboAll))})
                     \cup UNION {{Sec(Dn("basic"), <<Do("name", S(t))>>), Sec(Dn("apikey"), <<Do("name", S(t))>>), Sec(Dn("digest"), <<Do("name", S(t))>>), Sec(Dn("bearer"), <<Do("name", S(t))>>),
                                   Sec(Do("oauth2", S(t)), <<Dn("required")>>)} : t \in ManyTexts}
                     \cup UNION {{Sec(Do("custom", S(t)), x) : x \in {<<>>, <<Dn("required")>>, <<Do("data", O("k" :> S(t)))>>}} : t \in ManyTexts \ KnownSchemes}
                     \cup {Sec(Do("custom", S("x:c")), <<Do("data", O((t :> N("1")) @@ ("x:" \o t :> S(t))))>>) : t \in ManyTexts \ {"@type", "scheme", "description", "descriptions", "proxy", "name"}}
TextAffs(nil_) == Hard({Prop("p", Flat_(PropAll)), Act("a", Flat_(ActAll)), Ev("e", Flat_(EvAll))} \cup {Act("a", y) : y \in Alone(ActAll, Same)} \cup {Ev("e", y) : y \in Alone(EvAll, Same)})
TextLinks(nil_) == Hard({LinkW(Flat_(Tail(LinkAll))), <<Do("link", S("x"))>>} \cup {LinkW(y) : y \in Alone(Tail(LinkAll), Same)})
                   \cup UNION {{LinkW(<<Do("rel", S(t))>> \o y) : y \in {<<>>, <<Do("sizes", S("16x16"))>>, <<Do("sizes", S(""))>>, <<Do("sizes", S(t))>>}} : t \in ManyTexts}
TextThings(nil_) == Hard({Flat_(ThingAll \o ThingExtra)} \cup Alone(ThingAll, Same))
                    \cup {<<Do("version", O("instance" :> S(t)))>> : t \in ManyTexts} \cup {<<Do("version", S(t))>> : t \in ManyTexts}
                    \cup {<<Do("context", S(t)), Do("context", S("x")), Do("context", S(t))>> : t \in ManyTexts}
                    \cup {<<Do(m, S(t)), Do(m, S("x")), Do(m, S(t)), Do(m, S(t))>> : m \in {"attype", "profile"}, t \in ManyTexts}
TextKeys(nil_) == KeysOf(ManyTexts)
(* names that are all different, in one description; and one that is not there although all the others are *)
AllTexts == SetToSeq(ManyTexts)
SomeOf(f(_), ts) == Flat_([i \in DOMAIN ts |-> f(ts[i])])
AddDef(t) == SchemaDef(t, Bool)
AddSec(t) == SecKeyed(t, Dn("auto"), <<>>)
AddUri(t) == UriVar(t, Bool)
AddProp(t) == Prop(t, <<>>)
AddAct(t) == Act(t, <<>>)
AddEv(t) == Ev(t, <<>>)
AddMember(t) == BlkV("property", t, IF t \in {"a", " a", "$n64"} THEN True ELSE False, Kind(<<Dn("null")>>))
TextMany(nil_) == {SomeOf(AddDef, AllTexts), SomeOf(AddSec, AllTexts), SomeOf(AddUri, AllTexts), SomeOf(AddProp, AllTexts), SomeOf(AddAct, AllTexts), SomeOf(AddEv, AllTexts),
                   InHolder("input", "", <<Dn("object")>> \o SomeOf(AddMember, AllTexts)), InHolder("prop", "p", <<Dn("object")>> \o SomeOf(AddMember, AllTexts)),
                   Flat_([i \in DOMAIN AllTexts |-> <<Do("attype", S(AllTexts[i])), Do("profile", S(AllTexts[i])), Do("context", S(AllTexts[i])), Do("link", S(AllTexts[i]))>>]),
                   Blk("context_map", "", [i \in DOMAIN AllTexts |-> Dk("context", AllTexts[i], S("/x"))]),
                   FormIn("prop", "n", [i \in DOMAIN AllTexts |-> Do("scope", S(AllTexts[i]))]),
                   SomeOf(AddSec, AllTexts) \o FormIn("action", "n", Calls("security", AllTexts)) \o Sec(Dn("combo"), <<Do("all_of", A([i \in DOMAIN AllTexts |-> S(AllTexts[i])]))>>)}
TextRefs(nil_) == UNION {UNION {LET others == SetToSeq(c \ {t})
                                 IN {SomeOf(AddSec, others) \o FormIn("prop", "n", Calls("security", <<t>>)), SomeOf(AddSec, others) \o SecKeyed("$comb", Dn("combo"), <<Do("one_of", A(<<S(t)>>))>>),
                                     SomeOf(AddDef, others) \o FormIn("event", "n", Aresp(<<Do("schema", S(t))>>))} : t \in c} : c \in TextClasses}

Alphabet2(name) ==
  CASE name = "lateacts" -> LateActs(0) [] name = "lateevs" -> LateEvs(0) [] name = "lateprops" -> LateProps(0)
    [] name = "latesplits" -> Splits("action", "a", ActAll, ActExt("_with")) \cup Splits("event", "e", EvAll, EvExt(""))
    [] name = "lateforms" -> {c \o x : c \in Ctx, x \in LateForms(FormPlaces)}
    [] name = "lateforms1" -> {c \o x : c \in Ctx, x \in LateForms({"prop"})}
    [] name = "lateschemas" -> LateSchemas(0) [] name = "latethings" -> LateThings(0)
    [] name = "fullschemas" -> {InHolder(h, "n", b) : h \in {"input"}, b \in FullSchemas(0)} \cup {InHolder(h, "n", b) : h \in {"prop"}, b \in {x \in FullSchemas(0) : ~IsStr(x)}}
    [] name = "fullcommon" -> {InHolder(h, "n", b) : h \in {"prop", "data"}, b \in FullCommon(0)} \cup {InHolder(h, "n", b) : h \in {"output", "definition"}, b \in FullOrders(0)}
    [] name = "fullprops" -> {Prop("p", x) : x \in AllOf_(PropAll) \cup Orders(PropAll)} \cup {PropK("p", hd, x) : hd \in Heads, x \in FewOrMost(PropAll, 1, 1)}
    [] name = "fullacts" -> {Act("a", x) : x \in AllOf_(ActAll) \cup Orders(ActAll)}
    [] name = "fullevs" -> {Ev("e", x) : x \in AllOf_(EvAll) \cup Orders(EvAll)}
    [] name = "fullforms" -> UNION {{c \o FormIn(pl, "n", x) : c \in Ctx, x \in AllOf_(FormAll(pl)) \cup Orders(FormAll(pl))} : pl \in {"prop", "action", "event"}}
                             \cup {c \o FormB(x) : c \in Ctx, x \in {y \in AllOf_(FormAll("thing")) \cup Orders(FormAll("thing")) : \E i \in DOMAIN y : y[i][2] = "op"}}
    [] name = "fullforms0" -> UNION {{c \o FormRaw(pl, "n", x) : c \in Ctx, x \in AllOf_(FormAll(pl)) \cup Orders(FormAll(pl))} : pl \in FormPlaces}
    [] name = "fulllinks" -> {Blk("link_with", "", x) : x \in AllOf_(LinkAll) \cup Orders(LinkAll)} \cup {LinkW(<<Do("rel", S(r))>> \o x) : r \in {"Icon", "item", ""}, x \in AllOf_(SubSeq(LinkAll, 3, 6))}
    [] name = "fullschemes" -> UNION {{Blk("security", "", <<Selector(sc)>> \o x) : x \in AllOf_(SecAll(sc)) \cup Orders(SecAll(sc))} : sc \in Schemes}
                               \cup UNION {{Blk("security", "", Pick(SecAll(sc), 1..i) \o <<Selector(sc)>> \o Pick(SecAll(sc), (i+1)..Len(SecAll(sc)))) : i \in 0..6} : sc \in Schemes}
    [] name = "fullcombos" -> {Sec(Dn("no_sec"), <<>>) \o Sec(Dn("basic"), <<>>) \o Blk("security", "", <<Dn("combo"), Do(k, A(l))>> \o x) : k \in {"one_of", "all_of"}, l \in {<<>>, <<S("basic")>>}, x \in AllOf_(ComboAll) \cup Orders(ComboAll)}
    [] name = "fullthings" -> FewOrMost(ThingAll \o ThingExtra, 2, 2) \cup Orders(ThingAll \o ThingExtra)
    [] name = "fullaresp" -> {SchemaDef("d", Bool) \o FormIn(pl, "n", Flat_([i \in DOMAIN s |-> Aresp(s[i])])) : pl \in FormPlaces,
                                s \in Seqs1(AllOf_(<<<<Dn("success")>>, <<Do("content_type", S("x"))>>, <<Do("schema", S("d"))>>>>), 2)}
    [] name = "bulksec" -> BulkSec(0) [] name = "bulkmissing" -> BulkMissing(0) [] name = "bulkops" -> BulkOps(0) [] name = "bulkschemas" -> BulkSchemas(0) [] name = "bulkdup" -> BulkDup(0)
    [] name = "bulklimits" -> BulkLimits(0) [] name = "bulkuri" -> BulkUri(0) [] name = "bulktags" -> BulkTags(0) [] name = "bulklinks" -> BulkLinks(0) [] name = "many" -> Many(0)
    [] name = "deeplimits" -> DeepLimits(0) [] name = "deeptags" -> DeepTags(0) [] name = "deepdata" -> DeepData(0)
    [] name = "oddforms" -> OddForms(0) [] name = "oddschemas" -> OddSchemas(0) [] name = "oddschemes" -> OddSchemes(0) [] name = "oddaffs" -> OddAffs(0)
    [] name = "oddlinks" -> OddLinks(0) [] name = "oddthings" -> OddThings(0) [] name = "oddkeys" -> OddKeys(0)
    [] name = "textforms" -> TextForms(0) [] name = "textschemas" -> TextSchemas(0) [] name = "textschemes" -> TextSchemes(0) [] name = "textaffs" -> TextAffs(0)
    [] name = "textlinks" -> TextLinks(0) [] name = "textthings" -> TextThings(0) [] name = "textkeys" -> TextKeys(0) [] name = "textmany" -> TextMany(0) [] name = "textrefs" -> TextRefs(0)
    [] OTHER -> Alphabet(name)
=============================================================================
