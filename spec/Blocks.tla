------------------------------- MODULE Blocks -------------------------------
(* Small finite alphabets for exhaustive checking: each step adds one block (a builder call with everything inside it) to
   the thing.  Blocks(set) names the alphabets; the number of steps is bounded. *)
EXTENDS Hist

Do(m, v) == <<".", m, "", v>>
Dn(m) == <<".", m, "", Z>>
Dk(m, key, v) == <<".", m, key, v>>
End == <<")", "", "", Z>>
BlkV(m, key, v, body) == <<<<"(", m, key, v>>>> \o body \o <<End>>
Blk(m, key, body) == BlkV(m, key, Z, body)
Rep(m) == [i \in 1..NExt |-> Do(m, O(EmptyFn))]
Seqs(s, n) == UNION {[1..k -> s] : k \in 0..n}
Seqs1(s, n) == UNION {[1..k -> s] : k \in 1..n}
Calls(m, names) == [i \in DOMAIN names |-> Do(m, S(names[i]))]

Prefix == Rep("ext") \o <<Dn("finish_extend")>>
Kind(ks) == Rep("ext") \o <<Dn("finish_extend")>> \o ks
Bool == <<Dn("bool")>>
PropK(name, ks, post) == Blk("property", name, Rep("ext_data_schema") \o Rep("ext") \o Rep("ext_interaction") \o <<Dn("finish_extend")>> \o ks \o post)
PropPre(name, pre) == Blk("property", name, Rep("ext_data_schema") \o Rep("ext") \o Rep("ext_interaction") \o pre \o <<Dn("finish_extend"), Dn("bool")>>)
Prop(name, post) == PropK(name, Bool, post)
Act(name, body) == Blk("action", name, Rep("ext") \o Rep("ext_interaction") \o body)
Ev(name, body) == Blk("event", name, Rep("ext") \o Rep("ext_interaction") \o body)
FormB(body) == Blk("form", "", <<Do("href", S("/h"))>> \o Rep("ext") \o body)
ThingOp == <<Do("op", S("readallproperties"))>>
FormIn(place, name, body) == CASE place = "thing" -> FormB(ThingOp \o body) [] place = "prop" -> Prop(name, FormB(body))
                               [] place = "action" -> Act(name, FormB(body)) [] place = "event" -> Ev(name, FormB(body))
FormRaw(place, name, body) == IF place = "thing" THEN FormB(body) ELSE FormIn(place, name, body)
FormPlaces == {"thing", "prop", "action", "event"}
Sec(sel, body) == Blk("security", "", <<sel>> \o body)
SecKeyed(key, sel, body) == Blk("security", "", <<Do("with_key", S(key)), sel>> \o body)
SchemaDef(n, ks) == Blk("schema_definition", n, Kind(ks))
UriVar(n, ks) == Blk("uri_variable", n, Kind(ks))
Aresp(body) == Blk("additional_response", "", body)

(* every place of a data schema *)
Holders == {"prop", "prop-uri", "input", "output", "action-uri", "subscription", "data", "data_response", "cancellation",
            "event-uri", "thing-uri", "definition"}
InHolder(h, n, ks) ==
  CASE h = "prop" -> PropK(n, ks, <<>>) [] h = "prop-uri" -> Prop(n, UriVar("u", ks))
    [] h \in {"input", "output"} -> Act(n, Blk(h, "", Kind(ks))) [] h = "action-uri" -> Act(n, UriVar("u", ks))
    [] h \in {"subscription", "data", "data_response", "cancellation"} -> Ev(n, Blk(h, "", Kind(ks)))
    [] h = "event-uri" -> Ev(n, UriVar("u", ks)) [] h = "thing-uri" -> UriVar("u" \o n, ks) [] h = "definition" -> SchemaDef(n, ks)
Wraps == {"direct", "vec", "tuple1", "tuple2", "object", "object2", "oneof1", "oneof2"}
(* more than one neighbour, and neighbours of another standing *)
Wraps2 == {"vec2", "tuple3", "object3", "object4", "object5", "oneof3"}
Wrap(w, ks) ==
  CASE w = "direct" -> ks
    [] w = "vec" -> <<Dn("vec")>> \o Blk("set_item", "", Kind(ks))
    [] w = "tuple1" -> <<Dn("tuple")>> \o Blk("append", "", Kind(ks)) \o Blk("append", "", Kind(Bool))
    [] w = "tuple2" -> <<Dn("tuple")>> \o Blk("append", "", Kind(Bool)) \o Blk("append", "", Kind(ks))
    [] w = "object" -> <<Dn("object")>> \o BlkV("property", "m", True, Kind(ks))
    [] w = "object2" -> <<Dn("object")>> \o BlkV("property", "k", False, Kind(Bool)) \o BlkV("property", "m", False, Kind(ks))
    [] w = "vec2" -> <<Dn("vec"), Do("max_items", N("3")), Do("min_items", N("1")), Dn("read_only")>> \o Blk("set_item", "", Kind(Bool)) \o Blk("set_item", "", Kind(ks))
    [] w = "tuple3" -> <<Dn("tuple")>> \o Blk("append", "", Kind(<<Dn("string")>>)) \o Blk("append", "", Kind(Bool)) \o Blk("append", "", Kind(ks)) \o Blk("append", "", Kind(<<Dn("null")>>))
    [] w = "object3" -> <<Dn("object")>> \o BlkV("property", "k", True, Kind(Bool)) \o BlkV("property", "m", False, Kind(ks))
    [] w = "object4" -> <<Dn("object"), Dn("write_only")>> \o BlkV("property", "", False, Kind(ks)) \o BlkV("property", "k", True, Kind(<<Dn("vec")>>)) \o BlkV("property", "l", False, Kind(<<Dn("number")>>))
    [] w = "object5" -> <<Dn("object")>> \o BlkV("property", "k", False, Kind(Bool)) \o BlkV("property", "m", True, Kind(ks)) \o BlkV("property", "n", True, Kind(<<Dn("tuple")>>))
    [] w = "oneof3" -> Blk("one_of", "", Kind(<<Dn("string")>>)) \o Blk("one_of", "", Kind(<<Dn("object")>>)) \o Blk("one_of", "", Kind(ks)) \o Blk("one_of", "", Kind(Bool))
    [] w = "oneof1" -> Blk("one_of", "", Kind(ks)) \o Blk("one_of", "", Kind(Bool))
    [] w = "oneof2" -> Blk("one_of", "", Kind(Bool)) \o Blk("one_of", "", Kind(ks))

(* limits *)
NumK(ty, calls) == <<Dn(ty)>> \o calls
LimCalls(lo, hi) == (IF lo = <<>> THEN <<>> ELSE <<Do(lo[1], N(lo[2]))>>) \o (IF hi = <<>> THEN <<>> ELSE <<Do(hi[1], N(hi[2]))>>)
Los(vs) == {<<>>} \cup ({"minimum", "exclusive_minimum"} \X vs)
His(vs) == {<<>>} \cup ({"maximum", "exclusive_maximum"} \X vs)
Flips(lo, hi) == {LimCalls(lo, hi), LimCalls(hi, lo)}
FloatVs == {"-0.0", "0", "0.1", "1", "$nan", "$inf", "$-inf", "1.7976931348623157e308", "5e-324"}
IntVs == {"-9223372036854775808", "-1", "0", "1", "9007199254740993", "9223372036854775806", "9223372036854775807"}
LimitKinds(nil_) == {NumK("number", c) : c \in UNION {Flips(lo, hi) : lo \in Los(FloatVs), hi \in His(FloatVs)}}
              \cup {NumK("integer", c) : c \in UNION {Flips(lo, hi) : lo \in Los(IntVs), hi \in His(IntVs)}}
              \cup {NumK("number", <<Do("multiple_of", N(v))>>) : v \in FloatStepsGood \cup FloatStepsBad \cup {"$inf", "$-inf"}}
              \cup {NumK("integer", <<Do("multiple_of", N(v))>>) : v \in StepArgs}
              \cup {NumK("string", <<Do(a[1], N(x)), Do(a[2], N(y))>>) : a \in {<<"min_length", "max_length">>, <<"max_length", "min_length">>}, x \in LenArgs, y \in LenArgs}
              \cup {NumK("vec", <<Do(a[1], N(x)), Do(a[2], N(y))>>) : a \in {<<"min_items", "max_items">>, <<"max_items", "min_items">>}, x \in LenArgs, y \in LenArgs}
LimitRepr == {NumK("number", <<Do("minimum", N("1")), Do("maximum", N("1"))>>), NumK("number", <<Do("minimum", N("1.5")), Do("maximum", N("1"))>>),
              NumK("number", <<Do("exclusive_minimum", N("1")), Do("maximum", N("1"))>>), NumK("number", <<Do("exclusive_minimum", N("1")), Do("maximum", N("1.5"))>>),
              NumK("number", <<Do("maximum", N("$nan"))>>), NumK("number", <<Do("minimum", N("$nan"))>>), NumK("number", <<Do("multiple_of", N("0"))>>),
              NumK("number", <<Do("multiple_of", N("-1"))>>), NumK("number", <<Do("multiple_of", N("0.5"))>>),
              NumK("integer", <<Do("minimum", N("2")), Do("maximum", N("1"))>>), NumK("integer", <<Do("minimum", N("1")), Do("exclusive_maximum", N("1"))>>),
              NumK("integer", <<Do("exclusive_minimum", N("1")), Do("maximum", N("2"))>>), NumK("integer", <<Do("multiple_of", N("2"))>>),
              NumK("vec", <<Do("min_items", N("2")), Do("max_items", N("1"))>>), NumK("vec", <<Do("min_items", N("2")), Do("max_items", N("2"))>>),
              NumK("string", <<Do("min_length", N("2")), Do("max_length", N("1"))>>), NumK("string", <<Do("min_length", N("0")), Do("max_length", N("0"))>>)}
IsStr(k) == k[1][2] = "string"
(* the string builders of a property have no length limits *)
HolderOk(h, w, k) == ~(h = "prop" /\ w = "direct" /\ IsStr(k) /\ Len(k) > 1)

AllKinds == {<<Dn(x)>> : x \in {"bool", "null", "number", "integer", "string", "tuple", "vec", "object"}}
            \cup {<<Do("constant", v)>> : v \in {A(<<>>), O(EmptyFn), S("x"), Z}} \cup {<<Do("enumeration", A(<<>>)), Do("enumeration", O("type" :> S("array")))>>}
            \cup {Wrap("oneof1", <<Dn("object")>>), Wrap("oneof2", <<Dn("vec")>>), Wrap("oneof1", Bool)}
            \cup {<<Dn(x), Dn(y)>> : x \in {"bool", "null", "number", "integer", "string", "tuple", "vec", "object"}, y \in {"read_only", "write_only"}}

Pairs(s) == {<<x, y>> : x \in s, y \in s}
Ml(m, tags) == Blk(m, "", [i \in DOMAIN tags |-> Dk("add", tags[i], S("t" \o ToString(i)))])
TagPlaces(tags) ==
  LET ts == {"titles", "descriptions"}
      in(body) == {PropPre("p", body), Prop("p", body), Act("a", body), Ev("e", body)}
  IN {Ml(m, tags) : m \in ts} \cup UNION {in(Ml(m, tags)) : m \in ts}
     \cup {Sec(Dn("basic"), Ml("descriptions", tags))}
     \cup {Blk("link_with", "", <<Do("href", S("/l"))>> \o [i \in DOMAIN tags |-> Do("hreflang", S(tags[i]))])}
     \cup {InHolder(h, "n", Wrap(w, Bool \o Ml(m, tags))) : m \in ts, w \in Wraps, h \in Holders}
     \cup {InHolder("prop", "n", Wrap("vec", Wrap("object", Wrap("oneof2", Bool \o Ml(m, tags))))) : m \in ts}
     \cup {UriVar("v", Ml(m, tags) \o Bool) : m \in ts} 

LinkBodies == {<<Do("href", S("/l"))>> \o x \o y : x \in {<<>>} \cup {<<Do("rel", S(r))>> : r \in {"icon", "Icon", "icons", "", " icon", "item"}},
                                                   y \in {<<>>, <<Do("sizes", S("16x16"))>>, <<Do("sizes", S(""))>>}}
              \cup {<<Do("sizes", S("1x1")), Do("rel", S("item")), Do("href", S("/m")), Do("rel", S("icon"))>>,
                    <<Do("rel", S("icon")), Do("sizes", S("1x1")), Do("rel", S("item")), Do("href", S("/m"))>>,
                    <<Do("ty", S("t")), Do("anchor", S("#a")), Do("href", S("/m")), Do("hreflang", S("en")), Do("hreflang", S("it"))>>}

Faults(nil_) == {FormIn("prop", "p", Calls("security", <<"zz">>)), FormRaw("thing", "", Calls("op", <<"readproperty">>)), FormRaw("thing", "", <<>>),
           FormIn("action", "x", Calls("op", <<"subscribeevent">>)), FormIn("event", "e", Aresp(<<Do("schema", S("yy"))>>)),
           Prop("p", <<>>), Act("p", <<>>), Sec(Dn("basic"), <<>>), SecKeyed("basic", Dn("combo"), <<Do("all_of", A(<<S("ww")>>))>>),
           InHolder("input", "y", LET k == CHOOSE k \in {NumK("number", <<Do("minimum", N("2")), Do("maximum", N("1"))>>)} : TRUE IN k),
           InHolder("definition", "d", NumK("number", <<Do("maximum", N("$nan"))>>)), InHolder("data", "z", NumK("number", <<Do("multiple_of", N("0"))>>)),
           UriVar("u", <<Dn("object")>>), Ml("titles", <<"e_n">>), Blk("link_with", "", <<Do("href", S("/l")), Do("sizes", S("1x1"))>>),
           Blk("link_with", "", <<Do("href", S("/l")), Do("hreflang", S("not a tag"))>>)}
Repair == {SecKeyed("zz", Dn("no_sec"), <<>>), SchemaDef("yy", Bool), SecKeyed("ww", Dn("no_sec"), <<Dn("required")>>)}

(* calls on one element: all sequences of up to n of a reduced alphabet *)
Two(m, v, w) == {Do(m, S(v)), Do(m, S(w))}
HrCalls == {<<c>> : c \in Two("attype", "T1", "T2") \cup Two("title", "A", "B") \cup Two("description", "C", "D")}
           \cup {Ml("titles", <<"en">>), Ml("titles", <<"it", "en">>), Ml("descriptions", <<"en">>), Ml("descriptions", <<>>)}
FormCalls(op1, op2) ==
  {<<c>> : c \in Two("op", op1, op2) \cup Two("content_type", "a/b", "c/d") \cup Two("content_coding", "gzip", "br") \cup Two("subprotocol", "sse", "lp")
               \cup Two("security", "s1", "s2") \cup Two("scope", "r", "w")
               \cup {Do("response", A(<<S("x/y")>> \o [i \in 1..NExt |-> O(EmptyFn)])), Do("response_default_ext", A(<<S("z")>>))}}
  \cup {Aresp(<<>>), Aresp(<<Dn("success")>>), Aresp(<<Do("content_type", S("x")), Do("schema", S("d")), Dn("success")>>), Aresp(<<Do("schema", S("d"))>>)}
InterCalls == HrCalls \cup {FormB(<<>>), FormB(<<Do("content_type", S("f2"))>>), UriVar("u", Bool), UriVar("v", <<Dn("string")>>), UriVar("u", <<Dn("null")>>)}
ActCalls == InterCalls \cup {<<Dn("safe")>>, <<Dn("idempotent")>>, <<Do("synchronous", True)>>, <<Do("synchronous", False)>>}
            \cup {Blk(m, "", Kind(k)) : m \in {"input", "output"}, k \in {Bool, <<Dn("string")>>}}
EvCalls == InterCalls \cup {Blk(m, "", Kind(k)) : m \in {"subscription", "data", "data_response", "cancellation"}, k \in {Bool, <<Dn("null")>>}}
PropCalls == InterCalls \cup {<<Do("observable", True)>>, <<Do("observable", False)>>, <<Do("unit", S("m"))>>, <<Do("format", S("f"))>>,
                              <<Do("default_value", Z)>>, <<Do("default_value", N("1"))>>, <<Do("unit", S("s"))>>}
Ctx == {SecKeyed("s1", Dn("no_sec"), <<>>) \o SecKeyed("s2", Dn("basic"), <<>>) \o SchemaDef("d", Bool)}
Flat_(s) == FlattenSeq(s)

DataCalls == HrCalls \cup {<<Do("unit", S("m"))>>, <<Do("unit", S("s"))>>, <<Do("format", S("f"))>>, <<Do("default_value", Z)>>, <<Do("default_value", O("k" :> Z))>>}
KindCalls(k) ==
  CASE k \in {"bool", "null"} -> {<<Dn("read_only")>>, <<Dn("write_only")>>}
    [] k = "number" -> {<<Do(m, N(v))>> : m \in LimitMethods \ {"x"}, v \in {"1", "1.5"}} \cup {<<Do("multiple_of", N("0.5"))>>, <<Do("multiple_of", N("2"))>>, <<Dn("read_only")>>, <<Dn("write_only")>>}
    [] k = "integer" -> {<<Do(m, N(v))>> : m \in LimitMethods, v \in {"1", "-5"}} \cup {<<Do("multiple_of", N("5"))>>, <<Do("multiple_of", N("2"))>>, <<Dn("read_only")>>, <<Dn("write_only")>>}
    [] k = "string" -> {<<Do(m, N(v))>> : m \in {"min_length", "max_length"}, v \in {"1", "3"}}
                       \cup {<<Do(m, S(v))>> : m \in {"pattern", "content_encoding", "content_media_type"}, v \in {"", "x"}} \cup {<<Dn("read_only")>>, <<Dn("write_only")>>}
    [] k = "vec" -> {<<Do(m, N(v))>> : m \in {"min_items", "max_items"}, v \in {"0", "3"}} \cup {Blk("set_item", "", Kind(x)) : x \in {Bool, <<Dn("vec")>>}}
                    \cup {<<Dn("read_only")>>, <<Dn("write_only")>>}
    [] k = "tuple" -> {Blk("append", "", Kind(x)) : x \in {Bool, <<Dn("string")>>, <<Dn("tuple")>>}} \cup {<<Dn("read_only")>>, <<Dn("write_only")>>}
    [] k = "object" -> {BlkV("property", n, r, Kind(x)) : n \in {"m", "n"}, r \in {True, False}, x \in {Bool, <<Dn("null")>>}} \cup {<<Dn("read_only")>>, <<Dn("write_only")>>}
PlaceBodies == {<<Dn(k)>> : k \in {"bool", "null", "number", "integer", "string", "vec", "tuple", "object"}}
               \cup {<<Dn(k), Dn(m)>> : k \in {"bool", "object"}, m \in {"read_only", "write_only"}}
               \cup {<<Do(m, v)>> : m \in {"constant", "enumeration"}, v \in {Z, S("x"), O("type" :> S("null"))}}
               \cup {Bool \o c : c \in DataCalls}
PlainKinds == {"bool", "null", "number", "integer", "string", "vec", "tuple", "object"}
SchemaBodies(n) == UNION {{<<Dn(k)>> \o Flat_(s) : s \in Seqs(KindCalls(k), n)} : k \in PlainKinds}
                   \cup {pre \o post : pre \in {<<Do("constant", v)>> : v \in AnyVals} \cup {<<Do("enumeration", v)>> : v \in AnyVals}, post \in {<<>>} \cup DataCalls}
                   \cup {<<Do("enumeration", v), Do("enumeration", w)>> : v \in AnyVals, w \in AnyVals}
                   \cup {<<Do("enumeration", N("1"))>> \o Flat_(s) : s \in Seqs({<<Do("enumeration", N("2"))>>, <<Dn("read_only")>>, <<Dn("write_only")>>}, 3)}
                   \cup {Flat_(s) : s \in Seqs1({Blk("one_of", "", Kind(x)) : x \in {Bool, <<Dn("string")>>, <<Dn("null"), Dn("read_only")>>}}, 3)}
                   \cup {<<Dn(k)>> \o Flat_(s) : k \in PlainKinds, s \in Seqs1(DataCalls, 1)}
SchemaPre(nil_) == {pre \o <<Dn("finish_extend"), Dn("number")>> \o post : pre \in DataCalls, post \in DataCalls}

HrSecCalls == {<<c>> : c \in Two("attype", "T1", "T2") \cup Two("description", "A", "B") \cup Two("proxy", "/p", "/q") \cup Two("with_key", "k1", "k2") \cup {Dn("required")}}
              \cup {Ml("descriptions", <<"en">>), Ml("descriptions", <<"it">>)}
SchemeCalls(sc) ==
  {<<c>> : c \in CASE sc \in {"basic", "apikey"} -> Two("name", "n1", "n2") \cup {Do("location", S(l)) : l \in Locations}
                   [] sc = "digest" -> {Do("name", S("n"))} \cup {Do("location", S(l)) : l \in Locations} \cup {Do("qop", S(q)) : q \in Qops}
                   [] sc = "bearer" -> {Do("name", S("n"))} \cup {Do("location", S(l)) : l \in Locations} \cup Two("authorization", "/a", "/b")
                                       \cup Two("alg", "ES256", "x") \cup Two("format", "jwt", "y")
                   [] sc = "oauth2" -> Two("authorization", "/a", "/b") \cup Two("token", "/t", "/u") \cup Two("refresh", "/r", "/s") \cup Two("scope", "r", "w")
                   [] sc = "custom" -> {Do("data", O("k" :> N("1"))), Do("data", O(EmptyFn)), Do("data", O(("m" :> Z) @@ ("in" :> S("x"))))}
                   [] OTHER -> {}}
Selector(sc) == CASE sc = "oauth2" -> Do("oauth2", S("code")) [] sc = "custom" -> Do("custom", S("x:sec")) [] OTHER -> Dn(sc)
Schemes == {"no_sec", "auto", "basic", "digest", "bearer", "psk", "oauth2", "apikey", "custom"}
SecBodies(n) == UNION {{Blk("security", "", <<Selector(sc)>> \o Flat_(s)) : s \in Seqs(SchemeCalls(sc) \cup HrSecCalls, n)} : sc \in Schemes}
                \cup UNION {{Blk("security", "", a \o <<Selector(sc)>> \o b) : a \in HrSecCalls, b \in HrSecCalls \cup SchemeCalls(sc)} : sc \in Schemes}
ComboBodies(nil_) == {Blk("security", "", a \o <<Dn("combo")>> \o b \o <<Do(k, A(l))>> \o c) :
                  a \in {<<>>, <<Do("with_key", S("c"))>>}, b \in {<<>>, <<Do("name", S("c1"))>>, <<Do("description", S("x"))>>},
                  k \in {"one_of", "all_of"}, l \in {<<>>, <<S("basic")>>, <<S("basic"), S("nosec")>>, <<S("zz")>>},
                  c \in {<<>>, <<Do("push", S("nosec"))>>, <<Do("extend", A(<<S("nosec"), S("basic")>>))>>, <<Do("push", S("nosec")), Do("push", S("yy"))>>,
                         <<Do("name", S("c2")), Dn("required")>>}}

ThingCalls == {<<c>> : c \in Two("id", "urn:1", "urn:2") \cup Two("description", "A", "B") \cup Two("support", "/s", "/t") \cup Two("base", "/b", "/c")
                        \cup Two("attype", "T1", "T2") \cup Two("profile", "/p1", "/p2") \cup Two("link", "/l1", "/l2")
                        \cup {Do("context", S(c)) : c \in {TD11, TD10, "https://schema.org"}}
                        \cup {Do("version", v) : v \in {S("1"), O(("instance" :> S("2")) @@ ("model" :> S("m")))}}
                        \cup {Do(m, S(t)) : m \in {"created", "modified"}, t \in {"2022-11-25T18:00:00Z", "2022-05-01T09:00:00+05:30"}}}
              \cup {Blk("context_map", "", <<Dk("context", "ex", S("/ex"))>>), Blk("context_map", "", <<>>),
                    Blk("context_map", "", <<Dk("context", "ex", S("/1")), Dk("context", "ey", S("/2")), Dk("context", "ex", S("/3"))>>)}
              \cup {Ml("titles", <<"en">>), Ml("titles", <<"it", "en">>), Ml("descriptions", <<"en">>), Ml("descriptions", <<"it">>)}
              \cup {Sec(Dn("basic"), <<Dn("required")>>), Sec(Dn("no_sec"), <<Dn("required")>>), Sec(Dn("psk"), <<>>), Blk("link_with", "", <<Do("href", S("/x")), Do("rel", S("r"))>>)}

(* every extension value of the j-th extension at its place *)
ExtCase(j) ==
  LET V(pl) == ExtVals(Fam[j], pl)
      one(m, v) == [i \in 1..NExt |-> Do(m, IF i = j THEN v ELSE O(EmptyFn))]
      list(v) == A([i \in 1..NExt |-> IF i = j THEN v ELSE O(EmptyFn)])
      formX(v) == Blk("form", "", <<Do("href", S("/h"))>> \o one("ext", v))
      data(v) == one("ext", v) \o <<Dn("finish_extend"), Dn("bool")>>
  IN UNION {{Prop("p", formX(v)), Act("a", formX(v)), Ev("e", formX(v)), Blk("form", "", one("ext_with", v) \o <<Do("href", S("/t"))>> \o ThingOp)} : v \in V("form")}
     \cup {Blk("property", "p", Rep("ext_data_schema") \o one("ext", v) \o Rep("ext_interaction") \o <<Dn("finish_extend"), Dn("null")>>) : v \in V("prop")}
     \cup {Blk("property", "p", one("ext_interaction_with", v) \o Rep("ext_data_schema") \o Rep("ext_with") \o <<Dn("finish_extend"), Dn("null")>>) : v \in V("int")}
     \cup {Blk("property", "p", one("ext_data_schema_with", v) \o Rep("ext_interaction") \o Rep("ext_with") \o <<Dn("finish_extend"), Dn("object")>>) : v \in V("ds")}
     \cup {Act("a", <<>>)} \cup {Blk("action", "a", one("ext", v) \o Rep("ext_interaction")) : v \in V("act")} \cup {Blk("action", "a", Rep("ext_with") \o one("ext_interaction", v)) : v \in V("int")}
     \cup {Blk("event", "e", one("ext_with", v) \o Rep("ext_interaction_with")) : v \in V("ev")} \cup {Blk("event", "e", one("ext_interaction", v) \o Rep("ext")) : v \in V("int")}
     \cup UNION {{Act("a", Blk("input", "", data(v))), Ev("e", Blk("data", "", data(v))), Blk("uri_variable", "u", data(v)), Blk("schema_definition", "d", data(v)),
                  InHolder("output", "o", <<Dn("vec")>> \o Blk("set_item", "", data(v))), InHolder("prop", "o", <<Dn("object")>> \o BlkV("property", "m", True, data(v))),
                  InHolder("data", "o", Blk("one_of", "", data(v)))} : v \in V("ds")}
     \cup {InHolder(h, "p", <<Do(m, list(v))>>) : h \in {"prop", "input", "definition", "cancellation"}, m \in {"vec_ext", "tuple_ext"}, v \in V("arr")}
     \cup {InHolder(h, "p", <<Do("object_ext", list(v))>>) : h \in {"prop", "output", "definition", "subscription"}, v \in V("obj")}
     \cup {Prop("p", FormB(<<Do("response", A(<<S("c"), v>>))>>)) : v \in IF NExt = 1 THEN V("resp") ELSE {}}
     \cup {Act("p", FormB(<<Do("response", A(<<S("c")>> \o list(v)[2]))>>)) : v \in V("resp")}
     \cup {Ev("p", FormB(<<Do("response_default_ext", A(<<S("c")>>))>>))}

(* a rule broken (or just not broken) in an element that has other members too: every other call before and after it *)
Around(bodies, ctx) == {c \o b : c \in ctx, b \in bodies} \cup {b \o c : c \in ctx, b \in bodies}
FormOps(pl) == CASE pl = "thing" -> <<"readallproperties", "subscribeallevents">> [] pl = "prop" -> <<"readproperty", "writeproperty">>
                 [] pl = "action" -> <<"invokeaction", "cancelaction">> [] pl = "event" -> <<"subscribeevent", "unsubscribeevent">>
FormCtx(pl) == {c \in FormCalls(FormOps(pl)[1], FormOps(pl)[2]) : c[1][2] # "security" \/ c[1][4] = S("s1")}
Neighbours(pl, n, body) ==   \* the form behind others, and in an element with other members
  CASE pl = "thing" -> {FormB(ThingOp) \o FormB(ThingOp \o body), FormB(ThingOp \o body) \o FormB(ThingOp), FormB(ThingOp) \o FormB(ThingOp) \o FormB(ThingOp \o body)}
    [] pl = "prop" -> {Prop(n, FormB(<<>>) \o FormB(body)), Prop(n, FormB(body) \o FormB(<<>>)), Prop("o", FormB(<<>>)) \o Prop(n, FormB(body))}
                      \cup {Prop(n, x) : x \in Around({FormB(body)}, PropCalls)} \cup {PropPre(n, c \o FormB(body)) : c \in HrCalls} \cup {PropK(n, k, FormB(body)) : k \in AllKinds}
    [] pl = "action" -> {Act(n, FormB(<<>>) \o FormB(body)), Act(n, FormB(body) \o FormB(<<>>)), Act("o", FormB(<<>>)) \o Act(n, FormB(body))} \cup {Act(n, x) : x \in Around({FormB(body)}, ActCalls)}
    [] pl = "event" -> {Ev(n, FormB(<<>>) \o FormB(body)), Ev(n, FormB(body) \o FormB(<<>>)), Ev("o", FormB(<<>>)) \o Ev(n, FormB(body))} \cup {Ev(n, x) : x \in Around({FormB(body)}, EvCalls)}
FormCase(pl, bad) == {c \o x : c \in Ctx, x \in {FormIn(pl, "n", y) : y \in Around({bad}, FormCtx(pl))} \cup Neighbours(pl, "n", bad)}
SecCtx(bads) == UNION {FormCase(pl, Calls("security", b)) : pl \in FormPlaces, b \in bads}
(* names that are almost the same *)
Near == {"s1", "S1", "s1 ", " s1", "s", "s11", "", "s2"}
NearSecs(nil_) == {SecKeyed(n, Dn("no_sec"), <<>>) \o FormIn(pl, "n", Calls("security", <<m>>)) : n \in Near, m \in Near, pl \in FormPlaces}
            \cup {SecKeyed(n, Dn("psk"), <<>>) \o SecKeyed("c", Dn("combo"), <<Do(k, A(<<S(n), S(m)>>))>>) : n \in Near, m \in Near, k \in {"one_of", "all_of"}}
            \cup {SecKeyed("c", Dn("combo"), <<Do("all_of", A(<<S(m)>>))>>) \o SecKeyed(n, Dn("auto"), <<>>) \o SecKeyed("d", Dn("combo"), <<Do("one_of", A(<<S(n), S("c")>>))>>) : n \in Near, m \in Near}
            \cup UNION {{Sec(Selector(sc), <<>>) \o FormIn(pl, "n", Calls("security", <<m>>)) : pl \in FormPlaces, m \in {"nosec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey", "custom", "x:sec"}} : sc \in Schemes}
NearSchemas(nil_) == {SchemaDef(n, Bool) \o FormIn(pl, "n", Aresp(<<Do("schema", S(m))>>)) : n \in Near, m \in Near, pl \in FormPlaces}
               \cup {SchemaDef("o", Bool) \o FormIn(pl, "n", x \o Aresp(<<Do("schema", S("o"))>>) \o y) : pl \in FormPlaces,
                       x \in {<<>>, Aresp(<<Do("schema", S("z"))>>)}, y \in {<<>>, Aresp(<<>>), Aresp(<<Dn("success"), Do("schema", S("z"))>>), Aresp(<<Do("schema", S("O")), Do("content_type", S("c"))>>)}}
NearNames(nil_) == UNION {{Prop(n, <<>>) \o Prop(m, <<>>), Act(n, <<>>) \o Act(m, <<>>), Ev(n, <<>>) \o Ev(m, <<>>), Prop(n, <<>>) \o Act(m, <<>>) \o Ev(n, <<>>),
                         SecKeyed(n, Dn("no_sec"), <<>>) \o SecKeyed(m, Dn("no_sec"), <<Dn("required")>>), SecKeyed(n, Dn("basic"), <<Dn("required")>>) \o SecKeyed(m, Dn("basic"), <<Do("name", S("x"))>>),
                         SecKeyed(n, Dn("auto"), <<>>) \o SecKeyed("o", Dn("auto"), <<>>) \o SecKeyed(m, Dn("digest"), <<>>)} : n \in Near, m \in Near}
             \cup {Prop("p", x) \o Prop("p", y) : x \in {<<>>} \cup PropCalls, y \in {<<>>, <<Do("unit", S("m"))>>}} \cup {Act("p", x) \o Act("o", <<>>) \o Act("p", x) : x \in ActCalls}
             \cup {Ev("p", x) \o Ev("p", x) : x \in EvCalls} \cup {Sec(Selector(sc), <<>>) \o Sec(Selector(sd), <<>>) : sc \in Schemes, sd \in Schemes}
             \cup {SecKeyed("k", Selector(sc), x) \o SecKeyed("k", Selector(sc), x) : sc \in Schemes, x \in HrSecCalls}
OpsCtx(nil_) == UNION {FormCase(pl, Calls("op", <<o>>)) : pl \in FormPlaces, o \in {"readproperty", "queryaction", "unsubscribeallevents"}}
          \cup {c \o FormB(x) : c \in Ctx, x \in {y \in FormCtx("thing") : y[1][2] # "op"} \cup {y \o z : y \in FormCtx("thing"), z \in FormCtx("thing")}}
SchemaCtx(nil_) == UNION {FormCase(pl, Aresp(b)) : pl \in FormPlaces, b \in {<<Do("schema", S("z"))>>, <<Dn("success"), Do("schema", S("d"))>>, <<Do("schema", S("z")), Do("content_type", S("c")), Dn("success")>>}}
LimitCtx(nil_) == UNION {{InHolder(h, "n", <<k[1]>> \o x) : x \in Around({Tail(k)}, KindCalls(k[1][2]) \cup DataCalls \cup {<<Dn("read_only")>>, <<Dn("write_only")>>})} : h \in {"input", "definition"}, k \in LimitRepr}
LinkCtx(nil_) == {Blk("link_with", "", x) : x \in Around({b \in LinkBodies : Len(b) <= 3}, {<<Do("ty", S("image/png"))>>, <<Do("anchor", S("#"))>>, <<Do("hreflang", S("en"))>>, <<Do("rel", S("icon"))>>, <<Do("rel", S("shortcut icon"))>>, <<Do("rel", S("ICON"))>>,
                                                                                   <<Do("rel", S("icon "))>>, <<Do("rel", S("apple-touch-icon"))>>, <<Do("sizes", S("any"))>>, <<Do("ty", S("icon"))>>})}
UriCtx(nil_) == {InHolder(h, "n", x) : h \in {"prop-uri", "action-uri", "event-uri", "thing-uri"},
             x \in UNION {Around({<<Dn(k)>>}, DataCalls \cap {y \in DataCalls : TRUE}) : k \in {"bool", "string", "object", "vec", "tuple"}}
                  \cup UNION {{<<Dn(k)>> \o c : c \in KindCalls(k)} : k \in {"object", "vec", "tuple", "string", "number"}}}
          \cup UNION {{Prop("n", x), Act("n", x), Ev("n", x)} : x \in UNION {Around({UriVar("w", <<Dn(k)>>)}, InterCalls) : k \in {"object", "vec", "string"}}}
TagCtx(nil_) == UNION {{Prop("n", x), Act("n", x), Ev("n", x), Sec(Dn("basic"), Ml("descriptions", <<t>>))} \cup {InHolder("output", "n", Bool \o y) : y \in Around({Ml(m, <<t>>)}, DataCalls)}
             : m \in {"titles", "descriptions"}, t \in {"en_US", "it"}, x \in UNION {Around({Ml(mm, <<"e n">>)}, InterCalls) : mm \in {"titles", "descriptions"}}}
          \cup {Sec(Dn("digest"), x) : x \in Around({Ml("descriptions", <<"en_US">>)}, HrSecCalls)}
          \cup {Ml("titles", l) : l \in {<<"en", "EN">>, <<"En", "EN">>, <<"en", "xx_">>, <<"it", "en", "x_x">>}}
          \cup {Ml(m, <<"en">>) \o Ml(m2, <<t>>) : m \in {"titles", "descriptions"}, m2 \in {"titles", "descriptions"}, t \in {"en_US", "it"}}
          \cup {Ml(m, <<"en_US">>) \o Ml(m2, <<t>>) : m \in {"titles", "descriptions"}, m2 \in {"titles", "descriptions"}, t \in {"en_US", "it"}}

Limits1(nil_) == {InHolder("prop", "n", k) : k \in {x \in LimitKinds(0) : ~IsStr(x)}} \cup {InHolder("input", "n", k) : k \in {x \in LimitKinds(0) : IsStr(x)}}
LimitsIn(nil_) == {InHolder(h, "n", Wrap(w, k)) : h \in Holders, w \in Wraps, k \in LimitRepr}
LimitsIn2(nil_) == {InHolder(h, "n", Wrap(w, Wrap(w2, k))) : h \in Holders \ {"cancellation", "subscription"}, w \in Wraps, w2 \in Wraps,
              k \in {NumK("number", <<Do("exclusive_minimum", N("1")), Do("maximum", N("1"))>>), NumK("integer", <<Do("minimum", N("2")), Do("maximum", N("1"))>>)}}

Alphabet(name) ==
  CASE name = "secrefs" -> {SecKeyed(k, Dn("basic"), r) : k \in {"a", "b"}, r \in {<<>>, <<Dn("required")>>}}
                           \cup {SecKeyed("c", Dn("combo"), <<Do(m, A(l))>> \o p) : m \in {"one_of", "all_of"}, l \in {<<>>, <<S("a")>>, <<S("z")>>, <<S("a"), S("b")>>, <<S("b"), S("z")>>},
                                                                             p \in {<<>>, <<Do("push", S("b"))>>, <<Do("push", S("z"))>>}}
                           \cup {FormIn(pl, "n", Calls("security", l)) : pl \in FormPlaces, l \in Seqs({"a", "b", "z"}, 2)}
                           \cup {FormIn(pl, "n", Calls("security", <<"a", "b", "z">>)) : pl \in FormPlaces}
                           \cup {Prop("n", FormB(Calls("security", <<"a">>)) \o FormB(Calls("security", <<"b">>))), Act("n", FormB(<<>>) \o FormB(Calls("security", <<"z">>))),
                                 Ev("n", FormB(<<>>) \o FormB(Calls("security", <<"b">>)))}
    [] name = "secrefs3" -> {SecKeyed(k, Dn("psk"), <<>>) : k \in {"a", "b"}} \cup {SecKeyed("c", Dn("combo"), <<Do("all_of", A(l))>>) : l \in {<<S("a"), S("b")>>, <<S("z")>>}}
                            \cup {FormIn(pl, "n", Calls("security", l)) : pl \in FormPlaces, l \in {<<"a">>, <<"b">>, <<"a", "b">>, <<"c">>}}
    [] name = "ops" -> {FormRaw(pl, "n", Calls("op", l)) : pl \in FormPlaces, l \in Seqs(Ops, 2)}
    [] name = "ops2" -> {FormRaw(pl, pl, Calls("op", l)) : pl \in FormPlaces, l \in Seqs({"readproperty", "cancelaction", "unsubscribeevent", "queryallactions"}, 1)}
                        \cup {Prop("n", FormB(Calls("op", <<"writeproperty">>)) \o FormB(Calls("op", l))) : l \in Seqs({"readproperty", "queryaction"}, 2)}
                        \cup {Act("n", FormB(<<>>) \o FormB(Calls("op", l))) : l \in Seqs({"queryaction", "observeproperty"}, 2)}
                        \cup {Ev("n", FormB(<<>>) \o FormB(Calls("op", l))) : l \in Seqs({"subscribeevent", "subscribeallevents"}, 2)}
    [] name = "schemarefs" -> {SchemaDef(n, k) : n \in {"d", "e"}, k \in {Bool, <<Dn("vec")>>}}
                              \cup {FormIn(pl, "n", Flat_([i \in DOMAIN l |-> Aresp(<<Do("schema", S(l[i]))>>)])) : pl \in FormPlaces, l \in Seqs({"d", "e", "z"}, 2)}
                              \cup {FormIn(pl, "n", Aresp(<<>>) \o Aresp(<<Do("schema", S("d")), Do("schema", S("e"))>>) \o Aresp(<<Do("schema", S("z"))>>)) : pl \in FormPlaces}
                              \cup {Prop("m", FormB(Aresp(<<Do("schema", S("d"))>>)) \o FormB(Aresp(<<Do("schema", S("e"))>>)))}
    [] name = "names" -> {SecKeyed(k, Dn("no_sec"), <<>>) : k \in {"a", "basic"}} \cup {Sec(Dn("no_sec"), <<>>), Sec(Dn("basic"), <<>>), Sec(Dn("combo"), <<Do("one_of", A(<<>>)), Do("name", S("a"))>>)}
                         \cup {Prop(n, <<>>) : n \in {"p", "q"}} \cup {Act(n, <<>>) : n \in {"p", "q"}} \cup {Ev(n, <<>>) : n \in {"p", "q"}}
    [] name = "limits" -> Limits1(0)
    [] name = "limitplaces" -> LimitsIn(0)
    [] name = "limitplaces2" -> LimitsIn2(0)
    [] name = "urivars" -> {b \in {InHolder(h, "n", k) : h \in {"prop-uri", "action-uri", "event-uri", "thing-uri"}, k \in AllKinds} : TRUE}
                           \cup {Prop("r", UriVar("u", <<Dn("object")>>) \o UriVar("u", Bool)), Act("r", UriVar("u", Bool) \o UriVar("u", <<Dn("vec")>>)), Ev("r", UriVar("u", Bool) \o UriVar("w", <<Dn("tuple")>>))}
    [] name = "tags" -> UNION {TagPlaces(<<t>>) : t \in {"En", "zh-Hant-TW", "en_US", ""}}
    [] name = "tagpool" -> {Ml("titles", <<t>>) : t \in GoodTags \cup BadTags} \cup {Ml("descriptions", p) : p \in Pairs(GoodTags)}
                           \cup {Blk("link_with", "", <<Do("href", S("/l"))>> \o [i \in DOMAIN p |-> Do("hreflang", S(p[i]))]) : p \in Pairs(GoodTags \cup {"en_US", ""})}
                           \cup {InHolder("data", "n", Wrap("object", Bool \o Ml("titles", <<t>>))) : t \in GoodTags \cup BadTags}
                           \cup {Sec(Dn("psk"), Ml("descriptions", <<t>>)) : t \in GoodTags \cup BadTags}
    [] name = "links" -> {Blk("link_with", "", b) : b \in LinkBodies} \cup {<<Do("link", S("/p"))>>}
    [] name = "faults" -> Faults(0) \cup Repair
    [] name = "thing" -> ThingCalls
    [] name = "prop" -> {PropPre("p", Flat_(s)) : s \in Seqs(PropCalls \ {x \in PropCalls : x[1][2] \in {"zzz"}}, 2)} \cup {Prop("p", Flat_(s)) : s \in Seqs(PropCalls, 2)}
    [] name = "action" -> {Act("a", Flat_(s)) : s \in Seqs(ActCalls, 2)}
    [] name = "event" -> {Ev("e", Flat_(s)) : s \in Seqs(EvCalls, 2)}
    [] name = "form" -> {Prop("p", FormB(Flat_(s))) : s \in Seqs(FormCalls("readproperty", "writeproperty"), 2)}
                        \cup {FormB(<<Do("op", S("queryallactions"))>> \o Flat_(s)) : s \in Seqs(FormCalls("readallproperties", "subscribeallevents"), 2)}
                        \cup {Act("p", FormB(Flat_(s))) : s \in Seqs(FormCalls("invokeaction", "cancelaction"), 1)}
                        \cup {Ev("p", FormB(Flat_(s))) : s \in Seqs(FormCalls("subscribeevent", "unsubscribeevent"), 1)}
    [] name = "schema" -> {InHolder("input", "n", b) : b \in SchemaBodies(2)} \cup {InHolder("prop", "n", b) : b \in {x \in SchemaBodies(2) : ~IsStr(x) \/ Len(x) = 1 \/ x[2][2] \in {"read_only", "write_only"}}}
                          \cup {Act("n", Blk("output", "", Rep("ext") \o b)) : b \in SchemaPre(0)}
    [] name = "schemaplaces" -> {InHolder(h, "n", Wrap(w, b)) : h \in Holders, w \in Wraps, b \in PlaceBodies}
    [] name = "schemaplaces0" -> {InHolder(h, "n", Wrap(w, b)) : h \in Holders, w \in Wraps, b \in SchemaBodies(0)}
    [] name = "schema3" -> {InHolder("definition", "n", <<Dn(k)>> \o Flat_(s)) : k \in {"x"}, s \in {}} \cup UNION {{InHolder("definition", "n", <<Dn(k)>> \o Flat_(s)) : s \in Seqs(KindCalls(k), 3)} : k \in PlainKinds \ {"number", "integer", "string"}}
                           \cup UNION {{InHolder("definition", "n", <<Dn(k)>> \o Flat_(s)) : s \in Seqs({x \in KindCalls(k) : x[1][4] # N("1.5") /\ x[1][4] # N("-5") /\ x[1][4] # S("")}, 3)} : k \in {"number", "integer", "string"}}
    [] name = "schemes" -> SecBodies(2)
    [] name = "combos" -> ComboBodies(0)
    [] name = "schemes2" -> {Blk("security", "", a \o <<Selector(sc)>> \o b) : a \in {<<>>, <<Do("with_key", S("k"))>>}, b \in {<<>>, <<Dn("required")>>}, sc \in Schemes}
    [] name = "exts" -> UNION {ExtCase(j) : j \in 1..NExt}
    [] name = "secctx" -> SecCtx({<<"z">>, <<"s1", "s2">>, <<"s1", "z">>, <<"z", "s1">>})
    [] name = "nearsecs" -> NearSecs(0)
    [] name = "nearschemas" -> NearSchemas(0)
    [] name = "nearnames" -> NearNames(0)
    [] name = "opsctx" -> OpsCtx(0)
    [] name = "schemactx" -> SchemaCtx(0)
    [] name = "limitctx" -> LimitCtx(0) \cup {InHolder(h, "n", Wrap(w, k)) : h \in Holders, w \in Wraps2, k \in LimitRepr}
    [] name = "linkctx" -> LinkCtx(0)
    [] name = "urictx" -> UriCtx(0)
    [] name = "tagctx" -> TagCtx(0) \cup {InHolder(h, "n", Wrap(w, Bool \o Ml(m, <<t>>))) : h \in Holders, w \in Wraps2, m \in {"titles", "descriptions"}, t \in {"en_US", "en"}}
    [] name = "none" -> {}
=============================================================================
