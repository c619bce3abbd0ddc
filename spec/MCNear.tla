------------------------------ MODULE MCNear ------------------------------
(* C21, C22: the whole neighbourhood of full elements.  For every call of a history: the history without it, with every other
   value that call may have, and with that call exchanged with the one before it or
   moved ahead of calls that it is independent of.  A record holds a history and the
   alternatives that one of its calls gives; the harness compares every alternative with the history. *)
EXTENDS More, Json, CSV, IOUtils

FamSeq == CASE IOEnv.FAM = "" -> <<>> [] IOEnv.FAM = "a,b" -> <<"a", "b">> [] OTHER -> <<IOEnv.FAM>>
NoMenu(st) == {}
(* this process does the calls whose number is SHARD modulo SHARDS *)
Shards == atoi(IOEnv.SHARDS)
Shard == atoi(IOEnv.SHARD)

T0 == <<<<"(", "thing", "", S("T")>>>>
Usual(b) == T0 \o Prefix \o b
MarkOf(k) == IF k \in {"bool", "vec", "integer"} THEN <<Dn("read_only")>> ELSE IF k \in {"null", "object"} THEN <<>> ELSE <<Dn("write_only")>>
FullOf(k) == <<Dn(k)>> \o Flat_(OwnAll(k)) \o Flat_(DataAll) \o MarkOf(k)
HolderOf == [k \in PlainKinds |-> CASE k = "bool" -> "prop" [] k = "number" -> "input" [] k = "integer" -> "prop" [] k = "string" -> "data" [] k = "null" -> "output"
                                    [] k = "tuple" -> "prop" [] k = "vec" -> "definition" [] k = "object" -> "prop" [] OTHER -> "cancellation"]
SmallInt == <<Dn("integer"), Do("minimum", N("0")), Do("unit", S("m"))>>
RichOf(pl) == A([i \in 1..NExt |-> Rich(Fam[i], pl)])
ExtKs == {<<Do("vec_ext", RichOf("arr")), Do("min_items", N("1"))>>, <<Do("tuple_ext", RichOf("arr")), Do("unit", S("m"))>>, <<Do("object_ext", RichOf("obj"))>> \o BlkV("property", "m", True, Kind(Bool)),
          <<Do("constant", N("1"))>>, <<Dn("bool")>>}
ExtKind(k) == RepV("ext", "ds") \o <<Dn("finish_extend")>> \o k
SchemaDef0(n, body) == Blk("schema_definition", n, body)
Bases(name) ==
  CASE name = "thing" -> {Usual(Flat_(ThingAll \o ThingExtra))}
    [] name = "forms" -> {Usual(CtxOne \o FormIn(pl, "n", Flat_(FormAll(pl)))) : pl \in FormPlaces}
    [] name = "affs" -> {Usual(Prop("p", Flat_(PropAll))), Usual(Act("a", Flat_(ActAll))), Usual(Ev("e", Flat_(EvAll)))}
    [] name = "schemas" -> {Usual(InHolder(HolderOf[k], "n", FullOf(k))) : k \in PlainKinds}
                           \cup {Usual(InHolder(h, "n", hd \o Flat_(DataAll))) : h \in {"prop", "subscription"}, hd \in {x \in Heads : x[1][2] \notin PlainKinds}}
                           \cup {Usual(InHolder("prop", "n", <<Do("constant", A(<<O("k" :> Z), N("1")>>))>>))}
    [] name = "holders" -> {Usual(InHolder(h, "n", SmallInt)) : h \in Holders}
    [] name = "nests" -> {Usual(InHolder(h, "n", Wrap(w, SmallInt))) : h \in {"prop", "input"}, w \in Wraps}
    [] name = "schemes" -> {Usual(Blk("security", "", <<Selector(sc)>> \o Flat_(SecAll(sc)))) : sc \in Schemes}
                           \cup {Usual(Sec(Dn("no_sec"), <<>>) \o Sec(Dn("basic"), <<>>) \o Blk("security", "", <<Dn("combo"), Do(k, A(<<S("basic")>>))>> \o Flat_(ComboAll))) : k \in {"one_of", "all_of"}}
    [] name = "links" -> {Usual(LinkW(Flat_(Tail(LinkAll)))), Usual(<<Do("link", S("/l"))>> \o LinkW(<<Do("rel", S("item"))>>))}
    [] name = "extthing" -> {T0 \o Pick(ThingAll, 1..4) \o RepV("ext", "thing") \o <<Dn("finish_extend")>> \o Pick(ThingAll, 5..7)}
    [] name = "extaffs" -> {Usual(Act("a", Flat_(ActExt("")) \o Pick(ActAll, {1, 6}))), Usual(Ev("e", Flat_(EvExt("")) \o Pick(EvAll, {1, 6}))),
                            Usual(Blk("property", "p", Flat_(PropExt("")) \o <<Dn("finish_extend"), Dn("bool"), Do("unit", S("m"))>>))}
    [] name = "extforms" -> {Usual(CtxOne \o InPlace(pl, NeedOp(pl) \o Href \o Flat_(FormExt("")) \o Pick(FormAll(pl), {2, 7}))) : pl \in FormPlaces}
    [] name = "extschemas" -> {Usual(x) : x \in UNION {{Act("a", Blk("input", "", ExtKind(k))), SchemaDef0("d", ExtKind(k)), Ev("e", Blk("data", "", ExtKind(k)))} : k \in ExtKs}}
                              \cup {Usual(Blk("property", "p", Flat_(PropExt("")) \o <<Dn("finish_extend")>> \o k)) : k \in ExtKs}

(* the histories are numbered, so that a state is small *)
TheBases == SetToSeq(Bases(IOEnv.BASES))
VARIABLE at     \* <<history, call>>
nvars == <<stack, hist, result, at>>
H == TheBases[at[1]]

Apart(st, b1, b2) == LET t1 == Touches(Top_(st), b1)  t2 == Touches(Top_(st), b2) IN t1 \cap t2 = {} /\ "*" \notin t1 \cup t2
(* the extensions of an element come in the order of the family, each once *)
IsExt(c) == c[2] \in {"ext", "ext_with", "ext_interaction", "ext_interaction_with", "ext_data_schema", "ext_data_schema_with"}
(* the call at i exchanged with the one before it: another order of independent calls, or another history *)
Swapped(h, o, i) ==
  IF i \notin SwapStarts(h) \/ (IsExt(h[i]) /\ IsExt(h[i - 1])) THEN <<>>
  ELSE LET x == Swap(h, i)
           b == BeginOf(h, i - 1, 0)
           st == Run(SubSeq(h, 1, b - 1))
       IN IF ~Legal(x) THEN <<>>
          ELSE IF Apart(st, SubSeq(h, b, i - 1), SubSeq(h, i, EndOf(h, i, 0)))
               THEN IF Assert(SameOutcome(o, RunOut(x)), <<"swapping independent calls changes the outcome", h, x>>) THEN <<Alt(x, "perm")>> ELSE <<>>
               ELSE <<Alt(x, "diff")>>
Lacking(h, i) == IF ~IsExt(h[i]) /\ Legal(Drop(h, i)) THEN <<Alt(Drop(h, i), "diff")>> ELSE <<>>
(* the call twice *)
Doubled(h, i) == LET e == EndOf(h, i, 0)  x == SubSeq(h, 1, e) \o SubSeq(h, i, Len(h)) IN IF ~IsExt(h[i]) /\ Legal(x) THEN <<Alt(x, "diff")>> ELSE <<>>
Changed(h, i) == LET st == Run(SubSeq(h, 1, i - 1))  c == h[i]
                    xs == {y \in {[h EXCEPT ![i] = <<c[1], c[2], a[1], a[2]>>] : a \in ArgsOf(st, Top_(st), c[2], FALSE)} : y # h /\ Legal(y)}
                    sq == SetToSeq(xs)
                IN [j \in DOMAIN sq |-> Alt(sq[j], "diff")]
(* the call at i, moved ahead of all the calls from b on that it is independent of *)
RECURSIVE Ahead(_, _, _, _)
Ahead(h, o, i, b) ==
  IF b <= 2 \/ h[b - 1][1] = "(" THEN <<>>
  ELSE LET p == BeginOf(h, b - 1, 0)
           x == SubSeq(h, 1, p - 1) \o SubSeq(h, i, EndOf(h, i, 0)) \o SubSeq(h, p, i - 1) \o SubSeq(h, EndOf(h, i, 0) + 1, Len(h))
       IN IF ~Legal(x) \/ ~Apart(Run(SubSeq(h, 1, p - 1)), SubSeq(h, p, b - 1), SubSeq(h, i, EndOf(h, i, 0))) THEN <<>>
          ELSE (IF b = i THEN <<>>      \* that is Swapped
                ELSE IF Assert(SameOutcome(o, RunOut(x)), <<"moving an independent call changes the outcome", h, x>>) THEN <<Alt(x, "perm")>> ELSE <<>>)
               \o Ahead(h, o, i, p)
Vicinity(h, o, i) == Lacking(h, i) \o Doubled(h, i) \o Swapped(h, o, i) \o (IF IsExt(h[i]) THEN <<>> ELSE Ahead(h, o, i, i)) \o Changed(h, i)

NearInit == /\ \E b \in DOMAIN TheBases : \E i \in {x \in Starts(TheBases[b]) : (x % Shards) = Shard} : at = <<b, i>>
            /\ hist = H /\ stack = Run(H) /\ result = <<"open">>
Rec == [t |-> "build", fam |-> IOEnv.FAM, prog |-> H, out |-> IF result'[1] = "ok" THEN result' ELSE <<"err">>,
        causes |-> IF result'[1] = "ok" THEN {} ELSE Causes(TheThing), tags |-> TagsOf(TheThing), alt |-> Vicinity(H, result', at[2])]
Emit == CSVWrite("%1$s", <<ToJson(Rec)>>, IOEnv.OUT)
NearNext == Build /\ Emit /\ UNCHANGED at
=============================================================================
