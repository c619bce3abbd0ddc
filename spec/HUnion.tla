------------------------------- MODULE HUnion -------------------------------
(* A list written as the union of the members of its elements.  Element i has a required number "n<i>", an optional text "t<i>"
   and a list "l<i>" that is left out when empty.  Lists of up to MAXLEN elements, either flat or with the elements after the first in a
   nested list.  Reading: every proper document, and every document with one member changed. *)
EXTENDS Sequences, Integers, SequencesExt, FiniteSets, Json, CSV, IOUtils, TLC

MaxLen == atoi(IOEnv.MAXLEN)
Texts == {"", "x"}
Elements == [n : {0, 7}, t : {<<>>} \cup {<<x>> : x \in Texts}, l : {<<>>, <<1, 2>>}]
Lists == UNION {[1..k -> Elements] : k \in 0..MaxLen}
Name(c, i) == c \o ToString(i)
(* documents: sets of <<name, kind, value>>; kinds "n", "t", "l", and for improper members "bad" *)
Members(i, e) == {<<Name("n", i), "n", e.n>>}
                 \cup (IF e.t = <<>> THEN {} ELSE {<<Name("t", i), "t", e.t[1]>>})
                 \cup (IF e.l = <<>> THEN {} ELSE {<<Name("l", i), "l", e.l>>})
Union(list) == UNION {Members(i, list[i]) : i \in DOMAIN list}
NamesOf(doc) == {m[1] : m \in doc}
Wholes == {"null", "true", "7", "\"\"", "\"x\""}      \* documents that are no objects
Get(doc, name) == CHOOSE m \in doc : m[1] = name

(* reading a list of k elements *)
Readable(doc, k) == /\ \A m \in doc : m[2] # "whole"
                    /\ \A i \in 1..k : Name("n", i) \in NamesOf(doc)
                    /\ \A m \in doc : m[2] # "bad" \/ \A i \in 1..k : m[1] \notin {Name("n", i), Name("t", i), Name("l", i)}
Element(doc, i) == [n |-> Get(doc, Name("n", i))[3],
                    t |-> IF Name("t", i) \in NamesOf(doc) THEN <<Get(doc, Name("t", i))[3]>> ELSE <<>>,
                    l |-> IF Name("l", i) \in NamesOf(doc) THEN Get(doc, Name("l", i))[3] ELSE <<>>]
Read(doc, k) == [i \in 1..k |-> Element(doc, i)]

VARIABLES list, doc, nested, done
vars == <<list, doc, nested, done>>
Init == list \in Lists /\ nested \in {FALSE, TRUE} /\ doc = Union(list) /\ done = "no"
Edit == \/ \E m \in doc : doc' = doc \ {m}
        \/ \E m \in doc : doc' = (doc \ {m}) \cup {<<m[1], "bad", 0>>}
        \/ doc' = doc \cup {<<"foreign", "t", "x">>}
        \/ doc' = doc \cup {<<Name("n", Len(list) + 1), "bad", 0>>}
        \/ \E w \in Wholes : doc' = {<<"", "whole", w>>}
Next == \/ done = "no" /\ Edit /\ done' = "edited" /\ UNCHANGED <<list, nested>>
        \/ done \in {"no", "edited"} /\ done' = "emitted" /\ UNCHANGED <<list, doc, nested>>
           /\ CSVWrite("%1$s", <<ToJson([t |-> "hunion", nested |-> nested, list |-> list, written |-> done = "no", doc |-> SetToSeq(doc),
                                         read |-> IF Readable(doc, Len(list)) THEN <<Read(doc, Len(list))>> ELSE <<>>])>>, IOEnv.OUT)

RoundTrip == done = "no" => Readable(doc, Len(list)) /\ Read(doc, Len(list)) = list
Disjoint == \A i, j \in DOMAIN list : i # j => NamesOf(Members(i, list[i])) \cap NamesOf(Members(j, list[j])) = {}
ReadWritten == Readable(doc, Len(list)) => Union(Read(doc, Len(list))) \subseteq doc
Invariant == RoundTrip /\ Disjoint /\ ReadWritten
=============================================================================
