------------------------------- MODULE JVal -------------------------------
(* JSON values as tagged tuples, so that TLC never compares values of different types:
     <<"s", text>> <<"n", number token>> <<"b", "true"|"false">> <<"z", "">> (null)
     <<"a", sequence>> <<"o", function from names>>
   and two values outside JSON: Bad (not readable) and Nothing (not there). *)
EXTENDS Sequences, Integers, TLC

S(x) == <<"s", x>>
N(x) == <<"n", x>>
B(x) == <<"b", x>>
True  == <<"b", "true">>
False == <<"b", "false">>
Z == <<"z", "">>
A(x) == <<"a", x>>
O(x) == <<"o", x>>
Bad == <<"!", "">>
Nothing == <<"-", "">>
EmptyFn == [x \in {} |-> Z]

IsS(j) == j[1] = "s"
IsN(j) == j[1] = "n"
IsB(j) == j[1] = "b"
IsZ(j) == j[1] = "z"
IsA(j) == j[1] = "a"
IsO(j) == j[1] = "o"

Img(f) == { f[x] : x \in DOMAIN f }
Without(f, names) == [x \in DOMAIN f \ names |-> f[x]]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Nothing
Keys(j) == IF IsO(j) THEN DOMAIN j[2] ELSE {}

(* one value as itself, any other number of values as a list *)
OneOrMany(s) == IF Len(s) = 1 THEN s[1] ELSE A(s)
=============================================================================
