------------------------------- MODULE Limits -------------------------------
(* Limits and their order.  A limit is <<"min"|"max", inclusive, number>>; numbers are tokens with a rank on the line of the
   type (integers: Rank; floating point: FRank, two tokens may be the same number).  The values a limit admits are points of
   a dense line: number r sits at 2r, odd points lie between numbers. *)
EXTENDS Nums, Sequences, FiniteSets, Json, CSV, IOUtils

Ty == IOEnv.TYPE                       \* "f64", "f32", "i64", "u64", "u8"
Tokens == CASE Ty = "f64" -> {"$-inf", "-1.7976931348623157e308", "-1", "-5e-324", "-0.0", "0", "5e-324", "0.1", "1", "1.5", "9007199254740993", "1e300", "$inf", "$nan"}
            [] Ty = "f32" -> {"$-inf", "-1000.5", "-1", "-0.5", "-0.0", "0", "0.5", "1", "1.5", "2", "65536", "$inf", "$nan"}
            [] Ty = "i64" -> {"-9223372036854775808", "-9223372036854775807", "-5", "-1", "0", "1", "2", "9007199254740993", "9223372036854775806", "9223372036854775807"}
            [] Ty = "u64" -> {"0", "1", "2", "9223372036854775807", "9223372036854775808", "18446744073709551615"}
            [] Ty = "u8" -> {"0", "1", "2", "128", "255"}
NaN(x) == x = "$nan"
R(x) == IF Ty \in {"f64", "f32"} THEN FRank[x] ELSE Rank[x]
Lims == {"min", "max"} \X {TRUE, FALSE} \X Tokens
Side(a) == a[1]
Incl(a) == a[2]
Num(a) == a[3]
Points == -3..140
Admits(a, p) == LET c == 2 * R(Num(a))
                IN IF Side(a) = "min" THEN IF Incl(a) THEN p >= c ELSE p > c ELSE IF Incl(a) THEN p <= c ELSE p < c
Adm(a) == {p \in Points : Admits(a, p)}

NumCmp(x, y) == IF NaN(x) \/ NaN(y) THEN "none" ELSE IF R(x) < R(y) THEN "lt" ELSE IF R(x) > R(y) THEN "gt" ELSE "eq"
Flip(c) == CASE c = "lt" -> "gt" [] c = "gt" -> "lt" [] OTHER -> c
(* the order: limits of one kind as their numbers; where the kinds differ only what is certain *)
RECURSIVE Cmp(_, _)
Cmp(a, b) ==
  LET c == NumCmp(Num(a), Num(b))
  IN CASE Incl(a) = Incl(b) -> c
       [] c = "none" -> "none"
       [] Side(a) = "min" /\ Side(b) = "min" /\ Incl(a) -> IF c \in {"lt", "eq"} THEN "lt" ELSE "none"
       [] Side(a) = "min" /\ Side(b) = "min" -> IF c \in {"gt", "eq"} THEN "gt" ELSE "none"
       [] Side(a) = "max" /\ Side(b) = "max" /\ Incl(a) -> IF c \in {"gt", "eq"} THEN "gt" ELSE "none"
       [] Side(a) = "max" /\ Side(b) = "max" -> IF c \in {"lt", "eq"} THEN "lt" ELSE "none"
       [] Side(a) = "min" -> IF c = "lt" THEN "none" ELSE "gt"
       [] OTHER -> Flip(Cmp(b, a))
Eq(a, b) == Incl(a) = Incl(b) /\ NumCmp(Num(a), Num(b)) = "eq"

VARIABLES a, b, c, done
vars == <<a, b, c, done>>
Init == a \in Lims /\ b \in Lims /\ c = a /\ done = "pair"
Emit == CSVWrite("%1$s", <<ToJson([t |-> "limit", ty |-> Ty, a |-> a, b |-> b, cmp |-> Cmp(a, b), eq |-> Eq(a, b), nan |-> NaN(Num(a))])>>, IOEnv.OUT)
Next == \/ done = "pair" /\ Emit /\ done' = "emitted" /\ UNCHANGED <<a, b, c>>
        \/ done = "pair" /\ c' \in {x \in Lims : Side(x) = Side(b)} /\ done' = "triple" /\ UNCHANGED <<a, b>>

Same == Side(a) = Side(b)
Mirrored == Cmp(b, a) = Flip(Cmp(a, b)) /\ Eq(a, b) = Eq(b, a)
EqualIff == (Cmp(a, b) = "eq") = Eq(a, b)
(* a smaller lower limit admits more, a smaller upper limit less *)
AgreesWithSets == (Same /\ Cmp(a, b) = "lt") => IF Side(a) = "min" THEN Adm(b) \subseteq Adm(a) /\ Adm(a) # Adm(b) ELSE Adm(a) \subseteq Adm(b) /\ Adm(a) # Adm(b)
EqualSets == (Same /\ Cmp(a, b) = "eq") => Adm(a) = Adm(b)
(* a lower limit above an upper limit leaves no number of the dense line *)
AboveIsEmpty == (Side(a) = "min" /\ Side(b) = "max" /\ Cmp(a, b) = "gt") => Adm(a) \cap Adm(b) = {}
(* one that is below, or the same number with both included, leaves some *)
BelowIsNot == (Side(a) = "min" /\ Side(b) = "max" /\ (Cmp(a, b) = "lt" \/ (Cmp(a, b) = "eq" /\ Incl(a)))) => Adm(a) \cap Adm(b) # {}
NoAnswerForNaN == (NaN(Num(a)) \/ NaN(Num(b))) => Cmp(a, b) = "none" /\ ~Eq(a, b)
Transitive == (done = "triple" /\ Side(a) = Side(b)) =>
                 /\ (Cmp(a, b) = "lt" /\ Cmp(b, c) = "lt" => Cmp(a, c) = "lt")
                 /\ (Cmp(a, b) = "eq" /\ Cmp(b, c) # "none" => Cmp(a, c) = Cmp(b, c))
Invariant == Mirrored /\ EqualIff /\ NoAnswerForNaN /\ AgreesWithSets /\ EqualSets /\ AboveIsEmpty /\ BelowIsNot /\ Transitive
=============================================================================
