------------------------------- MODULE RedactMC -------------------------------
EXTENDS Redact
CONSTANTS Fams, Depth
VARIABLES last, n
mv == <<rvars, last, n>>
Keys(f) == IF f = "iot" THEN {"alias", "state"} ELSE IF f = "new" THEN {"owner", "state"} ELSE {"nickname", "state"}
RECURSIVE Trees(_, _)
Trees(f, d) == {[t |-> "leaf", v |-> "value"]} \cup
  IF d = 0 THEN {} ELSE LET s == Trees(f, d - 1) IN
    {[t |-> "list", v |-> <<x>>] : x \in s} \cup {[t |-> "list", v |-> <<[t |-> "leaf", v |-> "value"], x>>] : x \in s}
    \cup UNION {{[t |-> "map", k |-> <<a>>, v |-> <<x>>] : x \in s} : a \in Keys(f)}
    \cup UNION {{[t |-> "map", k |-> <<a, "other">>, v |-> <<x, [t |-> "leaf", v |-> "value"]>>] : x \in s} : a \in Keys(f)}
MInit == RInit /\ last = [t |-> "leaf", v |-> "none"] /\ n = 0
MNext == n < 2 /\ n' = n + 1 /\
         \/ \E b \in BOOLEAN : b # on /\ Switch(b) /\ UNCHANGED last
         \/ \E f \in Fams : \E x \in Trees(f, Depth) : Answer(f, x) /\ last' = x
MSpec == MInit /\ [][MNext]_mv
NoLeak == \A y \in logged : (y.on /\ Under(y.fam, y.p) # {}) => y.v = "hidden"
\* nothing else is hidden, and what the caller gets is what the device said
Useful == \A y \in logged : Under(y.fam, y.p) = {} => y.v = "value"
Same == given = <<>> \/ given = last
=============================================================================
