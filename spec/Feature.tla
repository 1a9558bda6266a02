------------------------------- MODULE Feature -------------------------------
(* Features of a device and what may be set through them.                    *)
(* feats: sequence of [type, ro, lo, hi, opts]; values are scaled by ten.     *)
(* A value is [t, x]: t its type, x its number or its place in the choices.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES feats,    \* what the features advertise now
          passed    \* per feature: the values that were handed to the device
fvars == <<feats, passed>>
Numbers == {"int", "float"}
InRange(f, v) == v.x >= f.lo /\ v.x <= f.hi
\* "yes": has to be passed on, "no": has to be refused, "any": left open (truth values are numbers in Python)
Verdict(f, v) ==
  CASE f.ro -> "no"
    [] f.type = "Number" -> IF v.t \in Numbers THEN (IF InRange(f, v) THEN "yes" ELSE "no") ELSE IF v.t = "bool" /\ InRange(f, v) THEN "any" ELSE "no"
    [] f.type = "Choice" -> IF v.t = "str" /\ v.x \in f.opts THEN "yes" ELSE IF v.t = "same" THEN "any" ELSE "no"
    [] OTHER -> "yes"
Pass(i, v) == Verdict(feats[i], v) # "no" /\ passed' = [passed EXCEPT ![i] = Append(@, v)] /\ UNCHANGED feats
Refuse(i, v) == Verdict(feats[i], v) # "yes" /\ UNCHANGED fvars
\* what is advertised may change with the device
NewRange(i, lo, hi) == feats' = [feats EXCEPT ![i].lo = lo, ![i].hi = hi] /\ UNCHANGED passed
NewChoices(i, o) == feats' = [feats EXCEPT ![i].opts = o] /\ UNCHANGED passed
\* a feature describes itself consistently
ReadOnlyTypes == {"Sensor", "BinarySensor"}
Consistent(f, val) ==
  /\ f.type \in ReadOnlyTypes => f.ro
  /\ f.type \in {"Action", "Number", "Choice", "Switch"} => ~f.ro
  /\ f.type = "Number" => f.lo <= f.hi /\ val \in Numbers \cup {"none"}
  /\ f.type = "Choice" => f.opts # {} /\ val \in {"str", "none"}
  /\ f.type \in {"Switch", "BinarySensor"} => val \in {"bool", "none"}
=============================================================================
