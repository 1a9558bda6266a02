------------------------------ MODULE FeatureMC ------------------------------
EXTENDS Feature
CONSTANTS MaxN
VARIABLES n
mv == <<fvars, n>>
Ranges == {<<0, 1000>>, <<-100, 100>>, <<50, 50>>, <<0, 655360>>}
Around(r) == {r[1] - 10, r[1] - 5, r[1], r[1] + 5, (r[1] + r[2]) \div 2, r[2] - 5, r[2], r[2] + 5, r[2] + 10}
Whole(x) == (x % 10) = 0
Nums(r) == {[t |-> "float", x |-> x] : x \in Around(r)} \cup {[t |-> "int", x |-> x] : x \in {y \in Around(r) : Whole(y)}}
Odd == [t : {"nan", "none", "list", "dict"}, x : {0}] \cup [t : {"bool"}, x : {0, 10}] \cup [t : {"numstr"}, x : {0, 500}]
Strs == [t : {"str"}, x : 1..7]
Vals(f) == Nums(<<f.lo, f.hi>>) \cup Odd \cup Strs
Feats == [type : {"Number"}, ro : BOOLEAN, lo : {0, -100, 50}, hi : {50, 100, 1000}, opts : {{}}]
         \cup [type : {"Choice"}, ro : BOOLEAN, lo : {0}, hi : {0}, opts : {{}, {1}, {1, 2, 3}}]
         \cup [type : {"Switch", "Unknown", "Action"}, ro : BOOLEAN, lo : {0}, hi : {0}, opts : {{}}]
         \cup [type : {"Sensor", "BinarySensor"}, ro : {TRUE}, lo : {0}, hi : {0}, opts : {{}}]
MInit == (\E f \in Feats : feats = <<f>> /\ passed = << <<>> >>) /\ n = 0
MNext == n < MaxN /\ n' = n + 1 /\
  (\/ \E v \in Vals(feats[1]) : Pass(1, v) \/ Refuse(1, v)
   \/ feats[1].type = "Number" /\ \E r \in Ranges : NewRange(1, r[1], r[2])
   \/ feats[1].type = "Choice" /\ \E o \in {{}, {1}, {2, 3}, {1, 2, 3}} : NewChoices(1, o))
MSpec == MInit /\ [][MNext]_mv
\* nothing that is not advertised reaches the device
OnlyValid == [][\A i \in DOMAIN passed : Len(passed'[i]) > Len(passed[i]) =>
                  LET f == feats[i] v == passed'[i][Len(passed'[i])] IN
                  /\ ~f.ro
                  /\ f.type = "Number" => v.t \in Numbers \cup {"bool"} /\ v.x \in f.lo..f.hi
                  /\ f.type = "Choice" => v.x \in f.opts]_mv
ReadOnlyUntouched == \A i \in DOMAIN feats : feats[i].ro => passed[i] = <<>>
AtMostOnce == [][\A i \in DOMAIN passed : Len(passed'[i]) <= Len(passed[i]) + 1]_mv
=============================================================================
