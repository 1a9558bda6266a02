------------------------------ MODULE FirmwareMC ------------------------------
EXTENDS Firmware
CONSTANTS MaxRuns
VARIABLES last
mv == <<fvars, last>>
A(x) == last' = x
MNext == \/ allowed < MaxRuns /\ \E c \in BOOLEAN : Cloud(c) /\ c # cloud /\ A("cloud")
         \/ allowed < MaxRuns /\ \E r \in {"none", "no", "yes"} : Check(r) /\ r # known /\ A("check")
         \/ Deny /\ A("deny")
         \/ allowed < MaxRuns /\ Begin /\ A("begin")
         \/ Download /\ A("download")
         \/ Refused /\ A("refused")
         \/ now < at + Limit /\ Len(seen) < 4 /\ (\E s \in {-1, 0, 2, 3} : Answer(s)) /\ A("answer")
         \/ Lost /\ A("lost")
         \/ (\E s \in {-1, 0, 2, 3} : Tell(s)) /\ A("tell")
         \/ (\E s \in {-1, 0} : Finish(s)) /\ A("finish")
         \/ Expire /\ A("expire")
         \/ Cancelled /\ A("cancel")
         \/ busy /\ Tick(now + 1) /\ A("tick")
MSpec == FInit /\ last = "init" /\ [][MNext]_mv /\ WF_mv(\E s \in {-1, 0} : Finish(s) /\ A("finish")) /\ WF_mv(Expire /\ A("expire")) /\ WF_mv(busy /\ Tick(now + 1) /\ A("tick"))
         /\ WF_mv(Refused /\ A("refused")) /\ WF_mv((\E s \in {-1, 0, 2, 3} : Tell(s)) /\ A("tell"))
TypeOK == known \in {"none", "no", "yes"} /\ told \in 0..Len(seen) /\ now \in Nat
StartsWhenKnown == [][downloads' > downloads => busy /\ known = "yes" /\ cloud]_mv
Ends == busy ~> ~busy
Told == (told < Len(seen)) ~> (told = Len(seen))
Tolerates == [][last' = "lost" => busy']_mv
=============================================================================
