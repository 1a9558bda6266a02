----------------------------- MODULE HubKidsMC -----------------------------
EXTENDS HubKids
CONSTANTS MaxUpd, Ids
VARIABLES n, asked
mv == <<hvars, n, asked>>
MInit == HInit(FALSE) /\ n = 0 /\ asked = 0
Perms(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in S}
Distinct(s) == \A i, j \in 1..Len(s) : s[i].id = s[j].id => i = j
Lists == {s \in Perms([id : Ids \cup {""}, tok : {n}, sup : BOOLEAN]) : Distinct(s)}
CompLists == {s \in Perms([id : Ids, good : BOOLEAN]) : Distinct(s)}
MBegin == n < MaxUpd /\ Begin /\ n' = n + 1 /\ asked' = 0
MList == asked = 0 /\ asked' = 1 /\ UNCHANGED n /\ (\E s \in Lists : List(FALSE, s))
MListErr == asked = 0 /\ asked' = 1 /\ UNCHANGED n /\ List(TRUE, <<>>)
MComps == asked = 1 /\ asked' = 2 /\ UNCHANGED n /\ (\E s \in CompLists : Comps(FALSE, s))
MCompsErr == asked = 1 /\ asked' = 2 /\ UNCHANGED n /\ Comps(TRUE, <<>>)
MKidFails == asked = 2 /\ failed = {} /\ UNCHANGED <<n, asked>> /\ (\E id \in Listed : KidFails(id))
Objs(S) == {f \in [S -> 1..(nobj + 2)] : TRUE}
MOk == asked = 2 /\ UNCHANGED <<n, asked>> /\ (\E S \in Targets : \E f \in Objs(S) :
         (\A id \in S : f[id] > nobj => f[id] = nobj + Cardinality({j \in S : j \notin DOMAIN kids /\ f[j] <= f[id]})) /\ Ok(f))
MFails == asked = 2 /\ UNCHANGED <<n, asked>> /\ Fails
MNext == MBegin \/ MList \/ MListErr \/ MComps \/ MCompsErr \/ MKidFails \/ MOk \/ MFails
MSpec == MInit /\ [][MNext]_mv
Oks == ph = "upd" /\ ph' = "idle" /\ kids' # kids
Mirror == [][Oks /\ ~lerr /\ ~cerr =>
   /\ DOMAIN kids' \subseteq Listed                                     \* vanished ones disappear
   /\ Desired \subseteq DOMAIN kids'                                    \* new ones appear
   /\ \A id \in DOMAIN kids' \ DOMAIN kids : Usable(id)]_mv             \* unsupported ones never do
Identity == [][Oks => \A id \in DOMAIN kids \cap DOMAIN kids' : kids[id].obj = kids'[id].obj]_mv
NewObject == [][Oks => \A id \in DOMAIN kids' \ DOMAIN kids : kids'[id].obj > nobj]_mv
FreshInfo == [][Oks /\ ~lerr => \A id \in DOMAIN kids' : id \in Listed => kids'[id].tok = n]_mv
ErrKeeps == [][Oks /\ lerr => \A id \in DOMAIN kids : id \in DOMAIN kids' /\ kids'[id].tok = kids[id].tok]_mv
OneObjectEach == \A a, b \in DOMAIN kids : a # b => kids[a].obj # kids[b].obj
=============================================================================
