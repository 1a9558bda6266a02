------------------------------ MODULE HubKids ------------------------------
(* The children of a hub (SMART or camera hub) or strip follow the lists     *)
(* the device answers: the child list and the components of each child.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  lst,    \* latest child list: sequence of [id, tok, sup]; id "" when the entry has none
  lerr,   \* the latest answer to the list query was an error (or there was none yet)
  cps,    \* latest component lists: sequence of [id, good]
  cerr,
  kids,   \* id -> [obj, tok, bad]: the children of the device; bad: one of its queries failed
  nobj,   \* objects created so far
  failed, \* children a query of which failed during this update
  got,    \* which of the two lists were answered during this update
  fixed,  \* a strip: its children are not added later, once there are some
  ph      \* "idle" | "upd"
hvars == <<lst, lerr, cps, cerr, kids, nobj, failed, got, fixed, ph>>
HInit(f) == fixed = f /\ got = {} /\ lst = <<>> /\ lerr = TRUE /\ cps = <<>> /\ cerr = TRUE /\ kids = [x \in {} |-> 0] /\ nobj = 0 /\ failed = {} /\ ph = "idle"

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Listed == {r.id : r \in SeqSet(lst)} \ {""}
HasComps(id) == \E c \in SeqSet(cps) : c.id = id
Usable(id) == /\ \E c \in SeqSet(cps) : c.id = id /\ c.good
              /\ \E r \in SeqSet(lst) : r.id = id /\ r.sup
InfoOf(id) == (CHOOSE r \in SeqSet(lst) : r.id = id).tok
\* the children the device reports and that can be represented
Desired == {id \in Listed : Usable(id)}
\* a child that stays is not created again, so it stays even when its components turned unusable
Stay == {id \in DOMAIN kids \cap Listed : HasComps(id)}
\* set of admissible child sets of an update
Targets == IF lerr THEN {DOMAIN kids}
           ELSE IF cerr THEN {DOMAIN kids, DOMAIN kids \cap Listed}   \* nothing can be added
           ELSE {Desired \cup Stay}

Begin == ph = "idle" /\ ph' = "upd" /\ failed' = {} /\ got' = {} /\ UNCHANGED <<fixed, lst, lerr, cps, cerr, kids, nobj>>
List(err, l) == ph = "upd" /\ lerr' = err /\ lst' = l /\ got' = got \cup {"list"} /\ UNCHANGED <<fixed, cps, cerr, kids, nobj, failed, ph>>
Comps(err, c) == ph = "upd" /\ cerr' = err /\ cps' = c /\ got' = got \cup {"comps"} /\ UNCHANGED <<fixed, lst, lerr, kids, nobj, failed, ph>>
KidFails(id) == ph = "upd" /\ failed' = failed \cup {id} /\ UNCHANGED <<got, fixed, lst, lerr, cps, cerr, kids, nobj, ph>>
\* objs: id -> object of every child after the update
Ok(objs) ==
  /\ ph = "upd" /\ ph' = "idle"
  /\ "list" \in got => "comps" \in got \/ (fixed /\ (DOMAIN kids # {} \/ ~cerr))   \* components are asked for whenever needed
  /\ DOMAIN objs \in Targets
  /\ \A id \in DOMAIN objs : IF id \in DOMAIN kids THEN objs[id] = kids[id].obj ELSE objs[id] > nobj
  /\ \A a, b \in DOMAIN objs : a # b => objs[a] # objs[b]
  /\ nobj' = CHOOSE n \in {nobj} \cup {objs[id] : id \in DOMAIN objs} : \A id \in DOMAIN objs : n >= objs[id] /\ n >= nobj
  /\ kids' = [id \in DOMAIN objs |->
       [obj |-> objs[id],
        tok |-> IF lerr \/ id \notin Listed THEN kids[id].tok ELSE InfoOf(id),
        bad |-> id \in failed \/ (id \in DOMAIN kids /\ kids[id].bad)]]
  /\ UNCHANGED <<lst, lerr, cps, cerr, failed, got, fixed>>
\* the device itself could not be read: the children are what they were
Fails == ph = "upd" /\ ph' = "idle" /\ UNCHANGED <<lst, lerr, cps, cerr, kids, nobj>> 
         /\ UNCHANGED <<failed, got, fixed>>
=============================================================================
