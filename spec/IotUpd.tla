-------------------------------- MODULE IotUpd --------------------------------
(* Updates of a legacy device: the system information first, then what every *)
(* supported module needs, in one or several requests; answers are merged.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* a query is [m |-> module name of the device, c |-> command]; "system"/"get_sysinfo" is the system information
VARIABLES ph, met, unsup, known, fresh, asked, drop
uvars == <<ph, met, unsup, known, fresh, asked, drop>>
\* drop: what was known to be unsupported after the last complete update
\* met: the device is known: its system information was read; unsup: modules that it told not to support
\* known: query -> admissible tokens of the data at hand; fresh: answers of the running update; asked: queries of the running update
Sys == [m |-> "system", c |-> "get_sysinfo"]
UInit == ph = "idle" /\ met = FALSE /\ unsup = {} /\ known = <<>> /\ fresh = <<>> /\ asked = {} /\ drop = {}
Discovered(tok) == ph = "idle" /\ ~met /\ met' = TRUE /\ known' = (Sys :> {tok}) /\ UNCHANGED <<ph, unsup, fresh, asked, drop>>
Begin == ph = "idle" /\ ph' = "upd" /\ fresh' = <<>> /\ asked' = {} /\ UNCHANGED <<met, unsup, known, drop>>
\* qs: the queries of one request; toks: the answer to each; no: modules that the answer calls unsupported
Request(qs, toks, no) ==
  /\ ph = "upd"
  /\ ~met => qs = {Sys}
  /\ \A q \in qs : q.m \notin drop
  /\ asked' = asked \cup qs
  /\ met' = TRUE
  /\ unsup' = unsup \cup no
  /\ fresh' = toks @@ fresh
  /\ UNCHANGED <<ph, known, drop>>
\* a request that gets no answer
Lost(qs) == ph = "upd" /\ (~met => qs = {Sys}) /\ (\A q \in qs : q.m \notin drop) /\ ph' = "lost" /\ UNCHANGED <<met, unsup, known, fresh, asked, drop>>
\* needs: all queries of the modules that a device of this kind may have
Ok(needs) == /\ ph = "upd" /\ ph' = "idle"
             /\ Sys \in asked
             /\ \A q \in needs : q \in asked \/ q.m \in unsup
             /\ known' = [q \in DOMAIN fresh |-> {fresh[q]}] @@ known
             /\ drop' = unsup /\ UNCHANGED <<met, unsup, fresh, asked>>
\* nothing, or parts, of what was answered is kept
Err == /\ ph = "lost" /\ ph' = "idle"
       /\ known' = [q \in DOMAIN fresh |-> {fresh[q]} \cup (IF q \in DOMAIN known THEN known[q] ELSE {-1})] @@ known
       /\ UNCHANGED <<met, unsup, fresh, asked, drop>>
=============================================================================
