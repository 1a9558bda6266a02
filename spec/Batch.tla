-------------------------------- MODULE Batch --------------------------------
(* Splitting a query for several methods into batches, completing list       *)
(* answers page by page, querying what stayed unanswered individually and    *)
(* switching to single requests for devices that cannot handle batches.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
VARIABLES
  cam,     \* camera protocol: a query for one method is a batch of one, too
  bs,      \* batch size in use; 1 = batches disabled
  asked,   \* methods of the running query
  force,   \* methods that must never be part of a batch
  retry, attempt, phase,    \* "idle" | "open" | "wait" | "failed"
  flight,  \* [kind, ms, m, start]: exchange in flight
  sent,    \* methods sent in batches in this attempt
  ssent,   \* methods sent individually in this attempt
  got,     \* answers so far: set of [m, k, tok, n, total, stop]
  cls,
  pmiss    \* a page asked for with a batch stayed unanswered: it is asked for individually
bvars == <<cam, bs, asked, force, retry, attempt, phase, flight, sent, ssent, got, cls, pmiss>>

NoFlight == [kind |-> "none", ms |-> <<>>, m |-> 0, start |-> 0]
BInit(c, b) == /\ cam = c /\ bs = b /\ asked = {} /\ force = {} /\ retry = 0 /\ attempt = 0 /\ phase = "idle"
               /\ flight = NoFlight /\ sent = {} /\ ssent = {} /\ got = {} /\ cls = "none" /\ pmiss = FALSE

Multi == cam \/ Cardinality(asked) > 1
RaiseOnError == Cardinality(asked) = 1
GotM == {g.m : g \in got}
Of(m) == CHOOSE g \in got : g.m = m
Open(g) == g.k = "list" /\ g.n < g.total /\ ~g.stop      \* list with items missing
Retryable(c) == c \in {"conn", "timeout", "retryable"}
Fresh == sent' = {} /\ ssent' = {} /\ got' = {} /\ pmiss' = FALSE

Call(ms, fs, n) ==
  /\ phase = "idle" /\ ms # {} /\ fs \subseteq ms
  /\ phase' = "open" /\ asked' = ms /\ force' = fs /\ retry' = n /\ attempt' = 0 /\ cls' = "none" /\ Fresh
  /\ UNCHANGED <<cam, bs, flight>>

\* an exchange starts; after a retryable failure it starts the next attempt from scratch
CanSend == phase = "open" \/ (phase = "failed" /\ Retryable(cls) /\ attempt < retry)
S == IF phase = "failed" THEN {} ELSE sent
SS == IF phase = "failed" THEN {} ELSE ssent
G == IF phase = "failed" THEN {} ELSE got
Begin(f) == /\ CanSend /\ phase' = "wait" /\ flight' = f /\ cls' = "none" /\ got' = G
            /\ attempt' = (IF phase = "failed" THEN attempt + 1 ELSE attempt)
            /\ UNCHANGED <<cam, bs, asked, force, retry>>
NothingOpen == \A g \in G : ~Open(g)

SendBatch(ms) ==
  /\ Multi /\ bs > 1 /\ ms # <<>> /\ Len(ms) <= bs /\ Cardinality(ToSet(ms)) = Len(ms)
  /\ ToSet(ms) \subseteq (asked \ force) \ S
  /\ NothingOpen
  /\ Begin([kind |-> "batch", ms |-> ms, m |-> 0, start |-> 0]) /\ sent' = S \cup ToSet(ms) /\ ssent' = SS /\ pmiss' = FALSE
SendSingle(m) ==
  /\ m \in asked /\ m \notin {g.m : g \in G} /\ m \notin SS
  /\ ~Multi \/ bs = 1 \/ m \in force \/ m \in S
  /\ (Multi /\ bs > 1) => (asked \ force) \subseteq S      \* only after all batches
  /\ NothingOpen
  /\ Begin([kind |-> "single", ms |-> <<>>, m |-> m, start |-> 0]) /\ ssent' = SS \cup {m} /\ sent' = S /\ pmiss' = FALSE
SendPage(m, start, batch) ==
  /\ phase = "open" /\ \E g \in got : g.m = m /\ Open(g) /\ g.n = start
  /\ batch = (cam /\ bs > 1 /\ ~pmiss)
  /\ Begin([kind |-> IF batch THEN "pagebatch" ELSE "page", ms |-> <<>>, m |-> m, start |-> start])
  /\ UNCHANGED <<sent, ssent, pmiss>>

Reset == phase' = "failed" /\ flight' = NoFlight /\ UNCHANGED <<cam, asked, force, retry, attempt, sent, ssent, got>> /\ pmiss' = FALSE
Fail(c) == Reset /\ cls' = c /\ UNCHANGED bs
\* items: sequence of [m, k, tok, n, total, c]; k in val | none | code | list; nokey: no method name given
Rec(i) == [m |-> i.m, k |-> i.k, tok |-> i.tok, n |-> i.n, total |-> i.total, stop |-> FALSE]
FirstCode(items) == LET bad == SelectSeq(items, LAMBDA i : i.k = "code") IN IF bad = <<>> THEN "none" ELSE bad[1].c
Back0 == phase' = "open" /\ flight' = NoFlight /\ UNCHANGED <<cam, bs, asked, force, retry, attempt, sent, ssent, cls>>
Back == Back0 /\ pmiss' = FALSE
AnsBatch(items) ==
  /\ phase = "wait" /\ flight.kind = "batch"
  /\ LET named == SelectSeq(items, LAMBDA i : i.k # "nokey") IN
     /\ {i.m : i \in ToSet(named)} \subseteq ToSet(flight.ms)
     /\ IF RaiseOnError /\ FirstCode(named) # "none" THEN Fail(FirstCode(named))
        ELSE Back /\ got' = got \cup {Rec(i) : i \in ToSet(named)}
AnsSingle(i) ==
  /\ phase = "wait" /\ flight.kind = "single" /\ i.m = flight.m
  /\ IF RaiseOnError /\ i.k = "code" THEN Fail(i.c) ELSE Back /\ got' = got \cup {Rec(i)}
\* a page brings n further items; an empty page ends the list
AnsPage(i) ==
  /\ phase = "wait" /\ flight.kind \in {"page", "pagebatch"} /\ i.m = flight.m
  /\ IF i.k = "code" THEN Fail(i.c)
     ELSE Back /\ got' = {IF g.m = i.m THEN [g EXCEPT !.n = @ + i.n, !.stop = (i.n = 0)] ELSE g : g \in got}
AnsPageMissing == phase = "wait" /\ flight.kind = "pagebatch" /\ Back0 /\ pmiss' = TRUE /\ UNCHANGED got
\* the batch as a whole is refused; "nobatch": the device cannot handle batches
RefuseBatch(c) ==
  /\ phase = "wait" /\ flight.kind \in {"batch", "pagebatch"}
  /\ IF c = "nobatch" THEN Reset /\ bs' = 1 /\ cls' = "retryable" ELSE Fail(c)
Fault(c) == phase = "wait" /\ Fail(c)

Complete == asked \subseteq GotM /\ \A g \in got : ~Open(g)
\* res: set of [m, k, tok, items]: what the caller gets for each method
Answer(g) == [m |-> g.m, k |-> g.k, tok |-> g.tok, items |-> [i \in 1..(IF g.k = "list" THEN g.n ELSE 0) |-> i]]
Done == phase' = "idle" /\ asked' = {} /\ force' = {} /\ Fresh /\ retry' = 0 /\ attempt' = 0 /\ cls' = "none"
        /\ UNCHANGED <<cam, bs, flight>>
Ok(res) == phase = "open" /\ Complete /\ res = {Answer(g) : g \in got} /\ Done
Err(c) == phase = "failed" /\ c = cls /\ (~Retryable(cls) \/ attempt >= retry) /\ Done

(* Properties *)
OneAnswerEach == Cardinality(GotM) = Cardinality(got)
OnlyAsked == GotM \subseteq asked /\ sent \subseteq asked \ force
BatchBound == flight.kind = "batch" => Len(flight.ms) \in 1..bs
NoBatchWhenDisabled == bs = 1 => flight.kind # "batch"
=============================================================================
