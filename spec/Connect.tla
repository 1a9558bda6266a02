------------------------------- MODULE Connect -------------------------------
(* Connecting to one device, or trying every known kind of connection:       *)
(* what is opened, what is closed again, and what the caller gets.           *)
EXTENDS Select, TLC, Integers
VARIABLES
  mode,    \* "one" | "all"
  kinds,   \* kinds to be tried ("all"), or the kind of the configuration ("one", {} if there is none)
  fate,    \* kind -> "ok" | "fail" | "maybe": what the device makes of an attempt of that kind
  lib,     \* the failure is an error of the library (else: cancelled or a failing callback)
  ph,      \* "run" | "ok" (a device was returned) | "end"
  cur,     \* kind of the attempt being made, <<>> between attempts
  tried,   \* kinds whose attempt is over
  open,    \* connections that are open
  gone,    \* cancelled or callback failed
  cb       \* there is a callback
cvars == <<mode, kinds, fate, lib, ph, cur, tried, open, gone, cb>>
CInit(m, ks, ft, c) == /\ mode = m /\ kinds = ks /\ fate = ft /\ cb = c /\ lib = TRUE /\ ph = "run" /\ cur = <<>> /\ tried = {} /\ open = {} /\ gone = FALSE
\* something is sent to the device in an attempt of kind k
Use(k) == /\ ph \in {"run", "ok"} /\ ~gone
          /\ (ph = "run" => k \in kinds /\ k \notin tried /\ cur \in {<<>>, k})
          /\ (ph = "run" /\ cur = <<>> => open = {})              \* what earlier attempts opened is closed
          /\ (ph = "ok" => k = cur)
          /\ cur' = k /\ UNCHANGED <<mode, kinds, fate, lib, ph, tried, open, gone, cb>>
\* at most one connection at any time
Open(r) == ph \in {"run", "ok"} /\ open = {} /\ open' = {r} /\ UNCHANGED <<mode, kinds, fate, lib, ph, cur, tried, gone, cb>>
Close(r) == r \in open /\ open' = open \ {r} /\ UNCHANGED <<mode, kinds, fate, lib, ph, cur, tried, gone, cb>>
\* the outcome of an attempt is reported
Reported(k, good) == /\ ph = "run" /\ mode = "all" /\ cb /\ cur = k /\ k \notin tried /\ ~gone
                   /\ (good => fate[k] # "fail") /\ (~good => fate[k] # "ok")
                   /\ fate' = [fate EXCEPT ![k] = IF good THEN "ok" ELSE "fail"]
                   /\ tried' = tried \cup {k} /\ UNCHANGED <<mode, kinds, lib, ph, cur, open, gone, cb>>
Next(k) == /\ ph = "run" /\ mode = "all" /\ cur = k /\ k # <<>> /\ ~gone
           /\ (IF cb THEN k \in tried /\ fate[k] = "fail" ELSE fate[k] # "ok")
           /\ tried' = tried \cup {k} /\ cur' = <<>> /\ UNCHANGED <<mode, kinds, fate, lib, ph, open, gone, cb>>
\* the device is returned, connected to that kind; trying all kinds closes every connection
Found(k) == /\ ph = "run" /\ cur = k /\ k # <<>> /\ ~gone /\ fate[k] # "fail" /\ (mode = "all" /\ cb => k \in tried)
            /\ (mode = "all" => open = {}) /\ ph' = "ok"
            /\ UNCHANGED <<mode, kinds, fate, lib, cur, tried, open, gone, cb>>
Nothing == /\ ph = "run" /\ mode = "all" /\ tried = kinds /\ cur = <<>> /\ open = {} /\ ~gone /\ ph' = "end"
           /\ UNCHANGED <<mode, kinds, fate, lib, cur, tried, open, gone, cb>>
Unsupported == /\ ph = "run" /\ mode = "one" /\ kinds = {} /\ open = {} /\ ph' = "end"
               /\ UNCHANGED <<mode, kinds, fate, lib, cur, tried, open, gone, cb>>
Fail == /\ ph = "run" /\ open = {} /\ ph' = "end"
        /\ (gone \/ (mode = "one" /\ cur # <<>> /\ fate[cur] # "ok"))
        /\ UNCHANGED <<mode, kinds, fate, lib, cur, tried, open, gone, cb>>
Gone == ph = "run" /\ ~gone /\ gone' = TRUE /\ UNCHANGED <<mode, kinds, fate, lib, ph, cur, tried, open, cb>>
\* later use of the device, and its end
Disconnected == ph = "ok" /\ open = {} /\ UNCHANGED cvars
=============================================================================
