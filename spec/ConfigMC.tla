------------------------------ MODULE ConfigMC ------------------------------
EXTENDS Config, TLC
CONSTANTS Fams, Depth
VARIABLES orig, opts, n
mv == <<cfgvars, orig, opts, n>>
Cfgs == [host : {"h1"}, timeout : {0, 3}, port : {0, 1234}, cred : Users \cup {"none"}, hash : {"none", "A", "B"}, batch : {0, 1},
         keys : {"none", "k"}, fam : Fams, enc : Encs, login : {0, 2}, https : BOOLEAN, hport : {0, 8080}]
MInit == c \in Cfgs /\ d = c /\ orig = c /\ opts = <<>> /\ n = 0
MExp(o, x) == n = 0 /\ DoExport(o, x) /\ opts' = <<o, x>> /\ n' = 1 /\ UNCHANGED orig
MRel == n = 1 /\ Reload /\ n' = 2 /\ UNCHANGED <<orig, opts>>
MCon == n \in {0, 2} /\ c = orig /\ Connect /\ (n = 0 => orig' = c') /\ (n = 2 => UNCHANGED orig) /\ UNCHANGED <<opts, n>>
MNext == \/ (\E o \in {"plain", "exclude", "drop"} : MExp(o, ""))
         \/ (\E x \in {"", "ex"} : Has(c) /\ MExp("own", x))
         \/ MExp("other", "A") \/ MRel \/ MCon
MSpec == MInit /\ [][MNext]_mv
Was(o) == n = 2 /\ opts[1] = o
\* the round trip is the identity
RoundTrip == Was("plain") => Connected(c) = Connected(orig)
Same == (Was("plain") /\ Has(c)) => Wire(c) = Wire(orig)
\* with its own hash the reloaded configuration authenticates as the original did, and keeps no secret in clear
OwnSame == (Was("own") /\ Has(c)) => Wire(c) = Wire(orig) \/ (opts[2] = "ex" /\ OwnHash(orig) = "none" /\ orig.hash # "none")
NoSecret == (n = 2 /\ (opts[1] \in {"exclude", "drop", "other"} \/ (opts[1] = "own" /\ OwnHash(orig) # "none"))) => ~Clear(c)
NoCreds == Was("drop") /\ Has(c) => Accepts(c) \cap {"A", "B"} \in {{}, {"A", "B"}}
\* everything else is kept
Rest == n = 2 => \A f \in {"host", "port", "batch", "fam", "enc", "login", "https", "hport"} : c[f] = orig[f]
=============================================================================
