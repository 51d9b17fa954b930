----------------------------- MODULE GenHelper -----------------------------
EXTENDS Helper, IOUtils
Ask == JsonDeserialize(IOEnv.ASK)
ToS(s) == {s[x] : x \in 1..Len(s)}
GKinds == IF Len(Ask.kinds) = 0 THEN AllKinds ELSE ToS(Ask.kinds)
GHeads == ToS(Ask.heads)
GPlaces == ToS(Ask.places)
GRuns == Ask.runs
GFiles == Ask.files
GUses == Ask.uses
GDirs == ToS(Ask.dirs)
KInit == /\ runs \in {<<k>> : k \in AllKinds} /\ phase = "kinds" /\ r = 1 /\ f = 1 /\ need = <<>> /\ wants = <<>>
KNext == FALSE /\ UNCHANGED vars
EmitKind == PrintT("@KIND " \o ToJson([k |-> runs[1], s |-> K[runs[1]].s, h |-> K[runs[1]].h]))
=============================================================================
