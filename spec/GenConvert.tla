----------------------------- MODULE GenConvert -----------------------------
EXTENDS Convert, IOUtils
Ask == JsonDeserialize(IOEnv.ASK)
ToS(s) == {s[x] : x \in 1..Len(s)}
GCtxs == ToS(Ask.ctxs)
GKinds == IF Len(Ask.kinds) = 0 THEN KindSet ELSE ToS(Ask.kinds)
GPlains == IF Len(Ask.plains) = 0 THEN Plain ELSE ToS(Ask.plains)
GSites == Ask.sites
GDepth == Ask.depth
GModes == ToS(Ask.modes)
=============================================================================
