------------------------------ MODULE GenTwice ------------------------------
EXTENDS Twice, IOUtils
Ask == JsonDeserialize(IOEnv.ASK)
ToS(s) == {s[x] : x \in 1..Len(s)}
GCtxs == ToS(Ask.ctxs)
GKinds == IF Len(Ask.kinds) = 0 THEN Done ELSE ToS(Ask.kinds)
GPlains == IF Len(Ask.plains) = 0 THEN Plain ELSE ToS(Ask.plains)
GSites == Ask.sites
GDepth == Ask.depth
GPasses == Ask.passes
=============================================================================
