----------------------------- MODULE GenImports -----------------------------
EXTENDS Imports, IOUtils
Ask == JsonDeserialize(IOEnv.ASK)
ToS(s) == {s[x] : x \in 1..Len(s)}
GApis == IF Len(Ask.apis) = 0 THEN DOMAIN Apis ELSE ToS(Ask.apis)
GPlaces == ToS(Ask.places)
GStmts == Ask.stmts
GNames == Ask.names
GUses == Ask.uses
GCtx == ToS(Ask.ctxs)
GLocals == ToS(Ask.locals)
GAs == Ask.as
=============================================================================
