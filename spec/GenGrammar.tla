----------------------------- MODULE GenGrammar -----------------------------
EXTENDS Grammar, IOUtils
Ask == JsonDeserialize(IOEnv.ASK)
GTop == Ask.top
GDepth == Ask.depth
GSpine == Ask.spine
GTorch == Ask.torch
GOther == Ask.other
GNew == Ask.new
GOnly == {Ask.only[x] : x \in 1..Len(Ask.only)}
=============================================================================
