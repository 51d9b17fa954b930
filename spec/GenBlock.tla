------------------------------ MODULE GenBlock ------------------------------
EXTENDS Block, IOUtils
Ask == JsonDeserialize(IOEnv.ASK)
ToS(s) == {s[x] : x \in 1..Len(s)}
GLeaves == IF Len(Ask.leaves) = 0 THEN KindsOfUse \cup ImportKinds ELSE ToS(Ask.leaves)
GForms == ToS(Ask.forms)
GHeads == IF Len(Ask.heads) = 0 THEN KindsOfUse ELSE ToS(Ask.heads)
GCons == ToS(Ask.cons)
GTokens == Ask.tokens
GDepth == Ask.depth
=============================================================================
