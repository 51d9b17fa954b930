---------------------------- MODULE GenCustomOp ----------------------------
EXTENDS CustomOp, IOUtils
Ask == JsonDeserialize(IOEnv.ASK)
ToS(s) == {s[x] : x \in 1..Len(s)}
GExts == ToS(Ask.exts)
GClasses == ToS(Ask.classes)
GFiles == Ask.files
GItems == Ask.items
GModes == ToS(Ask.modes)
GMin == Ask.min
GHows == ToS(Ask.hows)
GShapes == ToS(Ask.shapes)
=============================================================================
