------------------------------- MODULE GenTool -------------------------------
EXTENDS Tool, IOUtils
Ask == JsonDeserialize(IOEnv.ASK)
GVia == Ask.via
GOpts == Ask.opts
GArgs == Ask.args
GOne == Ask.one
GProjects == {Ask.projects[n] : n \in 1..Len(Ask.projects)}
=============================================================================
