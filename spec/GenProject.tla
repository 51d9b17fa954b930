----------------------------- MODULE GenProject -----------------------------
(* Scenario generation for the project walk: random complete behaviours of  *)
(* the specification, weighted per property by the choice of kinds.         *)
EXTENDS Project, IOUtils
Focus == IOEnv.FOCUS
OkFiles == {"py", "pyplain", "pyempty", "pycrlf", "pylink", "pyhelp", "req", "devreq", "req2", "bin", "upper", "pyc", "text", "empty", "binlink"}
GK1 == CASE Focus = "C04" -> {"py", "pyhelp", "bin", "req", "pybad", "pyenc", "pynul", "pycook", "pydeep", "reqbad", "pynoread", "binnoread", "none"}
         [] Focus = "C03" -> {"py", "hpy", "hbin", "bin", "pyhelp", "req", "text", "pybad"}
         [] OTHER -> OkFiles \cup {"none", "hpy", "dang", "pybad"}
GK3 == CASE Focus = "C04" -> {"dir", "dirlink"}
         [] Focus = "C03" -> {"dir", "hdir", "pycache", "dirpy", "dir"}
         [] OTHER -> {"dir", "dirlink", "dirpy", "edir", "hdir", "pycache"}
GK4 == CASE Focus = "C04" -> {"py", "pyhelp", "bin", "pybad", "pyenc", "pynul", "pycook", "reqbad", "pynoread", "binnoread", "req"}
         [] Focus = "C03" -> {"py", "hpy", "bin", "hbin", "pyhelp", "req"}
         [] OTHER -> OkFiles \cup {"none", "hpy", "hbin"}
GK5 == CASE Focus = "C04" -> {"dir", "py", "pybad", "none"}
         [] Focus = "C03" -> {"dir", "hdir", "pycache", "dirpy", "py"}
         [] OTHER -> {"dir", "edir", "dirlink", "py", "bin", "hdir"}
GK6 == CASE Focus = "C04" -> {"py", "bin", "pybad", "pydeep", "reqbad", "binnoread"}
         [] Focus = "C03" -> {"py", "bin", "hpy", "pyhelp"}
         [] OTHER -> OkFiles
GPats == CASE Focus = "C04" -> {"none", "N1x", "N4x", "\\.py$", "N3x[^/]*/N5x"}
           [] Focus = "C03" -> {"N1x", "N2x", "N3x", "N4x", "N5x", "N1x,N5x", "N3x[^/]*/N5x", "N[46]x", "\\.py$", "Proj", "^N1x", "zzz", "zzz,N3x.*\\.bin", "N4x,\\.py$,zzz", "/N6x[^/]*$", "n1X", "none"}
           [] OTHER -> {"none", "N1x", "N[46]x", "zzz,N3x.*\\.bin"}
GPlaces == CASE Focus = "C04" -> {"fresh", "stale", "blocked", "f:new", "f:over", "inside"}
             [] Focus = "C03" -> {"fresh", "stale", "rel", "inside", "f:new", "f:dir"}
             [] OTHER -> {"fresh", "empty", "stale", "inside", "default", "defaultin", "inlink", "insidelink", "rel", "dots", "self", "selflink",
                          "f:new", "f:deep", "f:dir", "f:over", "f:self", "f:selfdir", "f:selflink", "f:below"}
GInit == Init
=============================================================================
