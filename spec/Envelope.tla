------------------------------ MODULE Envelope ------------------------------
(***************************************************************************)
(* The physical form of a source file: encoding and its declaration, byte  *)
(* order mark, line ends, indentation characters, what stands before the   *)
(* first statement and after the last.  Reading a file abstracts from all  *)
(* of it; the conversion sees the same program and writes UTF-8.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Encs == {"utf-8", "latin-1", "cp1252", "iso-8859-15", "gbk", "shift_jis", "koi8-r", "ascii", "euc-jp", "big5", "utf-8-sig"}
Decls == {"none", "emacs", "vim", "plain", "second", "upper"}
Lines == {"\\n", "\\r\\n", "\\r"}
Indents == {"4", "1", "tab", "8"}
Heads == {"none", "shebang", "comment", "blank", "formfeed", "doc"}
Tails == {"nl", "none", "blank", "comment", "backslash", "spaces"}
Bodies == {"empty", "comment", "docstring", "plain", "torch", "nonascii", "onlyimport", "names", "unsupported", "passonly"}
VARIABLES phase, form
vars == <<phase, form>>
\* which characters the body holds decides which encodings can carry it
Needs(b) == b \in {"nonascii", "names"}
\* without a declaration a file is UTF-8
Readable(f) == /\ (f.decl = "none" => f.enc \in {"utf-8", "ascii", "utf-8-sig"})
               /\ (f.enc = "utf-8-sig" => f.decl \in {"none", "emacs"})
               /\ (f.enc = "ascii" => ~Needs(f.body))
               /\ (f.decl = "second" => f.head \in {"shebang", "comment", "blank"})
               /\ (f.decl \in {"emacs", "vim", "plain", "upper"} => f.head \notin {"shebang", "comment", "blank", "formfeed"})
Forms == [enc : Encs, decl : Decls, line : Lines, indent : Indents, head : Heads, tail : Tails, body : Bodies]
CONSTANT Full
\* pairwise around the ordinary form, or everything
Base(b) == [enc |-> "utf-8", decl |-> "none", line |-> "\\n", indent |-> "4", head |-> "none", tail |-> "nl", body |-> b]
Far(f) == Cardinality({k \in DOMAIN f \ {"body"} : f[k] # Base(f.body)[k]})
Init == phase = "write" /\ form \in {f \in Forms : Readable(f) /\ (Full \/ Far(f) <= 3)}
\* the conversion reads the program, whatever its form
Convert == phase = "write" /\ phase' = "done" /\ UNCHANGED form
Next == Convert
Spec == Init /\ [][Next]_vars
EmitDone == phase = "done" => PrintT("@CASE " \o ToJson(form))
=============================================================================
