---------------------------- MODULE TextTableTrace ----------------------------
(* Trace validation of loadtxt: the state is the contents of the files.        *)
EXTENDS TextTable, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, F
vars == <<l, F>>
Empty == [n \in {"a", "b"} |-> [there |-> FALSE, text |-> <<>>]]
Begin(e) == F' = Empty
Write(e) == F' = [F EXCEPT ![e.name] = [there |-> TRUE, text |-> e.text]] /\ Holds(Sound(e.text))
Remove(e) == F' = [F EXCEPT ![e.name] = [there |-> FALSE, text |-> <<>>]]
\* one row per line
Load(e) == /\ UNCHANGED F
           /\ Holds(LET f == F[e.name] IN e.ok = f.there /\ (e.ok => e.X = Table(f.text, e.places)))
\* one row per line that is not blank, the last field being the label; nothing else can be loaded
LoadLabelled(e) == /\ UNCHANGED F
                   /\ Holds(LET f == F[e.name] T == Strict(NonBlank(Table(f.text, e.places))) IN
                            /\ e.ok = (f.there /\ Rectangular(T))
                            /\ e.ok => e.X = Features(T) /\ e.y = Labels(T))
Step(e) == CASE e.e = "Begin" -> Begin(e)
             [] e.e = "Write" -> Write(e)
             [] e.e = "Remove" -> Remove(e)
             [] e.e = "Load" -> Load(e)
             [] e.e = "LoadLabelled" -> LoadLabelled(e)
             [] OTHER -> FALSE
Init == l = 1 /\ F = Empty
Next == l <= Len(Log) /\ l' = l + 1 /\ Step(Log[l])
Spec == Init /\ [][Next]_vars
==============================================================================
