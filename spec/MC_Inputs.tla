----------------------------- MODULE MC_Inputs -----------------------------
(* Every world: opening always ends, in the way Outcome says, and leaves   *)
(* no temporary file.                                                      *)
EXTENDS Inputs, TLC, Json
All == {".dat", ".txt", ".raw.txt", ".raw.dat", ".other", ""}
Worlds == {x \in [path : {"dir", "none", ".dat", ".txt", ".raw.txt", ".other", ""},
                  files : SUBSET All, tool : {"ok", "fails", "absent"}, text : {"good", "nokey", "binary"}] :
            /\ x.path \notin {"dir", "none"} => x.path \in x.files
            /\ x.path = "none" => x.files = {}}
Init == \E x \in Worlds : IInit(x)
Next == INext
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Next)
Ends == <>Ended
NoDebris == Ended => ~tmp
SameAsOutcome == Ended => /\ err = Outcome(w).err
                          /\ (phase = "open") = (Outcome(w).err = "")
OnlyDatUsesTool == tmp => src = "dat"
Loud == Ended /\ ~(\E s \in w.files : s \in {".dat", ".txt", ".raw.dat", ".raw.txt"}) => err = "OSError"
WarnOnlyTxt == warned => src = "txt"
Emit == Ended => PrintT("@@" \o ToJson(w))
=============================================================================
