------------------------------ MODULE MC_Sysfs ------------------------------
(* Going through a directory file by file, and through a file's text.      *)
EXTENDS Sysfs, Json, IOUtils
VARIABLES files, seen, got
vars == <<files, seen, got>>
Big == IOEnv.TV_TIER = "thorough"
Names == {"k_d", "policy", "cdev0_weight", "cdev12_weight", "trip_point_0_temp", "mode", "cdev_weight", "cdev0_weight_x"}
Texts == {"12\n", "12", "", "\n", "a b\n", "-7\n", "1\n\n"} \cup (IF Big THEN {"007", "0x1\n", "+", "- 1\n"} ELSE {})
Entry == [name : Names, text : Texts, kind : {"file"}, dir : {"zone"}]
   \cup [name : {"k_d", "cdev0_weight"}, text : {"3\n"}, kind : {"file"}, dir : {"other", "before"}]
   \cup [name : {"k_d", "cdev0_weight"}, text : {""}, kind : {"dir"}, dir : {"zone"}]
Init == files = <<>> /\ seen = 0 /\ got = {}
Add == seen = 0 /\ Len(files) < 2 /\ \E e \in Entry : (\A i \in 1..Len(files) : files[i].name # e.name) /\ files' = Append(files, e) /\ UNCHANGED <<seen, got>>
Look == /\ seen < Len(files) /\ seen' = seen + 1 /\ UNCHANGED files
        /\ LET e == files[seen + 1] IN
           got' = IF e.dir = "zone" /\ e.kind = "file" /\ Asked(e.name) THEN got \cup {[name |-> e.name, v |-> ValueOf(e.text)]} ELSE got
Spec == Init /\ [][Add \/ Look]_vars
Agrees == seen = Len(files) => got = Params(files)
One == \A p, q \in got : p.name = q.name => p = q
\* nothing but one newline is lost of a text, nothing of a number but zeros and plus
Verbatim == \A p \in got : \E i \in 1..Len(files) : files[i].name = p.name /\
   (~p.v.num => files[i].text \in {p.v.text, p.v.text \o "\n"} /\ (p.v.text # files[i].text \/ Trimmed(files[i].text) = files[i].text))
ASSUME ValueOf("12").text = "12" /\ ValueOf("12\n").text = "12" /\ ValueOf("1\n\n") = [num |-> TRUE, text |-> "1"] /\ ValueOf("a\n\n") = [num |-> FALSE, text |-> "a\n"]
ASSUME Asked("cdev10_weight") /\ ~Asked("cdev_weight") /\ ~Open("cdev_weight") /\ Open("cdev1_weight_old") /\ Asked("trip_point_1_temp") /\ ~Asked("trip_point_1_type")
Emit == (seen = 0 /\ files # <<>>) => PrintT("@@" \o ToJson([files |-> files]))
=============================================================================
