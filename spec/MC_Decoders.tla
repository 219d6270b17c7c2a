---------------------------- MODULE MC_Decoders ----------------------------
(* Every built-in line format over a small set of field values: the decoded *)
(* dictionary against the values the line was written from.                 *)
EXTENDS Decoders, TLC, Json, IOUtils
VARIABLES f, v      \* format, values
Vals == {"0", "7", "-1", "4294967295"}
N(x) == [k |-> "i", lit |-> IntLit(Chars(x))]
S(x) == [k |-> "s", v |-> x]
B(key, val) == [key |-> key, val |-> val]
M1(x) == IF x = "4294967295" THEN N("-1") ELSE N(x)
Hex(x) == CASE x = "0" -> "0" [] x = "7" -> "7" [] x = "-1" -> "-1" [] x = "4294967295" -> "ffffffff"
H(x) == [k |-> "i", lit |-> [ok |-> TRUE, base |-> 16, neg |-> x = "-1", digits |-> CASE x = "0" -> "0" [] x = "7" -> "7" [] x = "-1" -> "1" [] OTHER -> "ffffffff"]]

Formats == <<"clock_enable", "clock_set_rate", "sys_enter", "sys_exit", "cpu_idle", "ext4_da_write_begin", "ext4_sync_file_enter",
             "f2fs_write_begin", "f2fs_sync_file_exit", "cpu_frequency", "cpu_capacity", "sched_switch", "sched_load_avg_sg">>
Kind(n) == CASE n = "clock_enable" -> "clk" [] n = "clock_set_rate" -> "clkrate" [] n = "sys_enter" -> "sysenter"
             [] n = "sys_exit" -> "sysexit" [] n = "cpu_idle" -> "idle" [] n \in {"ext4_da_write_begin", "ext4_sync_file_enter"} -> "ext4"
             [] n = "f2fs_write_begin" -> "f2fs" [] n = "f2fs_sync_file_exit" -> "f2fsexit" [] n = "cpu_frequency" -> "freq"
             [] n = "cpu_capacity" -> "capacity" [] n = "sched_switch" -> "switch" [] n = "sched_load_avg_sg" -> "mask"
Line(n, a, b) ==
  CASE n \in {"clock_enable", "clock_set_rate"} -> "my_clk state=" \o a \o " cpu_id=" \o b
    [] n = "sys_enter" -> "NR 64 (" \o Hex(a) \o ", " \o Hex(b) \o ", 0, 1f, 0, a)"
    [] n = "sys_exit" -> "NR " \o a \o " = " \o b
    [] n \in {"cpu_idle", "cpu_frequency", "cpu_capacity"} -> "state=" \o a \o " cpu_id=" \o b
    [] n = "ext4_da_write_begin" -> "dev 8,16 ino " \o a \o " pos " \o b
    [] n = "ext4_sync_file_enter" -> "dev 8,16 ino " \o a \o " parent " \o b
    [] n = "f2fs_write_begin" -> "dev = (179,0), ino = " \o a \o ", pos = " \o b
    [] n = "f2fs_sync_file_exit" -> "dev = (179,0), ino = " \o a \o ", checkpoint is not needed, datasync = 0, ret = " \o b
    [] n = "sched_switch" -> "prev_comm=a b prev_pid=" \o a \o " ==> next_comm=c d next_pid=" \o b
    [] n = "sched_load_avg_sg" -> "cpus=" \o (IF a = "-1" THEN "000000f1" ELSE a) \o " load=" \o b
\* the documented meaning
Means(n, a, b) ==
  CASE n = "clock_enable" -> {B("clk_name", S("my_clk")), B("state", N(a)), B("cpu_id", N(b))}
    [] n = "clock_set_rate" -> {B("clk_name", S("my_clk")), B("rate", N(a)), B("cpu_id", N(b))}
    [] n = "sys_enter" -> {B("nr", N("64")), B("arg0", H(a)), B("arg1", H(b)), B("arg2", H("0")),
                           B("arg3", [k |-> "i", lit |-> [ok |-> TRUE, base |-> 16, neg |-> FALSE, digits |-> "1f"]]),
                           B("arg4", H("0")), B("arg5", [k |-> "i", lit |-> [ok |-> TRUE, base |-> 16, neg |-> FALSE, digits |-> "a"]])}
    [] n = "sys_exit" -> {B("nr", N(a)), B("ret", N(b))}
    [] n = "cpu_idle" -> {B("state", M1(a)), B("cpu_id", M1(b))}
    [] n = "cpu_frequency" -> {B("frequency", N(a)), B("cpu", N(b))}
    [] n = "cpu_capacity" -> {B("capacity", N(a)), B("cpu", N(b))}
    [] n = "ext4_da_write_begin" -> {B("dev", S("8,16")), B("inode", S(a)), B("pos", S(b))}
    [] n = "ext4_sync_file_enter" -> {B("dev", S("8,16")), B("inode", S(a)), B("parent", S(b))}
    [] n = "f2fs_write_begin" -> {B("dev", S("(179 0)")), B("inode", N(a)), B("pos", N(b))}
    [] n = "f2fs_sync_file_exit" -> {B("dev", S("(179 0)")), B("inode", N(a)), B("checkpoint", S("not needed")), B("datasync", N("0")), B("ret", N(b))}
    [] n = "sched_switch" -> {B("prev_comm", S("a b")), B("prev_pid", N(a)), B("next_comm", S("c d")), B("next_pid", N(b))}
    [] n = "sched_load_avg_sg" -> {B("cpus", S(CASE a = "0" -> "00000000" [] a = "7" -> "00000007" [] a = "-1" -> "000000f1" [] OTHER -> a)), B("load", N(b))}

Init == f = "" /\ v = <<>>
Next == f = "" /\ \E i \in 1..Len(Formats) : \E a, b \in Vals : f' = Formats[i] /\ v' = <<a, b>>
Spec == Init /\ [][Next]_<<f, v>>
Decoded == f # "" =>
   LET r == Rows(Kind(f), <<Chars(Line(f, v[1], v[2]))>>)[1]
   IN r.err = "" /\ {r.d[i] : i \in 1..Len(r.d)} = Means(f, v[1], v[2])
Emit == f # "" => PrintT("@@" \o ToJson([name |-> f, kind |-> Kind(f), payloads |-> <<Line(f, v[1], v[2]), Line(f, v[2], v[1])>>]))
=============================================================================
