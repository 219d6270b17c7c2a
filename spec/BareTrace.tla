----------------------------- MODULE BareTrace -----------------------------
(* A trace object as a collection of event tables: adding parsed events,    *)
(* duration and filters (C13).  Times are integers (ticks).                 *)
EXTENDS Text
VARIABLES events      \* sequence of [name, times, pivot]
\* attributes every trace object has
Reserved == {"name", "normalized_time", "class_definitions", "trace_classes", "basetime", "endtime",
             "get_duration", "get_filters", "add_parsed_event", "finalize_objects", "generate_data_dict"}
NamesOf(e) == {e[i].name : i \in 1..Len(e)}
CanAdd(n) == n \notin NamesOf(events) \cup Reserved
Add(n, ts, p) == events' = IF CanAdd(n) THEN Append(events, [name |-> n, times |-> ts, pivot |-> p]) ELSE events
AllTimes == UNION {{events[i].times[j] : j \in 1..Len(events[i].times)} : i \in 1..Len(events)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Duration == IF AllTimes = {} THEN 0 ELSE Max(AllTimes) - Min(AllTimes)
Filters(key) == SelectSeq([i \in 1..Len(events) |-> events[i].name], LAMBDA n : Contains(Chars(n), Chars(key)))
\* invariants
NamesDistinct == \A i, j \in 1..Len(events) : events[i].name = events[j].name => i = j
DurationNonNegative == Duration >= 0
DurationCovers == \A s, t \in AllTimes : s - t <= Duration
FiltersAll == Filters("") = [i \in 1..Len(events) |-> events[i].name]
=============================================================================
