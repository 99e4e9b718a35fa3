------------------------------ MODULE FontTrace ------------------------------
(***************************************************************************)
(* Whether the container module accepts what the code has been seen to do  *)
(* (C01 to C04). The harness has opened fonts and performed operations on  *)
(* them at random; each line of Recorded has the bytes of the font, what   *)
(* opening gave, and the operations with their answers and the positions   *)
(* of the stream afterwards. The states of this module are those of Font   *)
(* along that log; an answer that Font does not give is remembered in bad. *)
(***************************************************************************)
EXTENDS Font, Json

CONSTANTS Recorded

Traces == ndJsonDeserialize(Recorded)

VARIABLES file,      \* the number of the recording
          line,      \* how much of its log has been accepted
          records,   \* the directory
          verdicts,  \* whether the checksums of its tables match
          bad        \* what was not accepted

tvars == <<file, line, records, verdicts, bad, base, dev, at, cursor, log, pc>>

Bytes(f) == Plain(Traces[f].bytes)
Lax(f) == Traces[f].lax

\* Records as recorded.
Shown(rs) == [i \in 1..Len(rs) |-> <<rs[i].tag, rs[i].sum, rs[i].off, rs[i].size>>]

TraceInit ==
    /\ file \in {f \in 1..Len(Traces) : f % Parts = Part}
    /\ line = 0
    /\ records = <<>>
    /\ verdicts = <<>>
    /\ bad = <<>>
    /\ cursor = Anywhere
    /\ base = "" /\ dev = <<>> /\ at = 0 /\ log = <<>> /\ pc = Idle

Opening ==
    /\ line = 0
    /\ \E t \in {Bytes(file)} : \E r \in {Open(t, 0)} :
        /\ records' = r.records
        /\ verdicts' = [i \in 1..Len(r.records) |-> Verified(t, r.records[i])]
        /\ bad' = IF r.s # Traces[file].opened \/ Shown(r.records) # Traces[file].records
                     \/ (r.s = "ok" /\ (Traces[file].fonts # 1 \/ Traces[file].changed))
                  THEN <<Traces[file].name, "opening">> ELSE <<>>
    /\ line' = 1
    /\ UNCHANGED <<file, cursor, base, dev, at, log, pc>>

\* What Font answers, with the verdicts at hand.
Expected(kind, what) ==
    LET i == Deciding(records, kind)
        v == IF i = 0 \/ Lax(file) THEN "yes" ELSE verdicts[i]
    IN CASE what = "exists" -> <<IF i > 0 THEN "yes" ELSE "no">>
         [] i = 0 -> <<"absent">>
         [] v = "no" -> <<"err">>
         [] v = "unknown" -> <<"unknown">>
         [] what = "position" -> <<"at", records[i].off[1], records[i].off[2]>>
         [] OTHER -> <<"decode", i>>

\* Whether an event <<what, kind, to, answer, matches, position>> is one of Font.
Fits(event) ==
    IF event[1] = "seek" THEN event[6] = event[3]
    ELSE LET e == Expected(event[2], event[1])
             answer == event[4]
             \* Looking something up in the directory does not move the stream.
             still == cursor = Anywhere \/ event[6] = cursor
         IN CASE e[1] = "unknown" -> answer[1] \in {"err", "value", "at"}
              [] e[1] = "decode" -> answer[1] \in {"value", "err", "panic"}
                                    /\ \E j \in 1..Len(event[5]) : event[5][j] = e[2]
                                    /\ (event[2] \in Own => answer[1] # "panic")
              [] e[1] \in {"yes", "no", "absent"} -> answer = e /\ still
              [] OTHER -> answer = e

Perform ==
    /\ line > 0 /\ bad = <<>>
    /\ line <= Len(Traces[file].log)
    /\ \E event \in {Traces[file].log[line]} :
        /\ bad' = IF Fits(event) THEN <<>>
                  ELSE <<Traces[file].name, line, event, Expected(event[2], event[1])>>
        /\ cursor' = event[6]
    /\ line' = line + 1
    /\ UNCHANGED <<file, records, verdicts, base, dev, at, log, pc>>

TraceNext == Opening \/ Perform

Accepted == bad = <<>>
==============================================================================
