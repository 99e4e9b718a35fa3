------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* How a stream may deliver what is asked of it (C05).                     *)
(*                                                                         *)
(* Decoding is a sequence of steps, each going to a place and asking for a *)
(* number of bytes there; Reader describes it as if each step were served   *)
(* at once. Here the stream is an adversary: a read may deliver any part of *)
(* what was asked for, be interrupted, or fail, and going to a place may    *)
(* fail too. The decoder goes on asking until it has what it needs, the    *)
(* stream ends, or something fails.                                        *)
(*                                                                         *)
(* Whatever the adversary does, a step gives what Reader takes it to give, *)
(* or the failure of the stream surfaces; and it always ends. Behaviours   *)
(* are written out as schedules for the conformance harness, which lets    *)
(* the real decoder run on a stream that follows them.                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, CSV

CONSTANTS Size,         \* the number of bytes in the stream
          Programs,     \* the decoders considered: sequences of <<place, count>>
          Interrupts,   \* how often a read may be interrupted in a row
          Parts, Part, OutFile

\* Byte i of the stream, which tells it from all others.
Byte(i) == 100 + i

\* What a step gives as Reader has it: the bytes, or nothing when they are not all there.
Whole(step) ==
    IF step[1] + step[2] <= Size
    THEN [s |-> "ok", v |-> [i \in 1..step[2] |-> Byte(step[1] + i - 1)]]
    ELSE [s |-> "err", v |-> <<>>]

\* What a program gives: the values of its steps up to the first that fails.
RECURSIVE All(_, _)
All(program, k) ==
    IF k > Len(program) THEN [s |-> "done", v |-> <<>>]
    ELSE LET one == Whole(program[k]) IN
         IF one.s = "err" THEN [s |-> "ended", v |-> <<>>]
         ELSE LET rest == All(program, k + 1) IN [s |-> rest.s, v |-> <<one.v>> \o rest.v]

------------------------------------------------------------------------------
VARIABLES program,   \* the decoder
          step,      \* which of its steps is under way
          place,     \* where the stream is, or -1 before the step has gone there
          have,      \* the bytes that the step has so far
          values,    \* of the steps before
          row,       \* the number of interruptions in a row
          status,    \* "busy", "done", "ended" (by the end of the stream) or "failed"
          schedule   \* what the adversary did: 0 is an interruption, -1 a failure, -2 a move,
                     \* and other numbers are the bytes delivered

vars == <<program, step, place, have, values, row, status, schedule>>

Init ==
    /\ program \in Programs
    /\ (Len(program) + program[1][1] + program[1][2]) % Parts = Part
    /\ step = 1
    /\ place = -1
    /\ have = <<>>
    /\ values = <<>>
    /\ row = 0
    /\ status = "busy"
    /\ schedule = <<>>

Wanted == program[step][2] - Len(have)
Least(x, y) == IF x < y THEN x ELSE y

Move ==
    /\ status = "busy" /\ place = -1
    /\ place' = program[step][1]
    /\ schedule' = Append(schedule, -2)
    /\ UNCHANGED <<program, step, have, values, row, status>>

Deliver ==
    /\ status = "busy" /\ place >= 0 /\ Wanted > 0
    /\ \E n \in 1..Wanted :
        /\ place + n <= Size
        /\ have' = have \o [i \in 1..n |-> Byte(place + i - 1)]
        /\ place' = place + n
        /\ schedule' = Append(schedule, n)
    /\ row' = 0
    /\ UNCHANGED <<program, step, values, status>>

Interrupt ==
    /\ status = "busy" /\ place >= 0 /\ Wanted > 0
    /\ row < Interrupts
    /\ row' = row + 1
    /\ schedule' = Append(schedule, 0)
    /\ UNCHANGED <<program, step, place, have, values, status>>

End ==
    /\ status = "busy" /\ place >= Size /\ Wanted > 0
    /\ status' = "ended"
    /\ UNCHANGED <<program, step, place, have, values, row, schedule>>

Fail ==
    /\ status = "busy" /\ (place = -1 \/ Wanted > 0)
    /\ status' = "failed"
    /\ schedule' = Append(schedule, -1)
    /\ UNCHANGED <<program, step, place, have, values, row>>

Finish ==
    /\ status = "busy" /\ place >= 0 /\ Wanted = 0
    /\ values' = Append(values, have)
    /\ have' = <<>>
    /\ place' = -1
    /\ row' = 0
    /\ IF step = Len(program) THEN status' = "done" /\ UNCHANGED step
       ELSE step' = step + 1 /\ UNCHANGED status
    /\ UNCHANGED <<program, schedule>>

Next == Move \/ Deliver \/ Interrupt \/ End \/ Fail \/ Finish

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
\* The result is that of Reader, or the failure.
BigStepAgrees ==
    /\ status = "done" => All(program, 1) = [s |-> "done", v |-> values]
    /\ status = "ended" => All(program, 1) = [s |-> "ended", v |-> values]

\* A failure is never turned into a value, into the end of the stream, or retried.
FaultSurfaced ==
    (status = "failed") <=> (\E i \in 1..Len(schedule) : schedule[i] = -1)

\* No part of a value is there unless all of it is.
Complete == \A i \in 1..Len(values) : Len(values[i]) = program[i][2]

\* It ends.
Ends == <>(status # "busy")

\* What the adversary did, without the moves, of behaviours at their end.
EmitSchedule ==
    status # "busy" =>
        LET events == SelectSeq(schedule, LAMBDA x : x # -2) IN
        (Len(events) > 0) =>
            CSVWrite("%1$s", << <<"schedule", program, schedule, status>> >>, OutFile)

\* Programs for the configurations.
P(i) == << <<<<0, 1>>>>, <<<<0, 2>>>>, <<<<1, 4>>>>, <<<<3, 5>>>>,
           <<<<0, 2>>, <<4, 2>>>>, <<<<2, 1>>, <<0, 3>>>>, <<<<4, 2>>, <<5, 2>>>>,
           <<<<0, 1>>, <<1, 2>>, <<3, 1>>>> >>[i]
Few == {P(i) : i \in 1..8}
Many == { <<a>> : a \in (0..5) \X (1..6) }
        \cup { <<a, b>> : a \in (0..4) \X (1..3), b \in (0..5) \X (1..3) }
==============================================================================
