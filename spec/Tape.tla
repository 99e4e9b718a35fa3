-------------------------------- MODULE Tape --------------------------------
(***************************************************************************)
(* The byte stream a decoder reads from.                                   *)
(*                                                                         *)
(* A tape is a byte string with at most one run of filler bytes in it, so  *)
(* that offsets of tens of thousands of bytes, and far starting positions, *)
(* can be explored without writing the filler out:                         *)
(*                                                                         *)
(*     b      the bytes that are written out                               *)
(*     gat    the number of bytes of b that come before the filler         *)
(*     gap    the number of filler bytes                                   *)
(*     fill   the value of the filler bytes                                *)
(*     len    the length of the stream, Len(b) + gap                       *)
(*                                                                         *)
(* Positions count from zero. Positions and lengths stay below Far, which  *)
(* stands for "further than any stream of this model reaches": 32-bit      *)
(* quantities of the formats are saturated at Far (TLC integers have 32    *)
(* bits).                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* The concatenation of a sequence of sequences.
Concat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)

Far == 1073741824

MkTape(b, gat, gap, fill) ==
    [b |-> b, gat |-> gat, gap |-> gap, fill |-> fill, len |-> Len(b) + gap]

Plain(b) == MkTape(b, Len(b), 0, 0)

\* The byte at position p, which must be less than the length.
At(t, p) ==
    IF p < t.gat THEN t.b[p + 1]
    ELSE IF p < t.gat + t.gap THEN t.fill
    ELSE t.b[p - t.gap + 1]

U16(t, p) == At(t, p) * 256 + At(t, p + 1)

I16(t, p) == LET v == U16(t, p) IN IF v >= 32768 THEN v - 65536 ELSE v

\* A 32-bit number, saturated.
U32(t, p) ==
    LET hi == U16(t, p) IN
    IF hi >= 16384 THEN Far ELSE hi * 65536 + U16(t, p + 2)

SatAdd(a, b) == IF a >= Far \/ b >= Far - a THEN Far ELSE a + b

SatMul(a, b) ==
    IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Far \div b THEN Far ELSE a * b

\* The first n bytes.
Cut(t, n) ==
    IF n >= t.len THEN t
    ELSE IF n <= t.gat THEN Plain(SubSeq(t.b, 1, n))
    ELSE IF n <= t.gat + t.gap THEN MkTape(SubSeq(t.b, 1, t.gat), t.gat, n - t.gat, t.fill)
    ELSE MkTape(SubSeq(t.b, 1, n - t.gap), t.gat, t.gap, t.fill)

\* The tape with bytes put in front of it.
Prefixed(t, pre) == MkTape(pre \o t.b, t.gat + Len(pre), t.gap, t.fill)

\* The tape with bytes put behind it.
Suffixed(t, suf) == MkTape(t.b \o suf, t.gat, t.gap, t.fill)

\* The tape with the byte at position p (not in the filler) replaced.
Poke(t, p, v) ==
    LET i == IF p < t.gat THEN p + 1 ELSE p - t.gap + 1 IN
    [t EXCEPT !.b[i] = v]

PokeU16(t, p, v) == Poke(Poke(t, p, v \div 256), p + 1, v % 256)
=============================================================================
