-------------------------------- MODULE Font --------------------------------
(***************************************************************************)
(* The container: opening a file and getting at the tables of its font.    *)
(*                                                                         *)
(* A file is a stream, a place in it where the font starts, and what is    *)
(* there. Its directory is a list of records, each a tag, a checksum, an   *)
(* offset from the start of the stream and a length. The operations are    *)
(*                                                                         *)
(*     open                read the directory                              *)
(*     exists(kind)        whether some record has the tag of the kind     *)
(*     position(kind)      verify the table and go to where it begins      *)
(*     take(kind)          the same and decode it there                    *)
(*     seek(p)             the caller moves the stream                     *)
(*                                                                         *)
(* The module has two state machines for the operations. Next performs     *)
(* each in one step; its answers are the specification (C01 to C04).       *)
(* Micro performs them as a decoder with nothing but a stream would, one   *)
(* read at a time, and Agreement says that nothing of where the stream was *)
(* before, or of what was asked before, is left in its answers.            *)
(*                                                                         *)
(* 32-bit quantities are pairs of 16-bit halves here.                      *)
(***************************************************************************)
EXTENDS Writer, FiniteSets, CSV

CONSTANTS BaseSet,   \* which files (see Files)
          K,         \* how many deviations from them
          Depth,     \* how many operations
          Parts, Part, OutFile

------------------------------------------------------------------------------
(* The kinds of tables with their registered tags, and what decodes them:  *)
(* a type of Formats, or "" for the decoders of other libraries.           *)

Tag(a, b, c, d) == <<a, b, c, d>>
CFF  == Tag(67, 70, 70, 32)
CPAL == Tag(67, 80, 65, 76)
GDEF == Tag(71, 68, 69, 70)
GPOS == Tag(71, 80, 79, 83)
GSUB == Tag(71, 83, 85, 66)
OS2  == Tag(79, 83, 47, 50)
CMAP == Tag(99, 109, 97, 112)
FVAR == Tag(102, 118, 97, 114)
GLYF == Tag(103, 108, 121, 102)
HEAD == Tag(104, 101, 97, 100)
HHEA == Tag(104, 104, 101, 97)
HMTX == Tag(104, 109, 116, 120)
LOCA == Tag(108, 111, 99, 97)
MAXP == Tag(109, 97, 120, 112)
NAME == Tag(110, 97, 109, 101)
POST == Tag(112, 111, 115, 116)

\* kind |-> its tag
KindTags ==
    [FontSet |-> CFF, ColorPalettes |-> CPAL, GlyphDefinition |-> GDEF, GlyphPositioning |-> GPOS,
     GlyphSubstitution |-> GSUB, WindowsMetrics |-> OS2, CharacterMapping |-> CMAP,
     FontVariations |-> FVAR, GlyphData |-> GLYF, FontHeader |-> HEAD, HorizontalHeader |-> HHEA,
     HorizontalMetrics |-> HMTX, GlyphMapping |-> LOCA, MaximumProfile |-> MAXP, Names |-> NAME,
     PostScript |-> POST]
Kinds == DOMAIN KindTags
Own == {"ColorPalettes", "GlyphDefinition", "GlyphPositioning", "GlyphSubstitution", "FontVariations"}

Signatures == { <<0, 1, 0, 0>>, <<79, 84, 84, 79>>, <<116, 114, 117, 101>>, <<116, 121, 112, 49>> }

------------------------------------------------------------------------------
(* Checksums.                                                              *)

\* The sum of two numbers modulo 2^32.
Plus(x, y) ==
    LET lo == x[2] + y[2] IN <<(x[1] + y[1] + lo \div 65536) % 65536, lo % 65536>>

\* A word without its last e bytes.
Masked(x, e) ==
    CASE e = 0 -> x
      [] e = 1 -> <<x[1], x[2] - (x[2] % 256)>>
      [] e = 2 -> <<x[1], 0>>
      [] e = 3 -> <<x[1] - (x[1] % 256), 0>>

WordAt(t, p) == <<U16(t, p), U16(t, p + 2)>>
Words(size) == (size + 3) \div 4

\* The checksum of the bytes from off on; all of them have to be there.
Sum(t, off, size, head) ==
    FoldLeft(LAMBDA x, i :
                IF head /\ i = 3 THEN x
                ELSE LET w == WordAt(t, off + 4 * (i - 1)) IN
                     Plus(x, IF i = Words(size) THEN Masked(w, 4 * Words(size) - size) ELSE w),
             <<0, 0>>, [i \in 1..Words(size) |-> i])

Saturated(x) == IF x[1] >= 16384 THEN Far ELSE x[1] * 65536 + x[2]

\* "yes", "no", or "unknown" when padding is missing at the end of the stream.
Verified(t, rec) ==
    LET off == Saturated(rec.off)
        size == Saturated(rec.size)
    IN IF size = 0 THEN (IF rec.sum = <<0, 0>> THEN "yes" ELSE "no")
       ELSE IF SatAdd(off, size) > t.len THEN "no"
       ELSE IF off + 4 * Words(size) > t.len THEN "unknown"
       ELSE IF Sum(t, off, size, rec.tag = HEAD) = rec.sum THEN "yes" ELSE "no"

------------------------------------------------------------------------------
(* Opening.                                                                *)

RecordAt(t, p) ==
    [tag |-> [i \in 1..4 |-> At(t, p + i - 1)], sum |-> WordAt(t, p + 4),
     off |-> WordAt(t, p + 8), size |-> WordAt(t, p + 12)]

Open(t, at) ==
    IF at + 12 > t.len THEN [s |-> "err", records |-> <<>>]
    ELSE LET n == U16(t, at + 4) IN
         IF [i \in 1..4 |-> At(t, at + i - 1)] \notin Signatures \/ at + 12 + 16 * n > t.len
         THEN [s |-> "err", records |-> <<>>]
         ELSE [s |-> "ok", records |-> [i \in 1..n |-> RecordAt(t, at + 12 + 16 * (i - 1))]]

\* The number of the record that decides about a kind, or zero.
Deciding(records, kind) ==
    LET hits == {i \in 1..Len(records) : records[i].tag = KindTags[kind]} IN
    IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : i <= j

------------------------------------------------------------------------------
(* The operations: what they answer, and where they leave the stream (-1   *)
(* is "anywhere"). lax is the build that ignores checksums.                *)

Anywhere == -1

Answer(t, records, op, lax, cursor) ==
    CASE op[1] = "seek" -> [r |-> <<"done">>, c |-> op[2]]
      [] op[1] = "exists" ->
            [r |-> <<IF Deciding(records, op[2]) > 0 THEN "yes" ELSE "no">>, c |-> cursor]
      [] OTHER ->
            LET i == Deciding(records, op[2])
                v == IF i = 0 \/ lax THEN "yes" ELSE Verified(t, records[i])
            IN IF i = 0 THEN [r |-> <<"absent">>, c |-> cursor]
               ELSE IF v = "no" THEN [r |-> <<"err">>, c |-> Anywhere]
               ELSE IF v = "unknown" THEN [r |-> <<"unknown">>, c |-> Anywhere]
               ELSE IF op[1] = "position"
               THEN [r |-> <<"at", records[i].off[1], records[i].off[2]>>,
                     c |-> IF Saturated(records[i].off) = Far THEN Anywhere ELSE Saturated(records[i].off)]
               ELSE \* What decoding the kind there gives, be it an error.
                    [r |-> <<"decode", records[i].off[1], records[i].off[2]>>, c |-> Anywhere]

------------------------------------------------------------------------------
(* Files. Each is given by its contents (blobs), what its records say, and *)
(* deviations, which are numbered choices as in Writer.                    *)

Zeros(n) == [i \in 1..n |-> 0]
Default(ty, deep) == Write(ty, <<>>, <<>>, deep).b

Blob(name) ==
    CASE name = "GDEF" -> <<0, 1, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 1, 0, 9, 0, 1, 0, 2>>
      [] name = "gdef" -> <<0, 1, 0, 2, 0, 0, 0, 14, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 1, 0, 0>>
      [] name = "CPAL" -> Default("ColorPalettes", 0)
      [] name = "fvar" -> Default("FontVariations", 0)
      [] name = "GSUB" -> Default("GlyphSubstitution", 0)
      [] name = "GPOS" -> Default("GlyphPositioning", 0)
      [] name = "head" -> <<0, 1, 0, 0, 0, 2, 128, 0, 177, 2, 3, 4, 95, 15, 60, 245, 0, 11, 3, 232>>
                          \o [i \in 1..34 |-> IF i = 31 THEN 0 ELSE IF i = 32 THEN 1 ELSE 0]
      [] name = "maxp" -> <<0, 0, 80, 0, 1, 2>>
      [] name = "hhea" -> <<0, 1, 0, 0, 3, 150, 254, 80, 0, 0, 4, 76>> \o Zeros(22) \o <<0, 2>>
      [] name = "post" -> <<0, 3, 0, 0>> \o Zeros(28)
      [] name = "hmtx" -> <<2, 88, 0, 10, 1, 44, 255, 246, 0, 7, 0, 8, 0, 9>>
      [] name = "junk" -> [i \in 1..11 |-> 255]

\* base |-> the tags and contents of its records
Files == [
    A |-> << <<GDEF, "GDEF">>, <<CPAL, "CPAL">>, <<HEAD, "head">> >>,
    B |-> << <<FVAR, "fvar">>, <<MAXP, "maxp">>, <<GSUB, "GSUB">> >>,
    C |-> << <<GDEF, "GDEF">>, <<GDEF, "gdef">>, <<GPOS, "GPOS">> >>,
    D |-> << <<POST, "post">>, <<HHEA, "hhea">>, <<HEAD, "junk">> >> ]

SigAlts == << <<0, 1, 0, 0>>, <<79, 84, 84, 79>>, <<116, 114, 117, 101>>, <<116, 121, 112, 49>>,
              <<116, 116, 99, 102>>, <<0, 2, 0, 0>>, <<0, 0, 1, 0>>, <<79, 84, 84, 78>>,
              <<84, 114, 117, 101>>, <<116, 121, 112, 50>>, <<0, 1, 0, 1>>, <<0, 0, 0, 0>>,
              <<101, 117, 114, 116>> >>
\* Tags that take the place of the right one: near misses and other kinds.
TagAlts(tag) ==
    << tag, [tag EXCEPT ![4] = (@ + 1) % 256], [tag EXCEPT ![1] = IF @ >= 97 THEN @ - 32 ELSE @ + 32],
       <<tag[2], tag[1], tag[3], tag[4]>>, GDEF, HEAD, <<0, 0, 0, 0>> >>
Cuts == <<0, 3, 4, 6, 11, 12, 13, 27, 28, 43, 44, 45>>

\* sig, lead, cut, noise, count, and for each record tag, offset, size, sum
Arities == <<Len(SigAlts), 4, Len(Cuts) + 1, 2, 5>>
           \o Concat([r \in 1..3 |-> <<7, 9, 12, 9>>])

Pick(dev, i) == IF i \in DOMAIN dev THEN dev[i] ELSE 0

Align(n) == 4 * ((n + 3) \div 4)

\* The stream and where the font starts in it.
Build(base, dev) ==
    LET parts == Files[base]
        lead == <<0, 4, 6, 256>>[Pick(dev, 2) + 1]
        count == <<3, 0, 1, 2, 4>>[Pick(dev, 5) + 1]
        stored == IF count > 3 THEN 3 ELSE count
        noise == IF Pick(dev, 4) = 1 THEN <<255, 255, 171, 205, 1, 2>> ELSE <<0, 48, 0, 1, 0, 0>>
        sig == SigAlts[Pick(dev, 1) + 1]
        from == Align(lead + 12 + 16 * 3) + 4
        \* Padding is not zero, so that it matters whether it is counted.
        padded == [i \in 1..3 |-> LET b == Blob(parts[i][2]) IN
                                  b \o [j \in 1..(Align(Len(b)) - Len(b) + 4) |-> 90 + j]]
        place == [i \in 1..4 |-> FoldLeft(LAMBDA x, j : x + Len(padded[j]), from,
                                          [j \in 1..(i - 1) |-> j])]
        body == padded[1] \o padded[2] \o padded[3]
        whole == Zeros(from) \o body
        t == Plain(whole)
        record(i) ==
            LET c == 5 + 4 * (i - 1)
                tag == TagAlts(parts[i][1])[Pick(dev, c + 1) + 1]
                own == place[i]
                len == Len(Blob(parts[i][2]))
                off == LET a == Pick(dev, c + 2) IN
                       CASE a = 0 -> <<0, own>> [] a = 1 -> <<0, own + 1>> [] a = 2 -> <<0, own + 4>>
                         [] a = 3 -> <<0, place[(i % 3) + 1]>> [] a = 4 -> <<0, 0>>
                         [] a = 5 -> <<0, Len(whole)>> [] a = 6 -> <<0, Len(whole) + 100>>
                         [] a = 7 -> <<1, own>> [] a = 8 -> <<65535, 65535>>
                size == LET a == Pick(dev, c + 3) IN
                        CASE a = 0 -> <<0, len>> [] a = 1 -> <<0, len - 1>> [] a = 2 -> <<0, len - 2>>
                          [] a = 3 -> <<0, len - 3>> [] a = 4 -> <<0, 0>> [] a = 5 -> <<0, len + 1>>
                          [] a = 6 -> <<0, len + 4>> [] a = 7 -> <<1, len>> [] a = 8 -> <<65535, 65535>>
                          [] a = 9 -> <<65535, 65533>> [] a = 10 -> <<65535, 65532>>
                          [] a = 11 -> <<0, 4>>
                fits == SatAdd(Saturated(off), Align(Saturated(size))) <= t.len
                \* The header of the file is not yet there; sums of it are wrong, as they may.
                right == IF fits THEN Sum(t, Saturated(off), Saturated(size), tag = HEAD) ELSE <<0, 0>>
                other == IF fits THEN Sum(t, Saturated(off), Saturated(size), tag # HEAD) ELSE <<0, 1>>
                loose == IF fits THEN Sum(t, Saturated(off), Align(Saturated(size)), tag = HEAD) ELSE <<1, 0>>
                shift == IF fits /\ Saturated(size) > 4
                         THEN Sum(t, Saturated(off) + 4, Saturated(size) - 4, FALSE) ELSE <<9, 9>>
                sum == LET a == Pick(dev, c + 4) IN
                       CASE a = 0 -> right [] a = 1 -> Plus(right, <<0, 1>>) [] a = 2 -> Plus(right, <<32768, 0>>)
                         [] a = 3 -> <<right[2], right[1]>> [] a = 4 -> other [] a = 5 -> loose
                         [] a = 6 -> shift [] a = 7 -> <<0, 0>> [] a = 8 -> Plus(right, <<0, 256>>)
                half(x) == Bytes16(x[1]) \o Bytes16(x[2])
            IN tag \o half(sum) \o half(off) \o half(size)
        head == [i \in 1..lead |-> 7] \o sig \o Bytes16(count) \o noise
                \o Concat([i \in 1..stored |-> record(i)])
        all == head \o SubSeq(whole, Len(head) + 1, Len(whole))
    IN [b |-> IF Pick(dev, 3) = 0 THEN all ELSE SubSeq(all, 1, lead + Cuts[Pick(dev, 3)]),
        at |-> lead]

------------------------------------------------------------------------------
VARIABLES base, dev, at,     \* the file, as in Gen
          cursor,            \* where the stream is
          log,               \* the operations and their answers
          pc                 \* of the operation under way (see Micro)

vars == <<base, dev, at, cursor, log, pc>>

Complete == at = 0
Idle == [n |-> "idle"]

\* TLC evaluates these for every state; \E x \in {...} keeps it to once.
File == Build(base, dev)
Stream(f) == Plain(f.b)

Init ==
    /\ base \in BaseSet
    /\ dev = <<>>
    /\ at \in {i \in 0..Len(Arities) : (K > 0 \/ i = 0) /\ i % Parts = Part}
    /\ cursor = 0
    /\ log = <<>>
    /\ pc = Idle

\* Choose a deviation.
Deviate ==
    /\ ~Complete
    /\ \E a \in 1..(Arities[at] - 1) : dev' = (at :> a) @@ dev
    /\ \/ at' = 0
       \/ Cardinality(DOMAIN dev) + 1 < K /\ at' \in (at + 1)..Len(Arities)
    /\ UNCHANGED <<base, cursor, log, pc>>

\* The kinds that there is reason to ask for: those of the records, and a few more.
Asked(records) ==
    {k \in Kinds : \E i \in 1..Len(records) : records[i].tag = KindTags[k]}
    \cup {"GlyphDefinition", "Names"}
Places(t) == {0, 7, t.len}
Operations(t, records) ==
    {<<o, k>> : o \in {"exists", "position", "take"}, k \in Asked(records)}
    \cup {<<"seek", p>> : p \in Places(t)}

Operate ==
    /\ Complete
    /\ pc = Idle
    /\ Len(log) < Depth
    /\ \E f \in {File} : \E t \in {Stream(f)} : \E r \in {Open(t, f.at)} :
        /\ r.s = "ok"
        /\ \E op \in Operations(t, r.records) : \E a \in {Answer(t, r.records, op, FALSE, cursor)} :
            /\ cursor' = a.c
            /\ log' = Append(log, <<op, a.r>>)
    /\ UNCHANGED <<base, dev, at, pc>>

Next == Deviate \/ Operate

------------------------------------------------------------------------------
(* The same with nothing but a stream. An operation is scanning records,   *)
(* summing words, comparing, going to the table.                           *)

Ask ==
    /\ Complete
    /\ pc = Idle
    /\ Len(log) < Depth
    /\ \E f \in {File} : \E t \in {Stream(f)} : \E r \in {Open(t, f.at)} :
        /\ r.s = "ok"
        /\ \E op \in Operations(t, r.records) :
            IF op[1] = "seek"
            THEN cursor' = op[2] /\ log' = Append(log, <<op, <<"done">>>>) /\ pc' = pc
            ELSE pc' = [n |-> "scan", op |-> op, i |-> 1, w |-> 0, x |-> <<0, 0>>]
                 /\ UNCHANGED <<cursor, log>>
    /\ UNCHANGED <<base, dev, at>>

Answered(a) == log' = Append(log, <<pc.op, a>>) /\ pc' = Idle

Scan ==
    /\ pc.n = "scan"
    /\ \E f \in {File} : \E r \in {Open(Stream(f), f.at)} :
        IF pc.i > Len(r.records)
        THEN Answered(<<IF pc.op[1] = "exists" THEN "no" ELSE "absent">>) /\ UNCHANGED cursor
        ELSE LET rec == r.records[pc.i] IN
             IF rec.tag # KindTags[pc.op[2]]
             THEN pc' = [pc EXCEPT !.i = @ + 1] /\ UNCHANGED <<cursor, log>>
             ELSE IF pc.op[1] = "exists" THEN Answered(<<"yes">>) /\ UNCHANGED cursor
             ELSE /\ pc' = [pc EXCEPT !.n = "sum"]
                  /\ cursor' = Saturated(rec.off)
                  /\ UNCHANGED log
    /\ UNCHANGED <<base, dev, at>>

\* Read one word.
SumUp ==
    /\ pc.n = "sum"
    /\ \E f \in {File} : \E t \in {Stream(f)} : \E r \in {Open(t, f.at)} :
        LET rec == r.records[pc.i]
            words == IF Saturated(rec.size) = Far THEN Far ELSE Words(Saturated(rec.size))
        IN IF pc.w = words
           THEN IF pc.x # rec.sum THEN Answered(<<"err">>) /\ UNCHANGED cursor
                ELSE /\ Answered(<<IF pc.op[1] = "position" THEN "at" ELSE "decode", rec.off[1], rec.off[2]>>)
                     /\ cursor' = Saturated(rec.off)
           ELSE IF SatAdd(cursor, 4) > t.len
           THEN /\ Answered(<<IF Verified(t, rec) = "unknown" THEN "unknown" ELSE "err">>)
                /\ UNCHANGED cursor
           ELSE LET word == WordAt(t, cursor)
                    part == IF pc.w + 1 = words THEN Masked(word, 4 * words - Saturated(rec.size)) ELSE word
                IN /\ pc' = [pc EXCEPT !.w = @ + 1,
                                       !.x = IF rec.tag = HEAD /\ pc.w = 2 THEN @ ELSE Plus(@, part)]
                   /\ cursor' = cursor + 4
                   /\ UNCHANGED log
    /\ UNCHANGED <<base, dev, at>>

Micro == Deviate \/ Ask \/ Scan \/ SumUp

------------------------------------------------------------------------------
(* What is checked.                                                        *)

\* The answers are those of the first time, wherever the stream was (C04),
\* and the two machines agree.
Agreement ==
    Complete /\ log # <<>> => \E f \in {File} : \E t \in {Stream(f)} : \E r \in {Open(t, f.at)} :
        LET last == log[Len(log)] IN
        last[2] = Answer(t, r.records, last[1], FALSE, 0).r

\* C02: existence, absence and positions fit together.
Coherence ==
    Complete => \E f \in {File} : \E t \in {Stream(f)} : \E r \in {Open(t, f.at)} :
        r.s = "ok" => \A k \in Kinds : \A lax \in BOOLEAN :
            LET e == Answer(t, r.records, <<"exists", k>>, lax, 7)
                p == Answer(t, r.records, <<"position", k>>, lax, 7)
                d == Answer(t, r.records, <<"take", k>>, lax, 7)
            IN /\ e.r[1] = "no" <=> p.r[1] = "absent"
               /\ p.r[1] = "absent" <=> d.r[1] = "absent"
               /\ p.r[1] = "absent" => p.c = 7 /\ d.c = 7
               /\ e.c = 7
               /\ p.r[1] = "at" => \E i \in 1..Len(r.records) :
                    /\ r.records[i].tag = KindTags[k]
                    /\ \A j \in 1..(i - 1) : r.records[j].tag # KindTags[k]
                    /\ r.records[i].off = <<p.r[2], p.r[3]>>
                    /\ lax \/ Verified(t, r.records[i]) = "yes"
               /\ p.r[1] = "at" <=> d.r[1] = "decode"
               \* C03, C26: ignoring checksums only turns errors into answers.
               /\ ~lax /\ p.r[1] \in {"at", "absent"} =>
                    Answer(t, r.records, <<"position", k>>, TRUE, 7) = p

\* C03: a flipped bit in a table is noticed, in a byte that counts.
Sensitivity ==
    Complete => \E f \in {File} : \E t \in {Stream(f)} : \E r \in {Open(t, f.at)} :
        r.s = "ok" => \A i \in 1..Len(r.records) :
            LET rec == r.records[i]
                off == Saturated(rec.off)
                size == Saturated(rec.size)
            IN Verified(t, rec) = "yes" =>
               \A p \in off..(off + Align(size) - 1) :
                  LET u == Poke(t, p, (At(t, p) + 1) % 256) IN
                  (Verified(u, rec) = "yes") <=> (p >= off + size \/ (rec.tag = HEAD /\ (p - off) \div 4 = 2))

------------------------------------------------------------------------------
(* For the harness: the stream, where the font starts, what opening gives, *)
(* a walk over the operations that performs every two of them one after    *)
(* the other, with the answers of both builds, and what the own kinds      *)
(* decode to at the positions where they are asked for.                    *)

Pairs(ops) ==
    Concat([i \in 1..Len(ops) |-> Concat([j \in 1..Len(ops) |-> <<ops[i], ops[j]>>])])

Walked(t, records, ops) ==
    FoldLeft(LAMBDA x, op :
                LET s == Answer(t, records, op, FALSE, x.c)
                    l == Answer(t, records, op, TRUE, x.l)
                IN [c |-> s.c, l |-> l.c, o |-> Append(x.o, <<op[1], op[2], s.r, s.c, l.r, l.c>>)],
             [c |-> Anywhere, l |-> Anywhere, o |-> <<>>], ops).o

Decodes(t, records) ==
    LET wanted == {k \in Own : Deciding(records, k) > 0}
        one(k) == LET rec == records[Deciding(records, k)]
                      p == Saturated(rec.off)
                      r == Parse(k, t, p, <<>>, Strict)
                  IN <<k, rec.off[1], rec.off[2], r.s, r.o>>
    IN SetToSeq({one(k) : k \in wanted})

FontLine(f, t, r, ops) ==
    CSVWrite("%1$s", << <<"font", f.b, f.at, r.s,
        [i \in 1..Len(r.records) |-> <<r.records[i].tag, r.records[i].sum, r.records[i].off, r.records[i].size>>],
        Walked(t, r.records, ops), Decodes(t, r.records)>> >>, OutFile)

EmitFont ==
    Complete /\ log = <<>> => \E f \in {File} : \E t \in {Stream(f)} : \E r \in {Open(t, f.at)} :
        FontLine(f, t, r, Pairs(SetToSeq(Operations(t, r.records))))

\* C03: files in which one byte, one bit of a checksum, or a size and its checksum is different.
Replaced(f, p, b) == [f EXCEPT !.b = [i \in 1..Len(f.b) |->
                          IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE f.b[i]]]
Half(x) == Bytes16(x[1]) \o Bytes16(x[2])
BitOf(n) == IF n < 16 THEN <<0, 2 ^ n>> ELSE <<2 ^ (n - 16), 0>>

EmitSums ==
    Complete /\ log = <<>> => \E f \in {File} : \E t \in {Stream(f)} : \E r \in {Open(t, f.at)} :
        r.s = "ok" => \A i \in 1..Len(r.records) :
            LET rec == r.records[i]
                off == Saturated(rec.off)
                size == Saturated(rec.size)
                place == f.at + 12 + 16 * (i - 1)
                tell(g) == \E u \in {Stream(g)} : \E s \in {Open(u, g.at)} :
                    FontLine(g, u, s, Concat([k \in 1..Len(SetToSeq(Asked(s.records))) |->
                        LET kind == SetToSeq(Asked(s.records))[k] IN <<<<"position", kind>>, <<"take", kind>>>>]))
            IN /\ \A p \in off..(off + Align(size) - 1), d \in {1, 128} :
                    tell(Replaced(f, p, <<(f.b[p + 1] + d) % 256>>))
               /\ \A n \in 0..31 : tell(Replaced(f, place + 4, Half(Plus(rec.sum, BitOf(n)))))
               /\ \A n \in 0..(size + 6) : off + Align(n) <= t.len =>
                    /\ tell(Replaced(f, place + 12, Half(<<0, n>>)))
                    /\ tell(Replaced(Replaced(f, place + 12, Half(<<0, n>>)), place + 4,
                                     Half(Sum(t, off, n, rec.tag = HEAD))))
                    /\ tell(Replaced(Replaced(f, place + 12, Half(<<0, n>>)), place + 4,
                                     Half(Sum(t, off, n, rec.tag # HEAD))))

\* C01: for going through all four-byte tags.
EmitSignatures ==
    (base = "A" /\ at = 0 /\ dev = <<>>) =>
        LET s == SetToSeq(Signatures \cup {<<116, 116, 99, 102>>}) IN
        CSVWrite("%1$s", << <<"sweep", "signatures", s, s>> >>, OutFile)
=============================================================================
