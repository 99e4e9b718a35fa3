-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* What given data mean. The data come from outside (the tables of real    *)
(* fonts), or are the large ones below, whose counts and offsets are at    *)
(* the limits of their types.                                              *)
(***************************************************************************)
EXTENDS Roots, Json, CSV

CONSTANTS Source,    \* a file with one JSON object per line (root, b), or ""
          Chosen,    \* the roots of the large ones
          Parts, Part, OutFile

\* Replaces Limit of Reader, which is meant for small data.
Unlimited == 3000000
Middling == 300000

------------------------------------------------------------------------------
Run(n, v) == [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN v \div 256 ELSE v % 256]
\* Numbers that differ from one another: from, from + 1, ...
Ramp(n, from) == [i \in 1..(2 * n) |->
    LET v == (from + (i - 1) \div 2) % 65536 IN IF i % 2 = 1 THEN v \div 256 ELSE v % 256]
W(v) == Bytes16(v)
C(root, b) == [root |-> root, b |-> b]
Coverage1Empty == W(1) \o W(0)

Large ==
    \* Counts beyond the signed 16-bit range.
    << C("Coverage", W(1) \o W(32768) \o Ramp(32768, 7)),
       C("Coverage", W(1) \o W(65535) \o Ramp(65535, 1)),
       C("Coverage", W(1) \o W(65535) \o Ramp(65534, 1)),
       C("Coverage", W(1) \o W(256) \o Ramp(256, 1)),
       C("Coverage", W(2) \o W(21846) \o Ramp(3 * 21846, 3)),
       C("Coverage", W(2) \o W(65535) \o Ramp(3 * 65535, 3)),
       C("Coverage", W(2) \o W(65535) \o Ramp(3 * 65535 - 1, 3)),
       C("Class", W(1) \o W(65535) \o W(65535) \o Ramp(65535, 9)),
       C("Class", W(1) \o W(9) \o W(32769) \o Ramp(32769, 9)),
       C("Class", W(2) \o W(43691) \o Ramp(3 * 43691, 9)),
       \* Devices: all sizes from 0 to 65535.
       C("Correction", W(0) \o W(65535) \o W(1) \o Ramp(8192, 5)),
       C("Correction", W(0) \o W(65535) \o W(2) \o Ramp(16384, 5)),
       C("Correction", W(0) \o W(65535) \o W(3) \o Ramp(32768, 5)),
       C("Correction", W(0) \o W(65535) \o W(3) \o Ramp(32767, 5)),
       C("Correction", W(1) \o W(65535) \o W(3) \o Ramp(32768, 5)),
       C("Correction", W(32767) \o W(32768) \o W(1) \o W(51966)),
       C("Correction", W(65535) \o W(65535) \o W(1) \o W(51966)),
       C("Correction", W(65535) \o W(0) \o W(1) \o Ramp(8192, 5)),
       \* Item variation data that announce far more than there is.
       C("Store", W(1) \o W(0) \o W(0) \o W(1) \o W(0) \o W(12)
                  \o W(65535) \o W(65535) \o W(3) \o Ramp(3, 1) \o Ramp(10, 9)),
       C("Store", W(1) \o W(0) \o W(0) \o W(1) \o W(0) \o W(12)
                  \o W(65535) \o W(0) \o W(0)),
       C("Store", W(1) \o W(0) \o W(0) \o W(1) \o W(0) \o W(12)
                  \o W(65535) \o W(0) \o W(65535) \o Ramp(65535, 1) \o Ramp(40000, 9)),
       \* Language systems and features.
       C("Scripts", W(1) \o <<100, 101, 118, 97>> \o W(8) \o W(4) \o W(0)
                    \o W(0) \o W(65535) \o W(40000) \o Ramp(40000, 11)),
       C("Features", W(1) \o <<107, 101, 114, 110>> \o W(8) \o W(65535) \o W(60000) \o Ramp(60000, 11)),
       C("Scripts", W(300) \o Concat([i \in 1..300 |-> <<100, 97, i \div 256, i % 256>> \o W(1802)]) \o W(0) \o W(0)),
       C("Features", W(9000) \o Concat([i \in 1..9000 |-> <<100, 97, i \div 256, i % 256>> \o W(54002)]) \o W(1) \o W(0)),
       \* Lookups: many of them, with many subtables.
       C("SubLookups", W(3000) \o Run(3000, 6002) \o W(1) \o W(0) \o W(0)),
       C("SubLookups", W(1) \o W(4) \o W(7) \o W(0) \o W(3000) \o Run(3000, 6006) \o W(1) \o W(1) \o W(1) \o W(2)),
       C("PosLookups", W(1) \o W(4) \o W(9) \o W(16) \o W(3000) \o Run(3000, 6008) \o W(77)
                       \o W(1) \o W(1) \o W(32768) \o W(2)),
       \* Substitutions.
       C("Sub1", W(2) \o W(6) \o W(0) \o W(1) \o W(0)),
       C("Sub1", W(2) \o W(6) \o W(32000) \o W(1) \o Ramp(31999, 1)),
       C("Sub1", W(2) \o W(60006) \o W(30000) \o Ramp(30000, 1) \o Coverage1Empty),
       C("Sub2", W(1) \o W(8) \o W(1) \o W(12) \o Coverage1Empty \o W(65535) \o Ramp(65535, 1)),
       C("Sub2", W(1) \o W(8) \o W(1) \o W(12) \o Coverage1Empty \o W(65535) \o Ramp(65534, 1)),
       C("Sub3", W(1) \o W(6) \o W(0) \o Coverage1Empty),
       C("Sub4", W(1) \o W(8) \o W(1) \o W(12) \o Coverage1Empty \o W(1) \o W(4)
                 \o W(40000) \o W(65535) \o Ramp(65534, 2)),
       C("Sub4", W(1) \o W(8) \o W(1) \o W(12) \o Coverage1Empty \o W(1) \o W(4)
                 \o W(40000) \o W(65535) \o Ramp(65533, 2)),
       C("Sub8", W(1) \o W(10) \o W(0) \o W(0) \o W(0) \o Coverage1Empty),
       C("Sub8", W(1) \o W(60010) \o W(0) \o W(0) \o W(30000) \o Ramp(30000, 2) \o Coverage1Empty),
       \* Contexts.
       C("Context", W(3) \o W(1) \o W(16384) \o W(6) \o Ramp(32768, 3)),
       C("Context", W(3) \o W(1) \o W(15000) \o W(60008) \o Ramp(30000, 3) \o Coverage1Empty),
       C("Context", W(1) \o W(8) \o W(1) \o W(12) \o Coverage1Empty \o W(1) \o W(4)
                    \o W(65535) \o W(32769) \o Ramp(65534 + 65538, 3)),
       C("ChainedContext", W(1) \o W(8) \o W(1) \o W(12) \o Coverage1Empty \o W(1) \o W(4)
                    \o W(40000) \o Ramp(40000, 3) \o W(40001) \o Ramp(40000, 5)
                    \o W(40002) \o Ramp(40002, 7) \o W(33000) \o Ramp(66000, 9)),
       \* Pairs.
       C("Pos2", W(1) \o W(12) \o W(4) \o W(0) \o W(1) \o W(16) \o Coverage1Empty
                 \o W(40000) \o Ramp(80000, 3)),
       C("Pos2", W(2) \o W(24016) \o W(4) \o W(2) \o W(24020) \o W(24020) \o W(60) \o W(100)
                 \o Ramp(12000, 1) \o Coverage1Empty \o W(1) \o W(0) \o W(0)),
       \* The coverage and the classes overlap with the records, which say 1, 2, 3, ...
       C("Pos2", W(2) \o W(16) \o W(4) \o W(0) \o W(16) \o W(16) \o W(300) \o W(400)
                 \o Ramp(120000, 1)),
       C("Pos2", W(2) \o W(16) \o W(4) \o W(0) \o W(16) \o W(16) \o W(300) \o W(400)
                 \o Ramp(119999, 1)),
       C("Pos1", W(2) \o W(60008) \o W(4) \o W(30000) \o Ramp(30000, 1) \o Coverage1Empty),
       \* Anchors: the product of counts is beyond 16 bits.
       C("Pos4", W(1) \o W(12) \o W(12) \o W(300) \o W(16) \o W(18) \o Coverage1Empty
                 \o W(0) \o W(300) \o Run(90000, 0)),
       C("Pos4", W(1) \o W(12) \o W(12) \o W(300) \o W(16) \o W(18) \o Coverage1Empty
                 \o W(0) \o W(300) \o Run(89999, 0)),
       C("Pos6", W(1) \o W(12) \o W(12) \o W(400) \o W(16) \o W(18) \o Coverage1Empty
                 \o W(0) \o W(200) \o Run(80000, 0)),
       C("Pos5", W(1) \o W(12) \o W(12) \o W(300) \o W(16) \o W(18) \o Coverage1Empty
                 \o W(0) \o W(1) \o W(4) \o W(300) \o Run(90000, 0)),
       C("Pos3", W(1) \o W(40006) \o W(10000) \o Run(20000, 0) \o Coverage1Empty),
       \* Glyph definitions: offsets of 32 bits, and many points.
       C("GlyphDefinition", W(1) \o W(2) \o Run(4, 0) \o W(14) \o W(1) \o W(1) \o W(1) \o W(4464)
                 \o Run(34996, 0) \o Coverage1Empty),
       C("GlyphDefinition", W(1) \o W(3) \o Run(5, 0) \o W(1) \o W(4464)
                 \o Run(34991, 0) \o W(1) \o W(0) \o W(0) \o W(0)),
       C("GlyphDefinition", W(1) \o W(0) \o W(0) \o W(12) \o W(0) \o W(0)
                 \o W(6) \o W(1) \o W(10) \o Coverage1Empty \o W(60000) \o Ramp(60000, 1)),
       C("GlyphDefinition", W(1) \o W(0) \o W(12) \o W(0) \o W(0) \o W(0) \o W(1) \o W(0) \o W(0)),
       \* Variation stores: the extents are beyond 16 bits in several ways.
       C("Store", W(1) \o W(0) \o W(99) \o W(1) \o W(0) \o W(12) \o W(300) \o W(300) \o W(0) \o Ramp(45000, 1)),
       C("Store", W(1) \o W(0) \o W(99) \o W(1) \o W(0) \o W(12) \o W(300) \o W(300) \o W(0) \o Ramp(44999, 1)),
       C("Store", W(1) \o W(0) \o W(99) \o W(1) \o W(0) \o W(12) \o W(2) \o W(32768) \o W(0) \o Ramp(32768, 1)),
       C("Store", W(1) \o W(0) \o W(99) \o W(1) \o W(0) \o W(12) \o W(1) \o W(65535) \o W(3) \o Ramp(3, 1)
                 \o Ramp(32769, 1)),
       C("Store", W(1) \o W(0) \o W(99) \o W(1) \o W(0) \o W(12) \o W(1) \o W(40000) \o W(30000) \o Ramp(30000, 1)
                 \o Ramp(35000, 1)),
       C("Store", W(1) \o W(0) \o W(99) \o W(1) \o W(0) \o W(12) \o W(1) \o W(40000) \o W(30000) \o Ramp(30000, 1)
                 \o Ramp(34999, 1)),
       C("Store", W(1) \o W(0) \o W(99) \o W(1) \o W(1) \o W(4464) \o Run(34994, 0) \o W(0) \o W(0) \o W(0)),
       C("Store", W(1) \o W(1) \o W(99) \o W(0)),
       \* Font variations: records far apart.
       C("FontVariations", W(1) \o W(0) \o W(16) \o W(2) \o W(2) \o W(40000) \o W(0) \o W(14)
                 \o Ramp(8, 1) \o W(0) \o W(300) \o Run(19990, 0) \o Ramp(8, 9) \o W(1) \o W(301) \o Run(19990, 0)),
       C("FontVariations", W(1) \o W(0) \o W(16) \o W(2) \o W(1) \o W(20) \o W(3) \o W(40000)
                 \o Ramp(8, 1) \o W(0) \o W(300)
                 \o Concat([j \in 1..3 |-> W(300 + j) \o W(0) \o Ramp(2, 7 * j) \o W(260 + j) \o Run(19995, 0)])),
       C("FontVariations", W(1) \o W(0) \o W(16) \o W(2) \o W(1) \o W(20) \o W(3) \o W(8)
                 \o Ramp(8, 1) \o W(0) \o W(300)
                 \o Concat([j \in 1..3 |-> W(300 + j) \o W(0) \o Ramp(2, 7 * j)])),
       C("FontVariations", W(1) \o W(0) \o W(60016) \o W(2) \o W(1) \o W(20) \o W(0) \o W(8)
                 \o Run(30000, 0) \o Ramp(8, 1) \o W(0) \o W(300)),
       \* Palettes: many colors, far away.
       C("ColorPalettes", W(0) \o W(9000) \o W(1) \o W(9000) \o W(0) \o W(14) \o W(0) \o Ramp(18000, 1)),
       C("ColorPalettes", W(0) \o W(1) \o W(2) \o W(40000) \o W(0) \o W(16) \o W(39999) \o W(0) \o Ramp(80000, 1)),
       C("ColorPalettes", W(0) \o W(2) \o W(2) \o W(40000) \o W(0) \o W(16) \o W(39999) \o W(0) \o Ramp(80000, 1)),
       C("ColorPalettes", W(0) \o W(65535) \o W(1) \o W(2) \o W(0) \o W(14) \o W(1) \o Ramp(4, 1)),
       C("ColorPalettes", W(1) \o W(1) \o W(1) \o W(1) \o W(1) \o W(4464) \o W(0) \o Run(34993, 0) \o <<1, 2, 3, 4>>),
       C("GlyphSubstitution", W(1) \o W(1) \o W(14) \o W(14) \o W(14) \o W(1) \o W(4464)
                 \o Run(34993, 0) \o W(1) \o W(0) \o W(7) \o W(9)),
       C("GlyphPositioning", W(1) \o W(1) \o W(14) \o W(14) \o W(14) \o W(1) \o W(4464)
                 \o Run(34993, 0) \o W(1) \o W(0) \o W(0) \o W(9)),
       C("GlyphPositioning", W(1) \o W(0) \o W(60000) \o W(60000) \o W(60000)
                 \o Run(29995, 0) \o W(0)) >>

------------------------------------------------------------------------------
Cases == IF Source = "" THEN SelectSeq(Large, LAMBDA c : c.root \in Chosen) ELSE ndJsonDeserialize(Source)

VARIABLE case
Init == case \in {i \in 1..Len(Cases) : i % Parts = Part}
Next == FALSE /\ case' = case

EmitCase ==
    LET c == Cases[case] IN
    \E rs \in {ResultsFor(c.root, Plain(c.b))} :
        CSVWrite("%1$s", << <<"case", c.root, c.b, Len(c.b), 0, Outcomes(rs), <<>>>> >>, OutFile)
=============================================================================
