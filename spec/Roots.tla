-------------------------------- MODULE Roots --------------------------------
(***************************************************************************)
(* The structures that are decoded on their own, by name, and the outcomes *)
(* of decoding one in the different builds of the crate.                   *)
(***************************************************************************)
EXTENDS Writer

\* name |-> type, parameter, how deep lists are long by default
RootTable ==
    [n \in {"Coverage", "Class", "Correction", "Context", "ChainedContext", "Scripts", "Features",
            "SubLookups", "PosLookups", "GlyphDefinition", "Store", "FontVariations",
            "ColorPalettes"} |-> [ty |-> n, a |-> 0, deep |-> 3]]
    @@ [n \in {"GlyphSubstitution", "GlyphPositioning"} |-> [ty |-> n, a |-> 0, deep |-> 1]]
    @@ [n \in {"SubLookups", "PosLookups"} |-> [ty |-> n, a |-> 0, deep |-> 2]]
    @@ ("Sub1" :> [ty |-> "SubType", a |-> 1, deep |-> 3])
    @@ ("Sub2" :> [ty |-> "SubType", a |-> 2, deep |-> 3])
    @@ ("Sub3" :> [ty |-> "SubType", a |-> 3, deep |-> 3])
    @@ ("Sub4" :> [ty |-> "SubType", a |-> 4, deep |-> 3])
    @@ ("Sub5" :> [ty |-> "SubType", a |-> 5, deep |-> 2])
    @@ ("Sub6" :> [ty |-> "SubType", a |-> 6, deep |-> 2])
    @@ ("Sub7" :> [ty |-> "SubType", a |-> 7, deep |-> 3])
    @@ ("Sub8" :> [ty |-> "SubType", a |-> 8, deep |-> 3])
    @@ ("Pos1" :> [ty |-> "PosType", a |-> 1, deep |-> 3])
    @@ ("Pos2" :> [ty |-> "PosType", a |-> 2, deep |-> 3])
    @@ ("Pos3" :> [ty |-> "PosType", a |-> 3, deep |-> 3])
    @@ ("Pos4" :> [ty |-> "PosType", a |-> 4, deep |-> 3])
    @@ ("Pos5" :> [ty |-> "PosType", a |-> 5, deep |-> 3])
    @@ ("Pos6" :> [ty |-> "PosType", a |-> 6, deep |-> 3])
    @@ ("Pos7" :> [ty |-> "PosType", a |-> 7, deep |-> 2])
    @@ ("Pos8" :> [ty |-> "PosType", a |-> 8, deep |-> 2])
    @@ ("Pos9" :> [ty |-> "PosType", a |-> 9, deep |-> 3])

RootArgs(r) == IF RootTable[r].a = 0 THEN <<>> ELSE "ty" :> RootTable[r].a

Decode(root, t, cfg) == Parse(RootTable[root].ty, t, 0, RootArgs(root), cfg)

\* The configurations that can make a difference; the others are the strict one.
RelevantFor(root) ==
    IF root \in {"GlyphPositioning"} THEN {1, 2, 3, 4}
    ELSE IF root = "GlyphSubstitution" THEN {1, 2}
    ELSE IF root \in {"PosLookups", "Pos4", "Pos5", "Pos6"} THEN {1, 3}
    ELSE {1}

\* The outcomes in all configurations, or just one when they agree.
ResultsFor(root, t) ==
    LET relevant == RelevantFor(root)
        strict == Decode(root, t, Strict)
        all == [c \in 1..4 |-> IF c \in relevant /\ c > 1 THEN Decode(root, t, Configs[c])
                               ELSE IF c = 4 /\ 2 \in relevant THEN Decode(root, t, Configs[2])
                               ELSE IF c = 4 /\ 3 \in relevant THEN Decode(root, t, Configs[3])
                               ELSE strict]
    IN IF \A c \in 2..4 : all[c] = strict THEN <<strict>> ELSE all

Outcome(r) == <<r.s, r.o>>
Outcomes(rs) == [c \in 1..Len(rs) |-> Outcome(rs[c])]
=============================================================================
