--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* A walk through the instances of the formats.                            *)
(*                                                                         *)
(* A state is a root structure and a set of deviations from its default    *)
(* instance; a step adds one deviation. Every state is a complete instance *)
(* w, on which the invariants below compare what was meant (Writer) with   *)
(* what decoding it means (Reader), and which Emit hands to the            *)
(* conformance harness together with the outcome that the real code has to *)
(* produce.                                                                *)
(***************************************************************************)
EXTENDS Roots, FiniteSets, CSV

CONSTANTS RootSet,   \* names of roots
          K,         \* how many deviations
          Parts,     \* the instances are divided among this many runs of TLC,
          Part,      \* of which this is number Part (from zero)
          Seed,      \* of the random mutations
          Mutants,   \* how many mutations of each instance
          Samples,   \* how many random instances of each root
          OutFile    \* where the cases go

\* Whether the first choice is that of the format of the root (it is free).
Formatted(r) ==
    LET d == Types[RootTable[r].ty] IN
    IF d.k = "arg" THEN Types[SelectSeq(d.cases, LAMBDA c : c[1] = RootTable[r].a)[1][2]].k = "disp"
    ELSE d.k = "disp" /\ r # "GlyphDefinition"

Instance_(r, dev) == Write(RootTable[r].ty, RootArgs(r), dev, RootTable[r].deep)

VARIABLES root,      \* the structure
          dev,       \* choice |-> alternative
          at         \* the choice that is about to deviate, or zero

vars == <<root, dev, at>>

Free == IF Formatted(root) THEN {1} ELSE {}
Used == Cardinality(DOMAIN dev \ Free)
Complete == at = 0

Arities(d) == Instance_(root, d).ar

\* Spreads the instances over the parts.
Slot(i, first) == 37 * i + 11 * first + 5 * RootTable[root].a + 3 * RootTable[root].deep

Init ==
    /\ root \in RootSet
    /\ \E ar \in {Arities(<<>>)} :
       \E first \in 0..(IF Formatted(root) THEN ar[1] - 1 ELSE 0) :
            /\ dev = IF first = 0 THEN <<>> ELSE 1 :> first
            /\ at \in {i \in {0} \cup 1..Len(Arities(dev)) :
                        /\ K > 0 \/ i = 0
                        /\ i \notin Free
                        /\ Slot(i, first) % Parts = Part}

\* Random instances instead of deviations from the default one.
Scatter ==
    /\ root \in RootSet
    /\ \E n \in {m \in 1..Samples : (m + RootTable[root].a) % Parts = Part} :
         dev = (0 :> 2 * ((Seed % 1000) * 17 + n) + (IF n % 4 = 0 THEN 1 ELSE 0))
    /\ at = 0

Stop == FALSE /\ UNCHANGED vars

\* All instances with up to K deviations.
Next ==
    /\ ~Complete
    /\ \E ar \in {Arities(dev)} : at <= Len(ar) /\ \E a \in 1..(ar[at] - 1) : dev' = (at :> a) @@ dev
    /\ \/ at' = 0
       \/ Used + 1 < K /\ at' \in (at + 1)..Len(Arities(dev'))
    /\ UNCHANGED root

------------------------------------------------------------------------------
Ty == RootTable[root].ty
Tape(w) == MkTape(w.b, w.gat, w.gap, 0)
Result(t, pos, cfg) == Parse(Ty, t, pos, RootArgs(root), cfg)

Relevant == RelevantFor(root)
Results(t) == ResultsFor(root, t)

\* What was written is what is read, and what must be rejected is rejected.
RoundTrips(w, rs) ==
    ~w.unk => \A c \in 1..Len(rs) :
        rs[c].s = "big" \/ rs[c] = IF w.bad THEN [s |-> "err", o |-> <<>>] ELSE [s |-> "ok", o |-> w.o]
RoundTrip == Complete => \E w \in {Instance_(root, dev)} : RoundTrips(w, Results(Tape(w)))

\* A prefix decodes to the same value or not at all (C07).
Truncation ==
    Complete => \E w \in {Instance_(root, dev)} : \E t \in {Tape(w)} :
    \A c \in Relevant :
        \E full \in {Result(t, 0, Configs[c])} :
        \A n \in 0..(Len(w.b) - 1) :
            \E r \in {Result(Cut(t, IF n > w.gat THEN n + w.gap ELSE n), 0, Configs[c])} :
                r.s # "err" => r = full

\* Neither the bytes in front nor those behind matter (C08).
Relocation ==
    Complete => \E w \in {Instance_(root, dev)} : \E t \in {Tape(w)} :
    \E full \in {Result(t, 0, Strict)} :
        /\ \A n \in {1, 2, 5} :
            Result(Prefixed(t, [i \in 1..n |-> 255]), n, Strict) = full
        /\ full.s = "ok" => \A n \in {1, 9} : Result(Suffixed(t, [i \in 1..n |-> 255]), 0, Strict) = full

\* A word that must have certain values has one of them (C25).
Legal(site, v) ==
    IF site.how = "in" THEN \E i \in 1..Len(site.v) : site.v[i] = v ELSE ~Meets(v, site.v[1])
Suspects == {0, 1, 2, 3, 4, 5, 10, 32, 256, 32768, 32769, 65535}
Discrimination ==
    Complete => \E w \in {Instance_(root, dev)} : \E t \in {Tape(w)} :
    ~w.unk /\ ~w.bad =>
        \A i \in 1..Len(w.sites) : \A v \in Suspects :
            ~Legal(w.sites[i], v) =>
                \A c \in Relevant : Result(PokeU16(t, w.sites[i].at, v), 0, Configs[c]).s = "err"

\* Tolerance only makes a difference where something is incomplete, and a
\* tolerant build accepts all that a strict one does, with the same value (C26).
Isolation ==
    Complete => \E w \in {Instance_(root, dev)} : \E t \in {Tape(w)} :
    \E strict \in {Result(t, 0, Strict)} :
    \A c \in 2..4 : \E r \in {Result(t, 0, Configs[c])} :
        /\ ~w.unk \/ c \notin Relevant \cup {4} \/ Relevant = {1} => r = strict
        /\ strict.s = "ok" => r.s = "ok"

------------------------------------------------------------------------------
(* Cases for the harness: root, bytes, gap, outcomes; and then             *)
(*   case    nothing                                                       *)
(*   sites   the sites                                                     *)
(*   cuts    the lengths of the prefixes that decode                       *)

Line(kind, w, rs, more) ==
    CSVWrite("%1$s", << <<kind, root, w.b, w.gat, w.gap, Outcomes(rs), more>> >>, OutFile)

Emit ==
    Complete => \E w \in {Instance_(root, dev)} : \E rs \in {Results(Tape(w))} :
                /\ RoundTrips(w, rs)
                /\ Line("case", w, rs, <<>>)

EmitSites ==
    Complete => \E w \in {Instance_(root, dev)} :
                w.unk \/ w.bad \/ Line("sites", w, Results(Tape(w)),
                    [i \in 1..Len(w.sites) |-> <<w.sites[i].at, w.sites[i].how, w.sites[i].v>>])

EmitCuts ==
    Complete => \E w \in {Instance_(root, dev)} : \E t \in {Tape(w)} :
                LET lens == SelectSeq([n \in 1..Len(w.b) |-> n - 1],
                        LAMBDA n : Result(Cut(t, IF n > w.gat THEN n + w.gap ELSE n), 0, Strict).s = "ok")
                IN Line("cuts", w, Results(t), lens)

------------------------------------------------------------------------------
(* Mutations: arbitrary damage, of which the reader tells the meaning.     *)

Rand(s) == (s * 1103 + 12347) % 1000003
RECURSIVE Rands(_, _)
Rands(s, n) == IF n = 0 THEN <<>> ELSE <<Rand(s)>> \o Rands(Rand(s), n - 1)

Base(w) == ((Seed % 100000) * 7919 + (Len(w.b) % 10000) * 104729 + FoldLeft(LAMBDA x, y : (x * 31 + y) % 1000003, 7, w.b)) % 1000003

Weird(r, n) ==
    LET vs == <<0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 127, 128, 255, 256, 257, 32767, 32768, 32769,
                65534, 65535, n, n + 1>>
    IN vs[(r % Len(vs)) + 1]

PokeAt(b, p, v) == [b EXCEPT ![p] = v]
Poke2At(b, p, v) == [b EXCEPT ![p] = v \div 256, ![p + 1] = v % 256]

\* b is not empty.
Mutate(b, r) ==
    LET n == Len(b)
        p == (r[2] % n) + 1
        even == 2 * ((r[2] % n) \div 2) + 1
        m == r[1] % 10
    IN CASE m = 0 -> PokeAt(b, p, r[3] % 256)
         [] m \in {1, 2} /\ even < n -> Poke2At(b, even, Weird(r[3], n))
         [] m \in {3, 4, 5} /\ even < n -> Poke2At(b, even, r[3] % (n + 3))
         [] m = 6 -> SubSeq(b, 1, p - 1)
         [] m = 7 -> SubSeq(b, 1, p - 1) \o SubSeq(b, p + 2, n)
         [] m = 8 -> SubSeq(b, 1, p - 1) \o <<r[3] % 4, r[4] % 256>> \o SubSeq(b, p, n)
         [] m = 9 -> [i \in 1..n |-> IF i < p THEN b[i] ELSE IF i % 2 = 1 THEN 0 ELSE b[i] % 8]
         [] OTHER -> PokeAt(b, p, (b[p] + 1) % 256)

Mutant(b, r) ==
    LET one == Mutate(b, r) IN
    IF r[5] % 3 = 0 /\ one # <<>> THEN Mutate(one, SubSeq(r, 5, 9)) ELSE one

EmitMutants ==
    Complete => \E w \in {Instance_(root, dev)} : w.gap > 0 \/ w.b = <<>> \/ Len(w.b) > 5000 \/
        \E base \in {Base(w)} : \A j \in 1..Mutants :
            \E b \in {Mutant(w.b, Rands((base + j * 65537) % 1000003, 9))} :
            \E rs \in {Results(Plain(b))} :
                Line("case", [b |-> b, gat |-> Len(b), gap |-> 0], rs, <<>>)
=============================================================================
