------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* What decoding a structure means, as a function of the stream.           *)
(*                                                                         *)
(* Parse(ty, t, pos, args, cfg) is the outcome of decoding type ty of      *)
(* Formats from tape t at position pos, with parameters args, in a build   *)
(* with configuration cfg:                                                 *)
(*                                                                         *)
(*     s   "ok", "err", or "big" (the data describes more than Limit       *)
(*         numbers; no claim is made)                                      *)
(*     o   the decoded value, as the flat sequence of numbers that the     *)
(*         harness derives from the public fields and methods of the       *)
(*         decoded Rust value: fields in order of declaration; 32-bit      *)
(*         quantities as two 16-bit halves; enumerations start with the    *)
(*         number of their variant; vectors start with their length;       *)
(*         options start with 0 or 1; booleans are 0 or 1                  *)
(*                                                                         *)
(* cfg = [dirs, marks]: the builds that tolerate incomplete directories    *)
(* and incomplete marks.                                                   *)
(***************************************************************************)
EXTENDS Formats, Tape, SequencesExt

Limit == 20000

Strict == [dirs |-> FALSE, marks |-> FALSE]
Configs == <<Strict, [dirs |-> TRUE, marks |-> FALSE],
             [dirs |-> FALSE, marks |-> TRUE], [dirs |-> TRUE, marks |-> TRUE]>>

------------------------------------------------------------------------------
(* Scalars.                                                                *)

Width(s) == CASE s = "u8" -> 1 [] s = "u16" -> 2 [] s = "i16" -> 2 [] s = "u32" -> 4

\* The projection of c consecutive scalars at p.
Out(s, t, p, c) ==
    CASE s = "u8"  -> [i \in 1..c |-> At(t, p + i - 1)]
      [] s = "u16" -> [i \in 1..c |-> U16(t, p + 2 * (i - 1))]
      [] s = "i16" -> [i \in 1..c |-> I16(t, p + 2 * (i - 1))]
      [] s = "u32" -> [i \in 1..(2 * c) |-> U16(t, p + 2 * (i - 1))]

\* The number itself, saturated.
Val(s, t, p) ==
    CASE s = "u8"  -> At(t, p)
      [] s = "u16" -> U16(t, p)
      [] s = "i16" -> I16(t, p)
      [] s = "u32" -> U32(t, p)

HasBit(v, bit) == (v \div bit) % 2 = 1

\* Whether v has bits in common with mask (both below 2^16).
RECURSIVE Meets(_, _)
Meets(v, mask) ==
    IF v = 0 \/ mask = 0 THEN FALSE
    ELSE (v % 2 = 1 /\ mask % 2 = 1) \/ Meets(v \div 2, mask \div 2)

------------------------------------------------------------------------------
(* Environments: what the fields read so far are worth.                    *)

Get(env, n) == IF n \in DOMAIN env THEN env[n] ELSE 0

Args(env, args) ==
    IF args = <<>> THEN <<>>
    ELSE [n \in {args[i][1] : i \in 1..Len(args)} |->
             LET i == CHOOSE i \in 1..Len(args) : args[i][1] = n IN Get(env, args[i][2])]

------------------------------------------------------------------------------
(* Lookups by tag: for every header, the tag itself and three near misses; *)
(* then four fixed tags. The answer is the number of the record found, or  *)
(* zero.                                                                   *)

\* DFLT, latn, four spaces, zero
FixedTags == << <<17478, 19540>>, <<27745, 29806>>, <<8224, 8224>>, <<0, 0>> >>

FlipBit(v, bit) == IF HasBit(v, bit) THEN v - bit ELSE v + bit

Probes(tags) ==
    Concat([i \in 1..Len(tags) |->
        LET g == tags[i] IN
        << g, <<g[1], FlipBit(g[2], 1)>>, <<FlipBit(g[1], 8192), g[2]>>, <<g[2], g[1]>> >>])
    \o FixedTags

FindTag(tags, g) ==
    LET found == {i \in 1..Len(tags) : tags[i] = g} IN
    IF found = {} THEN 0 ELSE CHOOSE i \in found : \A j \in found : i <= j

\* What tolerant builds substitute for an absent structure.
Absent(ty) ==
    CASE ty = "Anchor" -> <<1, 0, 0, 0>>
      [] ty = "SubLookups" -> <<0, 0, 0>>
      [] ty = "PosLookups" -> <<0, 0, 0>>
      [] ty \in {"Scripts", "Features"} -> <<0, 0, 0>> \o [i \in 1..Len(FixedTags) |-> 0]

------------------------------------------------------------------------------
(* st is the state of decoding one structure: status s, cursor p, output   *)
(* o, environment e.                                                       *)

Failed(st) == [st EXCEPT !.s = "err"]

Advance(st, p, out, n, v) ==
    [st EXCEPT !.p = p, !.o = @ \o out, !.e = (n :> v) @@ @]

\* c scalars in a row, and their values under name n (only offsets are ever
\* looked at again).
TakeMany(st, t, n, s, c, groups, keep) ==
    LET end == SatAdd(st.p, SatMul(c, Width(s))) IN
    IF c > 0 /\ end > t.len THEN Failed(st)
    ELSE Advance(st, end, <<groups>> \o Out(s, t, st.p, c), n,
              IF keep THEN [i \in 1..c |-> Val(s, t, st.p + (i - 1) * Width(s))] ELSE <<>>)

TakeOne(st, t, n, s) ==
    IF st.p + Width(s) > t.len THEN Failed(st)
    ELSE Advance(st, st.p + Width(s), Out(s, t, st.p, 1), n, Val(s, t, st.p))

\* Step(x, i) for i = 0, ..., c - 1, for as long as nothing goes wrong.
Times(c, x, Step(_, _)) ==
    FoldLeft(LAMBDA y, i : IF y.s # "ok" THEN y ELSE Step(y, i - 1), x, [i \in 1..c |-> i])

\* The number of 16-bit words that hold the deltas of a device table.
DeviceWords(start, end, format) ==
    LET bits == (end - start + 1) * (CASE format = 1 -> 2 [] format = 2 -> 4 [] format = 3 -> 8)
    IN (bits + 15) \div 16

\* One field. P is the function that decodes structures (see ParseF).
ParseField(P, f, t, base, cfg, st) ==
    LET e == st.e
        \* Include the outcome r of a part found elsewhere (the cursor stays).
        Include(x, pre, r) ==
            IF r.s # "ok" THEN [x EXCEPT !.s = r.s] ELSE [x EXCEPT !.o = @ \o pre \o r.o]
        \* Include the outcome r of a part in place.
        Inline(x, pre, r) ==
            IF r.s # "ok" THEN [x EXCEPT !.s = r.s] ELSE [x EXCEPT !.p = r.p, !.o = @ \o pre \o r.o]
        Bounded(x) == IF x.s = "ok" /\ Len(x.o) > Limit THEN [x EXCEPT !.s = "big"] ELSE x
        \* c parts in place.
        Repeat(x, ty, args, c) ==
            Times(c, x, LAMBDA y, i : Bounded(Inline(y, <<>>, P[<<ty, t, y.p, base, args, cfg>>])))
        Follow(x, ty, args, null, off) ==
            IF off = 0 /\ null = "opt" THEN [x EXCEPT !.o = Append(@, 0)]
            ELSE IF off = 0 /\ ((null = "dirs" /\ cfg.dirs) \/ (null = "marks" /\ cfg.marks))
            THEN [x EXCEPT !.o = @ \o Absent(ty)]
            ELSE LET p == SatAdd(base, off) IN
                 Bounded(Include(x, IF null = "opt" THEN <<1>> ELSE <<>>,
                                 P[<<ty, t, p, p, args, cfg>>]))
    IN
    CASE f.k = "s" -> TakeOne(st, t, f.n, f.s)

      [] f.k = "const" ->
            LET r == TakeOne(st, t, f.n, "u16") IN
            IF r.s = "ok" /\ r.e[f.n] # f.v THEN Failed(st) ELSE r

      [] f.k = "flags" ->
            LET r == TakeOne(st, t, f.n, "u16") IN
            IF r.s # "ok" THEN r
            ELSE LET v == r.e[f.n] IN
                 IF Meets(v, f.mask) THEN Failed(st)
                 ELSE [r EXCEPT !.o = @ \o [i \in 1..Len(f.bits) |-> IF HasBit(v, f.bits[i]) THEN 1 ELSE 0]]

      [] f.k = "bit" ->
            IF HasBit(Get(e, f.src), f.bit)
            THEN LET r == TakeOne(st, t, f.n, f.s) IN
                 IF r.s # "ok" THEN r
                 ELSE [r EXCEPT !.o = st.o \o <<1>> \o Out(f.s, t, st.p, 1)]
            ELSE Advance(st, st.p, <<0>>, f.n, 0)

      [] f.k = "vec" ->
            LET c == Get(e, f.c) IN
            IF c < f.sub THEN Failed(st)
            ELSE TakeMany(st, t, f.n, f.s, (c - f.sub) * f.mul, c - f.sub, f.h # "v")

      [] f.k = "hdrs" ->
            LET c == Get(e, f.c)
                r == TakeMany(st, t, f.n, "u16", 3 * c, c, TRUE)
            IN IF r.s # "ok" THEN r
               ELSE LET v == r.e[f.n] IN
                    [r EXCEPT !.e = (f.n :> [i \in 1..c |-> v[3 * i]])
                                    @@ (f.n \o "#" :> [i \in 1..c |-> <<v[3 * i - 2], v[3 * i - 1]>>]) @@ @]

      [] f.k = "str" ->
            LET r == P[<<f.ty, t, st.p, base, Args(e, f.args), cfg>>] IN
            IF r.s # "ok" THEN [st EXCEPT !.s = r.s]
            ELSE [st EXCEPT !.p = r.p, !.o = @ \o r.o, !.e = r.e @@ @]

      [] f.k = "ostr" ->
            IF Get(e, f.cond) = 0 THEN [st EXCEPT !.o = Append(@, 0)]
            ELSE Inline(st, <<1>>, P[<<f.ty, t, st.p, base, Args(e, f.args), cfg>>])

      [] f.k = "strs" ->
            Repeat([st EXCEPT !.o = Append(@, Get(e, f.c))], f.ty, Args(e, f.args), Get(e, f.c))

      [] f.k = "ptr" -> Follow(st, f.ty, Args(e, f.args), f.null, Get(e, f.o))

      [] f.k = "ptrs" ->
            LET offs == Get(e, f.o)
                args == Args(e, f.args)
            IN FoldLeft(LAMBDA x, off : IF x.s # "ok" THEN x ELSE Follow(x, f.ty, args, f.null, off),
                        [st EXCEPT !.o = Append(@, Len(offs))], offs)

      [] f.k = "gets" ->
            LET tags == Get(e, f.o \o "#")
                probes == Probes(tags)
            IN [st EXCEPT !.o = @ \o [i \in 1..Len(probes) |-> FindTag(tags, probes[i])]]

      [] f.k = "pres" -> [st EXCEPT !.o = Append(@, IF Get(e, f.o) > 0 THEN 1 ELSE 0)]

      [] f.k = "dirversion" -> IF Get(e, "minor") \in {0, 1} THEN st ELSE Failed(st)

      [] f.k = "minoroff" ->
            IF Get(e, "minor") = 1 THEN TakeOne(st, t, f.n, "u32")
            ELSE Advance(st, st.p, <<0, 0>>, f.n, 0)

      [] f.k = "devorder" -> IF Get(e, "start") > Get(e, "end") THEN Failed(st) ELSE st

      [] f.k = "devwords" ->
            LET c == DeviceWords(Get(e, "start"), Get(e, "end"), Get(e, "format")) IN
            TakeMany(st, t, f.n, "u16", c, c, FALSE)

      [] f.k = "deltas" ->
            LET c == SatMul(Get(e, "items"), Get(e, "shorts") + Get(e, "regions")) IN
            TakeMany(st, t, f.n, "u8", c, c, FALSE)

      [] f.k = "axes" ->
            LET c == Get(e, "n_axes")
                Axis_(x, i) ==
                    LET p == SatAdd(SatAdd(base, Get(e, "axes_o")), SatMul(i, Get(e, "axis_size")))
                    IN Bounded(Include(x, <<>>, P[<<"Axis", t, p, p, <<>>, cfg>>]))
            IN Times(c, [st EXCEPT !.o = Append(@, c)], Axis_)

      [] f.k = "instances" ->
            LET c == Get(e, "n_instances")
                from == SatAdd(SatAdd(base, Get(e, "axes_o")),
                               SatMul(Get(e, "n_axes"), Get(e, "axis_size")))
                args == Args(e, << <<"n_axes", "n_axes">>, <<"instance_size", "instance_size">> >>)
                Instance_(x, i) ==
                    LET p == SatAdd(from, SatMul(i, Get(e, "instance_size")))
                    IN Bounded(Include(x, <<>>, P[<<"Instance", t, p, p, args, cfg>>]))
            IN Times(c, [st EXCEPT !.o = Append(@, c)], Instance_)

      [] f.k = "psname" ->
            IF Get(e, "instance_size") >= 4 * Get(e, "n_axes") + 6
            THEN TakeOne(st, t, f.n, "u16")
            ELSE Advance(st, st.p, <<65535>>, f.n, 0)

      [] f.k = "palettesfit" ->
            LET indices == Get(e, "indices")
                n == Get(e, "n_entries")
            IN IF n > 0 /\ \E i \in 1..Len(indices) : indices[i] + n > Get(e, "n_colors")
               THEN Failed(st) ELSE st

      [] f.k = "palettes" ->
            \* The colors are decoded again only to name them.
            LET indices == Get(e, "indices")
                n == Get(e, "n_entries")
                at == SatAdd(base, Get(e, "colors_o"))
            IN FoldLeft(LAMBDA x, first :
                            IF x.s # "ok" THEN x
                            ELSE Bounded([x EXCEPT !.o = @ \o <<n>> \o Out("u8", t, at + 4 * first, 4 * n)]),
                        [st EXCEPT !.o = Append(@, Len(indices))], indices)

\* A function rather than a recursive operator, because TLC evaluates its body
\* outside of the scopes of the callers, of which there can be many.
ParseF[a_ \in Any] ==
    LET ty == a_[1]
        t == a_[2]
        pos == a_[3]
        base == a_[4]
        args == a_[5]
        cfg == a_[6]
        d == Types[ty]
    IN
    CASE d.k = "rec" ->
            FoldLeft(LAMBDA st, f : IF st.s # "ok" THEN st
                                    ELSE ParseField(ParseF, f, t, IF d.own THEN pos ELSE base, cfg, st),
                     [s |-> "ok", p |-> pos, o |-> <<>>, e |-> args], d.fs)
      [] d.k = "disp" ->
            IF pos + d.at + 2 > t.len THEN [s |-> "err", p |-> pos, o |-> <<>>, e |-> <<>>]
            ELSE LET v == U16(t, pos + d.at)
                     hits == SelectSeq(d.cases, LAMBDA c : c[1] = v)
                 IN IF hits = <<>> THEN [s |-> "err", p |-> pos, o |-> <<>>, e |-> <<>>]
                    ELSE LET r == ParseF[<<hits[1][2], t, pos, base, args, cfg>>] IN
                         [r EXCEPT !.o = <<hits[1][3]>> \o @]
      [] d.k = "arg" ->
            LET hits == SelectSeq(d.cases, LAMBDA c : c[1] = Get(args, "ty")) IN
            IF hits = <<>> THEN [s |-> "err", p |-> pos, o |-> <<>>, e |-> <<>>]
            ELSE LET r == ParseF[<<hits[1][2], t, pos, base, <<>>, cfg>>] IN
                 [r EXCEPT !.o = <<hits[1][3]>> \o @]

\* Failures carry no value.
Parse(ty, t, pos, args, cfg) ==
    LET r == ParseF[<<ty, t, pos, pos, args, cfg>>] IN
    [s |-> r.s, o |-> IF r.s = "ok" THEN r.o ELSE <<>>]
=============================================================================
