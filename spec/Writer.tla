------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Instances of the structures of Formats, together with the value they    *)
(* are meant to have.                                                      *)
(*                                                                         *)
(* Write(ty, args, dev, deep) lays out one instance of ty. Wherever there  *)
(* is a choice (a number, a count, a format, a flag word, whether an       *)
(* offset is zero, shared or dangling, in which order and how far away the *)
(* parts are placed), the choice is numbered in order of occurrence and    *)
(* alternative dev[i] is taken at choice i, alternative 0 where dev is     *)
(* silent. The result tells how many alternatives each choice had, so that *)
(* a state machine (Gen.tla) can walk through all instances that deviate   *)
(* from the default one in up to k choices.                                *)
(*                                                                         *)
(*     b, gat, gap   the bytes and the run of filler in them (Tape)        *)
(*     o             the intended value                                    *)
(*     bad           whether something that must be rejected was written   *)
(*     unk           whether the intention is open (null or dangling       *)
(*                   offsets where one is required, overlapping slots);    *)
(*                   the meaning is then only what the reader says         *)
(*     sites         positions of 16-bit words of which only certain       *)
(*                   values are legal, and which                           *)
(*     ar            the number of alternatives of each choice             *)
(***************************************************************************)
EXTENDS Reader

CONSTANT Scalars,   \* how many alternatives plain numbers have (0 to 7)
         CountMode  \* which alternatives counts have

Counts ==
    CASE CountMode = 0 -> <<>>
      [] CountMode = 1 -> <<0, 1, 3, 5>>
      [] CountMode = 2 -> <<0, 3>>
      [] CountMode = 3 -> <<130, 257>>
      [] CountMode = 4 -> <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33>>

Bytes16(v) == <<v \div 256, v % 256>>
Halves(vs) == [i \in 1..(2 * Len(vs)) |->
                  IF i % 2 = 1 THEN vs[(i + 1) \div 2] \div 256 ELSE vs[i \div 2] % 256]

------------------------------------------------------------------------------
(* g: the choices made so far.                                             *)

Start == [i |-> 1, ar |-> <<>>, u |-> 1, dc |-> 0, bad |-> FALSE, unk |-> FALSE, gapped |-> FALSE]

\* With dev[0], everything that dev does not settle is scattered: taken at
\* random, with dev[0] as the seed. Odd seeds are wild, and now and then take
\* one of the alternatives that make an instance invalid; even ones stick to
\* the first so many alternatives, which are safe, as far as that is known.
Scattered(dev) == 0 \in DOMAIN dev
Wild(dev) == dev[0] % 2 = 1
Stir(x) == LET y == (x % 46337) * (x % 46337) + x \div 7 IN ((y % 1000003) * 1103 + 12347) % 1000003
Dice(g, dev) == Stir(Stir(((dev[0] % 100003) * 7919 + (g.i % 4096) * 104729) % 1000003))
\* How likely things are is said in 64ths.
Lucky(h, n) == (h \div 3) % 64 < n

PickedSafe(g, dev, arity, safe) ==
    IF g.i \in DOMAIN dev THEN (IF dev[g.i] < arity THEN dev[g.i] ELSE 0)
    ELSE IF ~Scattered(dev) THEN 0
    ELSE LET h == Dice(g, dev) IN
         IF Wild(dev) /\ Lucky(h, 2) THEN (h \div 256) % arity
         ELSE IF Lucky(h, 20) THEN 0
         ELSE (h \div 256) % safe
Picked(g, dev, arity) == PickedSafe(g, dev, arity, arity)

\* Counts get smaller as an instance gets bigger.
ScatteredCount(g, dev, d) ==
    LET h == Dice(g, dev)
        v == <<0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 9>>[1 + (h % 16)]
        most == IF g.i < 12 THEN 9 ELSE IF g.i < 60 THEN 5 ELSE IF g.i < 150 THEN 3 ELSE IF g.i < 300 THEN 2 ELSE 1
        least == IF d = 3 /\ (~Wild(dev) \/ ~Lucky(h, 4)) THEN 1 ELSE 0
    IN IF v > most THEN most ELSE IF v < least THEN least ELSE v
Next1(g, arity) == [g EXCEPT !.i = @ + 1, !.ar = Append(@, arity)]

Fresh(u) == (u * 263 + 517) % 65536

Alt16 == <<65535, 0, 32768, 255, 256, 1, 32767>>
Alt8 == <<255, 0, 128, 127, 1>>
Alt32 == << <<65535, 65535>>, <<0, 0>>, <<32768, 0>>, <<0, 65535>>, <<1, 0>>, <<0, 1>>, <<32767, 65535>> >>
Alts(s) == CASE s = "u8" -> Alt8 [] s = "u32" -> Alt32 [] OTHER -> Alt16
Most(s) == IF Len(Alts(s)) < Scalars THEN Len(Alts(s)) ELSE Scalars

\* A plain number of kind s: its bytes, its projection, its value, and g after.
Number(s, g, dev) ==
    LET a == Picked(g, dev, Most(s) + 1)
        h == Next1(g, Most(s) + 1)
        signed(v) == IF s = "i16" /\ v >= 32768 THEN v - 65536 ELSE v
    IN CASE s = "u8" ->
                LET v == IF a = 0 THEN Fresh(g.u) % 256 ELSE Alt8[a] IN
                [b |-> <<v>>, o |-> <<v>>, v |-> v, g |-> [h EXCEPT !.u = @ + 1]]
         [] s = "u32" ->
                LET v == IF a = 0 THEN <<Fresh(g.u), Fresh(g.u + 1)>> ELSE Alt32[a] IN
                [b |-> Bytes16(v[1]) \o Bytes16(v[2]), o |-> v, v |-> 0, g |-> [h EXCEPT !.u = @ + 2]]
         [] OTHER ->
                LET v == IF a = 0 THEN Fresh(g.u) ELSE Alt16[a] IN
                [b |-> Bytes16(v), o |-> <<signed(v)>>, v |-> v, g |-> [h EXCEPT !.u = @ + 1]]

FlagAlts(f) ==
    LET known == FoldLeft(LAMBDA x, y : x + y, 0, f.bits)
        rest == 65535 - known - f.mask
        low == CHOOSE b \in {2^i : i \in 0..15} :
                    HasBit(f.mask, b) /\ \A c \in {2^i : i \in 0..15} : HasBit(f.mask, c) => b <= c
        high == CHOOSE b \in {2^i : i \in 0..15} :
                    HasBit(f.mask, b) /\ \A c \in {2^i : i \in 0..15} : HasBit(f.mask, c) => b >= c
    IN <<0>> \o f.bits \o <<known>> \o (IF rest = 0 THEN <<>> ELSE <<rest>>)
       \o <<low, high, f.mask>>

\* Some of the bits that a mask of reserved ones leaves.
Allowed(mask, h) ==
    FoldLeft(LAMBDA x, i : IF HasBit(mask, 2^i) \/ ~HasBit(h % 65536, 2^i) THEN x ELSE x + 2^i,
             0, [i \in 1..16 |-> i - 1])

InvalidFormats(cases) ==
    SelectSeq(<<0, 4, 256, 32769, 65535, 5>>, LAMBDA v : \A i \in 1..Len(cases) : cases[i][1] # v)

------------------------------------------------------------------------------
(* acc: the structure written so far; e the numbers in it by name, l the   *)
(* places where offsets go by name, pend the parts to be placed behind it. *)

Begin(e, g) == [b |-> <<>>, o |-> <<>>, e |-> e, l |-> <<>>, pend |-> <<>>, sites |-> <<>>, g |-> g]

Add(acc, b, o) == [acc EXCEPT !.b = @ \o b, !.o = @ \o o]
Know(acc, n, v) == [acc EXCEPT !.e = (n :> v) @@ @]
Place(acc, n, locs) == [acc EXCEPT !.l = (n :> locs) @@ @]
Site(acc, at, how, v) == [acc EXCEPT !.sites = Append(@, [at |-> at, how |-> how, v |-> v])]
Bad(acc) == [acc EXCEPT !.g.bad = TRUE]
Unk(acc) == [acc EXCEPT !.g.unk = TRUE]

Moved(sites, n) == [i \in 1..Len(sites) |-> [sites[i] EXCEPT !.at = @ + n]]

\* Include a structure w written in place, with pre before its value.
InPlace(acc, w, pre) ==
    LET nb == Len(acc.b)
        no == Len(acc.o) + Len(pre)
        np == Len(acc.pend)
    IN [acc EXCEPT !.b = @ \o w.b, !.o = @ \o pre \o w.o, !.g = w.g,
                   !.sites = @ \o Moved(w.sites, nb),
                   !.pend = @ \o [i \in 1..Len(w.pend) |->
                                     [w.pend[i] EXCEPT !.at = @ + nb, !.oi = @ + no,
                                                       !.ref = IF @ = 0 THEN 0 ELSE @ + np]]]

\* Place the parts of a structure behind it and fill in the offsets.
Resolve(acc, dev) ==
    LET n == Len(acc.pend)
        fresh == SelectSeq([i \in 1..n |-> i], LAMBDA i : acc.pend[i].ref = 0)
        arity == IF n = 0 THEN 1 ELSE IF acc.g.gapped THEN 3 ELSE 4
        a == IF Scattered(dev) /\ arity = 4 /\ Dice(acc.g, dev) % 23 = 0 THEN 3
             ELSE PickedSafe(acc.g, dev, arity, IF arity = 4 THEN 3 ELSE arity)
        g == IF n = 0 THEN acc.g ELSE Next1(acc.g, arity)
        turn == IF ~Scattered(dev) \/ fresh = <<>> THEN 0 ELSE Dice(acc.g, dev) % Len(fresh)
        turned == SubSeq(fresh, turn + 1, Len(fresh)) \o SubSeq(fresh, 1, turn)
        order == IF a = 1 THEN Reverse(turned) ELSE turned
        put(x, i) ==
            LET kid == acc.pend[i].kid
                pad == IF a = 2 THEN <<170>> ELSE <<>>
                far == a = 3 /\ i = order[Len(order)]
                here == Len(x.b) + Len(pad)
                gap == IF ~far THEN 0 ELSE IF acc.pend[i].w = 4 THEN 70000 ELSE 40000 - here
                at == here + x.gap + gap
            IN [b |-> x.b \o pad \o kid.b,
                pos |-> (i :> at) @@ x.pos,
                gat |-> IF far THEN here ELSE IF kid.gap > 0 THEN here + kid.gat ELSE x.gat,
                gap |-> IF far THEN gap ELSE IF kid.gap > 0 THEN kid.gap ELSE x.gap,
                sites |-> x.sites \o Moved(kid.sites, at)]
        laid == FoldLeft(put, [b |-> acc.b, pos |-> <<>>, gat |-> 0, gap |-> 0, sites |-> acc.sites], order)
        fill(x, i) ==
            LET p == acc.pend[i]
                v == laid.pos[IF p.ref = 0 THEN i ELSE p.ref]
            IN IF p.w = 4
               THEN [x EXCEPT !.b[p.at + 2] = v \div 65536,
                              !.b[p.at + 3] = (v \div 256) % 256, !.b[p.at + 4] = v % 256,
                              !.o[p.oi] = v \div 65536, !.o[p.oi + 1] = v % 65536]
               ELSE IF v > 65535 THEN [x EXCEPT !.unk = TRUE]
               ELSE [x EXCEPT !.b[p.at + 1] = v \div 256, !.b[p.at + 2] = v % 256, !.o[p.oi] = v]
        done == FoldLeft(fill, [b |-> laid.b, o |-> acc.o, unk |-> g.unk], [i \in 1..n |-> i])
    IN [b |-> done.b, o |-> done.o, e |-> acc.e, l |-> acc.l, pend |-> <<>>, sites |-> laid.sites,
        gat |-> laid.gat, gap |-> laid.gap,
        g |-> [g EXCEPT !.gapped = @ \/ laid.gap > 0, !.unk = done.unk]]

\* One place for an offset, and what it refers to.
Refer(W, acc, loc, ty, args, null, dev, deep) ==
    LET sig == <<ty, args>>
        same == {j \in 1..Len(acc.pend) : acc.pend[j].ref = 0 /\ acc.pend[j].sig = sig}
        arity == IF same = {} THEN 3 ELSE 4
        scattered ==
            LET h == Dice(acc.g, dev) IN
            IF null = "opt" /\ Lucky(h, IF acc.g.i < 200 THEN 14 ELSE 32) THEN 1
            ELSE IF same # {} /\ (h \div 256) % 64 < (IF acc.g.i < 100 THEN 10 ELSE IF acc.g.i < 250 THEN 30 ELSE 60)
            THEN 3
            ELSE IF Wild(dev) /\ (h \div 512) % 64 = 0 THEN 1 + ((h \div 4) % 2)
            ELSE 0
        a == IF acc.g.i \notin DOMAIN dev /\ Scattered(dev) THEN scattered ELSE Picked(acc.g, dev, arity)
        x == [acc EXCEPT !.g = Next1(acc.g, arity)]
        pre == IF null = "opt" THEN <<1>> ELSE <<>>
    IN CASE a = 1 -> IF null = "opt" THEN [x EXCEPT !.o = Append(@, 0)] ELSE Unk(x)
         [] a = 2 ->
                Unk(IF loc.w = 4
                    THEN [x EXCEPT !.b[loc.at + 2] = 255, !.b[loc.at + 3] = 255, !.b[loc.at + 4] = 255]
                    ELSE [x EXCEPT !.b[loc.at + 1] = 255, !.b[loc.at + 2] = 255])
         [] a = 3 ->
                LET j == CHOOSE j \in same : \A k \in same : k <= j IN
                [x EXCEPT !.o = @ \o pre \o acc.pend[j].ko,
                          !.pend = Append(@, [at |-> loc.at, w |-> loc.w, oi |-> loc.oi, ref |-> j,
                                              kid |-> <<>>, sig |-> sig, ko |-> <<>>])]
         [] OTHER ->
                LET w == W[<<ty, args, x.g, dev, deep - 1>>] IN
                [x EXCEPT !.g = w.g, !.o = @ \o pre \o w.o,
                          !.pend = Append(@, [at |-> loc.at, w |-> loc.w, oi |-> loc.oi, ref |-> 0,
                                              kid |-> [b |-> w.b, gat |-> w.gat, gap |-> w.gap,
                                                       sites |-> w.sites],
                                              sig |-> sig, ko |-> w.o])]

\* One field. W is the function that writes structures (see WriteF).
WriteField(W, f, acc, dev, deep) ==
    LET e == acc.e
        g == acc.g
        Room(w) == [at |-> Len(acc.b), w |-> w, oi |-> Len(acc.o) + 1]
        Plainly(s) == LET x == Number(s, g, dev) IN
                      Know([Add(acc, x.b, x.o) EXCEPT !.g = x.g], f.n, x.v)
        \* A 16-bit number from a list, the first by default.
        Exactly(v, arity) == Know([Add(acc, Bytes16(v), <<v>>) EXCEPT !.g = Next1(g, arity)], f.n, v)
        OneSafe(vs, safe) == Exactly(vs[PickedSafe(g, dev, Len(vs), safe) + 1], Len(vs))
        OneOf(vs) == OneSafe(vs, Len(vs))
        Repeat(x, ty, args, c) ==
            FoldLeft(LAMBDA y, i : InPlace(y, W[<<ty, args, y.g, dev, deep>>], <<>>),
                     x, [i \in 1..c |-> i])
    IN
    CASE f.k = "s" /\ f.h = "v" -> Plainly(f.s)

      [] f.k = "s" /\ f.h = "o" ->
            LET w == Width(f.s) IN
            Place(Add(acc, [i \in 1..w |-> 0], [i \in 1..(w \div 2) |-> 0]), f.n, <<Room(w)>>)

      [] f.k = "s" /\ f.h = "c" ->
            IF Scattered(dev) /\ g.i \notin DOMAIN dev THEN LET c == ScatteredCount(g, dev, f.d) IN
                 Exactly(IF f.n = "n_colors" /\ ~Wild(dev) THEN e["n_entries"] + c ELSE c, 1 + Len(Counts))
            ELSE OneOf(<<IF deep >= 0 THEN f.d ELSE 1>> \o Counts)

      [] f.k = "s" /\ f.h = "f" ->
            Site(Know(Add(acc, Bytes16(e["format#"]), <<e["format#"]>>), f.n, e["format#"]),
                 Len(acc.b), "in", e["formats#"])

      [] f.k = "s" /\ f.h = "ty" ->
            LET first == g.dc % f.max
                vs == [i \in 1..f.max |-> 1 + ((first + i - 1) % f.max)] \o <<0, f.max + 1, 65535, 256>>
            IN LET x == OneSafe(vs, f.max) IN [Know(x, "ty@", Len(acc.b)) EXCEPT !.g.dc = @ + 1]

      [] f.k = "s" /\ f.h = "minor" ->
            LET x == OneSafe(<<1, 0, 2, 257, 65535>>, 2) IN
            Site(IF x.e["minor"] > 1 THEN Bad(x) ELSE x, Len(acc.b), "in", <<0, 1>>)

      [] f.k = "s" /\ f.h = "devstart" -> OneOf(<<11, 0, 65535, 65520>>)
      [] f.k = "s" /\ f.h = "devend" ->
            LET ends == SelectSeq([i \in 1..11 |-> e["start"] + <<6, 0, 1, 3, 7, 8, 15, 16, 31, 63, -1>>[i]],
                                  LAMBDA v : v \in 0..65535)
            IN OneSafe(ends \o <<65535, 0>>, IF Len(ends) > 1 THEN Len(ends) - 1 ELSE 1)
      [] f.k = "devorder" -> IF e["start"] > e["end"] THEN Bad(acc) ELSE acc

      [] f.k = "devwords" ->
            LET c == IF acc.g.bad \/ e["format"] \notin 1..3 THEN 0
                     ELSE DeviceWords(e["start"], e["end"], e["format"])
            IN Add(acc, Halves([i \in 1..c |-> Fresh(g.u + i)]),
                   <<c>> \o [i \in 1..c |-> Fresh(g.u + i)])

      [] f.k = "s" /\ f.h = "axissize" -> OneSafe(<<20, 22, 24, 27, 300, 19, 0>>, 5)
      [] f.k = "s" /\ f.h = "instancesize" ->
            LET n == 4 * e["n_axes"] IN OneSafe(<<n + 6, n + 4, n + 5, n + 7, n + 12, n + 300, n + 3, 0>>, 6)

      [] f.k = "const" ->
            LET vs == <<f.v, f.v + 1, (f.v + 65535) % 65536, (f.v + 256) % 65536, 65535>>
                x == OneSafe(vs, 1)
            IN Site(IF x.e[f.n] # f.v THEN Bad(x) ELSE x, Len(acc.b), "in", <<f.v>>)

      [] f.k = "flags" ->
            LET alts == <<f.d>> \o FlagAlts(f)
                x == IF Scattered(dev) /\ g.i \notin DOMAIN dev /\ ~(Wild(dev) /\ Lucky(Dice(g, dev), 3))
                     THEN Exactly(Allowed(f.mask, Dice(g, dev)), Len(alts))
                     ELSE OneOf(alts)
                v == x.e[f.n]
            IN Site([(IF Meets(v, f.mask) THEN Bad(x) ELSE x) EXCEPT
                        !.o = @ \o [i \in 1..Len(f.bits) |-> IF HasBit(v, f.bits[i]) THEN 1 ELSE 0]],
                    Len(acc.b), "mask", <<f.mask>>)

      [] f.k = "bit" ->
            IF ~HasBit(Get(e, f.src), f.bit) THEN Place(Add(acc, <<>>, <<0>>), f.n, <<>>)
            ELSE IF f.h = "o"
            THEN Place(Add(acc, <<0, 0>>, <<1, 0>>), f.n, <<[Room(2) EXCEPT !.oi = @ + 1]>>)
            ELSE LET x == Number(f.s, g, dev) IN [Add(acc, x.b, <<1>> \o x.o) EXCEPT !.g = x.g]

      [] f.k = "vec" /\ f.h = "v" ->
            LET c == Get(e, f.c) IN
            IF c < f.sub THEN Bad(acc)
            ELSE FoldLeft(LAMBDA x, i : LET y == Number(f.s, x.g, dev) IN [Add(x, y.b, y.o) EXCEPT !.g = y.g],
                          Add(acc, <<>>, <<c - f.sub>>), [i \in 1..((c - f.sub) * f.mul) |-> i])

      [] f.k = "vec" /\ f.h = "o" ->
            LET c == Get(e, f.c)
                w == Width(f.s)
            IN Place(Add(acc, [i \in 1..(w * c) |-> 0], <<c>> \o [i \in 1..((w \div 2) * c) |-> 0]), f.n,
                     [i \in 1..c |-> [at |-> Len(acc.b) + w * (i - 1), w |-> w,
                                      oi |-> Len(acc.o) + 2 + (w \div 2) * (i - 1)]])

      [] f.k = "vec" /\ f.h = "palette" ->
            LET n == e["n_entries"]
                m == e["n_colors"]
                last == IF m >= n THEN m - n ELSE 0
                one(x, i) ==
                    LET vs == << (i * 3) % (last + 1), 0, last, last + 1, m, 65535 >>
                        a == PickedSafe(x.g, dev, 6, 3)
                    IN [Add(x, Bytes16(vs[a + 1]), <<vs[a + 1]>>) EXCEPT
                           !.g = Next1(x.g, 6), !.e = ("indices" :> Append(x.e["indices"], vs[a + 1])) @@ @]
            IN FoldLeft(one, Know(Add(acc, <<>>, <<e[f.c]>>), "indices", <<>>), [i \in 1..e[f.c] |-> i])

      [] f.k = "hdrs" ->
            LET c == e[f.c]
                one(x, i) ==
                    LET tags == x.e[f.n \o "#"]
                        vs == << <<Fresh(x.g.u), Fresh(x.g.u + 1)>>,
                                 IF i > 1 THEN tags[1] ELSE <<27745, 29806>>,
                                 <<17478, 19540>>, <<0, 0>>, <<65535, 65535>> >>
                        a == Picked(x.g, dev, 5)
                    IN [Add(x, Bytes16(vs[a + 1][1]) \o Bytes16(vs[a + 1][2]) \o <<0, 0>>, vs[a + 1] \o <<0>>)
                        EXCEPT !.g = [Next1(x.g, 5) EXCEPT !.u = @ + 2],
                               !.e = ((f.n \o "#") :> Append(tags, vs[a + 1])) @@ @,
                               !.l = (f.n :> Append(x.l[f.n], [at |-> Len(x.b) + 4, w |-> 2,
                                                               oi |-> Len(x.o) + 3])) @@ @]
            IN FoldLeft(one, Place(Know(Add(acc, <<>>, <<c>>), f.n \o "#", <<>>), f.n, <<>>),
                        [i \in 1..c |-> i])

      [] f.k = "str" ->
            LET w == W[<<f.ty, Args(e, f.args), g, dev, deep>>]
                nb == Len(acc.b)
                no == Len(acc.o)
                moved == [n \in DOMAIN w.l |-> [i \in 1..Len(w.l[n]) |->
                              [w.l[n][i] EXCEPT !.at = @ + nb, !.oi = @ + no]]]
            IN [InPlace(acc, w, <<>>) EXCEPT !.e = w.e @@ @, !.l = moved @@ @]

      [] f.k = "ostr" ->
            IF Get(e, f.cond) = 0 THEN Add(acc, <<>>, <<0>>)
            ELSE InPlace(acc, W[<<f.ty, Args(e, f.args), g, dev, deep>>], <<1>>)

      [] f.k = "strs" -> Repeat(Add(acc, <<>>, <<e[f.c]>>), f.ty, Args(e, f.args), e[f.c])

      [] f.k = "ptr" ->
            LET locs == IF f.o \in DOMAIN acc.l THEN acc.l[f.o] ELSE <<>> IN
            IF locs = <<>> THEN (IF f.null = "opt" THEN Add(acc, <<>>, <<0>>) ELSE Unk(acc))
            ELSE Refer(W, acc, locs[1], f.ty, Args(e, f.args), f.null, dev, deep)

      [] f.k = "ptrs" ->
            LET locs == acc.l[f.o]
                args == Args(e, f.args)
                x == FoldLeft(LAMBDA y, loc : Refer(W, y, loc, f.ty, args, f.null, dev, deep),
                              Add(acc, <<>>, <<Len(locs)>>), locs)
            IN IF "ty" \in DOMAIN args /\ locs # <<>>
               THEN Site(x, e["ty@"], "in", [i \in 1..Len(Types[f.ty].cases) |-> Types[f.ty].cases[i][1]])
               ELSE x

      [] f.k = "gets" ->
            LET tags == e[f.o \o "#"]
                probes == Probes(tags)
            IN Add(acc, <<>>, [i \in 1..Len(probes) |-> FindTag(tags, probes[i])])

      [] f.k = "pres" -> Add(acc, <<>>, <<IF e[f.o] > 0 THEN 1 ELSE 0>>)

      [] f.k = "dirversion" -> acc

      [] f.k = "minoroff" ->
            IF e["minor"] = 1 THEN Place(Add(acc, <<0, 0, 0, 0>>, <<0, 0>>), f.n, <<Room(4)>>)
            ELSE Place(Add(acc, <<>>, <<0, 0>>), f.n, <<>>)

      [] f.k = "deltas" ->
            LET c == e["items"] * (e["shorts"] + e["regions"]) IN
            Add(acc, [i \in 1..c |-> Fresh(g.u + i) % 256], <<c>> \o [i \in 1..c |-> Fresh(g.u + i) % 256])

      [] f.k = "axes" ->
            \* The axes and the instances are one block, since the one starts
            \* where the other ends.
            LET loc == acc.l["axes_o"][1]
                n == e["n_axes"]
                m == e["n_instances"]
                as == e["axis_size"]
                is == e["instance_size"]
                args == ("n_axes" :> n) @@ ("instance_size" :> is)
                slot(x, w, size) ==
                    [b |-> x.b \o w.b \o (IF size > Len(w.b) THEN [i \in 1..(size - Len(w.b)) |-> 170] ELSE <<>>),
                     o |-> x.o \o w.o, g |-> w.g, sites |-> x.sites \o Moved(w.sites, Len(x.b)),
                     tight |-> x.tight \/ size < Len(w.b)]
                axes == FoldLeft(LAMBDA x, i : slot(x, W[<<"Axis", <<>>, x.g, dev, deep>>], as),
                                 [b |-> <<>>, o |-> <<n>>, g |-> g, sites |-> <<>>, tight |-> FALSE],
                                 [i \in 1..n |-> i])
                all == FoldLeft(LAMBDA x, i : slot(x, W[<<"Instance", args, x.g, dev, deep>>], is),
                                [axes EXCEPT !.o = @ \o <<m>>], [i \in 1..m |-> i])
                x == [acc EXCEPT !.g = all.g, !.o = @ \o all.o,
                          !.pend = Append(@, [at |-> loc.at, w |-> 2, oi |-> loc.oi, ref |-> 0,
                                              kid |-> [b |-> all.b, gat |-> 0, gap |-> 0,
                                                       sites |-> IF all.tight THEN <<>> ELSE all.sites],
                                              sig |-> <<"block", <<>>>>, ko |-> <<>>])]
            IN IF all.tight THEN Unk(x) ELSE x
      [] f.k = "instances" -> acc

      [] f.k = "psname" ->
            IF e["instance_size"] >= 4 * e["n_axes"] + 6 THEN Plainly("u16")
            ELSE Add(acc, <<>>, <<65535>>)

      [] f.k = "palettesfit" ->
            IF e["n_entries"] > 0 /\ \E i \in 1..Len(e["indices"]) :
                                        e["indices"][i] + e["n_entries"] > e["n_colors"]
            THEN Bad(acc) ELSE acc

      [] f.k = "palettes" ->
            IF acc.g.bad \/ acc.g.unk THEN acc
            ELSE LET colors == SubSeq(acc.o, Len(acc.o) - 4 * e["n_colors"] + 1, Len(acc.o))
                     n == e["n_entries"]
                 IN Add(acc, <<>>,
                        <<Len(e["indices"])>>
                        \o Concat([i \in 1..Len(e["indices"]) |->
                              <<n>> \o SubSeq(colors, 4 * e["indices"][i] + 1, 4 * (e["indices"][i] + n))]))

\* A function for the same reason as ParseF.
WriteF[a_ \in Any] ==
    LET ty == a_[1]
        args == a_[2]
        g == a_[3]
        dev == a_[4]
        deep == a_[5]
        d == Types[ty]
    IN
    CASE d.k = "rec" ->
            LET acc == FoldLeft(LAMBDA x, f : WriteField(WriteF, f, x, dev, deep), Begin(args, g), d.fs) IN
            IF d.own THEN Resolve(acc, dev) ELSE acc
      [] d.k = "disp" ->
            LET n == Len(d.cases)
                invalid == InvalidFormats(d.cases)
                arity == n + Len(invalid)
                a == PickedSafe(g, dev, arity, n)
                h == [Next1(g, arity) EXCEPT !.dc = @ + 1]
                case == IF a < n THEN d.cases[1 + ((g.dc + a) % n)] ELSE d.cases[1]
                value == IF a < n THEN case[1] ELSE invalid[a - n + 1]
                w == WriteF[<<case[2],
                               ("format#" :> value)
                               @@ ("formats#" :> [i \in 1..n |-> d.cases[i][1]]) @@ args,
                               [h EXCEPT !.bad = @ \/ a >= n], dev, deep>>]
            IN [w EXCEPT !.o = <<case[3]>> \o @,
                         !.pend = [i \in 1..Len(w.pend) |-> [w.pend[i] EXCEPT !.oi = @ + 1]],
                         !.l = [m \in DOMAIN w.l |-> [i \in 1..Len(w.l[m]) |-> [w.l[m][i] EXCEPT !.oi = @ + 1]]]]
      [] d.k = "arg" ->
            LET hits == SelectSeq(d.cases, LAMBDA c : c[1] = args["ty"]) IN
            IF hits = <<>> THEN Resolve(Bad(Begin(<<>>, g)), dev)
            ELSE LET w == WriteF[<<hits[1][2], <<>>, g, dev, deep>>] IN [w EXCEPT !.o = <<hits[1][3]>> \o @]

Write(ty, args, dev, deep) ==
    LET w == WriteF[<<ty, args, Start, dev, deep>>] IN
    [b |-> w.b, gat |-> IF w.gap = 0 THEN Len(w.b) ELSE w.gat, gap |-> w.gap, o |-> w.o,
     bad |-> w.g.bad, unk |-> w.g.unk, sites |-> w.sites, ar |-> w.g.ar]
=============================================================================
