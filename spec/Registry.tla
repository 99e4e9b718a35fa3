------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registries of scripts, languages and features (C23, C24).           *)
(*                                                                         *)
(* A tag is any four bytes. Converting it gives the registered entry with  *)
(* that tag, or else an unknown entry that holds the tag itself; converting *)
(* back gives the tag. The states of the model are tags: the registered    *)
(* ones, and everything that a number of perturbations makes of them.      *)
(***************************************************************************)
EXTENDS Registered, Naturals, Sequences, FiniteSets, TLC, CSV

CONSTANTS K,            \* how many perturbations
          Parts, Part, OutFile

Registries == {"scripts", "languages", "features"}
Entries == [scripts |-> RegisteredScripts, languages |-> RegisteredLanguages,
            features |-> RegisteredFeatures]

TagOf(e) == e[1]
Name(e) == e[2]
Variant(e) == e[3]
Codes(e) == e[4]
Optional(e) == e[5]

\* All tags of a registry, and of the build without optional ones.
TagsOf(r, default) ==
    {TagOf(Entries[r][i]) : i \in {j \in 1..Len(Entries[r]) : default \/ ~Optional(Entries[r][j])}}
Known == [r \in Registries |-> [d \in BOOLEAN |-> TagsOf(r, d)]]

------------------------------------------------------------------------------
(* Facts about the registries themselves.                                  *)

ASSUME \A r \in Registries : \A i, j \in 1..Len(Entries[r]) :
    \* The kana script is registered under two names.
    i # j => (TagOf(Entries[r][i]) # TagOf(Entries[r][j])
              \/ (r = "scripts" /\ TagOf(Entries[r][i]) = <<107, 97, 110, 97>>))
ASSUME \A r \in Registries : \A i, j \in 1..Len(Entries[r]) :
    i # j => Variant(Entries[r][i]) # Variant(Entries[r][j])
ASSUME \A r \in Registries : \A i \in 1..Len(Entries[r]) : Len(TagOf(Entries[r][i])) = 4
ASSUME \A r \in {"scripts", "features"} : \A i \in 1..Len(Entries[r]) : Codes(Entries[r][i]) = <<>>
ASSUME Known["languages"][TRUE] \ Known["languages"][FALSE] = {<<68, 70, 76, 84>>}
ASSUME \A r \in {"scripts", "features"} : Known[r][TRUE] = Known[r][FALSE]

------------------------------------------------------------------------------
(* The conversions. default: whether the default language is registered.   *)

FromTag(r, tag, default) ==
    IF tag \in Known[r][default]
    THEN [known |-> TRUE, tag |-> tag,
          entries |-> {i \in 1..Len(Entries[r]) : TagOf(Entries[r][i]) = tag}]
    ELSE [known |-> FALSE, tag |-> tag, entries |-> {}]

ToTag(r, v) == IF v.known THEN TagOf(Entries[r][CHOOSE i \in v.entries : TRUE]) ELSE v.tag

------------------------------------------------------------------------------
VARIABLES registry, tag, left
vars == <<registry, tag, left>>

Unrelated == { <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<32, 32, 32, 32>>, <<68, 70, 76, 84>>,
               <<100, 102, 108, 116>>, <<65, 65, 65, 65>>, <<122, 122, 122, 122>> }

Init ==
    /\ registry \in Registries
    /\ tag \in Known[registry][TRUE] \cup Unrelated
               \cup UNION {Known[r][TRUE] : r \in Registries}
    /\ (tag[1] + 3 * tag[2] + 7 * tag[3] + 13 * tag[4]) % Parts = Part
    /\ left = K

Flip(byte, bit) == IF (byte \div bit) % 2 = 1 THEN byte - bit ELSE byte + bit
Lower(byte) == IF byte \in 65..90 THEN byte + 32 ELSE byte
Upper(byte) == IF byte \in 97..122 THEN byte - 32 ELSE byte

Perturb ==
    \/ \E i \in 1..4, bit \in {1, 2, 4, 8, 16, 32, 64, 128} : tag' = [tag EXCEPT ![i] = Flip(@, bit)]
    \/ \E i \in 1..4, b \in {0, 32, 48, 50, 65, 97, 255} : tag' = [tag EXCEPT ![i] = b]
    \/ \E i \in 1..4, d \in {1, 255} : tag' = [tag EXCEPT ![i] = (@ + d) % 256]
    \/ \E i \in 1..3 : tag' = [tag EXCEPT ![i] = tag[i + 1], ![i + 1] = tag[i]]
    \/ tag' = [i \in 1..4 |-> Lower(tag[i])]
    \/ tag' = [i \in 1..4 |-> Upper(tag[i])]
    \/ tag' = [i \in 1..4 |-> tag[5 - i]]
    \/ tag' = <<32, tag[1], tag[2], tag[3]>>

Next == /\ left > 0
        /\ Perturb
        /\ left' = left - 1
        /\ UNCHANGED registry

------------------------------------------------------------------------------
RoundTrip == \A d \in BOOLEAN : ToTag(registry, FromTag(registry, tag, d)) = tag
NeverUnknown ==
    \A d \in BOOLEAN : FromTag(registry, tag, d).known
                       <=> \E i \in 1..Len(Entries[registry]) :
                               TagOf(Entries[registry][i]) = tag /\ (d \/ ~Optional(Entries[registry][i]))
\* No two tags that are one perturbation apart become the same.
Distinct ==
    left > 0 => \A u \in Known[registry][TRUE] :
                    u # tag => FromTag(registry, u, TRUE) # FromTag(registry, tag, TRUE)

EmitTag ==
    LET with == FromTag(registry, tag, TRUE)
        without == FromTag(registry, tag, FALSE)
        list(v) == [i \in 1..Cardinality(v.entries) |->
                       LET e == Entries[registry][
                                   CHOOSE j \in v.entries :
                                       Cardinality({k \in v.entries : k < j}) = i - 1]
                       IN <<Name(e), Variant(e), Codes(e)>>]
    IN CSVWrite("%1$s", << <<"tag", registry, tag, list(without), list(with)>> >>, OutFile)

\* One line with all the tags of a registry, for going through all four-byte tags there are.
EmitRegistry ==
    (left = K /\ tag = <<0, 0, 0, 0>>) =>
        LET all(d) == [i \in 1..Len(Entries[registry]) |-> TagOf(Entries[registry][i])]
            most == SelectSeq(Entries[registry], LAMBDA e : ~Optional(e))
        IN CSVWrite("%1$s", << <<"sweep", registry,
                                 [i \in 1..Len(most) |-> TagOf(most[i])], all(TRUE)>> >>, OutFile)
==============================================================================
