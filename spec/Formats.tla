------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* What the tables of an OpenType font look like: the grammar, as data.    *)
(*                                                                         *)
(* Every structure that bodoni/opentype decodes is one entry of Types. The *)
(* module only describes; Reader.tla says what decoding a description      *)
(* means, Writer.tla produces instances of one, ReaderMachine.tla executes *)
(* one step by step against a misbehaving stream.                          *)
(*                                                                         *)
(* A type is one of                                                        *)
(*   rec    a sequence of fields; own = TRUE when offsets in it count from *)
(*          its own first byte, FALSE when they count from the structure   *)
(*          that contains it                                               *)
(*   disp   a choice made by the number at byte `at` of the structure (of  *)
(*          width w): cases are <<number, type, variant>>                  *)
(*   arg    a choice made by the inherited number `ty`                     *)
(*                                                                         *)
(* Fields (see the constructors): scalars, fixed-value fields, flag words, *)
(* vectors of scalars, inline structures, offsets that are followed, and a *)
(* few conditions.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

------------------------------------------------------------------------------
(* Constructors of fields. h tells the writer how to choose a value.       *)

S(n, s)       == [k |-> "s", n |-> n, s |-> s, h |-> "v"]
Hint(n, s, h) == [k |-> "s", n |-> n, s |-> s, h |-> h]
Cnt(n)        == [k |-> "s", n |-> n, s |-> "u16", h |-> "c", d |-> 2]
CntD(n, d)    == [k |-> "s", n |-> n, s |-> "u16", h |-> "c", d |-> d]
Off(n)        == [k |-> "s", n |-> n, s |-> "u16", h |-> "o"]
Off4(n)       == [k |-> "s", n |-> n, s |-> "u32", h |-> "o"]
Fmt           == [k |-> "s", n |-> "format", s |-> "u16", h |-> "f"]
Const(n, v)   == [k |-> "const", n |-> n, v |-> v]
\* A flag word: bits are the queries it answers, mask the reserved bits, d
\* the value the writer starts from.
Flag(n, bits, mask, d) == [k |-> "flags", n |-> n, bits |-> bits, mask |-> mask, d |-> d]

\* c groups of mul scalars; with sub = 1, one group fewer than c (c = 0 is malformed).
Vec(n, s, c)         == [k |-> "vec", n |-> n, s |-> s, c |-> c, sub |-> 0, mul |-> 1, h |-> "v"]
Vec1(n, s, c)        == [k |-> "vec", n |-> n, s |-> s, c |-> c, sub |-> 1, mul |-> 1, h |-> "v"]
Rows(n, s, c, mul)   == [k |-> "vec", n |-> n, s |-> s, c |-> c, sub |-> 0, mul |-> mul, h |-> "v"]
Offs(n, c)           == [k |-> "vec", n |-> n, s |-> "u16", c |-> c, sub |-> 0, mul |-> 1, h |-> "o"]
Offs4(n, c)          == [k |-> "vec", n |-> n, s |-> "u32", c |-> c, sub |-> 0, mul |-> 1, h |-> "o"]
VecH(n, s, c, h)     == [k |-> "vec", n |-> n, s |-> s, c |-> c, sub |-> 0, mul |-> 1, h |-> h]
\* c headers, each a tag and an offset.
Hdrs(n, c)           == [k |-> "hdrs", n |-> n, c |-> c]

\* Structures in place. args are pairs <<name inside, name outside>>.
Str(n, ty, args)        == [k |-> "str", n |-> n, ty |-> ty, args |-> args]
Strs(n, ty, args, c)    == [k |-> "strs", n |-> n, ty |-> ty, args |-> args, c |-> c]
OStr(n, ty, args, cond) == [k |-> "ostr", n |-> n, ty |-> ty, args |-> args, cond |-> cond]

\* A scalar that is there when bit `bit` of the flag word `src` is set.
Bit(n, s, src, bit, h) == [k |-> "bit", n |-> n, s |-> s, src |-> src, bit |-> bit, h |-> h]

\* Structures elsewhere. null tells what offset zero means:
\*   req    nothing special (the offset is followed)
\*   opt    the structure is absent
\*   dirs   req, or an empty list in builds that tolerate incomplete directories
\*   marks  req, or a default anchor in builds that tolerate incomplete marks
Ptr(n, o, ty, null, args)   == [k |-> "ptr", n |-> n, o |-> o, ty |-> ty, null |-> null, args |-> args]
Ptrs(n, o, ty, null, args)  == [k |-> "ptrs", n |-> n, o |-> o, ty |-> ty, null |-> null, args |-> args]
HPtrs(n, o, ty)             == [k |-> "ptrs", n |-> n, o |-> o, ty |-> ty, null |-> "req", args |-> <<>>]

Here == <<>>

------------------------------------------------------------------------------
Rec(fs)      == [k |-> "rec", own |-> TRUE, fs |-> fs]
Inner(fs)    == [k |-> "rec", own |-> FALSE, fs |-> fs]
Disp(cases)  == [k |-> "disp", at |-> 0, cases |-> cases]
Arg(cases)   == [k |-> "arg", cases |-> cases]

------------------------------------------------------------------------------
(* Common layout tables.                                                   *)

Coverage == Disp(<< <<1, "Coverage1", 1>>, <<2, "Coverage2", 2>> >>)
Coverage1 == Rec(<<Fmt, Cnt("n"), Vec("ids", "u16", "n")>>)
Coverage2 == Rec(<<Fmt, Cnt("n"), Rows("records", "u16", "n", 3)>>)

Class == Disp(<< <<1, "Class1", 1>>, <<2, "Class2", 2>> >>)
Class1 == Rec(<<Fmt, S("start", "u16"), Cnt("n"), Vec("indices", "u16", "n")>>)
Class2 == Rec(<<Fmt, Cnt("n"), Rows("records", "u16", "n", 3)>>)

Correction ==
    [k |-> "disp", at |-> 4,
     cases |-> << <<1, "Device", 1>>, <<2, "Device", 1>>, <<3, "Device", 1>>,
                  <<32768, "Variation", 2>> >>]
Device == Rec(<<Hint("start", "u16", "devstart"), Hint("end", "u16", "devend"),
                [k |-> "devorder"], Fmt, [k |-> "devwords", n |-> "deltas"]>>)
Variation == Rec(<<S("outer", "u16"), S("inner", "u16"), Fmt>>)

(* Script, feature and lookup lists.                                       *)

Scripts == Rec(<<Cnt("n"), Hdrs("headers", "n"), HPtrs("records", "headers", "ScriptRecord"),
                 [k |-> "gets", o |-> "headers"]>>)
ScriptRecord == Rec(<<Off("default_o"), Cnt("n"), Hdrs("headers", "n"),
                      Ptr("default", "default_o", "LangSys", "opt", Here),
                      HPtrs("records", "headers", "LangSys"),
                      [k |-> "gets", o |-> "headers"]>>)
LangSys == Rec(<<Const("order", 0), S("required", "u16"), Cnt("n"), Vec("indices", "u16", "n")>>)

Features == Rec(<<Cnt("n"), Hdrs("headers", "n"), HPtrs("records", "headers", "FeatureRecord"),
                  [k |-> "gets", o |-> "headers"]>>)
FeatureRecord == Rec(<<S("parameters_o", "u16"), Cnt("n"), Vec("indices", "u16", "n"),
                       [k |-> "pres", o |-> "parameters_o"]>>)
FeatureVariations == Rec(<<Const("major", 1), Const("minor", 0), S("n", "u32")>>)

LookupRecord(ty, kinds) ==
    Rec(<<[k |-> "s", n |-> "ty", s |-> "u16", h |-> "ty", max |-> kinds],
          Flag("flags", <<1, 2, 4, 8, 16>>, 224, 16),
          Cnt("n"), Offs("offsets", "n"),
          Bit("filter", "u16", "flags", 16, "v"),
          Ptrs("tables", "offsets", ty, "req", << <<"ty", "ty">> >>)>>)
SubLookups == Rec(<<Cnt("n"), Offs("offsets", "n"), Ptrs("records", "offsets", "SubLookup", "req", Here)>>)
SubLookup == LookupRecord("SubType", 8)
PosLookups == Rec(<<Cnt("n"), Offs("offsets", "n"), Ptrs("records", "offsets", "PosLookup", "req", Here)>>)
PosLookup == LookupRecord("PosType", 9)

Directory(lookups) ==
    Rec(<<Const("major", 1), Hint("minor", "u16", "minor"), [k |-> "dirversion"],
          Off("scripts_o"), Off("features_o"), Off("lookups_o"),
          [k |-> "minoroff", n |-> "variations_o"],
          Ptr("scripts", "scripts_o", "Scripts", "dirs", Here),
          Ptr("features", "features_o", "Features", "dirs", Here),
          Ptr("lookups", "lookups_o", lookups, "dirs", Here),
          Ptr("variations", "variations_o", "FeatureVariations", "opt", Here)>>)

(* Contexts.                                                               *)

Action == Rows("actions", "u16", "n_actions", 2)

Context == Disp(<< <<1, "Context1", 1>>, <<2, "Context2", 2>>, <<3, "Context3", 3>> >>)
Context1 == Rec(<<Fmt, Off("coverage_o"), Cnt("n"), Offs("offsets", "n"),
                  Ptr("coverage", "coverage_o", "Coverage", "req", Here),
                  Ptrs("records", "offsets", "Rules", "req", Here)>>)
Context2 == Rec(<<Fmt, Off("coverage_o"), Off("class_o"), Cnt("n"), Offs("offsets", "n"),
                  Ptr("coverage", "coverage_o", "Coverage", "req", Here),
                  Ptr("class", "class_o", "Class", "req", Here),
                  Ptrs("records", "offsets", "Rules", "opt", Here)>>)
Context3 == Rec(<<Fmt, CntD("n", 3), CntD("n_actions", 2), Offs("offsets", "n"), Action,
                  Ptrs("coverages", "offsets", "Coverage", "req", Here)>>)
\* Glyph and class rules share one layout.
Rules == Rec(<<Cnt("n"), Offs("offsets", "n"), Ptrs("records", "offsets", "Rule", "req", Here)>>)
Rule == Rec(<<CntD("n", 3), CntD("n_actions", 2), Vec1("input", "u16", "n"), Action>>)

ChainedContext ==
    Disp(<< <<1, "ChainedContext1", 1>>, <<2, "ChainedContext2", 2>>, <<3, "ChainedContext3", 3>> >>)
ChainedContext1 == Rec(<<Fmt, Off("coverage_o"), Cnt("n"), Offs("offsets", "n"),
                         Ptr("coverage", "coverage_o", "Coverage", "req", Here),
                         Ptrs("records", "offsets", "ChainedRules", "req", Here)>>)
ChainedContext2 == Rec(<<Fmt, Off("coverage_o"), Off("backward_o"), Off("class_o"), Off("forward_o"),
                         Cnt("n"), Offs("offsets", "n"),
                         Ptr("coverage", "coverage_o", "Coverage", "req", Here),
                         Ptr("backward", "backward_o", "Class", "req", Here),
                         Ptr("class", "class_o", "Class", "req", Here),
                         Ptr("forward", "forward_o", "Class", "req", Here),
                         Ptrs("records", "offsets", "ChainedRules", "opt", Here)>>)
ChainedContext3 == Rec(<<Fmt, CntD("n_backward", 1), Offs("backward_os", "n_backward"),
                         CntD("n", 2), Offs("offsets", "n"),
                         CntD("n_forward", 3), Offs("forward_os", "n_forward"),
                         CntD("n_actions", 2), Action,
                         Ptrs("backward", "backward_os", "Coverage", "req", Here),
                         Ptrs("coverages", "offsets", "Coverage", "req", Here),
                         Ptrs("forward", "forward_os", "Coverage", "req", Here)>>)
ChainedRules ==
    Rec(<<Cnt("n"), Offs("offsets", "n"), Ptrs("records", "offsets", "ChainedRule", "req", Here)>>)
ChainedRule ==
    Rec(<<CntD("n_backward", 1), Vec("backward", "u16", "n_backward"),
          CntD("n", 3), Vec1("input", "u16", "n"),
          CntD("n_forward", 3), Vec("forward", "u16", "n_forward"),
          CntD("n_actions", 2), Action>>)

------------------------------------------------------------------------------
(* Glyph substitution.                                                     *)

SubType ==
    Arg(<< <<1, "SingleSubstitution", 1>>, <<2, "MultipleSubstitution", 2>>,
           <<3, "AlternateSubstitution", 3>>, <<4, "LigatureSubstitution", 4>>,
           <<5, "Context", 5>>, <<6, "ChainedContext", 6>>,
           <<7, "Extension", 7>>, <<8, "ReverseChained", 8>> >>)

SingleSubstitution == Disp(<< <<1, "SingleSubstitution1", 1>>, <<2, "SingleSubstitution2", 2>> >>)
SingleSubstitution1 == Rec(<<Fmt, Off("coverage_o"), S("delta", "i16"),
                             Ptr("coverage", "coverage_o", "Coverage", "req", Here)>>)
SingleSubstitution2 == Rec(<<Fmt, Off("coverage_o"), Cnt("n"), Vec("ids", "u16", "n"),
                             Ptr("coverage", "coverage_o", "Coverage", "req", Here)>>)
SetSubstitution(ty) ==
    Rec(<<Const("format", 1), Off("coverage_o"), Cnt("n"), Offs("offsets", "n"),
          Ptr("coverage", "coverage_o", "Coverage", "req", Here),
          Ptrs("records", "offsets", ty, "req", Here)>>)
MultipleSubstitution == SetSubstitution("Glyphs")
AlternateSubstitution == SetSubstitution("Glyphs")
LigatureSubstitution == SetSubstitution("SubLigatures")
Glyphs == Rec(<<Cnt("n"), Vec("ids", "u16", "n")>>)
SubLigatures == Rec(<<Cnt("n"), Offs("offsets", "n"), Ptrs("records", "offsets", "SubLigature", "req", Here)>>)
SubLigature == Rec(<<S("glyph", "u16"), CntD("n", 3), Vec1("ids", "u16", "n")>>)
Extension == Rec(<<Const("format", 1), S("ty", "u16"), S("offset", "u32")>>)
ReverseChained ==
    Rec(<<Const("format", 1), Off("coverage_o"),
          CntD("n_backward", 1), Offs("backward_os", "n_backward"),
          CntD("n_forward", 2), Offs("forward_os", "n_forward"),
          CntD("n", 3), Vec("ids", "u16", "n"),
          Ptr("coverage", "coverage_o", "Coverage", "req", Here),
          Ptrs("backward", "backward_os", "Coverage", "req", Here),
          Ptrs("forward", "forward_os", "Coverage", "req", Here)>>)

------------------------------------------------------------------------------
(* Glyph positioning.                                                      *)

PosType ==
    Arg(<< <<1, "SingleAdjustment", 1>>, <<2, "PairAdjustment", 2>>, <<3, "Cursive", 3>>,
           <<4, "MarkToBase", 4>>, <<5, "MarkToLigature", 5>>, <<6, "MarkToMark", 6>>,
           <<7, "Context", 7>>, <<8, "ChainedContext", 8>>, <<9, "Extension", 9>> >>)

ValueFlags(n, d) == Flag(n, <<1, 2, 4, 8, 16, 32, 64, 128>>, 65280, d)

\* A value record; vf is its format.
Value ==
    Inner(<<Bit("xp", "i16", "vf", 1, "v"), Bit("yp", "i16", "vf", 2, "v"),
            Bit("xa", "i16", "vf", 4, "v"), Bit("ya", "i16", "vf", 8, "v"),
            Bit("xp_o", "u16", "vf", 16, "o"), Bit("yp_o", "u16", "vf", 32, "o"),
            Bit("xa_o", "u16", "vf", 64, "o"), Bit("ya_o", "u16", "vf", 128, "o"),
            Ptr("xp_c", "xp_o", "Correction", "opt", Here),
            Ptr("yp_c", "yp_o", "Correction", "opt", Here),
            Ptr("xa_c", "xa_o", "Correction", "opt", Here),
            Ptr("ya_c", "ya_o", "Correction", "opt", Here)>>)

SingleAdjustment == Disp(<< <<1, "SingleAdjustment1", 1>>, <<2, "SingleAdjustment2", 2>> >>)
SingleAdjustment1 ==
    Rec(<<Fmt, Off("coverage_o"), ValueFlags("vf", 53), Str("value", "Value", << <<"vf", "vf">> >>),
          Ptr("coverage", "coverage_o", "Coverage", "req", Here)>>)
SingleAdjustment2 ==
    Rec(<<Fmt, Off("coverage_o"), ValueFlags("vf", 82), Cnt("n"),
          Strs("values", "Value", << <<"vf", "vf">> >>, "n"),
          Ptr("coverage", "coverage_o", "Coverage", "req", Here)>>)

PairAdjustment == Disp(<< <<1, "PairAdjustment1", 1>>, <<2, "PairAdjustment2", 2>> >>)
PairAdjustment1 ==
    Rec(<<Fmt, Off("coverage_o"), ValueFlags("f1", 20), ValueFlags("f2", 129), Cnt("n"),
          Offs("offsets", "n"),
          Ptr("coverage", "coverage_o", "Coverage", "req", Here),
          Ptrs("records", "offsets", "PairSet", "req", << <<"f1", "f1">>, <<"f2", "f2">> >>)>>)
PairSet == Rec(<<Cnt("n"), Strs("records", "PairValue", << <<"f1", "f1">>, <<"f2", "f2">> >>, "n")>>)
PairValue == Inner(<<S("glyph2", "u16"),
                     OStr("value1", "Value", << <<"vf", "f1">> >>, "f1"),
                     OStr("value2", "Value", << <<"vf", "f2">> >>, "f2")>>)
PairAdjustment2 ==
    Rec(<<Fmt, Off("coverage_o"), ValueFlags("f1", 4), ValueFlags("f2", 34),
          Off("class1_o"), Off("class2_o"), CntD("n1", 2), CntD("n2", 3),
          Strs("records", "ClassRow", << <<"f1", "f1">>, <<"f2", "f2">>, <<"n2", "n2">> >>, "n1"),
          Ptr("coverage", "coverage_o", "Coverage", "req", Here),
          Ptr("class1", "class1_o", "Class", "req", Here),
          Ptr("class2", "class2_o", "Class", "req", Here)>>)
ClassRow == Inner(<<Strs("records", "ClassPair", << <<"f1", "f1">>, <<"f2", "f2">> >>, "n2")>>)
ClassPair == Inner(<<OStr("value1", "Value", << <<"vf", "f1">> >>, "f1"),
                     OStr("value2", "Value", << <<"vf", "f2">> >>, "f2")>>)

Anchor == Disp(<< <<1, "Anchor1", 1>>, <<2, "Anchor2", 2>>, <<3, "Anchor3", 3>> >>)
Anchor1 == Rec(<<Fmt, S("x", "i16"), S("y", "i16")>>)
Anchor2 == Rec(<<Fmt, S("x", "i16"), S("y", "i16"), S("index", "u16")>>)
Anchor3 == Rec(<<Fmt, S("x", "i16"), S("y", "i16"), Off("x_o"), Off("y_o"),
                 Ptr("x_c", "x_o", "Correction", "opt", Here),
                 Ptr("y_c", "y_o", "Correction", "opt", Here)>>)

Cursive ==
    Rec(<<Const("format", 1), Off("coverage_o"), Cnt("n"),
          Strs("connections", "Connection", Here, "n"),
          Ptr("coverage", "coverage_o", "Coverage", "req", Here)>>)
Connection == Inner(<<Off("start_o"), Off("end_o"),
                      Ptr("start", "start_o", "Anchor", "opt", Here),
                      Ptr("end", "end_o", "Anchor", "opt", Here)>>)

MarkTo(ty) ==
    Rec(<<Const("format", 1), Off("coverage1_o"), Off("coverage2_o"), CntD("mcc", 2),
          Off("marks_o"), Off("bases_o"),
          Ptr("coverage1", "coverage1_o", "Coverage", "req", Here),
          Ptr("coverage2", "coverage2_o", "Coverage", "req", Here),
          Ptr("marks", "marks_o", "Marks", "req", Here),
          Ptr("bases", "bases_o", ty, "req", << <<"mcc", "mcc">> >>)>>)
MarkToBase == MarkTo("Bases")
MarkToLigature == MarkTo("PosLigatures")
MarkToMark == MarkTo("Bases")
Marks == Rec(<<Cnt("n"), Strs("records", "Mark", Here, "n")>>)
Mark == Inner(<<S("class", "u16"), Off("anchor_o"), Ptr("anchor", "anchor_o", "Anchor", "marks", Here)>>)
Bases == Rec(<<Cnt("n"), Strs("records", "AnchorRow", << <<"mcc", "mcc">> >>, "n")>>)
AnchorRow == Inner(<<Offs("offsets", "mcc"), Ptrs("anchors", "offsets", "Anchor", "opt", Here)>>)
PosLigatures ==
    Rec(<<Cnt("n"), Offs("offsets", "n"),
          Ptrs("records", "offsets", "Bases", "req", << <<"mcc", "mcc">> >>)>>)

------------------------------------------------------------------------------
(* Glyph definition.                                                       *)

GlyphDefinition ==
    Rec(<<Str("header", "DefinitionHeader", Here),
          Ptr("class", "class_o", "Class", "opt", Here),
          Ptr("attachments", "attachments_o", "Attachments", "opt", Here),
          Ptr("ligatures", "ligatures_o", "DefLigatures", "opt", Here),
          Ptr("mark_class", "mark_class_o", "Class", "opt", Here),
          Ptr("marks", "marks_o", "MarkSets", "opt", Here),
          Ptr("variations", "variations_o", "Store", "opt", Here)>>)
DefinitionHeader ==
    [k |-> "disp", at |-> 2,
     cases |-> << <<0, "DefinitionHeader10", 1>>, <<2, "DefinitionHeader12", 2>>,
                  <<3, "DefinitionHeader13", 3>> >>]
Header10(minor) ==
    <<Const("major", 1), [Fmt EXCEPT !.n = "minor"],
      Off("class_o"), Off("attachments_o"), Off("ligatures_o"), Off("mark_class_o")>>
DefinitionHeader10 == Inner(Header10(0))
DefinitionHeader12 == Inner(Header10(2) \o <<Off("marks_o")>>)
DefinitionHeader13 == Inner(Header10(3) \o <<Off("marks_o"), Off4("variations_o")>>)

Attachments == Rec(<<Off("coverage_o"), Cnt("n"), Offs("offsets", "n"),
                     Ptr("coverage", "coverage_o", "Coverage", "req", Here),
                     Ptrs("records", "offsets", "Glyphs", "req", Here)>>)
DefLigatures == Rec(<<Off("coverage_o"), Cnt("n"), Offs("offsets", "n"),
                      Ptr("coverage", "coverage_o", "Coverage", "req", Here),
                      Ptrs("records", "offsets", "DefLigature", "req", Here)>>)
DefLigature == Rec(<<Cnt("n"), Offs("offsets", "n"), Ptrs("carets", "offsets", "Caret", "req", Here)>>)
Caret == Disp(<< <<1, "Caret1", 1>>, <<2, "Caret2", 2>>, <<3, "Caret3", 3>> >>)
Caret1 == Rec(<<Fmt, S("coordinate", "i16")>>)
Caret2 == Rec(<<Fmt, S("index", "u16")>>)
Caret3 == Rec(<<Fmt, S("coordinate", "i16"), Off("correction_o"),
                Ptr("correction", "correction_o", "Correction", "req", Here)>>)
MarkSets == Rec(<<Const("format", 1), Cnt("n"), Offs4("offsets", "n"),
                  Ptrs("coverages", "offsets", "Coverage", "req", Here)>>)

------------------------------------------------------------------------------
(* Variations and palettes.                                                *)

Store == Rec(<<Const("format", 1), S("region_o", "u32"), Cnt("n"), Offs4("offsets", "n"),
               Ptrs("records", "offsets", "StoreRecord", "req", Here)>>)
StoreRecord == Rec(<<CntD("items", 2), CntD("shorts", 1), CntD("regions", 3),
                     Vec("indices", "u16", "regions"), [k |-> "deltas", n |-> "deltas"]>>)

FontVariations ==
    Rec(<<Str("header", "VariationHeader", Here),
          [k |-> "axes", n |-> "axes"], [k |-> "instances", n |-> "instances"]>>)
VariationHeader ==
    Rec(<<Const("major", 1), S("minor", "u16"), Hint("axes_o", "u16", "o"), Const("reserved", 2),
          CntD("n_axes", 2), Hint("axis_size", "u16", "axissize"),
          CntD("n_instances", 2), Hint("instance_size", "u16", "instancesize")>>)
Axis == Rec(<<S("tag", "u32"), S("min", "u32"), S("default", "u32"), S("max", "u32"),
              Flag("flags", <<1>>, 65534, 1), S("name", "u16")>>)
Instance == Rec(<<S("name", "u16"), Flag("flags", <<>>, 65535, 0), Vec("coordinates", "u32", "n_axes"),
                  [k |-> "psname", n |-> "psname"]>>)

ColorPalettes ==
    Rec(<<Str("header", "PaletteHeader", Here),
          Ptr("colors", "colors_o", "Colors", "req", << <<"n_colors", "n_colors">> >>),
          [k |-> "palettes"]>>)
PaletteHeader == Disp(<< <<0, "PaletteHeader1", 0>>, <<1, "PaletteHeader1", 1>> >>)
PaletteHeader1 ==
    Rec(<<Fmt, CntD("n_entries", 2), CntD("n", 3), CntD("n_colors", 5), Off4("colors_o"),
          VecH("indices", "u16", "n", "palette"), [k |-> "palettesfit"]>>)
Colors == Rec(<<Rows("colors", "u8", "n_colors", 4)>>)

------------------------------------------------------------------------------
Types == [
    Coverage |-> Coverage, Coverage1 |-> Coverage1, Coverage2 |-> Coverage2,
    Class |-> Class, Class1 |-> Class1, Class2 |-> Class2,
    Correction |-> Correction, Device |-> Device, Variation |-> Variation,
    Scripts |-> Scripts, ScriptRecord |-> ScriptRecord, LangSys |-> LangSys,
    Features |-> Features, FeatureRecord |-> FeatureRecord, FeatureVariations |-> FeatureVariations,
    SubLookups |-> SubLookups, SubLookup |-> SubLookup,
    PosLookups |-> PosLookups, PosLookup |-> PosLookup,
    GlyphSubstitution |-> Directory("SubLookups"), GlyphPositioning |-> Directory("PosLookups"),
    Context |-> Context, Context1 |-> Context1, Context2 |-> Context2, Context3 |-> Context3,
    Rules |-> Rules, Rule |-> Rule,
    ChainedContext |-> ChainedContext, ChainedContext1 |-> ChainedContext1,
    ChainedContext2 |-> ChainedContext2, ChainedContext3 |-> ChainedContext3,
    ChainedRules |-> ChainedRules, ChainedRule |-> ChainedRule,
    SubType |-> SubType, SingleSubstitution |-> SingleSubstitution,
    SingleSubstitution1 |-> SingleSubstitution1, SingleSubstitution2 |-> SingleSubstitution2,
    MultipleSubstitution |-> MultipleSubstitution, AlternateSubstitution |-> AlternateSubstitution,
    LigatureSubstitution |-> LigatureSubstitution, Glyphs |-> Glyphs,
    SubLigatures |-> SubLigatures, SubLigature |-> SubLigature,
    Extension |-> Extension, ReverseChained |-> ReverseChained,
    PosType |-> PosType, Value |-> Value, SingleAdjustment |-> SingleAdjustment,
    SingleAdjustment1 |-> SingleAdjustment1, SingleAdjustment2 |-> SingleAdjustment2,
    PairAdjustment |-> PairAdjustment, PairAdjustment1 |-> PairAdjustment1,
    PairAdjustment2 |-> PairAdjustment2, PairSet |-> PairSet, PairValue |-> PairValue,
    ClassRow |-> ClassRow, ClassPair |-> ClassPair,
    Anchor |-> Anchor, Anchor1 |-> Anchor1, Anchor2 |-> Anchor2, Anchor3 |-> Anchor3,
    Cursive |-> Cursive, Connection |-> Connection,
    MarkToBase |-> MarkToBase, MarkToLigature |-> MarkToLigature, MarkToMark |-> MarkToMark,
    Marks |-> Marks, Mark |-> Mark, Bases |-> Bases, AnchorRow |-> AnchorRow,
    PosLigatures |-> PosLigatures,
    GlyphDefinition |-> GlyphDefinition, DefinitionHeader |-> DefinitionHeader,
    DefinitionHeader10 |-> DefinitionHeader10, DefinitionHeader12 |-> DefinitionHeader12,
    DefinitionHeader13 |-> DefinitionHeader13,
    Attachments |-> Attachments, DefLigatures |-> DefLigatures, DefLigature |-> DefLigature,
    Caret |-> Caret, Caret1 |-> Caret1, Caret2 |-> Caret2, Caret3 |-> Caret3, MarkSets |-> MarkSets,
    Store |-> Store, StoreRecord |-> StoreRecord,
    FontVariations |-> FontVariations, VariationHeader |-> VariationHeader,
    Axis |-> Axis, Instance |-> Instance,
    ColorPalettes |-> ColorPalettes, PaletteHeader |-> PaletteHeader,
    PaletteHeader1 |-> PaletteHeader1, Colors |-> Colors ]
=============================================================================
