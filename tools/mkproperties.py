#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "A file opens exactly when its header and table directory are well formed",
 "Opening a file succeeds exactly when the bytes at the stream's current position start with one of the four single-font signatures (0x00010000, 'OTTO', 'true', 'typ1') followed by a complete table directory; it then yields exactly one font whose directory lists the stored records in stored order with unchanged tag, checksum, offset and length. A font collection ('ttcf'), any other signature, and a directory cut short are errors. The public tag-recognition predicate accepts exactly those four signatures plus the collection signature.",
 ["inputs"], "every byte string presented as a file, at every starting position of the stream",
 "The tests open a handful of real single fonts; no test tries a collection, an unknown signature, a truncated or empty directory, or a stream that is not at position zero.",
 ["src/file.rs", "src/font.rs", "src/lib.rs"],
 [("signature check before the directory is read", "src/file.rs: File::read"), ("directory reader", "src/font.rs: Font as value::Read"), ("accept", "src/lib.rs: accept")],
 [("fonts", "the fonts of an opened file", "src/file.rs: File"), ("offsets", "the table directory", "src/font.rs: Font")], ["File::read", "opentype::accept"])
prop("C02", "A table is found by its own tag, at its recorded position, or reported absent",
 "Asking a font for a table kind consults the directory for that kind's registered four-byte tag: if no record carries the tag the answer is 'absent' (not an error, and the stream is not moved); otherwise the first record with the tag decides and the table is decoded from that record's offset counted from the start of the stream, giving exactly what decoding the kind directly at that offset gives. The existence query is true exactly when some record carries the tag. The position query leaves the stream exactly at the record's offset.",
 ["inputs", "histories"], "every table directory (any number, order and duplication of records) and every supported table kind",
 "Tests take one or two kinds from well-formed fonts; the tag-to-kind map has 16 entries, and duplicates, absent tables and record order are never exercised.",
 ["src/font.rs", "src/table.rs"],
 [("record search", "src/font.rs: Font::position, Font::exists"), ("tag map", "src/table.rs: implement!")],
 [("records", "directory entries", "Font::offsets")], ["Font::exists", "Font::position", "Font::take", "Font::take_given"])
prop("C03", "No table is handed out unless its checksum matches, unless that is disabled",
 "In the default build, a table that the directory lists is positioned at or decoded only if the recorded checksum equals the wrapping 32-bit big-endian word sum of the table's recorded bytes, with bytes past the recorded length in the last word counted as zero and with the third word of the font-header table left out; otherwise the request fails with an error. In a build with the feature that ignores invalid checksums, the recorded checksum has no influence on any result. The checksum of one table never influences access to another.",
 ["inputs", "configurations"], "every table content, length (any remainder modulo 4), recorded checksum and table kind, in both builds",
 "One fixture has a bad checksum in one table; the last-word masking, the font-header exemption and the independence between tables are not exercised by any test.",
 ["src/font.rs"], [("checksum gate", "src/font.rs: Font::position")], None, ["Font::position", "Font::take", "Font::take_given"])
prop("C04", "Table access does not depend on what was accessed before",
 "For an opened font and an unchanging stream, each existence query, position query and table request gives the same answer no matter which queries, requests (successful, absent or failed) and stream repositionings by the caller came before it. Requests never change the font's directory.",
 ["histories"], "every sequence of font operations interleaved with arbitrary caller-made seeks",
 "Tests perform at most four accesses in one fixed order right after opening.",
 ["src/font.rs"], [("absolute jump before each read", "src/font.rs: Font::position"), ("shared reference receiver", "src/font.rs: Font::take")],
 [("stream position", "shared mutable cursor of the caller's stream", "tape")], ["Font::*"])
prop("C05", "Results do not depend on how the stream delivers bytes, and its failures surface",
 "Decoding anything from a stream that returns fewer bytes than asked for, or reports an interrupted read, gives the same result as from a stream that delivers everything at once. If any read or seek made while decoding fails with another error, the decoding call returns that error; it never returns a value that was built around a failed read or seek.",
 ["schedules", "fault_sequences"], "every splitting of reads into short or interrupted reads, and a failure injected at every read or seek of every decoding",
 "Tests only use local files, which never deliver short reads, interruptions or failures.",
 ["src/font.rs", "src/file.rs", "src/layout/directory.rs", "src/layout/lookup.rs", "src/tables/font_variations/mod.rs", "src/tables/glyph_positioning/element.rs"],
 [("error propagation with ? at every stream operation", "all readers")], None, ["value::Read::read", "File::read", "Font::take"])
prop("C06", "Decoding is total: any bytes give a value or an error, never a panic",
 "For every byte string, starting position and table kind that this library itself decodes, and in every build configuration including builds with overflow checks and debug assertions, opening a file, requesting a table, decoding a layout, positioning, substitution, definition, variation or palette structure, and then using the lookups and iterators that the decoded value offers, each return normally with a value or an error. They never panic, overflow, or index out of bounds, and a single count in small data never makes them set aside gigabytes at once (decoding inputs that really describe more data than fits in memory is outside this statement).",
 ["inputs", "configurations"], "every byte string, every decodable type, all feature configurations",
 "Tests feed only well-formed fonts; panics hide in inconsistent counts, offsets, sizes and indices that only malformed input has.",
 ["src/font.rs", "src/variations/item.rs", "src/tables/color_palettes.rs", "src/layout/correction.rs", "src/layout/context.rs", "src/tables/font_variations/mod.rs", "src/tables/glyph_positioning/element.rs"],
 [("checked counts", "src/layout/context.rs, src/tables/glyph_substitution/element.rs"), ("range check of palette indices", "src/tables/color_palettes.rs")], None, ["all decoding entry points"])
prop("C07", "Truncated data never decodes to a different value",
 "If a byte string is cut short, decoding any supported structure from the remainder either fails or gives exactly the value that the whole string gives. In particular every array in a decoded value has exactly as many elements as the data declares; missing data is never replaced by defaults or shortened arrays.",
 ["inputs"], "every byte string and every cut point, for every decodable structure",
 "Tests never decode truncated data.",
 ["src/layout", "src/tables", "src/variations"], [("exact reads and exact counts", "all readers")], None, ["value::Read::read", "walue::Read::read"])
prop("C08", "Decoding depends only on the table's own bytes, not on where it is embedded",
 "Decoding a structure gives the same result wherever in the stream it starts and whatever bytes precede it, as long as the bytes from its start onward are the same; appending bytes after the data it refers to does not change a successfully decoded value. All offsets are resolved relative to the start of the structure that defines them, never relative to the stream, the parent or the current cursor.",
 ["inputs"], "every structure, every starting position and every surrounding content",
 "Each test decodes a table at one fixed position of one file.",
 ["src/layout", "src/tables", "src/variations"], [("position captured on entry, offsets added to it", "all readers with offsets")], None, ["value::Read::read"])
prop("C09", "A layout table decodes to its script, feature and lookup lists by version",
 "A substitution or positioning table is accepted only in version 1.0 or 1.1; its script, feature and lookup lists are those at its three offsets, in that order of fields, and its feature variations are present exactly when the version is 1.1 and their 32-bit offset is nonzero. Without the feature that tolerates incomplete directories, the three list offsets are always followed; with it, a zero list offset gives an empty list and nonzero offsets are still followed. The offsets themselves are reported unchanged.",
 ["inputs", "configurations"], "every header and every combination of zero, distinct and shared offsets, with and without the tolerance feature",
 "Fixtures are version 1.0 or 1.1 with all lists present, so version gating, null lists and the tolerant build are unexercised.",
 ["src/layout/directory.rs", "src/layout/feature.rs"], [("version match and gated field", "src/layout/directory.rs"), ("tolerance feature", "src/layout/directory.rs")], None, ["GlyphSubstitution", "GlyphPositioning"])
prop("C10", "Scripts and languages are listed completely and looked up by tag",
 "A decoded script list has one header and one record per declared script in stored order, each record being the script at its own header's offset; a script's default language system is present exactly when its offset is nonzero, and its language systems likewise follow their own headers. Looking up a script or language by tag returns the record belonging to the first header with exactly that tag, and nothing when no header has it. A language system keeps its required feature index and all its feature indices in order, and is rejected when its reserved lookup-order field is nonzero.",
 ["inputs"], "every script list, including unsorted, duplicate and shared entries, and every tag looked up",
 "Tests check tags of four fonts with at most three languages and never check that a lookup returns the right record.",
 ["src/layout/script.rs", "src/layout/language.rs"], [("headers and records read in parallel", "src/layout/script.rs: Scripts, Record"), ("tag lookup", "src/layout/script.rs: get")], None, ["Scripts::get", "script::Record::get"])
prop("C11", "Features are listed completely and looked up by tag",
 "A decoded feature list has one header and one record per declared feature in stored order, each record being the feature at its own header's offset with all its lookup indices in order. Feature parameters are reported present exactly when their offset is nonzero. Looking up a feature by tag returns the record belonging to the first header with exactly that tag, and nothing when no header has it.",
 ["inputs"], "every feature list, including duplicate tags and shared records",
 "Tests compare header tags and lookup counts of six fonts; record contents, parameters and lookups by tag are unchecked.",
 ["src/layout/feature.rs"], [("headers and records read in parallel", "src/layout/feature.rs: Features"), ("tag lookup", "src/layout/feature.rs: Features::get")], None, ["Features::get"])
prop("C12", "Lookups keep order, flags and kind; subtables are decoded as that kind",
 "A decoded lookup list has one record per declared lookup in stored order; each keeps its type, its flags (with each flag query reporting its own bit) and all its subtables in stored order, every one decoded as the kind that the lookup's type number denotes for that table (eight kinds for substitution, nine for positioning). The mark filtering set is present exactly when the corresponding flag bit is set and is read from right after the subtable offsets. A lookup with reserved flag bits set is rejected.",
 ["inputs"], "every lookup list, type number, flag value and number of subtables",
 "Fixtures use a few lookup types with common flags; no test has a mark filtering set, reserved flags, or an unknown type.",
 ["src/layout/lookup.rs", "src/tables/glyph_substitution/mod.rs", "src/tables/glyph_positioning/mod.rs"], [("type dispatch", "Type as walue::Read"), ("flag-gated field", "src/layout/lookup.rs: Record")], None, ["Lookups::records"])
prop("C13", "Coverage and class tables decode every glyph, range and class as stored",
 "A coverage table decodes to its stored glyph list (format 1) or its stored ranges with start, end and starting coverage index (format 2); a class table decodes to its start glyph and class values (format 1) or its class ranges (format 2). All counts, orders and values are preserved over the full 16-bit range. Any other format number is an error.",
 ["inputs"], "every coverage and class table, both formats, any count and any 16-bit values",
 "One test checks one class range; coverage contents are never compared.",
 ["src/layout/coverage.rs", "src/layout/class.rs"], [("format dispatch", "Coverage, Class as value::Read")], None, ["Coverage", "Class"])
prop("C14", "Device and variation corrections are told apart and decoded to exact length",
 "A correction is decoded as a device table when its format word is 1, 2 or 3, as a variation index when it is 0x8000, and is an error otherwise. A device table with sizes start to end holds exactly the number of 16-bit words needed for (end - start + 1) values of 2, 4 or 8 bits for formats 1, 2 and 3, and no more; a start size above the end size is an error. The variation index keeps its outer and inner index.",
 ["inputs"], "every start and end size, every format word",
 "No test reaches a device or variation correction; the word count depends on size and format jointly.",
 ["src/layout/correction.rs"], [("format dispatch on the third word", "Correction as value::Read"), ("word count", "Device as value::Read")], None, ["Correction"])
prop("C15", "Contextual and chained contextual lookups decode every rule as stored",
 "Contextual and chained contextual lookups decode, in all three formats, to exactly the stored coverages, class definitions, rule sets, rules, glyph or class sequences and actions, each in stored order, with backtrack, input and lookahead parts kept apart. In class-based formats a rule set is absent exactly when its offset is zero. An input sequence holds one element fewer than its declared glyph count, and a declared count of zero is an error.",
 ["inputs"], "every contextual and chained contextual table in formats 1 to 3",
 "Fixtures decode some contexts but no test compares a single rule, sequence or action.",
 ["src/layout/context.rs"], [("format dispatch and rule readers", "src/layout/context.rs")], None, ["Context", "ChainedContext"])
prop("C16", "Glyph substitutions decode every mapping as stored",
 "Single, multiple, alternate, ligature, extension and reverse chained substitutions decode to exactly the stored coverage, delta or substitute glyphs, sequences, alternates, ligatures and context coverages, in stored order. A ligature holds one component fewer than its declared count, and a declared count of zero is an error. Kinds that define a single format reject any other format number.",
 ["inputs"], "every substitution subtable of every kind and format",
 "Tests check which kinds occur in two fonts, not what they contain.",
 ["src/tables/glyph_substitution/mod.rs", "src/tables/glyph_substitution/element.rs"], [("subtable readers", "src/tables/glyph_substitution")], None, ["glyph_substitution::Type"])
prop("C17", "Single and pair adjustments decode value records exactly as their formats say",
 "A value record contains exactly those of the four placements and advances and four correction offsets whose format bits are set, in bit order, and each correction is present exactly when its offset is present and nonzero; records with an empty format in a pair are absent. Correction offsets count from the enclosing subtable, except in pair sets where they count from the pair set, and following a correction never disturbs the records after it. Single and pair adjustments in both formats decode to exactly the stored records in row order, coverages and class definitions; value formats with reserved bits are an error.",
 ["inputs"], "every combination of value formats, counts, offsets and corrections in both formats of both kinds",
 "Two tests check record counts of one font; the 256 value formats and all corrections are unexercised.",
 ["src/tables/glyph_positioning/mod.rs", "src/tables/glyph_positioning/element.rs"], [("conditional fields and cursor restore", "Single as walue::Read"), ("row-major records", "PairAdjustment1, PairAdjustment2")], None, ["SingleAdjustment", "PairAdjustment"])
prop("C18", "Cursive and mark attachments decode every anchor in its place",
 "Cursive, mark-to-base, mark-to-ligature and mark-to-mark attachments decode to exactly the stored coverages, mark classes and anchor matrices, with one anchor slot per mark class for each base, ligature component or second mark; a slot is empty exactly when its offset is zero, and anchors in formats 1 to 3 keep coordinates, point index and corrections. Anchor offsets count from the array or ligature that holds them (for cursive attachments, the subtable). A mark's own anchor is always followed unless the feature tolerating incomplete marks is on, in which case a zero offset gives a default anchor and nonzero offsets are still followed.",
 ["inputs", "configurations"], "every attachment subtable, any class count, any pattern of empty and shared anchors, with and without the tolerance feature",
 "No test looks at any attachment.",
 ["src/tables/glyph_positioning/mod.rs", "src/tables/glyph_positioning/element.rs"], [("anchor matrices with cursor restore", "Base, Component, Mark1, Mark2, Connection as walue::Read"), ("tolerance feature", "Mark1")], None, ["CursiveAttachment", "MarkToBaseAttachment", "MarkToLigatureAttachment", "MarkToMarkAttachment"])
prop("C19", "A glyph definition exposes exactly the parts its version defines",
 "A glyph definition is accepted in versions 1.0, 1.2 and 1.3 only; glyph classes, attachments, ligature carets and mark classes are present exactly when their offsets are nonzero, mark sets only from version 1.2 and variation data only in version 1.3, each decoded from its own offset. Attachment points, ligature carets in all three formats and mark sets decode exactly as stored.",
 ["inputs"], "every header version and every combination of zero and nonzero offsets",
 "One fixture of version 1.0 with an empty caret list is the only input.",
 ["src/tables/glyph_definition/mod.rs", "src/tables/glyph_definition/element.rs"], [("version dispatch and gated offsets", "GlyphDefinition, Header"), ("caret dispatch", "Caret as value::Read")], None, ["GlyphDefinition"])
prop("C20", "An item variation store decodes every data record with its exact extent",
 "An item variation store of format 1 decodes to its region-list offset and one data record per declared offset, each at its own offset. Each record keeps its counts and region indices in order and holds exactly item-count rows of (short-count plus region-count) delta bytes, whatever the counts are. Any other format is an error.",
 ["inputs"], "every combination of item, short-delta and region counts over 16 bits",
 "No test reaches a variation store; the extent is a product of three independent 16-bit counts.",
 ["src/variations/item.rs"], [("delta extent", "src/variations/item.rs: Record")], None, ["variations::item::Store"])
prop("C21", "Font variations list every axis and named instance from its own slot",
 "A font-variations table of major version 1 decodes to one axis per declared axis and one instance per declared instance; axis i starts at the axis-array offset plus i times the declared axis size, and instance j at the end of the axis array plus j times the declared instance size. Each instance has exactly one coordinate per axis, and its optional PostScript name is taken from its own record when the declared instance size has room for it and is 'not provided' (0xFFFF) otherwise. Reserved axis or instance flags and a wrong reserved header field are errors.",
 ["inputs"], "every header, including axis and instance sizes larger than the minimum and instances without PostScript names",
 "One fixture with standard sizes is checked for two values of its first axis.",
 ["src/tables/font_variations/mod.rs"], [("strided slots", "FontVariations as value::Read"), ("instance reader", "InstanceRecord as walue::Read")], None, ["FontVariations"])
prop("C22", "Palettes yield exactly the declared colors of each palette",
 "A color-palette table of version 0 or 1 decodes to its header, its per-palette first-color indices and all its color records with blue, green, red and alpha in stored order; other versions are errors. Iterating gives one palette per declared palette in order, each with exactly the declared number of entries, entry k being the color at the palette's first index plus k. A table in which some palette would reach past the color records is an error, so iteration never fails.",
 ["inputs"], "every palette, entry and color count, overlapping and out-of-range palettes",
 "Two fixtures (one missing from the checkout) with one or a few palettes in range.",
 ["src/tables/color_palettes.rs"], [("index range check", "ColorPalettes as value::Read"), ("iterator", "ColorPalettes::iter")], None, ["ColorPalettes::iter"])
prop("C23", "Script and feature tags map to registered names and back without loss",
 "Converting any four-byte tag to a script or a feature and back gives the same tag, registered tags are never treated as unknown, and unknown tags are kept verbatim and have no name. Every registered script and feature tag has the registered name, and distinct tags never convert to equal values.",
 ["inputs"], "all four-byte tags, in particular all registered ones and their near misses",
 "Tests convert five scripts; about 390 registry entries and the fallback are unexercised.",
 ["src/layout/script.rs", "src/layout/feature.rs"], [("registry macros", "implement! in script.rs and feature.rs")], None, ["Script", "Feature"])
prop("C24", "Language tags map to registered names and ISO 639 codes and back without loss",
 "Converting any four-byte tag to a language and back gives the same tag; registered tags have the registered name and exactly the registered ISO 639 codes in order, while unknown tags are kept verbatim and have neither. Distinct tags never convert to equal values. The default-language tag is a registered language, without codes, only in builds with the default-language feature, and is an unknown tag otherwise.",
 ["inputs", "configurations"], "all four-byte tags, with and without the default-language feature",
 "One unit test counts the codes of two of about 590 languages.",
 ["src/layout/language.rs"], [("registry macro", "implement! in language.rs"), ("feature gate", "b\"DFLT\" entry")], None, ["Language"])
prop("C25", "Unknown versions, formats, types and reserved bits are errors, never guesses",
 "Wherever a structure is told apart by a version, format or type number (layout tables, coverages, classes, corrections, anchors, carets, contexts, single and pair lookups, lookup types, glyph definitions, palettes, feature variations), every value that is not defined for it makes decoding fail, at any nesting depth. The same holds for fields that must have a fixed value and for reserved bits of lookup, value, axis and instance flags.",
 ["inputs"], "all 16-bit (or 32-bit) values of every discriminating, fixed-value or flag field of every structure",
 "Fixtures contain only defined values.",
 ["src/layout", "src/tables", "src/variations"], [("catch-all arms that raise", "all dispatching readers"), ("fixed-value fields and flag validation", "table! and flags! uses")], None, ["value::Read::read"])
prop("C26", "Tolerance features change nothing but what they tolerate",
 "Data whose layout-list offsets and mark-anchor offsets are all nonzero and whose checksums are right decodes to the same result in every combination of the crate's features. Each tolerance feature affects only its own case: a zero list offset in a layout table, a zero anchor offset of a mark, a mismatching checksum; all other errors stay errors. The default-language feature affects only the naming of the default-language tag.",
 ["configurations", "inputs"], "all feature combinations crossed with all inputs",
 "Each test runs under two feature sets with assertions that do not distinguish them (save one checksum test).",
 ["Cargo.toml", "src/font.rs", "src/layout/directory.rs", "src/tables/glyph_positioning/element.rs", "src/layout/language.rs"], [("cfg(feature) branches", "the four feature gates")], None, ["all decoding entry points"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
