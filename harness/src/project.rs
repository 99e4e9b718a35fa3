//! The observation of decoded values: everything their public fields and methods tell, as a flat
//! sequence of numbers, exactly in the form that the specification (spec/Reader.tla) predicts.

use opentype::layout::class::{self, Class};
use opentype::layout::context::{self, ChainedContext, Context};
use opentype::layout::correction::{self, Correction};
use opentype::layout::coverage::{self, Coverage};
use opentype::layout::feature::{self, Features};
use opentype::layout::language;
use opentype::layout::lookup::{self, Lookups};
use opentype::layout::script::{self, Scripts};
use opentype::layout::Directory;
use opentype::tables::color_palettes::{self, ColorPalettes};
use opentype::tables::font_variations::{self, FontVariations};
use opentype::tables::glyph_definition::{self as gdef, GlyphDefinition};
use opentype::tables::glyph_positioning as gpos;
use opentype::tables::glyph_substitution as gsub;
use opentype::truetype::tables::names::NameID;
use opentype::truetype::{q32, Tag};
use opentype::variations::item;

pub type Output = Vec<i64>;

pub trait Project {
    fn project(&self, o: &mut Output);
}

macro_rules! numbers(($($type:ty),*) => ($(
    impl Project for $type {
        #[inline]
        fn project(&self, o: &mut Output) { o.push(*self as i64); }
    }
)*));

numbers!(u8, u16, i16);

impl Project for u32 {
    #[inline]
    fn project(&self, o: &mut Output) {
        o.push((*self >> 16) as i64);
        o.push((*self & 0xFFFF) as i64);
    }
}

impl Project for Tag {
    fn project(&self, o: &mut Output) {
        u32::from_be_bytes(self.0).project(o);
    }
}

impl Project for q32 {
    fn project(&self, o: &mut Output) {
        (self.0 as u32).project(o);
    }
}

impl Project for NameID {
    fn project(&self, o: &mut Output) {
        u16::from(*self).project(o);
    }
}

impl<T: Project> Project for Vec<T> {
    fn project(&self, o: &mut Output) {
        o.push(self.len() as i64);
        for value in self {
            value.project(o);
        }
    }
}

impl<T: Project> Project for Option<T> {
    fn project(&self, o: &mut Output) {
        match self {
            Some(value) => {
                o.push(1);
                value.project(o);
            }
            None => o.push(0),
        }
    }
}

macro_rules! records(($($type:ty { $($field:ident),* $(,)? })*) => ($(
    impl Project for $type {
        fn project(&self, o: &mut Output) {
            $(self.$field.project(o);)*
        }
    }
)*));

macro_rules! choices(($($type:ty { $($variant:ident = $value:expr),* $(,)? })*) => ($(
    impl Project for $type {
        fn project(&self, o: &mut Output) {
            match self {
                $(Self::$variant(value) => {
                    o.push($value);
                    value.project(o);
                })*
            }
        }
    }
)*));

macro_rules! flags(($($type:ty { $($query:ident),* $(,)? })*) => ($(
    impl Project for $type {
        fn project(&self, o: &mut Output) {
            o.push(self.0 as i64);
            $(o.push(self.$query() as i64);)*
        }
    }
)*));

choices! {
    Coverage { Format1 = 1, Format2 = 2 }
    Class { Format1 = 1, Format2 = 2 }
    Correction { Device = 1, Variation = 2 }
    Context { Format1 = 1, Format2 = 2, Format3 = 3 }
    ChainedContext { Format1 = 1, Format2 = 2, Format3 = 3 }
}

records! {
    coverage::Coverage1 { format, glyph_count, glyph_ids }
    coverage::Coverage2 { format, record_count, records }
    coverage::Record { start_glyph_id, end_glyph_id, index }
    class::Class1 { format, start_glyph_id, glyph_count, indices }
    class::Class2 { format, record_count, records }
    class::Record { start_glyph_id, end_glyph_id, index }
    correction::Device { start_size, end_size, format, deltas }
    correction::Variation { outer_index, inner_index, format }

    context::Context1 { format, coverage_offset, record_count, record_offsets, coverage, records }
    context::Context2 {
        format, coverage_offset, class_offset, record_count, record_offsets, coverage, class, records,
    }
    context::Context3 { format, glyph_count, action_count, coverage_offsets, actions, coverages }
    context::Record { glyph_count, action_count, glyph_ids, actions }
    context::Records { count, offsets, records }
    context::ClassRecord { glyph_count, action_count, indices, actions }
    context::ClassRecords { count, offsets, records }
    context::Action { position_index, lookup_index }
    context::ChainedContext1 {
        format, coverage_offset, record_count, record_offsets, coverage, records,
    }
    context::ChainedContext2 {
        format, coverage_offset, backward_class_offset, class_offset, forward_class_offset,
        record_count, record_offsets, coverage, backward_class, class, forward_class, records,
    }
    context::ChainedContext3 {
        format, backward_glyph_count, backward_coverage_offsets, glyph_count, coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, action_count, actions,
        backward_coverages, coverages, forward_coverages,
    }
    context::ChainedRecord {
        backward_glyph_count, backward_glyph_ids, glyph_count, glyph_ids,
        forward_glyph_count, forward_glyph_ids, action_count, actions,
    }
    context::ChainedRecords { count, offsets, records }
    context::ChainedClassRecord {
        backward_glyph_count, backward_indices, glyph_count, indices,
        forward_glyph_count, forward_indices, action_count, actions,
    }
    context::ChainedClassRecords { count, offsets, records }

    script::Header { tag, offset }
    language::Header { tag, offset }
    language::Record {
        lookup_order_offset, required_feature_index, feature_index_count, feature_indices,
    }
    feature::Header { tag, offset }
    feature::Variations { major_version, minor_version, count }
}

flags! {
    lookup::Flags {
        is_right_to_left, should_ignore_base_glyphs, should_ignore_ligature, should_ignore_marks,
        has_mark_filtering,
    }
    gpos::Flags {
        has_x_placement, has_y_placement, has_x_advance, has_y_advance,
        has_x_placement_correction, has_y_placement_correction,
        has_x_advance_correction, has_y_advance_correction,
    }
    font_variations::AxisFlags { is_hidden }
    font_variations::InstanceFlags {}
}

/// For every header, its own tag and three tags near it; then four fixed tags.
fn probes(tags: &[Tag]) -> Vec<Tag> {
    let mut probes = vec![];
    for tag in tags {
        let [a, b, c, d] = tag.0;
        probes.push(Tag([a, b, c, d]));
        probes.push(Tag([a, b, c, d ^ 1]));
        probes.push(Tag([a ^ 0x20, b, c, d]));
        probes.push(Tag([c, d, a, b]));
    }
    for tag in [*b"DFLT", *b"latn", *b"    ", [0; 4]] {
        probes.push(Tag(tag));
    }
    probes
}

/// The number of the record that a query answers with, counting from one, or zero.
fn number<T>(records: &[T], answer: Option<&T>) -> i64 {
    match answer {
        None => 0,
        Some(answer) => match records.iter().position(|record| std::ptr::eq(record, answer)) {
            Some(i) => i as i64 + 1,
            None => -1,
        },
    }
}

impl Project for Scripts {
    fn project(&self, o: &mut Output) {
        self.count.project(o);
        self.headers.project(o);
        self.records.project(o);
        let tags: Vec<_> = self.headers.iter().map(|header| header.tag).collect();
        for tag in probes(&tags) {
            o.push(number(&self.records, self.get(tag)));
        }
        // Looking up by the name of a script must agree with looking up by its tag.
        for tag in probes(&tags) {
            let script = script::Script::from_tag(&tag);
            if !agree(self.get(tag), self.get(script)) {
                o.push(-2);
            }
        }
    }
}

impl Project for script::Record {
    fn project(&self, o: &mut Output) {
        self.default_language_offset.project(o);
        self.language_count.project(o);
        self.language_headers.project(o);
        self.default_language.project(o);
        self.language_records.project(o);
        let tags: Vec<_> = self.language_headers.iter().map(|header| header.tag).collect();
        for tag in probes(&tags) {
            o.push(number(&self.language_records, self.get(tag)));
        }
        for tag in probes(&tags) {
            let language = language::Language::from_tag(&tag);
            if !agree(self.get(tag), self.get(language)) {
                o.push(-2);
            }
        }
    }
}

fn agree<T>(one: Option<&T>, other: Option<&T>) -> bool {
    match (one, other) {
        (None, None) => true,
        (Some(one), Some(other)) => std::ptr::eq(one, other),
        _ => false,
    }
}

impl Project for Features {
    fn project(&self, o: &mut Output) {
        self.count.project(o);
        self.headers.project(o);
        self.records.project(o);
        let tags: Vec<_> = self.headers.iter().map(|header| header.tag).collect();
        for tag in probes(&tags) {
            o.push(number(&self.records, self.get(tag)));
        }
        for tag in probes(&tags) {
            let feature = feature::Feature::from_tag(&tag);
            if !agree(self.get(tag), self.get(feature)) {
                o.push(-2);
            }
        }
    }
}

impl Project for feature::Record {
    fn project(&self, o: &mut Output) {
        self.parameter_offset.project(o);
        self.lookup_index_count.project(o);
        self.lookup_indices.project(o);
        o.push(self.parameters.is_some() as i64);
    }
}

impl<T: Project> Project for Lookups<T> {
    fn project(&self, o: &mut Output) {
        self.count.project(o);
        self.offsets.project(o);
        self.records.project(o);
    }
}

impl<T: Project> Project for lookup::Record<T> {
    fn project(&self, o: &mut Output) {
        self.r#type.project(o);
        self.flags.project(o);
        self.table_count.project(o);
        self.table_offsets.project(o);
        self.mark_filtering_set.project(o);
        self.tables.project(o);
    }
}

impl<T: Project> Project for Directory<T> {
    fn project(&self, o: &mut Output) {
        self.major_version.project(o);
        self.minor_version.project(o);
        self.script_offset.project(o);
        self.feature_offset.project(o);
        self.lookup_offset.project(o);
        self.variation_offset.project(o);
        self.scripts.project(o);
        self.features.project(o);
        self.lookups.project(o);
        self.variations.project(o);
    }
}

choices! {
    gsub::Type {
        SingleSubstitution = 1,
        MultipleSubstitution = 2,
        AlternateSubstitution = 3,
        LigatureSubstitution = 4,
        ContextualSubstitution = 5,
        ChainedContextualSubstitution = 6,
        ExtensionSubstitution = 7,
        ReverseChainedContextualSubstibution = 8,
    }
    gsub::SingleSubstitution { Format1 = 1, Format2 = 2 }
    gpos::Type {
        SingleAdjustment = 1,
        PairAdjustment = 2,
        CursiveAttachment = 3,
        MarkToBaseAttachment = 4,
        MarkToLigatureAttachment = 5,
        MarkToMarkAttachment = 6,
        ContextualPositioning = 7,
        ChainedContextualPositioning = 8,
        ExtensionPositioning = 9,
    }
    gpos::SingleAdjustment { Format1 = 1, Format2 = 2 }
    gpos::PairAdjustment { Format1 = 1, Format2 = 2 }
    gpos::Anchor { Format1 = 1, Format2 = 2, Format3 = 3 }
    gdef::Header { Version1 = 1, Version12 = 2, Version13 = 3 }
    gdef::Caret { Format1 = 1, Format2 = 2, Format3 = 3 }
    color_palettes::Header { Version0 = 0, Version1 = 1 }
}

records! {
    gsub::SingleSubstitution1 { format, coverage_offset, delta_glyph_id, coverage }
    gsub::SingleSubstitution2 { format, coverage_offset, glyph_count, glyph_ids, coverage }
    gsub::MultipleSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records,
    }
    gsub::AlternateSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records,
    }
    gsub::LigatureSubstitution {
        format, coverage_offset, record_count, record_offsets, coverage, records,
    }
    gsub::ExtensionSubstitution { format, r#type, offset }
    gsub::ReverseChainedContextualSubstibution {
        format, coverage_offset, backward_glyph_count, backward_coverage_offsets,
        forward_glyph_count, forward_coverage_offsets, glyph_count, glyph_ids,
        coverage, backward_coverages, forward_coverages,
    }
    gsub::Sequence { glyph_count, glyph_ids }
    gsub::Alternates { glyph_count, glyph_ids }
    gsub::Ligatures { count, offsets, records }
    gsub::Ligature { glyph_id, glyph_count, glyph_ids }

    gpos::SingleAdjustment1 { format, coverage_offset, value_flags, value, coverage }
    gpos::SingleAdjustment2 { format, coverage_offset, value_flags, value_count, values, coverage }
    gpos::PairAdjustment1 {
        format, coverage_offset, value1_flags, value2_flags, record_count, record_offsets,
        coverage, records,
    }
    gpos::PairAdjustment2 {
        format, coverage_offset, value1_flags, value2_flags, class1_offset, class2_offset,
        class1_count, class2_count, records, coverage, class1, class2,
    }
    gpos::Pair1 { glyph2_id, value1, value2 }
    gpos::Pair1s { count, records }
    gpos::Pair2 { value1, value2 }
    gpos::Pair2s { records }
    gpos::Single {
        x_placement, y_placement, x_advance, y_advance,
        x_placement_correction_offset, y_placement_correction_offset,
        x_advance_correction_offset, y_advance_correction_offset,
        x_placement_correction, y_placement_correction,
        x_advance_correction, y_advance_correction,
    }
    gpos::CursiveAttachment { format, coverage_offset, connection_count, connections, coverage }
    gpos::Connection { start_anchor_offset, end_anchor_offset, start_anchor, end_anchor }
    gpos::MarkToBaseAttachment {
        format, mark_coverage_offset, base_coverage_offset, mark_class_count, marks_offset,
        bases_offset, mark_coverage, base_coverage, marks, bases,
    }
    gpos::MarkToLigatureAttachment {
        format, mark_coverage_offset, ligature_coverage_offset, mark_class_count, marks_offset,
        ligatures_offset, mark_coverage, ligature_coverage, marks, ligatures,
    }
    gpos::MarkToMarkAttachment {
        format, mark1_coverage_offset, mark2_coverage_offset, mark_class_count, mark1s_offset,
        mark2s_offset, mark1_coverage, mark2_coverage, mark1s, mark2s,
    }
    gpos::ExtensionPositioning { format, r#type, offset }
    gpos::Mark1s { count, records }
    gpos::Mark1 { class_id, anchor_offset, anchor }
    gpos::Bases { count, records }
    gpos::Base { anchor_offsets, anchors }
    gpos::Ligatures { count, offsets, records }
    gpos::Ligature { count, components }
    gpos::Component { anchor_offsets, anchors }
    gpos::Mark2s { count, records }
    gpos::Mark2 { anchor_offsets, anchors }
    gpos::Anchor1 { format, x, y }
    gpos::Anchor2 { format, x, y, index }
    gpos::Anchor3 {
        format, x, y, x_correction_offset, y_correction_offset, x_correction, y_correction,
    }

    GlyphDefinition { header, glyph_class, attachments, ligatures, mark_class, marks, variations }
    gdef::Header1 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset,
    }
    gdef::Header12 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset, mark_offset,
    }
    gdef::Header13 {
        major_version, minor_version, glyph_class_offset, attachment_offset, ligature_offset,
        mark_class_offset, mark_offset, variation_offset,
    }
    gdef::Attachments { coverage_offset, count, offsets, coverage, records }
    gdef::Attachment { index_count, indices }
    gdef::Ligatures { coverage_offset, count, offsets, coverage, records }
    gdef::Ligature { caret_count, caret_offsets, carets }
    gdef::Caret1 { format, coordinate }
    gdef::Caret2 { format, index }
    gdef::Caret3 { format, coordinate, correction_offset, correction }
    gdef::Marks { format, count, coverage_offsets, coverages }

    item::Store { format, region_offset, count, offsets, records }
    item::Record { item_count, short_delta_count, region_count, region_indices, deltas }

    FontVariations { header, axis_records, instance_records }
    font_variations::Header {
        major_version, minor_version, axis_offset, reserved, axis_count, axis_size,
        instance_count, instance_size,
    }
    font_variations::AxisRecord { tag, min_value, default_value, max_value, flags, name_id }
    font_variations::InstanceRecord { subfamily_name_id, flags, coordinates, postscript_name_id }

    color_palettes::Header0 {
        version, entry_count, palette_count, color_count, color_offset, color_indices,
    }
    color_palettes::Header1 {
        version, entry_count, palette_count, color_count, color_offset, color_indices,
    }
    color_palettes::Color { blue, green, red, alpha }
}

impl Project for ColorPalettes {
    fn project(&self, o: &mut Output) {
        self.header.project(o);
        self.colors.project(o);
        let palettes: Vec<Vec<_>> = self.iter().map(Iterator::collect).collect();
        o.push(palettes.len() as i64);
        for palette in palettes {
            o.push(palette.len() as i64);
            for color in palette {
                color.project(o);
            }
        }
    }
}
