//! The structures that the specification decodes, by their names in spec/Gen.tla.

use std::io::{Read, Seek};

use opentype::layout::{
    ChainedContext, Class, Context, Correction, Coverage, Features, Lookups, Scripts,
};
use opentype::tables::{
    glyph_positioning, glyph_substitution, ColorPalettes, FontVariations, GlyphDefinition,
    GlyphPositioning, GlyphSubstitution,
};
use opentype::variations::item::Store;
use opentype::{value, walue, Result};

use crate::project::{Output, Project};

fn take<T: value::Read + Project, S: Read + Seek>(stream: &mut S) -> Result<Output> {
    let value: T = value::Read::read(stream)?;
    let mut output = vec![];
    value.project(&mut output);
    Ok(output)
}

fn take_given<T, S>(stream: &mut S, r#type: u16) -> Result<Output>
where
    T: walue::Read<'static, Parameter = u16> + Project,
    S: Read + Seek,
{
    let value: T = walue::Read::read(stream, r#type)?;
    let mut output = vec![];
    value.project(&mut output);
    Ok(output)
}

/// Decode from the current position and observe.
pub fn decode<S: Read + Seek>(root: &str, stream: &mut S) -> Result<Output> {
    if let Some(r#type) = root.strip_prefix("Sub").and_then(|value| value.parse().ok()) {
        return take_given::<glyph_substitution::Type, _>(stream, r#type);
    }
    if let Some(r#type) = root.strip_prefix("Pos").and_then(|value| value.parse().ok()) {
        return take_given::<glyph_positioning::Type, _>(stream, r#type);
    }
    match root {
        "Coverage" => take::<Coverage, _>(stream),
        "Class" => take::<Class, _>(stream),
        "Correction" => take::<Correction, _>(stream),
        "Context" => take::<Context, _>(stream),
        "ChainedContext" => take::<ChainedContext, _>(stream),
        "Scripts" => take::<Scripts, _>(stream),
        "Features" => take::<Features, _>(stream),
        "SubLookups" => take::<Lookups<glyph_substitution::Type>, _>(stream),
        "PosLookups" => take::<Lookups<glyph_positioning::Type>, _>(stream),
        "GlyphDefinition" => take::<GlyphDefinition, _>(stream),
        "GlyphSubstitution" => take::<GlyphSubstitution, _>(stream),
        "GlyphPositioning" => take::<GlyphPositioning, _>(stream),
        "Store" => take::<Store, _>(stream),
        "FontVariations" => take::<FontVariations, _>(stream),
        "ColorPalettes" => take::<ColorPalettes, _>(stream),
        _ => panic!("unknown root {root}"),
    }
}
