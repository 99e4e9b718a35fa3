//! The container: opening a file, and asking its font for tables.

use std::io::{Cursor, ErrorKind, Read, Seek, SeekFrom};
use std::panic::{catch_unwind, AssertUnwindSafe};

use opentype::postscript::compact1::FontSet;
use opentype::tables::{
    ColorPalettes, FontVariations, GlyphDefinition, GlyphPositioning, GlyphSubstitution,
};
use opentype::truetype::tables::{
    CharacterMapping, FontHeader, GlyphData, GlyphMapping, HorizontalHeader, HorizontalMetrics,
    MaximumProfile, Names, PostScript, WindowsMetrics,
};
use opentype::{value, File, Font, Result, Table};

use crate::input::Value;
use crate::project::Project;
use crate::stream::{failures, is_injected, Choppy, Faulty};
use crate::{case::hexadecimal, Options, Report};

#[derive(Clone, Debug, PartialEq)]
pub enum Decoded {
    Own(Vec<i64>),
    Foreign(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Yes,
    No,
    Absent,
    At(u64),
    Decoded(Decoded),
    Error(String),
    Injected,
    Panic,
}

trait Show {
    fn show(&self) -> Decoded;
}

macro_rules! own(($($type:ident,)+) => ($(impl Show for $type {
    fn show(&self) -> Decoded {
        let mut output = vec![];
        self.project(&mut output);
        Decoded::Own(output)
    }
})+));

macro_rules! foreign(($($type:ident,)+) => ($(impl Show for $type {
    fn show(&self) -> Decoded {
        Decoded::Foreign(format!("{self:?}"))
    }
})+));

own! { ColorPalettes, FontVariations, GlyphDefinition, GlyphPositioning, GlyphSubstitution, }
impl Show for FontSet {
    fn show(&self) -> Decoded {
        // The dictionaries in it have no order.
        let text = format!("{self:#?}");
        let mut lines: Vec<_> = text.lines().collect();
        lines.sort();
        Decoded::Foreign(lines.join("\n"))
    }
}

foreign! {
    WindowsMetrics, CharacterMapping, FontHeader, HorizontalHeader, MaximumProfile,
    Names, PostScript, GlyphData, GlyphMapping, HorizontalMetrics,
}

/// The parameters that some kinds need.
pub struct Parameters {
    header: FontHeader,
    profile: MaximumProfile,
    horizontal: HorizontalHeader,
    mapping: GlyphMapping,
}

impl Parameters {
    pub fn new() -> Self {
        let mut header = vec![0, 1, 0, 0, 0, 2, 128, 0, 177, 2, 3, 4, 95, 15, 60, 245, 0, 11, 3, 232];
        header.resize(54, 0);
        let profile = [0, 0, 0x50, 0, 0, 4];
        let mut horizontal = vec![0, 1, 0, 0];
        horizontal.resize(34, 0);
        horizontal.extend_from_slice(&[0, 2]);
        let header: FontHeader = take(&mut Cursor::new(header)).unwrap();
        let profile: MaximumProfile = take(&mut Cursor::new(profile)).unwrap();
        let mapping = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        let mapping = opentype::walue::Read::read(
            &mut Cursor::new(mapping),
            (&header, &profile),
        )
        .unwrap();
        Self {
            horizontal: take(&mut Cursor::new(horizontal)).unwrap(),
            header,
            profile,
            mapping,
        }
    }
}

fn take<T: value::Read>(stream: &mut (impl Read + Seek)) -> Result<T> {
    value::Read::read(stream)
}

/// Perform one operation on a font.
pub fn perform<S: Read + Seek>(
    font: &Font,
    stream: &mut S,
    what: &str,
    kind: &str,
    parameters: &Parameters,
) -> Answer {
    fn position<T: Table, S: Read + Seek>(font: &Font, stream: &mut S) -> Result<Answer> {
        Ok(match font.position::<S, T>(stream)? {
            Some(()) => Answer::At(stream.stream_position()?),
            _ => Answer::Absent,
        })
    }
    fn wrap<T: Show>(result: Result<Option<T>>) -> Result<Answer> {
        Ok(result?.map_or(Answer::Absent, |value| Answer::Decoded(value.show())))
    }
    macro_rules! given(($type:ident, $parameter:expr) => (match what {
        "exists" => Ok(if font.exists::<$type>() { Answer::Yes } else { Answer::No }),
        "position" => position::<$type, S>(font, stream),
        _ => wrap(font.take_given::<S, $type>(stream, $parameter)),
    }));
    macro_rules! plain(($($type:ident,)+) => (match kind {
        $(stringify!($type) => match what {
            "exists" => Ok(if font.exists::<$type>() { Answer::Yes } else { Answer::No }),
            "position" => position::<$type, S>(font, stream),
            _ => wrap(font.take::<S, $type>(stream)),
        },)+
        "GlyphData" => given!(GlyphData, &parameters.mapping),
        "GlyphMapping" => given!(GlyphMapping, (&parameters.header, &parameters.profile)),
        "HorizontalMetrics" => given!(HorizontalMetrics, (&parameters.horizontal, &parameters.profile)),
        _ => panic!("unknown kind {kind}"),
    }));
    settle(|| plain! {
        ColorPalettes, FontVariations, GlyphDefinition, GlyphPositioning, GlyphSubstitution,
        FontSet, WindowsMetrics, CharacterMapping, FontHeader, HorizontalHeader, MaximumProfile,
        Names, PostScript,
    })
}

/// Decode a kind at a position, without a font.
pub fn direct<S: Read + Seek>(stream: &mut S, at: u64, kind: &str, parameters: &Parameters) -> Answer {
    macro_rules! given(($type:ident, $parameter:expr) => ({
        let value: $type = opentype::walue::Read::read(stream, $parameter)?;
        value.show()
    }));
    macro_rules! plain(($($type:ident,)+) => (match kind {
        $(stringify!($type) => take::<$type>(stream)?.show(),)+
        "GlyphData" => given!(GlyphData, &parameters.mapping),
        "GlyphMapping" => given!(GlyphMapping, (&parameters.header, &parameters.profile)),
        "HorizontalMetrics" => given!(HorizontalMetrics, (&parameters.horizontal, &parameters.profile)),
        _ => panic!("unknown kind {kind}"),
    }));
    settle(|| {
        stream.seek(SeekFrom::Start(at))?;
        Ok(Answer::Decoded(plain! {
            ColorPalettes, FontVariations, GlyphDefinition, GlyphPositioning, GlyphSubstitution,
            FontSet, WindowsMetrics, CharacterMapping, FontHeader, HorizontalHeader, MaximumProfile,
            Names, PostScript,
        }))
    })
}

fn settle(body: impl FnOnce() -> Result<Answer>) -> Answer {
    match catch_unwind(AssertUnwindSafe(body)) {
        Ok(Ok(answer)) => answer,
        Ok(Err(error)) if is_injected(&error) => Answer::Injected,
        Ok(Err(error)) => Answer::Error(error.to_string()),
        Err(_) => Answer::Panic,
    }
}

pub fn same(one: &Answer, other: &Answer) -> bool {
    match (one, other) {
        (Answer::Error(_), Answer::Error(_)) => true,
        // Other libraries may panic in their decoders; that is not for these checks to judge.
        _ => one == other,
    }
}

struct Expectation {
    what: String,
    kind: String,
    to: u64,
    answer: String,
    at: u64,
    cursor: i64,
}

fn halves(value: &[Value]) -> u64 {
    (value[0].number() as u64) << 16 | value[1].number() as u64
}

fn expectations(walk: &Value) -> Vec<Expectation> {
    walk.tuple()
        .iter()
        .map(|value| {
            let value = value.tuple();
            let lax = cfg!(feature = "checksums");
            let answer = value[if lax { 4 } else { 2 }].tuple();
            let what = value[0].string().to_string();
            let seek = what == "seek";
            Expectation {
                kind: if seek { String::new() } else { value[1].string().to_string() },
                to: if seek { value[1].number() as u64 } else { 0 },
                what,
                answer: answer[0].string().to_string(),
                at: if answer.len() > 1 { halves(&answer[1..]) } else { 0 },
                cursor: value[if lax { 5 } else { 3 }].number(),
            }
        })
        .collect()
}

struct Judge<'l> {
    data: &'l [u8],
    decodes: Vec<(String, u64, String, Vec<i64>)>,
    /// What decoding at a position gives, with a stream of its own.
    direct: std::collections::HashMap<(String, u64), Answer>,
    parameters: Parameters,
}

impl Judge<'_> {
    fn direct(&mut self, kind: &str, at: u64) -> Answer {
        let key = (kind.to_string(), at);
        if let Some(answer) = self.direct.get(&key) {
            return answer.clone();
        }
        let answer = direct(&mut Cursor::new(self.data), at, kind, &self.parameters);
        self.direct.insert(key, answer.clone());
        answer
    }

    /// Compare what was expected with what was observed.
    fn judge(&mut self, expected: &Expectation, observed: &Answer) -> std::result::Result<(), String> {
        let fine = match expected.answer.as_str() {
            "yes" => observed == &Answer::Yes,
            "no" => observed == &Answer::No,
            "absent" => observed == &Answer::Absent,
            "err" => matches!(observed, Answer::Error(_)),
            "at" => observed == &Answer::At(expected.at),
            "unknown" => !matches!(observed, Answer::Panic | Answer::Absent),
            "decode" => {
                let known = self
                    .decodes
                    .iter()
                    .find(|item| item.0 == expected.kind && item.1 == expected.at)
                    .map(|item| (item.2.clone(), item.3.clone()));
                match known {
                    Some((status, _)) if status == "err" => matches!(observed, Answer::Error(_)),
                    Some((status, values)) if status == "ok" => {
                        observed == &Answer::Decoded(Decoded::Own(values))
                    }
                    _ => {
                        let answer = self.direct(&expected.kind, expected.at);
                        same(&answer, observed)
                    }
                }
            }
            other => panic!("unknown answer {other}"),
        };
        if fine {
            Ok(())
        } else {
            Err(format!(
                "{} {}: expected {} {}, got {:?}",
                expected.what, expected.kind, expected.answer, expected.at, observed,
            ))
        }
    }
}

pub fn open<S: Read + Seek>(stream: &mut S, at: u64) -> std::result::Result<Result<File>, ()> {
    catch_unwind(AssertUnwindSafe(|| {
        stream.seek(SeekFrom::Start(at))?;
        File::read(stream)
    }))
    .map_err(|_| ())
}

pub fn directory(font: &Font) -> Vec<i64> {
    let mut output = vec![];
    for record in &font.offsets.records {
        output.extend(record.tag.0.iter().map(|byte| *byte as i64));
        output.extend([record.checksum as i64, record.offset as i64, record.size as i64]);
    }
    output
}

pub fn run(case: &[Value], options: &Options, report: &mut Report) {
    let data = case[1].bytes();
    let at = case[2].number() as u64;
    let opens = case[3].string() == "ok";
    let records: Vec<i64> = case[4]
        .tuple()
        .iter()
        .flat_map(|record| {
            let record = record.tuple();
            let mut output = record[0].numbers();
            output.extend(record[1..4].iter().map(|value| halves(value.tuple()) as i64));
            output
        })
        .collect();
    let walk = expectations(&case[5]);
    let decodes = case[6]
        .tuple()
        .iter()
        .map(|value| {
            let value = value.tuple();
            (
                value[0].string().to_string(),
                halves(&value[1..3]),
                value[3].string().to_string(),
                value[4].numbers(),
            )
        })
        .collect();
    report.count("font");
    let mut judge =
        Judge { data: &data, decodes, direct: Default::default(), parameters: Parameters::new() };
    let context = |message: String| format!("file starting at {at}: {message}; data {}", hexadecimal(&data));

    // Opening.
    report.runs += 1;
    let mut cursor = Cursor::new(&data[..]);
    let font = match (open(&mut cursor, at), opens) {
        (Err(()), _) => return report.fail(context("opening panicked".into())),
        (Ok(Ok(_)), false) => return report.fail(context("expected opening to fail".into())),
        (Ok(Err(error)), true) => {
            return report.fail(context(format!("expected opening to succeed, got {error}")))
        }
        (Ok(Err(_)), false) => None,
        (Ok(Ok(mut file)), true) => {
            if file.fonts.len() != 1 {
                return report.fail(context(format!("expected one font, got {}", file.fonts.len())));
            }
            let font = file.fonts.remove(0);
            if directory(&font) != records {
                return report.fail(context(format!(
                    "expected the records {records:?}, got {:?}",
                    directory(&font),
                )));
            }
            Some(font)
        }
    };

    match options.how.as_str() {
        "plain" => {
            if let Some(font) = font {
                follow(&font, &mut cursor, &walk, &mut judge, report, &context);
                if directory(&font) != records {
                    report.fail(context("the directory has changed".into()));
                }
            }
        }
        "streams" => {
            for (k, (most, interrupts)) in
                [(1, false), (1, true), (3, true), (6, false)].into_iter().enumerate()
            {
                let seed = options.seed.wrapping_mul(1000) + k as u64;
                let mut stream = Choppy::new(Cursor::new(&data[..]), seed, most, interrupts);
                match (open(&mut stream, at), opens) {
                    (Ok(Ok(file)), true) => {
                        if directory(&file.fonts[0]) != records {
                            report.fail(context("a slow stream changed the records".into()));
                        }
                        follow(&file.fonts[0], &mut stream, &walk, &mut judge, report, &context);
                    }
                    (Ok(Err(_)), false) => {}
                    _ => report.fail(context("a slow stream changed what opening gives".into())),
                }
            }
            faults(&data, at, &records, &walk, &mut judge, report, &context, options);
        }
        other => panic!("do not know what to do with a font ({other})"),
    }
}

fn follow<S: Read + Seek>(
    font: &Font,
    stream: &mut S,
    walk: &[Expectation],
    judge: &mut Judge,
    report: &mut Report,
    context: &dyn Fn(String) -> String,
) {
    for (i, expected) in walk.iter().enumerate() {
        report.runs += 1;
        if expected.what == "seek" {
            stream.seek(SeekFrom::Start(expected.to)).unwrap();
            continue;
        }
        let observed = perform(font, stream, &expected.what, &expected.kind, &judge.parameters);
        if let Err(message) = judge.judge(expected, &observed) {
            report.fail(context(format!("operation {i}, {message}")));
            if report.failures.len() >= 3 {
                return;
            }
        }
        if expected.cursor >= 0 && expected.answer != "at" {
            let position = stream.stream_position().unwrap();
            if position != expected.cursor as u64 {
                report.fail(context(format!(
                    "operation {i}, {} {}: expected the stream at {}, found it at {position}",
                    expected.what, expected.kind, expected.cursor,
                )));
                return;
            }
        }
    }
}

/// Fail each operation of the stream once.
#[allow(clippy::too_many_arguments)]
fn faults(
    data: &[u8],
    at: u64,
    records: &[i64],
    walk: &[Expectation],
    judge: &mut Judge,
    report: &mut Report,
    context: &dyn Fn(String) -> String,
    options: &Options,
) {
    let probe = |fail: u64, sticky: bool, kind: ErrorKind| Faulty::new(Cursor::new(data), fail, sticky, kind);
    let mut stream = probe(u64::MAX, false, ErrorKind::Other);
    let file = open(&mut stream, at);
    for fail in 0..stream.count {
        for (sticky, kind) in failures(fail, true) {
            let mut stream = probe(fail, sticky, kind);
            report.runs += 1;
            match open(&mut stream, at) {
                Ok(Err(error)) if is_injected(&error) => {}
                _ => report.fail(context(format!(
                    "operation {fail} of opening failed, but not the opening",
                ))),
            }
        }
    }
    let Ok(Ok(file)) = file else {
        return;
    };
    let font = &file.fonts[0];
    // Each kind of operation once.
    let mut seen: Vec<(&str, &str)> = vec![];
    for expected in walk {
        let key = (expected.what.as_str(), expected.kind.as_str());
        if expected.what == "seek" || expected.what == "exists" || seen.contains(&key) {
            continue;
        }
        seen.push(key);
        let mut stream = probe(u64::MAX, false, ErrorKind::Other);
        perform(font, &mut stream, key.0, key.1, &judge.parameters);
        let count = stream.count;
        let step = 1 + count / (300 * options.effort.max(1));
        for fail in (0..count).step_by(step as usize) {
            let kinds = failures(fail, true);
            let (_, kind) = kinds[((fail as usize / step as usize + data.len()) * 2) % kinds.len()];
            let mut stream = probe(fail, false, kind);
            report.runs += 1;
            let observed = perform(font, &mut stream, key.0, key.1, &judge.parameters);
            // The harness itself asks for the position at the end of a positioning.
            if observed != Answer::Injected {
                report.fail(context(format!(
                    "{} {}: operation {fail} of {count} failed ({kind:?}), got {observed:?}", key.0, key.1,
                )));
                return;
            }
            // A failed request leaves nothing behind.
            stream.fail = u64::MAX;
            let observed = perform(font, &mut stream, key.0, key.1, &judge.parameters);
            if let Err(message) = judge.judge(expected, &observed) {
                report.fail(context(format!("after a failure, {message}")));
                return;
            }
        }
    }
    if directory(font) != records {
        report.fail(context("the directory has changed".into()));
    }
}
