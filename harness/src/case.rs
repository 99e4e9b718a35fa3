//! One case: run the code in the way the case asks for and compare.

use std::io::{Cursor, ErrorKind, Read, Seek};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::input::Value;
use crate::memory;
use crate::root::decode;
use crate::stream::{failures, is_injected, Choppy, Faulty, Random, Scheduled, Shifted};
use crate::{configuration, Options, Report};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Value(Vec<i64>),
    Error(String),
    Injected,
    Panic(String),
}

impl Outcome {
    fn brief(&self) -> String {
        match self {
            Outcome::Value(values) => format!("value {values:?}"),
            Outcome::Error(message) => format!("error {message:?}"),
            Outcome::Injected => "the injected error".into(),
            Outcome::Panic(message) => format!("panic {message:?}"),
        }
    }
}

/// What the specification says.
#[derive(Clone, Debug)]
pub enum Expected {
    Value(Vec<i64>),
    Error,
    /// No claim is made, not even that the code returns.
    Unknown,
}

impl Expected {
    fn from(value: &Value) -> Self {
        match value.tuple()[0].string() {
            "ok" => Expected::Value(value.tuple()[1].numbers()),
            "err" => Expected::Error,
            "big" => Expected::Unknown,
            other => panic!("unknown outcome {other}"),
        }
    }

    /// The prediction for this build among those for all builds, or the only one.
    fn pick(values: &[Value]) -> Self {
        Self::from(if values.len() == 1 { &values[0] } else { &values[configuration()] })
    }

    fn brief(&self) -> String {
        match self {
            Expected::Value(values) => format!("value {values:?}"),
            Expected::Error => "an error".into(),
            Expected::Unknown => "anything".into(),
        }
    }
}

pub fn observe<S: Read + Seek>(root: &str, stream: &mut S) -> Outcome {
    memory::reset();
    let result = catch_unwind(AssertUnwindSafe(|| decode(root, stream)));
    if let Some(size) = memory::excess() {
        return Outcome::Panic(format!("sets {size} bytes aside at once"));
    }
    match result {
        Ok(Ok(values)) => Outcome::Value(values),
        Ok(Err(error)) if is_injected(&error) => Outcome::Injected,
        Ok(Err(error)) => Outcome::Error(error.to_string()),
        Err(payload) => Outcome::Panic(
            payload
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| payload.downcast_ref::<&str>().map(|text| text.to_string()))
                .unwrap_or_default(),
        ),
    }
}

fn matches(expected: &Expected, outcome: &Outcome) -> bool {
    match (expected, outcome) {
        (_, Outcome::Panic(_)) => false,
        (Expected::Unknown, _) => true,
        (Expected::Value(one), Outcome::Value(other)) => one == other,
        (Expected::Error, Outcome::Error(_)) => true,
        _ => false,
    }
}

/// The bytes of a case, with the run of zeros in them written out.
fn materialize(bytes: &[u8], at: usize, gap: usize) -> Vec<u8> {
    let mut data = bytes[..at].to_vec();
    data.resize(at + gap, 0);
    data.extend_from_slice(&bytes[at..]);
    data
}

pub fn run(case: &Value, options: &Options, report: &mut Report) {
    let case = case.tuple();
    let kind = case[0].string();
    match kind {
        "font" => return crate::font::run(case, options, report),
        "tag" => return crate::registry::tag(case, report),
        "sweep" => return crate::registry::sweep(case, options, report),
        _ => {}
    }
    let root = case[1].string();
    let bytes = case[2].bytes();
    let (at, gap) = (case[3].number() as usize, case[4].number() as usize);
    let expected = Expected::pick(case[5].tuple());
    let more = &case[6];
    if matches!(expected, Expected::Unknown) {
        report.skipped += 1;
        return;
    }
    report.count(root);
    let data = materialize(&bytes, at, gap);
    let judge = |expected: &Expected, outcome: Outcome, how: &str, report: &mut Report| {
        report.runs += 1;
        if !matches(expected, &outcome) {
            report.fail(format!(
                "{root} ({how}): expected {}, got {}; data {}",
                expected.brief(),
                outcome.brief(),
                hexadecimal(&data),
            ));
        }
    };
    judge(&expected, observe(root, &mut Cursor::new(&data[..])), "whole", report);
    match (kind, options.how.as_str()) {
        ("case", "plain") => {}
        ("case", "places") => {
            for base in [1, 2, 7, 255, 65535, 65536, (1 << 32) + 3] {
                let outcome = observe(root, &mut Shifted::new(base, &data));
                judge(&expected, outcome, &format!("starting at {base}"), report);
            }
            // Behind a copy of itself.
            let mut double = data.clone();
            double.extend_from_slice(&data);
            let mut cursor = Cursor::new(&double[..]);
            cursor.set_position(data.len() as u64);
            judge(&expected, observe(root, &mut cursor), "behind a copy", report);
            if let Expected::Value(_) = expected {
                for (count, byte) in [(1, 0), (1, 255), (3, 0), (9, 255), (70000, 1)] {
                    let mut longer = data.clone();
                    longer.resize(data.len() + count, byte);
                    let outcome = observe(root, &mut Cursor::new(&longer[..]));
                    judge(&expected, outcome, &format!("{count} times {byte} appended"), report);
                }
            }
        }
        ("case", "prefixes") => {
            // A prefix fails or gives what the whole gives. Of much data, with an effort, only
            // so many prefixes are tried.
            let mut random = Random::new(options.seed);
            for length in 0..data.len() {
                if data.len() > 3000 && options.effort > 0 && length > 200 && length + 20 < data.len() {
                    if random.below(data.len() as u64) >= options.effort {
                        continue;
                    }
                }
                if gap > 0 && length > at + 8 && length + 8 < at + gap && length % 997 != 0 {
                    continue;
                }
                report.runs += 1;
                let outcome = observe(root, &mut Cursor::new(&data[..length]));
                if !matches!(outcome, Outcome::Error(_)) && !matches(&expected, &outcome) {
                    report.fail(format!(
                        "{root}: expected an error or {} from the first {length} of {} bytes, got {}; data {}",
                        expected.brief(), data.len(), outcome.brief(), hexadecimal(&data),
                    ));
                    if report.failures.len() >= 5 {
                        return;
                    }
                }
            }
        }
        ("case", "streams") => {
            for (k, (most, interrupts)) in
                [(1, false), (1, true), (2, true), (5, true), (5, false)].into_iter().enumerate()
            {
                for round in 0..(if most == 1 { 1 } else { options.effort }) {
                    let seed = options.seed.wrapping_mul(1000) + round * 10 + k as u64;
                    let mut stream =
                        Choppy::new(Cursor::new(&data[..]), seed, most, interrupts);
                    let outcome = observe(root, &mut stream);
                    judge(
                        &expected, outcome,
                        &format!("at most {most} bytes at a time, interrupts {interrupts}"), report,
                    );
                }
            }
            let mut probe =
                Faulty::new(Cursor::new(&data[..]), u64::MAX, false, ErrorKind::Other);
            observe(root, &mut probe);
            let count = probe.count;
            let mut random = Random::new(options.seed);
            let seed = data.iter().fold(0u64, |sum, byte| sum.wrapping_mul(31) ^ *byte as u64) >> 3;
            let most = 400 * options.effort;
            for i in 0..count.min(most) {
                let fail = if count <= most { i } else { random.below(count) };
                for (sticky, kind) in failures(seed.wrapping_add(i), options.effort > 1) {
                    let mut stream = Faulty::new(Cursor::new(&data[..]), fail, sticky, kind);
                    let outcome = observe(root, &mut stream);
                    report.runs += 1;
                    if outcome != Outcome::Injected {
                        report.fail(format!(
                            "{root}: operation {fail} of {count} failed ({kind:?}, sticky {sticky}), \
                             expected its error, got {}; data {}",
                            outcome.brief(), hexadecimal(&data),
                        ));
                    }
                }
            }
        }
        ("case", "schedules") => {
            let seed = data.iter().fold(options.seed, |sum, byte| sum.wrapping_mul(31) ^ *byte as u64);
            let mut random = Random::new(seed);
            for _ in 0..options.effort {
                let i = random.below(options.schedules.len() as u64) as usize;
                let schedule = &options.schedules[i];
                let mut stream = Scheduled::new(Cursor::new(&data[..]), schedule, None);
                let outcome = observe(root, &mut stream);
                let how = format!("delivering {:?} over and over", schedule.events);
                judge(&expected, outcome, &how, report);
                if !schedule.fails {
                    continue;
                }
                let fail = random.below(stream.count.max(1));
                let mut stream = Scheduled::new(Cursor::new(&data[..]), schedule, Some(fail));
                let outcome = observe(root, &mut stream);
                report.runs += 1;
                if stream.failed && outcome != Outcome::Injected {
                    report.fail(format!(
                        "{root} ({how}): operation {fail} failed, expected its error, got {}; data {}",
                        outcome.brief(), hexadecimal(&data),
                    ));
                }
            }
        }
        ("cuts", _) => {
            let lengths = more.numbers();
            for length in 0..bytes.len() {
                let full = if length > at { length + gap } else { length };
                // The prefix may also end within the run of zeros.
                for (length, full) in [(length, full), (length, length + gap / 2)] {
                    if gap == 0 && full != length || gap > 0 && full != length && length != at {
                        continue;
                    }
                    if full != length && length == at && gap > 0 && full == at + gap / 2 {
                        // Whether this one decodes is not predicted; it must not differ.
                        let outcome = observe(root, &mut Cursor::new(&data[..full]));
                        if let Outcome::Value(_) | Outcome::Panic(_) = outcome {
                            judge(&expected, outcome, &format!("first {full} bytes"), report);
                        }
                        continue;
                    }
                    let outcome = observe(root, &mut Cursor::new(&data[..full]));
                    let expected = if lengths.contains(&(length as i64)) {
                        expected.clone()
                    } else {
                        Expected::Error
                    };
                    judge(&expected, outcome, &format!("first {full} bytes"), report);
                }
            }
        }
        ("sites", _) => {
            let mut random = Random::new(options.seed);
            for site in more.tuple() {
                let site = site.tuple();
                let (place, how, values) =
                    (site[0].number() as usize, site[1].string(), site[2].numbers());
                let mut poked = data.clone();
                for value in 0..=0xFFFFu16 {
                    // With an effort, only so many values in a thousand, besides the telling ones.
                    if options.effort > 0 && !telling(value) && random.below(1000) >= options.effort {
                        continue;
                    }
                    let legal = match how {
                        "in" => values.contains(&(value as i64)),
                        "mask" => value as i64 & values[0] == 0,
                        _ => panic!("unknown kind of site {how}"),
                    };
                    if legal {
                        continue;
                    }
                    poked[place..place + 2].copy_from_slice(&value.to_be_bytes());
                    let outcome = observe(root, &mut Cursor::new(&poked[..]));
                    judge(
                        &Expected::Error, outcome, &format!("{value} at byte {place}"), report,
                    );
                    if report.failures.len() >= 5 {
                        return;
                    }
                }
            }
        }
        _ => panic!("do not know what to do with {kind} ({})", options.how),
    }
}

/// Values that a sloppy comparison could take for another.
fn telling(value: u16) -> bool {
    value <= 12
        || value.count_ones() <= 1
        || value >= 0xFFFE
        || value & 0xFF == 0 && value >> 8 <= 4
        || value & 0x7FFF <= 3
}

pub fn hexadecimal(data: &[u8]) -> String {
    let mut text = String::new();
    let mut i = 0;
    while i < data.len() {
        let run = data[i..].iter().take_while(|byte| **byte == 0).count();
        if run > 16 {
            text.push_str(&format!("[{run} zeros]"));
            i += run;
        } else {
            text.push_str(&format!("{:02x}", data[i]));
            i += 1;
        }
    }
    text
}
