//! The registries of scripts, languages and features, and the signatures of files.

use std::cmp::Ordering;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use opentype::layout::{Feature, Language, Script};
use opentype::truetype::Tag;

use crate::input::Value;
use crate::stream::Random;
use crate::{Options, Report};

struct Seen {
    other: Option<[u8; 4]>,
    back: [u8; 4],
    name: Option<&'static str>,
    variant: String,
    codes: Vec<&'static str>,
}

fn see(registry: &str, tag: [u8; 4]) -> Seen {
    macro_rules! see(($type:ident, $codes:expr) => ({
        let value = $type::from_tag(&Tag(tag));
        Seen {
            other: if let $type::Other(tag) = &value { Some(tag.0) } else { None },
            back: Tag::from(value.clone()).0,
            name: value.name(),
            variant: format!("{value:?}"),
            codes: $codes(&value),
        }
    }));
    match registry {
        "scripts" => see!(Script, |_: &Script| vec![]),
        "features" => see!(Feature, |_: &Feature| vec![]),
        "languages" => see!(Language, |value: &Language| value.codes().collect::<Vec<_>>()),
        other => panic!("unknown registry {other}"),
    }
}

/// Whether two values are equal, in any of the ways in which values may be compared.
fn confused<T: Copy + Eq + Ord>(one: T, other: T) -> bool {
    one == other
        || !(one != other)
        || one.cmp(&other) == Ordering::Equal
        || other.partial_cmp(&one) == Some(Ordering::Equal)
}

/// A tag that is distinct from a given one but whose value is not.
fn confusion(registry: &str, tag: [u8; 4], others: impl Iterator<Item = [u8; 4]>) -> Option<[u8; 4]> {
    macro_rules! find(($type:ident) => ({
        let value = $type::from_tag(&Tag(tag));
        others
            .filter(|other| *other != tag)
            .find(|other| confused(value, $type::from_tag(&Tag(*other))))
    }));
    match registry {
        "scripts" => find!(Script),
        "features" => find!(Feature),
        "languages" => find!(Language),
        other => panic!("unknown registry {other}"),
    }
}

/// The tags close to a tag.
fn neighbours(tag: [u8; 4]) -> impl Iterator<Item = [u8; 4]> {
    let value = u32::from_be_bytes(tag);
    let mut swapped = tag;
    swapped.reverse();
    (0..32)
        .map(move |i| (value ^ 1 << i).to_be_bytes())
        .chain((0..4).map(move |i| (value ^ 0xFF << (8 * i)).to_be_bytes()))
        .chain([tag.map(|byte| byte.to_ascii_lowercase()), tag.map(|byte| byte.to_ascii_uppercase()), swapped])
        .chain([1, 8, 16, 24].map(move |i| value.rotate_left(i).to_be_bytes()))
}

fn string(value: &Value) -> String {
    String::from_utf8(value.bytes()).unwrap()
}

fn tag_of(value: &Value) -> [u8; 4] {
    value.bytes().try_into().unwrap()
}

/// One tag, with all there is to know about it.
pub fn tag(case: &[Value], report: &mut Report) {
    let registry = case[1].string();
    let tag = tag_of(&case[2]);
    let entries = case[if cfg!(feature = "language") { 4 } else { 3 }].tuple();
    report.count(registry);
    report.runs += 1;
    let text = format!("{registry} {:?} {tag:?}", String::from_utf8_lossy(&tag));
    let Ok(seen) = catch_unwind(AssertUnwindSafe(|| see(registry, tag))) else {
        return report.fail(format!("{text}: converting panicked"));
    };
    let close = neighbours(tag).collect::<Vec<_>>();
    match catch_unwind(AssertUnwindSafe(|| confusion(registry, tag, close.into_iter()))) {
        Ok(None) => {}
        other => report.fail(format!("{text}: it is not told from {other:?}")),
    }
    if seen.back != tag {
        report.fail(format!("{text}: converting it and back gives {:?}", seen.back));
    }
    if entries.is_empty() {
        if seen.other != Some(tag) {
            report.fail(format!("{text}: expected it to be unknown, got {}", seen.variant));
        }
        if seen.name.is_some() || !seen.codes.is_empty() {
            report.fail(format!("{text}: expected no name and no codes, got {:?}", seen.name));
        }
        return;
    }
    if seen.other.is_some() {
        return report.fail(format!("{text}: expected it to be registered"));
    }
    let found = entries.iter().any(|entry| {
        let entry = entry.tuple();
        seen.name == Some(string(&entry[0]).as_str())
            && seen.variant == entry[1].string()
            && seen.codes.iter().copied().eq(entry[2].tuple().iter().map(Value::string))
    });
    if !found {
        let expected: Vec<_> = entries
            .iter()
            .map(|entry| format!("{} {:?}", string(&entry.tuple()[0]), entry.tuple()[1..].to_vec()))
            .collect();
        report.fail(format!(
            "{text}: expected {expected:?}, got {:?} {} {:?}",
            seen.name, seen.variant, seen.codes,
        ));
    }
}

/// All four-byte tags there are, or many of them.
pub fn sweep(case: &[Value], options: &Options, report: &mut Report) {
    let registry = case[1].string();
    let known: HashSet<[u8; 4]> = case[if cfg!(feature = "language") { 3 } else { 2 }]
        .tuple()
        .iter()
        .map(tag_of)
        .collect();
    let check: &(dyn Fn([u8; 4]) -> bool + Sync) = match registry {
        "signatures" => &|tag| opentype::accept(&Tag(tag)) == known.contains(&tag),
        "scripts" => &|tag| {
            let value = Script::from_tag(&Tag(tag));
            let other = matches!(&value, Script::Other(other) if other.0 == tag);
            other != known.contains(&tag)
                && (other == value.name().is_none())
                && Tag::from(value).0 == tag
        },
        "features" => &|tag| {
            let value = Feature::from_tag(&Tag(tag));
            let other = matches!(&value, Feature::Other(other) if other.0 == tag);
            other != known.contains(&tag)
                && (other == value.name().is_none())
                && Tag::from(value).0 == tag
        },
        "languages" => &|tag| {
            let value = Language::from_tag(&Tag(tag));
            let other = matches!(&value, Language::Other(other) if other.0 == tag);
            other != known.contains(&tag)
                && (other == value.name().is_none())
                && (!other || value.codes().next().is_none())
                && Tag::from(value).0 == tag
        },
        other => panic!("unknown registry {other}"),
    };
    report.count(registry);
    if registry != "signatures" {
        for tag in &known {
            report.runs += 1;
            match catch_unwind(AssertUnwindSafe(|| confusion(registry, *tag, known.iter().copied()))) {
                Ok(None) => {}
                other => report.fail(format!("{registry}: {tag:?} is not told from {other:?}")),
            }
        }
    }
    // With an effort of zero, every tag; otherwise so many at random, and all of three printable
    // characters and a space.
    let threads = 8u64;
    let results: Vec<(u64, Vec<[u8; 4]>)> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..threads)
            .map(|k| {
                scope.spawn(move || {
                    let mut count = 0;
                    let mut failed = vec![];
                    let mut one = |tag: [u8; 4]| {
                        count += 1;
                        let fine = catch_unwind(AssertUnwindSafe(|| check(tag))).unwrap_or(false);
                        if !fine && failed.len() < 3 {
                            failed.push(tag);
                        }
                    };
                    if options.effort == 0 {
                        for value in 0..1u64 << 32 {
                            if (value >> 8) % threads == k {
                                one((value as u32).to_be_bytes());
                            }
                        }
                    } else {
                        for a in (32..127u8).filter(|a| *a as u64 % threads == k) {
                            for b in 32..127 {
                                for c in 32..127 {
                                    one([a, b, c, 32]);
                                }
                            }
                        }
                        let mut random = Random::new(options.seed * threads + k);
                        for _ in 0..options.effort * 10000 {
                            one((random.next() as u32).to_be_bytes());
                        }
                    }
                    (count, failed)
                })
            })
            .collect();
        handles.into_iter().map(|handle| handle.join().unwrap()).collect()
    });
    for (count, failed) in results {
        report.runs += count;
        for tag in failed {
            report.fail(format!(
                "{registry}: {tag:?} {:?} is not treated as it should ({})",
                String::from_utf8_lossy(&tag),
                if known.contains(&tag) { "it is registered" } else { "it is not registered" },
            ));
        }
    }
}
