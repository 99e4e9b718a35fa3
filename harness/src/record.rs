//! Recording what the code does with real and damaged fonts, for spec/FontTrace.tla to judge.

use std::io::{Cursor, Seek, SeekFrom, Write};

use crate::font::{self, Answer, Parameters};
use crate::stream::Random;

pub struct Plan {
    pub seed: u64,
    pub folder: String,
    /// How many damaged fonts to make.
    pub damaged: u64,
    /// How many operations to perform on each font.
    pub operations: u64,
}

const KINDS: &[(&str, &[u8; 4])] = &[
    ("FontSet", b"CFF "),
    ("ColorPalettes", b"CPAL"),
    ("GlyphDefinition", b"GDEF"),
    ("GlyphPositioning", b"GPOS"),
    ("GlyphSubstitution", b"GSUB"),
    ("WindowsMetrics", b"OS/2"),
    ("CharacterMapping", b"cmap"),
    ("FontVariations", b"fvar"),
    ("GlyphData", b"glyf"),
    ("FontHeader", b"head"),
    ("HorizontalHeader", b"hhea"),
    ("HorizontalMetrics", b"hmtx"),
    ("GlyphMapping", b"loca"),
    ("MaximumProfile", b"maxp"),
    ("Names", b"name"),
    ("PostScript", b"post"),
];

fn u16_at(data: &[u8], at: usize) -> usize {
    data.get(at..at + 2).map_or(0, |bytes| u16::from_be_bytes([bytes[0], bytes[1]]) as usize)
}

fn u32_at(data: &[u8], at: usize) -> u32 {
    data.get(at..at + 4).map_or(0, |bytes| u32::from_be_bytes(bytes.try_into().unwrap()))
}

/// The sum of words, for making damaged fonts that are consistent nonetheless, and for telling
/// whether it is safe to decode something; it is not what judges the code.
fn sum(data: &[u8], at: usize, size: usize, header: bool) -> Option<u32> {
    let table = data.get(at..at.checked_add(size)?)?;
    let mut total = 0u32;
    for (i, chunk) in table.chunks(4).enumerate() {
        let mut word = [0; 4];
        word[..chunk.len()].copy_from_slice(chunk);
        if !(header && i == 2) {
            total = total.wrapping_add(u32::from_be_bytes(word));
        }
    }
    Some(total)
}

fn damage(data: &mut Vec<u8>, random: &mut Random) {
    let count = u16_at(data, 4);
    let record = 12 + 16 * random.below(count as u64) as usize;
    let (offset, size) = (u32_at(data, record + 8) as usize, u32_at(data, record + 12) as usize);
    let header = &data[record..record + 4] == b"head";
    let place = |data: &mut [u8], at: usize, value: u32| {
        data[at..at + 4].copy_from_slice(&value.to_be_bytes());
    };
    match random.below(10) {
        0 if size > 0 => {
            // The checksum of the header ignores its third word.
            let at = if header && random.below(2) == 0 {
                8 + random.below(4) as usize
            } else {
                random.below(size as u64) as usize
            };
            if let Some(byte) = data.get_mut(offset + at) {
                *byte ^= 1 << random.below(8);
            }
        }
        1 => {
            let value = u32_at(data, record + 4) ^ 1 << random.below(32);
            place(data, record + 4, value);
        }
        2 => {
            let by = 1 + random.below(5) as u32;
            let value = u32_at(data, record + 12);
            let value = if random.below(2) == 0 { value.wrapping_add(by) } else { value.wrapping_sub(by) };
            place(data, record + 12, value);
        }
        3 => {
            // Another size, with the checksum that goes with it.
            let size = match random.below(4) {
                0 => size + 1 + random.below(6) as usize,
                1 => random.below(size as u64 + 1) as usize,
                _ => size.saturating_sub(1 + random.below(4) as usize),
            };
            place(data, record + 12, size as u32);
            if let Some(value) = sum(data, offset, size, header) {
                place(data, record + 4, value);
            }
        }
        4 => {
            let value = match random.below(4) {
                0 => offset as u32 + 4,
                1 => offset as u32 ^ 0x8000_0000,
                2 => data.len() as u32 - random.below(8) as u32,
                _ => random.next() as u32,
            };
            place(data, record + 8, value);
        }
        5 => {
            // A tag that is almost right, or that of another record before this one.
            if random.below(2) == 0 {
                data[record + random.below(4) as usize] ^= 0x20;
            } else {
                let other = 12 + 16 * random.below(count as u64) as usize;
                let tag: [u8; 4] = data[record..record + 4].try_into().unwrap();
                // It is only to be found, and never to be decoded as what it is not.
                data[other..other + 4].copy_from_slice(&tag);
                let value = u32_at(data, other + 4) ^ 1;
                if other < record {
                    place(data, other + 4, value);
                } else if other > record {
                    place(data, record + 4, value);
                }
            }
        }
        6 => {
            let length = match random.below(4) {
                0 => random.below(12 + 16 * count as u64) as usize,
                _ => random.below(data.len() as u64) as usize,
            };
            data.truncate(length);
        }
        7 => data[random.below(4) as usize] ^= 1 << random.below(8),
        8 => {
            let count = match random.below(4) {
                0 => 0,
                1 => count + 1,
                2 => count + 2000,
                _ => count - 1,
            };
            data[4..6].copy_from_slice(&(count as u16).to_be_bytes());
        }
        _ => {
            // The words of a table in another order have the same sum.
            if size >= 8 && offset + size <= data.len() && !header {
                let at = offset + 4 * random.below(size as u64 / 4 - 1) as usize;
                let kind = KINDS.iter().any(|(_, tag)| data[record..record + 4] == tag[..]);
                if !kind {
                    for i in 0..4 {
                        data.swap(at + i, at + 4 + i);
                    }
                }
            }
        }
    }
}

pub fn run(path: &str, plan: &Plan) -> u64 {
    let mut random = Random::new(plan.seed);
    let mut paths: Vec<_> = std::fs::read_dir(&plan.folder)
        .expect("cannot list the fixtures")
        .map(|entry| entry.unwrap().path())
        .collect();
    paths.sort();
    let fonts: Vec<(String, Vec<u8>)> = paths
        .iter()
        .map(|path| {
            (path.file_name().unwrap().to_string_lossy().into_owned(), std::fs::read(path).unwrap())
        })
        .filter(|(_, data)| data.len() > 12 + 16 * u16_at(data, 4))
        .collect();
    let small: Vec<_> = fonts.iter().filter(|(_, data)| data.len() < 30000).cloned().collect();
    let parameters = Parameters::new();
    let mut output = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let mut operations = 0;
    for (name, data) in &fonts {
        operations += session(&mut output, name, data, plan.operations, &mut random, &parameters);
    }
    for i in 0..plan.damaged {
        let (name, mut data) = small[random.below(small.len() as u64) as usize].clone();
        for _ in 0..1 + random.below(3) {
            if data.len() > 12 + 16 * u16_at(&data, 4) && u16_at(&data, 4) > 0 {
                damage(&mut data, &mut random);
            }
        }
        let name = format!("{name}, damaged ({i})");
        operations += session(&mut output, &name, &data, plan.operations, &mut random, &parameters);
    }
    operations
}

fn list(values: impl Iterator<Item = u64>) -> String {
    let values: Vec<_> = values.map(|value| value.to_string()).collect();
    format!("[{}]", values.join(","))
}

fn session(
    output: &mut impl Write,
    name: &str,
    data: &[u8],
    operations: u64,
    random: &mut Random,
    parameters: &Parameters,
) -> u64 {
    let mut stream = Cursor::new(data);
    write!(
        output,
        "{{\"name\":{name:?},\"bytes\":{},\"lax\":{},",
        list(data.iter().map(|byte| *byte as u64)),
        cfg!(feature = "checksums"),
    )
    .unwrap();
    let font = match font::open(&mut stream, 0) {
        Ok(Ok(mut file)) => {
            let fonts = file.fonts.len();
            write!(output, "\"fonts\":{fonts},").unwrap();
            file.fonts.remove(0)
        }
        other => {
            let outcome = if other.is_err() { "panic" } else { "err" };
            writeln!(output, "\"opened\":\"{outcome}\",\"records\":[],\"log\":[]}}").unwrap();
            return 1;
        }
    };
    let directory = font::directory(&font);
    let halves = |value: i64| [value as u64 >> 16, value as u64 & 0xFFFF];
    let records: Vec<_> = directory
        .chunks(7)
        .map(|record| {
            let tag = list(record[..4].iter().map(|value| *value as u64));
            let rest: Vec<_> = record[4..].iter().map(|value| list(halves(*value).into_iter())).collect();
            format!("[{tag},{}]", rest.join(","))
        })
        .collect();
    write!(output, "\"opened\":\"ok\",\"records\":[{}],\"log\":[", records.join(",")).unwrap();
    // The opening leaves the stream somewhere; sessions start with a place of their own.
    let start = random.below(data.len() as u64 + 5);
    stream.seek(SeekFrom::Start(start)).unwrap();
    write!(output, "[\"seek\",\"\",{start},[\"done\"],[],{start}]").unwrap();
    for _ in 0..operations {
        if random.below(8) == 0 {
            let to = random.below(data.len() as u64 + 5);
            stream.seek(SeekFrom::Start(to)).unwrap();
            write!(output, ",[\"seek\",\"\",{to},[\"done\"],[],{to}]").unwrap();
            continue;
        }
        let (kind, tag) = KINDS[random.below(KINDS.len() as u64) as usize];
        let what = ["exists", "position", "take", "take"][random.below(4) as usize];
        let answer = font::perform(&font, &mut stream, what, kind, parameters);
        let position = stream.position();
        // The records of the tag at whose offsets the kind decodes to what has been observed.
        let mut matches = vec![];
        if what == "take" {
            for (i, record) in directory.chunks(7).enumerate() {
                if record[..4].iter().map(|value| *value as u8).ne(tag.iter().copied()) {
                    continue;
                }
                let (offset, size) = (record[5] as usize, record[6] as usize);
                let safe = match &answer {
                    Answer::Decoded(_) => true,
                    // Damaged tables may ask for all the memory there is.
                    _ => sum(data, offset, size, kind == "FontHeader") == Some(record[4] as u32),
                };
                if safe && font::same(&font::direct(&mut Cursor::new(data), offset as u64, kind, parameters), &answer) {
                    matches.push(i as u64 + 1);
                }
            }
        }
        let text = match &answer {
            Answer::Yes => "\"yes\"".to_string(),
            Answer::No => "\"no\"".to_string(),
            Answer::Absent => "\"absent\"".to_string(),
            Answer::At(at) => format!("\"at\",{},{}", at >> 16, at & 0xFFFF),
            Answer::Decoded(_) => "\"value\"".to_string(),
            Answer::Error(_) => "\"err\"".to_string(),
            Answer::Injected | Answer::Panic => "\"panic\"".to_string(),
        };
        // Positions beyond the range of TLC's numbers are not told apart.
        let position = position.min(2_000_000_000);
        write!(output, ",[\"{what}\",\"{kind}\",0,[{text}],{},{position}]", list(matches.into_iter())).unwrap();
    }
    let changed = font::directory(&font) != directory;
    writeln!(output, "],\"changed\":{changed}}}").unwrap();
    operations
}
