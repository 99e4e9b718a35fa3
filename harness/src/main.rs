//! The conformance harness: judges the real code against outcomes that the specification predicts.
//!
//! conform CASES REPLAY [key=value...]
//!
//! CASES holds one case per line, as TLC wrote it. Cases on which the code and the specification
//! disagree are written to REPLAY. The last line of output is a summary in JSON. The exit status is
//! 0 when there is no disagreement, 1 when there is one, and something else on trouble.

mod case;
mod font;
mod input;
mod memory;
mod project;
mod record;
mod registry;
mod root;
mod stream;

use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static MEMORY: memory::Watched = memory::Watched;

/// The position of the build in spec/Reader.tla's Configs.
pub fn configuration() -> usize {
    cfg!(feature = "directories") as usize + 2 * (cfg!(feature = "marks") as usize)
}

pub struct Options {
    pub seed: u64,
    /// What to do with plain cases.
    pub how: String,
    /// How much of it.
    pub effort: u64,
    /// How many seconds a case may take.
    pub patience: u64,
    /// How streams deliver.
    pub schedules: Vec<stream::Schedule>,
}

#[derive(Default)]
pub struct Report {
    /// The number of runs of the code.
    pub runs: u64,
    pub skipped: u64,
    pub kinds: BTreeMap<String, u64>,
    pub failures: Vec<String>,
}

impl Report {
    pub fn fail(&mut self, message: String) {
        if self.failures.len() < 5 {
            self.failures.push(message);
        }
    }

    pub fn count(&mut self, kind: &str) {
        *self.kinds.entry(kind.to_string()).or_default() += 1;
    }
}

fn main() {
    let mut arguments = std::env::args().skip(1);
    let cases = arguments.next().expect("the first argument should be a file with cases");
    if cases == "record" {
        return record(arguments);
    }
    let replay = arguments.next().expect("the second argument should be a file for failures");
    let mut options = Options {
        seed: 1,
        how: "plain".into(),
        effort: 1,
        patience: 180,
        schedules: vec![],
    };
    for argument in arguments {
        match argument.split_once('=').expect("expected key=value") {
            ("seed", value) => options.seed = value.parse().unwrap(),
            ("how", value) => options.how = value.into(),
            ("patience", value) => options.patience = value.parse().unwrap(),
            ("schedules", path) => {
                options.schedules = std::fs::read_to_string(path)
                    .expect("cannot open the schedules")
                    .lines()
                    .filter_map(|line| stream::Schedule::new(input::parse(line).tuple()))
                    .collect()
            }
            ("memory", value) => memory::limit(value.parse().unwrap()),
            ("effort", value) => options.effort = value.parse().unwrap(),
            _ => panic!("unknown option {argument}"),
        }
    }
    std::panic::set_hook(Box::new(|_| {}));

    let file = std::fs::File::open(&cases).expect("cannot open the cases");
    let lines: Vec<String> = std::io::BufReader::new(file)
        .lines()
        .map(|line| line.unwrap())
        .filter(|line| !line.is_empty() && !line.starts_with('#'))
        .collect();
    let threads = std::thread::available_parallelism().map_or(4, |count| count.get());
    let next = AtomicUsize::new(0);
    let failed = AtomicU64::new(0);
    let output = Mutex::new(None::<std::fs::File>);
    let merged = Mutex::new(Report::default());
    let started = Instant::now();
    // What each thread is at and since when, for noticing that the code hangs.
    let busy: Vec<Mutex<Option<(usize, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicUsize::new(0);
    let record = |line: &str, messages: &[String]| {
        let number = failed.fetch_add(1, Ordering::Relaxed);
        let mut output = output.lock().unwrap();
        let file = output.get_or_insert_with(|| std::fs::File::create(&replay).unwrap());
        if number < 20 {
            for message in messages {
                println!("MISMATCH {}", shorten(message, 600));
                writeln!(file, "# {message}").unwrap();
            }
            writeln!(file, "{line}").unwrap();
        }
    };

    std::thread::scope(|scope| {
        for k in 0..threads {
            let (next, lines, options, merged, busy, record, done) =
                (&next, &lines, &options, &merged, &busy, &record, &done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || {
                    let mut total = Report::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= lines.len() {
                            break;
                        }
                        *busy[k].lock().unwrap() = Some((i, Instant::now()));
                        let mut report = Report::default();
                        let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            case::run(&input::parse(&lines[i]), options, &mut report)
                        }));
                        if let Err(payload) = result {
                            let text = payload.downcast_ref::<String>().cloned().unwrap_or_default();
                            println!("BROKEN {text}: {}", shorten(&lines[i], 600));
                            std::process::exit(2);
                        }
                        *busy[k].lock().unwrap() = None;
                        if !report.failures.is_empty() {
                            record(&lines[i], &report.failures);
                        }
                        total.runs += report.runs;
                        total.skipped += report.skipped;
                        for (kind, count) in report.kinds {
                            *total.kinds.entry(kind).or_default() += count;
                        }
                    }
                    let mut merged = merged.lock().unwrap();
                    merged.runs += total.runs;
                    merged.skipped += total.skipped;
                    for (kind, count) in total.kinds {
                        *merged.kinds.entry(kind).or_default() += count;
                    }
                    done.fetch_add(1, Ordering::Release);
                })
                .unwrap();
        }
        let (busy, lines, record, done, options) = (&busy, &lines, &record, &done, &options);
        scope.spawn(move || {
            while done.load(Ordering::Acquire) < threads {
                std::thread::sleep(Duration::from_millis(20));
                for slot in busy {
                    if let Some((i, since)) = *slot.lock().unwrap() {
                        if since.elapsed() > Duration::from_secs(options.patience) {
                            record(&lines[i], &["the code does not return".to_string()]);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    });

    let failed = failed.load(Ordering::Relaxed);
    let merged = merged.into_inner().unwrap();
    let kinds: Vec<_> =
        merged.kinds.iter().map(|(kind, count)| format!("\"{kind}\": {count}")).collect();
    println!(
        "{{\"cases\": {}, \"runs\": {}, \"skipped\": {}, \"failed\": {}, \"seconds\": {:.1}, \"kinds\": {{{}}}}}",
        lines.len(), merged.runs, merged.skipped, failed, started.elapsed().as_secs_f64(),
        kinds.join(", "),
    );
    std::process::exit(if failed > 0 { 1 } else { 0 });
}

/// conform record OUTPUT FOLDER SEED DAMAGED OPERATIONS
fn record(mut arguments: impl Iterator<Item = String>) {
    std::panic::set_hook(Box::new(|_| {}));
    let path = arguments.next().expect("expected where to record");
    let folder = arguments.next().expect("expected a folder with fonts");
    let mut number = || arguments.next().expect("expected a number").parse().unwrap();
    let plan = record::Plan { folder, seed: number(), damaged: number(), operations: number() };
    let operations = record::run(&path, &plan);
    println!("{{\"operations\": {operations}}}");
}

fn shorten(text: &str, most: usize) -> String {
    if text.chars().count() <= most {
        return text.to_string();
    }
    let text: String = text.chars().take(most).collect();
    format!("{text}...")
}
