//! Streams that are well-behaved, far away, slow, or failing.

use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// Data that begin at a certain position of a stream, after bytes that depend on the position only.
pub struct Shifted<'l> {
    pub base: u64,
    pub data: &'l [u8],
    pub position: u64,
}

impl<'l> Shifted<'l> {
    pub fn new(base: u64, data: &'l [u8]) -> Self {
        Self {
            base,
            data,
            position: base,
        }
    }
}

impl Read for Shifted<'_> {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        let mut count = 0;
        for byte in buffer.iter_mut() {
            if self.position < self.base {
                // Whoever reads what precedes the data should find something plausible.
                *byte = if self.position % 2 == 0 { 0 } else { 1 + (self.position / 2 % 3) as u8 };
            } else if let Some(value) = usize::try_from(self.position - self.base)
                .ok()
                .and_then(|i| self.data.get(i))
            {
                *byte = *value;
            } else {
                break;
            }
            self.position += 1;
            count += 1;
        }
        Ok(count)
    }
}

fn moved(position: u64, length: u64, to: SeekFrom) -> Result<u64> {
    let (from, by) = match to {
        SeekFrom::Start(position) => return Ok(position),
        SeekFrom::Current(by) => (position, by),
        SeekFrom::End(by) => (length, by),
    };
    from.checked_add_signed(by)
        .ok_or_else(|| Error::new(ErrorKind::InvalidInput, "seek out of range"))
}

impl Seek for Shifted<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.position = moved(self.position, self.base + self.data.len() as u64, to)?;
        Ok(self.position)
    }
}

pub struct Random(u64);

impl Random {
    pub fn new(seed: u64) -> Self {
        Self(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut value = self.0;
        value = (value ^ (value >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        value = (value ^ (value >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        value ^ (value >> 31)
    }

    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

/// A stream that delivers at most a few bytes at a time and is interrupted now and then.
pub struct Choppy<S> {
    pub stream: S,
    pub random: Random,
    pub most: u64,
    pub interrupts: bool,
    pub interrupted: bool,
    pub reads: u64,
}

impl<S> Choppy<S> {
    pub fn new(stream: S, seed: u64, most: u64, interrupts: bool) -> Self {
        Self {
            stream,
            random: Random::new(seed),
            most,
            interrupts,
            interrupted: false,
            reads: 0,
        }
    }
}

impl<S: Read> Read for Choppy<S> {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        self.reads += 1;
        if self.interrupts && !self.interrupted && self.random.below(3) == 0 {
            self.interrupted = true;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.interrupted = false;
        let most = 1 + self.random.below(self.most) as usize;
        let most = most.min(buffer.len());
        self.stream.read(&mut buffer[..most])
    }
}

impl<S: Seek> Seek for Choppy<S> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.stream.seek(to)
    }
}

#[derive(Debug)]
pub struct Injected;

impl std::fmt::Display for Injected {
    fn fmt(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
        formatter.write_str("injected-failure")
    }
}

impl std::error::Error for Injected {}

/// Whether an error is, or stems from, an injected one.
pub fn is_injected(error: &Error) -> bool {
    let mut source: Option<&(dyn std::error::Error + 'static)> =
        error.get_ref().map(|error| error as _);
    while let Some(error) = source {
        if error.is::<Injected>() {
            return true;
        }
        source = error.source();
    }
    // The decoders do not fail in these ways by themselves.
    error.to_string().contains("injected-failure") || STRANGE.contains(&error.kind())
}

/// Kinds of failures that only a stream can have.
pub const STRANGE: [ErrorKind; 8] = [
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::AddrInUse,
    ErrorKind::OutOfMemory,
];

/// Kinds of failures that decoders may have as well.
pub const FAMILIAR: [ErrorKind; 6] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::Unsupported,
    ErrorKind::WriteZero,
];

/// The failures to try at operation number i: some or all of them, whether they stay, and how.
pub fn failures(i: u64, all: bool) -> Vec<(bool, ErrorKind)> {
    if all {
        let kinds = STRANGE.iter().chain(&FAMILIAR);
        return kinds.flat_map(|kind| [(false, *kind), (true, *kind)]).collect();
    }
    vec![
        (false, ErrorKind::Other),
        (false, ErrorKind::UnexpectedEof),
        (i % 2 == 0, ErrorKind::WouldBlock),
        (i % 3 == 0, STRANGE[i as usize % STRANGE.len()]),
        (i % 3 == 0, FAMILIAR[i as usize % FAMILIAR.len()]),
    ]
}

/// A stream whose operation number `fail` fails (and, if sticky, all operations after that).
pub struct Faulty<S> {
    pub stream: S,
    pub fail: u64,
    pub sticky: bool,
    pub kind: ErrorKind,
    pub count: u64,
}

impl<S> Faulty<S> {
    pub fn new(stream: S, fail: u64, sticky: bool, kind: ErrorKind) -> Self {
        Self {
            stream,
            fail,
            sticky,
            kind,
            count: 0,
        }
    }

    fn operate(&mut self) -> Result<()> {
        let i = self.count;
        self.count += 1;
        if i == self.fail || self.sticky && i > self.fail {
            // What comes from the operating system has nothing to it but its kind.
            return Err(if STRANGE.contains(&self.kind) {
                self.kind.into()
            } else {
                Error::new(self.kind, Injected)
            });
        }
        Ok(())
    }
}

impl<S: Read> Read for Faulty<S> {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        self.operate()?;
        self.stream.read(buffer)
    }
}

impl<S: Seek> Seek for Faulty<S> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.operate()?;
        self.stream.seek(to)
    }
}

/// What spec/Stream.tla has a stream do: deliver so many bytes, or be interrupted.
pub struct Schedule {
    pub events: Vec<usize>,
    pub fails: bool,
}

impl Schedule {
    /// Take the deliveries and interruptions of a behaviour, and whether it ends in a failure.
    pub fn new(case: &[crate::input::Value]) -> Option<Self> {
        let events = case[2].numbers();
        let reads: Vec<_> = events.iter().filter(|event| **event >= 0).map(|event| *event as usize).collect();
        // A stream that is interrupted forever is not one to wait for.
        reads.iter().any(|event| *event > 0).then(|| Self {
            events: reads,
            fails: case[3].string() == "failed",
        })
    }
}

/// A stream that follows a schedule over and over, and possibly fails once at some operation.
pub struct Scheduled<'l, S> {
    pub stream: S,
    pub schedule: &'l Schedule,
    pub next: usize,
    pub fail: Option<u64>,
    pub count: u64,
    pub failed: bool,
}

impl<'l, S> Scheduled<'l, S> {
    pub fn new(stream: S, schedule: &'l Schedule, fail: Option<u64>) -> Self {
        Self { stream, schedule, next: 0, fail, count: 0, failed: false }
    }

    fn operate(&mut self) -> Result<()> {
        let i = self.count;
        self.count += 1;
        if Some(i) == self.fail {
            self.failed = true;
            return Err(Error::new(ErrorKind::Other, Injected));
        }
        Ok(())
    }
}

impl<S: Read> Read for Scheduled<'_, S> {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        self.operate()?;
        let event = self.schedule.events[self.next];
        self.next = (self.next + 1) % self.schedule.events.len();
        if event == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let most = event.min(buffer.len());
        self.stream.read(&mut buffer[..most])
    }
}

impl<S: Seek> Seek for Scheduled<'_, S> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.operate()?;
        self.stream.seek(to)
    }
}
