//! C14: log records reach the drain output completely, in order and once.

use pbt::{bail, ensure, facet, Facet, Info, Outcome};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use slog::{BorrowedKV, Level, Logger, OwnedKV, Record, RecordLocation, RecordStatic, KV};
use tcp_proto::runtime::endpoint::{LogMessage, LogSeverity};

const FILES: [&str; 6] = [
    "apps/tablet_cache/service/src/transaction/metadata.rs",
    "lib.rs",
    "/abs/path/with space.rs",
    "./x.rs",
    "a//b.rs",
    "src/\u{00e9}t\u{00e9}.rs",
];
const NAMES: [&str; 6] = ["metadata.rs", "lib.rs", "with space.rs", "x.rs", "b.rs", "\u{00e9}t\u{00e9}.rs"];
const KEYS: [&str; 8] = ["kalpha", "kbeta", "kgamma", "kdelta", "k_snake", "k-dash", "ktype", "k\u{00fc}"];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Val {
    Text(String),
    Unsigned(u64),
    Signed(i64),
    Formatted(u32),
    Bool(bool),
    Char(char),
    Float(f64),
    Unit,
    Missing,
}

fn val() -> impl Strategy<Value = Val> {
    prop_oneof![
        4 => text().prop_map(Val::Text),
        1 => any::<u64>().prop_map(Val::Unsigned),
        1 => any::<i64>().prop_map(Val::Signed),
        1 => any::<u32>().prop_map(Val::Formatted),
        1 => any::<bool>().prop_map(Val::Bool),
        1 => prop::char::range('a', 'z').prop_map(Val::Char),
        1 => (-1000i32..1000).prop_map(|f| Val::Float(f as f64 / 4.0)),
        1 => Just(Val::Unit),
        1 => Just(Val::Missing),
    ]
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 ]{0,20}",
        2 => "[\\PC]{0,12}",
        1 => Just("{} {:?} %s \\ \" ' , : // @".to_string()),
        1 => Just("two\nlines\r\n\t".to_string()),
        1 => (1usize..4000).prop_map(|n| "x".repeat(n)),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Entry {
    logger: u8,
    level: u8,
    file: u8,
    text: String,
    pairs: Vec<(u8, Val)>,
    /// Written without a mark that tells its text from others, except by threads.
    bare: bool,
}

fn entry() -> impl Strategy<Value = Entry> {
    (any::<u8>(), 0u8..6, 0u8..6, text(), prop::collection::vec((0u8..8, val()), 0..4), prop::bool::weighted(0.2)).prop_map(
        |(logger, level, file, text, pairs, bare)| Entry { logger, level, file, bare: bare && !text.contains("<m"), text, pairs },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Log(Entry),
    /// Writes the previous record again, exactly.
    Repeat(u16),
    /// A logger with further context.
    Derive { from: u8, pairs: Vec<(u8, Val)> },
    Take,
    /// Several threads write while records are taken.
    Threads { entries: Vec<Vec<Entry>>, takes: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    steps: Vec<Step>,
}

fn case(threads: u32) -> impl Strategy<Value = Case> {
    let step = prop_oneof![
        60 => entry().prop_map(Step::Log),
        12 => (1u16..4).prop_map(Step::Repeat),
        1 => prop_oneof![9 => 4u16..300, 1 => 300u16..3000].prop_map(Step::Repeat),
        10 => (any::<u8>(), prop::collection::vec((0u8..8, val()), 0..3)).prop_map(|(from, pairs)| Step::Derive { from, pairs }),
        15 => Just(Step::Take),
        threads => (prop::collection::vec(prop::collection::vec(entry(), 1..8), 1..4), 0u8..4)
            .prop_map(|(entries, takes)| Step::Threads { entries, takes }),
    ];
    prop::collection::vec(step, 1..25).prop_map(|steps| Case { steps })
}

struct Pairs(Vec<(&'static str, Val, String)>);

impl Pairs {
    /// Texts get a mark that tells them from everything else.
    fn create(pairs: &[(u8, Val)], mark: &mut u32) -> Pairs {
        Pairs(
            pairs
                .iter()
                .map(|(k, v)| {
                    *mark += 1;
                    let (v, shown) = match v {
                        Val::Text(t) => {
                            let t = format!("<v{mark}>{t}</v{mark}>");
                            (Val::Text(t.clone()), t)
                        }
                        Val::Formatted(n) => (v.clone(), format!("<f{n}>")),
                        Val::Unsigned(n) => (v.clone(), n.to_string()),
                        Val::Signed(n) => (v.clone(), n.to_string()),
                        Val::Bool(b) => (v.clone(), b.to_string()),
                        Val::Char(c) => (v.clone(), c.to_string()),
                        Val::Float(f) => (v.clone(), f.to_string()),
                        // Whatever is shown for nothing.
                        Val::Unit | Val::Missing => (v.clone(), String::new()),
                    };
                    (KEYS[(k % 8) as usize], v, shown)
                })
                .collect(),
        )
    }

    fn expected(&self) -> Vec<(&'static str, String)> {
        self.0.iter().map(|(k, _, s)| (*k, s.clone())).collect()
    }
}

impl KV for Pairs {
    fn serialize(&self, _: &Record, s: &mut dyn slog::Serializer) -> slog::Result {
        for (k, v, _) in &self.0 {
            match v {
                Val::Text(t) => s.emit_str(k, t)?,
                Val::Unsigned(n) => s.emit_u64(k, *n)?,
                Val::Signed(n) => s.emit_i64(k, *n)?,
                Val::Formatted(n) => s.emit_arguments(k, &format_args!("<f{n}>"))?,
                Val::Bool(b) => s.emit_bool(k, *b)?,
                Val::Char(c) => s.emit_char(k, *c)?,
                Val::Float(f) => s.emit_f64(k, *f)?,
                Val::Unit => s.emit_unit(k)?,
                Val::Missing => s.emit_none(k)?,
            }
        }
        Ok(())
    }
}

const LEVELS: [Level; 6] =
    [Level::Critical, Level::Error, Level::Warning, Level::Info, Level::Debug, Level::Trace];
const SEVERITIES: [LogSeverity; 6] = [
    LogSeverity::Critical,
    LogSeverity::Error,
    LogSeverity::Warning,
    LogSeverity::Info,
    LogSeverity::Debug,
    LogSeverity::Trace,
];

#[derive(Clone)]
struct Expected {
    bare: bool,
    severity: LogSeverity,
    text: String,
    file: &'static str,
    pairs: Vec<(&'static str, String)>,
}

fn write(logger: &Logger, entry: &Entry, text: &str, pairs: &Pairs) {
    let location = RecordLocation {
        file: FILES[entry.file as usize % 6],
        line: 17,
        column: 3,
        function: "function",
        module: "module",
    };
    let meta = RecordStatic { location: &location, tag: "", level: LEVELS[entry.level as usize % 6] };
    logger.log(&Record::new(&meta, &format_args!("{text}"), BorrowedKV(pairs)));
}

fn matches(message: &LogMessage, expected: &Expected) -> Result<(), String> {
    ensure!(
        message.severity == expected.severity as i32,
        "severity {} of {:?}, it was written as {:?}",
        message.severity,
        message.message,
        expected.severity
    );
    let m = &message.message;
    ensure!(m.contains(&expected.text), "{m:?} doesn't hold the text {:?}", expected.text);
    ensure!(m.contains(expected.file), "{m:?} doesn't hold the file name {:?}", expected.file);
    for (k, v) in &expected.pairs {
        // The value follows the key, with only punctuation between them.
        let found = m.match_indices(k).any(|(at, _)| {
            let rest = &m[at + k.len()..];
            rest.find(v.as_str()).is_some_and(|gap| rest[..gap].chars().count() <= 4 && !rest[..gap].chars().any(|c| c.is_alphanumeric()))
        });
        ensure!(found, "{m:?} doesn't hold the pair {k:?} {v:?}");
    }
    Ok(())
}

trait Output {
    fn take(&mut self) -> Vec<LogMessage>;
}

struct StdOutput(Box<dyn tcp_runtime_std::logger::DrainOutput>);
impl Output for StdOutput {
    fn take(&mut self) -> Vec<LogMessage> {
        self.0.take_entries()
    }
}

struct NoStdOutput(Box<dyn tcp_runtime_nostd::logger::DrainOutput>);
impl Output for NoStdOutput {
    fn take(&mut self) -> Vec<LogMessage> {
        self.0.take_entries()
    }
}

fn mark(message: &LogMessage) -> Option<usize> {
    let rest = message.message.split("<m").nth(1)?;
    rest.split('>').next()?.parse().ok()
}

fn check(root: Logger, output: &mut dyn Output, case: &Case) -> Outcome {
    let mut info = Info::default();
    let mut loggers: Vec<(Logger, Vec<(&'static str, String)>)> = vec![(root, Vec::new())];
    let mut marks = 0;
    let mut expected: Vec<Expected> = Vec::new();
    let mut pending: Vec<usize> = Vec::new();
    let mut last: Option<(Logger, &Entry, String, Pairs, usize)> = None;
    let mut taken = 0;
    let ends = case.steps.iter().chain([&Step::Take]);
    for step in ends {
        match step {
            Step::Derive { from, pairs } => {
                let (logger, context) = &loggers[*from as usize % loggers.len()];
                let pairs = Pairs::create(pairs, &mut marks);
                let mut context = context.clone();
                context.extend(pairs.expected());
                info.label(!context.is_empty(), "logger context");
                loggers.push((logger.new(OwnedKV(pairs)), context));
            }
            Step::Log(entry) => {
                let (logger, context) = &loggers[entry.logger as usize % loggers.len()];
                let i = expected.len();
                let pairs = Pairs::create(&entry.pairs, &mut marks);
                let text = if entry.bare { entry.text.clone() } else { format!("<m{i}>{}</m{i}>", entry.text) };
                write(logger, entry, &text, &pairs);
                expected.push(Expected {
                    bare: entry.bare,
                    severity: SEVERITIES[entry.level as usize % 6],
                    text: text.clone(),
                    file: NAMES[entry.file as usize % 6],
                    pairs: pairs.expected().into_iter().chain(context.iter().cloned()).collect(),
                });
                pending.push(i);
                last = Some((logger.clone(), entry, text, pairs, i));
            }
            Step::Repeat(times) => {
                if let Some((logger, entry, text, pairs, i)) = &last {
                    for _ in 0..*times {
                        write(logger, entry, text, pairs);
                        pending.push(*i);
                    }
                    info.label(true, "repeated");
                }
            }
            Step::Take => {
                let messages = output.take();
                let got: Vec<Option<usize>> = messages.iter().map(mark).collect();
                ensure!(
                    got == pending.iter().map(|i| (!expected[*i].bare).then_some(*i)).collect::<Vec<_>>(),
                    "records {got:?} taken, {pending:?} were written since the last time"
                );
                for (message, i) in messages.iter().zip(&pending) {
                    matches(message, &expected[*i])?;
                }
                taken += messages.len();
                info.label(taken > messages.len() && !messages.is_empty(), "taken several times");
                pending.clear();
                ensure!(output.take().is_empty(), "records are left after taking them");
            }
            Step::Threads { entries, takes } => {
                info.label(true, "threads");
                let mut work = Vec::new();
                for list in entries {
                    let mut jobs = Vec::new();
                    for entry in list {
                        let (logger, context) = &loggers[entry.logger as usize % loggers.len()];
                        let i = expected.len();
                        let pairs = Pairs::create(&entry.pairs, &mut marks);
                        let text = format!("<m{i}>{}</m{i}>", entry.text);
                        expected.push(Expected {
                            bare: false,
                            severity: SEVERITIES[entry.level as usize % 6],
                            text: text.clone(),
                            file: NAMES[entry.file as usize % 6],
                            pairs: pairs.expected().into_iter().chain(context.iter().cloned()).collect(),
                        });
                        jobs.push((logger.clone(), entry.clone(), text, pairs, i));
                    }
                    work.push(jobs);
                }
                let lists: Vec<Vec<usize>> = work.iter().map(|jobs| jobs.iter().map(|j| j.4).collect()).collect();
                let mut messages = Vec::new();
                std::thread::scope(|scope| {
                    let threads: Vec<_> = work
                        .into_iter()
                        .map(|jobs| {
                            scope.spawn(move || {
                                for (logger, entry, text, pairs, _) in jobs {
                                    write(&logger, &entry, &text, &pairs);
                                }
                            })
                        })
                        .collect();
                    for _ in 0..*takes {
                        messages.extend(output.take());
                        std::thread::yield_now();
                    }
                    for t in threads {
                        if t.join().is_err() {
                            panic!("a thread that writes records panics");
                        }
                    }
                });
                messages.extend(output.take());
                let before = pending.len();
                ensure!(messages.len() >= before, "{} records taken, {before} were written first", messages.len());
                for (message, i) in messages.iter().zip(&pending) {
                    ensure!(mark(message) == (!expected[*i].bare).then_some(*i), "record {message:?} taken, {i} was written");
                    matches(message, &expected[*i])?;
                }
                let mut got = Vec::new();
                for message in &messages[before..] {
                    let Some(i) = mark(message).filter(|i| *i < expected.len()) else {
                        bail!("unknown record {message:?}")
                    };
                    matches(message, &expected[i])?;
                    got.push(i);
                }
                let rest = &got[..];
                let total: usize = lists.iter().map(|l| l.len()).sum();
                ensure!(rest.len() == total, "{} records of {total} arrive from threads {lists:?}: {rest:?}", rest.len());
                for list in &lists {
                    let own: Vec<usize> = rest.iter().filter(|i| list.contains(i)).copied().collect();
                    ensure!(own == *list, "records {list:?} of a thread arrive as {own:?}");
                }
                taken += messages.len();
                pending.clear();
            }
        }
    }
    info.nontrivial = taken > 2 && expected.iter().any(|e| !e.pairs.is_empty());
    Ok(info)
}

fn check_std(case: &Case) -> Outcome {
    let (logger, output) = tcp_runtime_std::logger::log::create_remote_logger();
    check(logger, &mut StdOutput(output), case)
}

fn check_nostd(case: &Case) -> Outcome {
    let (logger, output) = tcp_runtime_nostd::logger::log::create_remote_logger();
    check(logger, &mut NoStdOutput(output), case)
}

pub fn facets() -> Vec<Facet> {
    const RULE: &str = "records with key-value pairs written through loggers with context, by several threads, and taken at any time; non-trivial: several records, some with pairs";
    vec![
        facet("C14", "trusted", RULE, 300_000, 6_000_000, || case(1), check_nostd),
        facet("C14", "hosted", RULE, 30_000, 1_000_000, || case(1), check_std),
    ]
}
