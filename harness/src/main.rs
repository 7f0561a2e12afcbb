mod emb;
mod exec;
mod gen;
mod val;

use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;
use val::V;

static STEPS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Ends the process if one event makes no progress: the event is in the report.
fn watchdog(seconds: u64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(Duration::from_secs(seconds));
            let now = STEPS.load(Ordering::SeqCst);
            if now == last {
                println!("HANG {}", CURRENT.lock().unwrap());
                std::process::exit(3);
            }
            last = now;
        }
    });
}

fn run(s: &V, begin: &mut Option<std::fs::File>) -> V {
    *CURRENT.lock().unwrap() = s.to_string();
    if let Some(f) = begin {
        use std::io::Seek;
        f.set_len(0).unwrap();
        f.rewind().unwrap();
        writeln!(f, "{}", s).unwrap();
    }
    let out = exec::run(s, &mut |_| {
        STEPS.fetch_add(1, Ordering::SeqCst);
    });
    STEPS.fetch_add(1, Ordering::SeqCst);
    out
}

/// A session written as JSON, or by TLC as a quoted TLA+ tuple.
fn read(l: &str) -> Option<V> {
    let l = l.trim().trim_matches('"').replace("\\\"", "\"");
    if l.is_empty() { None } else { Some(val::parse(&l)) }
}

fn main() {
    // A panic of the library is an outcome; one of the harness is an error.
    std::panic::set_hook(Box::new(|info| {
        if !exec::in_library() {
            eprintln!("{}", info);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).map(|i| args[i + 1].clone())
    };
    // Embeddings to run each session of a file under, instead of its own.
    let embs: Vec<V> = opt("--embs").map_or(vec![], |s| {
        s.split(';').map(|e| val::parse(&format!("[{}]", e))).collect()
    });
    let under = |s: V| -> Vec<V> {
        if embs.is_empty() {
            return vec![s];
        }
        // Some embeddings are only for sessions that don't mind.
        embs.iter()
            .filter(|e| emb::suits(&emb::Emb::of(e), s.at(1).l()))
            .map(|e| V::L(vec![e.clone(), s.at(1).clone()]))
            .collect()
    };
    let mut begin = opt("--begin").map(|f| std::fs::File::create(f).unwrap());
    watchdog(opt("--patience").map_or(20, |s| s.parse().unwrap()));
    let out_file = opt("--out").map(|f| std::fs::File::create(f).unwrap());
    let mut out: BufWriter<Box<dyn Write>> = BufWriter::new(match out_file {
        Some(f) => Box::new(f),
        None => Box::new(std::io::stdout()),
    });
    match args[1].as_str() {
        // harness gen PROPERTY SEED TIER --out FILE: drive the code, record sessions
        "gen" => {
            let seed: u64 = args[3].parse().unwrap();
            let mut events = 0usize;
            let mut sessions = 0usize;
            gen::generate(&args[2], seed, &args[4], &mut |s| {
                let done = run(&s, &mut begin);
                events += done.at(1).l().len();
                sessions += 1;
                writeln!(out, "{}", done).unwrap();
            });
            out.flush().unwrap();
            println!("SESSIONS {} EVENTS {}", sessions, events);
        }
        // harness replay FILE: sessions predicted by the specification
        "replay" => {
            let (mut sessions, mut events, mut differ) = (0usize, 0usize, 0usize);
            for path in args[2..].iter().take_while(|a| !a.starts_with("--")) {
                let file = BufReader::new(std::fs::File::open(path).unwrap());
                for l in file.lines() {
                    for want in read(&l.unwrap()).map_or(vec![], |s| under(s)) {
                        let got = run(&want, &mut begin);
                        sessions += 1;
                        events += got.at(1).l().len();
                        if got != want {
                            differ += 1;
                            if differ <= 200 {
                                writeln!(out, "{}\t{}", want, got).unwrap();
                            }
                        }
                    }
                }
            }
            out.flush().unwrap();
            println!("SESSIONS {} EVENTS {} DIFFER {}", sessions, events, differ);
        }
        // harness run FILE: run sessions and record the outcomes
        "run" => {
            let (mut sessions, mut events) = (0usize, 0usize);
            for l in BufReader::new(std::fs::File::open(&args[2]).unwrap()).lines() {
                for s in read(&l.unwrap()).map_or(vec![], |s| under(s)) {
                    let done = run(&s, &mut begin);
                    sessions += 1;
                    events += done.at(1).l().len();
                    writeln!(out, "{}", done).unwrap();
                }
            }
            out.flush().unwrap();
            println!("SESSIONS {} EVENTS {}", sessions, events);
        }
        // harness text FILE: show the texts of wkt events
        "text" => {
            for l in BufReader::new(std::fs::File::open(&args[2]).unwrap()).lines() {
                let s = val::parse(&l.unwrap());
                for ev in s.at(1).l() {
                    if ev.at(0).s() == "wkt" {
                        println!("{:?}", exec::text(ev.at(1).at(0).i(), ev.at(1).at(1)));
                    }
                }
            }
        }
        other => {
            eprintln!("unknown command {}", other);
            std::process::exit(2);
        }
    }
}
