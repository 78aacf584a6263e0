//! Bounded exploration of the formatter's public API, one oracle per property.
//!
//! vp-harness explore ID SEED N SECONDS OUT REPLAY [TRACEDIR]   exit 0: quiet, 1: violation
//! vp-harness replay FILE                                       exit 0: holds, 1: violation
//! vp-harness known FILE                                        which known findings still fail
//! vp-harness try ID N SEED SHOW                                for development
mod cli;
mod gens;
mod props;
mod model;
mod util;
mod view;
use props::{Prop, Verdict};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::*;

const THREADS: usize = 8;
const HANG: Duration = Duration::from_secs(10);
const RSS_PAGES: u64 = (8u64 << 30) / 4096;

fn prop(id: &str) -> &'static Prop {
    props::PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"))
}

/// A panic in the oracle itself isn't a verdict on the code.
fn check(p: &Prop, c: &Case) -> Verdict {
    catch_unwind(AssertUnwindSafe(|| (p.check)(c))).unwrap_or(Verdict::Skip)
}

fn case_for(p: &Prop, seed: u64, i: u64) -> Case {
    let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
    (p.gen)(&mut r)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("explore") => explore(&a),
        Some("replay") => replay(&a[2]),
        Some("known") => known(&a[2]),
        Some("try") => try_(&a),
        // compares the trusted model of std with std
        Some("model") => match model::run(a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1), a.get(3).and_then(|x| x.parse().ok()).unwrap_or(200_000)) {
            Ok(n) => {
                println!("model: {n} comparisons, no difference");
                0
            }
            Err(e) => {
                println!("model: {e}");
                1
            }
        },
        Some("fmt") => {
            let _ = std::panic::take_hook();
            // prints the formatted file
            let input = std::fs::read_to_string(&a[2]).unwrap();
            let w = a.get(3).and_then(|w| w.parse().ok());
            println!("{:?}", util::builder(w, a.get(4).is_some()).build().format(&input));
            0
        }
        Some("events") => {
            let input = std::fs::read_to_string(&a[2]).unwrap();
            for (e, r) in pulldown_cmark::Parser::new_ext(&input, markdown_fmt::pulldown_cmark_options!()).into_offset_iter() {
                println!("{r:?} {e:?}");
            }
            0
        }
        _ => {
            eprintln!("usage: vp-harness explore|replay|known|try ...");
            2
        }
    };
    std::process::exit(code)
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn replay_text(id: &str, c: &Case, msg: &str) -> String {
    let mut t = String::new();
    let _ = writeln!(t, "property: {id}");
    let _ = writeln!(t, "max_width: {}", c.max_width.map_or("none".into(), |w| w.to_string()));
    let _ = writeln!(t, "reflow_text: {}", c.reflow);
    let _ = writeln!(t, "input: {:?}", c.input);
    for e in &c.extra {
        let _ = writeln!(t, "extra: {e:?}");
    }
    let _ = writeln!(t, "input-hex: {}", hex(&c.input));
    for e in &c.extra {
        let _ = writeln!(t, "extra-hex: {}", hex(e));
    }
    let _ = writeln!(t, "reproduce: /verif/tools/replay.sh THIS_FILE");
    let _ = writeln!(t, "\n{msg}");
    t
}
fn parse_replay(t: &str) -> (String, Case) {
    let mut id = String::new();
    let mut c = Case::default();
    for l in t.lines() {
        if let Some(v) = l.strip_prefix("property: ") {
            id = v.to_string();
        } else if let Some(v) = l.strip_prefix("max_width: ") {
            c.max_width = v.parse().ok();
        } else if let Some(v) = l.strip_prefix("reflow_text: ") {
            c.reflow = v == "true";
        } else if let Some(v) = l.strip_prefix("input-hex: ") {
            c.input = unhex(v);
        } else if l == "input-hex:" {
            c.input = String::new();
        } else if let Some(v) = l.strip_prefix("extra-hex: ") {
            c.extra.push(unhex(v));
        } else if l.is_empty() {
            break;
        }
    }
    (id, c)
}

fn replay(file: &str) -> i32 {
    let (id, c) = parse_replay(&std::fs::read_to_string(file).unwrap());
    let p = prop(&id);
    // A case that doesn't end is a violation too.
    std::thread::spawn(|| {
        std::thread::sleep(HANG);
        println!("no result after {HANG:?}");
        std::process::exit(1);
    });
    match check(p, &c) {
        Verdict::Fail(m) => {
            println!("{m}");
            1
        }
        Verdict::Skip => {
            println!("outside the property's precondition");
            0
        }
        Verdict::Pass(_) => {
            println!("holds");
            0
        }
    }
}

/// Known findings: lines `property<TAB>max_width<TAB>reflow<TAB>input (escaped)<TAB>what fails`.
fn known(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    for l in t.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 6 || f[0].starts_with('#') || f[0].starts_with("fixed:") {
            continue;
        }
        let c = Case {
            input: unescape(f[4]),
            max_width: f[2].parse().ok(),
            reflow: f[3] == "true",
            extra: vec![],
        };
        let bad = props::raw_check(f[1], &c);
        println!("{}\t{}\t{}", f[0], f[1], if bad { "fails" } else { "holds" });
    }
    0
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Slot {
    started: Mutex<Option<(Instant, Case)>>,
}

fn explore(a: &[String]) -> i32 {
    let p = prop(&a[2]);
    let seed: u64 = a[3].parse().unwrap();
    let n: u64 = match a[4].parse().unwrap() {
        0 => p.quick as u64 * std::env::var("VP_MULT").ok().and_then(|m| m.parse::<u64>().ok()).unwrap_or(1),
        n => n,
    };
    let limit = Duration::from_secs(a[5].parse().unwrap());
    let (out, replay_path) = (&a[6], &a[7]);
    let trace = a.get(8);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let (evals, skips, trivial) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let bad: Mutex<Vec<(u64, Case, String)>> = Mutex::new(vec![]);
    let slots: Vec<Slot> = (0..THREADS + 1).map(|_| Slot { started: Mutex::new(None) }).collect();
    let report = |c: &Case, msg: &str| {
        let _ = std::fs::write(replay_path, replay_text(p.id, c, msg));
    };
    let summary = |violations: usize| {
        let samples: Vec<String> = (0..3).map(|i| {
            let c = case_for(p, seed, i);
            json(&format!("max_width={:?} reflow={} input={:?}", c.max_width, c.reflow, c.input))
        }).collect();
        let t = format!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"outside_precondition\":{},\"trivial\":{},\"samples\":[{}],\"violations\":{},\"rule\":{}}}\n",
            evals.load(SeqCst), distinct.lock().unwrap().len(), skips.load(SeqCst), trivial.load(SeqCst), samples.join(","), violations, json(p.rule)
        );
        let _ = std::fs::write(out, t);
    };
    std::thread::scope(|s| {
        // watch for cases that don't end or eat up the memory
        s.spawn(|| {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                let rss: u64 = std::fs::read_to_string("/proc/self/statm").ok()
                    .and_then(|t| t.split(' ').nth(1).and_then(|x| x.parse().ok())).unwrap_or(0);
                let mut oldest: Option<(Duration, Case)> = None;
                for s in &slots {
                    if let Some((t, c)) = s.started.lock().unwrap().as_ref() {
                        if oldest.as_ref().is_none_or(|o| t.elapsed() > o.0) {
                            oldest = Some((t.elapsed(), c.clone()));
                        }
                    }
                }
                if let Some((d, c)) = oldest {
                    if d > HANG || rss > RSS_PAGES {
                        let known = bad.lock().unwrap().first().cloned();
                        match known {
                            Some((_, c, m)) => report(&c, &m),
                            None if d > HANG => report(&c, &format!("formatting doesn't end: no result after {HANG:?}")),
                            None => report(&c, "formatting uses up the memory"),
                        }
                        summary(1);
                        std::process::exit(1);
                    }
                }
            }
        });
        let workers: Vec<_> = (0..THREADS).map(|w| {
            let (next, stop, evals, skips, trivial, distinct, bad, slots) = (&next, &stop, &evals, &skips, &trivial, &distinct, &bad, &slots);
            s.spawn(move || {
                let mut mine = HashSet::new();
                while !stop.load(SeqCst) {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || t0.elapsed() > limit {
                        break;
                    }
                    let c = case_for(p, seed, i);
                    if let Some(d) = trace {
                        let _ = std::fs::write(format!("{d}/{w}"), replay_text(p.id, &c, "formatting this ended the process"));
                    }
                    *slots[w].started.lock().unwrap() = Some((Instant::now(), c.clone()));
                    let v = check(p, &c);
                    *slots[w].started.lock().unwrap() = None;
                    evals.fetch_add(1, SeqCst);
                    match v {
                        Verdict::Skip => {
                            skips.fetch_add(1, SeqCst);
                        }
                        Verdict::Pass(false) => {
                            trivial.fetch_add(1, SeqCst);
                        }
                        Verdict::Pass(true) => {
                            let mut h = std::hash::DefaultHasher::new();
                            (&c.input, c.max_width, c.reflow, &c.extra).hash(&mut h);
                            mine.insert(h.finish());
                        }
                        Verdict::Fail(m) => {
                            let mut b = bad.lock().unwrap();
                            b.push((i, c, m));
                            if b.len() >= 40 {
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                }
                distinct.lock().unwrap().extend(mine);
            })
        }).collect();
        for w in workers {
            let _ = w.join();
        }
        let first = {
            let mut b = bad.lock().unwrap();
            b.sort_by_key(|x| (x.1.input.len() + x.1.extra.iter().map(|e| e.len()).sum::<usize>(), x.0));
            b.first().cloned()
        };
        let code = if let Some((_, c, m)) = first {
            let (c, m) = shrink(p, c, m, &slots[THREADS]);
            report(&c, &m);
            println!("{m}\n  input: {:?} max_width={:?} reflow_text={}", c.input, c.max_width, c.reflow);
            1
        } else {
            0
        };
        summary(bad.lock().unwrap().len());
        done.store(true, SeqCst);
        code
    })
}

fn shrink(p: &Prop, mut c: Case, mut m: String, slot: &Slot) -> (Case, String) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(20);
    let fails = |d: &Case| -> Option<String> {
        *slot.started.lock().unwrap() = Some((Instant::now(), d.clone()));
        let v = check(p, d);
        *slot.started.lock().unwrap() = None;
        match v {
            Verdict::Fail(m) => Some(m),
            _ => None,
        }
    };
    if c.max_width.is_some() && p.id != "C11" {
        let d = Case { max_width: None, reflow: false, ..c.clone() };
        if let Some(x) = fails(&d) {
            c = d;
            m = x;
        }
    }
    if p.id != "C16" {
        let mut i = 0;
        while i < c.extra.len() && t0.elapsed() < limit {
            let mut d = c.clone();
            d.extra.remove(i);
            if let Some(x) = fails(&d) {
                c = d;
                m = x;
            } else {
                i += 1;
            }
        }
    }
    let mut size = c.input.chars().count().max(1);
    while size >= 1 && t0.elapsed() < limit {
        let cs: Vec<char> = c.input.chars().collect();
        let mut i = 0;
        let mut any = false;
        while i < cs.len() && t0.elapsed() < limit {
            let s: String = cs[..i].iter().chain(cs[(i + size).min(cs.len())..].iter()).collect();
            let d = Case { input: s, ..c.clone() };
            if d.input.len() < c.input.len() {
                if let Some(x) = fails(&d) {
                    c = d;
                    m = x;
                    any = true;
                    break;
                }
            }
            i += (size / 2).max(1);
        }
        if !any {
            size /= 2;
        } else {
            size = size.min(c.input.chars().count().max(1));
        }
    }
    (c, m)
}

fn try_(a: &[String]) -> i32 {
    let p = prop(&a[2]);
    let n: u64 = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let show: usize = a.get(5).map_or(6, |s| s.parse().unwrap());
    let next = AtomicU64::new(0);
    let bad: Mutex<Vec<(Case, String)>> = Mutex::new(vec![]);
    let (skip, triv) = (AtomicUsize::new(0), AtomicUsize::new(0));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                let c = case_for(p, seed, i);
                match check(p, &c) {
                    Verdict::Skip => {
                        skip.fetch_add(1, SeqCst);
                    }
                    Verdict::Pass(false) => {
                        triv.fetch_add(1, SeqCst);
                    }
                    Verdict::Pass(true) => {}
                    Verdict::Fail(m) => bad.lock().unwrap().push((c, m)),
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    println!("{}: {} bad of {n}, {} skipped, {} trivial", p.id, bad.len(), skip.into_inner(), triv.into_inner());
    bad.sort_by_key(|b| b.0.input.len());
    for (c, m) in bad.iter().take(show) {
        println!("--- {:?} w={:?} reflow={} extra={:?}\n{m}", c.input, c.max_width, c.reflow, c.extra);
    }
    0
}
