//! Concrete checks of the real code: finds the failing input for a failed
//! obligation, replays it, and stands in (bounded) where the verifier cannot
//! decide.
mod util;
mod sys;
mod line;
mod editor;
mod screen;
mod hist;
mod decode;
mod attrs;
mod procs;
mod life;
#[allow(non_snake_case)]
mod macros_gen;
use util::*;
use std::time::{Duration, Instant};

pub struct Spec { pub id: &'static str, pub run: Prop, pub max_len: usize, pub rule: &'static str, pub fixed: fn() -> Vec<Vec<u8>>, pub max_cases: u64 }
fn none() -> Vec<Vec<u8>> { vec![] }
fn specs() -> Vec<Spec> {
    let s = |id, run, max_len, rule| Spec { id, run, max_len, rule, fixed: none as fn() -> Vec<Vec<u8>>, max_cases: u64::MAX };
    vec![
        s("C01", line::c01 as Prop, 60, "random line-building histories ending in added text with control characters, against a per-character model; non-trivial: at least one control character"),
        s("C02", line::c02, 80, "random line-building histories against a per-character model; non-trivial: at least two differently styled characters"),
        s("C03", line::c03, 80, "two random lines appended, against a per-character model; non-trivial: both have text"),
        s("C04", line::c04, 60, "random styled lines and widths; non-trivial: the wrapped line has more line breaks than before"),
        s("C27", line::c27, 60, "random styled lines and widths; non-trivial: the text is longer than the width"),
        s("C05", line::c05, 60, "random texts over an alphabet rich in escape sequences against an independent ANSI parser; non-trivial: contains an escape character"),
        s("C06", editor::c06, 60, "random sequences of keys, prompts, history changes, completions; non-trivial: the input was non-empty at some point"),
        s("C07", editor::c07, 60, "random editing key sequences against a reference editor; non-trivial: as C06"),
        s("C08", editor::c08, 60, "random key and prompt sequences against a reference editor; non-trivial: as C06"),
        s("C09", editor::c09, 60, "random raw characters and events against the documented key table; non-trivial: as C06"),
        s("C10", editor::c10, 60, "random history movements, edits and swaps against a reference editor; non-trivial: as C06"),
        s("C11", hist::c11, 80, "random histories and settings against a reference; non-trivial: at least two lines added"),
        s("C12", hist::c12, 80, "random histories written and read back, with a write failing at a random place; non-trivial: at least one line"),
        s("C13", hist::c13, 40, "random prior files, an autosave stopped or failing at a random file operation; non-trivial: a file operation was stopped or failed"),
        s("C14", decode::c14, 60, "random byte streams cut into random reads against an independent decoder; non-trivial: has an escape or a byte >= 0x80"),
        s("C15", decode::c15, 60, "random byte streams cut into random reads against an independent decoder; non-trivial: has an escape or a byte >= 0x80"),
        s("C16", screen::c16, 60, "random lines printed at random widths to an emulated screen; non-trivial: more than one row"),
        s("C17", screen::c17, 80, "random sequences of redraws, prints, erasures on an emulated screen; non-trivial: at least two redraws"),
        s("C18", screen::c18, 80, "random sequences of redraws on an emulated screen; non-trivial: at least two redraws"),
        s("C19", attrs::c19, 60, "random attribute sequences through both real backends, their output interpreted; non-trivial: at least two settings"),
        Spec { max_cases: 2000, ..s("C20", procs::c20, 40, "notices at random times shown by a real worker on a pseudo-terminal; non-trivial: at least two notices") },
        Spec { max_cases: 2000, ..s("C21", procs::c21, 60, "random input through a real pipe-mode process; non-trivial: at least one line") },
        s("C22", procs::c22, 40, "random responses and read calls; non-trivial: at least one response and one Dead"),
        Spec { max_cases: 20000, ..s("C23", procs::c23, 60, "random byte streams cut into random reads through the real capture thread; non-trivial: at least one newline") },
        Spec { max_cases: 3000, ..s("C24", procs::c24, 80, "several threads printing at once through a real worker, on a pseudo-terminal or in pipe mode; non-trivial: at least two threads") },
        Spec { max_cases: 3000, fixed: life::fixed25, ..s("C25", life::c25, 12, "a real program on a pseudo-terminal that creates a Liso and ends it in every way, at random moments; non-trivial: every one") },
        s("C28", line::c28, 60, "every element of the macros in every context used in unit macros, on random lines, against the method calls; non-trivial: every one"),
        Spec { max_cases: 3000, ..s("C26", life::c26, 12, "creation tried while another Liso is ending, and by several threads at once; non-trivial: every one") },
    ]
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 && a[1] == "child" { procs::child(&a[2..]); return }
    if a.len() > 1 && a[1] == "child24" { procs::child24(&a[2..]); return }
    if a.len() > 1 && a[1] == "child25" { life::child25(&a[2..]); return }
    if a.len() > 1 && a[1] == "child26" { life::child(&a[2..]); return }
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    if a.len() < 2 { eprintln!("usage: lv ID --seed N --secs T | lv ID --replay HEX"); std::process::exit(2) }
    let specs = specs();
    let Some(sp) = specs.iter().find(|s| s.id == a[1]) else { eprintln!("no such property"); std::process::exit(2) };
    let out = get("--out", "");
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "5").parse().unwrap();
    let maxc: u64 = get("--cases", "1000000000").parse().unwrap();
    std::env::remove_var("NO_COLOR");
    sys::this_thread_is_not_fed();
    attrs::save_stdout();
    quiet_panics();
    let emit = move |s: String| { attrs::say(&s); if !out.is_empty() { std::fs::write(&out, &s).unwrap() } };
    let replay = get("--replay", "");
    let fail_report = |id: &str, tape: &[u8], desc: &str, log: &[String], n: u64| -> String {
        format!("{{\"fail\":{{\"property\":\"{}\",\"tape\":\"{}\",\"what\":{},\"steps\":[{}]}},\"cases\":{}}}", id, hex(tape), json(desc), log.iter().map(|x| json(x)).collect::<Vec<_>>().join(","), n)
    };
    // endless loops
    {
        let id = sp.id; let emit = emit.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CURRENT.lock().unwrap().clone();
            if let Some((t, s)) = c { if s.elapsed() > Duration::from_secs(20) {
                emit(format!("{{\"fail\":{{\"property\":\"{}\",\"tape\":\"{}\",\"what\":\"does not finish\",\"steps\":[]}},\"cases\":1}}", id, hex(&t)));
                unsafe { hist::remove_scratch(); libc::_exit(1) }
            } }
        });
    }
    if a.iter().any(|x| x == "--replay") {
        let (r, log) = run_one(sp.run, &unhex(&replay));
        match r {
            Err(e) => { emit(fail_report(sp.id, &unhex(&replay), &e, &log, 1)); unsafe { hist::remove_scratch(); libc::_exit(1) } }
            Ok(()) => { emit(format!("{{\"fail\":null,\"cases\":1,\"steps\":[{}]}}", log.iter().map(|x| json(x)).collect::<Vec<_>>().join(","))); unsafe { hist::remove_scratch(); libc::_exit(0) } }
        }
    }
    let t0 = Instant::now();
    let mut rng = Rng(seed);
    let mut n = 0u64; let mut nontriv = 0u64; let mut samples: Vec<Vec<String>> = vec![];
    let mut seen = std::collections::HashSet::new();
    let fixed = (sp.fixed)();
    let mut fi = 0;
    while t0.elapsed().as_secs_f64() < secs && n < sp.max_cases && n < maxc {
        let tape: Vec<u8> = if fi < fixed.len() { fi += 1; fixed[fi - 1].clone() } else {
            let l = 1 + rng.below(1 + sp.max_len.min(4 + (n / 50) as usize));
            (0..l).map(|_| rng.next() as u8).collect()
        };
        let (r, log) = run_one(sp.run, &tape);
        n += 1;
        if let Err(_) = r {
            let t = shrink(sp.run, tape.clone());
            let (mut r2, mut log2) = run_one(sp.run, &t);
            let mut t = t;
            if r2.is_ok() { t = tape; r2 = r; log2 = log; }
            emit(fail_report(sp.id, &t, &r2.unwrap_err(), &log2, n));
            unsafe { hist::remove_scratch(); libc::_exit(1) }
        }
        let nt = log.first().map(|x| x == "*").unwrap_or(false);
        if nt && seen.len() < 400000 && seen.insert(hash(&log)) { nontriv += 1; if samples.len() < 3 && log.len() > 2 { samples.push(log) } }
    }
    emit(format!("{{\"fail\":null,\"cases\":{},\"distinct_nontrivial\":{},\"rule\":{},\"secs\":{:.2},\"samples\":[{}]}}", n, nontriv, json(sp.rule), t0.elapsed().as_secs_f64(),
        samples.iter().map(|l| json(&l[1..].join("; "))).collect::<Vec<_>>().join(",")));
    unsafe { hist::remove_scratch(); libc::_exit(0) }
}
fn hash(l: &[String]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    l.hash(&mut h); h.finish()
}
