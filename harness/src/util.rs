use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}
/// A case is a tape of bytes that the property decodes.
pub struct Tape<'a> { b: &'a [u8], i: usize, pub log: Vec<String> }
impl<'a> Tape<'a> {
    pub fn new(b: &'a [u8]) -> Tape<'a> { Tape { b, i: 0, log: vec![] } }
    pub fn byte(&mut self) -> u8 { let r = self.b.get(self.i).copied().unwrap_or(0); self.i += 1; r }
    pub fn n(&mut self, n: usize) -> usize { if n <= 1 { 0 } else { self.byte() as usize % n } }
    pub fn rest(&mut self) -> Vec<u8> { let r = self.b.get(self.i..).unwrap_or(&[]).to_vec(); self.i = self.b.len(); r }
    pub fn end(&self) -> bool { self.i >= self.b.len() }
    pub fn bool(&mut self) -> bool { self.byte() & 1 == 1 }
    pub fn text(&mut self, alpha: &[&str], max: usize) -> String {
        let n = self.n(max + 1);
        let mut s = String::new();
        for _ in 0..n { s.push_str(alpha[self.n(alpha.len())]); }
        s
    }
    pub fn say(&mut self, s: String) { self.log.push(s); }
}
pub type R = Result<(), String>;
pub type Prop = fn(&mut Tape) -> R;

pub static CURRENT: Mutex<Option<(Vec<u8>, Instant)>> = Mutex::new(None);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());


pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| { *LAST_PANIC.lock().unwrap() = i.to_string(); }));
}
pub fn run_one(p: Prop, tape: &[u8]) -> (R, Vec<String>) {
    *CURRENT.lock().unwrap() = Some((tape.to_vec(), Instant::now()));
    let mut t = Tape::new(tape);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p(&mut t)));
    let r = match r {
        Ok(x) => x,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.lock().unwrap().replace('\n', " "))),
    };
    *CURRENT.lock().unwrap() = None;
    (r, t.log)
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
pub fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => r.push_str(&format!("\\u{:04x}", c as u32)), c => r.push(c) }
    }
    r.push('"'); r
}
pub fn shrink(p: Prop, tape: Vec<u8>) -> Vec<u8> {
    let t0 = Instant::now();
    let mut best = tape;
    loop {
        let before = best.clone();
        let mut k = best.len() / 2;
        while k > 0 {
            let mut i = 0;
            while i + k <= best.len() && t0.elapsed() < Duration::from_secs(8) {
                let mut c = best.clone(); c.drain(i..i + k);
                if run_one(p, &c).0.is_err() { best = c } else { i += k }
            }
            k /= 2;
        }
        for i in 0..best.len() {
            for v in [0u8, 1, best[i] / 2, best[i].saturating_sub(1)] {
                if v < best[i] && t0.elapsed() < Duration::from_secs(8) {
                    let mut c = best.clone(); c[i] = v;
                    if run_one(p, &c).0.is_err() { best = c; break }
                }
            }
        }
        if best == before || t0.elapsed() >= Duration::from_secs(8) { return best }
    }
}
