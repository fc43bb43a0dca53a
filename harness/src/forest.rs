//! Shared by the harnesses: the recording (a forest of transactions), arguments, random numbers.
use crate::conv;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::Write;

/// one recorded transaction; `par` = index of the parent line or -1
struct Line {
    par: i64,
    kids: Vec<usize>,
    src: &'static str,
    e: Value,
    o: Value,
}
#[derive(Default)]
pub struct Forest(Vec<Line>, Vec<String>);
impl Forest {
    /// a step of the harness itself; it can only fail if the code under test has left the specified behaviour,
    /// and the history ends there (if the recording shows no such departure, the run is no answer)
    pub fn attempt<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(p) => {
                self.1.push(text_of(&p));
                None
            }
        }
    }
    pub fn add(&mut self, par: i64, src: &'static str, e: Value, o: Value) -> i64 {
        let id = self.0.len();
        if par >= 0 {
            self.0[par as usize].kids.push(id + 1);
        }
        self.0.push(Line { par, kids: vec![], src, e, o });
        id as i64
    }
    fn write(&self, out: &str) {
        let mut w = std::io::BufWriter::new(std::fs::File::create(out).expect("harness: out"));
        for l in &self.0 {
            let v = json!({"root": if l.par < 0 {"t"} else {"f"}, "kids": l.kids, "src": l.src, "e": esc(&l.e), "o": esc(&l.o)});
            serde_json::to_writer(&mut w, &v).unwrap();
            w.write_all(b"\n").unwrap();
        }
        w.flush().unwrap();
    }
}

/// histories as a tree of event indices
#[derive(Default)]
pub struct Trie(pub BTreeMap<usize, Trie>);

#[derive(Default)]
pub struct Args {
    pub scripts: Vec<(Vec<Value>, Trie)>,
    pub random: Vec<(String, usize, usize)>,
    pub replay: Option<Vec<Value>>,
    pub seed: u64,
    out: String,
}
fn args() -> Args {
    let mut r = Args { seed: 1, ..Args::default() };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().expect("harness: argument value");
        match k.as_str() {
            // line 1: JSON array of events; other lines: space separated 1-based indices of a path
            "--scripts" => {
                let text = std::fs::read_to_string(&v).expect("harness: scripts");
                let mut it = text.lines();
                let evs: Vec<Value> = serde_json::from_str(it.next().expect("harness: scripts")).expect("harness: events");
                let mut t = Trie::default();
                for l in it {
                    let mut n = &mut t;
                    for i in l.split_whitespace() {
                        n = n.0.entry(i.parse::<usize>().expect("harness: index") - 1).or_default();
                    }
                }
                r.scripts.push((evs, t));
            }
            "--out" => r.out = v,
            "--seed" => r.seed = v.parse().expect("harness: seed"),
            // profile:chains:length
            "--random" => {
                let p: Vec<&str> = v.split(':').collect();
                r.random.push((p[0].into(), p[1].parse().unwrap(), p[2].parse().unwrap()));
            }
            // a JSON array of events, replayed as one chain
            "--replay" => r.replay = Some(serde_json::from_str(&std::fs::read_to_string(&v).expect("harness: replay")).expect("harness: events")),
            _ => panic!("harness: unknown argument {k}"),
        }
    }
    r
}
/// runs `f`, writes the recording and prints the summary line
pub fn main_with(f: impl FnOnce(&Args, &mut Forest) -> String + std::panic::UnwindSafe) {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let a = args();
        let mut t = Forest::default();
        let own = f(&a, &mut t);
        t.write(&a.out);
        println!("lines={} own_messages={own} stuck={}", t.0.len(), t.1.len());
        if let Some(m) = t.1.first() {
            eprintln!("stuck: {m}");
        }
    });
    if let Err(p) = r {
        eprintln!("harness failure: {}", text_of(&p));
        std::process::exit(2);
    }
}
fn text_of(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_default()
}
/// characters beyond ASCII, but for those the specification knows, and control characters are spelled out
fn esc(v: &Value) -> Value {
    let es = |x: &str| -> String {
        let plain = |c: char| (c.is_ascii() && !c.is_ascii_control()) || "\u{e9}\u{df}\u{416}\u{4e2d}\u{2713}".contains(c);
        if x.chars().all(plain) && x.len() <= 400 {
            return x.to_string();
        }
        if x.len() > 400 {
            return conv::tok(x.as_bytes());
        }
        x.chars().map(|c| if plain(c) { c.to_string() } else { format!("<u{:x}>", c as u32) }).collect()
    };
    match v {
        Value::String(x) => json!(es(x)),
        Value::Array(a) => json!(a.iter().map(esc).collect::<Vec<_>>()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), esc(v))).collect::<Map<_, _>>()),
        x => x.clone(),
    }
}

pub fn rng_for(seed: u64, profile: &str, chain: usize) -> Rng {
    let h = profile.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(u64::from(b)));
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(chain as u64).wrapping_add(h << 20));
    for _ in 0..8 {
        r.next();
    }
    r
}
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0xD1B54A32D192ED03);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        Rng((z ^ (z >> 27)) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.next() % 100 < p
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
    pub fn o(&mut self, p: u64, v: Value) -> Value {
        if self.pct(p) {
            json!([v])
        } else {
            json!([])
        }
    }
}

