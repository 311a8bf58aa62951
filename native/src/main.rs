//! Differential engine: runs the real crate (path dependency on /repo) next to
//! the executable specification and looks for a concrete input on which an
//! observable disagrees.  It supplies failing inputs and replays; the deciding
//! step of every check is the proof run (tools/check.py).
#[path = "../../harness/spec.rs"]
#[allow(dead_code)]
mod spec;
mod conv;
mod gen;
mod props;
use props::Ctx;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
}

fn arg(name: &str, default: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter()
        .position(|x| x == name)
        .and_then(|i| a.get(i + 1).cloned())
        .unwrap_or_else(|| default.to_string())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a[2]),
        Some("replay") => {
            // replay PROP "<position> [moves m1 m2 ...]"
            match props::replay(&a[2], &a[3]) {
                Ok(None) => println!("HOLDS"),
                Ok(Some(e)) => {
                    println!("FAILS {e}");
                    std::process::exit(1)
                }
                Err(e) => {
                    println!("INVALID {e}");
                    std::process::exit(2)
                }
            }
        }
        Some("digest") => {
            // one hash of everything observable for a fixed sequence of cases
            let n: u64 = arg("--n", "2000").parse().unwrap();
            let seed: u64 = arg("--seed", "1").parse().unwrap();
            let th = 8;
            let hs: Vec<_> = (0..th)
                .map(|t| {
                    std::thread::spawn(move || {
                        let mut out = vec![];
                        for i in (t..n).step_by(th as usize) {
                            out.push((i, props::digest(seed, i)));
                        }
                        out
                    })
                })
                .collect();
            let mut all: Vec<_> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
            all.sort();
            for (i, (h, s)) in all {
                println!("{i} {h:016x} {s}");
            }
        }
        _ => {
            eprintln!("usage: ydiff search PROP | replay PROP CASE | digest");
            std::process::exit(64)
        }
    }
}

fn search(prop: &str) {
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let secs: f64 = arg("--secs", "10").parse().unwrap();
    let threads: u64 = arg("--threads", "8").parse().unwrap();
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let nontriv = AtomicU64::new(0);
    let found: Mutex<Option<(String, String)>> = Mutex::new(None);
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let t0 = Instant::now();
    if std::env::args().any(|x| x == "--near") {
        props::set_near(&arg("--near", ""));
    }
    if let Some(e) = props::once(prop) {
        *found.lock().unwrap() = Some(e);
    } else {
        std::thread::scope(|s| {
            for t in 0..threads {
                let (stop, evals, nontriv, found, samples) = (&stop, &evals, &nontriv, &found, &samples);
                let tr = arg("--trace", "");
                s.spawn(move || {
                    if !tr.is_empty() {
                        props::TRACE.with(|f| *f.borrow_mut() = std::fs::File::create(format!("{tr}/case.{t}")).ok());
                    }
                    let mut i = 0u64;
                    while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs_f64(secs) {
                        let mut rng = Rng::new(seed ^ (t << 48) ^ i.wrapping_mul(0x1_0000_0001));
                        let mut cx = Ctx::new(prop);
                        props::run_case(&mut cx, &mut rng);
                        evals.fetch_add(cx.evals, Ordering::Relaxed);
                        nontriv.fetch_add(cx.nontrivial, Ordering::Relaxed);
                        if i == 0 && t < 3 {
                            samples.lock().unwrap().push(cx.sample.clone());
                        }
                        if let Some(f) = cx.fail.take() {
                            let mut g = found.lock().unwrap();
                            if g.is_none() {
                                *g = Some(f);
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                        i += 1;
                    }
                });
            }
        });
    }
    println!("evaluations {}", evals.load(Ordering::Relaxed));
    println!("nontrivial {}", nontriv.load(Ordering::Relaxed));
    for s in samples.lock().unwrap().iter() {
        println!("sample {s}");
    }
    let f = found.lock().unwrap().take();
    if let Some((case, why)) = f {
        println!("case {case}");
        println!("why {why}");
        std::process::exit(1);
    }
}
