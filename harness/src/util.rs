//! Input generation, JSON output and panic/hang capture.
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// SplitMix64: the harness's own source of inputs (independent of the code under test).
pub struct Gen(pub u64);
impl Gen {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn r(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn n(&mut self, k: usize) -> usize {
        (self.u64() % k as u64) as usize
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.n(v.len())].clone()
    }
    pub fn v3(&mut self, a: f64) -> [f64; 3] {
        [self.r(-a, a), self.r(-a, a), self.r(-a, a)]
    }
    pub fn unit(&mut self) -> [f64; 3] {
        let z = self.r(-1.0, 1.0);
        let p = self.r(0.0, 2.0 * std::f64::consts::PI);
        let s = (1.0 - z * z).sqrt();
        let v = [s * p.cos(), s * p.sin(), z];
        let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        [v[0] / n, v[1] / n, v[2] / n]
    }
    /// a unit vector, every so often on an axis or in a coordinate plane
    pub fn unit_edge(&mut self) -> [f64; 3] {
        match self.n(6) {
            0 => {
                let mut v = [0.0; 3];
                v[self.n(3)] = if self.n(2) == 0 { 1.0 } else { -1.0 };
                v
            }
            1 => {
                let p = self.r(0.0, 6.3);
                let k = self.n(3);
                let mut v = [0.0; 3];
                v[(k + 1) % 3] = p.cos();
                v[(k + 2) % 3] = p.sin();
                v
            }
            _ => self.unit(),
        }
    }
}

pub fn s(x: f64) -> String {
    format!("\"{:?}\"", x)
}
pub fn v(x: &[f64]) -> String {
    format!("[{}]", x.iter().map(|y| s(*y)).collect::<Vec<_>>().join(","))
}
pub fn vv(x: &[[f64; 3]]) -> String {
    format!("[{}]", x.iter().map(|y| v(y)).collect::<Vec<_>>().join(","))
}
pub fn spins(x: &[Spin]) -> String {
    format!("[{}]", x.iter().map(|y| v(&y.dir)).collect::<Vec<_>>().join(","))
}
pub fn drive_name(d: &DriveType) -> &'static str {
    match d {
        DriveType::xyplane => "xyplane",
        DriveType::xyelliptic => "xyelliptic",
        DriveType::uniaxial => "uniaxial",
        DriveType::staticfield => "staticfield",
        DriveType::none => "none",
    }
}
pub fn drives() -> Vec<DriveType> {
    vec![
        DriveType::xyplane,
        DriveType::xyelliptic,
        DriveType::uniaxial,
        DriveType::staticfield,
        DriveType::none,
    ]
}
pub fn conf_json(c: &Config, gamma: f64) -> String {
    format!(
        "{{\"dt\":{},\"tau\":{},\"e\":{},\"hs\":{},\"ssize\":{},\"drive\":\"{}\",\"beta\":{},\"gamma\":{}}}",
        s(c.dt), s(c.tau), s(c.e), v(&c.hs), c.ssize, drive_name(&c.drive), s(c.beta), s(gamma)
    )
}
pub fn chain_json(sp: &[Spin], j: &[[f64; 3]], h: &[[f64; 3]], t: f64, c: &Config, g: f64) -> String {
    format!(
        "{{\"S\":{},\"J\":{},\"H\":{},\"t\":{},\"c\":{}}}",
        spins(sp), vv(j), vv(h), s(t), conf_json(c, g)
    )
}

pub struct Out {
    pub w: std::io::BufWriter<std::fs::File>,
}
static OUT: Mutex<Option<Out>> = Mutex::new(None);

static TICK: AtomicU64 = AtomicU64::new(0);
static OP: Mutex<String> = Mutex::new(String::new());

pub fn open(path: &str) {
    let f = std::fs::File::create(path).unwrap();
    *OUT.lock().unwrap() = Some(Out { w: std::io::BufWriter::new(f) });
    // watchdog: an operation of the code under test that never returns is an event too
    std::thread::spawn(|| {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = TICK.load(Ordering::SeqCst);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle > 60 {
                let op = OP.lock().unwrap().clone();
                emit(&format!("{{\"e\":\"hang\",\"op\":\"{}\"}}", clean(&op)));
                close();
                std::process::exit(0);
            }
        }
    });
}
pub fn emit(line: &str) {
    TICK.fetch_add(1, Ordering::SeqCst);
    let mut g = OUT.lock().unwrap();
    let o = g.as_mut().unwrap();
    writeln!(o.w, "{}", line).unwrap();
}
pub fn close() {
    if let Some(o) = OUT.lock().unwrap().as_mut() {
        o.w.flush().unwrap();
    }
}
pub fn clean(x: &str) -> String {
    x.chars().map(|c| if c.is_ascii_alphanumeric() || " _-.:,()=<>".contains(c) { c } else { ' ' }).collect()
}
/// Runs code under test; a panic becomes an event.
pub fn guard<T>(op: &str, f: impl FnOnce() -> T) -> Option<T> {
    *OP.lock().unwrap() = op.to_string();
    TICK.fetch_add(1, Ordering::SeqCst);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default();
            emit(&format!("{{\"e\":\"panic\",\"op\":\"{}\",\"msg\":\"{}\"}}", clean(op), clean(&msg)));
            None
        }
    }
}
