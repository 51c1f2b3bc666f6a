//! Recorders of Monte-Carlo moves, Langevin steps, construction, logging and configuration
//! (properties C07..C10, C12, C14).
use crate::lib_events::*;
use crate::util::*;
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

/// A closed or a Langevin chain that a Monte-Carlo move is applied to.
enum Any {
    C(SpinChain),
    L(SpinChainLangevin, Vec<[f64; 3]>),
}
impl Any {
    fn spins(&mut self) -> &mut Vec<Spin> {
        match self {
            Any::C(c) => &mut c.spins,
            Any::L(c, _) => &mut c.spins,
        }
    }
    fn beta(&mut self, b: f64) {
        match self {
            Any::C(c) => c.vars.beta = b,
            Any::L(c, _) => c.vars.beta = b,
        }
    }
    fn rest(&mut self) -> String {
        let s = self.spins().clone();
        let b = match self {
            Any::C(c) => c.vars.beta,
            Any::L(c, _) => c.vars.beta,
        };
        self.beta(0.0);
        let r = match self {
            Any::C(c) => format!("{:?}{}", c.t, rest(c)),
            Any::L(c, _) => format!("{:?}{}", c.t, lrest(c)),
        };
        self.beta(b);
        *self.spins() = s;
        r
    }
    fn json(&self) -> String {
        match self {
            Any::C(c) => closed_json(c),
            Any::L(c, j) => lang_json(c, j),
        }
    }
    fn mv(&mut self, kind: &str) {
        match self {
            Any::C(c) => match kind {
                "met" => c.metropolis_update(),
                "rot" => c.metropolis_update_rot_magnus(),
                "maglab" => c.metropolis_update_maglab(),
                "magnus" => c.metropolis_update_magnus(),
                "full" => c.metropolis_update_mag_full(),
                _ => unreachable!(),
            },
            Any::L(c, _) => match kind {
                "lmet" => c.metropolis_update(),
                "lmagnus" => c.metropolis_update_magnus(),
                _ => unreachable!(),
            },
        }
    }
}

fn state(g: &mut Gen, kind: &str, l: usize) -> Any {
    let ss = match kind {
        "full" => l,
        _ => match g.n(4) {
            0 => l,
            1 => 2,
            _ => 2 + g.n(l - 1),
        },
    };
    let d = g.pick(&drives());
    if kind.starts_with('l') {
        let gamma = g.r(0.0, 1.0);
        let (c, j) = lang(g, l, ss, d, gamma, 0.5);
        Any::L(c, j)
    } else {
        let mut c = closed(g, l, ss, d);
        c.vars.tau = g.pick(&[1.0, 5.0, 20.0]) * g.r(0.7, 1.3);
        strong(g, &mut c.static_h);
        if g.n(4) == 0 {
            // the isotropic chain without field, in which most simulations run
            c.j_couple = vec![[1.0; 3]; l];
            c.static_h = vec![[0.0; 3]; l];
        }
        Any::C(c)
    }
}

pub fn moves(g: &mut Gen, scale: usize, kinds: &[&str]) {
    for kind in kinds {
        let small: &[usize] = if *kind == "met" || *kind == "lmet" { &[2, 3, 4, 6] } else { &[6, 6, 8] };
        let ll = long(g, scale);
        for k in 0..(110 * scale + ll.len()) {
            let l = if k < ll.len() { ll[k] } else { small[k % small.len()] };
            let stream = g.u64();
            let mut items = vec![];
            for _ in 0..3 {
                let mut st = state(g, kind, l);
                let pre = st.spins().clone();
                let r0 = st.rest();
                let mut same = true;
                let mut go = |st: &mut Any, b: f64| -> Vec<Spin> {
                    *st.spins() = pre.clone();
                    st.beta(b);
                    rand::vshim_reseed(stream);
                    st.mv(kind);
                    same &= st.rest() == r0;
                    st.spins().clone()
                };
                let res = guard(&format!("move {}", kind), || {
                    let post = go(&mut st, 0.0);
                    let changed = |a: &Vec<Spin>| a.iter().zip(pre.iter()).any(|(x, y)| x.dir != y.dir);
                    // accepted at every temperature?
                    let cold = go(&mut st, 1e300);
                    let acc = changed(&cold);
                    let mut other = true; // every outcome is the old or the proposed state
                    let mut bc = -1.0;
                    if !acc {
                        let (mut lo, mut hi) = (0.0f64, 1e-3f64);
                        while changed(&go(&mut st, hi)) && hi < 1e12 {
                            lo = hi;
                            hi *= 2.0;
                        }
                        for _ in 0..100 {
                            let mid = 0.5 * (lo + hi);
                            if mid <= lo || mid >= hi {
                                break;
                            }
                            let a = go(&mut st, mid);
                            if changed(&a) {
                                other &= a.iter().zip(post.iter()).all(|(x, y)| x.dir == y.dir);
                                lo = mid;
                            } else {
                                hi = mid;
                            }
                        }
                        bc = 0.5 * (lo + hi);
                    }
                    (post, acc, bc, other)
                });
                if let Some((post, acc, bc, other)) = res {
                    *st.spins() = pre.clone();
                    items.push(format!(
                        "{{\"ch\":{},\"post\":{},\"acc\":{},\"bc\":{},\"same\":{}}}",
                        st.json(), spins(&post), acc, s(bc), same && other
                    ));
                }
            }
            emit(&format!("{{\"e\":\"mvs\",\"kind\":\"{}\",\"L\":{},\"it\":[{}]}}", kind, l, items.join(",")));
        }
        emit(&format!("{{\"e\":\"mvend\",\"kind\":\"{}\"}}", kind));
        // a long sequence of accepted moves: the proposals
        let l = 6;
        let n = 6000;
        let mut st = state(g, kind, l);
        st.beta(0.0);
        rand::vshim_reseed(g.u64());
        let mut idx = vec![];
        let mut dirs = vec![];
        let mut one = true;
        guard(&format!("moves {}", kind), || {
            for _ in 0..n {
                let pre = st.spins().clone();
                st.mv(kind);
                let ch: Vec<usize> = (0..l).filter(|i| st.spins()[*i].dir != pre[*i].dir).collect();
                one &= ch.len() == 1;
                if ch.len() == 1 {
                    idx.push(ch[0] + 1);
                    dirs.push(st.spins()[ch[0]].dir);
                }
            }
        });
        emit(&format!(
            "{{\"e\":\"props\",\"kind\":\"{}\",\"L\":{},\"one\":{},\"idx\":{:?},\"dir\":{}}}",
            kind, l, one, idx, vv(&dirs)
        ));
        // every site of a long chain is picked
        let l = 300;
        let mut st = state(g, kind, l);
        st.beta(0.0);
        rand::vshim_reseed(g.u64());
        let mut idx = vec![];
        guard(&format!("moves {}", kind), || {
            for _ in 0..3000 {
                let pre = st.spins().clone();
                st.mv(kind);
                idx.extend((0..l).filter(|i| st.spins()[*i].dir != pre[*i].dir).map(|i| i + 1));
            }
        });
        emit(&format!("{{\"e\":\"sites\",\"kind\":\"{}\",\"L\":{},\"n\":3000,\"idx\":{:?}}}", kind, l, idx));
        if *kind == "rot" || *kind == "maglab" {
            for i in 0..(40 * scale) {
                if let Any::C(c) = state(g, kind, if i < 2 { 200 + i } else { 6 }) {
                    let w0 = whole(&c);
                    guard("effective energy", || {
                        let x = if *kind == "rot" { c.mc_system_energy_rot() } else { c.mc_system_energy_maglab() };
                        emit(&format!(
                            "{{\"e\":\"effE\",\"kind\":\"{}\",\"ch\":{},\"x\":{},\"same\":{}}}",
                            kind, closed_json(&c), s(x), whole(&c) == w0
                        ));
                    });
                }
            }
        }
    }
}

// ---- C09: the Langevin step --------------------------------------------------------------------
pub fn c09(g: &mut Gen, scale: usize) {
    for k in 0..(12 * scale) {
        let l = if k == 3 { g.pick(&[64, 130, 300]) } else { [4, 6, 4, 8][k % 4] };
        let n = 60;
        let gamma = if k % 6 == 5 { 0.0 } else { g.pick(&[0.05, 0.5, 1.0, 2.0]) };
        let d = drives()[k % 5].clone();
        let ss = 2 + g.n(l - 1);
        let (mut c, j) = lang(g, l, ss, d, gamma, 0.3);
        // noise of moderate size, so that its rotation can be read off unambiguously
        let sigma = g.r(0.05, 0.5);
        c.vars.dt = g.pick(&[0.01, 0.02, 0.05]);
        c.vars.beta = if gamma > 0.0 { 2.0 * gamma * c.vars.dt / (sigma * sigma) } else { 1.0 };
        let stream = g.u64();
        // three replays of the stream with the end spins along x, y, z and every local field
        // switched off there: the end spins turn by the noise alone
        let keep = (c.static_h.clone(), c.vars.drive.clone(), c.t);
        let mut a1 = vec![vec![]; 3];
        let mut al = vec![vec![]; 3];
        let ok = guard("langevin probe", || {
            for e in 0..3 {
                rand::vshim_reseed(stream);
                for _ in 0..n {
                    c.vars.drive = DriveType::none;
                    let mut u = [0.0; 3];
                    u[e] = 1.0;
                    for i in 0..l {
                        c.spins[i] = sp(if i == 0 || i == l - 1 { u } else { [0.6, 0.0, 0.8] });
                    }
                    let q = [0.6, 0.0, 0.8];
                    for i in 0..l {
                        c.static_h[i] = if i == 0 {
                            [j[0][0] * q[0], j[0][1] * q[1], j[0][2] * q[2]]
                        } else if i == l - 1 {
                            [j[l - 2][0] * q[0], j[l - 2][1] * q[1], j[l - 2][2] * q[2]]
                        } else {
                            // pins the neighbours: their field is along the spin
                            [q[0] * 1e11, 0.0, q[2] * 1e11]
                        };
                    }
                    c.update();
                    a1[e].push(c.spins[0].dir);
                    al[e].push(c.spins[l - 1].dir);
                }
            }
        });
        if ok.is_none() {
            continue;
        }
        c.static_h = keep.0;
        c.vars.drive = keep.1;
        c.t = keep.2;
        // the same stream on coupled states
        rand::vshim_reseed(stream);
        let ok = guard("langevin update", || {
            for i in 0..n {
                if i % 3 == 0 {
                    c.spins = (0..l).map(|_| sp(g.unit())).collect();
                    c.static_h = (0..l).map(|_| g.v3(2.0)).collect();
                    c.t = g.r(-50.0, 50.0);
                }
                let pre = lang_json(&c, &j);
                let r0 = lrest(&c);
                c.update();
                emit(&format!(
                    "{{\"e\":\"lup\",\"ch\":{},\"a1\":[{},{},{}],\"al\":[{},{},{}],\"S\":{},\"t\":{},\"same\":{}}}",
                    pre, v(&a1[0][i]), v(&a1[1][i]), v(&a1[2][i]), v(&al[0][i]), v(&al[1][i]), v(&al[2][i]),
                    spins(&c.spins), s(c.t), lrest(&c) == r0
                ));
            }
        });
        if ok.is_some() {
            emit("{\"e\":\"lseq\"}");
        }
    }
    emit("{\"e\":\"lend\"}");
}

// ---- C10: construction ---------------------------------------------------------------------------
pub fn c10(g: &mut Gen, scale: usize) {
    let betas = [0.0, 1e-9, 0.01, 0.5, 1.0, 2.88, 10.0, 50.0, 300.0, 708.0, 800.0, 1e5];
    for k in 0..(2 * betas.len() * scale) {
        let lang = k % 2 == 1;
        let b = betas[(k / 2) % betas.len()];
        let l = g.pick(&[300, 301, 500]);
        let ss = 2 + g.n(l - 1);
        let mut c = base_conf(l, ss);
        c.beta = b;
        c.lambda = g.pick(&[1.0, 0.0, -0.7, 2.5]);
        c.jvar = if k % 4 < 2 { g.r(0.001, 0.7) } else { 0.0 };
        c.hvar = if k % 3 == 0 { 0.0 } else { g.r(0.001, 0.9) };
        c.hfield = g.v3(2.0).to_vec();
        c.hs = g.v3(2.0).to_vec();
        c.trel = g.pick(&[0.0, 12.5, -3.0, 100.25]);
        c.tau = g.r(1.0, 10.0);
        c.ednsty = g.r(-0.9, -0.1);
        c.t = g.r(1.0, 100.0);
        c.drive = g.pick(&drives());
        c.file = "init".into();
        rand::vshim_reseed(g.u64());
        let cj = format!(
            "{{\"hsize\":{},\"ssize\":{},\"beta\":{},\"lambda\":{},\"jvar\":{},\"hvar\":{},\"hfield\":{},\"hs\":{},\"trel\":{}}}",
            l, ss, s(b), s(c.lambda), s(c.jvar), s(c.hvar), v(&c.hfield), v(&c.hs), s(c.trel)
        );
        let text = format!("{:?}", c);
        let r = guard(if lang { "langevin new" } else { "new" }, || {
            if lang {
                let mut x = SpinChainLangevin::new(c.clone(), 3, 0.5);
                let j = lang_j(&mut x);
                (x.spins.clone(), j, x.static_h.clone(), x.t, format!("{:?}", x.vars) == text && x.gamma == 0.5)
            } else {
                let x = SpinChain::new(c.clone(), 3);
                (x.spins.clone(), x.j_couple.clone(), x.static_h.clone(), x.t, format!("{:?}", x.vars) == text)
            }
        });
        if let Some((sp, j, h, t, same)) = r {
            emit(&format!(
                "{{\"e\":\"init\",\"kind\":\"{}\",\"c\":{},\"S\":{},\"J\":{},\"H\":{},\"t\":{},\"same\":{}}}",
                if lang { "lang" } else { "closed" }, cj, spins(&sp), vv(&j), vv(&h), s(t), same
            ));
        }
    }
}

// ---- C12: log records -------------------------------------------------------------------------
fn tokens(x: &str) -> String {
    format!(
        "[{}]",
        x.split(' ').map(|t| format!("\"{}\"", clean(t))).collect::<Vec<_>>().join(",")
    )
}
fn lines(x: &str) -> String {
    let mut l: Vec<&str> = x.split('\n').collect();
    let nl = l.last() == Some(&"");
    l.pop();
    format!("[{}],\"nl\":{}", l.iter().map(|y| tokens(y)).collect::<Vec<_>>().join(","), nl)
}
fn listing() -> Vec<String> {
    let mut v: Vec<String> =
        std::fs::read_dir(".").unwrap().map(|x| x.unwrap().file_name().into_string().unwrap()).collect();
    v.sort();
    v
}
pub fn c12(g: &mut Gen, scale: usize) {
    let ll = long(g, scale);
    for k in 0..(60 * scale + ll.len()) {
        let l = g.pick(&[2, 4, 6, 8, 12]);
        let l = if k < ll.len() { ll[k] } else { l };
        let ss = if k % 5 == 0 { l } else { 2 + g.n(l - 1) };
        let d = drives()[k % 5].clone();
        let mut t = closed(g, l, ss, d.clone());
        let log = k % 6 != 5;
        let name = format!("lg{}_", k);
        t.vars.log = log;
        t.vars.file = name.clone();
        let before = listing();
        let mut ch = match guard("new", || SpinChain::new(t.vars.clone(), 7)) {
            Some(x) => x,
            None => continue,
        };
        ch.j_couple = t.j_couple.clone();
        ch.static_h = t.static_h.clone();
        ch.spins = t.spins.clone();
        ch.t = match k % 7 {
            0 => 0.0,
            1 => 100.0 * t.vars.tau,
            _ => t.t,
        };
        let path = format!("{}7.dat", name);
        let mut done = 0;
        for i in 0..4 {
            let ext = (i + k) % 3 == 2;
            let w0 = whole(&ch);
            let pre = closed_json(&ch);
            if guard("log", || if ext { ch.log_ext() } else { ch.log() }).is_none() {
                break;
            }
            let text = std::fs::read_to_string(&path).unwrap_or_default();
            let (old, new) = text.split_at(done.min(text.len()));
            emit(&format!(
                "{{\"e\":\"log\",\"on\":{},\"ext\":{},\"ch\":{},\"grown\":{},\"same\":{},\"lines\":{}}}",
                log, ext, pre, old.len() == done, whole(&ch) == w0, lines(new)
            ));
            done = text.len();
            guard("step", || match g.n(3) {
                0 => ch.update(),
                1 => ch.update_no_field(),
                _ => ch.metropolis_update(),
            });
        }
        let after: Vec<String> = listing().into_iter().filter(|x| !before.contains(x)).collect();
        emit(&format!(
            "{{\"e\":\"files\",\"want\":{},\"got\":[{}]}}",
            if log { format!("[\"{}\"]", path) } else { "[]".into() },
            after.iter().map(|x| format!("\"{}\"", clean(x))).collect::<Vec<_>>().join(",")
        ));
        let _ = std::fs::remove_file(&path);

        // Langevin
        let gamma = g.r(0.0, 2.0);
        let jv = g.pick(&[0.0, 0.5]);
        let before = listing();
        let (mut lc, j) = lang(g, l, ss, d, gamma, jv);
        let text0 = std::fs::read_to_string("lang0.dat").unwrap_or_default();
        emit(&format!("{{\"e\":\"lhead\",\"lines\":{}}}", lines(&text0)));
        let mut done = text0.len();
        for _ in 0..3 {
            let w0 = format!("{:?}{:?}{}", lc.t, lc.spins, lrest(&lc));
            let pre = lang_json(&lc, &j);
            if guard("langevin log", || lc.log()).is_none() {
                break;
            }
            let text = std::fs::read_to_string("lang0.dat").unwrap_or_default();
            let (old, new) = text.split_at(done.min(text.len()));
            emit(&format!(
                "{{\"e\":\"llog\",\"ch\":{},\"grown\":{},\"same\":{},\"lines\":{}}}",
                pre, old.len() == done, format!("{:?}{:?}{}", lc.t, lc.spins, lrest(&lc)) == w0, lines(new)
            ));
            done = text.len();
            guard("langevin update", || lc.update());
        }
        // energy balance of a tiny, practically noiseless step against the flux
        if ss == l {
            let (b0, dt0) = (lc.vars.beta, lc.vars.dt);
            lc.vars.beta = 1e30;
            lc.vars.dt = 1e-5;
            let pre = lang_json(&lc, &j);
            guard("langevin balance", || {
                let f0 = lc.boundary_term();
                lc.update();
                emit(&format!(
                    "{{\"e\":\"lbal\",\"ch\":{},\"S\":{},\"t\":{},\"f0\":{},\"f1\":{}}}",
                    pre, spins(&lc.spins), s(lc.t), s(f0), s(lc.boundary_term())
                ));
            });
            lc.vars.beta = b0;
            lc.vars.dt = dt0;
        }
        let after: Vec<String> = listing().into_iter().filter(|x| !before.contains(x)).collect();
        emit(&format!(
            "{{\"e\":\"files\",\"want\":{},\"got\":[{}]}}",
            if before.contains(&"lang0.dat".to_string()) { "[]" } else { "[\"lang0.dat\"]" },
            after.iter().map(|x| format!("\"{}\"", clean(x))).collect::<Vec<_>>().join(",")
        ));
    }
}

// ---- C14: configuration ---------------------------------------------------------------------------
pub fn fields(c: &Config) -> String {
    format!(
        "{{\"hsize\":{},\"ssize\":{},\"t\":{},\"dt\":{},\"runs\":{},\"trel\":{},\"threads\":{},\"tau\":{},\"lambda\":{},\"hfield\":{},\"hs\":{},\"jvar\":{},\"hvar\":{},\"method\":{},\"ednsty\":{},\"file\":\"{}\",\"strob\":{},\"offset\":{},\"beta\":{},\"mc_points\":{},\"e\":{},\"drive\":\"{}\",\"log\":{}}}",
        s(c.hsize as f64), s(c.ssize as f64), s(c.t), s(c.dt), s(c.runs as f64), s(c.trel), s(c.threads as f64), s(c.tau), s(c.lambda),
        v(&c.hfield), v(&c.hs), s(c.jvar), s(c.hvar), s(c.method as f64), s(c.ednsty), clean(&c.file), c.strob, s(c.offset as f64),
        s(c.beta), s(c.mc_points as f64), s(c.e), drive_name(&c.drive), c.log
    )
}
fn load(path: &str, lang: bool) -> (bool, String) {
    let p = path.to_string();
    let r = std::panic::catch_unwind(move || {
        if lang { SpinChainLangevin::read_config(&p) } else { SpinChain::read_config(&p) }
    });
    match r {
        Ok(c) => (true, fields(&c)),
        Err(_) => (false, "{}".to_string()),
    }
}
/// Reads case files written from the specification's behaviours: `case <id>` starts a file whose
/// contents follow until the next line `end`.
#[allow(clippy::needless_update)]
pub fn c14(g: &mut Gen, scale: usize, cases: &str) {
    let text = std::fs::read_to_string(cases).unwrap();
    let mut id = String::new();
    let mut body = String::new();
    let mut on = false;
    for line in text.lines() {
        if line.starts_with("case ") && !on {
            id = line[5..].to_string();
            body.clear();
            on = true;
        } else if line == "end" && on {
            on = false;
            for lang in [false, true].iter() {
                let _ = std::fs::remove_file("config.toml");
                std::fs::write("in.toml", &body).unwrap();
                let (ok, f) = load("in.toml", *lang);
                let kept = std::fs::read_to_string("in.toml").map(|x| x == body).unwrap_or(false);
                let made = std::path::Path::new("config.toml").exists();
                emit(&format!(
                    "{{\"e\":\"load\",\"case\":{},\"lang\":{},\"ok\":{},\"kept\":{},\"made\":{},\"c\":{}}}",
                    id, lang, ok, kept, made, f
                ));
                // written under its own name, and again
                std::fs::write("config.toml", &body).unwrap();
                let (ok2, f2) = load("config.toml", *lang);
                let kept = std::fs::read_to_string("config.toml").map(|x| x == body).unwrap_or(false);
                emit(&format!(
                    "{{\"e\":\"load\",\"case\":{},\"lang\":{},\"ok\":{},\"kept\":{},\"made\":false,\"c\":{}}}",
                    id, lang, ok2, kept, f2
                ));
            }
        } else if on {
            body.push_str(line);
            body.push('\n');
        }
    }
    // the printed description, if given
    if let Ok(d) = std::fs::read_to_string("desc.txt") {
        std::fs::write("in.toml", &d).unwrap();
        let keys = std::fs::read_to_string("desc.keys").unwrap();
        for lang in [false, true].iter() {
            let (ok, f) = load("in.toml", *lang);
            emit(&format!("{{\"e\":\"desc\",\"keys\":{},\"ok\":{},\"c\":{}}}", keys.trim(), ok, f));
        }
    }
    // no file at all
    for lang in [false, true].iter() {
        for path in ["config.toml", "nosuch.toml"].iter() {
            let _ = std::fs::remove_file("config.toml");
            let (ok, f) = load(path, *lang);
            let (ok2, f2) = load("config.toml", *lang);
            let made = std::path::Path::new("config.toml").exists();
            emit(&format!(
                "{{\"e\":\"absent\",\"ok\":{},\"made\":{},\"c\":{},\"again\":{},\"c2\":{}}}",
                ok, made, f, ok2, f2
            ));
        }
    }
    // write and load again
    for k in 0..(300 * scale) {
        let big = 10f64.powf(g.r(-8.0, 8.0));
        let c = Config {
            hsize: g.n(1000) as i32,
            ssize: g.n(100) as i32,
            t: g.r(0.0, big),
            dt: g.pick(&[0.02, 1e-5, -0.1, 0.1 + 0.2, 1.0]),
            runs: g.n(9) as i32,
            trel: g.r(-big, big),
            threads: g.n(64),
            tau: g.r(0.0, big),
            lambda: g.pick(&[0.0, -1.0, 1.0, 1.0 / 3.0]),
            hfield: g.v3(big).to_vec(),
            hs: if k % 3 == 0 { vec![0.0; 3] } else { g.v3(3.0).to_vec() },
            jvar: g.f(),
            hvar: g.f(),
            method: g.n(4) as i32,
            ednsty: -g.f(),
            file: g.pick(&["log", "a b", "x-1_", "run.", ""]).to_string(),
            strob: g.n(2) == 0,
            offset: g.n(100000) as u32,
            beta: g.r(0.0, big),
            mc_points: g.n(100000),
            e: g.r(-1.0, 1.0),
            drive: g.pick(&drives()),
            log: g.n(2) == 0,
            ..Config::default()
        };
        let r = guard("persist", || toml::to_string(&c).unwrap());
        if let Some(t) = r {
            std::fs::write("config.toml", &t).unwrap();
            let (ok, f) = load("config.toml", k % 2 == 0);
            emit(&format!("{{\"e\":\"persist\",\"ok\":{},\"a\":{},\"b\":{}}}", ok, fields(&c), f));
        }
    }
}
