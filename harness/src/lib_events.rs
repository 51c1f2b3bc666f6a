//! Recorders of library-level executions (properties C01..C06, C11, C13).
use crate::util::*;
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

pub fn sp(d: [f64; 3]) -> Spin {
    let mut s = Spin::new();
    s.dir = d;
    s
}

pub fn base_conf(l: usize, ss: usize) -> Config {
    let mut c = Config::default();
    c.hsize = l as i32;
    c.ssize = ss as i32;
    c.log = false;
    c
}

/// A closed chain in general position (or, sometimes, in a degenerate one).
pub fn closed(g: &mut Gen, l: usize, ss: usize, drive: DriveType) -> SpinChain {
    let mut c = base_conf(l, ss);
    c.drive = drive;
    c.dt = match g.n(4) {
        0 => g.r(0.001, 0.05),
        1 => -g.r(0.001, 1.0),
        2 => g.r(0.5, 2.0),
        _ => g.r(0.01, 0.3),
    };
    c.tau = match g.n(3) {
        0 => g.r(0.05, 1.0),
        1 => g.r(1.0, 10.0),
        _ => g.r(10.0, 100.0),
    };
    c.e = g.r(-2.0, 2.0);
    c.hs = g.v3(1.5).to_vec();
    c.beta = g.r(0.1, 5.0);
    c.lambda = g.r(-1.5, 1.5);
    let mut ch = SpinChain::new(c, 0);
    let deg = g.n(5);
    ch.j_couple = (0..l)
        .map(|_| match deg {
            0 => [g.pick(&[-1.0, 0.0, 1.0]), g.pick(&[-1.0, 0.0, 1.0]), g.pick(&[-1.0, 0.0, 1.0])],
            1 => [1.0, 1.0, 1.0],
            _ => g.v3(2.0),
        })
        .collect();
    ch.static_h = (0..l)
        .map(|_| match deg {
            0 => [g.pick(&[-1.0, 0.0, 1.0]), 0.0, g.pick(&[-1.0, 0.0, 1.0])],
            1 => [0.0; 3],
            _ => g.v3(2.0),
        })
        .collect();
    ch.spins = (0..l).map(|_| sp(if deg < 2 { g.unit_edge() } else { g.unit() })).collect();
    ch.t = match g.n(4) {
        0 => 0.0,
        1 => -g.r(0.0, 100.0),
        2 => g.r(0.0, 1000.0),
        _ => g.r(0.0, 20.0),
    };
    ch
}

pub fn closed_json(c: &SpinChain) -> String {
    chain_json(&c.spins, &c.j_couple, &c.static_h, c.t, &c.vars, 0.0)
}

/// The couplings of a Langevin chain are private; they are visible in its Debug form and, if that
/// should change, through the total energy of suitable spin configurations.
pub fn lang_j(c: &mut SpinChainLangevin) -> Vec<[f64; 3]> {
    let l = c.vars.hsize as usize;
    let d = format!("{:?}", c);
    if let Some(p) = d.find("j_couple: [[") {
        let rest = &d[p + 10..];
        if let Some(q) = rest.find("]]") {
            let nums: Vec<f64> = rest[..q]
                .split(|x: char| "[], ".contains(x))
                .filter_map(|x| x.parse().ok())
                .collect();
            if nums.len() == 3 * l {
                return nums.chunks(3).map(|x| [x[0], x[1], x[2]]).collect();
            }
        }
    }
    let (keep, h, dr) = (c.spins.clone(), c.static_h.clone(), c.vars.drive.clone());
    c.static_h = vec![[0.0; 3]; l];
    c.vars.drive = DriveType::none;
    let mut j = vec![[0.0; 3]; l];
    for n in 0..l {
        for k in 0..3 {
            let mut e = [0.0; 3];
            e[k] = 1.0;
            c.spins = vec![sp([0.0; 3]); l];
            c.spins[n] = sp(e);
            c.spins[(n + 1) % l] = sp(e);
            j[n][k] = -c.total_energy() * l as f64;
        }
    }
    c.spins = keep;
    c.static_h = h;
    c.vars.drive = dr;
    j
}

pub fn lang(g: &mut Gen, l: usize, ss: usize, drive: DriveType, gamma: f64, jvar: f64) -> (SpinChainLangevin, Vec<[f64; 3]>) {
    let mut c = base_conf(l, ss);
    c.drive = drive;
    c.dt = g.pick(&[0.01, 0.02, 0.1]) * g.r(0.5, 1.5);
    c.tau = g.pick(&[0.5, 3.0, 20.0]) * g.r(0.5, 1.5);
    c.e = g.r(-2.0, 2.0);
    c.hs = g.v3(1.5).to_vec();
    c.beta = g.r(0.2, 5.0);
    c.lambda = g.r(-1.5, 1.5);
    c.jvar = jvar;
    c.file = "lang".to_string();
    let mut ch = SpinChainLangevin::new(c, 0, gamma);
    ch.static_h = (0..l).map(|_| g.v3(2.0)).collect();
    ch.spins = (0..l).map(|_| sp(g.unit())).collect();
    ch.t = g.r(-30.0, 100.0);
    let j = lang_j(&mut ch);
    (ch, j)
}
pub fn lang_json(c: &SpinChainLangevin, j: &[[f64; 3]]) -> String {
    chain_json(&c.spins, j, &c.static_h, c.t, &c.vars, c.gamma)
}

/// everything of a closed chain except spins and time, as a comparable string
pub fn rest(c: &SpinChain) -> String {
    format!("{:?}|{:?}|{:?}", c.j_couple, c.static_h, c.vars)
}
pub fn whole(c: &SpinChain) -> String {
    format!("{:?}|{:?}|{}", c.t, c.spins.iter().map(|x| x.dir).collect::<Vec<_>>(), rest(c))
}
pub fn lrest(c: &SpinChainLangevin) -> String {
    let (t, s) = (format!("{:?}", c.static_h), format!("{:?}", c.vars));
    format!("{}|{}|{:?}", t, s, c.gamma)
}

pub fn ev_set(c: &SpinChain) {
    emit(&format!("{{\"e\":\"set\",\"ch\":{}}}", closed_json(c)));
}
pub fn ev_update(c: &mut SpinChain, nf: bool) {
    let r0 = rest(c);
    let name = if nf { "updnf" } else { "upd" };
    if guard(name, || if nf { c.update_no_field() } else { c.update() }).is_some() {
        emit(&format!(
            "{{\"e\":\"{}\",\"S\":{},\"t\":{},\"same\":{}}}",
            name, spins(&c.spins), s(c.t), rest(c) == r0
        ));
    }
}
pub fn ev_obs(c: &SpinChain) {
    let w0 = whole(c);
    guard("observables", || {
        let line = format!(
            "{{\"e\":\"obs\",\"te\":{},\"te2\":{},\"se\":{},\"mct\":{},\"mcs\":{},\"m\":{},\"mt\":{},",
            s(c.total_energy()), s(c.total_energy2()), s(c.system_energy()), s(c.mc_total_energy()),
            s(c.mc_system_energy()), v(&c.m()), v(&c.m_tot())
        );
        emit(&format!("{}\"same\":{}}}", line, whole(c) == w0));
    });
}
pub fn ev_lset(c: &SpinChainLangevin, j: &[[f64; 3]]) {
    emit(&format!("{{\"e\":\"set\",\"ch\":{}}}", lang_json(c, j)));
}
pub fn ev_lobs(c: &SpinChainLangevin) {
    let w0 = format!("{:?}{:?}{}", c.t, c.spins, lrest(c));
    guard("langevin observables", || {
        let line = format!(
            "{{\"e\":\"lobs\",\"te\":{},\"te2\":{},\"se\":{},\"m\":{},\"mt\":{},\"bt\":{},",
            s(c.total_energy()), s(c.total_energy2()), s(c.system_energy()), v(&c.m()), v(&c.m_tot()),
            s(c.boundary_term())
        );
        emit(&format!("{}\"same\":{}}}", line, format!("{:?}{:?}{}", c.t, c.spins, lrest(c)) == w0));
    });
}

fn sizes(g: &mut Gen) -> (usize, usize) {
    let l = g.pick(&[2, 4, 4, 6, 8, 10, 14]);
    (l, g.n(l - 1) + 2)
}

/// long chains: one of moderate length, one longer than any 8-bit index reaches
pub fn long(g: &mut Gen, scale: usize) -> Vec<usize> {
    (0..scale).flat_map(|_| [g.pick(&[18, 32, 50, 66, 130]), g.pick(&[258, 300, 514])]).collect()
}
/// every so often fields much stronger than the couplings (as in the rotating frame at short periods)
pub fn strong(g: &mut Gen, h: &mut Vec<[f64; 3]>) {
    if g.n(6) == 0 {
        for x in h.iter_mut() {
            for k in 0..3 {
                x[k] *= 40.0;
            }
        }
    }
}

// ---- C01: unit spins in all histories ------------------------------------------------------
pub fn c01(g: &mut Gen, scale: usize) {
    let betas = [0.0, 1e-300, 1e-12, 1e-6, 1e-3, 0.3, 1.0, 2.9, 20.0, 300.0, 700.0, 711.0, 1e4, 1e9, 1e300];
    let mut hist = |g: &mut Gen, b: f64, l: usize, seed: u64, edge: usize| {
        rand::vshim_reseed(seed);
        let mut c = base_conf(l, g.n(l - 1) + 2);
        c.beta = b;
        c.drive = g.pick(&drives());
        c.dt = g.r(-0.5, 0.5);
        c.tau = g.r(0.2, 20.0);
        c.jvar = if edge == 0 { g.r(0.0, 1.0) } else { 0.0 };
        c.hvar = if edge == 0 { g.r(0.0, 1.0) } else { 0.0 };
        c.lambda = g.pick(&[0.0, 1.0, -1.0, 0.5]);
        c.trel = g.r(-10.0, 10.0);
        c.hs = vec![0.0; 3];
        if edge > 0 {
            c.drive = DriveType::none;
        }
        let ch = guard("new", || SpinChain::new(c, 0));
        let mut ch = match ch {
            Some(x) => x,
            None => return,
        };
        emit(&format!("{{\"e\":\"spins\",\"op\":\"new beta={:?}\",\"S\":{}}}", b, spins(&ch.spins)));
        match edge {
            1 => {
                // no couplings and no field: every local field vanishes
                ch.j_couple = vec![[0.0; 3]; l];
                ch.static_h = vec![[0.0; 3]; l];
            }
            2 => {
                // local fields cancel exactly on some sites
                ch.j_couple = vec![[1.0; 3]; l];
                ch.static_h = vec![[0.0; 3]; l];
                ch.spins = (0..l).map(|_| sp({ let mut e = [0.0; 3]; e[g.n(3)] = g.pick(&[1.0, -1.0]); e })).collect();
            }
            3 => {
                // the field cancels the exchange
                ch.j_couple = vec![[1.0; 3]; l];
                ch.static_h = vec![[2.0, 0.0, 0.0]; l];
                ch.spins = vec![sp([1.0, 0.0, 0.0]); l];
            }
            _ => {}
        }
        for _ in 0..12 {
            let op = g.n(7);
            let name = ["update", "update_no_field", "metropolis", "rot_magnus", "maglab", "magnus", "mag_full"][op];
            let times = if op < 2 { 3 } else { 20 };
            let ok = guard(name, || {
                for _ in 0..times {
                    match op {
                        0 => ch.update(),
                        1 => ch.update_no_field(),
                        2 => ch.metropolis_update(),
                        3 => ch.metropolis_update_rot_magnus(),
                        4 => ch.metropolis_update_maglab(),
                        5 => ch.metropolis_update_magnus(),
                        _ => ch.metropolis_update_mag_full(),
                    }
                }
            });
            if ok.is_none() {
                return;
            }
            emit(&format!("{{\"e\":\"spins\",\"op\":\"{}\",\"S\":{}}}", name, spins(&ch.spins)));
        }
    };
    for k in 0..(8 * scale) {
        for (i, b) in betas.iter().enumerate() {
            let l = [4, 6, 8, 12][(k + i) % 4];
            let seed = g.u64();
            hist(g, *b, l, seed, (k + i) % 5);
        }
        // a longer chain: every bond is drawn afresh
        let seed = g.u64();
        let b = g.pick(&betas);
        hist(g, b, if k == 0 { 514 } else { 64 }, seed, 0);
    }
    // Langevin chains
    for k in 0..(8 * scale) {
        for (i, b) in [1e-6, 1e-3, 0.3, 1.0, 2.9, 20.0, 300.0, 711.0, 1e4, 1e300, 0.0].iter().enumerate() {
            rand::vshim_reseed(g.u64());
            let l = [4, 6, 8][(k + i) % 3];
            let mut c = base_conf(l, g.n(l - 1) + 2);
            c.beta = *b;
            c.dt = g.r(0.01, 0.3);
            c.jvar = if k % 2 == 0 { g.r(0.0, 0.5) } else { 0.0 };
            c.drive = g.pick(&drives());
            c.file = "lang".into();
            let gamma = g.pick(&[0.0, 0.1, 1.0, 3.0]);
            let ch = guard("langevin new", || SpinChainLangevin::new(c, 0, gamma));
            let mut ch = match ch {
                Some(x) => x,
                None => continue,
            };
            emit(&format!("{{\"e\":\"spins\",\"op\":\"langevin new beta={:?}\",\"S\":{}}}", b, spins(&ch.spins)));
            if k % 3 == 2 {
                // vanishing local fields
                ch.static_h = vec![[0.0; 3]; l];
                ch.spins = (0..l).map(|i| sp([if i % 4 < 2 { 1.0 } else { -1.0 }, 0.0, 0.0])).collect();
                ch.vars.drive = DriveType::none;
            }
            for _ in 0..8 {
                let op = g.n(3);
                // an infinite temperature has no finite noise: only moves then
                let op = if *b == 0.0 && op == 0 { 1 } else { op };
                let name = ["langevin update", "langevin metropolis", "langevin magnus"][op];
                let ok = guard(name, || {
                    for _ in 0..5 {
                        match op {
                            0 => ch.update(),
                            1 => ch.metropolis_update(),
                            _ => ch.metropolis_update_magnus(),
                        }
                    }
                });
                if ok.is_none() {
                    break;
                }
                emit(&format!("{{\"e\":\"spins\",\"op\":\"{}\",\"S\":{}}}", name, spins(&ch.spins)));
            }
        }
    }
    // long histories: the largest deviation from unit length ever seen
    for k in 0..(3 * scale) {
        rand::vshim_reseed(g.u64());
        let d = g.pick(&drives());
        let mut ch = closed(g, 8, 4, d);
        let n = 40000;
        let mut dev: f64 = 0.0;
        let mut fin = true;
        guard("long history", || {
            for i in 0..n {
                match (i + k) % 5 {
                    4 => ch.metropolis_update(),
                    3 => ch.update_no_field(),
                    _ => ch.update(),
                }
                for x in ch.spins.iter() {
                    let q = x.dir.iter().map(|y| y * y).sum::<f64>();
                    fin &= q.is_finite();
                    dev = dev.max((q.sqrt() - 1.0).abs());
                }
            }
        });
        emit(&format!("{{\"e\":\"dev\",\"n\":{},\"fin\":{},\"dev\":{}}}", n, fin, s(dev)));
    }
}

// ---- C02: rotation and geometry --------------------------------------------------------------
pub fn c02(g: &mut Gen, scale: usize) {
    for k in 0..(600 * scale) {
        let a = g.unit_edge();
        let f = match g.n(6) {
            0 => [0.0; 3],
            1 => {
                let mut e = [0.0; 3];
                e[g.n(3)] = g.r(-3.0, 3.0);
                e
            }
            2 => a,
            3 => [-2.0 * a[0], -2.0 * a[1], -2.0 * a[2]],
            4 => {
                let u = g.unit();
                let m = 10f64.powf(g.r(-12.0, 3.0));
                [u[0] * m, u[1] * m, u[2] * m]
            }
            _ => g.v3(3.0),
        };
        let dt = match g.n(4) {
            0 => g.r(-0.1, 0.1),
            1 => g.r(-20.0, 20.0),
            2 => 0.0,
            _ => g.r(-3.2, 3.2),
        };
        let mut x = sp(a);
        guard("rotate", || {
            x.rotate(&f, dt);
            let out = x.dir;
            x.rotate(&f, -dt);
            emit(&format!(
                "{{\"e\":\"rot\",\"s\":{},\"f\":{},\"dt\":{},\"out\":{},\"back\":{}}}",
                v(&a), v(&f), s(dt), v(&out), v(&x.dir)
            ));
        });
        // angles
        let b = if k % 3 == 0 {
            // all octants and axes, including the negative and the zero x half-space
            let i = k / 3 % 27;
            let w = [(i % 3) as f64 - 1.0, (i / 3 % 3) as f64 - 1.0, (i / 9) as f64 - 1.0];
            let n = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
            if n == 0.0 { [0.0, 0.0, -1.0] } else { [w[0] / n, w[1] / n, w[2] / n] }
        } else {
            g.unit_edge()
        };
        guard("angles", || {
            let y = sp(b);
            let (th, ph) = (y.theta(), y.phi());
            let back = Spin::new_from_angles(th, ph);
            let mut z = Spin::new();
            z.set_angles(th, ph);
            emit(&format!(
                "{{\"e\":\"ang\",\"s\":{},\"th\":{},\"ph\":{},\"from\":{},\"set\":{},\"xyz\":{}}}",
                v(&b), s(th), s(ph), v(&back.dir), v(&z.dir), v(&y.xyz())
            ));
        });
        guard("from angles", || {
            let (th, ph) = (g.r(-7.0, 7.0), g.r(-7.0, 7.0));
            let y = Spin::new_from_angles(th, ph);
            emit(&format!("{{\"e\":\"frm\",\"th\":{},\"ph\":{},\"out\":{}}}", s(th), s(ph), v(&y.dir)));
        });
        guard("new_xyz", || {
            let m = 10f64.powf(g.r(-6.0, 6.0));
            let w = g.v3(m);
            let mut w = if k % 4 == 0 { [w[0], 0.0, 0.0] } else { w };
            if w == [0.0; 3] { w = [1.0, 0.0, 0.0]; }
            emit(&format!("{{\"e\":\"xyz\",\"v\":{},\"out\":{}}}", v(&w), v(&Spin::new_xyz(&w).dir)));
        });
        guard("gs", || {
            let (p, q) = (g.v3(3.0), g.v3(3.0));
            let p = if k % 4 == 0 { g.unit_edge() } else { p };
            let c = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]];
            if c.iter().map(|x| x * x).sum::<f64>() > 1e-3 {
                emit(&format!("{{\"e\":\"gs\",\"a\":{},\"b\":{},\"out\":{}}}", v(&p), v(&q), v(&Spin::gs(&p, &q))));
            }
        });
        guard("rot_perp", || {
            let th = g.r(-3.1, 6.3);
            let ph = match k % 5 { 0 => g.r(0.0, 0.01), _ => g.r(0.0, 3.14159) };
            let d = g.unit_edge();
            let ang = match g.n(6) { 0 => 0.0, 1 => std::f64::consts::PI, 2 => g.r(0.0, 1e-3), 3 => g.r(-7.0, 7.0), _ => g.r(0.0, 3.14159) };
            let o = [th.cos() * ph.sin(), th.sin() * ph.sin(), ph.cos()];
            let dd = (o[0] * d[0] + o[1] * d[1] + o[2] * d[2]).abs();
            if dd < 0.999 {
                let r = Spin::rot_perp(&[th, ph], &d, ang);
                emit(&format!(
                    "{{\"e\":\"rperp\",\"th\":{},\"ph\":{},\"d\":{},\"ang\":{},\"oth\":{},\"oph\":{}}}",
                    s(th), s(ph), v(&d), s(ang), s(r[0]), s(r[1])
                ));
            }
        });
        guard("equality", || {
            let p = g.unit();
            let mut q = p;
            match k % 3 {
                0 => for i in 0..3 { q[i] += g.r(-0.0015, 0.0015) },
                1 => q[g.n(3)] += g.pick(&[0.00099, -0.00099, 0.00101, -0.00101, 0.0, 0.5, -0.9]),
                _ => q = g.unit(),
            }
            let (a, b) = (sp(p), sp(q));
            emit(&format!("{{\"e\":\"eq\",\"a\":{},\"b\":{},\"r\":{},\"rev\":{}}}", v(&p), v(&q), a == b, b == a));
        });
    }
}

// ---- C03: the time step ----------------------------------------------------------------------
pub fn c03(g: &mut Gen, scale: usize) {
    for k in 0..(220 * scale) {
        let (l, _) = sizes(g);
        let ss = g.n(l + 1).max(1);
        let d = drives()[k % 5].clone();
        let mut ch = closed(g, l, ss, d);
        strong(g, &mut ch.static_h);
        ev_set(&ch);
        for i in 0..4 {
            ev_update(&mut ch, (k + i) % 3 == 2);
            if i == 1 && k % 4 == 0 {
                ch.vars.dt = g.r(-0.5, 0.5);
                ev_set(&ch);
            }
        }
    }
    for l in long(g, scale) {
        let (ss, d) = (1 + g.n(l), g.pick(&drives()));
        let mut ch = closed(g, l, ss, d);
        ev_set(&ch);
        ev_update(&mut ch, false);
        ev_update(&mut ch, true);
    }
}

// ---- C04: conservation and reversibility -------------------------------------------------------
pub fn c04(g: &mut Gen, scale: usize) {
    for k in 0..(24 * scale) {
        let (l, ss) = sizes(g);
        let d = if k % 2 == 0 { DriveType::none } else { DriveType::staticfield };
        let mut ch = closed(g, l, ss, d);
        ch.vars.dt = match k % 4 { 0 => g.r(0.5, 3.0), 1 => -g.r(0.01, 0.5), _ => g.r(0.005, 0.2) };
        if k % 3 == 0 {
            ch.vars.dt = 0.02;
        }
        ev_set(&ch);
        for _ in 0..4 {
            let n = 3000;
            let (e0, f0) = (ch.total_energy(), ch.total_energy2());
            if guard("long evolution", || for _ in 0..n { ch.update() }).is_none() {
                break;
            }
            emit(&format!(
                "{{\"e\":\"seg\",\"n\":{},\"S\":{},\"t\":{},\"e0\":{},\"e1\":{},\"f0\":{},\"f1\":{}}}",
                n, spins(&ch.spins), s(ch.t), s(e0), s(ch.total_energy()), s(f0), s(ch.total_energy2())
            ));
        }
    }
    // per-step conservation with the drive frozen at mid-step
    let ll = long(g, scale);
    for k in 0..(60 * scale + ll.len()) {
        let (l, ss) = sizes(g);
        let l = if k < ll.len() { ll[k] } else { l };
        let d = drives()[k % 5].clone();
        let mut ch = closed(g, l, ss, d);
        ev_set(&ch);
        for _ in 0..3 {
            if guard("update", || ch.update()).is_none() {
                break;
            }
            emit(&format!("{{\"e\":\"frozen\",\"S\":{},\"t\":{}}}", spins(&ch.spins), s(ch.t)));
        }
    }
    // reversal
    for k in 0..(60 * scale) {
        let (l, ss) = sizes(g);
        let d = drives()[k % 5].clone();
        let mut ch = closed(g, l, ss, d);
        ch.t = g.r(-5.0, 5.0);
        let nf = k % 4 == 3;
        let n = 1 + g.n(120);
        let dts: Vec<f64> = if k % 2 == 0 {
            let x = g.r(0.005, 0.05);
            vec![x; n]
        } else {
            (0..n).map(|_| g.r(-0.08, 0.08)).collect()
        };
        ev_set(&ch);
        let ok = guard("reversal", || {
            for x in dts.iter() {
                ch.vars.dt = *x;
                if nf { ch.update_no_field() } else { ch.update() }
            }
            let mid = spins(&ch.spins);
            for x in dts.iter().rev() {
                ch.vars.dt = -*x;
                if nf { ch.update_no_field() } else { ch.update() }
            }
            mid
        });
        if let Some(mid) = ok {
            emit(&format!("{{\"e\":\"rev\",\"n\":{},\"mid\":{},\"S\":{},\"t\":{}}}", n, mid, spins(&ch.spins), s(ch.t)));
        }
    }
}

// ---- C05: the drive ----------------------------------------------------------------------------
pub fn c05(g: &mut Gen, scale: usize) {
    let ll = long(g, scale);
    let k0 = g.n(5);
    for k in 0..(150 * scale + ll.len()) {
        let l = g.pick(&[2, 4, 6, 8, 12]);
        let l = if k < ll.len() { ll[k] } else { l };
        let ss = 2 + g.n(l - 1);
        let d = drives()[(k + k0) % 5].clone();
        let mut ch = closed(g, l, ss, d.clone());
        if k % 2 == 0 {
            // decoupled spins without static field: the drive alone
            ch.j_couple = vec![[0.0; 3]; l];
            ch.static_h = vec![[0.0; 3]; l];
        }
        let tau = ch.vars.tau;
        if k % 2 == 1 {
            strong(g, &mut ch.static_h);
        }
        ch.t = match k % 6 {
            0 => 0.0,
            1 => -g.r(0.0, 3.0) * tau,
            2 => (g.n(5) as f64) * 0.25 * tau,
            3 => -(g.n(9) as f64) * 0.25 * tau,
            4 => g.r(0.0, 1000.0) * tau,
            _ => g.r(0.0, 2.0) * tau,
        };
        ev_set(&ch);
        ev_obs(&ch);
        for i in 0..3 {
            ev_update(&mut ch, (i + k) % 4 == 3);
            ev_obs(&ch);
        }
        // the same for a Langevin chain (deterministic without damping)
        let (mut lc, j) = lang(g, l, ss, d, 0.0, 0.5);
        lc.t = ch.t;
        ev_lset(&lc, &j);
        ev_lobs(&lc);
        for _ in 0..2 {
            ev_lupdate0(&mut lc);
            ev_lobs(&lc);
        }
    }
}
pub fn ev_lupdate0(c: &mut SpinChainLangevin) {
    let r0 = lrest(c);
    if guard("langevin update", || c.update()).is_some() {
        emit(&format!("{{\"e\":\"lupd0\",\"S\":{},\"t\":{},\"same\":{}}}", spins(&c.spins), s(c.t), lrest(c) == r0));
    }
}

// ---- C06: observables ----------------------------------------------------------------------------
pub fn c06(g: &mut Gen, scale: usize) {
    let ll = long(g, scale);
    for k in 0..(200 * scale + ll.len()) {
        let (l, ss) = if k % 7 == 0 { let l = g.pick(&[2, 4, 8]); (l, l) } else { sizes(g) };
        let (l, ss) = if k < ll.len() { (ll[k], ll[k] - g.n(ll[k] - 1)) } else { (l, ss) };
        let d = drives()[(k + 2) % 5].clone();
        let mut ch = closed(g, l, ss, d.clone());
        strong(g, &mut ch.static_h);
        ev_set(&ch);
        ev_obs(&ch);
        guard("steps", || {
            ch.update();
            ch.metropolis_update();
        });
        ev_set(&ch);
        ev_obs(&ch);
        let gamma = g.r(0.0, 2.0);
        let jv = g.pick(&[0.0, 0.5]);
        let (mut lc, j) = lang(g, l, ss, d, gamma, jv);
        ev_lset(&lc, &j);
        ev_lobs(&lc);
        guard("langevin steps", || {
            lc.update();
            lc.metropolis_update();
        });
        ev_lset(&lc, &j);
        ev_lobs(&lc);
    }
    // odd lengths as well: the observables do not depend on the checkerboard
    for _ in 0..(20 * scale) {
        let l = g.pick(&[3, 5, 7, 9]);
        let ss = 2 + g.n(l - 1);
        let d = g.pick(&drives());
        let ch = closed(g, l, ss, d);
        ev_set(&ch);
        ev_obs(&ch);
    }
}

// ---- C11: the temperature solver -----------------------------------------------------------------
pub fn c11(g: &mut Gen, scale: usize) {
    let mut es = vec![];
    let n = 400 * scale;
    for i in 0..n {
        es.push(-0.999 + 0.998 * (i as f64) / (n as f64 - 1.0));
    }
    for _ in 0..(100 * scale) {
        es.push(-10f64.powf(g.r(-3.0, -0.0005)));
        es.push(-1.0 + 10f64.powf(g.r(-3.0, -0.0005)));
    }
    for e in es {
        let e = e.max(-0.999).min(-0.001);
        let b = guard("solve_beta", || (SpinChain::solve_beta(e), SpinChainLangevin::solve_beta(e)));
        if let Some((a, b)) = b {
            emit(&format!("{{\"e\":\"beta\",\"en\":{},\"b\":{},\"lb\":{}}}", s(e), s(a), s(b)));
        }
    }
}

// ---- C13: the spectrum ---------------------------------------------------------------------------
pub fn c13(g: &mut Gen, scale: usize) {
    for k in 0..(40 * scale) {
        let l = [2, 4, 6, 8, 10, 12, 16, 30][k % 8];
        let l = if k == 4 { g.pick(&[64, 130, 258, 300]) } else { l };
        let d = g.pick(&drives());
        let mut ch = closed(g, l, 2, d);
        match k % 9 {
            0 => ch.spins = vec![sp(g.unit()); l],
            1 => {
                let u = g.unit();
                for i in 0..l {
                    let sg = if i % 2 == 0 { 1.0 } else { -1.0 };
                    ch.spins[i] = sp([u[0] * sg, u[1] * sg, u[2] * sg]);
                }
            }
            2 => {
                let m = g.n(l) as f64;
                for i in 0..l {
                    let p = 2.0 * std::f64::consts::PI * m * (i as f64) / (l as f64);
                    ch.spins[i] = sp([p.cos(), 0.0, p.sin()]);
                }
            }
            _ => {}
        }
        ev_set(&ch);
        let w0 = whole(&ch);
        guard("energy_spectrum", || {
            let x = ch.energy_spectrum();
            emit(&format!("{{\"e\":\"spec\",\"x\":{},\"same\":{}}}", v(&x), whole(&ch) == w0));
        });
    }
}
