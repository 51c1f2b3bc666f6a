//! Replays states of the lattice model (LatticeGen.tla) in the real code and records what it computes.
//! Input: one case per line, numbers in lattice units (times in units of pi/2):
//!   kind L  S(3L) J(3L) H(3L)  t dt tau e hs(3) ssize drive
use crate::lib_events::*;
use crate::util::*;
use sc::config::DriveType;
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

fn drive(x: &str) -> DriveType {
    drives().into_iter().find(|d| drive_name(d) == x).unwrap()
}

pub fn replay(path: &str) {
    for line in std::fs::read_to_string(path).unwrap().lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        let l: usize = w[1].parse().unwrap();
        let num = |i: usize| w[i].parse::<f64>().unwrap();
        let vec3 = |o: usize| -> Vec<[f64; 3]> {
            (0..l).map(|n| [num(o + 3 * n), num(o + 3 * n + 1), num(o + 3 * n + 2)]).collect()
        };
        let o = 2 + 9 * l;
        let q = std::f64::consts::FRAC_PI_2;
        let st: Vec<Spin> = vec3(2).into_iter().map(sp).collect();
        let j = vec3(2 + 3 * l);
        let h = vec3(2 + 6 * l);
        let t = num(o) * q;
        let mut c = base_conf(l, w[o + 7].parse().unwrap());
        c.dt = num(o + 1) * q;
        c.tau = num(o + 2) * q;
        c.e = num(o + 3);
        c.hs = vec![num(o + 4), num(o + 5), num(o + 6)];
        c.drive = drive(w[o + 8]);
        c.jvar = 0.0;
        c.hvar = 0.0;
        c.file = "lat".to_string();
        let single = c.ssize == 1;
        let se = |x: f64| if single { "null".to_string() } else { s(x) };
        if w[0] == "l" {
            c.lambda = j[0][2];
            let r = guard("langevin step", || {
                let mut ch = SpinChainLangevin::new(c, 0, 0.0);
                ch.static_h = h;
                ch.spins = st;
                ch.t = t;
                let obs = format!("\"tot\":{},\"sys\":{},\"m\":{},\"mt\":{}", s(ch.total_energy()), se(ch.system_energy()), v(&ch.m()), v(&ch.m_tot()));
                ch.update();
                format!("{{\"e\":\"lat\",\"up\":{},\"t2\":{},{}}}", spins(&ch.spins), s(ch.t), obs)
            });
            r.map(|x| emit(&x));
        } else {
            let r = guard("lattice state", || {
                let mut ch = SpinChain::new(c, 0);
                ch.j_couple = j;
                ch.static_h = h;
                ch.spins = st.clone();
                ch.t = t;
                let obs = format!(
                    "\"tot\":{},\"sys\":{},\"mct\":{},\"mcs\":{},\"m\":{},\"mt\":{},\"spec\":{}",
                    s(ch.total_energy()), se(ch.system_energy()), s(ch.mc_total_energy()), s(ch.mc_system_energy()),
                    v(&ch.m()), v(&ch.m_tot()), v(&ch.energy_spectrum())
                );
                ch.update();
                let up = format!("\"up\":{},\"t2\":{}", spins(&ch.spins), s(ch.t));
                ch.spins = st.clone();
                ch.t = t;
                ch.update_no_field();
                format!("{{\"e\":\"lat\",{},\"nf\":{},\"t3\":{},{}}}", up, spins(&ch.spins), s(ch.t), obs)
            });
            r.map(|x| emit(&x));
        }
    }
}
