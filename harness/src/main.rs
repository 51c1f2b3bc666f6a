//! Records executions of the spinchain crate as events for the TLA+ specification.
//! usage: harness <what> <seed> <scale> <out.ndjson> [extra]
mod lattice;
mod lib_events;
mod moves;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let scale: usize = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    util::open(&a[4]);
    let mut g = util::Gen(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 0x5eed);
    rand::vshim_reseed(seed);
    match a[1].as_str() {
        "C01" => lib_events::c01(&mut g, scale),
        "C02" => lib_events::c02(&mut g, scale),
        "C03" => lib_events::c03(&mut g, scale),
        "C04" => lib_events::c04(&mut g, scale),
        "C05" => lib_events::c05(&mut g, scale),
        "C06" => lib_events::c06(&mut g, scale),
        "C07" => moves::moves(&mut g, scale, &["met", "lmet"]),
        "C08" => moves::moves(&mut g, scale, &["rot", "maglab", "magnus", "lmagnus", "full"]),
        "C09" => moves::c09(&mut g, scale),
        "C10" => moves::c10(&mut g, scale),
        "C11" => lib_events::c11(&mut g, scale),
        "C12" => moves::c12(&mut g, scale),
        "C13" => lib_events::c13(&mut g, scale),
        "C14" => moves::c14(&mut g, scale, &a[5]),
        "lattice" => lattice::replay(&a[5]),
        x => panic!("unknown recorder {}", x),
    }
    util::close();
}
