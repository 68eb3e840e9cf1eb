#![allow(dead_code)]
mod clock;
mod compass;
mod grid;
mod helpers;
mod interp;
mod linspace;
mod partition;
mod summary;
mod shown;
mod unit;
mod tracking;
mod table;
mod bulletin;
mod pointfile;
mod globe;
mod tide;
mod forecast;
mod record;
mod plot;
mod contours;
mod rebuild;
mod waves;
mod sun;
mod desk;
mod util;

use util::{Log, Rng};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (property, tier, seed, dir) = (&args[1], &args[2], args[3].parse::<u64>().unwrap(), &args[4]);
    if std::env::var("DRIVER_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut log = Log::new(dir, tier);
    let mut rng = Rng::new(seed);
    match property.as_str() {
        "X01" => linspace::run(&mut log, &mut rng),
        "X02" => helpers::run(&mut log, &mut rng),
        "U01" => unit::run(&mut log, &mut rng),
        "D01" => compass::run(&mut log, &mut rng),
        "C01" => clock::run(&mut log, &mut rng),
        "W01" => partition::w01(&mut log, &mut rng),
        "W02" => partition::w02(&mut log, &mut rng),
        "W03" => partition::w03(&mut log, &mut rng),
        "T01" => tracking::run(&mut log, &mut rng),
        "I01" => interp::i01(&mut log, &mut rng),
        "I02" => interp::i02(&mut log, &mut rng),
        "G01" => interp::g01(&mut log, &mut rng),
        "S01" => grid::s01(&mut log, &mut rng),
        "S02" => grid::s02(&mut log, &mut rng),
        "H01" => summary::h01(&mut log, &mut rng),
        "H02" => summary::h02(&mut log, &mut rng),
        "H03" => summary::h03(&mut log, &mut rng),
        "R01" => table::r01(&mut log, &mut rng),
        "R02" => table::r02(&mut log, &mut rng),
        "B01" => bulletin::b01(&mut log, &mut rng),
        "F01" => pointfile::f01(&mut log, &mut rng),
        "L01" => globe::l01(&mut log, &mut rng),
        "K01" => tide::k01(&mut log, &mut rng),
        "N01" => forecast::n01(&mut log, &mut rng),
        "U02" => record::u02(&mut log, &mut rng),
        "V01" => record::v01(&mut log, &mut rng),
        "V02" => shown::v02(&mut log, &mut rng),
        "Z01" => plot::z01(&mut log, &mut rng),
        "Y01" => contours::y01(&mut log, &mut rng),
        "Q01" => rebuild::q01(&mut log, &mut rng),
        "P01" => waves::p01(&mut log, &mut rng),
        "E01" => sun::e01(&mut log, &mut rng),
        "O01" => desk::o01(&mut log, &mut rng),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3);
        }
    }
    log.close();
}
