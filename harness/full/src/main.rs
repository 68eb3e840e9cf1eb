#![allow(dead_code)]
mod address;
mod archive;
mod axis;
mod grids;
mod met;
mod points;
mod stations;
mod util;

use util::{Log, Rng};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (property, tier, seed, dir) = (&args[1], &args[2], args[3].parse::<u64>().unwrap(), &args[4]);
    if std::env::var("DRIVER_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut log = Log::new(dir, tier);
    let mut rng = Rng::new(seed);
    match property.as_str() {
        "A01" => address::run(&mut log, &mut rng),
        "J01" => axis::run(&mut log, &mut rng),
        "M01" => met::m01(&mut log, &mut rng),
        "M02" => archive::m02(&mut log, &mut rng),
        "J02" => grids::j02(&mut log, &mut rng),
        "J03" => points::j03(&mut log, &mut rng),
        "A02" => stations::a02(&mut log, &mut rng),
        other => {
            eprintln!("unknown property {other}");
            std::process::exit(3);
        }
    }
    log.close();
}
