use crate::util::*;
use serde_json::json;
use surfrs::dimensional_data::DimensionalData;
use surfrs::units::{Direction, Unit, UnitConvertible, UnitSystem};

pub const UNITS: [Unit; 20] = [
    Unit::Millimeters, Unit::Meters, Unit::MetersPerSecond, Unit::Celsius, Unit::Pascal, Unit::HectaPascal, Unit::Inches,
    Unit::Feet, Unit::MilesPerHour, Unit::Fahrenheit, Unit::InchesMercury, Unit::Knots, Unit::Kelvin,
    Unit::MetersSquaredPerHertz, Unit::NauticalMiles, Unit::Degrees, Unit::Seconds, Unit::Percent, Unit::KiloJoules, Unit::Unknown,
];
pub const SYSTEMS: [UnitSystem; 4] = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin];

/// The unit's own name in the code, which no other unit has
pub fn uname(u: &Unit) -> String {
    format!("{u:?}")
}

fn values(log: &Log, rng: &mut Rng) -> Vec<(i64, f64)> {
    // Integers of up to six figures, and the scale they stand for
    let mut v: Vec<(i64, f64)> = vec![(0, 100.0), (100, 100.0), (-4000, 100.0), (3200, 100.0), (-27300, 100.0), (1, 100.0), (100_000, 0.001), (123_456, 1e6)];
    for _ in 0..log.n(6, 40) {
        v.push((rng.int(-150_000, 150_000), *rng.pick(&[100.0, 1000.0, 1.0, 1e6, 1e9, 0.001])));
    }
    v
}

pub fn run(log: &mut Log, rng: &mut Rng) {
    log.begin("constants", json!({}));
    for sys in [UnitSystem::Metric, UnitSystem::English] {
        log.event(json!({"op": "constants", "sys": format!("{sys:?}"), "earth": fx(sys.earths_radius(), 1.0), "sea": fx(sys.density_of_seawater(), 10.0)}));
    }
    for u in UNITS {
        for t in UNITS {
            log.begin(format!("{u:?}-{t:?}"), json!({}));
            let degrees = [Unit::Celsius, Unit::Fahrenheit, Unit::Kelvin].contains(&u);
            for (x, scale) in values(log, rng) {
                let scale = if degrees && !(scale == 100.0 || scale == 1000.0) { 100.0 } else { scale };
                let v = x as f64 / scale;
                let got = guard(|| {
                    let y = u.convert(v, &t);
                    let back = t.convert(y, &u);
                    (fx(y, scale), fx(back, scale), bits(y) == bits(v))
                });
                // One degree (or other unit of the quantity) in the recorded scale
                let one = fx(1.0, scale);
                log.event(match got {
                    Ok((y, back, same)) => json!({"op": "convert", "from": uname(&u), "to": uname(&t), "x": x, "y": y, "back": back, "same": same, "one": one}),
                    Err(w) => json!({"op": "panic", "from": uname(&u), "to": uname(&t), "x": x, "what": w}),
                });
            }
        }
    }
    for u in UNITS {
        log.begin(format!("systems-{u:?}"), json!({}));
        // A quantity taken through a history of unit systems
        for _ in 0..log.n(30, 300) {
            let x = if rng.chance(1, 8) { 0 } else { rng.int(-100_000, 100_000) };
            let missing = rng.chance(1, 6);
            // From tiny to huge ones, recorded to the same number of figures
            let degrees = [Unit::Celsius, Unit::Fahrenheit, Unit::Kelvin].contains(&u);
            let scale = if degrees { 100.0 } else { *rng.pick(&[100.0, 100.0, 1e-3, 1e7]) };
            let fine = scale * 10.0;
            let mut q = DimensionalData::<f64> { value: if missing { None } else { Some(x as f64 / scale) }, variable_name: "some quantity".into(), unit: u.clone() };
            let mut whole = DimensionalData::<i64> { value: if missing { None } else { Some(x / 100) }, variable_name: "whole".into(), unit: u.clone() };
            let deg = rng.int(0, 360) as i32;
            let mut heading = DimensionalData::<Direction> { value: if missing { None } else { Some(Direction::from_degrees(deg)) }, variable_name: "heading".into(), unit: Unit::Degrees };
            for _ in 0..4 {
                let sys = rng.pick(&SYSTEMS).clone();
                let (b, bu, bw) = (q.value, q.unit.clone(), whole.value);
                let got = guard(|| {
                    q.to_units(&sys);
                    let once = q.clone();
                    q.to_units(&sys);
                    let alone = b.map(|v| bu.convert(v, &once.unit));
                    let w0 = whole.unit.clone();
                    whole.to_units(&sys);
                    let w1 = whole.clone();
                    let walone = bw.map(|v| w0.convert(v as f64, &w1.unit));
                    whole.to_units(&sys);
                    heading.to_units(&sys);
                    json!({"op": "system", "sys": format!("{sys:?}"), "unit": uname(&bu), "was": ofx(b, fine), "now": ofx(once.value, fine),
                        "to": uname(&once.unit), "target": uname(&bu.convert_system(&sys)),
                        "alone": ofx(alone, fine), "again": ofx(q.value, fine), "againunit": uname(&q.unit),
                        "same": once.value.map(bits) == b.map(bits), "name": once.variable_name,
                        "whole": opt(w1.value), "wholeunit": uname(&w1.unit), "wholealone": ofx(walone, 1.0), "wholeagain": opt(whole.value),
                        "heading": opt(heading.value.as_ref().map(|h| h.degrees)), "headingunit": uname(&heading.unit), "deg": deg})
                });
                match got {
                    Ok(e) => log.event(e),
                    Err(w) => {
                        log.event(json!({"op": "panic", "what": w}));
                        break;
                    }
                }
            }
        }
    }
}
