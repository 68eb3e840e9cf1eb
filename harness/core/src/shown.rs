use crate::grid::put;
use crate::unit::{uname, UNITS};
use crate::util::*;
use serde_json::json;
use std::fmt::Display;
use surfrs::data::parseable_data_record::DataRecordParsingError as Failure;
use surfrs::dimensional_data::DimensionalData as Data;
use surfrs::swell::{Swell, SwellProviderError};
use surfrs::units::{CardinalDirection, Direction, Steepness, Unit, UnitSystem};

/// The specification is in ASCII
fn plain(s: &str) -> String {
    s.replace('°', "deg").replace('²', "2")
}

fn say<T: Display>(d: &Data<T>) -> (String, serde_json::Value, String) {
    (plain(&d.to_string()), opt(d.try_string().map(|s| plain(&s))), plain(d.unit_label()))
}

fn number(rng: &mut Rng) -> Option<i64> {
    match rng.below(7) {
        0 => None,
        1 => Some(rng.int(-1100, 1100)),
        2 => Some(rng.int(0, 40) * 100),
        3 => Some(rng.int(-200, 200) * 50),
        4 => Some(*rng.pick(&[0, 49, 51, 949, 951, 999, 9949, 9951, 9999, 99951, 999999, -49, -51, -951])),
        _ => Some(rng.int(-900_000, 900_000)),
    }
}

fn turn(rng: &mut Rng) -> Option<i64> {
    if rng.chance(1, 6) {
        None
    } else {
        Some(rng.int(0, 360))
    }
}

const NAMES: [&str; 4] = ["wave height", "", "wind_speed", "x y"];

pub fn v02(log: &mut Log, rng: &mut Rng) {
    for (k, u) in UNITS.iter().enumerate() {
        log.begin(format!("unit-{k}"), json!({}));
        for _ in 0..log.n(120, 3000) {
            let (v, name) = (number(rng), rng.pick(&NAMES).to_string());
            put(log, guard(|| {
                let d = Data::<f64> { value: v.map(|v| v as f64 / 1000.0), variable_name: name.clone(), unit: u.clone() };
                let (text, tried, label) = say(&d);
                json!({"op": "number", "v": opt(v), "unit": uname(u), "text": text, "try": tried, "label": label, "get": ofx(d.get_value_opt(), 1000.0), "nan": d.get_value().is_nan()})
            }));
            put(log, guard(|| {
                // Eighths are exact in either width
                let w = v.map(|v| v / 125 * 125);
                let d = Data::<f32> { value: w.map(|v| v as f32 / 1000.0), variable_name: name.clone(), unit: u.clone() };
                let (text, tried, label) = say(&d);
                json!({"op": "number", "v": opt(w), "unit": uname(u), "text": text, "try": tried, "label": label, "get": ofx(d.get_value_opt().map(|x| x as f64), 1000.0), "nan": d.get_value().is_nan()})
            }));
            put(log, guard(|| {
                let (text, tried, label) = say(&Data::<i64> { value: v, variable_name: name.clone(), unit: u.clone() });
                json!({"op": "whole", "v": opt(v), "unit": uname(u), "text": text, "try": tried, "label": label})
            }));
            let d = turn(rng);
            put(log, guard(|| {
                let x = Data::<Direction> { value: d.map(|d| Direction::from_degrees(d as i32)), variable_name: name.clone(), unit: u.clone() };
                let (text, tried, label) = say(&x);
                let bare = plain(&x.get_value().to_string());
                let get = opt(x.get_value_opt().map(|d| d.degrees as i64));
                let p: Data<f64> = x.into();
                json!({"op": "bearing", "v": opt(d), "name": name, "unit": uname(u), "text": text, "try": tried, "label": label, "get": get, "bare": bare,
                    "plain": {"v": ofx(p.value, 1000.0), "unit": uname(&p.unit), "name": p.variable_name}})
            }));
            let raw = match v {
                None => rng.pick(&["MM", "", "N/A", "1.2.3", "4,5", "--", "1 2", "x"]).to_string(),
                Some(v) => format!("{}", v as f64 / 1000.0),
            };
            put(log, guard(|| {
                let x = Data::<f64>::from_raw_data(&raw, name.clone(), u.clone());
                json!({"op": "raw", "v": opt(v), "raw": raw, "name": name, "unit": uname(u), "got": ofx(x.value, 1000.0), "gotunit": uname(&x.unit), "gotname": x.variable_name})
            }));
        }
    }
    log.begin("swells", json!({}));
    for i in 0..log.n(1200, 20000) {
        if i % 400 == 399 {
            log.begin(format!("swells-{i}"), json!({}));
        }
        let (h, p, d) = (number(rng), number(rng), turn(rng));
        let system = if rng.chance(1, 2) { UnitSystem::Metric } else { UnitSystem::English };
        put(log, guard(|| {
            let f = |v: Option<i64>| v.unwrap_or(0) as f64 / 1000.0;
            let mut w = Swell::new(&system, f(h), f(p), Direction::from_degrees(d.unwrap_or(0) as i32), Some(1.0), Some(2.0), Some(3));
            if h.is_none() {
                w.wave_height.value = None;
            }
            if p.is_none() {
                w.period.value = None;
            }
            if d.is_none() {
                w.direction.value = None;
            }
            let unit = if system == UnitSystem::Metric { "Meters" } else { "Feet" };
            json!({"op": "swell", "h": opt(h), "unit": unit, "p": opt(p), "d": opt(d), "text": plain(&w.to_string())})
        }));
    }
    log.begin("words", json!({}));
    let mut word = |w: &str, x: &dyn Display| put(log, guard(|| json!({"op": "word", "word": w, "text": plain(&x.to_string())})));
    for (w, x) in [("metric", UnitSystem::Metric), ("english", UnitSystem::English), ("knots", UnitSystem::Knots), ("kelvin", UnitSystem::Kelvin)] {
        word(w, &x);
    }
    for (w, x) in [("VERY_STEEP", Steepness::VerySteep), ("STEEP", Steepness::Steep), ("AVERAGE", Steepness::Average), ("SWELL", Steepness::Swell), ("NA", Steepness::NA)] {
        word(w, &x);
        word(w, &Data { value: Some(x), variable_name: "steepness".into(), unit: Unit::Degrees });
    }
    word("", &CardinalDirection::Invalid);
    word("N/A", &Data::<Steepness> { value: None, variable_name: "".into(), unit: Unit::Unknown });
    for cause in ["", "broken", "line 3: '4,5'"] {
        put(log, guard(|| {
            let c = cause.to_string();
            let swell = [(SwellProviderError::NotImplemented, false), (SwellProviderError::InsufficientData(c.clone()), true), (SwellProviderError::SwellPartitionError(c.clone()), true)];
            let texts: Vec<String> = swell.iter().map(|x| x.0.to_string()).collect();
            let holds: Vec<bool> = swell.iter().zip(&texts).map(|(x, t)| !x.1 || t.contains(cause)).collect();
            json!({"op": "errors", "texts": texts, "holds": holds})
        }));
        put(log, guard(|| {
            let c = cause.to_string();
            let all = [(Failure::EOF, false), (Failure::NotImplemented, false), (Failure::InvalidData, false), (Failure::ParseFailure(c.clone()), true), (Failure::KeyMissing(c.clone()), true)];
            let texts: Vec<String> = all.iter().map(|x| x.0.to_string()).collect();
            let holds: Vec<bool> = all.iter().zip(&texts).map(|(x, t)| !x.1 || t.contains(cause)).collect();
            json!({"op": "errors", "texts": texts, "holds": holds})
        }));
    }
    log.finish();
}
