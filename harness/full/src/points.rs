use crate::address::put;
use crate::grids::{degrees, either, Grid};
use crate::met::system;
use crate::util::*;
use chrono::{DateTime, TimeZone, Utc};
use gribberish::message::Message;
use gribberish::templates::product::tables::FixedSurfaceType;
use serde_json::{json, Value};
use surfrs::data::gfs_wave_grib_point_data_record::GFSWaveGribPointDataRecord;
use surfrs::location::Location;
use surfrs::model::GFSWaveModel;
use surfrs::swell::Swell;
use surfrs::units::UnitConvertible;

const KEYS: [(&str, Option<u8>); 17] = [
    ("HTSGW", None),
    ("PERPW", None),
    ("DIRPW", None),
    ("WIND", None),
    ("WDIR", None),
    ("SWELL", Some(1)),
    ("SWPER", Some(1)),
    ("SWDIR", Some(1)),
    ("SWELL", Some(2)),
    ("SWPER", Some(2)),
    ("SWDIR", Some(2)),
    ("SWELL", Some(3)),
    ("SWPER", Some(3)),
    ("SWDIR", Some(3)),
    ("WVHGT", None),
    ("WVPER", None),
    ("WVDIR", None),
];

fn key(k: &(&str, Option<u8>)) -> String {
    match k.1 {
        Some(n) => format!("{}_{n}", k.0),
        None => k.0.to_string(),
    }
}

fn values(rng: &mut Rng, name: &str, k: usize) -> Vec<i64> {
    if name.contains("DIR") {
        let centre = if rng.chance(1, 2) { 0 } else { rng.int(0, 359_999) };
        let spread = *rng.pick(&[0, 3000, 40_000, 44_000]);
        (0..k).map(|_| (centre + rng.int(-spread, spread)).rem_euclid(360_000)).collect()
    } else if name.contains("PER") {
        let calm = rng.chance(1, 8);
        (0..k).map(|_| if calm { 0 } else { rng.int(2000, 22000) }).collect()
    } else {
        let top = *rng.pick(&[0, 400, 3000, 9000]);
        (0..k).map(|_| if top == 0 { 0 } else { rng.int(50, top) }).collect()
    }
}

fn swell(s: &Swell) -> Value {
    let (h, p) = (s.wave_height.value, s.period.value);
    let energy = s.energy.as_ref().and_then(|e| e.value);
    let ratio = match (h, p, energy) {
        (Some(h), Some(p), Some(e)) => json!([fx(e / (h * h * p * p), 1e6)]),
        _ => json!([]),
    };
    // Nothing over nothing
    let ratio = if h.zip(p).map_or(false, |(h, p)| h * p == 0.0) { json!([if energy == Some(0.0) { 1970080 } else { 0 }]) } else { ratio };
    json!({"h": ofx(h, 1000.0), "p": ofx(p, 1000.0), "d": opt(s.direction.value.as_ref().map(|d| d.degrees)), "energy": ofx(energy, 100.0), "ratio": ratio,
        "units": format!("{:?} {:?} {:?}", s.wave_height.unit, s.period.unit, s.direction.unit)})
}

fn record(r: &GFSWaveGribPointDataRecord) -> Value {
    let t = r.date.timestamp();
    json!({"date": [t.div_euclid(86400), t.rem_euclid(86400)], "summary": swell(&r.wave_summary), "speed": ofx(r.wind_speed.value, 1000.0),
        "from": opt(r.wind_direction.value.as_ref().map(|d| d.degrees)), "units": format!("{:?} {:?}", r.wind_speed.unit, r.wind_direction.unit),
        "height": format!("{:?}", r.wave_summary.wave_height.unit), "wind": format!("{:?}", r.wind_speed.unit),
        "parts": r.swell_components.iter().map(swell).collect::<Vec<_>>()})
}

fn session(log: &mut Log, rng: &mut Rng, mut states: Vec<((&str, Option<u8>), String)>, shuffled: bool) {
    let wide = rng.chance(1, 25);
    let (n, m) = if wide { (rng.int(6, 9) as usize, rng.int(6, 9) as usize) } else { (rng.int(2, 4) as usize, rng.int(2, 5) as usize) };
    let g = Grid::sized(rng, true, n, m);
    let (r, c) = (rng.int(0, g.n as i64 - 2), rng.int(0, g.m as i64 - 2));
    let (lat, lng) = (g.lat0 + g.dlat * r + g.dlat / 4 * rng.int(0, 3), g.lng0 + g.dlng * c + g.dlng / 4 * rng.int(0, 3));
    let tol = g.dlng.abs() * if wide { 6 } else { *rng.pick(&[1, 2]) };
    let outside = rng.chance(1, 40);
    let lat = if !outside { lat } else if lat > 0 { lat - 40 * 768 } else { lat + 40 * 768 };
    let valid: DateTime<Utc> = Utc.timestamp_opt(rng.int(0, 4_000_000_000) / 3600 * 3600, 0).unwrap();
    if shuffled {
        rng.shuffle(&mut states);
    }
    let mut msgs: Vec<Message> = vec![];
    let mut list = vec![];
    for ((name, nth), state) in &states {
        if state == "gone" {
            continue;
        }
        let mut vals = values(rng, name, g.n * g.m);
        if rng.chance(1, 3) {
            for v in vals.iter_mut() {
                if rng.chance(1, 4) {
                    *v = NAN;
                }
            }
        }
        if state == "blank" {
            vals = vec![NAN; g.n * g.m];
        }
        // The first of a sequence may go without its number
        let (surface, level, word) = match nth {
            Some(0) if rng.chance(1, 2) => (Some((FixedSurfaceType::OrderedSequence, None)), None, "ordered"),
            Some(n) => (Some((FixedSurfaceType::OrderedSequence, Some(*n as f64))), Some(*n), "ordered"),
            None if state == "plain" => (None, None, "none"),
            None => (Some((*rng.pick(&[FixedSurfaceType::GroundOrWater, FixedSurfaceType::MeanSeaLevel]), *rng.pick(&[None, Some(1.0)]))), None, "other"),
        };
        let (dated, data, named) = (state != "undated", state != "empty", state != "nameless");
        let mut m = g.message(if data { Some(&vals) } else { None }, if named { Some(name) } else { None }, surface, "m");
        m.valid = if dated { Some(valid) } else { None };
        msgs.push(m);
        list.push(json!({"abbrev": opt(if named { Some(name.to_string()) } else { None }), "surface": word, "level": opt(level), "dated": dated, "data": data, "vals": vals}));
    }
    let given = either(rng, lng);
    let mut grid = g.json(&[]);
    grid["vals"] = json!([]);
    log.begin(format!("point-{}", log.sessions), json!({"grid": grid, "lat": lat, "lng": lng.rem_euclid(360 * 768), "given": given, "tol": tol,
        "valid": [valid.timestamp().div_euclid(86400), valid.timestamp().rem_euclid(86400)], "msgs": list}));
    let at = Location::new(degrees(lat), degrees(given), "there".into());
    let mut made = None;
    put(log, guard(|| {
        made = GFSWaveGribPointDataRecord::from_messages(&GFSWaveModel::atlantic(), &msgs, &at, degrees(tol)).ok();
        json!({"op": "record", "got": opt(made.as_ref().map(record))})
    }));
    if let Some(mut rec) = made {
        for _ in 0..3 {
            let sys = *rng.pick(&["Metric", "English", "Knots"]);
            put(log, guard(|| {
                rec.to_units(&system(sys));
                json!({"op": "to", "sys": sys, "got": [record(&rec)]})
            }));
            put(log, guard(|| {
                let again: Option<GFSWaveGribPointDataRecord> = serde_json::to_string(&rec).ok().and_then(|s| serde_json::from_str(&s).ok());
                json!({"op": "again", "got": opt(again.as_ref().map(record))})
            }));
        }
    }
}

pub fn j03(log: &mut Log, rng: &mut Rng) {
    for s in log.scenarios() {
        let states = s["state"].as_object().unwrap();
        let list: Vec<_> = KEYS.iter().filter_map(|k| states.get(&key(k)).map(|v| (*k, v.as_str().unwrap().to_string()))).collect();
        for again in 0..2 {
            session(log, rng, list.clone(), again == 1);
        }
    }
    for _ in 0..log.n(200, 4000) {
        let first = rng.chance(1, 4);
        let mut list: Vec<((&str, Option<u8>), String)> = KEYS
            .iter()
            .map(|k| {
                // Sequences may count from nought
                let k = if first { (k.0, k.1.map(|n| n - 1)) } else { *k };
                let st = if rng.chance(4, 5) || k.0 == "HTSGW" && rng.chance(3, 4) { "well" } else { *rng.pick(&["blank", "undated", "empty", "gone", "nameless", "plain"]) };
                (k, if st == "plain" && k.1.is_some() { "gone" } else { st }.to_string())
            })
            .collect();
        // The same variable twice, or one in no sequence that should be in one
        if rng.chance(1, 4) {
            let k = *rng.pick(&KEYS);
            let st = *rng.pick(&["well", "blank"]);
            list.push((k, st.to_string()));
        }
        if rng.chance(1, 4) {
            list.push((("SWELL", None), "well".to_string()));
            list.push((("WIND", Some(1)), "well".to_string()));
        }
        session(log, rng, list, true);
    }
    log.finish();
}
