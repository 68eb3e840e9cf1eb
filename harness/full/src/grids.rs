use crate::address::put;
use crate::met::system;
use crate::util::*;
use geojson::Feature;
use gribberish::message::{LatLngProjection, Message};
use gribberish::templates::product::tables::FixedSurfaceType;
use serde_json::{json, Value};
use surfrs::location::Location;
use surfrs::model::{GEFSWaveModel, GFSWaveModel, NOAAModel, NWPSModel};
use surfrs::tools::contour::compute_latlng_gridded_contours;
use surfrs::units::{Unit, UnitSystem};

/// Of a degree
pub const UNIT: f64 = 768.0;
const FULL: i64 = 360 * 768;

#[derive(Clone)]
pub struct Grid {
    pub lat0: i64,
    pub dlat: i64,
    pub n: usize,
    pub lng0: i64,
    pub dlng: i64,
    pub m: usize,
}

pub fn degrees(u: i64) -> f64 {
    u as f64 / UNIT
}
/// Either form of a longitude
pub fn either(rng: &mut Rng, u: i64) -> i64 {
    let x = u.rem_euclid(FULL);
    if x > FULL / 2 && rng.chance(1, 2) {
        x - FULL
    } else {
        x
    }
}

impl Grid {
    pub fn json(&self, vals: &[i64]) -> Value {
        json!({"lat0": self.lat0, "dlat": self.dlat, "n": self.n, "lng0": self.lng0, "dlng": self.dlng, "m": self.m, "vals": vals})
    }
    /// Columns run on from the first, whatever form that is in
    pub fn message(&self, vals: Option<&[i64]>, abbrev: Option<&str>, surface: Option<(FixedSurfaceType, Option<f64>)>, unit: &str) -> Message {
        Message {
            abbrev: abbrev.map(|a| a.to_string()),
            surface,
            valid: None,
            unit: unit.to_string(),
            grid: LatLngProjection {
                lat: (0..self.n).map(|r| degrees(self.lat0 + r as i64 * self.dlat)).collect(),
                lng: (0..self.m).map(|c| degrees(self.lng0 + c as i64 * self.dlng)).collect(),
            },
            values: vals.map(|v| v.iter().map(|x| if *x == NAN { f64::NAN } else { *x as f64 / 1000.0 }).collect()),
        }
    }
    pub fn random(rng: &mut Rng, exact: bool) -> Grid {
        let (n, m) = (rng.int(1, 7) as usize, rng.int(1, 9) as usize);
        Grid::sized(rng, exact, n, m)
    }
    pub fn sized(rng: &mut Rng, exact: bool, n: usize, m: usize) -> Grid {
        // Whole quarters of degrees and the like, or sixths
        let step = if exact { *rng.pick(&[48i64, 96, 192, 384, 768, 3072]) } else { 128 };
        let lng0 = match rng.below(5) {
            0 => FULL - rng.int(0, m as i64) * step,
            1 => FULL / 2 - rng.int(0, m as i64) * step,
            2 => 0 - rng.int(0, m as i64) * step,
            3 => 0 - FULL / 2,
            _ => rng.int(-170, 350) * 768,
        };
        let rise = (n as i64 - 1) * step;
        let south = match rng.below(10) {
            0 => -90 * 768,
            1 => 90 * 768 - rise,
            _ => (rng.int(-70, 60) * 768 + rng.int(0, 15) * step).min(90 * 768 - rise),
        };
        let down = n > 1 && rng.chance(1, 2);
        let dlng = if exact && rng.chance(1, 3) { 2 * step } else { step };
        let (lng0, dlng) = if exact && m > 1 && rng.chance(1, 8) { (lng0 + (m as i64 - 1) * dlng, -dlng) } else { (lng0, dlng) };
        Grid { lat0: if down { south + (n as i64 - 1) * step } else { south }, dlat: if down { -step } else { step }, n, lng0, dlng, m }
    }
}

fn ask(log: &mut Log, rng: &mut Rng, g: &Grid, msg: &Message, lat: i64, lng: i64, tol: Option<i64>, between: bool) {
    let which = rng.below(3);
    let (atl, mean, box_) = (GFSWaveModel::atlantic(), GEFSWaveModel::global_25_mean(), NWPSModel::boston());
    let given = either(rng, lng);
    let at = Location::new(degrees(lat), degrees(given), "there".into());
    if let Some(tol) = tol {
        let t = degrees(tol);
        put(log, guard(|| {
            let r = match which {
                0 => atl.query_location_tolerance(&at, &t, msg),
                1 => mean.query_location_tolerance(&at, &t, msg),
                _ => box_.query_location_tolerance(&at, &t, msg),
            };
            json!({"op": "around", "lat": lat, "lng": lng.rem_euclid(FULL), "given": given, "tol": tol, "got": opt(r.ok().map(|v| fxs(&v, 1000.0)))})
        }));
    }
    put(log, guard(|| {
        let r = match which {
            0 => atl.query_location_data(&at, msg),
            1 => mean.query_location_data(&at, msg),
            _ => box_.query_location_data(&at, msg),
        };
        json!({"op": "nearest", "lat": lat, "lng": lng.rem_euclid(FULL), "given": given, "got": opt(r.ok().map(|v| fx(v, 1000.0)))})
    }));
    if between {
        put(log, guard(|| {
            let r = match which {
                0 => atl.interp_location_data(&at, msg),
                1 => mean.interp_location_data(&at, msg),
                _ => box_.interp_location_data(&at, msg),
            };
            json!({"op": "between", "lat": lat, "lng": lng.rem_euclid(FULL), "given": given, "got": opt(r.ok().map(|v| fx(v, 1000.0)))})
        }));
    }
    let _ = g;
}

fn begin(log: &mut Log, g: &Grid, vals: &[i64], data: bool) {
    let mut init = g.json(vals);
    init["data"] = json!(data);
    log.begin(format!("field-{}", log.sessions), init);
}

fn values(rng: &mut Rng, k: usize, gaps: bool) -> Vec<i64> {
    (0..k).map(|_| if gaps && rng.chance(1, 5) { NAN } else { rng.int(-20000, 20000) }).collect()
}

fn hash(v: &Value) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    format!("{:016x}", h.finish())
}

fn features(fs: &[Feature]) -> Value {
    let list: Vec<Value> = fs
        .iter()
        .map(|f| {
            let number = |k: &str, scale: f64| f.property(k).and_then(|v| v.as_f64()).map_or(NAN, |v| fx(v, scale));
            json!({"threshold": number("threshold", 1000.0), "normalized": number("normalized", 10000.0),
                "label": f.property("label").and_then(|v| v.as_str()).unwrap_or("none").replace('\u{b0}', "~b0"),
                "shape": f.geometry.as_ref().map(|g| hash(&json!(g.value))).unwrap_or_default()})
        })
        .collect();
    json!(list)
}

/// The field's contours in units asked for, beside those of the field given in them
fn contours(log: &mut Log, rng: &mut Rng) {
    let exact = rng.chance(1, 2);
    let (n, m) = (rng.int(3, 8) as usize, rng.int(3, 9) as usize);
    let g = Grid::sized(rng, exact, n, m);
    let vals: Vec<i64> = values(rng, g.n * g.m, true).into_iter().map(|v| if v == NAN { v } else { v.abs() }).collect();
    let known: Vec<i64> = vals.iter().copied().filter(|v| *v != NAN).collect();
    if known.len() < 2 || known.iter().min() == known.iter().max() {
        return;
    }
    let (text, name) = *rng.pick(&[("m", "Meters"), ("ms-1", "MetersPerSecond"), ("s", "Seconds"), ("K", "Kelvin"), ("C", "Celsius")]);
    let warm = text == "K" || text == "C";
    let sys = *rng.pick(&["", "Metric", "English", "Knots", "Kelvin"]);
    let s: Option<UnitSystem> = if sys.is_empty() { None } else { Some(system(sys)) };
    let unit = Unit::from(text);
    let to = s.as_ref().map_or(unit.clone(), |s| unit.convert_system(s));
    let count = *rng.pick(&[None, Some(2usize), Some(3), Some(5), Some(8)]);
    let (lo, hi) = (*known.iter().min().unwrap(), *known.iter().max().unwrap());
    let min = if !warm && rng.chance(1, 2) { Some(rng.int(0, 9000)) } else { None };
    let max = if !warm && rng.chance(1, 2) { Some(rng.int(90000, 200000)) } else { None };
    let (tmin, tmax) = (min.map(|v| v as f64 / 1000.0), max.map(|v| v as f64 / 1000.0));
    let msg = g.message(Some(&vals), Some("X"), None, text);
    // What lies above the upper threshold, or the lower one below, leaves nothing to order
    if min.map_or(false, |m| m >= max.unwrap_or(0) && (to.convert(hi as f64, &to) <= m as f64 || max.is_none() && hi <= m)) {
        return;
    }
    begin(log, &g, &vals, true);
    put(log, guard(|| {
        let got = GFSWaveModel::global_16().contour_data(&msg, tmin, tmax, count, s.clone());
        let data: Vec<f64> = msg.values.clone().unwrap().into_iter().map(|v| if unit == to { v } else { unit.convert(v, &to) }).collect();
        let grid = &msg.grid;
        let plain = compute_latlng_gridded_contours(data, g.m, g.n, grid.lng[0], grid.lng[g.m - 1], grid.lat[0], grid.lat[g.n - 1], tmin, tmax, count, None::<fn(&usize, &f64) -> String>);
        json!({"op": "contours", "text": text, "unit": name, "sys": sys, "to": format!("{to:?}"), "count": count.unwrap_or(20), "lo": lo, "hi": hi,
            "min": opt(min), "max": opt(max), "got": opt(got.ok().map(|f| features(&f))), "plain": plain.map(|f| features(&f)).unwrap_or(json!([]))})
    }));
}

pub fn j02(log: &mut Log, rng: &mut Rng) {
    for s in log.scenarios() {
        let get = |k: &str| s[k].as_i64().unwrap();
        let (n, m) = (get("n") as usize, get("m") as usize);
        // Quarters of a step of a quarter of a degree
        let (step, q) = (192i64, 48i64);
        let down = s["down"] == json!(true);
        let south = rng.int(-60, 60) * 768;
        let west = s["west"] == json!(true);
        let first = if west { (get("start") - 4 * (m as i64 - 1)).rem_euclid(24) } else { get("start") };
        let lng0 = match first {
            0 => rng.int(-170, 340) * 768,
            5 => *rng.pick(&[FULL / 2, -FULL / 2]) - step,
            _ => *rng.pick(&[FULL, 0]) - step,
        };
        let (lng0, dlng) = if west { (lng0 + (m as i64 - 1) * step, -step) } else { (lng0, step) };
        let g = Grid { lat0: if down { south + (n as i64 - 1) * step } else { south }, dlat: if down { -step } else { step }, n, lng0, dlng, m };
        let mut vals = values(rng, n * m, false);
        if s["hole"] == json!(true) {
            vals[rng.below(n * m)] = NAN;
        }
        begin(log, &g, &vals, true);
        let msg = g.message(Some(&vals), Some("X"), None, "m");
        for tol in [0, q, 2 * q, 4 * q] {
            ask(log, rng, &g, &msg, south + get("i") * q, lng0 + dlng.signum() * get("j") * q, Some(tol), true);
        }
    }
    for _ in 0..log.n(250, 4000) {
        let exact = rng.chance(3, 4);
        let g = Grid::random(rng, exact);
        let gaps = rng.chance(1, 2);
        let vals = values(rng, g.n * g.m, gaps);
        let data = !rng.chance(1, 12);
        begin(log, &g, &vals, data);
        let msg = g.message(if data { Some(&vals) } else { None }, Some("X"), None, "m");
        for _ in 0..12 {
            let far = rng.chance(1, 6);
            let pick = |rng: &mut Rng, first: i64, d: i64, n: usize| {
                let s = d.abs() / 16;
                let span = (n as i64 - 1) * 16;
                if far {
                    // Outside, unless the other coordinate alone is
                    first + d.signum() * s * (if rng.chance(1, 2) { span + rng.int(1, 200) } else { 0 - rng.int(1, 200) })
                } else {
                    let k = match rng.below(4) {
                        0 => 16 * rng.int(0, n as i64 - 1),
                        1 => (8 * rng.int(0, 2 * (n as i64 - 1))).min(span),
                        _ => rng.int(0, span),
                    };
                    first + d.signum() * s * k
                }
            };
            let lat = pick(rng, g.lat0, g.dlat, g.n);
            let lng = pick(rng, g.lng0, g.dlng, g.m);
            if exact {
                let tol = Some(*rng.pick(&[0, 1, 3, 4, 8, 40]) * g.dlng.abs() / 4);
                ask(log, rng, &g, &msg, lat, lng, tol, true);
            } else if g.n > 1 && g.m > 1 {
                // Binary fractions miss: keep off edges, crossings and halves
                let lat = lat.clamp(g.lat0.min(g.lat0 + g.dlat * (g.n as i64 - 1)), g.lat0.max(g.lat0 + g.dlat * (g.n as i64 - 1)));
                let (a, b) = ((lat - g.lat0).abs() / 128, (lng - g.lng0).div_euclid(128));
                let inside = b >= 0 && b < g.m as i64 - 1;
                let lat = g.lat0 + g.dlat.signum() * (a.min(g.n as i64 - 2) * 128 + 8 * *rng.pick(&[1, 2, 3, 5, 7, 9, 11, 13, 15]));
                let lng = g.lng0 + b * 128 + 8 * *rng.pick(&[1, 3, 4, 6, 7, 9, 10, 12, 15]);
                let tol = rng.int(1, 300) * 2 + 1;
                ask(log, rng, &g, &msg, lat, lng, Some(tol), inside);
            }
        }
    }
    for _ in 0..log.n(150, 2000) {
        contours(log, rng);
    }
    log.finish();
}
