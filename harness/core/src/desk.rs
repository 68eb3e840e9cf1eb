//! One forecast file gone about in every way: read whole or in parts, converted, stored as JSON,
//! summarised, filtered, followed through time.
use crate::grid::put;
use crate::util::*;
use chrono::{DateTime, Utc};
use serde_json::{json, Value};
use std::f64::consts::PI;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::spectra::SpectralAxis;
use surfrs::swell::{Swell, SwellProvider, SwellSummary};
use surfrs::tools::waves::track_partitions;
use surfrs::units::{UnitConvertible, UnitSystem};

/// 0.mmmE+ee
fn e10(v: f64) -> String {
    if v < 1e-3 {
        return "0.000E+00".into();
    }
    let mut ex = v.log10().floor() as i32 + 1;
    let mut m = (v / 10f64.powi(ex) * 1000.0).round() as i64;
    if m == 1000 {
        m = 100;
        ex += 1;
    }
    format!("0.{m:03}E{}{:02}", if ex < 0 { '-' } else { '+' }, ex.abs())
}

fn block(v: &[f64], per: usize, gap: &str) -> String {
    v.chunks(per).map(|c| c.iter().map(|x| format!("{gap}{}", e10(*x))).collect::<String>() + "\n").collect()
}

struct File {
    head: String,
    records: Vec<String>,
    dates: Vec<i64>,
    depths: Vec<i64>,
    step: i64,
}

fn make(rng: &mut Rng, n: usize) -> File {
    let nf = rng.int(6, 20) as usize;
    let nd = *rng.pick(&[8usize, 12, 18, 24]);
    let f: Vec<f64> = (0..nf).map(|i| 0.04 * 1.12f64.powi(i as i32)).collect();
    let d: Vec<f64> = (0..nd).map(|i| (PI * 0.5 - 0.1 - 2.0 * PI * i as f64 / nd as f64).rem_euclid(2.0 * PI)).collect();
    let head = format!("'WAVEWATCH III SPECTRA'     {nf:2}    {nd:2}     1 'spectral resolution for points'\n{}{}", block(&f, 8, " "), block(&d, 7, "  "));
    let step = *rng.pick(&[60, 60, 180, 30, 1]);
    let mut at = rng.int(26_000_000, 30_000_000);
    let calm = rng.chance(1, 8);
    // Swells that turn, shift and fade from one record to the next
    let mut swells: Vec<[f64; 5]> = (0..rng.int(1, 5))
        .map(|_| [rng.float(0.0, nf as f64), if rng.chance(1, 3) { rng.float(-1.0, 1.0) } else { rng.float(0.0, nd as f64) }, rng.float(0.6, 2.0), rng.float(0.6, 2.5), rng.float(0.05, 20.0)])
        .collect();
    if rng.chance(1, 4) {
        // Seen from behind too
        let mut m = swells[0];
        m[1] += nd as f64 / 2.0;
        m[4] *= 0.6;
        swells.push(m);
    }
    let (mut records, mut dates, mut depths) = (vec![], vec![], vec![]);
    for r in 0..n {
        let depth = 10 * rng.int(50, 6000);
        let date = DateTime::<Utc>::from_timestamp(at * 60, 0).unwrap();
        dates.push(at);
        depths.push(depth);
        at += step;
        let nothing = calm && r % 2 == 1;
        let mut e = vec![0.0; nf * nd];
        for w in &swells {
            for i in 0..nf * nd {
                let x = (i % nf) as f64 - w[0];
                let y = ((i / nf) as f64 - w[1]).rem_euclid(nd as f64);
                let y = y.min(nd as f64 - y);
                e[i] += w[4] * (-(x * x) / (2.0 * w[2] * w[2]) - y * y / (2.0 * w[3] * w[3])).exp();
            }
        }
        if nothing {
            e.iter_mut().for_each(|x| *x = 0.0);
        }
        records.push(format!(
            "{}\n'44097     '  40.97 -71.13{:10.1}{:7.2}{:6.1}{:7.2}{:6.1}\n{}",
            date.format("%Y%m%d %H%M%S"),
            depth as f64 / 100.0,
            rng.int(0, 3500) as f64 / 100.0,
            rng.int(0, 3599) as f64 / 10.0,
            rng.int(0, 200) as f64 / 100.0,
            rng.int(0, 3599) as f64 / 10.0,
            block(&e, 7, " ")
        ));
        for w in swells.iter_mut() {
            w[0] += rng.float(-0.3, 0.6);
            w[1] += rng.float(-0.5, 0.5);
            w[4] *= rng.float(0.6, 1.4);
        }
        if rng.chance(1, 6) {
            swells.remove(0);
        }
        if swells.is_empty() || rng.chance(1, 6) {
            let w = [rng.float(0.0, nf as f64), rng.float(0.0, nd as f64), rng.float(0.6, 2.0), rng.float(0.6, 2.5), rng.float(0.05, 20.0)];
            let at = rng.below(swells.len() + 1);
            swells.insert(at, w);
        }
    }
    File { head, records, dates, depths, step }
}

fn facts(w: &Swell, feet: bool) -> Value {
    let hs = w.wave_height.value.unwrap_or(f64::NAN) * if feet { 0.3048 } else { 1.0 };
    json!({"id": w.partition.map(|p| p as i64).unwrap_or(-1), "hs": fx(hs, 1e4), "tp": fx(w.period.value.unwrap_or(f64::NAN), 1000.0),
        "dir": w.direction.value.as_ref().map(|d| d.degrees as i64).unwrap_or(-1), "energy": fx(w.energy.as_ref().and_then(|e| e.value).unwrap_or(f64::NAN), 10.0)})
}

fn told(w: &SwellSummary, feet: bool) -> Value {
    let unit = format!("{:?}", w.summary.wave_height.unit);
    json!({"summary": facts(&w.summary, feet), "swells": w.components.iter().map(|c| facts(c, feet)).collect::<Vec<_>>(),
        "all": w.components.iter().all(|c| format!("{:?}", c.wave_height.unit) == unit)})
}

type Record = ForecastSpectralWaveDataRecord;

struct Desk {
    file: File,
    batches: Vec<Vec<Record>>,
    english: Vec<bool>,
}

impl Desk {
    fn reading(&self, b: usize) -> Value {
        let v = &self.batches[b];
        let units: std::collections::BTreeSet<String> = v.iter().map(|r| format!("{:?}", r.depth.unit)).collect();
        json!({"dates": v.iter().map(|r| r.date.timestamp() / 60).collect::<Vec<_>>(), "refs": v.iter().map(|r| r.reference_date.timestamp() / 60).collect::<Vec<_>>(),
            "depths": v.iter().map(|r| fx(r.depth.value.unwrap_or(f64::NAN), 100.0)).collect::<Vec<_>>(), "unit": units.into_iter().collect::<Vec<_>>().join(" and ")})
    }
    fn with(&self, b: usize, op: &str, x: i64, y: i64) -> Value {
        let mut v = self.reading(b);
        v["op"] = json!(op);
        v["b"] = json!(b + 1);
        v["x"] = json!(x);
        v["y"] = json!(y);
        v
    }
    fn open(&mut self, x: i64, y: i64) -> Value {
        let text = self.file.head.clone() + &self.file.records[x as usize - 1..y as usize].concat();
        let v: Vec<Record> = ForecastSpectralWaveDataRecordCollection::from_data(&text).records().unwrap().1.collect();
        self.batches.push(v);
        self.english.push(false);
        self.with(self.batches.len() - 1, "open", x, y)
    }
    fn does(&mut self, rng: &mut Rng, op: &str, b: usize, x: i64, y: i64) -> Value {
        let b = b.wrapping_sub(1);
        match op {
            "open" => self.open(x, y),
            "convert" => {
                let u = if x == 1 { UnitSystem::English } else { UnitSystem::Metric };
                self.batches[b].iter_mut().for_each(|r| {
                    r.to_units(&u);
                });
                self.english[b] = x == 1;
                self.with(b, "convert", x, y)
            }
            "store" => {
                // One by one or all at once
                self.batches[b] = if rng.chance(1, 2) {
                    serde_json::from_str(&serde_json::to_string(&self.batches[b]).unwrap()).unwrap()
                } else {
                    self.batches[b].iter().map(|r| serde_json::from_value(serde_json::to_value(r).unwrap()).unwrap()).collect()
                };
                self.with(b, "store", x, y)
            }
            "tell" | "feet" | "keep" => {
                let mut w = self.batches[b][x as usize - 1].swell_data().map_err(|e| e.to_string()).unwrap();
                let feet = op == "feet";
                if feet {
                    w.to_units(&UnitSystem::English);
                }
                if op == "keep" {
                    let id = |c: &Swell| c.partition.map(|p| p as i64).unwrap_or(-1);
                    return json!({"op": op, "b": b + 1, "x": x, "ids": w.components.iter().map(id).collect::<Vec<_>>(), "kept": w.filtered_components().iter().map(id).collect::<Vec<_>>(),
                        "printed": w.components.iter().map(|c| json!({"period": c.period.to_string(), "dir": opt(c.direction.value.as_ref().map(|d| d.degrees as i64))})).collect::<Vec<_>>()});
                }
                json!({"op": op, "b": b + 1, "x": x, "units": format!("{:?}", w.summary.wave_height.unit), "told": told(&w, feet)})
            }
            "apart" => {
                // Each swell on its own, without the rest of the sea
                let r = &self.batches[b][x as usize - 1];
                let map = r.spectra.partition(100, None).map_err(|_| "no partition").unwrap();
                let w = r.swell_data().map_err(|e| e.to_string()).unwrap();
                let each: Vec<Value> = w
                    .components
                    .iter()
                    .map(|c| {
                        let mut alone = r.clone();
                        alone.spectra = surfrs::spectra::Spectra::from_component(&r.spectra, &map, c.partition.unwrap() as i32);
                        let d = |v: &Option<surfrs::units::Direction>| v.as_ref().map(|d| d.radian());
                        told(&alone.spectra.swell_data(r.depth.value, r.wind_speed.value, d(&r.wind_direction.value), &map).map_err(|e| e.to_string()).unwrap(), false)
                    })
                    .collect();
                json!({"op": op, "b": b + 1, "x": x, "each": each})
            }
            "follow" => {
                let english = y == 1;
                let input: Vec<(DateTime<Utc>, Vec<Swell>)> = self.batches[b][..x as usize]
                    .iter()
                    .map(|r| {
                        let mut w = r.swell_data().map_err(|e| e.to_string()).unwrap();
                        if english {
                            w.to_units(&UnitSystem::English);
                        }
                        (r.date, w.components)
                    })
                    .collect();
                let (max, w) = (30i64, 5i64);
                let distance = (w as f64 / 100.0) * (self.file.step * 60) as f64 * 9.81 / (4.0 * PI);
                let got = track_partitions(&input, max as f64, distance);
                let bare = |s: &Swell| {
                    let mut s = s.clone();
                    s.partition = None;
                    format!("{s:?}")
                };
                let same = got.len() == input.len() && got.iter().zip(&input).all(|(g, i)| g.len() == i.1.len() && g.iter().zip(&i.1).all(|(a, b)| bare(a) == bare(b)));
                let ids = |v: &[Swell]| v.iter().map(|s| s.partition.map(|p| p as i64).unwrap_or(-1)).collect::<Vec<_>>();
                let steps: Vec<Value> = got
                    .iter()
                    .map(|g| json!({"ids": ids(g), "cur": g.iter().map(|s| json!({"dir": s.direction.value.as_ref().map(|d| d.degrees as i64).unwrap_or(-1), "per": fx(s.period.value.unwrap_or(f64::NAN), 100.0)})).collect::<Vec<_>>()}))
                    .collect();
                json!({"op": op, "b": b + 1, "x": x, "max": max, "w": w, "steps": steps, "own": ids(&input[0].1), "same": same})
            }
            _ => {
                let s = &self.batches[b][x as usize - 1].spectra;
                let (lo, hi) = s.energy_range();
                let mut view = vec![fx(lo, 1e4), fx(hi, 1e4)];
                view.extend(fxs(&s.oned(SpectralAxis::Frequency), 1e4));
                view.extend(fxs(&s.oned(SpectralAxis::Direction), 1e4));
                let picture = s.project_cartesian(&s.energy, 20, Some(25.0), None);
                view.extend(fxs(&picture, 1e4));
                json!({"op": "look", "b": b + 1, "x": x, "view": view})
            }
        }
    }
}

fn begin(log: &mut Log, id: String, file: &File) {
    log.begin(id, json!({"dates": file.dates, "depths": file.depths}));
}

pub fn o01(log: &mut Log, rng: &mut Rng) {
    let every = log.n(12, 1);
    let start = rng.below(every);
    for (i, sc) in log.scenarios().iter().enumerate() {
        if i % every != start {
            continue;
        }
        let mut desk = Desk { file: make(rng, sc["n"].as_u64().unwrap() as usize), batches: vec![], english: vec![] };
        begin(log, format!("way-{i}"), &desk.file);
        let g = |o: &Value, k: &str| o[k].as_i64().unwrap();
        for o in sc["ops"].as_array().unwrap() {
            put(log, guard(|| desk.does(rng, o["op"].as_str().unwrap(), g(o, "b") as usize, g(o, "x"), g(o, "y"))));
        }
    }
    for i in 0..log.n(500, 6000) {
        let n = rng.int(1, 8) as usize;
        let mut desk = Desk { file: make(rng, n), batches: vec![], english: vec![] };
        begin(log, format!("desk-{i}"), &desk.file);
        for _ in 0..rng.int(4, 14) {
            let k = desk.batches.len();
            let (mut op, mut b, mut x, mut y) = ("open", k + 1, rng.int(1, n as i64), 0);
            y = y.max(rng.int(x, n as i64));
            if k == 0 && rng.chance(1, 2) {
                (x, y) = (1, n as i64);
            }
            if k > 0 && (k > 3 || rng.chance(4, 5)) {
                op = *rng.pick(&["tell", "tell", "follow", "follow", "keep", "feet", "look", "apart", "store", "convert"]);
                b = rng.below(k) + 1;
                x = rng.int(1, desk.batches[b - 1].len().max(1) as i64);
                y = rng.int(0, 1);
                if op == "convert" {
                    x = y;
                }
            }
            put(log, guard(|| desk.does(rng, op, b, x, y)));
        }
    }
    log.finish();
}
