use crate::grid::put;
use crate::util::*;
use serde_json::json;
use surfrs::dimensional_data::DimensionalData;
use surfrs::spectra::Spectra;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{Direction, UnitSystem};

struct Sea {
    f: Vec<i64>,
    ds: Vec<i64>,
    step: i64,
    unit: f64,
    conv: DirectionConvention,
}

impl Sea {
    fn random(rng: &mut Rng) -> Sea {
        let nk = rng.int(3, 8);
        let nth = *rng.pick(&[2, 3, 4, 5, 6, 8, 9, 10, 12]);
        let mut f = vec![rng.int(300, 900)];
        for _ in 1..nk {
            let last = f[f.len() - 1];
            f.push(last + if rng.chance(1, 3) { last / 10 } else { rng.int(20, 500) });
        }
        let step = if rng.chance(1, 4) { rng.int(5, 360 / nth) } else { 360 / nth };
        let from = rng.int(0, 359 - step * (nth - 1));
        let ds = (0..nth).map(|i| from + i * step).collect();
        Sea { f, ds, step, unit: *rng.pick(&[1.0, 0.1, 0.37, 50.0, 1.0, 0.37, 0.001]), conv: rng.pick(&crate::partition::conventions()).clone() }
    }
    fn spectra(&self, e: &[i64]) -> Spectra {
        Spectra::new(
            self.f.iter().map(|f| *f as f64 / 10000.0).collect(),
            self.ds.iter().map(|d| (*d as f64).to_radians()).collect(),
            e.iter().map(|e| *e as f64 * self.unit).collect(),
            self.conv.clone(),
        )
    }
    /// A height as the square it stands for, over the bin width
    fn square(&self, hs: f64) -> f64 {
        hs * hs / (16.0 * (self.step as f64).to_radians()) / self.unit
    }
}

fn value(d: &DimensionalData<f64>) -> f64 {
    d.value.unwrap_or(f64::NAN)
}

fn facts(sea: &Sea, w: &Swell) -> serde_json::Value {
    let (hs, tp) = (value(&w.wave_height), value(&w.period));
    let e = w.energy.as_ref().and_then(|e| e.value).unwrap_or(f64::NAN);
    let sd = w.spectral_density.as_ref().and_then(|e| e.value).unwrap_or(f64::NAN);
    json!({"id": w.partition.map(|p| p as i64).unwrap_or(-1), "h2": fx(sea.square(hs), 1e6), "tp": fx(tp, 1000.0),
        "dir": w.direction.value.as_ref().map(|d| d.degrees as i64).unwrap_or(-1), "hs": fx(hs, 1e4),
        "sd": fx(sd / sea.unit / (sea.step as f64).to_radians(), 1000.0),
        "energy": fx(e, 10.0), "ratio": fx(e / (hs * hs * tp * tp), 1e6),
        "units": format!("{:?} {:?} {:?}", w.wave_height.unit, w.period.unit, w.energy.as_ref().map(|e| e.unit.clone()))})
}

pub fn h01(log: &mut Log, rng: &mut Rng) {
    for i in 0..log.n(900, 15000) {
        let sea = Sea::random(rng);
        let (nk, nth) = (sea.f.len(), sea.ds.len());
        let n = nk * nth;
        let e: Vec<i64> = match rng.below(5) {
            0 => (0..n).map(|_| rng.int(0, 20)).collect(),
            1 => (0..n).map(|_| if rng.chance(2, 3) { 0 } else { rng.int(1, 20) }).collect(),
            2 => vec![0; n],
            _ => crate::partition::bumps(rng, nk, nth, 20.0),
        };
        let s = sea.spectra(&e);
        let (lab, parts): (Vec<i32>, usize) = match rng.below(3) {
            0 => match guard(|| s.partition(100, None)) {
                Ok(Ok(v)) => v,
                _ => (vec![0; n], 0),
            },
            1 => {
                let p = if rng.chance(1, 6) { rng.int(10, 40) } else { rng.int(0, 5) };
                ((0..n).map(|_| rng.int(0, p) as i32).collect(), p as usize)
            }
            _ => {
                // By direction sectors or by frequency bands, some of them empty
                let (p, by) = (rng.int(1, 6), rng.chance(1, 2));
                let pick: Vec<i32> = (0..nk.max(nth)).map(|_| rng.int(1, p) as i32).collect();
                ((0..n).map(|c| pick[if by { c % nk } else { c / nk }]).collect(), p as usize)
            }
        };
        log.begin(format!("sea-{i}"), json!({"f": sea.f, "ds": sea.ds, "e": e, "lab": lab, "parts": parts, "conv": format!("{:?}", sea.conv),
            "limit": fx(sea.square(0.1), 1e6)}));
        let weather = |rng: &mut Rng| {
            (
                if rng.chance(1, 2) { Some(rng.float(3.0, 400.0)) } else { None },
                if rng.chance(2, 3) { Some(rng.float(0.0, 30.0)) } else { None },
                if rng.chance(2, 3) { Some(rng.float(0.0, 360.0)) } else { None },
            )
        };
        let map = (lab.clone(), parts);
        for _ in 0..2 {
            let (depth, speed, dir) = weather(rng);
            put(log, guard(|| {
                let w: SwellSummary = s.swell_data(depth, speed, dir, &map).map_err(|e| e.to_string()).unwrap();
                json!({"op": "summary", "summary": facts(&sea, &w.summary),
                    "components": w.components.iter().map(|c| facts(&sea, c)).collect::<Vec<_>>(),
                    "total": opt(w.summary.energy.as_ref().and_then(|e| e.value).map(|e| fx(e, 10.0)))})
            }));
        }
        if parts > 0 {
            let p = rng.int(1, parts as i64) as i32;
            let other: Vec<i64> = e.iter().zip(&lab).map(|(x, l)| if *l == p { *x } else { rng.int(0, 20) }).collect();
            // Cells of others may change hands too
            let hands: Vec<i32> = lab.iter().map(|l| if *l == p { p } else { let q = rng.int(0, parts as i64) as i32; if q == p { 0 } else { q } }).collect();
            let (depth, speed, dir) = weather(rng);
            put(log, guard(|| {
                let of = |s: &Spectra, m: &(Vec<i32>, usize)| {
                    let w = s.swell_data(depth, speed, dir, m).map_err(|e| e.to_string()).unwrap();
                    let mut all: Vec<String> = w.components.iter().filter(|c| c.partition == Some(p as usize)).map(|c| format!("{c:?}")).collect();
                    all.sort();
                    all.join(" and ")
                };
                json!({"op": "alone", "before": of(&s, &map), "after": of(&sea.spectra(&other), &(hands.clone(), parts))})
            }));
        }
    }
    log.finish();
}

fn swell(tag: i64, period: Option<f64>, dir: Option<i64>) -> Swell {
    let mut w = Swell::new(&UnitSystem::Metric, tag as f64, period.unwrap_or(0.0), Direction::from_degrees(dir.unwrap_or(0) as i32), None, None, Some(tag as usize));
    w.period.value = period;
    if dir.is_none() {
        w.direction.value = None;
    }
    w
}

fn filter(log: &mut Log, list: &[(Option<f64>, Option<i64>)]) {
    let components: Vec<Swell> = list.iter().enumerate().map(|(i, (p, d))| swell(i as i64 + 1, *p, *d)).collect();
    let s = SwellSummary { summary: swell(0, Some(1.0), Some(1)), components: components.clone() };
    let all: Vec<_> = list.iter().zip(&components).map(|((_, d), c)| json!({"period": c.period.to_string(), "dir": opt(*d)})).collect();
    log.begin(format!("filter-{}", log.sessions), json!({"components": all}));
    put(log, guard(|| {
        let kept = s.filtered_components();
        let same = kept.iter().all(|k| {
            let tag = k.wave_height.value.unwrap_or(0.0) as usize;
            tag >= 1 && tag <= components.len() && format!("{k:?}") == format!("{:?}", components[tag - 1])
        });
        json!({"op": "filtered", "kept": kept.iter().map(|k| k.wave_height.value.unwrap_or(0.0) as i64).collect::<Vec<_>>(), "same": same})
    }));
    put(log, guard(|| {
        let mut f: Vec<i64> = s.probable_false_components().iter().map(|i| *i as i64 + 1).collect();
        f.sort();
        json!({"op": "false", "list": f})
    }));
    // In other units it is the same summary, all of it
    put(log, guard(|| {
        use surfrs::units::UnitConvertible;
        let mut e = s.clone();
        e.to_units(&UnitSystem::English);
        let seen = |w: &Swell| json!({"h": fx(w.wave_height.value.unwrap_or(f64::NAN), 1000.0), "unit": format!("{:?}", w.wave_height.unit),
            "rest": format!("{:?} {:?} {:?}", w.period, w.direction, w.partition)});
        let was = |w: &Swell| format!("{:?} {:?} {:?}", w.period, w.direction, w.partition);
        let mut f: Vec<i64> = e.probable_false_components().iter().map(|i| *i as i64 + 1).collect();
        f.sort();
        json!({"op": "english", "list": f, "components": e.components.iter().map(seen).collect::<Vec<_>>(), "summary": seen(&e.summary),
            "was": components.iter().map(was).collect::<Vec<_>>()})
    }));
}

pub fn h02(log: &mut Log, rng: &mut Rng) {
    log.begin("made", json!({"components": []}));
    for (name, units) in [("metric", UnitSystem::Metric), ("english", UnitSystem::English), ("knots", UnitSystem::Knots), ("kelvin", UnitSystem::Kelvin)] {
        put(log, guard(|| {
            let w = Swell::new(&units, 1.25, 9.5, Direction::from_degrees(85), Some(2.5), Some(3.5), Some(4));
            let u = |d: &Option<DimensionalData<f64>>| d.as_ref().map(|d| format!("{:?} {:?}", d.unit, d.value)).unwrap_or_default();
            let bare = Swell::new(&units, 1.25, 9.5, Direction::from_degrees(85), None, None, None);
            json!({"op": "made", "system": name, "height": format!("{:?} {:?}", w.wave_height.unit, w.wave_height.value), "period": format!("{:?} {:?}", w.period.unit, w.period.value),
                "direction": format!("{:?} {:?}", w.direction.unit, w.direction.value.as_ref().map(|d| d.degrees)), "density": u(&w.spectral_density), "energy": u(&w.energy),
                "part": w.partition.map(|p| p as i64).unwrap_or(-1), "bare": bare.spectral_density.is_none() && bare.energy.is_none() && bare.partition.is_none()})
        }));
    }
    // Every list of the design model
    for s in log.scenarios() {
        let list: Vec<_> = s["list"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| {
                let p = match c["period"].as_str().unwrap() {
                    "none" => None,
                    "a" => Some(12.0),
                    _ => Some(7.5),
                };
                let d = c["dir"].as_array().unwrap().first().map(|d| d.as_i64().unwrap());
                (p, d)
            })
            .collect();
        filter(log, &list);
    }
    for _ in 0..log.n(3000, 60000) {
        let n = if rng.chance(1, 6) { rng.int(10, 24) } else { rng.int(0, 9) };
        let groups = rng.int(1, 4);
        let base = rng.int(0, 359);
        let list: Vec<_> = (0..n)
            .map(|_| {
                let p = match rng.below(12) {
                    0 => None,
                    1 => Some(rng.float(2.0, 20.0)),
                    // The same once printed
                    2 => Some(8.0 + groups as f64 + rng.float(-0.02, 0.02)),
                    _ => Some(8.0 + rng.int(1, groups) as f64),
                };
                let d = match rng.below(6) {
                    0 => None,
                    1 => Some(rng.int(0, 359)),
                    2 => Some(base),
                    _ => Some((base + 180 + rng.int(-13, 13)) % 360),
                };
                (p, d)
            })
            .collect();
        filter(log, &list);
    }
    log.finish();
}

fn of_record(sea: &Sea, w: &SwellSummary) -> serde_json::Value {
    json!({"summary": facts(sea, &w.summary), "components": w.components.iter().map(|c| facts(sea, c)).collect::<Vec<_>>(),
        "total": opt(w.summary.energy.as_ref().and_then(|e| e.value).map(|e| fx(e, 10.0)))})
}

pub fn h03(log: &mut Log, rng: &mut Rng) {
    use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
    use surfrs::data::forecast_spectral_wave_data_record::ForecastSpectralWaveDataRecord;
    use surfrs::location::Location;
    use surfrs::swell::SwellProvider;
    use surfrs::units::{Unit, UnitConvertible};
    let date = chrono::DateTime::<chrono::Utc>::from_timestamp(1_700_000_000, 0).unwrap();
    for i in 0..log.n(700, 9000) {
        let sea = Sea::random(rng);
        let (nk, nth) = (sea.f.len(), sea.ds.len());
        let n = nk * nth;
        let e: Vec<i64> = match rng.below(7) {
            0 => (0..n).map(|_| rng.int(0, 20)).collect(),
            1 => (0..n).map(|_| if rng.chance(2, 3) { 0 } else { rng.int(1, 20) }).collect(),
            2 => vec![rng.int(0, 1); n],
            3 => {
                // The same sea from either side
                let one = crate::partition::bumps(rng, nk, nth, 20.0);
                (0..n).map(|c| one[c] + one[(c + (nth / 2) * nk) % n] / 2).collect()
            }
            _ => crate::partition::bumps(rng, nk, nth, 20.0),
        };
        let s = sea.spectra(&e);
        let q = |name: &str, v: Option<f64>, unit: Unit| DimensionalData { value: v, variable_name: name.into(), unit };
        let d = |v: Option<i64>| DimensionalData { value: v.map(|v| Direction::from_degrees(v as i32)), variable_name: "direction".into(), unit: Unit::Degrees };
        let depth = if rng.chance(2, 3) { Some(rng.float(3.0, 4000.0)) } else { None };
        let speed = if rng.chance(2, 3) { Some(rng.float(0.0, 40.0)) } else { None };
        let from = if rng.chance(2, 3) { Some(rng.int(0, 359)) } else { None };
        let buoy = DirectionalSpectralWaveDataRecord { date, spectra: s.clone() };
        let point = ForecastSpectralWaveDataRecord {
            date,
            reference_date: date,
            location: Location::new(40.0, -71.0, "p".into()),
            depth: q("depth", depth, Unit::Meters),
            wind_speed: q("wind speed", speed, Unit::MetersPerSecond),
            wind_direction: d(from),
            current_speed: q("current speed", Some(0.5), Unit::MetersPerSecond),
            current_direction: d(Some(90)),
            spectra: s.clone(),
        };
        log.begin(format!("record-{i}"), json!({"f": sea.f, "ds": sea.ds, "e": e, "conv": format!("{:?}", sea.conv), "limit": fx(sea.square(0.1), 1e6)}));
        for kind in ["buoy", "point"] {
            let told = |u: Option<UnitSystem>| -> Result<SwellSummary, String> {
                if kind == "buoy" {
                    return buoy.swell_data().map_err(|e| e.to_string());
                }
                let mut p = point.clone();
                if let Some(u) = u {
                    p.to_units(&u);
                }
                p.swell_data().map_err(|e| e.to_string())
            };
            put(log, guard(|| {
                let map = s.partition(100, if kind == "buoy" { Some(0.8) } else { None });
                match (told(None), map) {
                    (Ok(w), Ok(map)) => {
                        let (z, v, t) = if kind == "buoy" { (None, None, None) } else { (depth, speed, from.map(|d| (d as f64).to_radians())) };
                        let own = s.swell_data(z, v, t, &map).map_err(|e| e.to_string()).unwrap();
                        let mut x = of_record(&sea, &w);
                        x["op"] = json!("record");
                        x["kind"] = json!(kind);
                        x["lab"] = json!(map.0);
                        x["parts"] = json!(map.1);
                        x["own"] = json!(format!("{own:?}") == format!("{w:?}"));
                        x["english"] = json!(told(Some(UnitSystem::English)).map(|e| format!("{e:?}")) == Ok(format!("{w:?}")));
                        x["printed"] = json!(w.components.iter().map(|c| json!({"period": c.period.to_string(), "dir": opt(c.direction.value.as_ref().map(|d| d.degrees as i64))})).collect::<Vec<_>>());
                        x["kept"] = json!(w.filtered_components().iter().map(|c| c.partition.map(|p| p as i64).unwrap_or(-1)).collect::<Vec<_>>());
                        x
                    }
                    (a, b) => json!({"op": "refused", "record": a.is_err(), "spectrum": b.is_err(), "text": a.err().unwrap_or_default()}),
                }
            }));
        }
    }
    log.finish();
}
