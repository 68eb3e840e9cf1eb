use crate::address::put;
use crate::met::{Rec};
use crate::util::*;
use chrono::{DateTime, Utc};
use serde_json::{json, Value};
use surfrs::data::meteorological_data_record::{MeteorologicalDataRecord, StdmetDataRecordCollection};
use surfrs::data::swden_wave_data_record::{SwdenWaveDataRecord, SwdenWaveDataRecordCollection};

/// Name, whether it holds whole numbers, what stands for no value
const STANDARD: [(&str, bool, i64); 13] = [
    ("wind_dir", true, 999),
    ("wind_spd", false, 99),
    ("gust", false, 99),
    ("wave_height", false, 99),
    ("dominant_wpd", false, 99),
    ("average_wpd", false, 99),
    ("mean_wave_dir", true, 999),
    ("air_pressure", false, 9999),
    ("air_temperature", false, 999),
    ("sea_surface_temperature", false, 999),
    ("dewpt_temperature", false, 999),
    ("visibility", false, 99),
    ("water_level", false, 99),
];
const SPECTRAL: [(&str, bool); 5] = [("spectral_wave_density", false), ("mean_wave_dir", true), ("principal_wave_dir", true), ("wave_spectrum_r1", false), ("wave_spectrum_r2", false)];

fn epoch(t: i64) -> Value {
    json!([t.div_euclid(86400), t.rem_euclid(86400)])
}
fn date(d: &DateTime<Utc>) -> Value {
    if d.timestamp_subsec_nanos() != 0 {
        return json!([]);
    }
    epoch(d.timestamp())
}

/// A DAP2 response: grids over time (and frequency), latitude and longitude. Values in 1/1000.
fn response(times: &[i64], freq: Option<&[i64]>, vars: &[(&str, bool, &[i64])]) -> Vec<u8> {
    let n = times.len();
    let mut dims = format!("[time = {n}]");
    let mut maps = format!("        Int32 time[time = {n}];\n");
    if let Some(f) = freq {
        dims.push_str(&format!("[frequency = {}]", f.len()));
        maps.push_str(&format!("        Float32 frequency[frequency = {}];\n", f.len()));
    }
    dims.push_str("[latitude = 1][longitude = 1]");
    maps.push_str("        Float32 latitude[latitude = 1];\n        Float32 longitude[longitude = 1];\n");
    let mut text = String::from("Dataset {\n");
    let mut data: Vec<u8> = vec![];
    let len = |data: &mut Vec<u8>, n: usize| {
        data.extend((n as u32).to_be_bytes());
        data.extend((n as u32).to_be_bytes());
    };
    for (name, whole, values) in vars {
        let kind = if *whole { "Int32" } else { "Float32" };
        text.push_str(&format!("    Grid {{\n     ARRAY:\n        {kind} {name}{dims};\n     MAPS:\n{maps}    }} {name};\n"));
        len(&mut data, values.len());
        for v in values.iter() {
            if *whole {
                data.extend(((v / 1000) as i32).to_be_bytes());
            } else {
                data.extend(((*v as f64 / 1000.0) as f32).to_be_bytes());
            }
        }
        len(&mut data, n);
        for t in times {
            data.extend((*t as i32).to_be_bytes());
        }
        if let Some(f) = freq {
            len(&mut data, f.len());
            for v in f {
                data.extend(((*v as f64 / 1000.0) as f32).to_be_bytes());
            }
        }
        for place in [40.5f32, -69.25] {
            len(&mut data, 1);
            data.extend(place.to_be_bytes());
        }
    }
    text.push_str("} data/stdmet/44008/44008h9999.nc;\n\nData:\n");
    let mut all = text.into_bytes();
    all.extend(data);
    all
}

fn standard(r: &MeteorologicalDataRecord) -> Value {
    let (date, tendency) = (date(&r.date), ofx(r.air_pressure_tendency.value, 1000.0));
    let m = Rec::Met(r.clone());
    let b = m.bearings();
    let n = m.numbers();
    let deg = |i: usize| (opt(b[i].value.as_ref().map(|d| d.degrees as i64 * 1000)), format!("{:?}", b[i].unit));
    let val = |i: usize| (ofx(n[i].value, 1000.0), format!("{:?}", n[i].unit));
    let all = [deg(0), val(0), val(1), val(2), val(3), val(4), deg(1), val(5), val(6), val(7), val(8), val(9), val(11)];
    json!({"date": date, "tendency": tendency, "values": all.iter().map(|a| a.0.clone()).collect::<Vec<_>>(), "units": all.iter().map(|a| a.1.clone()).collect::<Vec<_>>()})
}

fn spectral(r: &SwdenWaveDataRecord) -> Value {
    let all = [&r.energy_spectra, &r.mean_wave_direction, &r.primary_wave_direction, &r.first_polar_coefficient, &r.second_polar_coefficient].map(|v| fxs(v, 1000.0));
    json!({"date": date(&r.date), "freq": fxs(&r.frequency, 1000.0), "values": all})
}

fn read_standard(log: &mut Log, id: String, times: &[i64], vars: &[Vec<i64>], bytes: &[u8]) {
    log.begin(id, json!({"times": times.iter().map(|t| epoch(*t)).collect::<Vec<_>>(), "vars": vars}));
    put(log, guard(|| json!({"op": "standard", "records": StdmetDataRecordCollection::from_data(bytes).records().map(|r| standard(&r)).collect::<Vec<_>>()})));
}
fn read_spectral(log: &mut Log, id: String, times: &[i64], freq: &[i64], vars: &[Vec<i64>], bytes: &[u8]) {
    log.begin(id, json!({"times": times.iter().map(|t| epoch(*t)).collect::<Vec<_>>(), "freq": freq, "vars": vars}));
    put(log, guard(|| json!({"op": "spectral", "records": SwdenWaveDataRecordCollection::from_data(bytes).records().map(|r| spectral(&r)).collect::<Vec<_>>()})));
}

fn moments(rng: &mut Rng, n: usize) -> Vec<i64> {
    let mut t = rng.int(0, 1_900_000_000);
    (0..n).map(|_| {
        t += rng.int(1, 7200);
        t
    }).collect()
}

fn value(rng: &mut Rng, whole: bool, no: i64) -> i64 {
    if whole {
        return rng.int(0, 360) * 1000;
    }
    let v = match no {
        9999 => rng.int(9000, 10600) * 100,
        999 => rng.int(-300, 400) * 100,
        _ => rng.int(0, 4000) * 10,
    };
    // Next to what stands for no value, and what does for another variable
    match rng.below(12) {
        0 => no * 1000 - 100,
        1 => no * 1000 + 100,
        2 if no != 99 => 99_000,
        3 if no != 999 => 999_000,
        _ => v,
    }
}

/// Some times are like the one before, some hold nothing but zeros, or nothing at all
fn odd_times(rng: &mut Rng, vars: &mut [Vec<i64>], n: usize, k: usize, no: impl Fn(usize) -> i64) {
    if n == 0 || rng.chance(1, 2) {
        return;
    }
    for _ in 0..1 + rng.below(3) {
        let i = rng.below(n);
        let what = rng.below(4);
        // All the variables there, or just one of them
        let only = if rng.chance(1, 2) { Some(rng.below(vars.len())) } else { None };
        for (j, v) in vars.iter_mut().enumerate() {
            if only.map_or(false, |o| o != j) {
                continue;
            }
            for q in i * k..(i + 1) * k {
                v[q] = match what {
                    0 | 1 => 0,
                    2 if i > 0 => v[q - k],
                    _ => no(j),
                };
            }
        }
    }
}

fn some_standard(log: &mut Log, rng: &mut Rng, n: usize, mut gone: impl FnMut(&mut Rng, usize, usize) -> bool) {
    let times = moments(rng, n);
    let mut vars: Vec<Vec<i64>> = STANDARD.iter().enumerate()
        .map(|(j, (_, whole, no))| (0..n).map(|i| if gone(rng, j, i) { no * 1000 } else { value(rng, *whole, *no) }).collect()).collect();
    odd_times(rng, &mut vars, n, 1, |j| STANDARD[j].2 * 1000);
    let mut order: Vec<usize> = (0..13).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut order);
    }
    let list: Vec<_> = order.iter().map(|j| (STANDARD[*j].0, STANDARD[*j].1, vars[*j].as_slice())).collect();
    let bytes = response(&times, None, &list);
    read_standard(log, format!("standard-{}", log.sessions), &times, &vars, &bytes);
}

fn some_spectral(log: &mut Log, rng: &mut Rng, n: usize, k: usize, mut gone: impl FnMut(&mut Rng, usize, usize) -> bool) {
    let times = moments(rng, n);
    let mut f = rng.int(20, 40);
    let freq: Vec<i64> = (0..k).map(|_| {
        f += rng.int(3, 20);
        f
    }).collect();
    let high = *rng.pick(&[100, 60_000, 900_000]);
    let mut vars: Vec<Vec<i64>> = SPECTRAL.iter().enumerate()
        .map(|(j, (_, whole))| (0..n * k).map(|i| if gone(rng, j, i) { 999_000 } else if *whole { rng.int(0, 360) * 1000 } else { rng.int(0, if j == 0 { high } else { 60_000 }) }).collect()).collect();
    odd_times(rng, &mut vars, n, k, |_| 999_000);
    let mut order: Vec<usize> = (0..5).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut order);
    }
    let list: Vec<_> = order.iter().map(|j| (SPECTRAL[*j].0, SPECTRAL[*j].1, vars[*j].as_slice())).collect();
    let bytes = response(&times, Some(&freq), &list);
    read_spectral(log, format!("spectral-{}", log.sessions), &times, &freq, &vars, &bytes);
}

/// The same data as the server gives it in text
fn ascii(text: &str, name: &str) -> Vec<i64> {
    let mut out = vec![];
    let mut on = false;
    for line in text.lines() {
        if line.starts_with(&format!("{name}[")) {
            on = true;
        } else if on && line.trim().is_empty() {
            break;
        } else if on {
            let line = line.rsplit_once("], ").map(|x| x.1).unwrap_or(line);
            for v in line.split(',') {
                let v: f64 = v.trim().parse().unwrap();
                out.push((v * 1000.0).round() as i64);
            }
        }
    }
    out
}

fn real(log: &mut Log) {
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let get = |n: &str| std::fs::read(format!("{repo}/mock/{n}"));
    if let (Ok(bytes), Ok(text)) = (get("44008h9999.stdmet.nc.dods"), get("44008h9999.stdmet.nc.txt")) {
        let text = String::from_utf8_lossy(&text).to_string();
        let vars: Vec<Vec<i64>> = STANDARD.iter().map(|(n, _, _)| ascii(&text, &format!("{n}.{n}"))).collect();
        let times: Vec<i64> = ascii(&text, "gust.time").iter().map(|t| t / 1000).collect();
        read_standard(log, "44008h9999.stdmet.nc.dods".into(), &times, &vars, &bytes);
    }
    if let (Ok(bytes), Ok(text)) = (get("44097w9999.swden.nc.dods"), get("44097w9999.swden.nc.txt")) {
        let text = String::from_utf8_lossy(&text).to_string();
        let vars: Vec<Vec<i64>> = SPECTRAL.iter().map(|(n, _)| ascii(&text, &format!("{n}.{n}"))).collect();
        let times: Vec<i64> = ascii(&text, "spectral_wave_density.time").iter().map(|t| t / 1000).collect();
        let freq = ascii(&text, "spectral_wave_density.frequency");
        read_spectral(log, "44097w9999.swden.nc.dods".into(), &times, &freq, &vars, &bytes);
    }
}

pub fn m02(log: &mut Log, rng: &mut Rng) {
    real(log);
    let scenarios = log.scenarios();
    // A third of them in turn unless there is the time
    let part = if log.thorough { 1 } else { 3 };
    let from = rng.below(part);
    for s in scenarios.iter().skip(from).step_by(part) {
        let (n, k) = (s["times"].as_u64().unwrap() as usize, s["freqs"].as_u64().unwrap() as usize);
        let gone: Vec<(usize, usize)> = s["gone"].as_array().unwrap().iter().map(|g| (g[0].as_u64().unwrap() as usize - 1, g[1].as_u64().unwrap() as usize - 1)).collect();
        // Which of the variables those of the model are
        let at = rng.below(13);
        if k == 1 {
            some_standard(log, rng, n, |_, j, i| gone.iter().any(|(a, b)| (a * 4 + at) % 13 == j && *b == i));
        }
        some_spectral(log, rng, n, k, |_, j, i| gone.iter().any(|(a, b)| (a + at) % 5 == j && *b == i));
    }
    for _ in 0..log.n(150, 3000) {
        let n = rng.below(30);
        let p = rng.below(4) as u64;
        some_standard(log, rng, n, |r, _, _| r.chance(p, 4));
    }
    for _ in 0..log.n(40, 600) {
        let (n, k) = (rng.below(8), *rng.pick(&[1, 5, 46, 47, 64]));
        some_spectral(log, rng, n, k, |r, _, _| r.chance(1, 5));
    }
    // A month or more of hourly observations
    let (n, m) = (log.n(800, 3000), log.n(200, 700));
    some_standard(log, rng, n, |r, _, _| r.chance(1, 6));
    some_spectral(log, rng, m, 47, |r, _, _| r.chance(1, 50));
    log.finish();
}
