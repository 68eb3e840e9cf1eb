use crate::util::*;
use serde_json::json;
use surfrs::tools::{analysis, math, vector};

fn ints(rng: &mut Rng, len: usize, lo: i64, hi: i64) -> Vec<i64> {
    (0..len).map(|_| rng.int(lo, hi)).collect()
}

fn record(log: &mut Log, op: &str, args: serde_json::Value, got: Result<serde_json::Value, String>) {
    let mut e = args;
    e["op"] = json!(op);
    match got {
        Ok(v) => {
            e["ok"] = json!(true);
            e["got"] = v;
        }
        Err(w) => {
            e["ok"] = json!(false);
            e["what"] = json!(w);
        }
    }
    log.event(e);
}

fn sorting(log: &mut Log, data: &[i64]) {
    let keys: Vec<i64> = data.to_vec();
    record(log, "argsort", json!({"data": data}), guard(|| json!(vector::argsort(&keys))));
    let floats: Vec<f64> = data.iter().map(|v| *v as f64 / 4.0).collect();
    record(log, "argsort", json!({"data": data}), guard(|| json!(vector::argsort_partial(&floats))));
    let bytes: Vec<u8> = data.iter().map(|v| (*v).rem_euclid(256) as u8).collect();
    record(log, "argsort", json!({"data": bytes}), guard(|| json!(vector::argsort(&bytes))));
}

fn differences(log: &mut Log, data: &[i64]) {
    record(log, "diff", json!({"data": data}), guard(|| json!(vector::diff(data))));
    let floats: Vec<f64> = data.iter().map(|v| *v as f64 / 8.0).collect();
    record(log, "diff", json!({"data": data}), guard(|| json!(fxs(&vector::diff(&floats), 8.0))));
    record(log, "diffabs", json!({"data": data}), guard(|| json!(fxs(&vector::diff_abs(&floats), 8.0))));
}

fn peaks(log: &mut Log, data: &[i64], delta: i64) {
    let floats: Vec<f64> = data.iter().map(|v| *v as f64 / 4.0).collect();
    let d = delta as f64 / 4.0;
    record(
        log,
        "peaks",
        json!({"data": data, "delta": delta}),
        guard(|| {
            let (mins, maxs) = analysis::detect_peaks(&floats, d);
            json!({"mins": mins, "maxs": maxs})
        }),
    );
}

/// Entries out of `missing` are NaN
fn extremes(log: &mut Log, data: &[i64], missing: &[bool]) {
    let mut floats: Vec<f64> = data.iter().zip(missing).map(|(v, m)| if *m { f64::NAN } else { *v as f64 / 4.0 }).collect();
    let coded: Vec<i64> = fxs(&floats, 4.0);
    record(
        log,
        "minmax",
        json!({"data": coded}),
        guard(|| {
            let (a, b) = vector::min_max(&floats);
            json!({"min": fx(a, 4.0), "max": fx(b, 4.0)})
        }),
    );
    record(
        log,
        "minmaxfill",
        json!({"data": coded, "fill": -39996}),
        guard(|| {
            let (a, b) = vector::min_max_fill(&mut floats, -9999.0);
            json!({"min": fx(a, 4.0), "max": fx(b, 4.0), "after": fxs(&floats, 4.0)})
        }),
    );
}

/// Sky high and bottomless entries
fn endless(log: &mut Log, rng: &mut Rng) {
    let mut floats: Vec<f64> = (0..rng.int(1, 8)).map(|_| rng.int(-40, 40) as f64 / 4.0).collect();
    for _ in 0..rng.int(1, 2) {
        let k = rng.below(floats.len());
        floats[k] = *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]);
    }
    let coded: Vec<i64> = fxs(&floats, 4.0);
    record(
        log,
        "minmax",
        json!({"data": coded}),
        guard(|| {
            let (a, b) = vector::min_max(&floats);
            json!({"min": fx(a, 4.0), "max": fx(b, 4.0)})
        }),
    );
    record(
        log,
        "minmaxfill",
        json!({"data": coded, "fill": -39996}),
        guard(|| {
            let (a, b) = vector::min_max_fill(&mut floats, -9999.0);
            json!({"min": fx(a, 4.0), "max": fx(b, 4.0), "after": fxs(&floats, 4.0)})
        }),
    );
    // Next to what stands for missing (in 1/1000), but not it
    let m = *rng.pick(&[99000, 999000, 9999000, -9999000]);
    let a = m + *rng.pick(&[-1000, -100, -10, -1, 0, 1, 10, 100]);
    record(
        log,
        "missing",
        json!({"v": a, "m": m}),
        guard(|| json!(math::is_some_missing(a as f64 / 1000.0, m as f64 / 1000.0).map(|x| vec![fx(x, 1000.0)]).unwrap_or_default())),
    );
    record(log, "equal", json!({"v": a, "m": m}), guard(|| json!(math::f_eq(a as f64 / 1000.0, m as f64 / 1000.0))));
}

/// Values and bounds in 1/16; the edges come back in 1/1000
fn binning(log: &mut Log, data: &[i64], min: i64, max: i64, bins: u8) {
    let floats: Vec<f64> = data.iter().map(|v| *v as f64 / 16.0).collect();
    let (lo, hi) = (min as f64 / 16.0, max as f64 / 16.0);
    record(
        log,
        "bin",
        json!({"data": data.iter().map(|v| v * 625).collect::<Vec<_>>(), "min": min * 625, "max": max * 625, "bins": bins}),
        guard(|| {
            let b = vector::bin(&floats, &lo, &hi, &bins);
            let edge = vector::unbin(&b, &lo, &hi, &bins);
            let again = vector::bin(&edge.iter().map(|e| e + (hi - lo) * 1e-9).collect::<Vec<_>>(), &lo, &hi, &bins);
            json!({"bin": b, "edge": fxs(&edge, 10000.0), "again": again})
        }),
    );
}

fn blends(log: &mut Log, rng: &mut Rng) {
    // Corners in 1/16, positions in 1/64 of the cell
    let v: Vec<i64> = ints(rng, 4, -1600, 1600);
    let f: Vec<f64> = v.iter().map(|x| *x as f64 / 16.0).collect();
    let (x0, y0) = (rng.int(-50, 50) as f64, rng.int(-50, 50) as f64);
    let (dx, dy) = (*rng.pick(&[1.0, 0.25, 16.0, -2.0]), *rng.pick(&[1.0, 0.5, 8.0, -1.0]));
    let (i, j) = (rng.int(0, 64), rng.int(0, 64));
    let (x, y) = (x0 + dx * i as f64 / 64.0, y0 + dy * j as f64 / 64.0);
    record(
        log,
        "lerp",
        json!({"v": v, "i": i}),
        guard(|| json!(fx(analysis::lerp(&f[0], &f[1], &x, &x0, &(x0 + dx)), 16.0 * 64.0))),
    );
    record(
        log,
        "bilerp",
        json!({"v": v, "i": i, "j": j}),
        guard(|| {
            json!(fx(
                analysis::bilerp(&f[0], &f[1], &f[2], &f[3], &x, &x0, &(x0 + dx), &y, &y0, &(y0 + dy)),
                16.0 * 4096.0
            ))
        }),
    );
    let (a, m) = (rng.int(-999, 9999), *rng.pick(&[999, 9999, -9999]));
    let a = if rng.chance(1, 3) { m } else { a };
    record(
        log,
        "missing",
        json!({"v": a, "m": m}),
        guard(|| json!(math::is_some_missing(a as f64, m as f64).map(|x| vec![fx(x, 1.0)]).unwrap_or_default())),
    );
}

fn all(log: &mut Log, rng: &mut Rng, data: &[i64]) {
    sorting(log, data);
    differences(log, data);
    for delta in [0, 1, 2, 5] {
        peaks(log, data, delta);
    }
    let none = vec![false; data.len()];
    extremes(log, data, &none);
    let some: Vec<bool> = data.iter().map(|_| rng.chance(1, 3)).collect();
    extremes(log, data, &some);
    let every = vec![true; data.len()];
    extremes(log, data, &every);
}

pub fn run(log: &mut Log, rng: &mut Rng) {
    // Everything of up to 5 entries over 0..3 (thorough: 6)
    let most = log.n(5, 6);
    for len in 0..=most {
        let count = 4usize.pow(len as u32);
        for k in 0..count {
            let data: Vec<i64> = (0..len).map(|i| ((k >> (2 * i)) & 3) as i64 - 1).collect();
            log.begin(format!("small-{len}-{k}"), json!({}));
            if len <= 4 {
                all(log, rng, &data);
            } else {
                peaks(log, &data, 0);
                peaks(log, &data, 1);
                sorting(log, &data);
            }
        }
    }
    for i in 0..log.n(300, 3000) {
        log.begin(format!("random-{i}"), json!({}));
        let len = rng.int(1, 80) as usize;
        let spread = *rng.pick(&[1, 3, 20, 4000]);
        let data = ints(rng, len, -spread, spread);
        all(log, rng, &data);
        let delta = rng.int(0, spread);
        peaks(log, &data, delta);
        let min = rng.int(-800, 800);
        let max = min + rng.int(1, 1600);
        let mut within = ints(rng, 30, min, max);
        within.push(min);
        within.push(max);
        let bins = *rng.pick(&[255u8, 1, 2, 10, 100, 254, 7]);
        binning(log, &within, min, max, bins);
        for _ in 0..4 {
            endless(log, rng);
            blends(log, rng);
        }
    }
}
