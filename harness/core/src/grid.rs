use crate::interp::Whole;
use crate::util::*;
use serde_json::json;
use surfrs::spectra::{SpectralAxis, Spectra};
use surfrs::units::direction::DirectionConvention;

const DEG: f64 = 180.0 / std::f64::consts::PI;

pub fn s01(log: &mut Log, rng: &mut Rng) {
    for i in 0..log.n(900, 12000) {
        // Now and then as many bins as a model has, or energies below nothing
        let large = i % 60 == 7;
        let negative = i % 12 == 5;
        let nk = if large { rng.int(30, 99) } else { rng.int(1, 6) };
        let nth = if large { *rng.pick(&[24, 36, 40, 72]) } else { rng.int(1, 9) };
        let mut f = vec![if i % 9 == 4 { rng.int(1, 29) } else { rng.int(30, 60) }];
        for _ in 1..nk {
            f.push(f[f.len() - 1] + rng.int(1, if large { 4 } else { 28 }));
        }
        let mut ds: Vec<i64> = if rng.chance(1, 2) { (0..nth).map(|k| k * 360 / nth).collect() } else { (0..nth).map(|_| rng.int(0, 359)).collect() };
        ds.sort();
        ds.dedup();
        let sparse = rng.chance(1, 3);
        let (least, most) = if negative { (-9, rng.int(-3, 9)) } else { (0, 9) };
        let e: Vec<i64> = (0..f.len() * ds.len()).map(|_| if sparse && rng.chance(2, 3) { 0 } else { rng.int(least, most) }).collect();
        let conv = rng.pick(&crate::partition::conventions()).clone();
        log.begin(format!("spectrum-{i}"), json!({"f": f, "ds": ds, "e": e, "conv": format!("{conv:?}")}));
        let make = |e: &[i64]| {
            Spectra::new(
                f.iter().map(|x| *x as f64 / 1000.0).collect(),
                ds.iter().map(|d| (*d as f64).to_radians()).collect(),
                e.iter().map(|x| *x as f64).collect(),
                conv.clone(),
            )
        };
        let s = make(&e);
        let whole = |v: f64| if v == v.trunc() { fx(v, 1.0) } else { NAN };
        let got = guard(|| {
            let (lo, hi) = s.energy_range();
            let at: Vec<Vec<i64>> = (0..ds.len()).map(|i| (0..f.len()).map(|k| whole(s.energy_at(k, i))).collect()).collect();
            json!({"op": "shape", "nk": s.nk(), "nth": s.nth(), "dk": fxs(&s.dk(), 1e6), "dth": s.dth().iter().map(|d| fx(d * DEG, 1000.0)).collect::<Vec<_>>(),
                "period": fxs(&s.period(), 1000.0), "range": [whole(lo), whole(hi)], "cells": s.energy_indices(), "at": at,
                "from": fxs(&s.direction_deg(), 100.0), "fromrad": s.direction_rad().iter().map(|d| fx(d * DEG, 100.0)).collect::<Vec<_>>(),
                "raw": s.direction_raw().iter().map(|d| fx(d * DEG, 100.0)).collect::<Vec<_>>()})
        });
        put(log, got);
        let oned = |s: &Spectra| {
            (
                s.oned(SpectralAxis::Frequency).iter().map(|v| fx(v * DEG, 1000.0)).collect::<Vec<_>>(),
                s.oned(SpectralAxis::Direction).iter().map(|v| fx(*v, 1e6)).collect::<Vec<_>>(),
            )
        };
        put(log, guard(|| {
            let (a, b) = oned(&s);
            json!({"op": "oned", "f": a, "d": b})
        }));
        for n in 0..3 {
            put(log, guard(|| {
                let unit = 1e3f64.powi(n + 1);
                json!({"op": "momf", "n": n, "got": fxs(&s.mom_f(n), unit)})
            }));
        }
        put(log, guard(|| json!({"op": "momfover", "got": fxs(&s.mom_f(-1), 1e6)})));
        if negative {
            continue;
        }
        let momd = |s: &Spectra, n: i32, second: bool| s.mom_d(n).iter().map(|m| fx(if second { m.1 } else { m.0 } * DEG, 1000.0)).collect::<Vec<_>>();
        put(log, guard(|| json!({"op": "momd", "one1": momd(&s, 1, false), "one2": momd(&s, 1, true), "zero1": momd(&s, 0, false), "zero2": momd(&s, 0, true), "two1": momd(&s, 2, false), "two2": momd(&s, 2, true)})));
        put(log, guard(|| json!({"op": "mean", "got": fxs(&s.mean_wave_direction_f(), 100.0)})));
        // Whatever the units of the energy are
        let unit = *rng.pick(&[1e-15, 1e-9, 1e-5, 1e7]);
        let other = s.energy.iter().map(|e| e * unit).collect();
        let other = Spectra::new(s.frequency.clone(), s.direction_raw(), other, conv.clone());
        put(log, guard(|| json!({"op": "mean", "got": fxs(&other.mean_wave_direction_f(), 100.0)})));
        // The powers of one frequency, and of the sine and cosine of one direction
        let (k, i) = (rng.below(f.len()), rng.below(ds.len()));
        let single = (0..s.energy.len()).map(|c| if c == k + i * f.len() { 1.0 } else { 0.0 }).collect();
        let single = Spectra::new(s.frequency.clone(), s.direction_raw(), single, conv.clone());
        if f.len() > 1 && ds.len() > 1 {
            put(log, guard(|| {
                let m: Vec<f64> = (-5..=9).map(|n| single.mom_f(n)[i]).collect();
                let d: Vec<(f64, f64)> = (0..=8).map(|n| single.mom_d(n)[k]).collect();
                let powers = fxs(&m.windows(2).map(|m| m[1] / m[0]).collect::<Vec<_>>(), 1e5);
                let ratio = |a: f64, b: f64| if b == 0.0 { 0 } else { fx(a / b, 1e4) };
                json!({"op": "powers", "k": k + 1, "i": i + 1, "got": powers,
                    "sines": d.windows(2).map(|m| ratio(m[1].0, m[0].0)).collect::<Vec<_>>(),
                    "cosines": d.windows(2).map(|m| ratio(m[1].1, m[0].1)).collect::<Vec<_>>()})
            }));
        }
        let a = rng.int(2, 7);
        let t = make(&e.iter().map(|e| e * a).collect::<Vec<_>>());
        put(log, guard(|| {
            let list = |s: &Spectra| -> Vec<i64> {
                let (mut v, w) = oned(s);
                v.extend(w);
                for n in [0, 1, 2] {
                    v.extend(momd(s, n, false));
                    v.extend(momd(s, n, true));
                    v.extend(fxs(&s.mom_f(n), 1e5));
                }
                v
            };
            json!({"op": "scaled", "a": a, "base": list(&s), "got": list(&t)})
        }));
        // All energy in one direction
        for i in 0..if large { 2 } else { ds.len() } {
            let lone: Vec<i64> = e.iter().enumerate().map(|(c, e)| if c / f.len() == i { *e } else { 0 }).collect();
            let has: Vec<bool> = (0..f.len()).map(|k| lone[k + i * f.len()] > 0 && ds.len() > 1).collect();
            let s = make(&lone);
            put(log, guard(|| json!({"op": "lone", "i": i + 1, "has": has, "got": fxs(&s.mean_wave_direction_f(), 100.0)})));
        }
    }
}

pub fn put(log: &mut Log, got: Result<serde_json::Value, String>) {
    log.event(got.unwrap_or_else(|w| json!({"op": "panic", "what": w})));
}

pub fn s02(log: &mut Log, rng: &mut Rng) {
    for i in 0..log.n(1200, 15000) {
        let mut w = if i % 40 == 9 { Whole::large(rng, 20) } else { Whole::random(rng, 20) };
        // Cells small enough for exact arithmetic
        let mut f = vec![w.f[0]];
        for _ in 1..w.f.len() {
            f.push(f[f.len() - 1] + rng.int(1, 100));
        }
        w.f = f;
        let mut order: Vec<usize> = (0..w.ds.len()).collect();
        match rng.below(6) {
            0 => order.reverse(),
            1 => order.rotate_left(rng.below(w.ds.len())),
            _ => {}
        }
        let w = w.reorder(&order);
        let conv = DirectionConvention::From;
        log.begin(format!("spectrum-{i}"), json!({"f": w.f, "ds": w.ds, "e": w.e}));
        let s = w.spectra(&conv);
        let (lo, hi) = (w.f[0], w.f[w.f.len() - 1]);
        let large = w.f.len() > 20;
        if large {
            for (k, x) in w.f.iter().enumerate() {
                for x in [*x, *x + 1] {
                    if x <= hi {
                        put(log, guard(|| json!({"op": "bins", "x": x, "k": s.closest_k(x as f64 / 10000.0)})));
                    }
                }
                put(log, guard(|| json!({"op": "axis", "xs": w.f, "i2": 2 * k + 1, "v": fx(s.ik(k as f64 + 0.5), 100000.0)})));
            }
            for k in 0..w.ds.len() {
                put(log, guard(|| json!({"op": "round", "xs": w.ds, "i2": 2 * k + 1, "v": fx(s.ith(k as f64 + 0.5) * DEG, 100.0)})));
            }
        }
        for j in 0..if large { 3 } else { 14 } {
            let x = if rng.chance(1, 3) { *rng.pick(&w.f) } else { rng.int(lo, hi) };
            let d = match rng.below(6) {
                0 => *rng.pick(&w.ds),
                1 => rng.int(-40, 40),
                2 => rng.int(3560, 3640),
                3 => *rng.pick(&w.ds) + *rng.pick(&[-1, 1, 3600, -3600]),
                _ => rng.int(0, 3599),
            };
            let (xf, df) = (x as f64 / 10000.0, (d as f64 / 10.0).to_radians());
            put(log, guard(|| json!({"op": "bins", "x": x, "k": s.closest_k(xf)})));
            put(log, guard(|| json!({"op": "dirs", "d": d, "th": s.closest_th(df)})));
            put(log, guard(|| json!({"op": "value", "x": x, "d": d, "v": fx(s.interp_energy(xf, df) / w.unit, 100.0)})));
            // Indexes in halves
            let i2 = rng.int(-1, 2 * w.f.len() as i64 + 1);
            put(log, guard(|| json!({"op": "axis", "xs": w.f, "i2": i2, "v": fx(s.ik(i2 as f64 / 2.0), 100000.0)})));
            if j % 2 == 0 {
                let i2 = rng.int(-1, 2 * w.ds.len() as i64 + 1);
                put(log, guard(|| json!({"op": "round", "xs": w.ds, "i2": i2, "v": fx(s.ith(i2 as f64 / 2.0) * DEG, 100.0)})));
            }
        }
    }
}
