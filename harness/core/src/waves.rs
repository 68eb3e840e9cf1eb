use crate::util::*;
use serde_json::{json, Value};
use std::f64::consts::PI;
use surfrs::swell::Swell;
use surfrs::tools::math::scalar_from_uv;
use surfrs::tools::waves::*;
use surfrs::units::{Direction, UnitSystem};

fn wave(length: f64, period: i64, depth: f64) -> Value {
    let t = period as f64 / 10.0;
    json!({"hl": fx(depth / length, 100000.0), "lt": fx(length / (t * t), 10000.0), "length": fx(length, 100.0)})
}
fn of_number(k: f64, period: i64, depth: f64) -> Value {
    wave(2.0 * PI / k, period, depth)
}
fn length(period: i64, depth: i64) -> f64 {
    ldis(period as f64 / 10.0, depth as f64).unwrap_or(f64::NAN)
}
fn log_or(log: &mut Log, r: Result<Value, String>) {
    log.event(r.unwrap_or_else(|e| json!({"op": "panic", "what": e})));
}

fn along(log: &mut Log, name: String, waves: &[(i64, i64)]) {
    log.begin(name, json!({"waves": waves}));
    let r = guard(|| {
        let w: Vec<Value> = waves.iter().map(|(t, h)| wave(length(*t, *h), *t, *h as f64)).collect();
        json!({"op": "dispersed", "waves": w})
    });
    log_or(log, r);
}

fn near(log: &mut Log, name: String, period: i64, depth: i64) {
    log.begin(name, json!({"period": period, "depth": depth}));
    let r = guard(|| {
        let (t, h) = (period as f64 / 10.0, depth as f64);
        let (f, w) = (1.0 / t, 2.0 * PI / t);
        let (k, cg) = wavenu3(w, h);
        let l = wavelength(f, Some(h));
        json!({"op": "approximate", "eckart": of_number(k, period, h), "hunt": of_number(wavenuma(w, h), period, h),
            "wave": wave(l, period, h), "exact": wave(length(period, depth), period, h), "group": fx(cg * k / w, 10000.0),
            "speed": fx(celerity(f, Some(h)), 1000.0), "times": fx(l * f, 1000.0),
            "deepspeed": fx(celerity(f, None), 1000.0), "deeptimes": fx(wavelength(f, None) * f, 1000.0)})
    });
    log_or(log, r);
    for (hs, t) in [(0.5, 4.0), (2.0, 11.0), (period as f64 / 40.0, period as f64 / 10.0)] {
        let r = guard(|| json!({"op": "energy", "unit": fx(wave_energy(hs, t) / (hs * hs * t * t), 1000.0)}));
        log_or(log, r);
    }
}

fn swell(height: f64, period: i64, dir: i64) -> Swell {
    Swell::new(&UnitSystem::Metric, height, period as f64 / 10.0, Direction::from_degrees(dir as i32), None, None, None)
}
fn breaks(height: f64, period: i64, dir: i64, beach: i64, slope: f64, depth: i64) -> Option<f64> {
    estimate_breaking_wave_height(&swell(height, period, dir), beach as f64, slope, depth as f64).ok()
}

fn surf(log: &mut Log, rng: &mut Rng, name: String, dir: i64, beach: i64) {
    let period = rng.int(40, 200);
    let depth = rng.int(3, 60);
    let slope = rng.int(1, 10) as f64 / 100.0;
    let hl = guard(|| fx(depth as f64 / length(period, depth), 100000.0)).unwrap_or(NAN);
    log.begin(name, json!({"dir": dir, "beach": beach, "period": period, "depth": depth, "hl": hl}));
    let r = guard(|| {
        let list: Vec<Value> = [2, 5, 9, 14, 20, 33, 60, 100]
            .iter()
            .map(|x| match breaks(*x as f64 / 10.0, period, dir, beach, slope, depth) {
                Some(b) => json!({"height": x, "broken": fx(b, 1000.0), "ratio": fx(b / (*x as f64 / 10.0), 1000.0)}),
                None => json!({"height": 0, "broken": 0, "ratio": 0}),
            })
            .collect();
        json!({"op": "surf", "breaks": list})
    });
    log_or(log, r);
    // The same, turned or mirrored; the beach may be given in other turns
    let turns: Vec<i64> = (0..6).map(|_| rng.int(0, 359)).collect();
    let r = guard(|| {
        let mut all: Vec<Option<f64>> = vec![breaks(2.0, period, dir, beach, slope, depth)];
        for t in &turns {
            all.push(breaks(2.0, period, (dir + t) % 360, (beach + t) % 360, slope, depth));
        }
        all.push(breaks(2.0, period, (2 * beach - dir).rem_euclid(360), beach, slope, depth));
        all.push(breaks(2.0, period, dir, beach - 360, slope, depth));
        all.push(breaks(2.0, period, dir, beach + 360, slope, depth));
        json!({"op": "alike", "heights": all.iter().map(|x| x.map_or(-1, |x| fx(x, 10000.0))).collect::<Vec<_>>()})
    });
    log_or(log, r);
    // Where they break: over the depth that the slope of the beach has it
    for _ in 0..4 {
        let (h, angle) = (rng.int(3, 80), rng.int(0, 70));
        let steep = *rng.pick(&[0, 1, 5, 10, 20, 35, 60, 100, 150, 300, 1000, 3000]);
        let r = guard(|| {
            let (b, d) = break_wave(period as f64 / 10.0, angle as f64, h as f64 / 10.0, steep as f64 / 1000.0, depth as f64).ok().unwrap_or((f64::NAN, f64::NAN));
            let same = breaks(h as f64 / 10.0, period, (beach + angle) % 360, beach, steep as f64 / 1000.0, depth).unwrap_or(f64::NAN);
            json!({"op": "breaker", "slope": steep, "broken": fx(b, 1000.0), "same": fx(same, 1000.0), "index": fx(b / d, 10000.0), "in": fx(d, 1000.0)})
        });
        log_or(log, r);
    }
    // Straight and slanted onto depth contours
    for angle in [0, 10, 35, 60, 85, rng.int(0, 88)] {
        let r = guard(|| {
            let (k, a) = refraction_coefficient(length(period, depth), depth as f64, angle as f64);
            json!({"op": "refraction", "incident": angle, "angle": fx(a, 100.0), "sine": fx(a.to_radians().sin(), 10000.0),
                "coefficient": fx(k, 10000.0)})
        });
        log_or(log, r);
    }
    let r = guard(|| json!({"op": "shoaling", "coefficient": fx(shoaling_coefficient(length(period, depth), depth as f64), 1000.0)}));
    log_or(log, r);
}

pub fn p01(log: &mut Log, rng: &mut Rng) {
    // Of the two design models: periods with depths, and places of swell and beach
    for (i, s) in log.scenarios().iter().enumerate() {
        let of = |k: &str| s[k].as_i64();
        if let Some(t) = of("period") {
            let depths: Vec<i64> = s["depths"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
            along(log, format!("model-depths-{t}"), &depths.iter().map(|h| (t, *h)).collect::<Vec<_>>());
            for h in depths.iter().step_by(log.n(2, 3)) {
                near(log, format!("model-near-{t}-{h}"), t, *h);
            }
        } else if let (Some(d), Some(b)) = (of("dir"), of("beach")) {
            // Turned so that it lies across north, and not
            for turn in [0, 90, 170, 345] {
                surf(log, rng, format!("model-surf-{i}-{turn}"), (d + turn) % 360, (b + turn) % 360);
            }
        }
    }
    for i in 0..log.n(60, 600) {
        let t = rng.int(20, 300);
        let mut h: Vec<i64> = (0..12).map(|_| rng.int(1, *[6, 30, 200, 5000].get(i % 4).unwrap())).collect();
        h.extend([1, 5000]);
        h.sort();
        along(log, format!("depths-{i}"), &h.iter().map(|h| (t, *h)).collect::<Vec<_>>());
        let h = *rng.pick(&[1, 2, 4, 9, 15, 40, 120, 800, 5000]);
        let mut t: Vec<i64> = (0..12).map(|_| rng.int(20, 300)).collect();
        t.extend([20, 300]);
        t.sort();
        along(log, format!("periods-{i}"), &t.iter().map(|t| (*t, h)).collect::<Vec<_>>());
        let (t, top) = (rng.int(20, 300), *rng.pick(&[10, 100, 5000]));
        near(log, format!("near-{i}"), t, rng.int(1, top));
    }
    for i in 0..log.n(200, 3000) {
        let (d, b) = (rng.int(0, 359), rng.int(0, 359));
        let d = if rng.chance(2, 3) { (b + rng.int(-92, 92)).rem_euclid(360) } else { d };
        surf(log, rng, format!("surf-{i}"), d, b);
    }
    for i in 0..log.n(20, 200) {
        log.begin(format!("wind-{i}"), json!({}));
        for j in 0..40 {
            // In 1/10 m/s, also along the axes
            let top = *rng.pick(&[3, 60, 500]);
            let (mut u, mut v) = (rng.int(-top, top), rng.int(-top, top));
            match j {
                0 => (u, v) = (0, top),
                1 => (u, v) = (0, -top),
                2 => (u, v) = (top, 0),
                3 => (u, v) = (-top, 0),
                4 => (u, v) = (0, 0),
                _ => {}
            }
            let r = guard(|| {
                let (speed, from) = scalar_from_uv(u as f64 / 10.0, v as f64 / 10.0);
                json!({"op": "wind", "u": u, "v": v, "speed": fx(speed, 10.0), "from": from})
            });
            log_or(log, r);
        }
    }
    for i in 0..log.n(20, 200) {
        log.begin(format!("sea-{i}"), json!({}));
        for _ in 0..30 {
            // Energy and bandwidth whole, frequency in 1/100 Hz; height in 1/10 m, mean period in 1/10 s
            let (e, b, f) = (rng.int(0, 900), rng.int(0, 90), rng.int(1, 99));
            log_or(log, guard(|| json!({"op": "moments", "e": e, "b": b, "f": f, "zero": fx(zero_spectral_moment(e as f64, b as f64), 100.0),
                "second": fx(second_spectral_moment(e as f64, b as f64, f as f64 / 100.0), 1000.0)})));
            let (h, t) = (rng.int(1, 150), rng.int(20, 250));
            log_or(log, guard(|| {
                let m0 = (h as f64 / 40.0).powi(2);
                json!({"op": "steepness", "h": h, "t": t, "steep": fx(steepness_coefficient(m0, m0 * 100.0 / (t * t) as f64), 1e6)})
            }));
            let (d, hours) = (rng.int(100, 20000), rng.int(0, 48));
            log_or(log, guard(|| json!({"op": "dispersal", "km": d, "hours": hours, "up": fx(dfp_swell_sea(hours as f64 * 3600.0, d as f64 * 1000.0), 1e7)})));
            // A wind sea left alone for a while, and again, all at once; from its peak frequency in 1/1000 Hz
            let (u, p, one, two) = (rng.int(2, 30), rng.int(60, 400), rng.int(0, 48), rng.int(0, 48));
            log_or(log, guard(|| {
                let (u, p) = (u as f64, p as f64 / 1000.0);
                let (s1, s2) = (one as f64 * 900.0, two as f64 * 900.0);
                let a = dfp_wind_sea(u, p, s1, 1.0);
                let b = dfp_wind_sea(u, p + a, s2, 1.0);
                json!({"op": "growth", "none": fx(dfp_wind_sea(u, p, 0.0, 1.0), 1e7), "first": fx(a, 1e7), "then": fx(b, 1e7), "whole": fx(dfp_wind_sea(u, p, s1 + s2, 1.0), 1e7),
                    "half": fx(dfp_wind_sea(u, p, s1, 0.5), 1e7), "peak": fx(p, 1e7), "one": one, "two": two, "faster": fx(dfp_wind_sea(u * 2.0, p, s1, 1.0), 1e7)})
            }));
        }
    }
    // The sea of a given wind after a given while, however it began, follows the fetch laws
    for i in 0..log.n(5, 50) {
        log.begin(format!("growth-{i}"), json!({}));
        for _ in 0..20 {
            let (u, hours) = (rng.int(2, 30), rng.int(1, 72));
            log_or(log, guard(|| {
                // Long after a calm: from a very high peak frequency
                let p = 1000.0;
                let now = p + dfp_wind_sea(u as f64, p, hours as f64 * 3600.0, 1.0);
                json!({"op": "peak", "u": u, "hours": hours, "log": fx(now.ln(), 1e5), "lnu": fx((u as f64).ln(), 1e5), "lns": fx((hours as f64 * 3600.0).ln(), 1e5)})
            }));
        }
    }
}
