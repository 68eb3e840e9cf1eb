use crate::record::CONVENTIONS;
use crate::util::*;
use geojson::{Feature, GeoJson};
use serde_json::{json, Value};
use surfrs::spectra::Spectra;
use surfrs::tools::contour::{compute_contours, compute_latlng_gridded_contours};
use surfrs::units::direction::DirectionConvention;

const MISSING: i64 = -1_000_000;

fn features(fs: &[Feature], scale: f64) -> Value {
    let list: Vec<Value> = fs
        .iter()
        .map(|f| {
            let number = |k: &str, scale: f64| f.property(k).and_then(|v| v.as_f64()).map_or(NAN, |v| fx(v, scale));
            let rings: Vec<Value> = match f.geometry.as_ref().map(|g| &g.value) {
                Some(geojson::Value::MultiPolygon(p)) => p
                    .iter()
                    .flatten()
                    .map(|r| json!(r.iter().map(|c| [fx(c[0], scale), fx(c[1], scale)]).collect::<Vec<_>>()))
                    .collect(),
                _ => vec![json!([])],
            };
            json!({"threshold": number("threshold", 10.0), "normalized": number("normalized", 10000.0),
                "label": f.property("label").and_then(|v| v.as_str()).unwrap_or("none"), "rings": rings})
        })
        .collect();
    json!(list)
}

fn label(i: &usize, v: &f64) -> String {
    format!("{i}:{}", fx(*v, 10.0))
}
type At = fn(&Vec<f64>) -> Vec<f64>;
type Words = fn(&usize, &f64) -> String;

fn labels(ts: &[i64]) -> Vec<String> {
    ts.iter().enumerate().map(|(i, t)| format!("{i}:{t}")).collect()
}

fn grid(log: &mut Log, rng: &mut Rng, name: String, w: usize, h: usize, data: &[i64], ts: &[i64]) {
    log.begin(name, json!({"w": w, "h": h, "data": data, "thresholds": ts}));
    // What the library itself puts in place of missing cells
    let d: Vec<f64> = data.iter().map(|v| if *v == MISSING { -99999.0 } else { *v as f64 / 10.0 }).collect();
    let t: Vec<f64> = ts.iter().map(|v| *v as f64 / 10.0).collect();
    let same: At = |p| p.clone();
    let words: Words = label;
    let got = guard(|| compute_contours(&d, w, h, &t, Some(same), Some(words)).map(|f| features(&f, 100.0)));
    let ok = matches!(got, Ok(Ok(_)));
    log.event(match got {
        Ok(Ok(f)) => json!({"op": "grid", "features": f, "labels": labels(ts)}),
        e => json!({"op": "panic", "what": format!("{e:?}")}),
    });
    if !ok {
        return;
    }
    let got = guard(|| compute_contours(&d, w, h, &t, None::<At>, Some(words)).map(|f| features(&f, 100.0)));
    log.event(match got {
        Ok(Ok(f)) => json!({"op": "asis", "features": f, "labels": labels(ts)}),
        e => json!({"op": "panic", "what": format!("{e:?}")}),
    });
    let m: Vec<i64> = (0..6).map(|_| rng.int(-4, 4)).collect();
    let turn = |p: &Vec<f64>| {
        vec![
            m[0] as f64 * p[0] + m[1] as f64 * p[1] + m[2] as f64,
            m[3] as f64 * p[0] + m[4] as f64 * p[1] + m[5] as f64,
        ]
    };
    let got = guard(|| compute_contours(&d, w, h, &t, Some(turn), None::<Words>).map(|f| features(&f, 100.0)));
    log.event(match got {
        Ok(Ok(f)) => json!({"op": "moved", "features": f, "by": m}),
        e => json!({"op": "panic", "what": format!("{e:?}")}),
    });
    // Data that is not w by h
    let got = guard(|| compute_contours(&d, w + 1, h, &t, Some(same), None::<Words>).is_err());
    log.event(json!({"op": "refused", "got": match got { Ok(true) => "error", Ok(false) => "contours", Err(_) => "panic" }}));
}

#[derive(Clone)]
struct Map {
    w: usize,
    h: usize,
    data: Vec<i64>,
    lng: [i64; 2],
    lat: [i64; 2],
    global: bool,
    around: i64,
    ts: Vec<i64>,
    /// Whether thresholds are given or found
    given: bool,
}

fn map(log: &mut Log, rng: &mut Rng, name: String, m: &Map) {
    // What is narrow is looked at closely: from its own west, in finer units
    let span = (m.lng[1] - m.lng[0]).abs();
    let fine = if m.global || span >= 2000 { 1 } else { (2000 + span - 1) / span };
    let (from, lng) = if fine == 1 { (0.0, m.lng) } else { (m.lng[0] as f64 / 100.0, [0, (m.lng[1] - m.lng[0]) * fine]) };
    let close = |mut fs: Vec<Feature>| {
        for f in fs.iter_mut() {
            if let Some(geojson::Value::MultiPolygon(p)) = f.geometry.as_mut().map(|g| &mut g.value) {
                for c in p.iter_mut().flatten().flatten() {
                    c[0] = (c[0] - from) * fine as f64;
                }
            }
        }
        fs
    };
    log.begin(
        name,
        json!({"w": m.w, "h": m.h, "data": m.data, "lng": lng, "lat": m.lat, "global": m.global, "around": m.around, "thresholds": m.ts}),
    );
    let d: Vec<f64> = m.data.iter().map(|v| if *v == MISSING { f64::NAN } else { *v as f64 / 10.0 }).collect();
    let n = m.ts.len();
    let (a, b) = (m.ts[0] as f64 / 10.0, m.ts[n - 1] as f64 / 10.0);
    let words: Words = label;
    let deg = |v: i64| v as f64 / 100.0;
    let got = guard(|| {
        compute_latlng_gridded_contours(
            d.clone(),
            m.w,
            m.h,
            deg(m.lng[0]),
            deg(m.lng[1]),
            deg(m.lat[0]),
            deg(m.lat[1]),
            if m.given { Some(a) } else { None },
            if m.given { Some(b) } else { None },
            if m.given || n != 20 { Some(n) } else { None },
            Some(words),
        )
        .map(|f| features(&close(f), 100.0))
    });
    // Where it goes around, the columns at the seam and some others
    let w = m.w + m.global as usize;
    let cells: Vec<[usize; 2]> = if m.global {
        let mut c = vec![];
        for j in 1..=m.h {
            for i in [1, 2, 3, w / 3, w / 2, w - 2, w - 1, w] {
                c.push([i, j]);
            }
            c.push([1 + rng.below(w), j]);
        }
        c
    } else {
        (1..=w).flat_map(|i| (1..=m.h).map(move |j| [i, j])).collect()
    };
    log.event(match got {
        Ok(Ok(f)) => json!({"op": "lnglat", "features": f, "labels": labels(&m.ts), "cells": cells}),
        e => json!({"op": "panic", "what": format!("{e:?}")}),
    });
}

fn bumps(rng: &mut Rng, w: usize, h: usize, missing: bool) -> Vec<i64> {
    (0..w * h)
        .map(|_| match rng.below(8) {
            0 if missing => MISSING,
            0..=3 => 0,
            _ => 10 * rng.int(0, 9),
        })
        .collect()
}

pub fn y01(log: &mut Log, rng: &mut Rng) {
    let scen = log.scenarios();
    let step = log.n(17, 24);
    for (i, s) in scen.iter().enumerate() {
        if i % step != 0 {
            continue;
        }
        let data: Vec<i64> = s["data"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
        let (w, h) = (s["w"].as_u64().unwrap() as usize, s["h"].as_u64().unwrap() as usize);
        grid(log, rng, format!("model-{i}"), w, h, &data, &[20, 60]);
        let m = Map { w, h, data, lng: [-7500, -6900], lat: [3900, 4500], global: false, around: 0, ts: vec![20, 60], given: true };
        map(log, rng, format!("modelmap-{i}"), &m);
    }
    for i in 0..log.n(40, 400) {
        let (w, h) = (1 + rng.below(8), 1 + rng.below(8));
        let data = bumps(rng, w, h, false);
        let mut ts: Vec<i64> = (0..10).map(|k| 10 * k + 5).collect();
        let keep = 2 + rng.below(6);
        while ts.len() > keep {
            let k = rng.below(ts.len());
            ts.remove(k);
        }
        grid(log, rng, format!("grid-{i}"), w, h, &data, &ts);
    }
    let even = |a: i64, b: i64, n: usize| (0..n as i64).map(|k| a + (b - a) * k / (n as i64 - 1)).collect::<Vec<_>>();
    for i in 0..log.n(60, 600) {
        let (w, h) = (2 + rng.below(8), 1 + rng.below(7));
        let data = bumps(rng, w, h, true);
        let (lo, hi) = *rng.pick(&[(-7500, -7000), (17000, 19000), (-1000, 1000), (35000, 37000), (0, 9000), (28000, 30000), (-18000, 17000), (-7050, -7000), (28010, 28030), (-20, 60), (17950, 18050), (1000, 1100)]);
        let mut lat = *rng.pick(&[[-1000, 2000], [3500, 4500], [-9000, 9000]]);
        if rng.chance(1, 2) {
            lat.reverse();
        }
        let given = rng.chance(2, 3);
        let mut data = data;
        let ts = if given {
            even(5, 85, 9)
        } else {
            // Nothing given: from the least to the greatest there is
            data[0] = 0;
            let last = data.len() - 1;
            data[last] = 190;
            even(0, 190, 20)
        };
        if data.iter().all(|v| *v == MISSING) {
            data[0] = 0;
        }
        let m = Map { w, h, data, lng: [lo, hi], lat, global: false, around: 0, ts, given };
        map(log, rng, format!("map-{i}"), &m);
    }
    // Many levels
    for i in 0..log.n(3, 20) {
        let (w, h) = (2 + rng.below(5), 1 + rng.below(5));
        let data = bumps(rng, w, h, false);
        let n = *rng.pick(&[21, 41, 81]);
        let ts = even(5, 85, n);
        let m = Map { w, h, data: data.clone(), lng: [-7500, -7000], lat: [3500, 4500], global: false, around: 0, ts: ts.clone(), given: true };
        map(log, rng, format!("levels-{i}"), &m);
        grid(log, rng, format!("levelgrid-{i}"), w, h, &data, &ts);
    }
    // All missing, with thresholds given
    let m = Map { w: 3, h: 3, data: vec![MISSING; 9], lng: [0, 3000], lat: [0, 3000], global: false, around: 0, ts: even(5, 85, 9), given: true };
    map(log, rng, "missing".into(), &m);
    for i in 0..log.n(6, 30) {
        // All the way round, by half degrees (or quarters)
        let (w, end) = if log.thorough && i % 3 == 0 { (1440, 35975) } else { (720, 35950) };
        let h = 2 + rng.below(2);
        let mut data = vec![0; w * h];
        for _ in 0..12 {
            let k = *rng.pick(&[0, 1, 2, w / 3, w / 2, w - 2, w - 1]) + w * rng.below(h);
            data[k] = *rng.pick(&[90, 40, MISSING, 70]);
        }
        let m = Map { w, h, data, lng: [0, end], lat: [-1500, 1500 * rng.int(0, 2)], global: true, around: 36000, ts: vec![20, 50, 80], given: true };
        map(log, rng, format!("globe-{i}"), &m);
    }
    for i in 0..log.n(4, 12) {
        // All but the way round
        let (w, h, gap) = (720, 2, *rng.pick(&[120, 140, 200, 300]));
        let mut data = vec![0; w * h];
        for _ in 0..12 {
            let k = *rng.pick(&[0, 1, 2, w / 2, w - 2, w - 1]) + w * rng.below(h);
            data[k] = *rng.pick(&[90, 40, MISSING, 70]);
        }
        let lo = *rng.pick(&[0, 1000, -18000]);
        let m = Map { w, h, data, lng: [lo, lo + 36000 - gap], lat: [-1500, 1500], global: false, around: 0, ts: vec![20, 50, 80], given: true };
        map(log, rng, format!("gap-{i}"), &m);
    }
    for i in 0..log.n(60, 500) {
        let (nk, nd) = (1 + rng.below(7), 2 + rng.below(8));
        let f: Vec<i64> = (0..nk).scan(30 + rng.int(0, 40), |x, _| {
            *x += rng.int(3, 40);
            Some(*x)
        })
        .collect();
        let conv = if rng.chance(1, 2) { DirectionConvention::From } else { rng.pick(&CONVENTIONS).clone() };
        // Directions in order, or wrapped as in the files, in either sense
        let gap = rng.int(1, 359 / nd as i64);
        let gap = if gap >= 180 { 120 } else { gap };
        let (start, sense) = match rng.below(3) {
            0 => (rng.int(0, 359 - gap * (nd as i64 - 1)), 1),
            1 => (rng.int(0, 359), 1),
            _ => (rng.int(0, 359), -1),
        };
        let ds: Vec<i64> = (0..nd as i64).map(|k| (start + sense * k * gap).rem_euclid(360)).collect();
        // Rough and calm seas; levels above a tenth and below
        let scale = *rng.pick(&[10, 10, 100, 1, 20000]);
        let e: Vec<i64> = (0..nk * nd).map(|_| rng.int(0, 9) * scale).collect();
        let mut e = e;
        e[0] = 0;
        let last = e.len() - 1;
        e[last] = e[last].max(scale);
        let calm = rng.chance(1, 4);
        // In 1/10; a calm sea is all below the first usual level
        let unit = if calm { 1e-5 } else { 0.1 };
        let top = *e.iter().max().unwrap();
        let s = Spectra::new(
            f.iter().map(|x| *x as f64 / 1000.0).collect(),
            ds.iter().map(|d| (*d as f64).to_radians()).collect(),
            e.iter().map(|x| *x as f64 * unit).collect(),
            conv.clone(),
        );
        // Thresholds are recorded in 1/1000 of the top
        let zoom = 100.0 / (top as f64 * unit);
        log.begin(
            format!("sea-{i}"),
            json!({"periods": f.iter().map(|f| fx(1000.0 / *f as f64, 100.0)).collect::<Vec<_>>(), "sense": sense,
                "dirs": ds.iter().map(|d| d * 100).collect::<Vec<_>>(), "conv": format!("{conv:?}"), "gap": gap * 100}),
        );
        let got = guard(|| {
            let g = s.contoured().map_err(|e| format!("{e:?}"))?;
            let GeoJson::FeatureCollection(c) = g else { return Err("no collection".to_string()) };
            let mut fs = c.features;
            let ts: Vec<f64> = fs.iter().map(|x| x.property("threshold").and_then(|v| v.as_f64()).unwrap_or(f64::NAN)).collect();
            for (x, t) in fs.iter_mut().zip(&ts) {
                x.set_property("threshold", t * zoom);
            }
            let same: At = |p| p.clone();
            let cells = compute_contours(&s.energy, s.nk(), s.nth(), &ts, Some(same), None::<Words>).map_err(|e| format!("{e:?}"))?;
            Ok(json!({"op": "sea", "features": features(&fs, 100.0), "cells": features(&cells, 100.0)}))
        });
        log.event(match got {
            Ok(Ok(e)) => e,
            e => json!({"op": "panic", "what": format!("{e:?}")}),
        });
    }
}
