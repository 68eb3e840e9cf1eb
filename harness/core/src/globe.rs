use crate::grid::put;
use crate::util::*;
use serde_json::json;
use surfrs::location::{absolute_longitude, normalize_latitude, normalize_longitude, Location};
use surfrs::units::UnitSystem;

/// Positions in eighths of a degree
fn at(lat: i64, lon: i64) -> Location {
    Location::new(lat as f64 / 8.0, lon as f64 / 8.0, "x".into())
}

fn ev(log: &mut Log, head: serde_json::Value, got: Result<serde_json::Value, String>) {
    put(
        log,
        got.map(|g| {
            let mut e = head;
            for (k, v) in g.as_object().unwrap() {
                e[k] = v.clone();
            }
            e
        }),
    );
}

fn boxed(log: &mut Log, w: i64, e: i64, s: i64, n: i64, lat: i64, lons: &[i64], absolute: bool) {
    // The sides north and south in either form too
    let side = |x: i64| if absolute && x < 0 { x + 1440 } else { x };
    let bbox = (w as f64 / 8.0, side(s) as f64 / 8.0, e as f64 / 8.0, side(n) as f64 / 8.0);
    ev(
        log,
        json!({"op": "box", "w": w, "e": e, "s": s, "n": n, "lat": lat, "lons": lons}),
        guard(|| json!({"got": lons.iter().map(|x| at(lat, *x).within_bbox(&bbox)).collect::<Vec<_>>()})),
    );
}

fn system(metric: bool) -> (UnitSystem, &'static str) {
    if metric {
        (UnitSystem::Metric, "Metric")
    } else {
        (UnitSystem::English, "English")
    }
}

fn form(rng: &mut Rng, lon: i64) -> i64 {
    if rng.chance(1, 2) {
        lon.rem_euclid(2880)
    } else {
        let m = lon.rem_euclid(2880);
        if m > 1440 {
            m - 2880
        } else {
            m
        }
    }
}

/// One distance, between places in eighths
fn dist(log: &mut Log, rng: &mut Rng, a: (i64, i64), b: (i64, i64), metric: bool) {
    let (us, name) = system(metric);
    let around = (a.1 - b.1).rem_euclid(2880);
    let around = around.min(2880 - around);
    // Along a meridian, over a pole, or along the equator
    let line = if around == 0 {
        json!([(a.0 - b.0).abs()])
    } else if around == 1440 {
        json!([1440 - (a.0 + b.0).abs()])
    } else if a.0 == 0 && b.0 == 0 {
        json!([around])
    } else if a.0.abs() == 720 || b.0.abs() == 720 {
        json!([(a.0 - b.0).abs()])
    } else {
        json!([])
    };
    let whole = [a.0, a.1, b.0, b.1].iter().all(|x| x % 8 == 0) && (a.0 - b.0) % 16 == 0 && (a.1 - b.1) % 16 == 0;
    let deg = if whole { json!([[a.0 / 8, a.1 / 8], [b.0 / 8, b.1 / 8]]) } else { json!([]) };
    let (fa, fb) = ((a.0, form(rng, a.1)), (b.0, form(rng, b.1)));
    ev(
        log,
        json!({"op": "dist", "a": [a.0, a.1], "b": [b.0, b.1], "u": name, "line": line, "deg": deg, "same": a.0 == b.0 && around == 0}),
        guard(|| {
            let d = at(a.0, a.1).distance(&at(b.0, b.1), &us);
            let km = if metric { json!([]) } else { json!([fx(at(a.0, a.1).distance(&at(b.0, b.1), &UnitSystem::Metric), 10.0)]) };
            json!({"d": fx(d, 10.0), "km": km, "back": fx(at(b.0, b.1).distance(&at(a.0, a.1), &us), 10.0), "form": fx(at(fa.0, fa.1).distance(&at(fb.0, fb.1), &us), 10.0)})
        }),
    );
}

pub fn l01(log: &mut Log, rng: &mut Rng) {
    log.begin("forms", json!({}));
    for lon in (-1440..2880).step_by(if log.thorough { 1 } else { 5 }).chain([-1439, -1, 0, 1, 1439, 1440, 1441, 2879]) {
        let x = lon as f64 / 8.0;
        ev(
            log,
            json!({"op": "lon", "lon": lon}),
            guard(|| {
                let l = at(10, lon);
                let r = [l.relative_longitude(), normalize_longitude(x)];
                let a = [l.absolute_longitude(), absolute_longitude(x)];
                json!({"rel": fxs(&r, 8.0), "abs": fxs(&a, 8.0), "back": fxs(&[normalize_longitude(a[1]), Location::new(1.0, a[0], "".into()).relative_longitude()], 8.0)})
            }),
        );
    }
    for lat in -719..=720 {
        let x = lat as f64 / 8.0;
        ev(
            log,
            json!({"op": "lat", "lat": lat}),
            guard(|| {
                let l = at(lat, 9);
                let a = l.absolute_latitude();
                json!({"rel": fxs(&[l.relative_latitude(), normalize_latitude(x)], 8.0), "abs": fx(a, 8.0),
                    "back": fxs(&[normalize_latitude(a), Location::new(a, 1.0, "".into()).relative_latitude()], 8.0)})
            }),
        );
    }
    // The boxes of the design model, with points on, beside and between its steps
    for (i, s) in log.scenarios().iter().enumerate() {
        let unit = 2880 / s["full"].as_i64().unwrap();
        let (w, e) = (s["w"].as_i64().unwrap() * unit, s["e"].as_i64().unwrap() * unit);
        if i % 25 == 0 {
            log.begin(format!("boxes-{i}"), json!({}));
        }
        let mut lons = vec![];
        for k in -(1440 / unit)..(2880 / unit) {
            lons.push(k * unit);
            lons.push(k * unit + rng.int(1, unit - 1));
        }
        lons.extend([w + 1, w - 1, e + 1, e - 1].iter().filter(|x| (-1440..2880).contains(*x)));
        boxed(log, w, e, -720, 720, rng.int(-720, 720), &lons, false);
        // Off the model's steps, with sides north and south
        let t = rng.int(-unit / 2, unit / 2);
        if e - w < 2880 && (-1440..2880).contains(&(w + t)) && (-1440..2880).contains(&(e + t)) {
            let (s, n) = (rng.int(-719, 719), rng.int(-719, 719));
            let (s, n) = (s.min(n), s.max(n));
            let any = rng.int(-719, 719);
            let lat = *rng.pick(&[s, n, (s - 1).max(-719), (n + 1).min(719), (s + n) / 2, any]);
            let lons: Vec<i64> = lons.iter().map(|x| (x + t).clamp(-1440, 2879)).collect();
            let absolute = rng.chance(1, 3);
            boxed(log, w + t, e + t, s, n, lat, &lons, absolute);
        }
    }
    // Distances
    let steps = [-90, -88, -60, -46, -30, -2, 0, 2, 14, 30, 44, 60, 72, 90];
    for (i, p) in steps.iter().enumerate() {
        log.begin(format!("distances-{i}"), json!({}));
        for q in steps {
            for dlon in [0, 2, 10, 36, 90, 136, 178, 180, 182, 270, 350, 358] {
                let lon = rng.int(-180, 359 - 358);
                dist(log, rng, (p * 8, lon * 8), (q * 8, (lon + dlon) * 8), rng_flip(i as i64 + q + dlon));
            }
        }
    }
    log.begin("distances-random", json!({}));
    for _ in 0..log.n(2500, 40000) {
        let a = (rng.int(-720, 720), rng.int(-1440, 2879));
        let b = match rng.below(6) {
            0 => (a.0, form(rng, a.1)),
            1 => (rng.int(-720, 720), form(rng, a.1)),
            2 => (rng.int(-720, 720), form(rng, a.1 + 1440)),
            3 => (-a.0, form(rng, a.1 + 1440)),
            4 => ((a.0 + rng.int(-9, 9)).clamp(-720, 720), (a.1 + rng.int(-9, 9)).clamp(-1440, 2879)),
            _ => (rng.int(-720, 720), rng.int(-1440, 2879)),
        };
        let equator = rng.chance(1, 8);
        let (a, b) = if equator { ((0, a.1), (0, b.1)) } else { (a, b) };
        let m = rng.chance(1, 2);
        dist(log, rng, a, b, m);
    }
    // Places on the far side of the globe, to the last digit
    log.begin("antipodes", json!({}));
    for _ in 0..log.n(600, 10000) {
        let (lat, lon) = (rng.float(-90.0, 90.0), rng.float(-180.0, 180.0));
        let (us, name) = system(rng.chance(1, 2));
        let over = if lon > 0.0 { lon - 180.0 } else { lon + 180.0 };
        ev(
            log,
            json!({"op": "antipode", "u": name}),
            guard(|| {
                let (a, b) = (Location::new(lat, lon, "a".into()), Location::new(-lat, over, "b".into()));
                json!({"d": fx(a.distance(&b, &us), 10.0), "back": fx(b.distance(&a, &us), 10.0)})
            }),
        );
    }
    // Latitudes below the equator counted up from 90
    for _ in 0..log.n(400, 5000) {
        let a = (rng.int(-719, 720), rng.int(-1440, 2879));
        let b = (rng.int(-719, 720), rng.int(-1440, 2879));
        let up = |p: (i64, i64)| (if p.0 < 0 { p.0 + 1440 } else { p.0 }, p.1);
        let us = UnitSystem::Metric;
        ev(
            log,
            json!({"op": "counted"}),
            guard(|| {
                let d = at(a.0, a.1).distance(&at(b.0, b.1), &us);
                let forms = [(up(a), b), (a, up(b)), (up(a), up(b))];
                json!({"d": fx(d, 10.0), "got": forms.iter().map(|(p, q)| fx(at(p.0, p.1).distance(&at(q.0, q.1), &us), 10.0)).collect::<Vec<_>>()})
            }),
        );
    }
    log.begin("triangles", json!({}));
    for _ in 0..log.n(2000, 30000) {
        let near = rng.chance(1, 2);
        let mut p: Vec<(i64, i64)> = (0..3).map(|_| (rng.int(-720, 720), rng.int(-1440, 2879))).collect();
        if near {
            for k in 1..3 {
                let (up, over) = (rng.int(-80, 80), rng.int(-80, 80));
                p[k] = ((p[0].0 + up).clamp(-720, 720), form(rng, p[0].1 + over));
            }
        }
        let metric = rng.chance(1, 2);
        let (us, _) = system(metric);
        let l: Vec<Location> = p.iter().map(|p| at(p.0, p.1)).collect();
        ev(
            log,
            json!({"op": "triangle", "p": p}),
            guard(|| json!({"d": (0..3).map(|k| fx(l[k].distance(&l[(k + 1) % 3], &us), 10.0)).collect::<Vec<_>>()})),
        );
    }
}

fn rng_flip(k: i64) -> bool {
    k % 2 == 0
}
