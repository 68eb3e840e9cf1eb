use crate::util::*;
use serde_json::json;
use surfrs::spectra::Spectra;
use surfrs::tools::analysis::{nearest_neighbors, watershed};
use surfrs::units::direction::DirectionConvention;

pub fn conventions() -> [DirectionConvention; 3] {
    [DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met]
}

pub fn axes(nk: usize, nth: usize) -> (Vec<f64>, Vec<f64>) {
    let f = (0..nk).map(|i| 0.04 * 1.1f64.powi(i as i32)).collect();
    let d = (0..nth).map(|i| (i as f64) * 2.0 * std::f64::consts::PI / nth as f64).collect();
    (f, d)
}

type Labels = Result<(Vec<i32>, usize), String>;

fn call(rng: &mut Rng, w: usize, h: usize, data: &[f64], levels: usize, blur: Option<f32>) -> Labels {
    let through = rng.chance(1, 2);
    let r = guard(|| {
        if through {
            let (f, d) = axes(w, h);
            Spectra::new(f, d, data.to_vec(), DirectionConvention::From).partition(levels, blur)
        } else {
            watershed(data, w, h, levels, blur)
        }
    });
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(_)) => Err("refused".into()),
        Err(w) => Err(format!("panic: {w}")),
    }
}

/// Swells: sums of bumps around the circle, as whole energies up to `top`
pub fn bumps(rng: &mut Rng, w: usize, h: usize, top: f64) -> Vec<i64> {
    let k = rng.int(1, 5);
    let mut v = vec![0.0; w * h];
    for b in 0..k {
        let cx = rng.float(0.0, w as f64);
        // Often across north
        let cy = if b == 0 { rng.float(-1.0, 1.0) } else { rng.float(0.0, h as f64) };
        let (sx, sy) = (rng.float(0.4, w as f64 / 3.0 + 0.5), rng.float(0.4, h as f64 / 5.0 + 0.5));
        let a = rng.float(0.2, 1.0);
        for c in 0..w * h {
            let dx = (c % w) as f64 - cx;
            let mut dy = ((c / w) as f64 - cy).rem_euclid(h as f64);
            dy = dy.min(h as f64 - dy);
            v[c] += a * (-(dx * dx) / (2.0 * sx * sx) - dy * dy / (2.0 * sy * sy)).exp();
        }
    }
    let m = v.iter().copied().fold(0.0, f64::max).max(1e-9);
    v.iter().map(|x| (x / m * top).round() as i64).collect()
}

/// A plateau one cell wide wandering through lower ground, two peaks at one of its ends
pub fn corridor(rng: &mut Rng, w: usize, h: usize) -> Vec<i64> {
    let mut v = vec![0i64; w * h];
    let row = rng.below(h);
    for c in 0..w {
        v[row * w + c] = 3;
    }
    let end = if rng.chance(1, 2) { 0 } else { w - 1 };
    let (a, b) = ((row + 1) % h, (row + h - 1) % h);
    v[a * w + end] = 5;
    v[b * w + end] = if rng.chance(1, 2) { 5 } else { 4 };
    if rng.chance(1, 3) {
        for c in v.iter_mut() {
            *c += rng.int(0, 20) / 20;
        }
    }
    v
}

fn terrain(rng: &mut Rng, w: usize, h: usize) -> Vec<i64> {
    match rng.below(8) {
        0 => (0..w * h).map(|_| rng.int(0, 1)).collect(),
        1 => (0..w * h).map(|_| rng.int(0, 3)).collect(),
        2 => (0..w * h).map(|_| rng.int(0, 9)).collect(),
        3 => (0..w * h).map(|_| rng.int(0, 500)).collect(),
        4 => {
            let m = rng.int(2, 9);
            (0..w * h).map(|c| ((c % w) as i64 * m + (c / w) as i64) % (m + 1)).collect()
        }
        5 => corridor(rng, w, h),
        _ => {
            let top = *rng.pick(&[5.0, 30.0, 999.0]);
            bumps(rng, w, h, top)
        }
    }
}

fn size(rng: &mut Rng, most: i64) -> (usize, usize) {
    match rng.below(6) {
        0 => (rng.int(1, 3) as usize, rng.int(1, most) as usize),
        1 => (rng.int(1, most) as usize, rng.int(1, 3) as usize),
        _ => (rng.int(2, most) as usize, rng.int(2, most) as usize),
    }
}

fn event(log: &mut Log, got: Labels, w: usize, h: usize, levels: usize, blur: Option<f32>, data: Option<&[i64]>) {
    let blur = opt(blur.map(|b| fx(b as f64, 100.0)));
    match got {
        Ok((labels, count)) => {
            let mut e = json!({"op": "partition", "w": w, "h": h, "levels": levels, "blur": blur, "labels": labels, "count": count});
            if let Some(d) = data {
                e["data"] = json!(d);
            }
            log.event(e);
        }
        Err(what) => log.event(json!({"op": "failed", "w": w, "h": h, "levels": levels, "blur": blur, "what": what, "data": data.unwrap_or(&[])})),
    }
}

fn scenario_grids(log: &Log) -> Vec<(usize, usize, Vec<i64>)> {
    log.scenarios()
        .iter()
        .map(|s| {
            let g = |k: &str| s[k].as_u64().unwrap() as usize;
            (g("w"), g("h"), s["data"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect())
        })
        .collect()
}

pub fn w01(log: &mut Log, rng: &mut Rng) {
    // The grids of the design model, with and without smoothing
    for (i, (w, h, data)) in scenario_grids(log).into_iter().enumerate() {
        if i % log.n(4, 1) != 0 {
            continue;
        }
        log.begin(format!("scenario-{i}"), json!({}));
        let f: Vec<f64> = data.iter().map(|v| *v as f64).collect();
        for blur in [None, Some(0.8)] {
            let levels = *rng.pick(&[2, 3, 4, 9, 100, 255]);
            let got = call(rng, w, h, &f, levels, blur);
            event(log, got, w, h, levels, blur, Some(&data));
        }
    }
    for i in 0..log.n(900, 9000) {
        log.begin(format!("terrain-{i}"), json!({}));
        let (w, h) = size(rng, 12);
        let scale = *rng.pick(&[1.0, 0.01, 1e-6, 1e4]);
        let data: Vec<f64> = terrain(rng, w, h).iter().map(|v| *v as f64 * scale + if rng.chance(1, 9) { rng.unit() * scale } else { 0.0 }).collect();
        let blur = match rng.below(4) {
            0 => Some(rng.float(0.1, 3.0) as f32),
            1 => Some(0.8),
            _ => None,
        };
        let levels = *rng.pick(&[2, 3, 5, 10, 50, 100, 200, 255]);
        let got = call(rng, w, h, &data, levels, blur);
        event(log, got, w, h, levels, blur, None);
    }
    // The size of real spectra
    for i in 0..log.n(16, 120) {
        log.begin(format!("spectrum-{i}"), json!({}));
        let (w, h) = *rng.pick(&[(25, 24), (36, 24), (29, 36), (50, 36), (25, 36)]);
        let data: Vec<f64> = if i % 4 == 3 {
            corridor(rng, w, h).iter().map(|v| *v as f64).collect()
        } else {
            bumps(rng, w, h, 3000.0).iter().map(|v| *v as f64 / 100.0).collect()
        };
        let blur = if i % 2 == 0 { Some(0.8) } else { None };
        let levels = *rng.pick(&[20, 100, 255]);
        let got = call(rng, w, h, &data, levels, blur);
        event(log, got, w, h, levels, blur, None);
    }
    // More peaks than fit a byte
    for i in 0..log.n(3, 20) {
        log.begin(format!("choppy-{i}"), json!({}));
        let (w, h) = if i % 3 == 0 { (72, 36) } else { (50, 36) };
        let data: Vec<f64> = (0..w * h).map(|_| rng.int(0, 500) as f64).collect();
        let got = call(rng, w, h, &data, 255, None);
        event(log, got, w, h, 255, None, None);
    }
    // Flat spectra, and data that does not fit its grid
    log.begin("flat", json!({}));
    for (w, h) in [(1, 1), (3, 3), (5, 1), (1, 7), (12, 9), (50, 72), (70, 30)] {
        for v in [0.0, 1.0, 7.25, 1e-300, 1e300] {
            for blur in [None, Some(0.8)] {
                let got = call(rng, w, h, &vec![v; w * h], 100, blur);
                event(log, got, w, h, 100, blur, None);
            }
        }
    }
    log.begin("misfit", json!({}));
    for _ in 0..log.n(100, 1000) {
        let (w, h) = size(rng, 9);
        let len = loop {
            let k = rng.int(0, 120) as usize;
            if k != w * h {
                break k;
            }
        };
        let data: Vec<f64> = (0..len).map(|_| rng.unit()).collect();
        let blur = if rng.chance(1, 2) { Some(0.8) } else { None };
        match call(rng, w, h, &data, 10, blur) {
            Err(e) if e == "refused" => log.event(json!({"op": "refused", "w": w, "h": h, "len": len})),
            Err(e) => log.event(json!({"op": "failed", "what": e, "w": w, "h": h, "len": len})),
            Ok(_) => log.event(json!({"op": "accepted", "w": w, "h": h, "len": len})),
        }
    }
}

pub fn w02(log: &mut Log, rng: &mut Rng) {
    // Rounding to a level never lies on a half when the range of the data is odd
    fn odd(data: &mut [i64]) {
        let (a, b) = (*data.iter().min().unwrap(), *data.iter().max().unwrap());
        if (b - a) % 2 == 0 && a != b {
            for v in data.iter_mut() {
                if *v == b {
                    *v += 1;
                }
            }
        }
    }
    for (i, (w, h, mut data)) in scenario_grids(log).into_iter().enumerate() {
        if i % log.n(3, 1) != 0 {
            continue;
        }
        odd(&mut data);
        log.begin(format!("scenario-{i}"), json!({}));
        let f: Vec<f64> = data.iter().map(|v| *v as f64).collect();
        let levels = *rng.pick(&[3, 4, 6, 50]);
        let got = call(rng, w, h, &f, levels, None);
        event(log, got, w, h, levels, None, Some(&data));
    }
    for i in 0..log.n(1200, 12000) {
        log.begin(format!("terrain-{i}"), json!({}));
        let (w, h) = size(rng, if i % 10 == 0 { 14 } else { 8 });
        let mut data = terrain(rng, w, h);
        odd(&mut data);
        let f: Vec<f64> = data.iter().map(|v| *v as f64).collect();
        let levels = *rng.pick(&[2, 3, 5, 10, 50, 100, 200, 255]);
        let got = call(rng, w, h, &f, levels, None);
        event(log, got, w, h, levels, None, Some(&data));
    }
    for i in 0..log.n(16, 100) {
        log.begin(format!("spectrum-{i}"), json!({}));
        let (w, h) = *rng.pick(&[(25, 24), (36, 24), (20, 36)]);
        let mut data = if i % 4 == 3 { corridor(rng, w, h) } else { bumps(rng, w, h, 999.0) };
        odd(&mut data);
        let f: Vec<f64> = data.iter().map(|v| *v as f64).collect();
        let levels = *rng.pick(&[20, 50, 100]);
        let got = call(rng, w, h, &f, levels, None);
        event(log, got, w, h, levels, None, Some(&data));
    }
    for i in 0..log.n(1, 8) {
        log.begin(format!("choppy-{i}"), json!({}));
        let (w, h) = if i % 2 == 0 { (40, 36) } else { (36, 60) };
        let mut data: Vec<i64> = (0..w * h).map(|_| rng.int(0, 500)).collect();
        odd(&mut data);
        let f: Vec<f64> = data.iter().map(|v| *v as f64).collect();
        let got = call(rng, w, h, &f, 255, None);
        event(log, got, w, h, 255, None, Some(&data));
    }
    // Narrow but long
    for i in 0..log.n(12, 100) {
        log.begin(format!("long-{i}"), json!({}));
        let (a, b) = (rng.int(2, 5) as usize, rng.int(20, 90) as usize);
        let (w, h) = if i % 2 == 0 { (a, b) } else { (b, a) };
        let mut data: Vec<i64> = if i % 3 == 0 { bumps(rng, w, h, 99.0) } else { (0..w * h).map(|_| rng.int(0, 200)).collect() };
        odd(&mut data);
        let f: Vec<f64> = data.iter().map(|v| *v as f64).collect();
        let got = call(rng, w, h, &f, 100, None);
        event(log, got, w, h, 100, None, Some(&data));
    }
    // Who is next to whom
    log.begin("near", json!({}));
    for (w, h) in [(1, 2), (2, 1), (1, 9), (9, 1), (2, 2), (3, 3), (7, 4), (4, 7), (25, 24), (50, 36), (36, 72), (101, 3), (3, 181)] {
        log.event(match guard(|| (0..w * h).map(|c| nearest_neighbors(w, h, c)).collect::<Vec<_>>()) {
            Ok(near) => json!({"op": "near", "w": w, "h": h, "near": near}),
            Err(e) => json!({"op": "failed", "what": e, "w": w, "h": h}),
        });
    }
    // Smoothing over less than a cell: nothing changes but the rounding to 256 shades, which these
    // energies (in halves) are away from
    for i in 0..log.n(250, 2500) {
        log.begin(format!("sharp-{i}"), json!({}));
        let (w, h) = size(rng, if i % 10 == 0 { 14 } else { 8 });
        let t = terrain(rng, w, h);
        let top = (*t.iter().max().unwrap()).max(1);
        let mut shade: Vec<i64> = t.iter().map(|v| v * 255 / top).collect();
        if w * h > 1 {
            shade[0] = 0;
            shade[w * h - 1] = 255;
        } else {
            continue;
        }
        let data: Vec<i64> = shade.iter().map(|n| 2 * n + if *n == 0 || *n == 255 { 0 } else { 1 }).collect();
        let f: Vec<f64> = data.iter().map(|v| *v as f64 / 2.0).collect();
        let levels = *rng.pick(&[2, 3, 5, 10, 50, 100, 200, 255]);
        let sigma = *rng.pick(&[0.05f32, 0.1, 0.15]);
        match call(rng, w, h, &f, levels, Some(sigma)) {
            Ok((labels, count)) => log.event(json!({"op": "sharp", "w": w, "h": h, "levels": levels, "labels": labels, "count": count, "data": data, "shade": shade})),
            Err(e) => log.event(json!({"op": "failed", "what": e})),
        }
    }
    // Smoothing knows which axis is which: ridges along an axis stay ridges along it
    for i in 0..log.n(150, 1500) {
        log.begin(format!("ridges-{i}"), json!({}));
        let (w, h) = size(rng, 16);
        let along = if rng.chance(1, 2) { "direction" } else { "frequency" };
        let n = if along == "direction" { w } else { h };
        let profile: Vec<f64> = (0..n).map(|_| rng.int(0, 500) as f64).collect();
        let data: Vec<f64> = (0..w * h).map(|c| profile[if along == "direction" { c % w } else { c / w }]).collect();
        let sigma = rng.float(0.05, 3.0) as f32;
        let levels = *rng.pick(&[3, 10, 50, 100]);
        match call(rng, w, h, &data, levels, Some(sigma)) {
            Ok((labels, count)) => log.event(json!({"op": "ridges", "w": w, "h": h, "along": along, "sigma": fx(sigma as f64, 100.0), "labels": labels, "count": count})),
            Err(e) => log.event(json!({"op": "failed", "what": e})),
        }
    }
    // and what changes from one cell to the next goes away
    for i in 0..log.n(30, 300) {
        log.begin(format!("ripples-{i}"), json!({}));
        let (w, h) = (rng.int(12, 30) as usize, 2 * rng.int(6, 16) as usize);
        let (cx, cy) = (w as f64 / 2.0, h as f64 / 2.0);
        let amp = rng.float(0.15, 0.25);
        let noisy: Vec<f64> = (0..w * h)
            .map(|c| {
                let (x, y) = (((c % w) as f64 - cx) / cx, ((c / w) as f64 - cy) / cy);
                let hill = 1.0 - (x * x + y * y).sqrt() / 2.0;
                hill + amp * if (c % w) % 2 == 0 && (c / w) % 2 == 0 { 2.0 } else { 0.0 }
            })
            .collect();
        let sigma = rng.float(1.0, 1.5) as f32;
        let plain = call(rng, w, h, &noisy, 10, Some(0.05));
        match (plain, call(rng, w, h, &noisy, 10, Some(sigma))) {
            (Ok((_, a)), Ok((_, b))) => log.event(json!({"op": "ripples", "w": w, "h": h, "sigma": fx(sigma as f64, 100.0), "plain": a - 1, "smooth": b - 1})),
            _ => log.event(json!({"op": "failed", "what": "ripples"})),
        }
    }
}

pub fn w03(log: &mut Log, rng: &mut Rng) {
    for i in 0..log.n(700, 6000) {
        log.begin(format!("split-{i}"), json!({}));
        let (w, h) = if i % 40 == 0 { (25, 24) } else { (rng.int(1, 7) as usize, rng.int(1, 7) as usize) };
        let energy: Vec<f64> = (0..w * h)
            .map(|_| match rng.below(6) {
                0 => 0.0,
                1 => rng.unit() * 1e-9,
                2 => rng.unit() * 1e6,
                3 => -rng.unit(),
                _ => rng.unit() * 4.0,
            })
            .collect();
        let conv = rng.pick(&conventions()).clone();
        let (f, mut d) = axes(w, h);
        if rng.chance(1, 2) {
            d.reverse();
        }
        let s = Spectra::new(f, d, energy.clone(), conv);
        // A real partitioning, or any labelling
        let parts = if rng.chance(1, 2) && w > 1 && h > 1 {
            match guard(|| s.partition(20, None)) {
                Ok(Ok(p)) => p,
                _ => (vec![1; w * h], 2),
            }
        } else {
            // Often more parts than cells, or a cell that belongs nowhere
            let n = *rng.pick(&[1, 2, 6, 6, 40, 130]);
            let least = *rng.pick(&[0, 0, -1, -n]);
            ((0..w * h).map(|_| rng.int(least, n) as i32).collect(), n as usize + 1)
        };
        let coded: Vec<String> = energy.iter().map(|e| bits(*e)).collect();
        let same = |p: &Spectra| {
            p.frequency == s.frequency && p.direction_raw() == s.direction_raw() && p.dir_convention == s.dir_convention
        };
        let mut limits = vec![None, Some(0), Some(1), Some(parts.1), Some(rng.int(0, parts.1 as i64) as usize)];
        if w * h > 100 {
            limits.truncate(1);
        }
        for limit in limits {
            let got = guard(|| {
                let v = Spectra::split_from_components(&s, &parts, limit);
                let axes = v.iter().all(same);
                (v.iter().map(|p| p.energy.iter().map(|e| bits(*e)).collect()).collect::<Vec<Vec<String>>>(), axes)
            });
            log.event(match got {
                Ok((v, axes)) => json!({"op": "split", "labels": parts.0, "count": parts.1, "limit": opt(limit), "energy": coded, "parts": v, "axes": axes}),
                Err(w) => json!({"op": "panic", "what": w, "labels": parts.0, "count": parts.1, "limit": opt(limit)}),
            });
        }
        let k = rng.int(-2, parts.1 as i64) as i32;
        let got = guard(|| {
            let p = Spectra::from_component(&s, &parts, k);
            (p.energy.iter().map(|e| bits(*e)).collect::<Vec<_>>(), same(&p))
        });
        log.event(match got {
            Ok((v, axes)) => json!({"op": "part", "labels": parts.0, "k": k, "energy": coded, "part": v, "axes": axes}),
            Err(w) => json!({"op": "panic", "what": w}),
        });
    }
}
