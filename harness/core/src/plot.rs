use crate::record::CONVENTIONS;
use crate::util::*;
use serde_json::json;
use surfrs::spectra::Spectra;
use surfrs::units::direction::DirectionConvention;

struct Plot {
    n: usize,
    /// Doubled periods
    ps: Vec<i64>,
    ds: Vec<i64>,
    limit: Option<i64>,
    half: i64,
    conv: DirectionConvention,
}

fn show(log: &mut Log, rng: &mut Rng, name: String, p: &Plot) {
    let limit = p.limit.unwrap_or(*p.ps.iter().max().unwrap());
    log.begin(name, json!({"n": p.n, "ps": p.ps, "ds": p.ds, "limit": limit, "half": p.half, "conv": format!("{:?}", p.conv)}));
    let count = p.ps.len() * p.ds.len();
    let make = |e: Vec<f64>| {
        Spectra::new(
            p.ps.iter().map(|x| 2.0 / *x as f64).collect(),
            p.ds.iter().map(|d| (*d as f64).to_radians()).collect(),
            e,
            p.conv.clone(),
        )
    };
    let energy: Vec<i64> = (0..count).map(|_| rng.int(0, 900)).collect();
    let s = make(energy.iter().map(|x| *x as f64).collect());
    // A limit that is one of the periods is given as the grid has it
    let period = s.period();
    let threshold = p.limit.map(|l| match p.ps.iter().position(|x| *x == l) {
        Some(k) => period[k],
        None => l as f64 / 2.0,
    });
    let exp = if p.half == 2 && rng.chance(1, 2) { None } else { Some(p.half as f64 / 2.0) };
    let got = guard(|| {
        let map = s.compute_cartesian_projection_map(p.n, threshold, exp);
        let indices: Vec<usize> = map.indices.iter().map(|i| i.map_or(0, |x| x + 1)).collect();
        json!({"op": "map", "size": map.size, "indices": indices})
    });
    let ok = got.is_ok();
    log.event(got.unwrap_or_else(|w| json!({"op": "panic", "what": w})));
    if !ok {
        return;
    }
    let map = s.compute_cartesian_projection_map(p.n, threshold, exp);
    for k in 0..3 {
        // The energy itself, a partition map, any other numbers
        let data: Vec<i64> = match k {
            0 => energy.clone(),
            1 => (0..count as i64).collect(),
            _ => (0..count).map(|_| rng.int(-5, 5)).collect(),
        };
        let target: Vec<f64> = data.iter().map(|x| *x as f64).collect();
        let got = guard(|| {
            let values = |v: Vec<f64>| v.iter().map(|x| fx(*x, 1.0)).collect::<Vec<_>>();
            let direct = values(s.project_cartesian(&target, p.n, threshold, exp));
            let mapped = values(s.project_cartesian_with_map(&target, &map));
            // Another spectrum of the same grid
            let other = values(make(vec![0.0; count]).project_cartesian_with_map(&target, &map));
            json!({"op": "image", "data": data, "direct": direct, "mapped": mapped, "other": other})
        });
        log.event(got.unwrap_or_else(|w| json!({"op": "panic", "what": w})));
    }
}

pub fn z01(log: &mut Log, rng: &mut Rng) {
    let scen = log.scenarios();
    let ints = |v: &serde_json::Value| v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<_>>();
    let step = log.n(5, 2);
    for (i, s) in scen.iter().enumerate() {
        if i % step != 0 {
            continue;
        }
        let conv = rng.pick(&CONVENTIONS).clone();
        // The raw direction that comes from where the model has it
        let ds = ints(&s["ds"])
            .iter()
            .map(|d| match conv {
                DirectionConvention::From => *d,
                DirectionConvention::Towards => (*d + 180) % 360,
                DirectionConvention::Met => (270 - *d + 360) % 360,
            })
            .collect();
        let p = Plot { n: s["n"].as_u64().unwrap() as usize, ps: ints(&s["ps"]), ds, limit: s["limit"].as_i64(), half: s["half"].as_i64().unwrap(), conv };
        show(log, rng, format!("model-{i}"), &p);
    }
    for i in 0..log.n(60, 800) {
        let half = *rng.pick(&[1, 2, 2, 4]);
        let np = 1 + rng.below(7);
        let mut ps: Vec<i64> = vec![];
        while ps.len() < np {
            let r = rng.int(1, 7);
            let x = if half == 1 { r * r } else { rng.int(3, 50) };
            if !ps.contains(&x) {
                ps.push(x);
            }
        }
        ps.sort();
        // Ascending frequencies have descending periods
        if rng.chance(4, 5) {
            ps.reverse();
        }
        let nd = if i % 8 == 5 { *rng.pick(&[24, 36, 48, 72]) } else { 1 + rng.below(8) };
        let start = rng.int(0, 359);
        let mut ds: Vec<i64> = if rng.chance(1, 2) {
            let step = 360 / nd as i64;
            (0..nd as i64).map(|k| (start + k * step) % 360).collect()
        } else {
            (0..nd).map(|_| rng.int(0, 359)).collect()
        };
        if rng.chance(1, 3) {
            ds.sort();
        }
        let limit = match rng.below(4) {
            0 => None,
            1 => Some(*rng.pick(&ps)),
            2 if half == 1 => Some(36),
            2 => Some(rng.int(2, 60)),
            _ => Some(if half == 1 { 49 } else { *ps.iter().max().unwrap() + 1 }),
        };
        let n = *rng.pick(&[0, 1, 2, 3, 4, 7, 8, 9, 10, 11]);
        let conv = rng.pick(&CONVENTIONS).clone();
        let p = Plot { n, ps, ds, limit, half, conv };
        show(log, rng, format!("grid-{i}"), &p);
    }
}
