use crate::util::*;
use serde_json::json;
use surfrs::spectra::Spectra;
use surfrs::tools::interpolation::{circular_pchip_interpolate, PchipInterpolator};
use surfrs::units::direction::DirectionConvention;

const FINE: f64 = 10000.0;

/// A table of whole numbers: knots xs (units of x), values ys within +-50
fn table(rng: &mut Rng) -> (Vec<i64>, Vec<i64>) {
    let kinds = if rng.chance(1, 20) { 7 } else { 6 };
    let n = match rng.below(kinds) {
        0 => 2,
        1 => 3,
        2 => rng.int(15, 40),
        6 => rng.int(100, 300),
        _ => rng.int(3, 12),
    } as usize;
    let mut xs = vec![rng.int(-500, 500)];
    for _ in 1..n {
        let w = match rng.below(5) {
            0 => rng.int(1, 3),
            1 => rng.int(500, 1000),
            _ => rng.int(10, 300),
        };
        xs.push(xs[xs.len() - 1] + w);
    }
    let kind = rng.below(6);
    let mut ys: Vec<i64> = vec![];
    for i in 0..n {
        let before = ys.last().copied().unwrap_or(0);
        ys.push(match kind {
            0 => rng.int(-50, 50),
            1 => (before + rng.int(0, 5)).min(50),                       // climbing
            2 => if rng.chance(1, 2) { before } else { rng.int(-50, 50) }, // plateaus
            3 => if rng.chance(1, 4) { (before + 40).min(50) } else { (before + 1).min(50) }, // steep next to gentle
            4 => if i % 2 == 0 { 0 } else { rng.int(1, 50) },
            _ => 0,
        });
    }
    if kind == 5 {
        // A straight line
        let (a, b, n) = (rng.int(-1, 1), rng.int(-9, 9), n.min(13));
        let mut x = 0;
        xs = vec![];
        ys = vec![];
        for _ in 0..n {
            xs.push(x * 40);
            ys.push(b + a * x);
            x += rng.int(1, 3);
        }
    }
    if rng.chance(1, 3) {
        for y in ys.iter_mut() {
            *y = -*y;
        }
    }
    (xs, ys)
}

fn walk(log: &mut Log, rng: &mut Rng, xs: &[i64], ys: &[i64]) {
    let xu = *rng.pick(&[1.0, 0.001, 0.037, 1000.0, 1e-6]);
    let yu = *rng.pick(&[1.0, 1e-5, 3.7, 1e6, 1.0, 1e-5, 3.7, 1e6, 1e-80, 1e80]);
    let fx_: Vec<f64> = xs.iter().map(|x| *x as f64 * xu).collect();
    let fy: Vec<f64> = ys.iter().map(|y| *y as f64 * yu).collect();
    let p = match guard(|| PchipInterpolator::new(&fx_, &fy)) {
        Ok(p) => p,
        Err(w) => return log.event(json!({"op": "panic", "what": w})),
    };
    let mut at: Vec<i64> = vec![];
    for k in 0..xs.len() - 1 {
        at.push(xs[k]);
        let w = xs[k + 1] - xs[k];
        let parts = rng.int(2, 12).min(w);
        for j in 1..parts {
            at.push(xs[k] + w * j / parts);
        }
        if w > 2 {
            at.push(xs[k] + 1);
            at.push(xs[k + 1] - 1);
        }
    }
    at.push(xs[xs.len() - 1]);
    at.push(xs[0] - rng.int(1, 900));
    at.push(xs[xs.len() - 1] + rng.int(1, 900));
    at.sort();
    at.dedup();
    let ask: Vec<f64> = at.iter().map(|x| *x as f64 * xu).collect();
    let vals: Vec<f64> = match guard(|| ask.iter().map(|x| p.interpolate(*x)).collect()) {
        Ok(v) => v,
        Err(w) => return log.event(json!({"op": "panic", "what": w})),
    };
    for (x, v) in at.iter().zip(&vals) {
        log.event(json!({"op": "at", "x": x, "v": fx(*v / yu, FINE)}));
    }
    // How the curve leaves a knot on either side of it
    for k in 1..xs.len() - 1 {
        let step = (xs[k] - xs[k - 1]).min(xs[k + 1] - xs[k]) as f64 * xu / 1000.0;
        let v: Vec<f64> = [-step, 0.0, step].iter().map(|d| p.interpolate(fx_[k] + d) / yu).collect();
        log.event(json!({"op": "knot", "k": k, "into": fx(v[1] - v[0], 1e6), "out": fx(v[2] - v[1], 1e6)}));
    }
    let mut shuffled: Vec<usize> = (0..ask.len()).collect();
    rng.shuffle(&mut shuffled);
    let some: Vec<f64> = shuffled.iter().map(|i| ask[*i]).collect();
    let many: Vec<String> = p.interpolate_many(&some).iter().map(|v| bits(*v)).collect();
    let each: Vec<String> = shuffled.iter().map(|i| bits(vals[*i])).collect();
    log.event(json!({"op": "many", "many": many, "each": each}));
    let (a, b, c) = (rng.int(-3, 3), rng.int(-20, 20), rng.int(-700, 700) as f64 * xu);
    let (mx, my): (Vec<f64>, Vec<f64>) = (fx_.iter().map(|x| x + c).collect(), fy.iter().map(|y| a as f64 * y + b as f64 * yu).collect());
    let got = guard(|| {
        let q = PchipInterpolator::new(&mx, &my);
        ask.iter().map(|x| q.interpolate(x + c) / yu).collect::<Vec<f64>>()
    });
    match got {
        Ok(v) => {
            // A knot moved by rounding may be missed by a rounding: the ends are left out
            let base: Vec<f64> = vals.iter().map(|v| v / yu).collect();
            log.event(json!({"op": "moved", "a": a, "b": b, "base": fxs(&base, FINE), "got": fxs(&v, FINE)}));
        }
        Err(w) => log.event(json!({"op": "panic", "what": w})),
    }
}

pub fn i01(log: &mut Log, rng: &mut Rng) {
    for (i, sc) in log.scenarios().iter().enumerate() {
        let get = |k: &str| sc[k].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect::<Vec<i64>>();
        let (xs, ys) = (get("xs"), get("ys"));
        let xs: Vec<i64> = xs[..ys.len()].iter().map(|x| x * 24).collect();
        log.begin(format!("scenario-{i}"), json!({"xs": xs, "ys": ys}));
        walk(log, rng, &xs, &ys);
    }
    for i in 0..log.n(1200, 20000) {
        let (xs, ys) = table(rng);
        log.begin(format!("table-{i}"), json!({"xs": xs, "ys": ys}));
        walk(log, rng, &xs, &ys);
    }
}

fn round_walk(log: &mut Log, rng: &mut Rng, ds: &[i64], ys: &[i64], turn: i64) {
    let u = 360.0 / turn as f64;
    let yu = *rng.pick(&[1.0, 1e-5, 3.7, 1e6]);
    let d: Vec<f64> = ds.iter().map(|d| *d as f64 * u).collect();
    let y: Vec<f64> = ys.iter().map(|y| *y as f64 * yu).collect();
    let mut at: Vec<i64> = ds.to_vec();
    for i in 0..ds.len() {
        at.extend([ds[i] + 1, ds[i] - 1, (ds[i] + ds[(i + 1) % ds.len()]) / 2]);
    }
    at.extend((0..16).map(|k| turn * k / 16));
    at.extend((0..6).map(|_| rng.int(0, turn - 1)));
    let mut at: Vec<i64> = at.iter().map(|a| a.rem_euclid(turn)).collect();
    at.sort();
    at.dedup();
    let ask = |v: i64| guard(|| circular_pchip_interpolate(&d, &y, v as f64 * u) / yu);
    let mut base = vec![];
    for a in &at {
        match ask(*a) {
            Ok(v) => {
                base.push(v);
                log.event(json!({"op": "at", "d": a, "v": fx(v, FINE)}));
            }
            Err(w) => return log.event(json!({"op": "panic", "what": w})),
        }
    }
    if let (Ok(v), Ok(w)) = (ask(0), ask(turn)) {
        log.event(json!({"op": "seam", "v": fx(v, FINE), "w": fx(w, FINE)}));
    } else {
        log.event(json!({"op": "panic"}));
    }
    // Whole turned round
    let by = rng.int(1, turn - 1);
    let mut pairs: Vec<(i64, f64)> = ds.iter().zip(&y).map(|(d, y)| ((d + by) % turn, *y)).collect();
    pairs.sort_by_key(|p| p.0);
    let d2: Vec<f64> = pairs.iter().map(|p| p.0 as f64 * u).collect();
    let y2: Vec<f64> = pairs.iter().map(|p| p.1).collect();
    match guard(|| at.iter().map(|a| circular_pchip_interpolate(&d2, &y2, ((a + by) % turn) as f64 * u) / yu).collect::<Vec<f64>>()) {
        Ok(v) => log.event(json!({"op": "rotated", "by": by, "base": fxs(&base, FINE), "got": fxs(&v, FINE)})),
        Err(w) => log.event(json!({"op": "panic", "what": w})),
    }
}

pub fn i02(log: &mut Log, rng: &mut Rng) {
    for (i, sc) in log.scenarios().iter().enumerate() {
        let get = |k: &str| sc[k].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect::<Vec<i64>>();
        let (xs, ys) = (get("xs"), get("ys"));
        let turn = xs[ys.len()] * 12;
        // The design model's circle starts at 0; north is put anywhere on it
        let by = rng.int(0, turn - 1);
        let mut p: Vec<(i64, i64)> = xs.iter().zip(&ys).map(|(x, y)| ((x * 12 + by) % turn, *y)).collect();
        p.sort();
        let (ds, ys): (Vec<i64>, Vec<i64>) = p.into_iter().unzip();
        log.begin(format!("scenario-{i}"), json!({"ds": ds, "ys": ys, "turn": turn}));
        round_walk(log, rng, &ds, &ys, turn);
    }
    for i in 0..log.n(1000, 12000) {
        let turn = 3600;
        let n = match rng.below(6) {
            0 => rng.int(1, 2),
            1 => *rng.pick(&[24, 36, 72, 90, 180]),
            _ => rng.int(3, 12),
        };
        let mut ds: Vec<i64> = if n > 12 || rng.chance(1, 4) {
            let off = rng.int(0, turn / n - 1);
            (0..n).map(|k| off + k * (turn / n)).collect()
        } else {
            (0..n).map(|_| if rng.chance(1, 3) { rng.int(-30, 30).rem_euclid(turn) } else { rng.int(0, turn - 1) }).collect()
        };
        ds.sort();
        ds.dedup();
        let kind = rng.below(4);
        let ys: Vec<i64> = (0..ds.len())
            .map(|k| match kind {
                0 => rng.int(-50, 50),
                1 => rng.int(0, 2) * 20,
                2 => ((k * k) as i64).min(50),
                _ => if k == 0 { 50 } else { rng.int(0, 3) },
            })
            .collect();
        log.begin(format!("circle-{i}"), json!({"ds": ds, "ys": ys, "turn": turn}));
        round_walk(log, rng, &ds, &ys, turn);
    }
}

/// A spectrum of whole numbers: frequencies in 1/10000 Hz, from-directions in tenths of degrees
pub struct Whole {
    pub f: Vec<i64>,
    pub ds: Vec<i64>,
    pub e: Vec<i64>,
    pub unit: f64,
}

impl Whole {
    pub fn random(rng: &mut Rng, most_e: i64) -> Whole {
        let nk = rng.int(2, 8) as usize;
        let nth = rng.int(1, 9) as usize;
        let mut f = vec![rng.int(300, 900)];
        for _ in 1..nk {
            let last = f[f.len() - 1];
            f.push(last + rng.int(1, 400));
        }
        let mut ds: Vec<i64> = if rng.chance(1, 2) {
            let off = rng.int(0, 100);
            (0..nth as i64).map(|i| (off + i * 3600 / nth as i64) % 3600).collect()
        } else {
            (0..nth).map(|_| rng.int(0, 3599)).collect()
        };
        ds.sort();
        ds.dedup();
        let kind = rng.below(4);
        let e = (0..nk * ds.len())
            .map(|_| match kind {
                0 => rng.int(0, most_e),
                1 => rng.int(0, 3) / 3 * most_e,
                2 => rng.int(0, 2),
                _ => rng.int(1, most_e),
            })
            .collect();
        Whole { f, ds, e, unit: *rng.pick(&[1.0, 1e-4, 0.37, 100.0, 1e-9]) }
    }
    /// As many bins as models have
    pub fn large(rng: &mut Rng, most_e: i64) -> Whole {
        let (nk, nth) = (rng.int(30, 64) as usize, *rng.pick(&[36usize, 40, 45, 48]));
        let mut f = vec![rng.int(300, 400)];
        for _ in 1..nk {
            f.push(f[f.len() - 1] + rng.int(1, 200));
        }
        let off = rng.int(0, 60);
        let ds: Vec<i64> = (0..nth as i64).map(|i| off + i * 3600 / nth as i64).collect();
        let e = (0..nk * nth).map(|_| rng.int(0, most_e)).collect();
        Whole { f, ds, e, unit: *rng.pick(&[1.0, 0.37]) }
    }
    /// Directions listed in another order, the energies along
    pub fn reorder(&self, order: &[usize]) -> Whole {
        let nk = self.f.len();
        Whole {
            f: self.f.clone(),
            ds: order.iter().map(|i| self.ds[*i]).collect(),
            e: order.iter().flat_map(|i| self.e[i * nk..(i + 1) * nk].to_vec()).collect(),
            unit: self.unit,
        }
    }
    pub fn freq(&self) -> Vec<f64> {
        self.f.iter().map(|f| *f as f64 / 10000.0).collect()
    }
    /// What a file in this convention would list, in radians
    pub fn raw(&self, conv: &DirectionConvention) -> Vec<f64> {
        self.ds
            .iter()
            .map(|d| match conv {
                DirectionConvention::From => *d,
                DirectionConvention::Towards => (d + 1800) % 3600,
                DirectionConvention::Met => (2700 - d + 3600) % 3600,
            })
            .map(|d| (d as f64 / 10.0).to_radians())
            .collect()
    }
    pub fn spectra(&self, conv: &DirectionConvention) -> Spectra {
        Spectra::new(self.freq(), self.raw(conv), self.e.iter().map(|e| *e as f64 * self.unit).collect(), conv.clone())
    }
}

fn regrid(s: &Spectra, unit: f64, tf: &[i64], td: &[i64]) -> Result<serde_json::Value, String> {
    let f: Vec<f64> = tf.iter().map(|f| *f as f64 / 10000.0).collect();
    let d: Vec<f64> = td.iter().map(|d| *d as f64 / 10.0).collect();
    guard(|| {
        let g = s.interpolate_to_grid(&f, &d);
        json!({
            "e": g.energy.iter().map(|e| fx(e / unit, FINE)).collect::<Vec<_>>(),
            "f": fxs(&g.frequency, 10000.0),
            "d": g.direction_raw().iter().map(|d| fx(d.to_degrees(), 10.0)).collect::<Vec<_>>(),
            "from": g.dir_convention == DirectionConvention::From,
        })
    })
}

pub fn g01(log: &mut Log, rng: &mut Rng) {
    for i in 0..log.n(900, 12000) {
        let large = i % 60 == 11;
        let w = if large { Whole::large(rng, 99) } else { Whole::random(rng, 99) };
        let conv = rng.pick(&crate::partition::conventions()).clone();
        let mut order: Vec<usize> = (0..w.ds.len()).collect();
        match rng.below(3) {
            0 => order.reverse(),
            1 => rng.shuffle(&mut order),
            _ => {}
        }
        let w = w.reorder(&order);
        log.begin(format!("grid-{i}"), json!({"f": w.f, "ds": w.ds, "e": w.e, "conv": format!("{conv:?}")}));
        let s = w.spectra(&conv);
        let mut own = w.ds.clone();
        own.sort();
        let mut targets = if large { vec![(w.f.iter().step_by(7).copied().collect(), own.iter().step_by(3).copied().collect())] } else { vec![(w.f.clone(), own.clone())] };
        for _ in 0..3 {
            let mut tf: Vec<i64> = (0..rng.int(1, 6)).map(|_| rng.int(w.f[0] - 200, w.f[w.f.len() - 1] + 300)).collect();
            tf.extend((0..rng.int(0, 2)).map(|_| *rng.pick(&w.f)));
            tf.sort();
            tf.dedup();
            let mut td: Vec<i64> = (0..rng.int(1, 6)).map(|_| rng.int(0, 3600)).collect();
            td.extend((0..rng.int(0, 2)).map(|_| *rng.pick(&w.ds)));
            if rng.chance(1, 3) {
                td.extend([0, 3600]);
            }
            td.sort();
            td.dedup();
            targets.push((tf, td));
        }
        // Finer than any model, and beyond a second's period
        if i % 60 == 23 {
            let td = (0..*rng.pick(&[90, 120, 180, 360])).map(|d| d * 10).collect();
            let mut tf = vec![w.f[0], 12000, 40000];
            tf.dedup();
            targets.push((tf, td));
        }
        if i % 60 == 24 {
            let (a, n) = (w.f[0], *rng.pick(&[70, 100, 150]));
            targets.push(((0..n).map(|k| a + 20 * k).collect(), vec![0, 905, 3600]));
        }
        for (tf, td) in targets {
            let base = regrid(&s, w.unit, &tf, &td);
            match &base {
                Ok(v) => log.event(json!({"op": "grid", "tf": tf, "td": td, "got": v})),
                Err(what) => {
                    log.event(json!({"op": "panic", "what": what}));
                    continue;
                }
            }
            // The same spectrum listed in another order and convention
            rng.shuffle(&mut order);
            let other = rng.pick(&crate::partition::conventions()).clone();
            match regrid(&w.reorder(&order).spectra(&other), w.unit, &tf, &td) {
                Ok(v) => log.event(json!({"op": "again", "base": base.unwrap()["e"], "got": v["e"]})),
                Err(what) => log.event(json!({"op": "panic", "what": what})),
            }
        }
    }
}
