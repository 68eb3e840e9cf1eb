use crate::util::*;
use chrono::{DateTime, Duration, TimeZone, Utc};
use serde_json::{json, Value};
use std::f64::consts::PI;
use surfrs::swell::Swell;
use surfrs::tools::waves::track_partitions;
use surfrs::units::{Direction, UnitSystem};

#[derive(Clone)]
struct S {
    dir: i64,
    /// Hundredths of a second; none: not known
    per: Option<i64>,
    id: Option<usize>,
}

fn swell(rng: &mut Rng, s: &S) -> Swell {
    let mut w = Swell::new(
        &UnitSystem::Metric,
        rng.float(0.1, 6.0),
        s.per.unwrap_or(0) as f64 / 100.0,
        Direction::from_degrees(s.dir as i32),
        if rng.chance(1, 2) { Some(rng.unit()) } else { None },
        if rng.chance(1, 2) { Some(rng.unit()) } else { None },
        s.id,
    );
    if s.per.is_none() {
        w.period.value = None;
    }
    w
}

/// All of a swell but its partition
fn rest(s: &Swell) -> String {
    let mut s = s.clone();
    s.partition = None;
    format!("{s:?}")
}

/// One series: gaps[k] seconds before step k
fn series(log: &mut Log, rng: &mut Rng, steps: &[Vec<S>], gaps: &[i64], max: i64, max_f: f64, w: i64, distance: f64) {
    let mut t: DateTime<Utc> = Utc.with_ymd_and_hms(2023, 3, rng.int(1, 28) as u32, rng.int(0, 23) as u32, 0, 0).unwrap();
    let mut input: Vec<(DateTime<Utc>, Vec<Swell>)> = vec![];
    for (k, st) in steps.iter().enumerate() {
        t = t + Duration::seconds(gaps[k]);
        input.push((t, st.iter().map(|s| swell(rng, s)).collect()));
    }
    let got = match guard(|| track_partitions(&input, max_f, distance)) {
        Ok(v) => v,
        Err(what) => {
            log.event(json!({"op": "panic", "what": what}));
            return;
        }
    };
    if steps.is_empty() || got.len() != steps.len() {
        log.event(json!({"op": if steps.is_empty() { "empty" } else { "length" }, "steps": got.len()}));
        return;
    }
    for (k, st) in steps.iter().enumerate() {
        let same = got[k].len() == st.len() && got[k].iter().zip(&input[k].1).all(|(a, b)| rest(a) == rest(b));
        let ids: Vec<i64> = got[k].iter().map(|s| s.partition.map_or(-1, |p| p as i64)).collect();
        let cur: Vec<Value> = st.iter().map(|s| json!({"dir": s.dir, "per": s.per.unwrap_or(0)})).collect();
        if k == 0 {
            let own: Vec<i64> = st.iter().map(|s| s.id.map_or(-1, |p| p as i64)).collect();
            log.event(json!({"op": "first", "cur": cur, "ids": ids, "own": own, "same": same}));
        } else {
            let known = st.iter().chain(&steps[k - 1]).all(|s| s.per.is_some());
            log.event(json!({"op": "step", "cur": cur, "ids": ids, "same": same, "max": max, "w": w, "scored": known && gaps[k] != 0}));
        }
    }
}

/// The distance at which a second of period counts as w hundredths after dt seconds
fn distance(w: i64, dt: i64) -> f64 {
    (w as f64 / 100.0) * dt as f64 * 9.81 / (4.0 * PI)
}

pub fn run(log: &mut Log, rng: &mut Rng) {
    for (i, sc) in log.scenarios().iter().enumerate() {
        if i % log.n(2, 1) != 0 {
            continue;
        }
        log.begin(format!("scenario-{i}"), json!({}));
        let g = |v: &Value, k: &str| v[k].as_i64().unwrap();
        let mut start: Vec<usize> = (0..9).collect();
        rng.shuffle(&mut start);
        let steps: Vec<Vec<S>> = sc["hist"]
            .as_array()
            .unwrap()
            .iter()
            .map(|st| st.as_array().unwrap().iter().enumerate().map(|(k, s)| S { dir: g(s, "dir"), per: Some(g(s, "per")), id: Some(start[k]) }).collect())
            .collect();
        let dt = *rng.pick(&[1, 1800, 3600, 10800]);
        let (max, w) = (g(sc, "max"), g(sc, "w"));
        series(log, rng, &steps, &vec![dt; steps.len()], max, max as f64, w, distance(w, dt));
    }
    for i in 0..log.n(1500, 12000) {
        log.begin(format!("series-{i}"), json!({}));
        let n = match rng.below(12) {
            0 => rng.int(0, 1),
            1 if i % 3 == 0 => rng.int(30, 60),
            1 => rng.int(8, 25),
            _ => rng.int(2, 8),
        } as usize;
        let most = if rng.chance(1, 20) { 16 } else if rng.chance(1, 4) { 8 } else { 4 };
        let max = *rng.pick(&[1, 10, 20, 30, 30, 45, 90, 180]);
        // Whole degrees never exceed an angle that is not whole without exceeding its whole part
        let max_f = max as f64;
        let w = *rng.pick(&[1, 5, 30, 100, 100, 2000, 35600]);
        let dt = *rng.pick(&[1, 60, 1800, 3600, 10800, 21600, 129600, 604800]);
        let even = rng.chance(3, 4);
        // Starting ids of any kind, as long as they are distinct
        let mut pool: Vec<usize> = (0..most + 4).collect();
        if rng.chance(1, 4) {
            pool = pool.iter().map(|x| x * 7 + 1).collect();
        } else if rng.chance(1, 4) {
            pool = pool.iter().map(|x| x + 990).collect();
        }
        rng.shuffle(&mut pool);
        // Swells live on from step to step, turn, swing across north, split and vanish
        let mut steps: Vec<Vec<S>> = vec![];
        let mut now: Vec<S> = vec![];
        for k in 0..n {
            let mut next: Vec<S> = vec![];
            for s in &now {
                if rng.chance(1, 6) {
                    continue;
                }
                let copies = if rng.chance(1, 8) { 2 } else { 1 };
                for _ in 0..copies {
                    let turn = if rng.chance(1, 5) { max * if rng.chance(1, 2) { 1 } else { -1 } + rng.int(-1, 1) } else { rng.int(-max / 2 - 1, max / 2 + 1) };
                    let drift = if w > 1000 { rng.int(-5, 5) } else { rng.int(-150, 150) };
                    next.push(S { dir: (s.dir + turn).rem_euclid(360), per: s.per.map(|p| (p + drift).clamp(100, 2500)), id: None });
                }
            }
            while next.len() < most && rng.chance(1, 2) {
                let dir = if rng.chance(1, 3) { rng.int(-25, 25).rem_euclid(360) } else { rng.int(0, 359) };
                next.push(S { dir, per: Some(rng.int(200, 2200)), id: None });
            }
            next.truncate(most);
            if rng.chance(1, 12) {
                next.clear();
            }
            rng.shuffle(&mut next);
            if i % 20 == 7 && rng.chance(1, 3) {
                if let Some(s) = next.first_mut() {
                    s.per = None;
                }
            }
            // North goes by two numbers
            for s in next.iter_mut() {
                if rng.chance(1, 12) && s.dir.min(360 - s.dir) <= max / 4 {
                    s.dir = 0;
                }
                if s.dir == 0 && rng.chance(1, 2) {
                    s.dir = 360;
                }
            }
            for (j, s) in next.iter_mut().enumerate() {
                if s.per.is_none() && i % 20 != 7 {
                    s.per = Some(1000);
                }
                // What the later steps bring along does not matter, the first step's ids do
                s.id = if k == 0 { Some(pool[j]) } else if rng.chance(1, 2) { Some(j + 1) } else if rng.chance(1, 2) { Some(pool[rng.below(pool.len())]) } else { None };
            }
            steps.push(next.clone());
            now = next;
        }
        let gaps: Vec<i64> = (0..n).map(|_| if even { dt } else if rng.chance(1, 4) { 0 } else { dt }).collect();
        series(log, rng, &steps, &gaps, max, max_f, w, distance(w, dt));
    }
}
