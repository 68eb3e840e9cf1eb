use crate::util::*;
use serde_json::{json, Value};
use surfrs::tools::linspace::{linspace, Linspace};

/// Bounds are eighths, values are recorded in thousandths
fn session(log: &mut Log, id: String, single: bool, a8: i64, b8: i64, n: usize, ops: &[String]) {
    log.begin(id, json!({"a": a8, "b": b8, "n": n, "f32": single}));
    let (a, b) = (a8 as f64 / 8.0, b8 as f64 / 8.0);
    if single {
        let made = guard(|| linspace::<f32>(a as f32, b as f32, n));
        drive(log, made, |v| v as f64, n, ops);
    } else {
        let made = guard(|| linspace::<f64>(a, b, n));
        drive(log, made, |v| v, n, ops);
    }
}

fn drive<F: num_traits::Float + std::fmt::Debug>(
    log: &mut Log,
    made: Result<Linspace<F>, String>,
    to: impl Fn(F) -> f64,
    n: usize,
    ops: &[String],
) {
    let mut it = match made {
        Ok(i) => i,
        Err(e) => {
            log.event(json!({"op": "panic", "what": e}));
            return;
        }
    };
    let val = |v: Option<F>| -> Value { ofx(v.map(|x| to(x)), 1000.0) };
    for op in ops {
        let got = guard(|| match op.as_str() {
            "front" => json!({"op": "front", "val": val(it.next())}),
            "back" => json!({"op": "back", "val": val(it.next_back())}),
            "len" => {
                let h = it.size_hint();
                json!({"op": "len", "lo": h.0, "hi": opt(h.1), "len": it.len()})
            }
            "skip" => json!({"op": "skip", "k": 2, "val": val(it.nth(2))}),
            "skipback" => json!({"op": "skipback", "k": 1, "val": val(it.nth_back(1))}),
            // What is left, twice: both from a copy, so that the sequence itself does not move
            "rest" => {
                // (one that never ends is told from its being too long)
                let most = n + 40;
                let f: Vec<i64> = it.clone().take(most).map(|x| fx(to(x), 1000.0)).collect();
                let mut b: Vec<i64> = it.clone().rev().take(most).map(|x| fx(to(x), 1000.0)).collect();
                b.reverse();
                json!({"op": "rest", "fwd": f, "rev": b})
            }
            _ => panic!("driver: op"),
        });
        match got {
            Ok(e) => log.event(e),
            Err(e) => {
                log.event(json!({"op": "panic", "what": e}));
                return;
            }
        }
    }
}

pub fn run(log: &mut Log, rng: &mut Rng) {
    let bounds: [(i64, i64); 5] = [(0, 8), (-16, 24), (40, 8), (12, 12), (-4000, 8001)];
    // Every behaviour of the design model, up to its depth
    let scen = log.scenarios();
    assert!(!scen.is_empty(), "no scenarios");
    for (i, s) in scen.iter().enumerate() {
        let n = s["n"].as_u64().unwrap() as usize;
        let ops: Vec<String> = s["ops"].as_array().unwrap().iter().map(|o| o.as_str().unwrap().to_string()).collect();
        let (a, b) = bounds[i % bounds.len()];
        session(log, format!("scenario-{i}"), i % 3 == 0, a, b, n, &ops);
    }
    // Longer random histories
    let all = ["front", "back", "len", "front", "back", "skip", "skipback", "rest"];
    for i in 0..log.n(400, 4000) {
        let n = if rng.chance(1, 5) { rng.int(0, 3) } else { rng.int(1, 60) } as usize;
        let (a, b) = (rng.int(-6000, 6000), rng.int(-6000, 6000));
        let k = rng.int(1, 2 * n as i64 + 6);
        let ops: Vec<String> = (0..k).map(|_| rng.pick(&all).to_string()).collect();
        session(log, format!("random-{i}"), rng.chance(1, 3), a, b, n, &ops);
    }
    // Very long ones
    for i in 0..log.n(4, 12) {
        let n = rng.int(1000, 2800) as usize;
        let mut ops: Vec<String> = ["len", "rest", "front", "back", "skip", "skipback", "len", "rest"].iter().map(|s| s.to_string()).collect();
        ops.truncate(rng.int(2, 8) as usize);
        session(log, format!("verylong-{i}"), false, if i % 2 == 0 { 0 } else { n as i64 - 1 }, if i % 2 == 0 { n as i64 - 1 } else { 0 }, n, &ops);
    }
    // Long ranges, walked to the end
    for i in 0..log.n(8, 40) {
        let n = rng.int(100, 700) as usize;
        let b = if i % 2 == 0 { n as i64 - 1 } else { rng.int(-2000, 2000) };
        let a = if i % 2 == 0 { 0 } else { rng.int(-2000, 2000) };
        let mut ops = vec!["len".to_string(), "rest".to_string()];
        for _ in 0..n + 2 {
            ops.push(if i % 4 < 2 { "front" } else { *rng.pick(&["front", "back"]) }.to_string());
        }
        ops.push("len".to_string());
        session(log, format!("long-{i}"), false, a, b, n, &ops);
    }
}
