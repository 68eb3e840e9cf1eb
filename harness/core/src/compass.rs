use crate::util::*;
use serde_json::{json, Value};
use std::str::FromStr;
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{CardinalDirection, Direction};

const NAMES: [&str; 16] = ["n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw"];

fn dir(d: &Direction) -> Value {
    json!({"deg": d.degrees, "name": d.cardinal_direction().to_string()})
}

fn put(log: &mut Log, e: Value, got: Result<Value, String>) {
    let mut e = e;
    match got {
        Ok(v) => {
            e["ok"] = json!(true);
            e["got"] = v;
        }
        Err(w) => {
            e["ok"] = json!(false);
            e["what"] = json!(w);
        }
    }
    log.event(e);
}

fn parse(s: &str) -> Value {
    let c = CardinalDirection::from_str(s).ok().map(|c| c.to_string());
    let d = Direction::from_str(s).ok().map(|d| dir(&d));
    json!({"name": opt(c), "dir": opt(d)})
}

pub fn run(log: &mut Log, rng: &mut Rng) {
    for deg in 0..=360 {
        log.begin(format!("degree-{deg}"), json!({}));
        put(log, json!({"op": "named", "deg": deg}), guard(|| dir(&Direction::from_degrees(deg))));
        put(log, json!({"op": "invert", "deg": deg}), guard(|| dir(&Direction::from_degrees(deg).invert())));
        // Turning in place, again and again: each event is one turn of the same direction
        let mut d = Direction::from_degrees(deg);
        put(log, json!({"op": "hold", "deg": deg}), guard(|| dir(&d)));
        for _ in 0..4 {
            let got = guard(|| {
                d.flip();
                dir(&d)
            });
            put(log, json!({"op": "flip"}), got);
        }
        put(log, json!({"op": "parsenumber", "deg": deg}), guard(|| parse(&deg.to_string())));
        // Padded, as headings are commonly written
        for s in [format!("{deg:02}"), format!("{deg:03}"), format!("{deg:04}")] {
            put(log, json!({"op": "parsenumber", "deg": deg, "s": s.clone()}), guard(|| parse(&s)));
        }
        put(
            log,
            json!({"op": "radians", "deg": deg}),
            guard(|| {
                let r = Direction::from_degrees(deg).radian();
                json!({"milli": fx(r.to_degrees(), 1000.0), "back": dir(&Direction::from_radians((deg as f64 + 0.5).to_radians()))})
            }),
        );
        for k in 0..4 {
            // Thousandths of a degree
            let q = (deg as i64 * 1000 + if k == 0 { 0 } else { rng.int(0, 999) }).min(360_000);
            put(
                log,
                json!({"op": "normalize", "q": q}),
                guard(|| {
                    let v = q as f64 / 1000.0;
                    json!([
                        fx(DirectionConvention::From.normalize(v), 1000.0),
                        fx(DirectionConvention::Towards.normalize(v), 1000.0),
                        fx(DirectionConvention::Met.normalize(v), 1000.0)
                    ])
                }),
            );
        }
        // Every pair
        let a = Direction::from_degrees(deg);
        put(
            log,
            json!({"op": "opposites", "deg": deg}),
            guard(|| {
                let one: Vec<i32> = (0..=360).filter(|o| a.is_opposite(&Direction::from_degrees(*o))).collect();
                let other: Vec<i32> = (0..=360).filter(|o| Direction::from_degrees(*o).is_opposite(&a)).collect();
                json!({"one": one, "other": other})
            }),
        );
    }
    log.begin("names", json!({}));
    for (k, name) in NAMES.iter().enumerate() {
        // Every letter case of it
        for mask in 0..(1u32 << name.len()) {
            let s: String = name.chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            put(log, json!({"op": "parsename", "k": k, "s": s}), guard(|| parse(&s)));
        }
        put(
            log,
            json!({"op": "fromname", "k": k}),
            guard(|| {
                let c = CardinalDirection::from_str(name).ok().unwrap();
                json!({"deg": c.to_degrees(), "dir": dir(&Direction::from_cardinal_direction(c))})
            }),
        );
    }
    log.begin("not-directions", json!({}));
    let mut junk: Vec<String> = ["", " ", "x", "north", "nn", "nnn", "ns", "we", "en", "esw", "ees", "12.5", "1e2", "MM", "n e", " n", "n ", "4 5", "45°", "°", "--", "0x10", "nee", "wnn", "sses", "99999999999", "N-E", "ssse", "eee"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let letters = ['n', 'e', 's', 'w', 'N', 'x', '.', ' '];
    for _ in 0..log.n(600, 6000) {
        let k = rng.int(1, 5);
        let s: String = (0..k).map(|_| *rng.pick(&letters)).collect();
        if !NAMES.contains(&s.to_lowercase().as_str()) {
            junk.push(s);
        }
    }
    for s in junk {
        put(log, json!({"op": "junk", "s": s}), guard(|| parse(&s)));
    }
}
