use crate::address::put;
use crate::util::*;
use chrono::{DateTime, Datelike, Timelike, Utc};
use serde_json::{json, Value};
use std::collections::HashMap;
use surfrs::data::latest_obs_data_record::{LatestObsDataRecord, LatestObsDataRecordCollection};
use surfrs::data::meteorological_data_record::{MeteorologicalDataRecord, MeteorologicalDataRecordCollection};
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::{SwellProvider, SwellSummary};
use surfrs::units::{Direction, UnitConvertible, UnitSystem};

pub const POINTS: [&str; 16] = ["n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw"];
const MET: [&str; 14] = ["WDIR", "WSPD", "GST", "WVHT", "DPD", "APD", "MWD", "PRES", "ATMP", "WTMP", "DEWP", "VIS", "PTDY", "TIDE"];
const LATEST: [&str; 14] = ["WDIR", "WSPD", "GST", "WVHT", "DPD", "APD", "MWD", "PRES", "PTDY", "ATMP", "WTMP", "DEWP", "VIS", "TIDE"];

/// A token as the specification sees it, and as it is spelled
#[derive(Clone)]
pub struct Tok(pub Value, pub String);

fn int(v: i64, width: usize) -> Tok {
    Tok(json!({"t": "i", "v": v}), format!("{v:0width$}"))
}
fn dec(rng: &mut Rng, v: i64) -> Tok {
    let sign = if v < 0 { "-" } else if rng.chance(1, 8) { "+" } else { "" };
    let mut s = format!("{sign}{}.{:03}", v.abs() / 1000, v.abs() % 1000);
    while s.ends_with('0') && !s.ends_with(".0") {
        s.pop();
    }
    Tok(json!({"t": "d", "v": v}), s)
}
fn word(s: &str) -> Tok {
    Tok(json!({"t": "w", "s": s}), s.to_string())
}

pub fn days(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + (y % 4 == 0 && y % 100 != 0 || y % 400 == 0) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn good_date(rng: &mut Rng) -> [i64; 5] {
    let y = if rng.chance(1, 8) { rng.int(2036, 2099) } else { rng.int(1995, 2035) };
    let m = if rng.chance(1, 4) { 2 } else { rng.int(1, 12) };
    let d = if rng.chance(1, 3) { days(y, m) } else { rng.int(1, days(y, m)) };
    [y, m, d, if rng.chance(1, 5) { 23 } else { rng.int(0, 23) }, rng.int(0, 59)]
}
fn impossible(rng: &mut Rng) -> [i64; 5] {
    let mut d = good_date(rng);
    match rng.below(6) {
        0 => d[1] = *rng.pick(&[0, 13, 99]),
        1 => d[2] = *rng.pick(&[0, 32, 99]),
        2 => d[2] = days(d[0], d[1]) + 1,
        3 => d[3] = rng.int(24, 99),
        4 => d[4] = rng.int(60, 99),
        _ => {
            d[0] = *rng.pick(&[2019, 2021, 2099, 2023]);
            d[1] = 2;
            d[2] = 29;
        }
    }
    d
}

/// A value such as that column holds, in 1/1000
fn level(rng: &mut Rng, col: &str) -> i64 {
    match col {
        "WSPD" | "GST" => rng.int(0, 450) * 100,
        "WVHT" => rng.int(0, 180) * 100,
        "DPD" | "APD" => rng.int(1, 250) * 100,
        "PRES" => rng.int(9000, 10600) * 100,
        "ATMP" | "WTMP" | "DEWP" => rng.int(-250, 380) * 100,
        "VIS" => rng.int(0, 100) * 100,
        "PTDY" => rng.int(-90, 90) * 100,
        _ => rng.int(-400, 900) * 10,
    }
}

fn cell(rng: &mut Rng, col: &str, gone: bool) -> Tok {
    if gone {
        return word(if rng.chance(3, 4) { "MM" } else { *rng.pick(&["-", "N/A", "**.*", "1,5"]) });
    }
    if col == "WDIR" || col == "MWD" {
        return if rng.chance(1, 5) {
            let p = *rng.pick(&POINTS);
            Tok(json!({"t": "w", "s": p}), p.to_uppercase())
        } else {
            int(rng.int(0, 360), 1)
        };
    }
    let v = level(rng, col);
    if v % 1000 == 0 && rng.chance(1, 2) {
        int(v / 1000, 1)
    } else {
        dec(rng, v)
    }
}

pub fn row(rng: &mut Rng, kind: &str, what: &str, gone: Option<&[String]>) -> Vec<Tok> {
    let date = if what == "date" { impossible(rng) } else { good_date(rng) };
    let mut r = vec![];
    if kind == "latest" {
        r.push(word(*rng.pick(&["44097", "BUZM3", "13002", "SANF1", "22101", "9PTN7"])));
        let round = rng.chance(1, 20);
        let bad = if what == "place" { rng.below(2) + 1 } else { 0 };
        for (i, span) in [(1, 90000), (2, 180000)] {
            if bad == i {
                r.push(word(*rng.pick(&["MM", "41.2N", "x", "-", "1.2.3"])));
            } else {
                let v = if round { *rng.pick(&[0, 0, -span, span]) } else { rng.int(-span, span) };
                r.push(dec(rng, v));
            }
        }
    }
    let at = r.len();
    for (v, w) in date.iter().zip([4, 2, 2, 2, 2]) {
        r.push(int(*v, w));
    }
    for c in if kind == "met" { MET } else { LATEST } {
        let g = match gone {
            Some(g) => g.iter().any(|x| x == c),
            None => rng.chance(1, 4),
        };
        r.push(cell(rng, c, g));
    }
    match what {
        "good" => {
            if rng.chance(1, 10) {
                r.push(word("MM"));
            }
        }
        "cut" => {
            let n = rng.below(r.len());
            r.truncate(n);
        }
        "word" => {
            let i = at + rng.below(5);
            r[i] = word(*rng.pick(&["MM", "x1", "2018-", "0x10", "é", "1e", "--", "9.9", "\"", "\"12\""]));
        }
        "place" if kind == "met" => r[rng.below(5)] = word("MM"),
        _ => {}
    }
    r
}

fn spell(rng: &mut Rng, r: &[Tok]) -> String {
    let mut s = String::new();
    if rng.chance(1, 6) {
        s.push(' ');
    }
    for (i, t) in r.iter().enumerate() {
        if i > 0 {
            s.push_str(*rng.pick(&[" ", " ", "  ", "    "]));
        }
        s.push_str(&t.1);
    }
    if rng.chance(1, 3) {
        s.push_str("  ");
    }
    s
}

fn date(d: &DateTime<Utc>) -> Vec<i64> {
    let mut v = vec![d.year() as i64, d.month() as i64, d.day() as i64, d.hour() as i64, d.minute() as i64];
    if d.second() != 0 || d.nanosecond() != 0 {
        v.push(-1);
    }
    v
}
fn num(d: &DimensionalData<f64>) -> Value {
    json!({"path": d.variable_name, "unit": format!("{:?}", d.unit), "value": ofx(d.value, 1000.0)})
}
fn dir(d: &DimensionalData<Direction>) -> Value {
    json!({"path": d.variable_name, "unit": format!("{:?}", d.unit),
        "value": opt(d.value.as_ref().map(|d| json!({"deg": d.degrees, "name": d.cardinal_direction().to_string()})))})
}

#[derive(Clone)]
pub enum Rec {
    Met(MeteorologicalDataRecord),
    Latest(LatestObsDataRecord),
}
macro_rules! fields {
    ($r:expr) => {
        [
            &$r.wind_speed,
            &$r.wind_gust_speed,
            &$r.wave_height,
            &$r.dominant_wave_period,
            &$r.average_wave_period,
            &$r.air_pressure,
            &$r.air_temperature,
            &$r.water_temperature,
            &$r.dewpoint_temperature,
            &$r.visibility,
            &$r.air_pressure_tendency,
            &$r.tide,
        ]
    };
}
impl Rec {
    pub fn numbers(&self) -> [&DimensionalData<f64>; 12] {
        match self {
            Rec::Met(r) => fields!(r),
            Rec::Latest(r) => fields!(r),
        }
    }
    pub fn bearings(&self) -> [&DimensionalData<Direction>; 2] {
        match self {
            Rec::Met(r) => [&r.wind_direction, &r.mean_wave_direction],
            Rec::Latest(r) => [&r.wind_direction, &r.mean_wave_direction],
        }
    }
    pub fn date(&self) -> DateTime<Utc> {
        match self {
            Rec::Met(r) => r.date,
            Rec::Latest(r) => r.date,
        }
    }
    pub fn quantities(&self) -> Vec<Value> {
        self.numbers().iter().map(|d| num(d)).collect()
    }
    pub fn json(&self) -> Value {
        let mut v = json!({"date": date(&self.date()), "quantities": self.quantities(),
            "bearings": self.bearings().iter().map(|d| dir(d)).collect::<Vec<_>>(), "id": ""});
        if let Rec::Latest(r) = self {
            v["id"] = json!(r.station_id);
            v["lat"] = json!(fx(r.latitude, 1000.0));
            v["lng"] = json!(fx(r.longitude, 1000.0));
        }
        v
    }
    /// Everything but its quantities
    pub fn rest(&self) -> String {
        let place = match self {
            Rec::Met(_) => String::new(),
            Rec::Latest(r) => format!("{} {} {}", r.station_id, bits(r.latitude), bits(r.longitude)),
        };
        format!("{:?} {:?} {}", self.date(), self.bearings().map(|b| b.clone()), place)
    }
    pub fn to(&mut self, sys: &UnitSystem) {
        match self {
            Rec::Met(r) => {
                r.to_units(sys);
            }
            Rec::Latest(r) => {
                r.to_units(sys);
            }
        }
    }
    pub fn swell(&self) -> SwellSummary {
        match self {
            Rec::Met(r) => r.swell_data().map_err(|e| e.to_string()).unwrap(),
            Rec::Latest(r) => r.swell_data().map_err(|e| e.to_string()).unwrap(),
        }
    }
}

fn read(kind: &str, text: &str) -> Vec<Rec> {
    if kind == "met" {
        MeteorologicalDataRecordCollection::from_data(text).records().map(Rec::Met).collect()
    } else {
        LatestObsDataRecordCollection::from_data(text).records().map(Rec::Latest).collect()
    }
}
pub fn one(kind: &str, row: &Vec<&str>) -> Option<Rec> {
    if kind == "met" {
        MeteorologicalDataRecord::from_data_row(None, row).ok().map(Rec::Met)
    } else {
        LatestObsDataRecord::from_data_row(None, row).ok().map(Rec::Latest)
    }
}

/// Some rows are those before them over again, or of the same station or minute; some hold nothing
/// but zeros, just one value, or none
fn alike(rng: &mut Rng, kind: &str, r: &mut Vec<Tok>, before: &[Tok]) {
    let at = if kind == "latest" { 3 } else { 0 };
    match rng.below(10) {
        0 if !before.is_empty() => *r = before.to_vec(),
        1 if !before.is_empty() => r[at..at + 5].clone_from_slice(&before[at..at + 5]),
        2 if !before.is_empty() => r[..at + 5].clone_from_slice(&before[..at + 5]),
        3 => r[at + 5..].iter_mut().for_each(|c| *c = int(0, 1)),
        4 | 5 => {
            let only = at + 5 + rng.below(28);
            for i in at + 5..r.len() {
                if i != only {
                    r[i] = word("MM");
                }
            }
        }
        _ => {}
    }
}

fn file(log: &mut Log, rng: &mut Rng, kind: &str, kinds: &[String]) {
    let mut text = String::new();
    let mut before: Vec<Tok> = vec![];
    let mut lines = vec![];
    let mut rows: Vec<Option<Vec<Tok>>> = vec![];
    let end = if rng.chance(1, 4) { "\r\n" } else { "\n" };
    for (i, k) in kinds.iter().enumerate() {
        let mut toks = None;
        match k.as_str() {
            "comment" => {
                let r = row(rng, kind, "good", None);
                let s = match rng.below(4) {
                    0 => "#STN     LAT      LON  YYYY MM DD hh mm WDIR WSPD   GST WVHT".to_string(),
                    1 => format!("#{}", spell(rng, &r)),
                    2 => "#\"".to_string(),
                    _ => "#".to_string(),
                };
                text.push_str(&s);
            }
            "blank" => text.push_str(if rng.chance(1, 2) { "" } else { "   " }),
            k => {
                let mut r = row(rng, kind, k, None);
                if k == "good" {
                    alike(rng, kind, &mut r, &before);
                    before = r.clone();
                }
                text.push_str(&spell(rng, &r));
                toks = Some(r);
            }
        }
        if i + 1 < kinds.len() || rng.chance(2, 3) {
            text.push_str(end);
        }
        lines.push(match &toks {
            Some(r) if !r.is_empty() => json!({"k": "row", "toks": r.iter().map(|t| t.0.clone()).collect::<Vec<_>>()}),
            _ => json!({"k": if k == "comment" { "comment" } else { "blank" }, "toks": []}),
        });
        rows.push(toks);
    }
    log.begin(format!("{kind}-{}", log.sessions), json!({"kind": kind, "lines": lines, "text": text, "quantities": []}));
    put(log, guard(|| json!({"op": "read", "records": read(kind, &text).iter().map(|r| r.json()).collect::<Vec<_>>()})));
    for (i, r) in rows.iter().enumerate() {
        if let Some(r) = r {
            let row: Vec<&str> = r.iter().map(|t| t.1.as_str()).collect();
            put(log, guard(|| json!({"op": "row", "line": i + 1, "got": opt(one(kind, &row).map(|r| r.json()))})));
        }
    }
}

pub fn system(name: &str) -> UnitSystem {
    match name {
        "Metric" => UnitSystem::Metric,
        "English" => UnitSystem::English,
        "Knots" => UnitSystem::Knots,
        _ => UnitSystem::Kelvin,
    }
}

/// One record through unit systems and into what it can be given out as
fn life(log: &mut Log, rng: &mut Rng, kind: &str, missing: &[String], ops: &[String]) {
    let r = row(rng, kind, "good", Some(missing));
    let words: Vec<&str> = r.iter().map(|t| t.1.as_str()).collect();
    let text = spell(rng, &r);
    let Ok(Some(mut rec)) = guard(|| one(kind, &words)) else {
        // Judged where rows are read
        log.begin(format!("{kind}-{}", log.sessions), json!({"kind": kind, "quantities": [], "lines": [{"k": "row", "toks": r.iter().map(|t| t.0.clone()).collect::<Vec<_>>()}], "text": text}));
        put(log, guard(|| json!({"op": "row", "line": 1, "got": opt(one(kind, &words).map(|r| r.json()))})));
        return;
    };
    let mut init = rec.json();
    init["kind"] = json!(kind);
    init["text"] = json!(text);
    init["rest"] = json!(rec.rest());
    init["epoch"] = json!([rec.date().timestamp().div_euclid(86400), rec.date().timestamp().rem_euclid(86400)]);
    log.begin(format!("{kind}-{}", log.sessions), init);
    for i in 0..=ops.len() {
        if i > 0 {
            let sys = system(&ops[i - 1]);
            put(log, guard(|| {
                rec.to(&sys);
                json!({"op": "to", "sys": ops[i - 1], "quantities": rec.quantities(), "rest": rec.rest()})
            }));
        }
        put(log, guard(|| {
            let s = rec.swell();
            let p = &s.summary;
            json!({"op": "swell", "h": num(&p.wave_height), "p": num(&p.period), "d": dir(&p.direction),
                "others": s.components.len() + p.energy.is_some() as usize + p.spectral_density.is_some() as usize + p.partition.is_some() as usize})
        }));
        if let Rec::Met(m) = &rec {
            put(log, guard(|| {
                let map: HashMap<String, DimensionalData<f64>> = m.clone().into();
                let e = map.get("date").and_then(|d| d.value).unwrap_or(f64::NAN);
                json!({"op": "map", "epoch": [(e / 86400.0).floor() as i64, e.rem_euclid(86400.0) as i64],
                    "entries": map.iter().filter(|(k, v)| k.as_str() == "date" || **k == v.variable_name).map(|(_, v)| num(v)).collect::<Vec<_>>()})
            }));
            put(log, guard(|| {
                let map: HashMap<String, Option<String>> = m.clone().into();
                let mut own: Vec<Value> = rec.numbers().iter().map(|d| json!({"path": d.variable_name, "text": opt(d.try_string())})).collect();
                own.extend(rec.bearings().iter().map(|d| json!({"path": d.variable_name, "text": opt(d.try_string())})));
                json!({"op": "texts", "own": own, "entries": map.iter().map(|(k, v)| json!({"path": k, "text": opt(v.clone())})).collect::<Vec<_>>()})
            }));
        }
        if let Rec::Latest(m) = &rec {
            put(log, guard(|| {
                let s = m.station();
                json!({"op": "place", "id": s.station_id, "lat": fx(s.latitude, 1000.0), "lng": fx(s.longitude, 1000.0)})
            }));
        }
    }
}

fn names(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect()
}

pub fn m01(log: &mut Log, rng: &mut Rng) {
    for s in log.scenarios() {
        if s.get("lines").is_some() {
            let kinds = names(&s["lines"]);
            for k in ["met", "latest"] {
                file(log, rng, k, &kinds);
            }
        } else {
            life(log, rng, s["kind"].as_str().unwrap(), &names(&s["missing"]), &names(&s["ops"]));
        }
    }
    let all = ["good", "comment", "blank", "cut", "date", "word", "place"];
    for _ in 0..log.n(150, 3000) {
        let kinds: Vec<String> = (0..rng.int(4, 25)).map(|_| if rng.chance(1, 2) { "good".to_string() } else { rng.pick(&all).to_string() }).collect();
        let k = *rng.pick(&["met", "latest"]);
        file(log, rng, k, &kinds);
    }
    // As long as real ones
    for k in ["met", "latest"] {
        let kinds: Vec<String> = (0..log.n(700, 2300)).map(|i| if i % 97 == 60 { rng.pick(&all).to_string() } else { "good".to_string() }).collect();
        file(log, rng, k, &kinds);
    }
    let systems = ["Metric", "English", "Knots", "Kelvin"];
    for _ in 0..log.n(300, 5000) {
        let k = *rng.pick(&["met", "latest"]);
        let missing: Vec<String> = MET.iter().filter(|_| rng.chance(1, 4)).map(|s| s.to_string()).collect();
        let ops: Vec<String> = (0..rng.below(7)).map(|_| rng.pick(&systems).to_string()).collect();
        life(log, rng, k, &missing, &ops);
    }
    log.finish();
}
