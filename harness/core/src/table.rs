use crate::grid::put;
use crate::util::*;
use chrono::{DateTime, Datelike, Timelike, Utc};
use serde_json::{json, Value};
use surfrs::data::grib_index_record::{GribIndexRecord, GribIndexRecordCollection};
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::data::spectral_wave_data_record::{SpectralWaveDataRecord, SpectralWaveDataRecordCollection};
use surfrs::data::wave_data_record::{WaveDataRecord, WaveDataRecordCollection};
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::SwellProvider;
use surfrs::units::Direction;

const POINTS: [&str; 16] = ["n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw"];

/// A token as the specification sees it, and as it is spelled
#[derive(Clone)]
pub struct Tok(pub Value, pub String);

pub fn int(v: i64, width: usize) -> Tok {
    Tok(json!({"t": "i", "v": v}), format!("{v:0width$}"))
}
fn decimal(v: i64) -> String {
    let s = format!("{}{}.{:03}", if v < 0 { "-" } else { "" }, v.abs() / 1000, v.abs() % 1000);
    if v % 100 == 0 {
        s[..s.len() - 2].to_string()
    } else if v % 10 == 0 {
        s[..s.len() - 1].to_string()
    } else {
        s
    }
}
pub fn dec(v: i64) -> Tok {
    Tok(json!({"t": "d", "v": v}), decimal(v))
}
fn paren(v: i64) -> Tok {
    Tok(json!({"t": "p", "v": v}), format!("({:.3})", v as f64 / 1000.0))
}
pub fn word(s: &str) -> Tok {
    Tok(json!({"t": "w", "s": s}), s.to_string())
}
fn point(rng: &mut Rng) -> Tok {
    let p = *rng.pick(&POINTS);
    Tok(json!({"t": "w", "s": p}), if rng.chance(1, 5) { p.to_string() } else { p.to_uppercase() })
}
fn stamp(y: i64, m: i64, d: i64, h: i64) -> Tok {
    Tok(json!({"t": "g", "v": [y, m, d, h]}), format!("d={y:04}{m:02}{d:02}{h:02}"))
}

pub fn days(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + (y % 4 == 0 && y % 100 != 0 || y % 400 == 0) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn good_date(rng: &mut Rng) -> [i64; 5] {
    let y = if rng.chance(1, 8) { rng.int(2036, 2099) } else { rng.int(1995, 2035) };
    let m = if rng.chance(1, 4) { 2 } else { rng.int(1, 12) };
    let d = if rng.chance(1, 3) { days(y, m) } else { rng.int(1, days(y, m)) };
    [y, m, d, if rng.chance(1, 5) { 23 } else { rng.int(0, 23) }, rng.int(0, 59)]
}
fn impossible(rng: &mut Rng) -> [i64; 5] {
    let mut d = good_date(rng);
    match rng.below(6) {
        0 => d[1] = *rng.pick(&[0, 13, 99]),
        1 => d[2] = *rng.pick(&[0, 32, 99]),
        2 => d[2] = days(d[0], d[1]) + 1,
        3 => d[3] = rng.int(24, 99),
        4 => d[4] = rng.int(60, 99),
        _ => {
            d[0] = *rng.pick(&[2019, 2021, 2100 - 1, 2023]);
            d[1] = 2;
            d[2] = 29;
        }
    }
    d
}
fn date_toks(d: &[i64; 5]) -> Vec<Tok> {
    let w = [4, 2, 2, 2, 2];
    d.iter().zip(w).map(|(v, w)| int(*v, w)).collect()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Wave,
    Spectral,
    Index,
}
impl Kind {
    fn name(&self) -> &'static str {
        match self {
            Kind::Wave => "wave",
            Kind::Spectral => "spectral",
            Kind::Index => "index",
        }
    }
}

fn value(rng: &mut Rng) -> Tok {
    match rng.below(8) {
        0 => word("MM"),
        1 => word(*rng.pick(&["-", "N/A", "**.*", "1,5", "MM.M"])),
        2 => int(rng.int(0, 30), 1),
        _ => dec(if rng.chance(1, 2) { rng.int(0, 300) * 100 } else { rng.int(0, 30000) }),
    }
}
fn bearing(rng: &mut Rng) -> Tok {
    match rng.below(6) {
        0 => word("MM"),
        1 => word(*rng.pick(&["X", "NSE", "--"])),
        2 | 3 => int(rng.int(0, 359), 1),
        _ => point(rng),
    }
}

fn good(rng: &mut Rng, kind: Kind, date: [i64; 5]) -> Vec<Tok> {
    match kind {
        Kind::Wave => {
            let mut r = date_toks(&date);
            for _ in 0..5 {
                r.push(value(rng));
            }
            r.push(bearing(rng));
            r.push(bearing(rng));
            r.push(word(*rng.pick(&["VERY_STEEP", "STEEP", "AVERAGE", "SWELL", "N/A", "MM"])));
            r.push(value(rng));
            r.push(bearing(rng));
            if rng.chance(1, 8) {
                r.push(value(rng));
            }
            r
        }
        Kind::Spectral => {
            let mut r = date_toks(&date);
            if rng.chance(1, 2) {
                r.push(dec(*rng.pick(&[9999, 120, 87, 155])));
            }
            let mut f = rng.int(20, 40);
            for _ in 0..rng.int(1, 9) {
                r.push(match rng.below(6) {
                    0 => int(rng.int(0, 360), 1),
                    1 => dec(999000),
                    _ => dec(rng.int(0, 30000)),
                });
                r.push(paren(f));
                f += rng.int(1, 20);
            }
            r
        }
        Kind::Index => {
            let words = ["REFD", "UGRD", "VGRD", "HTSGW", "surface", "2 hybrid level", "1 hour fcst", "anl", "0-1 day acc fcst", "10 m above ground", "87-88 hour ave fcst"];
            let offset = if rng.chance(1, 4) { rng.int(0, 9_000_000_000_000) } else { rng.int(0, 1_900_000_000) };
            let mut r = vec![int(if rng.chance(1, 8) { rng.int(60_000, 90_000) } else { rng.int(1, 900) }, 1), wide(offset), stamp(date[0], date[1], date[2], date[3])];
            for _ in 0..3 {
                r.push(word(*rng.pick(&words)));
            }
            // Not every message has a name or a level
            if rng.chance(1, 5) {
                r[rng.int(3, 5) as usize] = word("");
            }
            if rng.chance(1, 6) {
                r.push(word("ENS=+1"));
            }
            r
        }
    }
}

/// A whole number that may take more than 32 bits: v + hi * 10^9
fn wide(v: i64) -> Tok {
    Tok(json!({"t": "i", "v": v % 1_000_000_000, "hi": v / 1_000_000_000}), format!("{v}"))
}

/// A row of one of the kinds of the design model
fn row(rng: &mut Rng, kind: Kind, what: &str) -> Vec<Tok> {
    let date = good_date(rng);
    let mut r = good(rng, kind, date);
    match what {
        "good" => {}
        "cut" => match kind {
            Kind::Wave => r.truncate(rng.below(15)),
            Kind::Index => r.truncate(rng.below(6)),
            Kind::Spectral => {
                // Anywhere, but not right after the date or the separation frequency
                let n = rng.below(r.len());
                r.truncate(if n == 5 || n == 6 { 4 } else { n });
            }
        },
        "date" => {
            let d = impossible(rng);
            match kind {
                Kind::Index => {
                    if d[3] < 24 && d[4] > 59 {
                        r[2] = stamp(d[0], 13, d[2], d[3]);
                    } else {
                        r[2] = stamp(d[0], d[1], d[2], d[3]);
                    }
                }
                _ => {
                    for (i, t) in date_toks(&d).into_iter().enumerate() {
                        r[i] = t;
                    }
                }
            }
        }
        "word" | "quote" => {
            let w = if what == "quote" { *rng.pick(&["\"", "\"abc", "\"\"", "a\"b", "\"2018"]) } else { *rng.pick(&["MM", "x1", "2018-", "0x10", "é", "1e", "--", "9.9.9", "nonsense", "0.033)", "(0.033", "(0.033))", "()", "((0.033)"]) };
            let w = w.replace(' ', "");
            let i = match kind {
                Kind::Wave => rng.below(5),
                Kind::Index => rng.below(3),
                Kind::Spectral => {
                    let mut i = rng.below(r.len());
                    // The separation frequency may be anything
                    if r.len() % 2 == 0 && i == 5 {
                        i = 6;
                    }
                    i
                }
            };
            r[i] = word(&w);
        }
        _ => unreachable!(),
    }
    r
}

fn spell(rng: &mut Rng, kind: Kind, r: &[Tok]) -> String {
    let mut s = String::new();
    if kind == Kind::Index {
        for (i, t) in r.iter().enumerate() {
            s.push_str(&t.1);
            if i + 1 < r.len() || t.1.is_empty() || rng.chance(3, 4) {
                s.push(':');
            }
        }
        return s;
    }
    if rng.chance(1, 6) {
        s.push(' ');
    }
    for (i, t) in r.iter().enumerate() {
        if i > 0 {
            s.push_str(*rng.pick(&[" ", " ", "  ", "    "]));
        }
        s.push_str(&t.1);
    }
    if rng.chance(1, 3) {
        s.push_str("  ");
    }
    s
}

/// To the minute; a date that is no whole minute is longer
pub fn date(d: &DateTime<Utc>) -> Vec<i64> {
    let mut v = vec![d.year() as i64, d.month() as i64, d.day() as i64, d.hour() as i64, d.minute() as i64];
    if d.second() != 0 || d.nanosecond() != 0 {
        v.push(-1);
    }
    v
}
pub fn num(d: &DimensionalData<f64>) -> Value {
    ofx(d.value, 1000.0)
}
pub fn dir(d: &DimensionalData<Direction>) -> Value {
    opt(d.value.as_ref().map(|d| json!({"deg": d.degrees, "name": d.cardinal_direction().to_string()})))
}

fn wave(w: &WaveDataRecord) -> Value {
    json!({"date": date(&w.date), "height": num(&w.wave_height), "swell": num(&w.swell_wave_height), "swellperiod": num(&w.swell_wave_period),
        "wind": num(&w.wind_wave_height), "windperiod": num(&w.wind_wave_period), "swelldir": dir(&w.swell_wave_direction), "winddir": dir(&w.wind_wave_direction),
        "steepness": w.steepness.to_string(), "average": num(&w.average_wave_period), "mean": dir(&w.mean_wave_direction),
        "units": format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", w.wave_height.unit, w.swell_wave_height.unit, w.swell_wave_period.unit, w.wind_wave_height.unit,
            w.wind_wave_period.unit, w.swell_wave_direction.unit, w.wind_wave_direction.unit, w.average_wave_period.unit, w.mean_wave_direction.unit)})
}
fn spectral(w: &SpectralWaveDataRecord) -> Value {
    json!({"date": date(&w.date), "value": fxs(&w.value, 1000.0), "freq": fxs(&w.frequency, 1000.0), "sep": ofx(w.separation_frequency, 1000.0)})
}
fn index(w: &GribIndexRecord) -> Value {
    json!({"index": w.index, "offset": w.offset % 1_000_000_000, "high": w.offset / 1_000_000_000, "date": date(&w.reference_date), "var": w.var, "level": w.level, "valid": w.valid})
}

fn read(kind: Kind, text: &str) -> Vec<Value> {
    match kind {
        Kind::Wave => WaveDataRecordCollection::from_data(text).records().map(|r| wave(&r)).collect(),
        Kind::Spectral => SpectralWaveDataRecordCollection::from_data(text).records().map(|r| spectral(&r)).collect(),
        Kind::Index => GribIndexRecordCollection::from_data(text).records().map(|r| index(&r)).collect(),
    }
}
fn one(kind: Kind, row: &Vec<&str>) -> Value {
    match kind {
        Kind::Wave => opt(WaveDataRecord::from_data_row(None, row).ok().map(|r| wave(&r))),
        Kind::Spectral => opt(SpectralWaveDataRecord::from_data_row(None, row).ok().map(|r| spectral(&r))),
        Kind::Index => opt(GribIndexRecord::from_data_row(None, row).ok().map(|r| index(&r))),
    }
}

/// Some rows are those before them over again, or share their date; some hold nothing but zeros or
/// no value at all
fn alike(rng: &mut Rng, kind: Kind, r: &mut Vec<Tok>, before: &[Tok]) {
    let first = if kind == Kind::Index { 2 } else { 0 };
    let dates = if kind == Kind::Index { 2..3 } else { 0..5 };
    match rng.below(10) {
        0 if !before.is_empty() => *r = before.to_vec(),
        1 | 2 if !before.is_empty() => {
            for i in dates {
                r[i] = before[i].clone();
            }
        }
        3 if kind == Kind::Wave => {
            for i in [5, 6, 7, 8, 9, 13] {
                r[i] = dec(0);
            }
        }
        4 if kind == Kind::Wave => {
            for i in 5..15 {
                r[i] = word("MM");
            }
        }
        3 | 4 if kind == Kind::Spectral => {
            let from = 5 + (r.len() - 5) % 2;
            for i in (from..r.len()).step_by(2) {
                r[i] = dec(0);
            }
        }
        3 if kind == Kind::Index => r[first - 1] = wide(0),
        _ => {}
    }
}

fn file(log: &mut Log, rng: &mut Rng, kind: Kind, kinds: &[String]) {
    let mut text = String::new();
    let mut before: Vec<Tok> = vec![];
    let mut lines = vec![];
    let mut rows: Vec<Option<Vec<Tok>>> = vec![];
    let end = if rng.chance(1, 4) { "\r\n" } else { "\n" };
    for (i, k) in kinds.iter().enumerate() {
        let mut toks = None;
        match k.as_str() {
            "comment" => {
                let r = row(rng, kind, "good");
                let s = match rng.below(4) {
                    0 => "#YY  MM DD hh mm WVHT  SwH  SwP".to_string(),
                    1 => format!("#{}", spell(rng, kind, &r)),
                    2 => "#\"".to_string(),
                    _ => "#".to_string(),
                };
                text.push_str(&s);
            }
            "blank" => text.push_str(if rng.chance(1, 2) { "" } else { "   " }),
            k => {
                let mut r = row(rng, kind, k);
                if k == "good" {
                    alike(rng, kind, &mut r, &before);
                    before = r.clone();
                }
                text.push_str(&spell(rng, kind, &r));
                toks = Some(r);
            }
        }
        if i + 1 < kinds.len() || rng.chance(2, 3) {
            text.push_str(end);
        }
        lines.push(match &toks {
            Some(r) if !r.is_empty() => json!({"k": "row", "toks": r.iter().map(|t| t.0.clone()).collect::<Vec<_>>()}),
            _ => json!({"k": if k == "comment" { "comment" } else { "blank" }, "toks": []}),
        });
        rows.push(toks);
    }
    log.begin(format!("{}-{}", kind.name(), log.sessions), json!({"kind": kind.name(), "lines": lines, "text": text}));
    put(log, guard(|| json!({"op": "read", "records": read(kind, &text)})));
    for (i, r) in rows.iter().enumerate() {
        if let Some(r) = r {
            let row: Vec<&str> = r.iter().map(|t| t.1.as_str()).collect();
            put(log, guard(|| json!({"op": "row", "line": i + 1, "got": one(kind, &row)})));
        }
    }
}

const KINDS: [Kind; 3] = [Kind::Wave, Kind::Spectral, Kind::Index];

pub fn r01(log: &mut Log, rng: &mut Rng) {
    for s in log.scenarios() {
        let kinds: Vec<String> = s["lines"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
        if kinds.len() >= 4 && !log.thorough {
            // The longest in turn for one of the tables
            let k = KINDS[rng.below(3)];
            file(log, rng, k, &kinds);
        } else {
            for k in KINDS {
                file(log, rng, k, &kinds);
            }
        }
    }
    let all = ["good", "comment", "blank", "cut", "date", "word", "quote"];
    // As long as real ones, and longer
    for k in KINDS {
        let kinds: Vec<String> = (0..log.n(700, 2300)).map(|i| if i % 97 == 60 { rng.pick(&all).to_string() } else { "good".to_string() }).collect();
        file(log, rng, k, &kinds);
    }
    for _ in 0..log.n(400, 8000) {
        let kinds: Vec<String> = (0..rng.int(5, 30)).map(|_| if rng.chance(1, 2) { "good".to_string() } else { rng.pick(&all).to_string() }).collect();
        let k = KINDS[rng.below(3)];
        file(log, rng, k, &kinds);
    }
    log.finish();
}

fn fields(log: &mut Log, rng: &mut Rng, kind: Kind, r: &[Tok]) {
    let text = spell(rng, kind, r);
    log.begin(format!("{}-{}", kind.name(), log.sessions), json!({"kind": kind.name(), "row": r.iter().map(|t| t.0.clone()).collect::<Vec<_>>(), "text": text}));
    let row: Vec<&str> = r.iter().map(|t| t.1.as_str()).collect();
    put(log, guard(|| json!({"op": "row", "got": one(kind, &row)})));
    put(log, guard(|| json!({"op": "read", "got": read(kind, &text)})));
    if kind == Kind::Wave {
        put(log, guard(|| {
            let w = WaveDataRecord::from_data_row(None, &row).map_err(|e| e.to_string()).unwrap();
            let s = w.swell_data().map_err(|e| e.to_string()).unwrap();
            let mut all = vec![s.summary];
            all.extend(s.components);
            json!({"op": "swell", "parts": all.iter().map(|p| json!({"h": num(&p.wave_height), "p": num(&p.period), "d": dir(&p.direction),
                "units": format!("{:?} {:?} {:?}", p.wave_height.unit, p.period.unit, p.direction.unit)})).collect::<Vec<_>>()})
        }));
    }
}

pub fn r02(log: &mut Log, rng: &mut Rng) {
    // Every set of columns missing, the rest all different
    for mask in 0..(1u32 << 9) {
        let d = good_date(rng);
        let mut r = date_toks(&d);
        let base = rng.int(1, 40);
        for c in 0..10 {
            let k = if c > 7 { c - 1 } else { c };
            let gone = c != 7 && mask >> k & 1 == 1;
            r.push(match c {
                5 | 6 | 9 => {
                    if gone {
                        word("MM")
                    } else if rng.chance(1, 2) {
                        int(c * 30 + base, 1)
                    } else {
                        let p = POINTS[((base + c) % 16) as usize];
                        Tok(json!({"t": "w", "s": p}), p.to_uppercase())
                    }
                }
                7 => word(*rng.pick(&["VERY_STEEP", "STEEP", "AVERAGE", "SWELL", "N/A"])),
                _ => {
                    if gone {
                        word(*rng.pick(&["MM", "MM", "-", "x"]))
                    } else {
                        dec((base + c * 7) * 100)
                    }
                }
            });
        }
        fields(log, rng, Kind::Wave, &r);
    }
    for _ in 0..log.n(2500, 40000) {
        let kind = KINDS[rng.below(3)];
        let d = good_date(rng);
        let r = good(rng, kind, d);
        fields(log, rng, kind, &r);
    }
    // The number of bins of real files
    for n in [1, 46, 47, 64, 65, 66, 80, 99, 130] {
        for sep in [true, false] {
            let d = good_date(rng);
            let mut r = date_toks(&d);
            if sep {
                r.push(dec(9999));
            }
            for k in 0..n {
                r.push(dec(1000 + 7 * k));
                r.push(paren(20 + 5 * k));
            }
            fields(log, rng, Kind::Spectral, &r);
        }
    }
    log.finish();
}
