use crate::grid::put;
use crate::table::{date, days, dir, num};
use crate::util::*;
use serde_json::{json, Value};
use std::str::FromStr;
use surfrs::data::forecast_cbulletin_wave_data_record::{ForecastCBulletinWaveRecord, ForecastCBulletinWaveRecordCollection, ForecastCBulletinWaveRecordMetadata};
use surfrs::data::parseable_data_record::ParseableDataRecord;
use surfrs::swell::{Swell, SwellProvider};
use surfrs::units::{Unit, UnitConvertible, UnitSystem};

struct Tok(Value, String);

fn when(d: i64, h: i64) -> Tok {
    Tok(json!({"t": "h", "d": d, "h": h}), format!("{d:02}{h:02}"))
}
fn int(v: i64, width: usize) -> Tok {
    Tok(json!({"t": "i", "v": 1000 * v}), format!("{v:0width$}"))
}
/// A height or period to a tenth
fn tenths(v: i64) -> Tok {
    Tok(json!({"t": "x", "v": 100 * v}), format!("{}.{}", v / 10, v % 10))
}
fn word(s: &str) -> Tok {
    Tok(json!({"t": "w"}), s.to_string())
}

fn component(c: &Swell) -> Value {
    let p = c.period.value.unwrap_or(f64::NAN);
    let meters = c.wave_height.unit.convert(c.wave_height.value.unwrap_or(f64::NAN), &Unit::Meters);
    let e = c.energy.as_ref().and_then(|e| e.value).unwrap_or(f64::NAN);
    json!({"h": num(&c.wave_height), "p": num(&c.period), "d": dir(&c.direction), "units": format!("{:?} {:?}", c.wave_height.unit, c.period.unit),
        "ratio": fx(e / (meters * meters * p * p), 1e6)})
}

fn record(r: &ForecastCBulletinWaveRecord) -> Value {
    let swell = r.swell_data().ok().map(|s| json!({"h": num(&s.summary.wave_height), "p": num(&s.summary.period), "d": dir(&s.summary.direction), "n": s.components.len()}));
    json!({"date": date(&r.date), "h": num(&r.significant_wave_height), "units": format!("{:?}", r.significant_wave_height.unit),
        "components": r.swell_components.iter().map(component).collect::<Vec<_>>(), "swell": opt(swell)})
}

fn read(text: &str) -> Value {
    let mut c = ForecastCBulletinWaveRecordCollection::from_data(text);
    let got = match c.records() {
        Ok((m, records)) => json!([{
            "header": {"name": m.location.name, "lat": fx(m.location.latitude, 100.0), "lon": fx(m.location.longitude, 100.0), "date": date(&m.model_run_date)},
            "records": records.map(|r| record(&r)).collect::<Vec<_>>()}]),
        Err(_) => json!([]),
    };
    got
}

fn row(rng: &mut Rng, d: i64, h: i64) -> Vec<Tok> {
    let fine = rng.chance(1, 5);
    // In feet, of hurricanes too
    let top = if rng.chance(1, 10) { 99 } else { 60 };
    let total = if fine { tenths(rng.int(0, 10 * top)) } else { int(rng.int(0, top), 1) };
    let mut r = vec![when(d, h), total];
    for _ in 0..*rng.pick(&[0, 1, 1, 2, 3, 4, 5, 6, 6, 7, 9, 12]) {
        r.push(if fine && rng.chance(1, 2) { tenths(rng.int(0, 450)) } else { int(rng.int(0, 45), 1) });
        r.push(if fine && rng.chance(1, 2) { tenths(rng.int(10, 250)) } else { int(rng.int(1, 25), 2) });
        r.push(int(if rng.chance(1, 12) { 360 } else { rng.int(0, 359) }, 3));
    }
    r
}

fn file(log: &mut Log, rng: &mut Rng, run: [i64; 3], damaged: bool, hourly: bool) {
    let run = [run[0], run[1], run[2], *rng.pick(&[0, 6, 12, 18])];
    let mut rows: Vec<Vec<Tok>> = vec![];
    // The days ahead in order, an hour each
    let (mut y, mut m, mut d) = (run[0], run[1], run[2]);
    for k in 0..(if hourly { 385 } else { 17 }) {
        let h = if hourly { (run[3] + k) % 24 } else { *rng.pick(&[0, 1, 12, 22, 23]) };
        let mut r = row(rng, d, h);
        if damaged && rng.chance(1, 2) {
            match rng.below(8) {
                0 => r.truncate(rng.below(r.len())),
                1 => {
                    let i = 2 + rng.below(r.len() - 1);
                    if i < r.len() {
                        r[i] = word(*rng.pick(&["**", "xx", "-", "\""]));
                    } else {
                        r.push(int(7, 1));
                    }
                }
                2 => r[0] = word(*rng.pick(&["1", "é", "1é00", "12", "xx18", "12xx", "-------", "DD", "é123", "\"1200", "12é"])),
                3 => r[0] = when(d, rng.int(24, 99)),
                4 => r[0] = when(*rng.pick(&[0, 32, 99]), h),
                5 => r[0] = when(rng.int(29, 31), h),
                6 => r[1] = word("**"),
                _ => r = vec![],
            }
        }
        rows.push(r);
        if hourly && h < 23 {
            continue;
        }
        d += 1;
        if d > days(y, m) {
            d = 1;
            m += 1;
            if m > 12 {
                m = 1;
                y += 1;
            }
        }
    }
    let form = rng.below(6);
    let whole = match form {
        1 => 10,
        2 => 100,
        _ => 1,
    };
    let (lat, lon) = (rng.int(0, 9000) / whole * whole, rng.int(0, 18000) / whole * whole);
    let (south, west) = (rng.chance(1, 2), rng.chance(1, 2));
    let name = *rng.pick(&["44097", "TPC55", "42001", "WRB07", "Long Islnd"]);
    let (mut location, mut cycle) = (true, true);
    let mut at = run;
    // To hundredths, to tenths, in whole degrees, or with a sign of its own
    let part = |v: i64, width: usize| match form {
        1 => format!("{:.1}", v as f64 / 100.0),
        2 => format!("{}", v / 100),
        3 => format!("+{:.2}", v as f64 / 100.0),
        4 if v < 100 => format!(".{v:02}"),
        _ => format!("{:width$.2}", v as f64 / 100.0),
    };
    let mut loc = format!("Location : {:<10} ({}{} {}{})", name, part(lat, 5), if south { 'S' } else { 'N' }, part(lon, 6), if west { 'W' } else { 'E' });
    let mut cyc = format!("Cycle    : {:04}{:02}{:02} {:2} UTC", run[0], run[1], run[2], run[3]);
    if damaged && rng.chance(1, 3) {
        match rng.below(7) {
            0 => {
                loc = "".into();
                location = false;
            }
            1 => {
                loc = loc.replace(|c| c == '(', "");
                location = false;
            }
            2 => {
                loc = loc.replace(if south { "S " } else { "N " }, "  ").replacen("Location", "Location", 1);
                location = false;
            }
            3 => {
                cyc = "Cycle    : UTC".into();
                cycle = false;
            }
            4 => {
                cyc = "".into();
                cycle = false;
            }
            5 => {
                at[1] = 13;
                cyc = format!("Cycle    : {:04}{:02}{:02} {:2} UTC", at[0], at[1], at[2], at[3]);
            }
            _ => {
                at[3] = rng.int(24, 99);
                cyc = format!("Cycle    : {:04}{:02}{:02} {:2} UTC", at[0], at[1], at[2], at[3]);
            }
        }
    }
    let end = if rng.chance(1, 4) { "\r\n" } else { "\n" };
    let dashes = "-".repeat(67);
    let mut lines = vec![loc, "Model    : spectral resolution for points".to_string(), cyc];
    lines.push(if rng.chance(1, 4) { "   ".into() } else { "".into() });
    lines.push("DDHH HS SS PP DDD SS PP DDD SS PP DDD SS PP DDD SS PP DDD SS PP DDD".into());
    lines.push(dashes.clone());
    let spell = |r: &Vec<Tok>| {
        let mut s = String::new();
        for (i, t) in r.iter().enumerate() {
            s.push_str(&match i {
                0 => t.1.clone(),
                i if i >= 2 && i % 3 == 0 || i == 1 => format!(" {:>2}", t.1),
                _ => format!(" {:>2}", t.1),
            });
            if i > 1 && (i - 1) % 3 == 0 {
                s.push(' ');
            }
        }
        format!("{s:<67}")
    };
    for r in &rows {
        lines.push(spell(r));
    }
    lines.push(dashes);
    for legend in ["DD  = Day of Month", "HH  = Hour of Day", "HS  = Total Significant Wave Height (feet)", "DDD = Mean Direction of separate system (degrees,\"from\")"] {
        lines.push(legend.into());
    }
    // Cut anywhere in the rows
    if damaged && rng.chance(1, 5) {
        let keep = rng.below(rows.len() + 1);
        lines.truncate(6 + keep);
        rows.truncate(keep);
    }
    let mut text = lines.join(end);
    if rng.chance(1, 2) {
        text.push_str(end);
    }
    log.begin(
        format!("run-{}", log.sessions),
        json!({"header": {"location": location, "cycle": cycle, "run": at, "name": name, "lat": lat, "south": south, "lon": lon, "west": west},
            "rows": rows.iter().filter(|r| !r.is_empty()).map(|r| r.iter().map(|t| t.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>(), "text": text}),
    );
    put(log, guard(|| json!({"op": "read", "got": read(&text)})));
    let head = lines[..3].join("\n");
    if let Ok(Ok(m)) = guard(|| ForecastCBulletinWaveRecordMetadata::from_str(&head)) {
        for (i, r) in rows.iter().filter(|r| !r.is_empty()).enumerate() {
            let toks: Vec<&str> = r.iter().map(|t| t.1.as_str()).collect();
            put(log, guard(|| {
                let got = ForecastCBulletinWaveRecord::from_data_row(Some(&m), &toks).ok().map(|mut r| {
                    r.to_units(&UnitSystem::English);
                    record(&r)
                });
                json!({"op": "row", "row": i + 1, "got": opt(got)})
            }));
        }
    }
}

pub fn b01(log: &mut Log, rng: &mut Rng) {
    for s in log.scenarios() {
        let r: Vec<i64> = s["run"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
        file(log, rng, [r[0], r[1], r[2]], false, false);
        file(log, rng, [r[0], r[1], r[2]], true, false);
    }
    for _ in 0..log.n(200, 6000) {
        let (y, m) = (rng.int(2000, 2099), *rng.pick(&[1, 2, 2, 3, 4, 11, 12, 12]));
        let d = days(y, m) - rng.int(0, 5);
        file(log, rng, [y, m, d], true, false);
    }
    // As far ahead as the model goes, by the hour
    for m in [2, 12, 6] {
        file(log, rng, [2024, m, days(2024, m) - 9], false, true);
    }
    log.finish();
}
