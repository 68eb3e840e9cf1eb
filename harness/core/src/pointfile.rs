use crate::grid::put;
use crate::table::days;
use crate::util::*;
use chrono::{DateTime, Datelike, Timelike, Utc};
use serde_json::{json, Value};
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::units::Direction;

/// A number as Fortran writes it: 0.mmmE+ee, mantissa of three digits
#[derive(Clone, Copy)]
struct E10(i64, i64);
impl E10 {
    fn text(&self) -> String {
        format!("0.{:03}E{}{:02}", self.0, if self.1 < 0 { '-' } else { '+' }, self.1.abs())
    }
    /// In units of 10^-unit
    fn whole(&self, unit: u32) -> i64 {
        self.0 * 10i64.pow((self.1 - 3 + unit as i64) as u32)
    }
}

#[derive(Clone)]
struct Line {
    facts: Value,
    text: String,
}

#[derive(Clone)]
struct File {
    nf: usize,
    nd: usize,
    np: usize,
    ok: bool,
    head: String,
    lines: Vec<Line>,
    header_lines: usize,
    frequency_lines: usize,
    /// First line of each record
    size: usize,
}

fn nums(v: &[E10], unit: u32, gap: &str, radians: bool) -> Line {
    let facts: Vec<i64> = v.iter().map(|e| if radians { e.whole(3) } else { e.whole(unit) }).collect();
    Line { facts: json!({"k": "nums", "v": facts, "bad": false, "tail": false}), text: v.iter().map(|e| format!("{gap}{}", e.text())).collect() }
}

fn chunks(out: &mut Vec<Line>, v: &[E10], per: usize, unit: u32, gap: &str, radians: bool) {
    for c in v.chunks(per) {
        out.push(nums(c, unit, gap, radians));
    }
}

/// A file of `records` records, each of `per` energy lines where that is given
fn make(rng: &mut Rng, records: usize, shape: Option<(usize, usize)>) -> File {
    let (nf, nd, per) = match shape {
        // As in the design model: so many lines of so many numbers
        Some((lines, per)) => {
            let nf = *rng.pick(&(1..=lines * per).filter(|n| lines * per % n == 0).collect::<Vec<_>>());
            (nf, lines * per / nf, per)
        }
        None => match rng.below(13) {
            12 => (rng.int(51, 99) as usize, rng.int(1, 2) as usize, rng.int(5, 9) as usize),
            0 => (rng.int(10, 50) as usize, rng.int(1, 9) as usize, rng.int(5, 9) as usize),
            1 => (rng.int(1, 9) as usize, rng.int(10, 72) as usize, rng.int(5, 9) as usize),
            2 => (rng.int(10, 15) as usize, rng.int(10, 36) as usize, rng.int(7, 9) as usize),
            _ => (rng.int(1, 9) as usize, rng.int(1, 9) as usize, rng.int(1, 9) as usize),
        },
    };
    let mut lines = vec![];
    let mut f = vec![];
    let mut m = rng.int(100, 300);
    let mut ex = -1;
    for _ in 0..nf {
        f.push(E10(m, ex));
        m += rng.int(10, 90);
        if m > 999 {
            ex += 1;
            m = m / 10 + 1;
        }
    }
    chunks(&mut lines, &f, rng.int(1, 8) as usize, 5, " ", false);
    let frequency_lines = lines.len();
    // Clockwise from east in steps around the circle, as the model writes them
    let d: Vec<E10> = (0..nd)
        .map(|i| {
            let rad = (std::f64::consts::PI * 0.5 - 0.1 - 2.0 * std::f64::consts::PI * i as f64 / nd as f64).rem_euclid(2.0 * std::f64::consts::PI);
            E10((rad * 100.0).round() as i64, 1)
        })
        .collect();
    chunks(&mut lines, &d, rng.int(1, 7) as usize, 3, "  ", true);
    let header_lines = lines.len();
    let (mut y, mut mo, mut da, mut h) = (rng.int(2000, 2035), *rng.pick(&[1, 2, 2, 6, 12]), 0, rng.int(0, 23));
    da += if rng.chance(1, 2) { days(y, mo) } else { rng.int(1, days(y, mo)) };
    let mi = if rng.chance(1, 4) { rng.int(0, 59) } else { 0 };
    let mut size = 0;
    for r in 0..records {
        let from = lines.len();
        lines.push(Line { facts: json!({"k": "date", "v": [y, mo, da, h, mi], "ok": true}), text: format!("{y:04}{mo:02}{da:02} {h:02}{mi:02}00") });
        // Several points may share a time
        if !rng.chance(1, 8) {
            h += rng.int(1, 9);
        }
        // Runs pasted together
        if rng.chance(1, 40) {
            y -= 1;
            da = da.min(28);
        }
        if h > 23 {
            h -= 24;
            da += 1;
        }
        if da > days(y, mo) {
            da = 1;
            mo += 1;
        }
        if mo > 12 {
            mo = 1;
            y += 1;
        }
        let mut p = [rng.int(-9000, 9000), rng.int(-18000, 18000), rng.int(0, 60000), rng.int(0, 6000), rng.int(0, 3599), rng.int(0, 300), rng.int(0, 3600)];
        match rng.below(12) {
            0 => p[rng.below(7)] = 0,
            1 => p = [0; 7],
            2 => (p[2], p[3], p[5]) = (rng.int(60000, 110000), rng.int(9900, 12000), rng.int(300, 2000)),
            _ => {}
        }
        let name = *rng.pick(&["44097", "51201", "ILM01", "A1234567", "1"]);
        let t: String = [2, 2, 1, 2, 1, 2, 1]
            .iter()
            .zip([7, 7, 10, 7, 6, 7, 6])
            .zip(p)
            .map(|((places, width), v)| {
                let (v, places): (f64, usize) = (v as f64, *places as usize);
                format!("{:width$.places$}", v / 10f64.powi(places as i32))
            })
            .collect();
        lines.push(Line { facts: json!({"k": "point", "v": p}), text: format!("'{name:<10}'{t}") });
        let flat = rng.chance(1, 10);
        let e: Vec<E10> = (0..nf * nd)
            .map(|i| match rng.below(4) {
                _ if flat => E10(0, 0),
                0 => E10(0, 0),
                1 => E10(100 + (r * 31 + i) as i64 % 900, rng.int(-2, 2)),
                _ => E10(rng.int(100, 999), rng.int(-2, 2)),
            })
            .collect();
        chunks(&mut lines, &e, per, 5, " ", false);
        size = lines.len() - from;
    }
    let points = if rng.chance(1, 4) { 99 } else { 9 };
    File { nf, nd, np: rng.int(1, points) as usize, ok: true, head: String::new(), lines, header_lines, frequency_lines, size }
}

fn head(f: &mut File) {
    f.head = format!("'WAVEWATCH III SPECTRA'     {:2}    {:2}     {} 'spectral resolution for points'", f.nf, f.nd, f.np);
}

fn damage(rng: &mut Rng, f: &mut File, at: usize, what: &str) {
    if at >= f.lines.len() {
        return;
    }
    let line = &mut f.lines[at];
    let kind = line.facts["k"].as_str().unwrap().to_string();
    match what {
        "drop" => {
            f.lines.remove(at);
        }
        "end" => f.lines.truncate(at),
        "twice" => {
            let again = f.lines[at].clone();
            f.lines.insert(at, again);
        }
        // All of the record from its second line on, or less of it
        "rest" if kind == "date" => {
            while f.lines.len() > at + 1 && f.lines[at + 1].facts["k"] != json!("date") {
                f.lines.remove(at + 1);
            }
        }
        "garble" => {
            line.text = match kind.as_str() {
                "point" => match rng.below(4) {
                    // A number overflowed, or the line broke off
                    0 => line.text.replacen(|c: char| c == '.', "*", 1).replace("*", "**"),
                    1 => line.text[..line.text.len() - 7].to_string(),
                    2 => line.text.replace('.', " "),
                    _ => "".to_string(),
                },
                _ => rng.pick(&["", "x", "é", "2022-", "20220x", "20220912 0x", "2022é912 060000", "20x20912 060000", "'44097     '", "NaN?", "------------------", "2022-09-12 06:00"]).to_string(),
            };
            if line.text.is_empty() {
                line.facts = json!({"k": "blank"});
            } else {
                line.facts = json!({"k": "text"});
            }
        }
        "cut" | "more" | "stars" if kind == "nums" && (what == "stars" || line.facts["bad"] == json!(false)) => {
            let mut toks: Vec<String> = line.text.split_whitespace().map(|t| t.to_string()).collect();
            let mut v: Vec<i64> = line.facts["v"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
            match what {
                "cut" => {
                    if toks.len() > 1 {
                        toks.pop();
                        v.pop();
                    }
                }
                "more" => {
                    toks.push("0.000E+00".into());
                    v.push(0);
                }
                _ => {
                    let i = rng.below(toks.len());
                    toks[i] = rng.pick(&["*********", "0.123-100", "0.12E", "0,5", "--", "0.1.2"]).to_string();
                    line.facts["bad"] = json!(true);
                }
            }
            line.facts["v"] = json!(v);
            line.text = toks.iter().map(|t| format!(" {t}")).collect();
        }
        "impossible" if kind == "date" => {
            let t = line.text.clone();
            line.text = match rng.below(5) {
                0 => format!("{}13{}", &t[..4], &t[6..]),
                1 => format!("{}0230{}", &t[..4], &t[8..]),
                2 => format!("{}00{}", &t[..6], &t[8..]),
                3 => format!("{}24{}", &t[..9], &t[11..]),
                _ => format!("{}60{}", &t[..11], &t[13..]),
            };
            line.facts["ok"] = json!(false);
        }
        _ => {}
    }
}

use crate::table::date;
fn deg(d: &DimensionalData<Direction>) -> Value {
    opt(d.value.as_ref().map(|d| d.degrees))
}

fn read(text: &str) -> Value {
    let mut c = ForecastSpectralWaveDataRecordCollection::from_data(text);
    let got = match c.records() {
        Err(_) => return json!([]),
        Ok((m, records)) => {
            let axes: Vec<i64> = m.direction.iter().map(|d| d.degrees as i64).collect();
            let records: Vec<Value> = records
                .take(10_000)
                .map(|r| {
                    json!({"date": date(&r.date), "ref": date(&r.reference_date), "lat": fx(r.location.latitude, 100.0), "lon": fx(r.location.longitude, 100.0),
                        "depth": ofx(r.depth.value, 10.0), "ws": ofx(r.wind_speed.value, 100.0), "wd": deg(&r.wind_direction),
                        "cs": ofx(r.current_speed.value, 100.0), "cd": deg(&r.current_direction), "e": fxs(&r.spectra.energy, 1e5),
                        "units": format!("{:?} {:?} {:?} {:?} {:?} {:?}", r.depth.unit, r.wind_speed.unit, r.wind_direction.unit, r.current_speed.unit, r.current_direction.unit, r.spectra.dir_convention),
                        "axes": r.spectra.frequency == m.frequency && r.spectra.direction_raw().iter().map(|d| d.to_degrees().round() as i64).collect::<Vec<_>>() == axes})
                })
                .collect();
            json!({"np": m.point_count, "freq": fxs(&m.frequency, 1e5), "dirs": axes, "records": records})
        }
    };
    let mut got = got;
    let mut ended = false;
    let mut items = 0;
    if let Ok(mut it) = ForecastSpectralWaveRecordIterator::from_data(text) {
        for _ in 0..10_000 {
            match it.next() {
                Some(Ok(_)) => items += 1,
                Some(Err(_)) => {}
                None => {
                    ended = it.next().is_none();
                    break;
                }
            }
        }
    }
    got["items"] = json!(items);
    got["ended"] = json!(ended);
    json!([got])
}

fn begin(log: &mut Log, f: &File) {
    log.begin(
        format!("file-{}", log.sessions),
        json!({"header": f.ok, "nf": f.nf, "nd": f.nd, "np": f.np, "head": f.head, "lines": f.lines.iter().map(|l| l.facts.clone()).collect::<Vec<_>>(),
            "text": f.lines.iter().map(|l| l.text.clone()).collect::<Vec<_>>()}),
    );
}

fn whole(log: &mut Log, f: &File, end: &str) {
    let mut text = f.head.clone();
    // Lines may be padded with blanks
    let pad = if f.lines.len() % 3 == 0 { "  " } else { "" };
    for l in &f.lines {
        text.push_str(end);
        text.push_str(&l.text);
        if l.facts["k"] != json!("text") && !l.text.is_empty() {
            text.push_str(pad);
        }
    }
    text.push_str(end);
    put(log, guard(|| json!({"op": "read", "first": true, "upto": f.lines.len(), "partial": [], "got": read(&text)})));
}

/// The file up to a place within line k (0 the header), `keep` characters of it
fn cut(log: &mut Log, f: &File, k: usize, keep: usize) {
    let mut text = String::new();
    let mut partial = vec![];
    if k == 0 {
        text.push_str(&f.head[..keep]);
    } else {
        text.push_str(&f.head);
        for l in &f.lines[..k - 1] {
            text.push('\n');
            text.push_str(&l.text);
        }
        text.push('\n');
        let line = &f.lines[k - 1];
        let kept = &line.text[..keep];
        text.push_str(kept);
        match line.facts["k"].as_str().unwrap() {
            "nums" => {
                let n = kept.split_whitespace().count();
                if n > 0 {
                    let v: Vec<i64> = line.facts["v"].as_array().unwrap().iter().take(n).map(|v| v.as_i64().unwrap()).collect();
                    partial.push(json!({"k": "nums", "v": v, "bad": line.facts["bad"], "tail": true}));
                }
            }
            // Nothing follows it: no record
            _ => partial.push(json!({"k": "text"})),
        }
    }
    let first = k > 0;
    put(log, guard(|| json!({"op": "read", "first": first, "upto": if k == 0 { 0 } else { k - 1 }, "partial": partial, "got": read(&text)})));
}

pub fn f01(log: &mut Log, rng: &mut Rng) {
    // The damages of the design model
    for s in log.scenarios() {
        let mut f = make(rng, 3, Some((2, 2)));
        if f.size != 4 {
            continue;
        }
        head(&mut f);
        let from = f.header_lines;
        for d in s["damage"].as_array().unwrap() {
            let at = from + d["at"].as_u64().unwrap() as usize - 1;
            damage(rng, &mut f, at, d["what"].as_str().unwrap());
        }
        begin(log, &f);
        whole(log, &f, if rng.chance(1, 4) { "\r\n" } else { "\n" });
    }
    let kinds = ["drop", "garble", "cut", "more", "stars", "impossible", "end", "twice", "rest", "rest"];
    for i in 0..log.n(300, 6000) {
        let n = rng.int(0, 6) as usize;
        let mut f = make(rng, n, None);
        head(&mut f);
        // Header lines too
        for _ in 0..i % 4 {
            let n = f.lines.len();
            let mut at = if rng.chance(1, 4) { rng.below(f.header_lines) } else { rng.below(n.max(1)) };
            let w = *rng.pick(&kinds);
            if w == "rest" {
                let dates: Vec<usize> = (0..n).filter(|i| f.lines[*i].facts["k"] == json!("date")).collect();
                if dates.is_empty() {
                    continue;
                }
                at = *rng.pick(&dates);
            }
            // Surplus frequencies but for the last would shift into the directions unseen
            if at + 1 < f.frequency_lines && (w == "more" || w == "twice") || at + 1 == f.frequency_lines && w == "twice" {
                continue;
            }
            if !(at < f.header_lines && w == "cut" && f.lines.len() > at && f.lines[at].text.split_whitespace().count() < 2) {
                damage(rng, &mut f, at, w);
            }
        }
        if rng.chance(1, 12) {
            f.ok = false;
            f.head = match rng.below(4) {
                0 => "".into(),
                1 => f.head.replace("SPECTRA'", "SPECTRA"),
                2 => "'WAVEWATCH III SPECTRA'     ** **  1".into(),
                _ => format!("'WAVEWATCH III SPECTRA'     {}", f.nf),
            };
        }
        begin(log, &f);
        whole(log, &f, if rng.chance(1, 4) { "\r\n" } else { "\n" });
    }
    // Cut everywhere
    for _ in 0..log.n(25, 250) {
        let n = rng.int(1, 3) as usize;
        let shape = Some((rng.int(1, 3) as usize, rng.int(1, 4) as usize));
        let mut f = make(rng, n, shape);
        head(&mut f);
        begin(log, &f);
        for k in 0..=f.lines.len() {
            let n = if k == 0 { f.head.find('\'').map(|_| 40).unwrap() } else { f.lines[k - 1].text.len() };
            for keep in 0..=n {
                // Every place of the last lines, some of the others
                if log.thorough || keep == 0 || keep == n || rng.chance(1, 3) {
                    cut(log, &f, k, keep);
                }
            }
        }
        whole(log, &f, "\n");
    }
    // As far ahead as the model goes, by the hour
    let mut f = make(rng, 385, Some((1, 2)));
    head(&mut f);
    begin(log, &f);
    whole(log, &f, "\n");
    for (i, what) in ["rest", "impossible", "stars"].iter().enumerate() {
        let k = match i {
            0 | 1 => "date",
            _ => "nums",
        };
        let ats: Vec<usize> = (f.header_lines + 600..f.lines.len()).filter(|j| f.lines[*j].facts["k"] == json!(k)).collect();
        let at = *rng.pick(&ats);
        damage(rng, &mut f, at, what);
    }
    begin(log, &f);
    whole(log, &f, "\n");
    // As large as real ones
    let mut f = make(rng, 2, None);
    let g = {
        let (nf, nd) = (50, 36);
        f.nf = nf;
        f.nd = nd;
        let mut lines = vec![];
        let fr: Vec<E10> = (0..nf).map(|i| E10(100 + 17 * i as i64, 0)).collect();
        chunks(&mut lines, &fr, 8, 5, " ", false);
        let d: Vec<E10> = (0..nd).map(|i| E10((((8.9 - i as f64 / 36.0) * 2.0 * std::f64::consts::PI).rem_euclid(2.0 * std::f64::consts::PI) * 100.0).round() as i64, 1)).collect();
        chunks(&mut lines, &d, 7, 3, "  ", true);
        for r in 0..3 {
            lines.push(Line { facts: json!({"k": "date", "v": [2022, 9, 12, 6 + r, 0], "ok": true}), text: format!("20220912 {:02}0000", 6 + r) });
            lines.push(Line { facts: json!({"k": "point", "v": [2163, -15811, 2000, 745, 681, 0, 0]}), text: "'51201     '  21.63-158.11     200.0   7.45  68.1   0.00   0.0".into() });
            let e: Vec<E10> = (0..nf * nd).map(|_| E10(rng.int(0, 999), rng.int(-2, 2))).collect();
            chunks(&mut lines, &e, 7, 5, " ", false);
        }
        f.header_lines = 13;
        f.frequency_lines = 7;
        f.lines = lines;
        head(&mut f);
        f
    };
    begin(log, &g);
    whole(log, &g, "\n");
    for _ in 0..6 {
        let k = rng.below(g.lines.len()) + 1;
        let keep = rng.below(g.lines[k - 1].text.len());
        cut(log, &g, k, keep);
    }
    for what in ["stars", "drop", "garble"] {
        let mut d = g.clone();
        let at = 13 + 2 + rng.below(250);
        damage(rng, &mut d, at, what);
        begin(log, &d);
        whole(log, &d, "\n");
    }
    log.finish();
}
