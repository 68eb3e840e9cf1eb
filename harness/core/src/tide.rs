use crate::grid::put;
use crate::table::{date, days};
use crate::util::*;
use chrono::{TimeZone, Utc};
use serde_json::{json, Map, Value};
use surfrs::data::tidal_data_record::{TidalDataRecordCollection, TidalEvent};
use surfrs::location::Location;
use surfrs::station::Station;
use surfrs::tide_station::{DataInterval, TideDatum, TideStation, TideStations};
use surfrs::units::UnitSystem;

pub fn instant(rng: &mut Rng) -> [i64; 5] {
    let (y, m) = (rng.int(1990, 2040), *rng.pick(&[1, 2, 2, 3, 9, 12]));
    let d = if rng.chance(1, 3) { days(y, m) } else { rng.int(1, days(y, m)) };
    let (h, mi) = if rng.chance(1, 4) { (*rng.pick(&[0, 23]), *rng.pick(&[0, 59])) } else { (rng.int(0, 23), rng.int(0, 59)) };
    [y, m, d, h, mi]
}

fn thousandths(v: i64) -> String {
    format!("{}{}.{:03}", if v < 0 { "-" } else { "" }, v.abs() / 1000, v.abs() % 1000)
}

/// One prediction, as the facts say, and its text
fn prediction(rng: &mut Rng, damage: &str) -> (Value, String) {
    let t = instant(rng);
    let whole = rng.chance(1, 6);
    let v = if whole { rng.int(-20, 20) * 1000 } else { rng.int(-9999, 30000) };
    let event = if rng.chance(1, 2) { opt(Some(*rng.pick(&["H", "L"]))) } else { json!([]) };
    let mut stamp = format!("\"{:04}-{:02}-{:02} {:02}:{:02}\"", t[0], t[1], t[2], t[3], t[4]);
    let mut value = if whole && rng.chance(1, 2) { format!("{}", v / 1000) } else { thousandths(v) };
    if rng.chance(2, 3) {
        value = format!("\"{value}\"");
    }
    let mut kind = event[0].as_str().map(|e| format!("\"{e}\"")).unwrap_or(if rng.chance(1, 3) { "null".into() } else { String::new() });
    match damage {
        "date" => stamp = rng.pick(&["\"2023-02-30 10:00\"", "\"2023-13-01 10:00\"", "\"2023-01-01 24:10\"", "\"2023-01-01 10:60\"", "\"2100-02-29 00:00\""]).to_string(),
        "format" => stamp = rng.pick(&["\"\"", "\"10:00\"", "\"2023-01-01\"", "\"01/02/2023 10:00\"", "20230101", "null", "\"2023-01-01 10h00\"", "\"é\"", "[]"]).to_string(),
        "nodate" => stamp.clear(),
        "value" => value = rng.pick(&["\"\"", "\"abc\"", "null", "\"1.2.3\"", "[]", "true", "\"1,5\"", "{}", "\"--\""]).to_string(),
        "novalue" => value.clear(),
        "event" => kind = rng.pick(&["\"\"", "\"X\"", "\"HH\"", "1", "\"low\""]).to_string(),
        _ => {}
    }
    let mut fields: Vec<String> = vec![("t", stamp), ("v", value), ("type", kind)].into_iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| format!("\"{k}\": {v}")).collect();
    if rng.chance(1, 4) {
        fields.push("\"q\": \"p\"".into());
    }
    if rng.chance(1, 4) {
        fields.reverse();
    }
    (json!({"t": t, "v": v, "event": event, "damage": damage}), format!("{{{}}}", fields.join(", ")))
}

fn facts(c: &TidalDataRecordCollection) -> Value {
    c.records
        .iter()
        .map(|r| {
            let e = r.event.as_ref().map(|e| match e {
                TidalEvent::High => "H",
                TidalEvent::Low => "L",
            });
            json!({"date": date(&r.date), "v": fx(r.value, 1000.0), "event": opt(e)})
        })
        .collect()
}

fn document(log: &mut Log, rng: &mut Rng, id: String, damages: &[&str], broken: bool) {
    let items: Vec<(Value, String)> = damages.iter().map(|d| prediction(rng, d)).collect();
    let list = items.iter().map(|i| i.1.clone()).collect::<Vec<_>>().join(",\n");
    let mut text = format!("{{ \"predictions\" : [{list}]}}");
    if broken {
        text = match rng.below(5) {
            0 => text.chars().take(rng.below(text.len() - 1)).collect(),
            1 => text.replace("predictions", "prediction"),
            2 => "{\"error\": {\"message\":\"No Predictions data was found.\"}}".into(),
            3 => String::new(),
            _ => format!("[{list}]x"),
        };
    }
    log.begin(id, json!({"doc": items.iter().map(|i| i.0.clone()).collect::<Vec<_>>(), "whole": !broken, "text": text}));
    put(log, guard(|| json!({"op": "read", "got": opt(TidalDataRecordCollection::from_json(&text).ok().map(|c| facts(&c)))})));
    if broken || damages.iter().any(|d| !d.is_empty()) {
        return;
    }
    put(
        log,
        guard(|| {
            let c = TidalDataRecordCollection::from_json(&text).ok();
            let once = c.as_ref().map(|c| serde_json::to_string(c).unwrap()).unwrap_or_default();
            let back = TidalDataRecordCollection::from_json(&once).ok();
            let exact = match (&c, &back) {
                (Some(a), Some(b)) => a.records.len() == b.records.len() && a.records.iter().zip(&b.records).all(|(a, b)| a.date == b.date && bits(a.value) == bits(b.value)),
                _ => false,
            };
            let twice = back.as_ref().map(|c| serde_json::to_string(c).unwrap()).unwrap_or_default();
            json!({"op": "again", "got": opt(back.map(|c| facts(&c))), "exact": exact, "stable": once == twice})
        }),
    );
}

fn station(rng: &mut Rng, id: &str) -> Value {
    let name = *rng.pick(&["NEWPORT", "Block Island", "Nawiliwili \"Harbor\"", "Île", ""]);
    json!({"id": id, "name": name, "lat": rng.int(-90000, 90000), "lng": rng.int(-180000, 180000), "state": *rng.pick(&["RI", "HI", ""])})
}

fn told(s: &TideStation) -> Value {
    json!({"id": s.station_id, "name": s.name, "lat": fx(s.latitude, 1000.0), "lng": fx(s.longitude, 1000.0), "state": s.state})
}

fn registry(log: &mut Log, rng: &mut Rng, id: String, ids: &[String], asked: &[String]) {
    let list: Vec<Value> = ids.iter().map(|i| station(rng, i)).collect();
    log.begin(id, json!({"ids": ids, "stations": list}));
    let real: Vec<TideStation> = list
        .iter()
        .map(|s| {
            let l = Location::new(s["lat"].as_i64().unwrap() as f64 / 1000.0, s["lng"].as_i64().unwrap() as f64 / 1000.0, s["name"].as_str().unwrap().into());
            TideStation::new(s["id"].as_str().unwrap(), &l, s["state"].as_str().unwrap())
        })
        .collect();
    // Written by the service, with more than is needed
    let raw: Vec<Value> = list
        .iter()
        .map(|s| json!({"id": s["id"], "name": s["name"], "lat": s["lat"].as_i64().unwrap() as f64 / 1000.0, "lng": s["lng"].as_i64().unwrap() as f64 / 1000.0, "state": s["state"],
            "reference_id": "8452660", "type": "R", "timezonecorr": -5, "products": null, "tidepredoffsets": {"self": "x"}}))
        .collect();
    let text = json!({"count": raw.len(), "units": null, "stations": raw}).to_string();
    for from in ["list", "json", "again"] {
        put(
            log,
            guard(|| {
                let all = match from {
                    "list" => TideStations::from_stations(real.clone()),
                    "json" => TideStations::from_raw_data(&text),
                    _ => TideStations::from_raw_data(&serde_json::to_string(&TideStations::from_stations(real.clone())).unwrap()),
                };
                let found: Vec<Value> = asked.iter().map(|a| opt(all.find_station_by_id(a).map(|s| told(&s)))).collect();
                json!({"op": "stations", "from": from, "count": all.station_count, "asked": asked, "found": found})
            }),
        );
    }
    for (k, s) in real.iter().enumerate() {
        put(
            log,
            guard(|| {
                let f: Value = serde_json::from_str(&s.as_feature().to_string()).unwrap();
                let g: geojson::Feature = s.clone().into();
                let at: Vec<i64> = f["geometry"]["coordinates"].as_array().unwrap().iter().map(|v| fx(v.as_f64().unwrap(), 1000.0)).collect();
                let l = s.location();
                assert!(g == s.as_feature());
                json!({"op": "feature", "k": k + 1, "type": f["geometry"]["type"], "at": at, "id": f["properties"]["id"], "name": f["properties"]["name"], "state": f["properties"]["state"],
                    "place": [fx(l.latitude, 1000.0), fx(l.longitude, 1000.0), if Station::name(s) == l.name && s.id() == s.station_id { l.name } else { "?".into() }]})
            }),
        );
    }
}

/// The parts of an address
pub fn parts(url: &str) -> (String, Value) {
    let (base, q) = url.split_once('?').unwrap_or((url, ""));
    let mut m = Map::new();
    for p in q.split('&').filter(|p| !p.is_empty()) {
        let (k, v) = p.split_once('=').unwrap_or((p, "?"));
        let v = v.replace("%20", " ").replace('+', " ").replace("%3A", ":");
        // A name given twice is no address
        let v = if m.contains_key(k) { "twice".into() } else { v };
        m.insert(k.to_string(), json!(v));
    }
    (base.to_string(), Value::Object(m))
}

pub fn k01(log: &mut Log, rng: &mut Rng) {
    for (i, s) in log.scenarios().iter().enumerate() {
        let doc: Vec<String> = s["doc"].as_array().unwrap().iter().map(|d| d["damage"].as_str().unwrap().to_string()).collect();
        let ids: Vec<String> = s["ids"].as_array().unwrap().iter().map(|d| d.as_str().unwrap().to_string()).collect();
        if ids.is_empty() {
            document(log, rng, format!("document-{i}"), &doc.iter().map(|d| d.as_str()).collect::<Vec<_>>(), false);
        } else {
            // Ids alike but for letters around them
            let alike = [["8454658", "84546580", "TWC0419"], ["0841", "841", "TWC0841"], ["841", "+841", "841.0"], ["TWC1", "TWC01", "twc1"]];
            for (k, names) in alike.iter().enumerate() {
                let spell = |i: &String| names[match i.as_str() {
                    "a" => 0,
                    "b" => 1,
                    _ => 2,
                }]
                .to_string();
                let ids: Vec<String> = ids.iter().map(spell).collect();
                let mut asked: Vec<String> = ["", "845465", "twc0419", " 8454658", "454658", "00841", "0841 ", "TWC001"].iter().map(|s| s.to_string()).collect();
                asked.extend(names.iter().map(|s| s.to_string()));
                registry(log, rng, format!("registry-{i}-{k}"), &ids, &asked);
            }
        }
    }
    registry(log, rng, "registry-none".into(), &[], &["1".to_string()]);
    log.event(json!({"op": "directory", "url": TideStations::tide_prediction_stations_url()}));
    for i in 0..log.n(300, 5000) {
        let n = rng.int(0, 30) as usize;
        let broken = rng.chance(1, 5);
        document(log, rng, format!("long-{i}"), &vec![""; n], broken);
    }
    // A month of six-minute heights
    document(log, rng, "month".into(), &vec![""; log.n(1800, 7440) as usize], false);
    for i in 0..log.n(60, 600) {
        log.begin(format!("addresses-{i}"), json!({}));
        for datum in [TideDatum::MHHW, TideDatum::MHW, TideDatum::MTL, TideDatum::MSL, TideDatum::MLW, TideDatum::MLLW] {
            for interval in [DataInterval::Default, DataInterval::Hourly, DataInterval::HiLo] {
                for units in [UnitSystem::Metric, UnitSystem::English] {
                    let (a, b) = (instant(rng), instant(rng));
                    let id = *rng.pick(&["8454658", "TWC0419", "1"]);
                    let at = |t: [i64; 5]| Utc.with_ymd_and_hms(t[0] as i32, t[1] as u32, t[2] as u32, t[3] as u32, t[4] as u32, 0).unwrap();
                    let head = json!({"op": "address", "start": a, "end": b, "id": id, "datum": format!("{datum:?}"), "interval": format!("{interval:?}"), "units": format!("{units:?}")});
                    put(
                        log,
                        guard(|| {
                            let s = TideStation::new(id, &Location::new(41.5, -71.3, "x".into()), "RI");
                            let (base, q) = parts(&s.tidal_data_url(&at(a), &at(b), &datum, &interval, &units));
                            let mut e = head;
                            e["base"] = json!(base);
                            e["q"] = q;
                            e
                        }),
                    );
                }
            }
        }
    }
}
