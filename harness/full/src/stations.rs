use crate::address::put;
use crate::met::{one, row, Rec};
use crate::util::*;
use chrono::{DateTime, Utc};
use geojson::{Feature, FeatureCollection};
use serde_json::{json, Value};
use surfrs::buoy_station::{BuoyStation, BuoyStations};
use surfrs::data::latest_obs_data_record::{latest_obs_feature_collection, LatestObsDataRecord};
use surfrs::station::Station;

const TYPES: [&str; 9] = ["buoy", "fixed", "oilrig", "dart", "tao", "usv", "other", "none", "virtual"];
const WORDS: [&str; 16] = ["A", "&", "Block", "Island,", "RI", "700NM", "ESE", "St.", "A&B", "\"Buoy\"", "<West>", "41002A", "O'Hara", "é", "12.5", "Hub)"];

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

/// A listed station: what the specification sees of it and how it is spelled
struct Listed {
    json: Value,
    xml: String,
    id: String,
}

fn name(rng: &mut Rng, kinds: &[String]) -> (Vec<Value>, String) {
    let mut toks = vec![];
    let mut s = String::new();
    let mut glued = true;
    for k in kinds {
        if k == "-" {
            s.push_str(*rng.pick(&["-", " - ", " -", "- "]));
            toks.push(json!({"k": "-", "s": "-"}));
            glued = true;
            continue;
        }
        if !glued {
            s.push_str(*rng.pick(&[" ", " ", "  "]));
        }
        let w = match k.as_str() {
            "w" => rng.pick(&WORDS).to_string(),
            "n" => rng.pick(&["4800922", "46042", "7", "0154", "2000000000000"]).to_string(),
            _ => rng.pick(&["(154)", "(ATP", "(", "(12"]).to_string(),
        };
        s.push_str(&w);
        toks.push(json!({"k": k, "s": w}));
        glued = false;
    }
    (toks, s)
}

fn degrees(rng: &mut Rng, span: i64) -> (i64, String) {
    let v = rng.int(-span * 1000, span * 1000);
    match rng.below(3) {
        0 => (v / 1000 * 1000, format!("{}", v / 1000)),
        _ => (v, format!("{}{}.{:03}", if v < 0 { "-" } else { "" }, v.abs() / 1000, v.abs() % 1000)),
    }
}

fn listed(rng: &mut Rng, kinds: &[String], flags: &[String]) -> Listed {
    let id = (*rng.pick(&["44097", "44098", "BUZM3", "buzm3", "13002", "SANF1", "00922", "32ST0", "51201", "46042"])).to_string();
    let (toks, raw) = name(rng, kinds);
    let kind = *rng.pick(&TYPES);
    let (owner, program) = (*rng.pick(&["SCRIPPS", "NDBC", "R & D", ""]), *rng.pick(&["IOOS Partners", "NDBC Meteorological/Ocean", ""]));
    let (lat, lats) = degrees(rng, 90);
    let (lng, lngs) = degrees(rng, 180);
    let mut attrs = vec![
        format!("id=\"{id}\""),
        format!("lat=\"{lats}\""),
        format!("lon=\"{lngs}\""),
        format!("name=\"{}\"", escape(&raw)),
        format!("owner=\"{}\"", escape(owner)),
        format!("pgm=\"{program}\""),
        format!("type=\"{kind}\""),
    ];
    let mut elev = 0;
    if rng.chance(1, 2) {
        let (e, es) = degrees(rng, 400);
        elev = e;
        attrs.push(format!("elev=\"{es}\""));
    }
    for (n, f) in ["met", "currents", "waterquality", "dart"].iter().zip(flags) {
        if !f.is_empty() {
            attrs.push(format!("{n}=\"{f}\""));
        }
    }
    if rng.chance(1, 4) {
        attrs.push("seq=\"12\"".into());
    }
    if rng.chance(1, 3) {
        rng.shuffle(&mut attrs);
    }
    Listed {
        json: json!({"id": id, "raw": raw, "name": toks, "owner": owner, "program": program, "type": kind, "flags": flags, "lat": lat, "lng": lng, "elev": elev}),
        xml: format!("  <station {}/>\n", attrs.join(" ")),
        id,
    }
}

fn station(s: &BuoyStation) -> Value {
    json!({"id": s.station_id, "raw": s.raw_name, "owner": s.owner, "program": s.program, "type": s.buoy_type.to_string(),
        "has": [s.has_meteorological_data, s.has_currents_data, s.has_water_quality_data, s.has_tsnuami_data],
        "lat": fx(s.latitude, 1000.0), "lng": fx(s.longitude, 1000.0), "elev": fx(s.elevation, 1000.0)})
}

fn feature(f: &Feature) -> Value {
    let p = match f.geometry.as_ref().map(|g| &g.value) {
        Some(geojson::Value::Point(p)) => fxs(p, 1000.0),
        _ => vec![],
    };
    let text = |k: &str| f.property(k).and_then(|v| v.as_str()).unwrap_or("?").to_string();
    json!({"point": p, "id": text("id"), "name": text("name"), "type": text("type"), "active": f.property("isActive").and_then(|v| v.as_bool()).unwrap_or(false)})
}

fn epoch(d: &DateTime<Utc>) -> Value {
    json!([d.timestamp().div_euclid(86400), d.timestamp().rem_euclid(86400)])
}

const FIELDS: [&str; 12] = [
    "wind_speed",
    "wind_gust_speed",
    "wave_height",
    "dominant_wave_period",
    "average_wave_period",
    "air_pressure",
    "air_temperature",
    "water_temperature",
    "dewpoint_temperature",
    "visibility",
    "air_pressure_tendency",
    "tide",
];

fn observed(o: &LatestObsDataRecord) -> Value {
    let r = Rec::Latest(o.clone());
    let mut q: Vec<Value> = r.numbers().iter().zip(FIELDS)
        .map(|(d, f)| json!({"field": f, "name": d.variable_name, "unit": format!("{:?}", d.unit), "value": ofx(d.value, 1000.0)})).collect();
    for (d, f) in r.bearings().iter().zip(["wind_direction", "mean_wave_direction"]) {
        q.push(json!({"field": f, "name": d.variable_name, "unit": format!("{:?}", d.unit), "value": opt(d.value.as_ref().map(|d| d.degrees as i64 * 1000))}));
    }
    json!({"id": o.station_id, "epoch": epoch(&o.date), "quantities": q})
}

fn observations(f: &Feature) -> Value {
    let Some(o) = f.property("latest_observations") else { return json!([]) };
    let o = o.as_object().unwrap();
    let mut values = vec![];
    let mut e = json!([]);
    for (k, v) in o {
        if k == "date" {
            e = v.as_str().and_then(|s| s.parse::<DateTime<Utc>>().ok()).map(|d| epoch(&d)).unwrap_or(json!([]));
        } else {
            let n = v["value"].as_f64().or_else(|| v["value"]["degrees"].as_f64());
            let told = |w: &str| v[w].as_str().unwrap_or("").to_string();
            values.push(json!({"field": k, "name": told("variable_name"), "unit": told("unit"), "value": ofx(n, 1000.0)}));
        }
    }
    json!([{"keys": o.keys().collect::<Vec<_>>(), "epoch": e, "values": values}])
}

fn units(v: Value) -> Value {
    v
}

fn nulls(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.iter().any(nulls),
        Value::Object(o) => o.values().any(nulls),
        _ => false,
    }
}

fn list(log: &mut Log, rng: &mut Rng, picks: &[(Vec<String>, Vec<String>)]) {
    let all: Vec<Listed> = picks.iter().map(|(n, f)| listed(rng, n, f)).collect();
    let count = if rng.chance(3, 4) { all.len() as i64 } else { rng.int(0, 2000) };
    let mut xml = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    xml.push_str(&format!("<stations created=\"2018-08-14T19:35:01UTC\" count=\"{count}\">\n"));
    if rng.chance(1, 2) {
        xml.push_str("<!--Site Elevation (elev attribute), when present, is reported in meters above mean sea level.-->\n");
    }
    for s in &all {
        xml.push_str(&s.xml);
    }
    xml.push_str("</stations>\n");
    // What was observed at some of them, and elsewhere
    let mut obs: Vec<LatestObsDataRecord> = vec![];
    for id in ["44097", "44098", "BUZM3", "SANF1", "51201", "99999"] {
        if rng.chance(1, 2) {
            let mut r = row(rng, "latest", "good", None);
            r[0].1 = id.to_string();
            let words: Vec<&str> = r.iter().map(|t| t.1.as_str()).collect();
            if let Some(Rec::Latest(o)) = one("latest", &words) {
                obs.push(o);
            }
        }
    }
    log.begin(format!("list-{}", log.sessions), json!({"stations": all.iter().map(|s| s.json.clone()).collect::<Vec<_>>(), "count": count, "xml": xml,
        "observed": obs.iter().map(observed).collect::<Vec<_>>()}));
    let read = guard(|| BuoyStations::from_raw_data(&xml));
    let stations = match read {
        Ok(s) => s,
        Err(p) => return put(log, Err(p)),
    };
    let whole = |op: &str, s: &BuoyStations| json!({"op": op, "count": s.station_count, "stations": s.stations.iter().map(station).collect::<Vec<_>>()});
    put(log, guard(|| whole("read", &stations)));
    put(log, guard(|| {
        let text = serde_json::to_string(&stations).unwrap();
        whole("again", &serde_json::from_str::<BuoyStations>(&text).unwrap())
    }));
    put(log, guard(|| whole("given", &BuoyStations::from_stations(stations.stations.clone()))));
    put(log, guard(|| whole("given", &stations.stations.clone().into())));
    // Stations are the same when their ids are
    put(log, guard(|| {
        let v = &stations.stations;
        let same: Vec<Vec<usize>> = v.iter().map(|a| (1..=v.len()).filter(|j| *a == v[j - 1]).collect()).collect();
        let set: std::collections::HashSet<BuoyStation> = v.iter().cloned().collect();
        json!({"op": "same", "same": same, "distinct": set.len(), "none": BuoyStations::default().stations.len() + BuoyStations::default().station_count})
    }));
    put(log, guard(|| {
        let (id, lat, lng) = (all[0].id.clone(), rng.int(-90000, 90000), rng.int(-180000, 180000));
        let s = BuoyStation::new(id.clone(), lat as f64 / 1000.0, lng as f64 / 1000.0);
        json!({"op": "bare", "id": id, "lat": lat, "lng": lng, "got": station(&s), "name": s.name(), "active": s.is_active()})
    }));
    for (i, s) in stations.stations.iter().enumerate() {
        put(log, guard(|| {
            let p = s.location();
            json!({"op": "station", "at": i + 1, "name": s.name(), "active": s.is_active(), "id": s.id(), "place": [fx(p.latitude, 1000.0), fx(p.longitude, 1000.0), p.name]})
        }));
        put(log, guard(|| json!({"op": "feature", "at": i + 1, "feature": feature(&s.as_feature())})));
    }
    for _ in 0..3 {
        let mut id = all[rng.below(all.len())].id.clone();
        if rng.chance(1, 3) {
            id = (*rng.pick(&["4409", "440977", "", "buZM3", "44097 ", "99999"])).to_string();
        }
        // Stations are told apart by everything they are listed with
        put(log, guard(|| {
            let got = stations.find_station(&id).map(|f| station(&f));
            let at = match &got {
                None => 0,
                Some(f) => stations.stations.iter().position(|s| station(s) == *f).map(|p| p + 1).unwrap_or(9999),
            };
            json!({"op": "find", "id": id, "got": at})
        }));
    }
    put(log, guard(|| {
        let c: FeatureCollection = stations.clone().into();
        json!({"op": "features", "features": c.features.iter().map(feature).collect::<Vec<_>>()})
    }));
    put(log, guard(|| {
        let c = latest_obs_feature_collection(&stations.stations, &obs);
        let text = serde_json::to_string(&c).unwrap();
        let back: FeatureCollection = text.parse::<geojson::GeoJson>().unwrap().try_into().unwrap();
        let features: Vec<Value> = back.features.iter().map(|f| {
            let mut v = feature(f);
            v["obs"] = units(observations(f));
            v
        }).collect();
        json!({"op": "observations", "features": features, "nulls": nulls(&serde_json::from_str::<Value>(&text).unwrap())})
    }));
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect()
}

pub fn a02(log: &mut Log, rng: &mut Rng) {
    let mut picks: Vec<(Vec<String>, Vec<String>)> = log.scenarios().iter().map(|s| (strings(&s["name"]), strings(&s["flags"]))).collect();
    let some = ["y", "n", "n", ""];
    for _ in 0..log.n(300, 3000) {
        let kinds = (0..rng.int(1, 12)).map(|_| rng.pick(&["w", "w", "w", "n", "b", "-"]).to_string()).collect();
        picks.push((kinds, (0..4).map(|_| rng.pick(&some).to_string()).collect()));
    }
    rng.shuffle(&mut picks);
    // The whole directory at once
    let all: Vec<_> = picks.iter().cycle().take(1400).cloned().collect();
    list(log, rng, &all);
    let mut at = 0;
    while at < picks.len() {
        let n = (1 + rng.below(14)).min(picks.len() - at);
        list(log, rng, &picks[at..at + n]);
        at += n;
    }
    log.finish();
}
