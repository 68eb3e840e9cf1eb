use crate::grid::put;
use crate::table::date;
use crate::tide::instant;
use crate::util::*;
use serde_json::{json, Map, Value};
use surfrs::data::nws_weather_forecast_data_record::{NwsWeatherForecastDataRecord, NwsWeatherForecastDataRecordCollection};
use surfrs::dimensional_data::DimensionalData;
use surfrs::units::Unit;

const COMPASS: [&str; 16] = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"];

/// A decimal number of thousandths, as JSON
fn decimal(v: i64) -> Value {
    if v % 1000 == 0 {
        json!(v / 1000)
    } else {
        json!(v as f64 / 1000.0)
    }
}

fn period(rng: &mut Rng, number: usize, absent: &[&str], wind: &str, offset: i64) -> (Value, Value) {
    let (a, b) = (instant(rng), instant(rng));
    let stamp = |t: [i64; 5]| {
        let z = if offset == 0 && number % 2 == 0 { "Z".to_string() } else { format!("{}{:02}:{:02}", if offset < 0 { "-" } else { "+" }, offset.abs() / 60, offset.abs() % 60) };
        format!("{:04}-{:02}-{:02}T{:02}:{:02}:00{z}", t[0], t[1], t[2], t[3], t[4])
    };
    let mut facts = Map::new();
    let mut doc = Map::new();
    facts.insert("start".into(), json!(a));
    facts.insert("end".into(), json!(b));
    facts.insert("offset".into(), json!(offset));
    doc.insert("number".into(), json!(number));
    doc.insert("startTime".into(), json!(stamp(a)));
    doc.insert("endTime".into(), json!(stamp(b)));
    let day = rng.chance(1, 2);
    facts.insert("day".into(), json!(day));
    doc.insert("isDaytime".into(), json!(day));
    let out = |f: &str| absent.contains(&f);
    let v = if rng.chance(1, 2) { rng.int(-60, 120) * 1000 } else { rng.int(-60000, 120000) };
    let u = *rng.pick(&["F", "F", "C"]);
    // A value left out altogether, or without a value
    let gone = rng.chance(1, 2);
    facts.insert("temperature".into(), if out("temperature") { json!({"k": "null", "u": u}) } else { json!({"k": "value", "v": v, "u": u}) });
    if !out("temperature") {
        doc.insert("temperature".into(), decimal(v));
    } else if !gone {
        doc.insert("temperature".into(), Value::Null);
    }
    doc.insert("temperatureUnit".into(), json!(u));
    for (name, key, unit, lo, hi) in [("dewpoint", "dewpoint", *rng.pick(&["wmoUnit:degC", "wmoUnit:degC", "wmoUnit:degC", "F"]), -70, 50), ("humidity", "relativeHumidity", "wmoUnit:percent", 0, 100), ("rain", "probabilityOfPrecipitation", "wmoUnit:percent", 0, 100)] {
        let v = if rng.chance(1, 2) { rng.int(lo, hi) * 1000 } else { rng.int(lo * 1000, hi * 1000) };
        let k = if !out(name) { "value" } else { *rng.pick(&["null", "none", "nothing"]) };
        let fact = match k {
            "value" => {
                doc.insert(key.into(), json!({"unitCode": unit, "value": decimal(v)}));
                json!({"k": "value", "v": v, "u": unit})
            }
            "null" => {
                doc.insert(key.into(), json!({"unitCode": unit, "value": null}));
                json!({"k": "null", "u": unit})
            }
            "nothing" => {
                doc.insert(key.into(), Value::Null);
                json!({"k": "none"})
            }
            _ => json!({"k": "none"}),
        };
        if name != "rain" {
            facts.insert(name.into(), fact);
        }
    }
    let u = *rng.pick(&["mph", "mph", "mph", "km/h", "kt", "m/s"]);
    let (w, most) = if rng.chance(1, 8) { (rng.int(100, 190), rng.int(191, 260)) } else { (rng.int(0, 60), rng.int(61, 99)) };
    let text = match wind {
        "single" => Some(format!("{w} {u}")),
        "range" => Some(format!("{w} to {most} {u}")),
        "bare" => Some(format!("{w}")),
        "words" => Some(rng.pick(&["", "Calm", " ", "mph", "light mph", "calm to light"]).to_string()),
        _ => None,
    };
    facts.insert("wind".into(), json!({"k": wind, "a": w, "u": u}));
    if text.is_some() || gone {
        doc.insert("windSpeed".into(), json!(text));
    }
    let d = rng.below(16);
    facts.insert("direction".into(), if out("direction") { json!([]) } else { json!([d + 1]) });
    if !out("direction") {
        doc.insert("windDirection".into(), json!(COMPASS[d]));
    } else if gone {
        doc.insert("windDirection".into(), rng.pick(&[Value::Null, json!("")]).clone());
    }
    let texts = ["icon", "shortForecast", "detailedForecast"].map(|k| if out("texts") { String::new() } else { format!("{k} of {number}: \"é\", {}", rng.int(0, 9)) });
    for (k, t) in ["icon", "shortForecast", "detailedForecast"].iter().zip(&texts) {
        if !out("texts") {
            doc.insert(k.to_string(), json!(t));
        } else if rng.chance(1, 2) {
            doc.insert(k.to_string(), rng.pick(&[Value::Null, json!("")]).clone());
        }
    }
    facts.insert("texts".into(), json!(texts));
    doc.insert("name".into(), if out("texts") { Value::Null } else { json!(*rng.pick(&["Tonight", "Today", "", "This Afternoon", "Monday Night"])) });
    doc.insert("temperatureTrend".into(), rng.pick(&[Value::Null, json!(""), json!("falling")]).clone());
    (Value::Object(facts), Value::Object(doc))
}

fn value(d: &DimensionalData<f64>) -> Value {
    json!({"v": ofx(d.value, 1000.0), "u": format!("{:?}", d.unit)})
}

fn told(r: &NwsWeatherForecastDataRecord) -> Value {
    let d = r.wind_direction.value.as_ref();
    let degrees = d.map_or(true, |d| (d.degrees as f64 - COMPASS.iter().position(|c| c.eq_ignore_ascii_case(&d.cardinal_direction().to_string())).unwrap() as f64 * 22.5).abs() < 11.0);
    json!({"start": date(&r.start_time), "end": date(&r.end_time), "seconds": (r.start_time.timestamp() % 60) + (r.end_time.timestamp() % 60), "day": r.is_daytime, "temperature": value(&r.temperature), "dewpoint": value(&r.dewpoint), "humidity": value(&r.humidity),
        "wind": {"v": ofx(r.wind_speed.value, 1.0), "u": format!("{:?}", r.wind_speed.unit)},
        "direction": opt(d.map(|d| d.cardinal_direction().to_string().to_uppercase())), "degrees": degrees && r.wind_direction.unit == Unit::Degrees,
        "texts": [r.icon, r.short_forecast, r.detailed_forecast]})
}

pub fn n01(log: &mut Log, rng: &mut Rng) {
    let winds = ["single", "range", "bare", "words", "none"];
    let fields = ["temperature", "dewpoint", "humidity", "direction", "texts", "rain"];
    let mut docs: Vec<Vec<(Vec<String>, String)>> = log
        .scenarios()
        .iter()
        .map(|s| {
            s["doc"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| (p["absent"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().to_string()).collect(), p["wind"].as_str().unwrap().to_string()))
                .collect()
        })
        .collect();
    for _ in 0..log.n(60, 600) {
        let n = rng.int(1, 24);
        docs.push(
            (0..n)
                .map(|_| {
                    let absent = fields.iter().filter(|_| rng.chance(1, 8)).map(|f| f.to_string()).collect();
                    (absent, rng.pick(&winds).to_string())
                })
                .collect(),
        );
    }
    // A week by the hour
    docs.push((0..log.n(169, 400)).map(|k| (if k % 9 == 4 { vec![fields[k as usize / 9 % 6].to_string()] } else { vec![] }, winds[k as usize % 3].to_string())).collect());
    for (i, d) in docs.iter().enumerate() {
        let first = *rng.pick(&[0, 1, 1, 1, 120]);
        let offset = *rng.pick(&[0, -240, -300, -600, 600, 570, -210]);
        let made: Vec<(Value, Value)> = d
            .iter()
            .enumerate()
            .map(|(k, (absent, wind))| period(rng, k + first, &absent.iter().map(|a| a.as_str()).collect::<Vec<_>>(), wind, offset))
            .collect();
        let broken = rng.chance(1, 30);
        let elevation = if rng.chance(1, 4) { Value::Null } else { json!(rng.int(0, 900)) };
        let mut text = json!({"@context": ["x"], "type": "Feature", "geometry": {"type": "Polygon", "coordinates": []}, "properties": {
            "units": "us", "forecastGenerator": "HourlyForecastGenerator", "generatedAt": "2024-09-14T18:15:07+00:00", "updateTime": "2024-09-14T16:53:19+00:00",
            "validTimes": "2024-09-14T10:00:00+00:00/P8DT6H", "elevation": {"unitCode": "wmoUnit:m", "value": elevation}, "periods": made.iter().map(|m| m.1.clone()).collect::<Vec<_>>()}})
        .to_string();
        if broken {
            text = match rng.below(3) {
                0 => text.chars().take(rng.below(text.chars().count() - 1)).collect(),
                1 => text.replacen("periods", "period", 1),
                _ => "{\"status\": 500, \"detail\": \"Unexpected problem\"}".into(),
            };
        }
        log.begin(format!("forecast-{i}"), json!({"whole": !broken, "doc": made.iter().map(|m| m.0.clone()).collect::<Vec<_>>()}));
        put(
            log,
            guard(|| json!({"op": "read", "got": opt(NwsWeatherForecastDataRecordCollection::from_json(&text).ok().map(|c| c.records().iter().map(told).collect::<Vec<_>>()))})),
        );
    }
}
