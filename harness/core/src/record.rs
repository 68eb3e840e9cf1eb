use crate::unit::{uname, SYSTEMS, UNITS};
use crate::util::*;
use chrono::{DateTime, TimeZone, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde::de::IntoDeserializer;
use surfrs::tools::serde::f64_from_str;
use serde_json::{json, Value};
use std::fmt::Debug;
use std::str::FromStr;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord;
use surfrs::data::forecast_cbulletin_wave_data_record::{ForecastCBulletinWaveRecord, ForecastCBulletinWaveRecordMetadata};
use surfrs::data::forecast_spectral_wave_data_record::{ForecastSpectralWaveDataRecord, ForecastSpectralWaveDataRecordMetadata};
use surfrs::data::grib_index_record::GribIndexRecord;
use surfrs::data::nws_weather_forecast_data_record::{NwsGridPointData, NwsGridPointProperties, NwsWeatherForecastDataRecord};
use surfrs::data::spectral_wave_data_record::SpectralWaveDataRecord;
use surfrs::data::tidal_data_record::{TidalDataRecord, TidalDataRecordCollection, TidalEvent};
use surfrs::data::wave_data_record::WaveDataRecord;
use surfrs::dimensional_data::DimensionalData;
use surfrs::location::Location;
use surfrs::solar::SolarEvents;
use surfrs::spectra::Spectra;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::tide_station::{DataInterval, TideDatum, TideStation, TideStations};
use surfrs::units::direction::DirectionConvention;
use surfrs::units::{CardinalDirection, Direction, Steepness, Unit, UnitConvertible, UnitSystem};

/// Which quantities are missing is up to the specification: a bit for each, in turn
pub struct Maker<'a> {
    pub rng: &'a mut Rng,
    pub mask: u64,
    pub given: u32,
}

impl<'a> Maker<'a> {
    pub fn missing(&mut self) -> bool {
        let m = (self.mask >> (self.given % 6)) & 1 == 1;
        self.given += 1;
        m
    }
    pub fn q(&mut self, name: &str, unit: Unit, lo: f64, hi: f64) -> DimensionalData<f64> {
        let v = self.rng.float(lo, hi);
        let v = match self.rng.below(4) {
            0 => v.round(),
            1 => (v * 10.0).round() / 10.0,
            _ => v,
        };
        DimensionalData { value: if self.missing() { None } else { Some(v) }, variable_name: name.into(), unit }
    }
    pub fn height(&mut self) -> DimensionalData<f64> {
        let u = self.rng.pick(&[Unit::Meters, Unit::Meters, Unit::Feet]).clone();
        self.q("wave height", u, 0.0, 25.0)
    }
    pub fn d(&mut self, name: &str) -> DimensionalData<Direction> {
        let deg = self.rng.int(0, 360) as i32;
        DimensionalData { value: if self.missing() { None } else { Some(Direction::from_degrees(deg)) }, variable_name: name.into(), unit: Unit::Degrees }
    }
    pub fn date(&mut self) -> DateTime<Utc> {
        Utc.with_ymd_and_hms(self.rng.int(1999, 2035) as i32, self.rng.int(1, 12) as u32, self.rng.int(1, 28) as u32, self.rng.int(0, 23) as u32, self.rng.int(0, 59) as u32, 0)
            .unwrap()
    }
    pub fn swell(&mut self) -> Swell {
        Swell {
            wave_height: self.height(),
            period: self.q("period", Unit::Seconds, 0.5, 28.0),
            direction: self.d("direction"),
            energy: if self.rng.chance(1, 2) { None } else { Some(self.q("energy", Unit::KiloJoules, 0.0, 9000.0)) },
            spectral_density: if self.rng.chance(1, 2) { None } else { Some(self.q("spectral density", Unit::MetersSquaredPerHertz, 0.0, 90.0)) },
            partition: if self.rng.chance(1, 2) { None } else { Some(self.rng.below(9)) },
        }
    }
    pub fn built(&mut self) -> Swell {
        let s = self.rng.pick(&SYSTEMS).clone();
        let (h, p, d) = (self.rng.float(0.0, 20.0), self.rng.float(1.0, 25.0), self.rng.int(0, 360));
        let (a, b) = (self.rng.chance(1, 2), self.rng.chance(1, 2));
        Swell::new(&s, h, p, Direction::from_degrees(d as i32), if a { Some(h * 3.0) } else { None }, if b { Some(p * 7.0) } else { None }, Some(3))
    }
    pub fn swells(&mut self) -> Vec<Swell> {
        let n = self.rng.below(6);
        (0..n).map(|_| self.swell()).collect()
    }
    pub fn summary(&mut self) -> SwellSummary {
        SwellSummary { summary: self.swell(), components: self.swells() }
    }
    pub fn steepness(&mut self) -> Steepness {
        self.rng.pick(&STEEPNESS).clone()
    }
    pub fn wave(&mut self) -> WaveDataRecord {
        WaveDataRecord {
            date: self.date(),
            wave_height: self.height(),
            swell_wave_height: self.height(),
            swell_wave_period: self.q("swell period", Unit::Seconds, 1.0, 25.0),
            wind_wave_height: self.height(),
            wind_wave_period: self.q("wind period", Unit::Seconds, 1.0, 25.0),
            swell_wave_direction: self.d("swell wave direction"),
            wind_wave_direction: self.d("wind wave direction"),
            steepness: self.steepness(),
            average_wave_period: self.q("average wave period", Unit::Seconds, 1.0, 25.0),
            mean_wave_direction: self.d("mean wave direction"),
        }
    }
    pub fn bulletin(&mut self) -> ForecastCBulletinWaveRecord {
        ForecastCBulletinWaveRecord { date: self.date(), significant_wave_height: self.height(), swell_components: self.swells() }
    }
    pub fn location(&mut self) -> Location {
        let mut l = Location::new(self.rng.float(-90.0, 90.0), self.rng.float(-180.0, 360.0), (*self.rng.pick(&["", "Block \"Island\"", "Île d'Yeu\n\t\\", "44097", "</a> \u{1f30a}"])).into());
        l.elevation = self.rng.float(-10.0, 900.0);
        l
    }
    pub fn spectra(&mut self) -> Spectra {
        let (nk, nd) = (self.rng.below(5), self.rng.below(6));
        let f = (0..nk).map(|k| 0.04 * 1.1f64.powi(k as i32)).collect();
        let d = (0..nd).map(|k| k as f64 * 0.7 + self.rng.unit()).collect();
        let e = (0..nk * nd).map(|_| if self.rng.chance(1, 4) { 0.0 } else { self.rng.unit() * 10f64.powi(self.rng_exp()) }).collect();
        let c = self.rng.pick(&CONVENTIONS).clone();
        Spectra::new(f, d, e, c)
    }
    fn rng_exp(&mut self) -> i32 {
        self.rng.int(-12, 6) as i32
    }
    pub fn point(&mut self) -> ForecastSpectralWaveDataRecord {
        let speed = self.rng.pick(&[Unit::MetersPerSecond, Unit::MetersPerSecond, Unit::Knots, Unit::MilesPerHour]).clone();
        ForecastSpectralWaveDataRecord {
            date: self.date(),
            reference_date: self.date(),
            location: self.location(),
            depth: self.q("depth", Unit::Meters, 0.0, 5000.0),
            wind_speed: self.q("wind speed", speed, 0.0, 70.0),
            wind_direction: self.d("wind direction"),
            current_speed: self.q("current speed", Unit::MetersPerSecond, 0.0, 4.0),
            current_direction: self.d("current direction"),
            spectra: self.spectra(),
        }
    }
    pub fn row(&mut self) -> SpectralWaveDataRecord {
        let n = self.rng.below(5);
        SpectralWaveDataRecord {
            date: self.date(),
            separation_frequency: if self.missing() { None } else { Some(self.rng.unit()) },
            value: (0..n).map(|_| self.rng.float(0.0, 99.0)).collect(),
            frequency: (0..n).map(|_| self.rng.float(0.0, 0.5)).collect(),
        }
    }
}

pub const STEEPNESS: [Steepness; 5] = [Steepness::VerySteep, Steepness::Steep, Steepness::Average, Steepness::Swell, Steepness::NA];
pub const CONVENTIONS: [DirectionConvention; 3] = [DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met];

fn walk(v: &mut Value, path: &str, out: &mut Vec<(String, Unit, Option<f64>)>) {
    match v {
        Value::Object(m) => {
            let quantity = m.contains_key("variable_name") && m.contains_key("value") && m.contains_key("unit") && !m["value"].is_object();
            if quantity {
                if let Ok(u) = serde_json::from_value::<Unit>(m["unit"].clone()) {
                    // A direction is no quantity to convert, also where it is missing
                    out.push((path.to_string(), u, m["value"].as_f64()));
                    m.insert("value".into(), json!(m["value"].is_null()));
                    m.remove("unit");
                    m.remove("unit_label");
                }
            }
            for (k, x) in m.iter_mut() {
                walk(x, &format!("{path}.{k}"), out);
            }
        }
        Value::Array(a) => a.iter_mut().enumerate().for_each(|(i, x)| walk(x, &format!("{path}.{i}"), out)),
        // Everything else to seven figures: written numbers may lose their last digit
        Value::Number(n) if n.is_f64() => *v = json!(format!("{:.6e}", n.as_f64().unwrap())),
        _ => {}
    }
}

/// All the quantities of a record, and everything else about it
fn facts<T: Serialize>(x: &T) -> (Vec<(String, Unit, Option<f64>)>, String) {
    let mut v = serde_json::to_value(x).unwrap();
    let mut q = vec![];
    walk(&mut v, "", &mut q);
    (q, v.to_string())
}

fn quantities(q: &[(String, Unit, Option<f64>)]) -> Vec<Value> {
    q.iter().map(|(p, u, v)| json!({"path": p, "unit": uname(u), "value": ofx(*v, 1000.0)})).collect()
}

pub fn system(s: &str) -> UnitSystem {
    SYSTEMS.iter().find(|x| format!("{x:?}") == s).unwrap().clone()
}

pub fn history<T: UnitConvertible + Serialize + DeserializeOwned + Clone>(log: &mut Log, kind: &str, x: &T, ops: &[String]) {
    let (q, rest) = facts(x);
    log.begin(format!("{kind}-{}", ops.join("-")), json!({"kind": kind, "quantities": quantities(&q), "rest": rest}));
    let mut x = x.clone();
    for op in ops {
        let got = guard(|| {
            if op == "Publish" {
                let text = serde_json::to_string(&x).unwrap();
                x = serde_json::from_str(&text).map_err(|e| e.to_string()).unwrap();
                let (q, rest) = facts(&x);
                return json!({"op": "publish", "quantities": quantities(&q), "rest": rest});
            }
            let s = system(op);
            let alone: Vec<_> = facts(&x)
                .0
                .into_iter()
                .map(|(p, unit, value)| {
                    let mut d = DimensionalData { value, variable_name: "alone".into(), unit };
                    d.to_units(&s);
                    (p, d.unit, d.value)
                })
                .collect();
            x.to_units(&s);
            let (q, rest) = facts(&x);
            json!({"op": "to", "sys": op, "quantities": quantities(&q), "rest": rest, "alone": quantities(&alone)})
        });
        match got {
            Ok(e) => log.event(e),
            Err(w) => {
                log.event(json!({"op": "panic", "what": w}));
                return;
            }
        }
    }
}

/// The histories of the design model, over every kind of record
fn sessions(log: &mut Log, rng: &mut Rng) {
    let scen = log.scenarios();
    for (i, s) in scen.iter().enumerate() {
        let ops: Vec<String> = s["ops"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
        let mask = s["missing"].as_array().unwrap().iter().fold(0u64, |m, b| m << 1 | b.as_bool().unwrap() as u64);
        let mut m = Maker { rng: &mut *rng, mask, given: 0 };
        // Kinds take turns; all of them in the thorough tier
        let all = log.thorough;
        for k in 0..7 {
            if !(all || (i + k) % 3 == 0) {
                continue;
            }
            match k {
                0 => {
                    let x = m.wave();
                    history(log, "wave", &x, &ops)
                }
                1 => {
                    let x = m.bulletin();
                    history(log, "bulletin", &x, &ops)
                }
                2 => {
                    let x = m.point();
                    history(log, "point", &x, &ops)
                }
                3 => {
                    let x = m.swell();
                    history(log, "swell", &x, &ops)
                }
                4 => {
                    let x = m.summary();
                    history(log, "summary", &x, &ops)
                }
                5 => {
                    let x = m.row();
                    history(log, "row", &x, &ops)
                }
                _ => {
                    let x = m.built();
                    history(log, "built", &x, &ops)
                }
            }
        }
    }
}

pub fn u02(log: &mut Log, rng: &mut Rng) {
    sessions(log, rng);
}

/// The text of a value, and the numbers in it apart
fn skeleton(s: &str) -> (String, Vec<f64>) {
    let b: Vec<char> = s.chars().collect();
    let (mut text, mut nums) = (String::new(), vec![]);
    let mut i = 0;
    let mut quoted = false;
    while i < b.len() {
        if quoted && b[i] == '\\' && i + 1 < b.len() {
            text.push(b[i]);
            text.push(b[i + 1]);
            i += 2;
            continue;
        }
        if b[i] == '"' {
            quoted = !quoted;
        }
        let starts = !quoted && b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_alphanumeric() && b[i - 1] != '_');
        if starts {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_digit() || ".e-+".contains(b[j])) {
                j += 1;
            }
            let t: String = b[i..j].iter().collect();
            if let Ok(v) = t.parse::<f64>() {
                nums.push(v);
                text.push('#');
            } else {
                text.push_str(&t);
            }
            i = j;
        } else {
            text.push(b[i]);
            i += 1;
        }
    }
    (text, nums)
}

fn round<T: Serialize + DeserializeOwned + Debug>(log: &mut Log, kind: &str, x: &T) {
    let got = guard(|| {
        let text = serde_json::to_string(x).map_err(|e| e.to_string())?;
        let y: T = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let again = serde_json::to_string(&y).map_err(|e| e.to_string())?;
        let tree = serde_json::to_value(x).map_err(|e| e.to_string())?;
        let z: T = serde_json::from_value(tree).map_err(|e| e.to_string())?;
        let before = skeleton(&format!("{x:?}"));
        let rel = |a: &[f64], b: &[f64]| -> i64 {
            if a.len() != b.len() {
                return BIG;
            }
            a.iter().zip(b).map(|(p, q)| if p == q { 0 } else { fx((p - q).abs() / p.abs().max(q.abs()), 1e15).max(1) }).max().unwrap_or(0)
        };
        let (a, b) = (skeleton(&format!("{y:?}")), skeleton(&format!("{z:?}")));
        let (t, u) = (skeleton(&text), skeleton(&again));
        Ok(json!({"op": "round", "kind": kind, "before": before.0, "after": a.0, "tree": b.0, "off": rel(&before.1, &a.1), "treeoff": rel(&before.1, &b.1),
            "numbers": before.1.len(), "text": t.0, "again": u.0, "againoff": rel(&t.1, &u.1)}))
    });
    log.event(match got.and_then(|r: Result<Value, String>| r) {
        Ok(e) => e,
        Err(w) => json!({"op": "panic", "what": w, "kind": kind}),
    });
}

fn quantity<T: Serialize + DeserializeOwned + std::fmt::Display + Debug>(log: &mut Log, d: &DimensionalData<T>, f: impl Fn(&T) -> i64) {
    let got = guard(|| {
        let text = serde_json::to_string(d).map_err(|e| e.to_string())?;
        let raw: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let y: DimensionalData<T> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        Ok(json!({"op": "quantity", "unit": uname(&d.unit), "name": d.variable_name, "value": opt(d.value.as_ref().map(&f)),
            "nowunit": uname(&y.unit), "nowname": y.variable_name, "now": opt(y.value.as_ref().map(&f)),
            "label": uname(&Unit::from(raw["unit_label"].as_str().unwrap_or("?"))), "null": raw["value"].is_null()}))
    });
    log.event(match got.and_then(|r: Result<Value, String>| r) {
        Ok(e) => e,
        Err(w) => json!({"op": "panic", "what": w}),
    });
}

/// A number as the sources give it: a text of its own, or a number
fn figure(t: &str) -> Option<f64> {
    f64_from_str(IntoDeserializer::<serde::de::value::Error>::into_deserializer(t)).ok()
}

const SPELLINGS: [&str; 77] = [
    "mm", "millimeters", "millimeter", "m", "meters", "meter", "wmounit:m", "m/s", "mps", "ms-1", "meterspersecond", "meterpersecond", "~b0c", "c", "degcelsius", "degreecelsius", "degreescelsius", "wmounit:degc", "pa", "pascals", "pascal", "hpa", "hectapascals", "hectapascal", "in", "inches", "inch", "ft", "feet", "foot", "mph", "m/h", "mh-1", "milesperhour", "~b0f", "f", "degfahrenheit", "degreesfahrenheit", "degreefahrenheit", "inhg", "kt", "kts", "knots", "knot", "k", "kelvin", "m^2/hz", "m2hz-1", "meterssquaredperhertz", "nmi", "nauticalmiles", "nauticalmile", "~b0", "deg", "degs", "degrees", "degree", "s", "second", "seconds", "%", "percent", "percentage", "wmounit:percent", "kj", "kilojoules", "kilojoule", "furlong", "metre/hz", "mk", "~b0k", "wmounit:", "meters/second", "ss", "1", "mm2", "knot/h",
];

pub fn v01(log: &mut Log, rng: &mut Rng) {
    sessions(log, rng);
    log.begin("labels", json!({"kind": "labels", "quantities": [], "rest": ""}));
    for u in UNITS {
        let upper = u.abbreviation().to_uppercase();
        let spellings = [
            ("abbreviation", u.abbreviation().to_string()),
            ("name", u.name().to_string()),
            ("display", format!("{u}")),
            ("padded", format!(" {u} ")),
            ("label", DimensionalData { value: Some(1.0), variable_name: "".into(), unit: u.clone() }.unit_label().to_string()),
        ];
        for (via, s) in spellings {
            let got = guard(|| uname(&Unit::from(s.as_str())));
            log.event(json!({"op": "label", "unit": uname(&u), "via": via, "got": opt(got.ok())}));
        }
        let _ = upper;
        let got = guard(|| serde_json::from_str::<Unit>(&serde_json::to_string(&u).unwrap()).map(|x| uname(&x)).ok());
        log.event(json!({"op": "label", "unit": uname(&u), "via": "json", "got": opt(got.ok().flatten())}));
    }
    for s in STEEPNESS {
        let n = format!("{s:?}");
        for (via, t) in [("word", s.as_str().to_string()), ("display", format!("{s}"))] {
            let got = guard(|| Steepness::from_str(&t).ok().map(|x| format!("{x:?}")));
            log.event(json!({"op": "label", "unit": n, "via": via, "got": opt(got.ok().flatten())}));
        }
    }
    for base in SPELLINGS {
        let text = base.replace("~b0", "\u{b0}").replace("~b2", "\u{b2}");
        let ways = [text.clone(), text.to_uppercase(), format!("  {text}\t"), text.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect()];
        match guard(|| ways.iter().map(|w| uname(&Unit::from(w.as_str()))).collect::<Vec<_>>()) {
            Ok(got) => log.event(json!({"op": "spelled", "text": base, "got": got})),
            Err(w) => log.event(json!({"op": "panic", "what": w})),
        }
    }
    for (n, t) in [("Average", "Average"), ("Average", "AVERAGE"), ("Swell", "SWELL"), ("NA", "NA"), ("Steep", "STEEP"), ("VerySteep", "VERY_STEEP")] {
        let got = guard(|| Steepness::from_str(t).ok().map(|x| format!("{x:?}")));
        log.event(json!({"op": "label", "unit": n, "via": "file", "got": opt(got.ok().flatten())}));
    }
    // A number as a number, or as a text
    log.begin("numbers", json!({"kind": "numbers", "quantities": [], "rest": ""}));
    for i in 0..log.n(200, 3000) {
        let v = match i {
            0 => 0,
            1 => -1,
            _ => rng.int(-1_999_999_999, 1_999_999_999),
        };
        let x = v as f64 / 1000.0;
        for (via, t) in [("text", format!("{x}")), ("sign", format!("{x:+}")), ("places", format!("{x:.3}")), ("number", "".into()), ("exponent", format!("{x:e}"))] {
            let got = guard(|| ofx(if via == "number" { f64_from_str(IntoDeserializer::<serde::de::value::Error>::into_deserializer(x)).ok() } else { figure(&t) }, 1000.0));
            log.event(match got {
                Ok(got) => json!({"op": "number", "via": via, "value": v, "got": got}),
                Err(w) => json!({"op": "panic", "what": w}),
            });
        }
    }
    for t in ["", "MM", "1,5", "null", "true", "1.5.2", "4 1", "0x10", "--1"] {
        let got = guard(|| ofx(figure(t), 1000.0));
        log.event(match got {
            Ok(got) => json!({"op": "nonumber", "text": t, "got": got}),
            Err(w) => json!({"op": "panic", "what": w}),
        });
    }
    log.begin("quantities", json!({"kind": "quantities", "quantities": [], "rest": ""}));
    for u in UNITS {
        for k in 0..log.n(6, 60) {
            let v = match k {
                0 => None,
                1 => Some(0.0),
                2 => Some(-0.001 * rng.int(1, 999) as f64),
                _ => Some(rng.int(-1_000_000, 1_000_000) as f64 / 1000.0),
            };
            let name = (*rng.pick(&["wave height", "", "\"quoted\" \\ \n", "température"])).to_string();
            quantity(log, &DimensionalData::<f64> { value: v, variable_name: name.clone(), unit: u.clone() }, |x| fx(*x, 1000.0));
            quantity(log, &DimensionalData::<f32> { value: v.map(|x| x as f32), variable_name: name.clone(), unit: u.clone() }, |x| x.to_bits() as i64 >> 2);
            quantity(log, &DimensionalData::<i64> { value: v.map(|x| x as i64), variable_name: name.clone(), unit: u.clone() }, |x| *x);
            quantity(log, &DimensionalData::<String> { value: v.map(|x| format!("{x}")), variable_name: name.clone(), unit: u.clone() }, |x| fx(x.parse().unwrap_or(f64::NAN), 1000.0));
            let deg = rng.int(0, 360) as i32;
            quantity(log, &DimensionalData::<Direction> { value: v.map(|_| Direction::from_degrees(deg)), variable_name: name, unit: u.clone() }, |x| {
                x.degrees as i64 * 100 + (format!("{:?}", x.cardinal_direction()).len() as i64)
            });
        }
    }
    log.begin("directions", json!({"kind": "directions", "quantities": [], "rest": ""}));
    for deg in 0..=360 {
        round(log, "direction", &Direction::from_degrees(deg));
        round(log, "point", &CardinalDirection::from_degrees(&deg));
    }
    round(log, "direction", &Direction::from_cardinal_direction(CardinalDirection::Invalid));
    for c in CONVENTIONS {
        round(log, "convention", &c);
    }
    for s in SYSTEMS {
        round(log, "system", &s);
    }
    for s in STEEPNESS {
        round(log, "steepness", &s);
    }
    for d in [TideDatum::MHHW, TideDatum::MHW, TideDatum::MTL, TideDatum::MSL, TideDatum::MLW, TideDatum::MLLW] {
        round(log, "datum", &d);
    }
    for d in [DataInterval::Default, DataInterval::Hourly, DataInterval::HiLo] {
        round(log, "interval", &d);
    }
    for i in 0..log.n(30, 600) {
        log.begin(format!("values-{i}"), json!({"kind": "values", "quantities": [], "rest": ""}));
        let mask = rng.below(64) as u64;
        let mut m = Maker { rng: &mut *rng, mask, given: 0 };
        let x = m.swell();
        round(log, "swell", &x);
        let x = m.built();
        round(log, "built", &x);
        let x = m.summary();
        round(log, "summary", &x);
        let x = m.spectra();
        round(log, "spectra", &x);
        let x = m.location();
        round(log, "location", &x);
        let x = m.wave();
        round(log, "wave", &x);
        let x = m.bulletin();
        round(log, "bulletin", &x);
        let x = ForecastCBulletinWaveRecordMetadata { location: m.location(), model_run_date: m.date() };
        round(log, "bulletinhead", &x);
        let x = m.point();
        round(log, "point", &x);
        let x = ForecastSpectralWaveDataRecordMetadata {
            frequency: x.spectra.frequency.clone(),
            direction: x.spectra.direction_deg().iter().map(|d| Direction::from_degrees(*d as i32)).collect(),
            point_count: m.rng.below(9),
            line_count: m.rng.below(99),
        };
        round(log, "pointhead", &x);
        let x = m.row();
        round(log, "row", &x);
        let x = DirectionalSpectralWaveDataRecord { date: m.date(), spectra: m.spectra() };
        round(log, "directional", &x);
        let x = GribIndexRecord { index: m.rng.below(99), offset: m.rng.below(1 << 40), reference_date: m.date(), var: "HTSGW".into(), level: "surface".into(), valid: "3 hour fcst".into() };
        round(log, "gribindex", &x);
        let x = NwsGridPointData { properties: NwsGridPointProperties { grid_id: "BOX".into(), grid_x: m.rng.below(99), grid_y: m.rng.below(99) } };
        round(log, "gridpoint", &x);
        let x = NwsWeatherForecastDataRecord {
            start_time: m.date(),
            end_time: m.date(),
            is_daytime: m.rng.chance(1, 2),
            temperature: m.q("temperature", Unit::Fahrenheit, -40.0, 120.0),
            dewpoint: m.q("dewpoint", Unit::Celsius, -40.0, 40.0),
            humidity: m.q("humidity", Unit::Percent, 0.0, 100.0),
            wind_speed: m.q("wind speed", Unit::MilesPerHour, 0.0, 90.0),
            wind_direction: m.d("wind direction"),
            icon: "https://api.weather.gov/icons/land/day/rain,20?size=medium".into(),
            short_forecast: "Chance \"Rain\"".into(),
            detailed_forecast: "".into(),
        };
        round(log, "forecast", &x);
        let tide = |m: &mut Maker| TidalDataRecord { date: m.date(), value: m.rng.float(-3.0, 9.0), event: m.rng.pick(&[None, Some(TidalEvent::High), Some(TidalEvent::Low)]).clone() };
        let x = tide(&mut m);
        round(log, "tide", &x);
        let n = m.rng.below(4);
        let x = TidalDataRecordCollection { records: (0..n).map(|_| tide(&mut m)).collect() };
        round(log, "tides", &x);
        let mut x = TideStation::new("8452660", &m.location(), "RI");
        x.reference_id = (*m.rng.pick(&["", "8454000"])).into();
        round(log, "station", &x);
        let n = m.rng.below(4);
        let x = TideStations::from_stations((0..n).map(|_| TideStation::new("1", &m.location(), "")).collect());
        round(log, "stations", &x);
        let x = SolarEvents { sunrise: m.date(), sunset: m.date() };
        round(log, "solar", &x);
    }
}
