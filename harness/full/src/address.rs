use crate::util::*;
use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
use serde_json::{json, Value};
use surfrs::buoy_station::{BuoyStation, BuoyStations};
use surfrs::model::{GEFSWaveModel, GFSWaveModel, ModelDataSource, NOAAModel, NWPSModel};
use surfrs::tools::dap::{format_dap_constraints, DapConstraint};

const SOURCES: [(&str, ModelDataSource); 3] = [("aws", ModelDataSource::NODDAWS), ("nomads", ModelDataSource::NOMADS), ("gcp", ModelDataSource::NODDGCP)];
const IDS: [&str; 8] = ["44097", "4409", "440977", "BUZM3", "buzm3", "0y2w3", "SANF1", "h9999"];

fn instant(d: &DateTime<Utc>) -> Value {
    json!([d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second(), d.nanosecond()])
}

fn days(y: i32, m: u32) -> i64 {
    match m {
        2 => 28 + (y % 4 == 0 && y % 100 != 0 || y % 400 == 0) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn moment(rng: &mut Rng) -> DateTime<Utc> {
    let y = rng.int(1999, 2104) as i32;
    let m = match rng.below(4) {
        0 => 1,
        1 => 3,
        _ => rng.int(1, 12) as u32,
    };
    let d = match rng.below(3) {
        0 => 1,
        1 => days(y, m),
        _ => rng.int(1, days(y, m)),
    };
    let (mi, s) = if rng.chance(1, 3) { (0, 0) } else { (rng.int(0, 59), rng.int(0, 59)) };
    Utc.with_ymd_and_hms(y, m, d as u32, rng.int(0, 23) as u32, mi as u32, s as u32).unwrap()
}

fn constraint(c: &DapConstraint) -> Value {
    json!({"var": c.var, "ranges": c.ranges.iter().map(|(a, b, c)| json!([a, b, c])).collect::<Vec<_>>()})
}

fn some(rng: &mut Rng) -> DapConstraint {
    let var = (*rng.pick(&["time", "wind_spd", "spectral_wave_density", "v", "sea.temp"])).to_string();
    let ranges = (0..*rng.pick(&[0, 1, 1, 2, 3, 4, 7])).map(|_| (number(rng) as usize, number(rng) as usize, number(rng) as usize)).collect();
    DapConstraint::new(var, ranges)
}

fn number(rng: &mut Rng) -> i64 {
    match rng.below(4) {
        0 => 0,
        1 => rng.int(1, 12),
        _ => rng.int(0, 1_900_000_000),
    }
}

fn text(log: &mut Log, rng: &mut Rng, kinds: &[&str]) {
    let mut toks = vec![];
    let mut s = String::new();
    for k in kinds {
        match *k {
            "v" => {
                let w = *rng.pick(&["wind", "mean_wave_dir", "x2"]);
                s.push_str(w);
                toks.push(json!({"k": "v", "s": w}));
            }
            "n" => {
                let v = number(rng);
                s.push_str(&v.to_string());
                toks.push(json!({"k": "n", "v": v}));
            }
            "x" => {
                s.push_str(*rng.pick(&["a", "-", "x1", "é", "3.5e", "?", "-1"]));
                toks.push(json!({"k": "x"}));
            }
            "b" => {
                s.push_str("99999999999999999999999");
                toks.push(json!({"k": "b"}));
            }
            w => {
                s.push_str(w);
                toks.push(json!({"k": w}));
            }
        }
    }
    put(log, guard(|| json!({"op": "constraint", "text": s, "toks": toks, "got": opt(s.parse::<DapConstraint>().ok().map(|c| constraint(&c)))})));
}

fn buoy(log: &mut Log, rng: &mut Rng, id: &str) {
    log.begin(format!("buoy-{id}"), json!({}));
    let b = BuoyStation::new(id.to_string(), 41.0, -71.0);
    put(log, guard(|| json!({"op": "directory", "urls": [BuoyStations::active_stations_url(), BuoyStations::latest_obs_url()]})));
    let mut url = |what: &str, f: &dyn Fn(&BuoyStation) -> String| put(log, guard(|| json!({"op": "buoy", "what": what, "id": id, "url": f(&b)})));
    url("latest", &|b| b.latest_obs_data_url());
    url("met", &|b| b.meteorological_data_url());
    url("wave", &|b| b.wave_data_url());
    url("spectral", &|b| b.spectral_wave_data_url());
    url("meandir", &|b| b.mean_wave_direction_spectral_data_url());
    url("principaldir", &|b| b.principal_wave_direction_spectral_data_url());
    url("r1", &|b| b.r1_spectral_data_url());
    url("r2", &|b| b.r2_spectral_data_url());
    for _ in 0..6 {
        let cs: Vec<DapConstraint> = (0..rng.below(4)).map(|_| some(rng)).collect();
        let listed: Vec<Value> = cs.iter().map(constraint).collect();
        put(log, guard(|| json!({"op": "archive", "what": "stdmet", "id": id, "constraints": listed, "root": b.stdmet_dap_url_root(), "das": b.stdmet_das_url(), "dds": b.stdmet_dds_url(), "dods": b.stdmet_dods_url(&cs)})));
        put(log, guard(|| json!({"op": "archive", "what": "swden", "id": id, "constraints": listed, "root": b.swden_dap_url_root(), "das": b.swden_das_url(), "dds": b.swden_dds_url(), "dods": b.swden_dods_url(&cs)})));
    }
    for (name, src) in &SOURCES {
        for _ in 0..3 {
            let run = moment(rng).with_minute(0).unwrap().with_second(0).unwrap();
            let t = instant(&run);
            put(log, guard(|| json!({"op": "forecast", "what": "bulletin", "id": id, "src": name, "run": t, "url": b.gfswave_bulletin_data_url(src, &run)})));
            put(log, guard(|| json!({"op": "forecast", "what": "spectral", "id": id, "src": name, "run": t, "url": b.gfswave_spectral_data_url(src, &run)})));
            put(log, guard(|| json!({"op": "listing", "src": name, "run": t, "listing": BuoyStation::gfswave_lsl_url(src, &run), "root": BuoyStations::gfswave_stations_root_url(src, &run)})));
        }
    }
}

fn grid(log: &mut Log, rng: &mut Rng, name: &str, model: &dyn Fn() -> Box<dyn Addressed>, n: usize) {
    log.begin(format!("grid-{name}"), json!({}));
    let m = model();
    for k in 0..n {
        let t = if k < 24 {
            Utc.with_ymd_and_hms(2024, 2, 29, 0, 0, 0).unwrap() + chrono::Duration::hours(k as i64) + chrono::Duration::seconds(*rng.pick(&[0, 1, 3599]))
        } else {
            moment(rng)
        };
        let hour = *rng.pick(&[0usize, 1, 3, 9, 10, 12, 99, 100, 120, 123, 384]);
        for (name_, src) in &SOURCES {
            // The ensemble is not kept at Google
            if *name_ == "gcp" && (name == "mean" || name == "spread") {
                continue;
            }
            put(log, guard(|| json!({"op": "grid", "model": name, "src": name_, "hour": hour, "t": instant(&t), "run": instant(&m.run(&t)), "url": m.url(src, hour, t), "idx": m.idx(src, hour, t)})));
        }
    }
}

/// The model trait is not object safe for all of its callers; this much of it is
trait Addressed {
    fn run(&self, t: &DateTime<Utc>) -> DateTime<Utc>;
    fn url(&self, s: &ModelDataSource, h: usize, t: DateTime<Utc>) -> String;
    fn idx(&self, s: &ModelDataSource, h: usize, t: DateTime<Utc>) -> String;
}
impl<M: NOAAModel> Addressed for M {
    fn run(&self, t: &DateTime<Utc>) -> DateTime<Utc> {
        self.closest_model_run_date(t)
    }
    fn url(&self, s: &ModelDataSource, h: usize, t: DateTime<Utc>) -> String {
        self.create_url(s, h, Some(t))
    }
    fn idx(&self, s: &ModelDataSource, h: usize, t: DateTime<Utc>) -> String {
        self.create_idx_url(s, h, Some(t))
    }
}

pub fn run(log: &mut Log, rng: &mut Rng) {
    log.begin("constraints", json!({}));
    for s in log.scenarios() {
        if let Some(ts) = s["toks"].as_array() {
            let kinds: Vec<&str> = ts.iter().map(|t| t.as_str().unwrap()).collect();
            text(log, rng, &kinds);
        }
    }
    for n in 0..log.n(300, 4000) {
        if n % 100 == 0 {
            log.begin(format!("again-{n}"), json!({}));
        }
        let c = some(rng);
        let v = constraint(&c);
        put(log, guard(|| {
            let text = c.to_string();
            json!({"op": "again", "c": v, "text": text, "got": opt(text.parse::<DapConstraint>().ok().map(|c| constraint(&c)))})
        }));
        let cs: Vec<DapConstraint> = (0..rng.below(4)).map(|_| some(rng)).collect();
        put(log, guard(|| json!({"op": "list", "cs": cs.iter().map(constraint).collect::<Vec<_>>(), "text": format_dap_constraints(&cs)})));
    }
    for id in IDS {
        buoy(log, rng, id);
    }
    let n = log.n(60, 600);
    grid(log, rng, "atlantic", &|| Box::new(GFSWaveModel::atlantic()), n);
    grid(log, rng, "west_coast", &|| Box::new(GFSWaveModel::west_coast()), n);
    grid(log, rng, "east_pacific", &|| Box::new(GFSWaveModel::east_pacific()), n);
    grid(log, rng, "global_16", &|| Box::new(GFSWaveModel::global_16()), n);
    grid(log, rng, "global_25", &|| Box::new(GFSWaveModel::global_25()), n);
    grid(log, rng, "mean", &|| Box::new(GEFSWaveModel::global_25_mean()), n);
    grid(log, rng, "spread", &|| Box::new(GEFSWaveModel::global_25_spread()), n);
    grid(log, rng, "boston", &|| Box::new(NWPSModel::boston()), n);
    log.begin("sources", json!({}));
    for w in ["aws", "amazon", "gcp", "gcs", "google", "nomads", "noaa", "unknown", "", "ftp", "azure"] {
        for _ in 0..4 {
            let mut s: String = w.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
            if rng.chance(1, 2) {
                s = format!("{}{s}", rng.pick(&["NODD", "nodd", "", " ", "https://", "s3/", "the ", "x-"]));
            }
            if rng.chance(1, 4) {
                s = format!("{s}{}", rng.pick(&[" ", "/x", ".", " cloud", ":443"]));
            }
            put(log, guard(|| json!({"op": "source", "word": w, "text": s, "got": opt(ModelDataSource::try_from(s.as_str()).ok().map(|x| match x {
                ModelDataSource::NODDAWS => "aws",
                ModelDataSource::NODDGCP => "gcp",
                ModelDataSource::NOMADS => "nomads",
            }))})));
        }
    }
    log.finish();
}

pub fn put(log: &mut Log, e: Result<Value, String>) {
    log.event(match e {
        Ok(v) => v,
        Err(p) => json!({"op": "panic", "message": p}),
    });
}
