use crate::util::*;
use chrono::{DateTime, TimeZone, Utc};
use serde_json::{json, Value};
use std::f64::consts::PI;
use surfrs::data::directional_spectral_wave_data_record::DirectionalSpectralWaveDataRecord as Built;
use surfrs::data::spectral_wave_data_record::{SpectralWaveDataRecord, SpectralWaveDataRecordCollection};

#[derive(Clone, Copy)]
struct Row {
    e: i64,
    a1: i64,
    a2: i64,
    r1: i64,
    r2: i64,
}
const NO_ENERGY: i64 = 999900;
const NO_DIRECTION: i64 = 999;
const NO_SPREAD: i64 = 99900;

impl Row {
    fn random(rng: &mut Rng) -> Row {
        let a1 = rng.int(0, 359);
        let top = *rng.pick(&[25, 50, 100]);
        let mut r = Row {
            e: *rng.pick(&[0, 1, 11, 380, 5_000, 123_456, 900_000, 999_800, 999_000, 1_000_000, 1_250_000, 2_000_000, 9_999_000, 40_000_000]),
            a1,
            a2: if rng.chance(1, 3) { a1 } else { rng.int(0, 360) },
            r1: rng.int(0, top),
            r2: rng.int(0, top),
        };
        if rng.chance(1, 3) {
            r.miss(rng.below(5));
        }
        r
    }
    fn miss(&mut self, which: usize) {
        match which {
            0 => self.e = NO_ENERGY,
            1 => self.a1 = NO_DIRECTION,
            2 => self.a2 = NO_DIRECTION,
            3 => self.r1 = NO_SPREAD,
            _ => self.r2 = NO_SPREAD,
        }
    }
    fn json(&self) -> Value {
        json!({"e": self.e, "a1": self.a1, "a2": self.a2, "r1": self.r1, "r2": self.r2})
    }
}

struct Case {
    date: DateTime<Utc>,
    ds: Vec<i64>,
    freq: Vec<i64>,
    rows: Vec<Row>,
    even: bool,
}

impl Case {
    fn columns(&self, rows: &[Row]) -> [Vec<f64>; 5] {
        let c = |f: fn(&Row) -> f64| rows.iter().map(f).collect::<Vec<f64>>();
        [c(|r| r.e as f64 / 1000.0), c(|r| r.a1 as f64), c(|r| r.a2 as f64), c(|r| r.r1 as f64 / 100.0), c(|r| r.r2 as f64 / 100.0)]
    }
    fn axis(&self) -> Vec<f64> {
        self.ds.iter().map(|d| (*d as f64).to_radians()).collect()
    }
    fn freqs(&self) -> Vec<f64> {
        self.freq.iter().map(|f| *f as f64 / 1000.0).collect()
    }
    fn new(&self, rows: &[Row]) -> Built {
        let [e, a1, a2, r1, r2] = self.columns(rows);
        Built::new(&self.date, &self.axis(), &self.freqs(), &e, &a1, &a2, &r1, &r2)
    }
    fn init(&self) -> Value {
        json!({"date": self.date.timestamp(), "ds": self.ds, "freq": self.freq, "even": self.even,
            "rows": self.rows.iter().map(|r| r.json()).collect::<Vec<_>>()})
    }
    fn event(&self, b: &Built) -> Value {
        let nk = self.rows.len();
        let v: Vec<i64> = b
            .spectra
            .energy
            .iter()
            .enumerate()
            .map(|(i, v)| match self.rows[i % nk] {
                Row { e, .. } if e == 0 || e == NO_ENERGY => fx(*v, 10000.0),
                Row { e, .. } => fx(v * PI / (e as f64 / 1000.0), 10000.0),
            })
            .collect();
        json!({"op": "built", "v": v, "ds": b.spectra.direction_deg().iter().map(|d| fx(*d, 1.0)).collect::<Vec<_>>(),
            "freq": fxs(&b.spectra.frequency, 1000.0), "conv": format!("{:?}", b.spectra.dir_convention), "date": b.date.timestamp()})
    }
    fn run(&self, log: &mut Log, rng: &mut Rng, name: String) {
        log.begin(name, self.init());
        let panic = |e: String| json!({"op": "panic", "what": e});
        let built = match guard(|| self.new(&self.rows)) {
            Ok(b) => b,
            Err(e) => return log.event(panic(e)),
        };
        log.event(self.event(&built));
        let k = rng.below(self.rows.len());
        let mut rows = self.rows.clone();
        rows[k] = Row::random(rng);
        let per = |b: &Built| -> Vec<String> {
            let nk = self.rows.len();
            (0..nk).map(|k| b.spectra.energy.iter().skip(k).step_by(nk).map(|v| bits(*v)).collect::<Vec<_>>().join("")).collect()
        };
        log.event(match guard(|| self.new(&rows)) {
            Ok(b) => json!({"op": "alone", "changed": k + 1, "was": per(&built), "is": per(&b)}),
            Err(e) => panic(e),
        });
        let columns = self.columns(&self.rows);
        // What is not the energy's is not looked at
        let mut records: Vec<SpectralWaveDataRecord> = columns
            .iter()
            .map(|v| SpectralWaveDataRecord {
                date: self.date - chrono::Duration::hours(rng.int(0, 3)),
                separation_frequency: if rng.chance(1, 2) { Some(9.999) } else { None },
                value: v.clone(),
                frequency: self.freqs(),
            })
            .collect();
        records[0].date = self.date;
        let [e, a1, a2, r1, r2]: [SpectralWaveDataRecord; 5] = records.try_into().unwrap();
        log.event(match guard(|| Built::from_data_records(&self.axis(), e, a1, a2, r1, r2)) {
            Ok(b) => json!({"op": "records", "same": per(&b) == per(&built) && self.event(&b) == self.event(&built)}),
            Err(e) => panic(e),
        });
    }
}

/// Records of the buoy files in the repository, as parsed by the library
fn files(log: &mut Log, rng: &mut Rng) {
    for name in ["44097", "44097.09182022"] {
        let texts: Vec<String> = ["data_spec", "swdir", "swdir2", "swr1", "swr2"]
            .iter()
            .map(|x| std::fs::read_to_string(format!("/repo/mock/{name}.{x}")).unwrap_or_default())
            .collect();
        let mut all: Vec<SpectralWaveDataRecordCollection> = texts.iter().map(|t| SpectralWaveDataRecordCollection::from_data(t)).collect();
        let rows: Vec<Vec<SpectralWaveDataRecord>> = all.iter_mut().map(|c| c.records().take(800).collect()).collect();
        let step = log.n(97, 13);
        for i in (0..rows.iter().map(|r| r.len()).min().unwrap_or(0)).step_by(step) {
            let nk = rows[0][i].value.len();
            if rows.iter().any(|r| r[i].value.len() != nk) {
                continue;
            }
            let n = *rng.pick(&[24, 36, 72]);
            let c = Case {
                date: rows[0][i].date,
                ds: (0..n).map(|k| k * 360 / n).collect(),
                freq: rows[0][i].frequency.iter().map(|f| fx(*f, 1000.0)).collect(),
                rows: (0..nk)
                    .map(|k| Row {
                        e: fx(rows[0][i].value[k], 1000.0),
                        a1: fx(rows[1][i].value[k], 1.0),
                        a2: fx(rows[2][i].value[k], 1.0),
                        r1: fx(rows[3][i].value[k], 100.0),
                        r2: fx(rows[4][i].value[k], 100.0),
                    })
                    .collect(),
                even: true,
            };
            c.run(log, rng, format!("{name}-{i}"));
        }
    }
}

pub fn q01(log: &mut Log, rng: &mut Rng) {
    let date = Utc.with_ymd_and_hms(2023, 3, 9, 12, 40, 0).unwrap();
    let scen = log.scenarios();
    let step = log.n(7, 7);
    for (i, s) in scen.iter().enumerate().filter(|(i, _)| i % step == 0) {
        let n = s["n"].as_i64().unwrap();
        let of = |r: &Value, k: &str| r[k].as_i64().unwrap();
        let rows = s["rows"].as_array().unwrap().iter();
        let rows = rows.map(|r| Row { e: of(r, "e"), a1: of(r, "a1"), a2: of(r, "a2"), r1: of(r, "r1"), r2: of(r, "r2") }).collect();
        let c = Case { date, ds: (0..n).map(|k| k * 360 / n).collect(), freq: vec![50, 120], rows, even: true };
        c.run(log, rng, format!("model-{i}"));
    }
    for i in 0..log.n(300, 3000) {
        let nk = 2 + rng.below(9);
        let even = rng.chance(2, 3);
        let mut ds: Vec<i64> = if even {
            let n = *rng.pick(&[3, 4, 5, 6, 8, 9, 10, 12, 24, 36, 72]);
            let start = rng.int(0, 359);
            (0..n).map(|k| (start + k * 360 / n) % 360).collect()
        } else {
            let n = 2 + rng.below(12);
            (0..n).map(|_| rng.int(0, 359)).collect()
        };
        match rng.below(4) {
            0 => rng.shuffle(&mut ds),
            1 => ds.reverse(),
            _ => {}
        }
        let freq = (0..nk).scan(20, |x, _| {
            *x += rng.int(3, 40);
            Some(*x)
        });
        let freq = freq.collect();
        let rows = (0..nk).map(|_| Row::random(rng)).collect();
        let date = date + chrono::Duration::minutes(10 * rng.int(0, 99999));
        Case { date, ds, freq, rows, even }.run(log, rng, format!("spectrum-{i}"));
    }
    files(log, rng);
}
