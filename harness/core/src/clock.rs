use crate::util::*;
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike, Utc};
use serde_json::{json, Value};
use surfrs::tools::date::*;

/// The civil fields of an instant, read off it one by one
pub fn civil(t: &DateTime<Utc>) -> Value {
    json!([t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second(), t.nanosecond()])
}

fn tick(log: &mut Log, t: &DateTime<Utc>, mult: u32) {
    let got = guard(|| {
        json!({
            "station": civil(&closest_gfs_model_stations_datetime(t)),
            "gridded": civil(&closest_gfs_model_gridded_datetime(t)),
            "hourly": civil(&closest_hourly_model_datetime(t)),
            "floor": civil(&round_to_nearest_multiple_hour(t, mult)),
        })
    });
    match got {
        Ok(v) => log.event(json!({"op": "tick", "t": civil(t), "mult": mult, "got": v})),
        Err(w) => log.event(json!({"op": "panic", "t": civil(t), "what": w})),
    }
}

fn window(log: &mut Log, a: DateTime<Utc>, b: DateTime<Utc>) {
    let got = guard(|| gfs_model_fmrc_datetimes((a, b)).iter().map(civil).collect::<Vec<_>>());
    match got {
        Ok(v) => log.event(json!({"op": "window", "t": civil(&a), "end": civil(&b), "runs": v})),
        Err(w) => log.event(json!({"op": "panic", "t": civil(&a), "what": w})),
    }
}

pub fn instant(rng: &mut Rng) -> DateTime<Utc> {
    let y = *rng.pick(&[1999, 2000, 2019, 2020, 2021, 2022, 2023, 2024, 2025, 2028, 2030, 2100]);
    let base = if rng.chance(2, 3) {
        // Near the end of a month, February favoured
        let m = *rng.pick(&[1, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
        Utc.with_ymd_and_hms(y, m, 1, 0, 0, 0).unwrap() + Duration::seconds(rng.int(-40 * 3600, 40 * 3600))
    } else {
        Utc.with_ymd_and_hms(y, 1, 1, 0, 0, 0).unwrap() + Duration::seconds(rng.int(0, 364 * 86400))
    };
    let t = if rng.chance(1, 2) {
        // On, just before and just after the hour
        base.with_minute(0).unwrap().with_second(0).unwrap() + Duration::seconds(*rng.pick(&[0, -1, 1]))
    } else {
        base
    };
    t + Duration::nanoseconds(*rng.pick(&[0, 0, 1, 999_999_999, 500_000_000]))
}

pub fn run(log: &mut Log, rng: &mut Rng) {
    // The design model's clock, hour by hour over each kind of boundary
    let starts = [
        (2023, 12, 30), (2024, 2, 27), (2023, 2, 27), (2000, 2, 28), (2100, 2, 27), (2024, 4, 29),
        (2024, 6, 29), (2024, 8, 30), (2024, 12, 30), (1999, 12, 31), (2020, 3, 30), (2026, 10, 30),
    ];
    for (y, m, d) in starts {
        let t0 = Utc.with_ymd_and_hms(y, m, d, 0, 0, 0).unwrap();
        log.begin(format!("hours-{y}-{m}-{d}"), json!({}));
        for h in 0..log.n(80, 400) as i64 {
            for (extra, ns) in [(-1, 999_999_999), (0, 0), (1799, 1), (3598, 0)] {
                let t = t0 + Duration::seconds(h * 3600 + extra) + Duration::nanoseconds(ns);
                tick(log, &t, (h % 24 + 1) as u32);
            }
        }
    }
    // Random walks forward in time
    for i in 0..log.n(150, 2000) {
        log.begin(format!("walk-{i}"), json!({}));
        let mut t = instant(rng);
        for _ in 0..30 {
            tick(log, &t, rng.int(1, 24) as u32);
            t = t + Duration::seconds(*rng.pick(&[0, 1, 59, 3599, 3600, 7200, 20000, 86400, 90001])) + Duration::nanoseconds(rng.int(0, 999_999_999));
        }
    }
    log.begin("windows", json!({}));
    for i in 0..log.n(600, 6000) {
        if i % 100 == 99 {
            log.begin(format!("windows-{i}"), json!({}));
        }
        let a = instant(rng);
        let b = a + if rng.chance(1, 3) {
            Duration::hours(rng.int(-8, 60))
        } else {
            Duration::seconds(rng.int(-30000, 500_000))
        };
        window(log, a, b);
        if i % 60 == 0 {
            // A season of runs
            window(log, a, a + Duration::hours(rng.int(1500, 4000)));
        }
        // From and to whole cycles
        let c = round_cycle(&a);
        window(log, c, c + Duration::hours(rng.int(0, 80)));
    }
}

fn round_cycle(t: &DateTime<Utc>) -> DateTime<Utc> {
    Utc.with_ymd_and_hms(t.year(), t.month(), t.day(), t.hour() / 6 * 6, 0, 0).unwrap()
}
