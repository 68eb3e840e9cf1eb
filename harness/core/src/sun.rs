use crate::util::*;
use chrono::{DateTime, Duration, TimeZone, Utc};
use serde_json::{json, Value};
use surfrs::data::nws_weather_forecast_data_record::NwsGridPointData;
use surfrs::location::Location;
use surfrs::solar::calculate_solar_events;
use surfrs::weather::*;

fn midnight(day: i64) -> DateTime<Utc> {
    Utc.with_ymd_and_hms(2000, 1, 1, 0, 0, 0).unwrap() + Duration::days(day)
}
fn sun(lat: f64, lng: f64, day: i64, seconds: i64) -> Vec<i64> {
    let at = Location::new(lat, lng, "somewhere".into());
    match calculate_solar_events(&at, &(midnight(day) + Duration::seconds(seconds))) {
        Some(e) => vec![e.sunrise.timestamp() - midnight(day).timestamp(), e.sunset.timestamp() - midnight(day).timestamp()],
        None => vec![],
    }
}
fn deg(v: i64) -> f64 {
    v as f64 / 100.0
}
fn put(log: &mut Log, r: Result<Value, String>) {
    log.event(r.unwrap_or_else(|e| json!({"op": "panic", "what": e})));
}

fn place(log: &mut Log, rng: &mut Rng, name: String, lat: i64, lng: i64, day: i64) {
    log.begin(name, json!({"lat": lat, "lng": lng, "day": day}));
    let at = rng.int(0, 86399);
    put(log, guard(|| json!({"op": "day", "sun": sun(deg(lat), deg(lng), day, at)})));
    let (a, b) = (rng.int(0, 86399), rng.int(0, 86399));
    put(
        log,
        guard(|| {
            let mut all = vec![sun(deg(lat), deg(lng), day, a), sun(deg(lat), deg(lng), day, b), sun(deg(lat), deg(lng), day, 0)];
            all.push(sun(deg(lat), deg(lng), day, 86399));
            // From Greenwich eastward all the way
            if lng < 0 && lng > -18000 {
                all.push(sun(deg(lat), 360.0 + deg(lng), day, a));
            }
            if lng == 0 {
                all.push(sun(deg(lat), 360.0, day, a));
            }
            // From the equator northward all the way
            if lat < 0 && lat > -9000 {
                all.push(sun(180.0 + deg(lat), deg(lng), day, a));
            }
            // To a second, for what a turn costs in precision
            let first = all[0].clone();
            for s in all.iter_mut() {
                if s.len() == first.len() && s.iter().zip(&first).all(|(x, y)| (x - y).abs() <= 1) {
                    *s = first.clone();
                }
            }
            json!({"op": "same", "suns": all})
        }),
    );
    let steps = [0, rng.int(10, 200), rng.int(300, 900), rng.int(1000, 5000)];
    put(
        log,
        guard(|| {
            let ups: Vec<Vec<i64>> = steps
                .iter()
                .filter(|x| lng + **x <= 18000)
                .map(|x| sun(deg(lat.clamp(-6400, 6400)), deg(lng + x), day, at))
                .collect();
            json!({"op": "east", "ups": ups})
        }),
    );
}

pub fn e01(log: &mut Log, rng: &mut Rng) {
    for (i, s) in log.scenarios().iter().enumerate() {
        let of = |k: &str| s[k].as_i64().unwrap();
        place(log, rng, format!("model-{i}"), of("lat"), of("lng"), of("day"));
    }
    for i in 0..log.n(600, 6000) {
        let lat = match rng.below(8) {
            0 => rng.int(-9000, 9000),
            1 => *rng.pick(&[-9000, 9000, 0, 6650, -6650]),
            _ => rng.int(-6400, 6400),
        };
        let lng = if rng.chance(1, 10) { *rng.pick(&[-18000, 18000, 0, -17999]) } else { rng.int(-18000, 18000) };
        let day = rng.int(0, 15000);
        // The longest and the shortest days there are
        let (lat, day) = if i % 12 == 5 {
            let lat = rng.int(6300, 6640);
            (if rng.chance(1, 2) { lat } else { -lat }, 172 + (rng.int(0, 80) * 36525) / 200 + rng.int(-6, 6))
        } else {
            (lat, day)
        };
        place(log, rng, format!("place-{i}"), lat, lng, day);
    }
    for (i, (lat, lng)) in [(-9001, 0), (-12000, 3000), (27100, 0), (4000, -18001), (4000, 54100), (-9100, 40000), (30000, 60000)].into_iter().enumerate() {
        log.begin(format!("nowhere-{i}"), json!({"lat": lat, "lng": lng, "day": 9000}));
        put(log, guard(|| json!({"op": "day", "sun": sun(deg(lat), deg(lng), 9000, 0)})));
    }
    for i in 0..log.n(200, 2000) {
        // In 1/10000
        let (lat, lng) = match i % 5 {
            0 => (rng.int(-90, 90) * 10000, rng.int(-180, 359) * 10000),
            1 => (rng.int(-9, 9), rng.int(-9, 9)),
            _ => (rng.int(-900000, 900000), rng.int(-1800000, 3600000)),
        };
        let office: String = (0..3).map(|_| (b'A' + rng.below(26) as u8) as char).collect();
        let (x, y) = (rng.int(0, 300) as usize, rng.int(0, 300) as usize);
        log.begin(
            format!("address-{i}"),
            json!({"lat": lat, "lng": lng, "office": office, "x": x.to_string(), "y": y.to_string()}),
        );
        put(
            log,
            guard(|| {
                let url = create_points_url(&Location::new(lat as f64 / 10000.0, lng as f64 / 10000.0, "".into()));
                let cut = url.rfind('/').map_or(0, |i| i + 1);
                let parts: Vec<f64> = url[cut..].split(',').map(|v| v.parse().unwrap_or(f64::NAN)).collect();
                let part = |i: usize| if parts.len() == 2 { fx(parts[i], 10000.0) } else { NAN };
                json!({"op": "address", "what": "points", "before": &url[..cut], "lat": part(0), "lng": part(1)})
            }),
        );
        put(log, guard(|| json!({"op": "address", "what": "cell", "url": create_gridpoints_url(&office, &x, &y)})));
        put(log, guard(|| json!({"op": "address", "what": "forecast", "url": create_forecast_url(&office, &x, &y)})));
        put(log, guard(|| json!({"op": "address", "what": "hourly", "url": create_hourly_forecast_url(&office, &x, &y)})));
        // What the points address answers with, from which the others follow
        let answer = json!({"id": "x", "type": "Feature", "properties": {"@id": "x", "cwa": "XXX", "gridId": office, "gridX": x, "gridY": y,
            "forecast": "x", "timeZone": "America/New_York"}})
        .to_string();
        put(
            log,
            guard(|| match NwsGridPointData::from_json(&answer) {
                Ok(g) => json!({"op": "grid", "office": g.properties.grid_id, "x": g.properties.grid_x.to_string(), "y": g.properties.grid_y.to_string()}),
                Err(e) => json!({"op": "panic", "what": e.to_string()}),
            }),
        );
    }
}
