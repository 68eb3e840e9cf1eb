use crate::address::put;
use crate::util::*;
use serde_json::json;
use surfrs::model::ModelTimeOutputResolution as Axis;
use surfrs::model::{GEFSWaveModel, GFSWaveModel, ModelDataSource, NOAAModel, NWPSModel};
use chrono::TimeZone;

fn model<M: NOAAModel>(log: &mut Log, rng: &mut Rng, name: &str, m: &M) {
    log.begin(format!("model-{name}"), json!({"model": name}));
    put(log, guard(|| json!({"op": "named", "id": m.id(), "name": m.name(), "description": m.description(),
        "named": m.create_url(&ModelDataSource::NOMADS, 3, Some(chrono::Utc.with_ymd_and_hms(2024, 2, 1, 12, 0, 0).unwrap())).contains(m.id())})));
    let axis = m.time_resolution();
    put(log, guard(|| json!({"op": "again", "same": serde_json::from_str::<Axis>(&serde_json::to_string(&axis).unwrap()).map(|a| format!("{a:?}")).ok() == Some(format!("{axis:?}"))})));
    for i in 0..log.n(200, 500) {
        put(log, guard(|| {
            let hour = m.hour_for_index(i);
            json!({"op": "output", "i": i, "hour": hour, "back": m.index_for_hour(hour)})
        }));
        put(log, guard(|| json!({"op": "hour", "h": i, "i": m.index_for_hour(i)})));
    }
    for _ in 0..log.n(20, 100) {
        let (a, n) = (rng.below(300), rng.below(40));
        put(log, guard(|| json!({"op": "hours", "a": a, "b": a + n, "got": axis.hours_for_index_range(a, a + n)})));
        put(log, guard(|| json!({"op": "span", "a": a, "b": a + n, "first": m.index_for_hour(a), "last": m.index_for_hour(a + n), "got": axis.hours_for_hour_range(a, a + n)})));
    }
}

fn models(log: &mut Log, rng: &mut Rng) {
    model(log, rng, "atlantic", &GFSWaveModel::atlantic());
    model(log, rng, "west_coast", &GFSWaveModel::west_coast());
    model(log, rng, "east_pacific", &GFSWaveModel::east_pacific());
    model(log, rng, "global_16", &GFSWaveModel::global_16());
    model(log, rng, "global_25", &GFSWaveModel::global_25());
    model(log, rng, "mean", &GEFSWaveModel::global_25_mean());
    model(log, rng, "spread", &GEFSWaveModel::global_25_spread());
    model(log, rng, "boston", &NWPSModel::boston());
    log.begin("models", json!({"model": "atlantic"}));
    put(log, guard(|| {
        let all: Vec<Box<dyn Known>> = vec![Box::new(GFSWaveModel::atlantic()), Box::new(GFSWaveModel::west_coast()), Box::new(GFSWaveModel::east_pacific()), Box::new(GFSWaveModel::global_16()),
            Box::new(GFSWaveModel::global_25()), Box::new(GEFSWaveModel::global_25_mean()), Box::new(GEFSWaveModel::global_25_spread()), Box::new(NWPSModel::boston())];
        json!({"op": "models", "ids": all.iter().map(|m| m.known().0).collect::<Vec<_>>(), "descriptions": all.iter().map(|m| m.known().1).collect::<Vec<_>>()})
    }));
    for s in [ModelDataSource::NODDAWS, ModelDataSource::NODDGCP, ModelDataSource::NOMADS] {
        put(log, guard(|| json!({"op": "again", "same": serde_json::from_str::<ModelDataSource>(&serde_json::to_string(&s).unwrap()).ok() == Some(s.clone())})));
    }
}

trait Known {
    fn known(&self) -> (&'static str, &'static str);
}
impl<M: NOAAModel> Known for M {
    fn known(&self) -> (&'static str, &'static str) {
        (self.id(), self.description())
    }
}

pub fn run(log: &mut Log, rng: &mut Rng) {
    let mut axes = vec![("hourly", 0, Axis::Hourly), ("three", 0, Axis::ThreeHourly)];
    let mut cuts: Vec<usize> = vec![0, 3, 6, 24, 120, 240];
    for _ in 0..log.n(6, 40) {
        cuts.push(rng.below(90) * 3);
    }
    for c in cuts {
        axes.push(("hybrid1", c, Axis::HybridHourlyThreeHourly(c)));
        axes.push(("hybrid3", c, Axis::HybridThreeHourlySixHourly(c)));
    }
    for c in [1, 2, 7, 100, 121] {
        axes.push(("hybrid1", c, Axis::HybridHourlyThreeHourly(c)));
    }
    for (kind, cut, axis) in axes {
        log.begin(format!("{kind}-{cut}"), json!({"kind": kind, "cut": cut}));
        for i in 0..log.n(200, 400) {
            put(log, guard(|| {
                let hour = axis.hour_for_index(i);
                json!({"op": "output", "i": i, "hour": hour, "back": axis.index_for_hour(hour)})
            }));
            put(log, guard(|| json!({"op": "hour", "h": i, "i": axis.index_for_hour(i)})));
        }
        for _ in 0..log.n(60, 400) {
            let near = rng.chance(1, 2);
            let a = if near { (cut + rng.below(14)).saturating_sub(7) } else { rng.below(400) };
            let b = a + if rng.chance(1, 10) { rng.below(1500) } else { rng.below(40) };
            // Also a range that ends before it starts
            let (a, b) = if rng.chance(1, 12) { (b, a) } else { (a, b) };
            put(log, guard(|| json!({"op": "indexes", "a": a, "b": b, "got": axis.indexes_for_hour_range(a, b)})));
            put(log, guard(|| json!({"op": "hours", "a": a, "b": b, "got": axis.hours_for_index_range(a, b)})));
            put(log, guard(|| json!({"op": "span", "a": a, "b": b, "first": axis.index_for_hour(a), "last": axis.index_for_hour(b), "got": axis.hours_for_hour_range(a, b)})));
        }
    }
    models(log, rng);
    log.finish();
}
