//! Stand-in for the absent git dependency: the part of its interface surfrs uses, over messages
//! put together in memory instead of decoded.
pub mod error {
    #[derive(Debug, Clone, PartialEq)]
    pub enum GribberishError {
        DataRepresentationTemplateError(String),
        GridTemplateError(String),
        MessageError(String),
    }

    impl std::fmt::Display for GribberishError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }

    impl std::error::Error for GribberishError {}
}

#[macro_export]
macro_rules! unwrap_or_return {
    ( $e:expr, $err:expr ) => {
        match $e {
            Some(x) => x,
            None => return Err($err),
        }
    };
}

pub mod templates {
    pub mod product {
        pub mod tables {
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum FixedSurfaceType {
                GroundOrWater,
                IsobaricSurface,
                MeanSeaLevel,
                OrderedSequence,
                Missing,
            }
        }
    }
}

pub mod message {
    use super::error::GribberishError;
    use super::templates::product::tables::FixedSurfaceType;
    use chrono::{DateTime, Utc};

    /// A regular grid: latitudes and longitudes of its rows and columns
    #[derive(Debug, Clone)]
    pub struct LatLngProjection {
        pub lat: Vec<f64>,
        pub lng: Vec<f64>,
    }

    impl LatLngProjection {
        /// (lng, lat) of one corner, then of the opposite one
        pub fn bbox(&self) -> (f64, f64, f64, f64) {
            let (a, b) = (self.latlng_start(), self.latlng_end());
            (a.1.min(b.1), a.0.min(b.0), a.1.max(b.1), a.0.max(b.0))
        }
        pub fn lat_lng(&self) -> (Vec<f64>, Vec<f64>) {
            (self.lat.clone(), self.lng.clone())
        }
        pub fn latlng_start(&self) -> (f64, f64) {
            (self.lat[0], self.lng[0])
        }
        pub fn latlng_end(&self) -> (f64, f64) {
            (self.lat[self.lat.len() - 1], self.lng[self.lng.len() - 1])
        }
    }

    #[derive(Debug, Clone)]
    pub struct Message {
        pub abbrev: Option<String>,
        pub surface: Option<(FixedSurfaceType, Option<f64>)>,
        pub valid: Option<DateTime<Utc>>,
        pub unit: String,
        pub grid: LatLngProjection,
        pub values: Option<Vec<f64>>,
    }

    fn missing(what: &str) -> GribberishError {
        GribberishError::MessageError(format!("no {what}"))
    }

    impl Message {
        pub fn variable_abbrev(&self) -> Result<String, GribberishError> {
            self.abbrev.clone().ok_or_else(|| missing("variable"))
        }
        pub fn first_fixed_surface(&self) -> Result<(FixedSurfaceType, Option<f64>), GribberishError> {
            self.surface.ok_or_else(|| missing("surface"))
        }
        pub fn forecast_date(&self) -> Result<DateTime<Utc>, GribberishError> {
            self.valid.ok_or_else(|| missing("date"))
        }
        pub fn unit(&self) -> Result<String, GribberishError> {
            Ok(self.unit.clone())
        }
        pub fn data(&self) -> Result<Vec<f64>, GribberishError> {
            self.values.clone().ok_or_else(|| missing("data"))
        }
        /// Rows, columns
        pub fn grid_dimensions(&self) -> Result<(usize, usize), GribberishError> {
            Ok((self.grid.lat.len(), self.grid.lng.len()))
        }
        pub fn latlng_projector(&self) -> Result<LatLngProjection, GribberishError> {
            Ok(self.grid.clone())
        }
    }
}
