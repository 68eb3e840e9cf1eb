fn main() { let v: Vec<f64> = surfrs::tools::vector::diff(&[1.0, 3.0]); assert_eq!(v.len(), 1); }
