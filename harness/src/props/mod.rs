pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c12;
pub mod c14;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c23life;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c13;
pub mod c16;

use crate::runner::Property;

pub fn all() -> Vec<fn() -> Property> {
    vec![c01::property, c02::property, c03::property, c04::property, c05::property, c06::property, c07::property, c08::property, c09::property, c10::property, c12::property, c13::property, c14::property, c16::property, c18::property, c19::property, c20::property, c21::property, c22::property, c23::property, c25::property, c26::property, c27::property]
}
pub fn get(id: &str) -> Option<Property> {
    all().into_iter().map(|f| f()).find(|p| p.id == id)
}

/// percent encoding for a query string
pub fn enc(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
