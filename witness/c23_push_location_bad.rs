// property: C23
// expect: E0596
// twin: c23_read_ok.rs
// what: adding to the locations of a unit
use poreader::unit::Unit;
pub fn demo(unit: &mut Unit) {
    unit.locations().push(String::new());
}
