// property: C23
// expect: E0596
// twin: c23_read_ok.rs
// what: changing the values of a plural
use poreader::unit::Unit;
pub fn demo(unit: &mut Unit) {
    unit.message().plural().unwrap().values().clear();
}
