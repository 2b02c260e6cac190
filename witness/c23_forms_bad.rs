// property: C23
// expect: E0308 E0596 E0594
// twin: c23_read_ok.rs
// what: changing the plural forms shared by the messages
use poreader::plural::PluralForms;
use poreader::unit::Unit;
pub fn demo(unit: &mut Unit) {
    let f: &mut PluralForms = unit.message().plural().unwrap().get_forms().unwrap();
    let _ = f;
}
