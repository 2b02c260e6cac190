// property: C23
// expect: E0594
// twin: c23_read_ok.rs
// what: replacing the previous message of a unit
use poreader::unit::Unit;
use poreader::Message;
pub fn demo(unit: &mut Unit) {
    *unit.prev_message() = Message::default();
}
