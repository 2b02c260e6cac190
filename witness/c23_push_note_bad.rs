// property: C23
// expect: E0596
// twin: c23_read_ok.rs
// what: adding to the notes of a unit
use poreader::note::Note;
use poreader::unit::Unit;
pub fn demo(unit: &mut Unit, n: Note) {
    unit.notes().push(n);
}
