// property: C23
// expect: ok
// what: the twin of the c23 writes: everything can be read through a shared reference
use poreader::unit::Unit;
pub fn demo(unit: &Unit) -> usize {
    let p = unit.message().plural();
    unit.notes().len() + unit.locations().len() + unit.comments().len() + unit.flags().len()
        + unit.message().get_text().len() + unit.prev_message().get_id().len()
        + p.map_or(0, |p| p.values().len() + p.get_forms().map_or(0, |f| f.get_count() + f.get_formula().len()))
        + unit.context().map_or(0, |c| c.len()) + unit.prev_context().map_or(0, |c| c.len())
        + unit.is_translated() as usize + unit.is_obsolete() as usize
}
