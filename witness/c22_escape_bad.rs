// property: C22
// expect: E0515 E0597 E0373 E0716
// twin: c22_outlive_ok.rs
// what: a reader returned from the function that owns its parser
use poreader::PoParser;
pub fn demo(a: &'static [u8]) -> Box<dyn Iterator<Item = usize>> {
    let parser = PoParser::new();
    let reader = parser.parse(a).unwrap();
    Box::new(reader.map(|u| u.map(|u| u.notes().len()).unwrap_or(0)))
}
