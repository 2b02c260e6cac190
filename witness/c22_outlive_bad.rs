// property: C22
// expect: E0505
// twin: c22_outlive_ok.rs
// what: a reader that is used after its parser is gone
use poreader::PoParser;
pub fn demo(a: &'static [u8]) -> usize {
    let parser = PoParser::new();
    let reader = parser.parse(a);
    drop(parser);
    let n = match reader { Ok(r) => r.count(), Err(_) => 0 };
    n
}
