// property: C22
// expect: ok
// what: the twin of c22_outlive_bad: the reader is dropped before its parser
use poreader::PoParser;
pub fn demo(a: &'static [u8]) -> usize {
    let parser = PoParser::new();
    let reader = parser.parse(a);
    let n = match reader { Ok(r) => r.count(), Err(_) => 0 };
    drop(parser);
    n
}
