// property: C22
// expect: ok
// what: two readers of one parser that is not declared mutable
use poreader::PoParser;
pub fn demo(a: &[u8], b: &[u8]) -> usize {
    let parser = PoParser::new();
    let mut x = parser.parse(a).unwrap();
    let mut y = parser.parse(b).unwrap();
    let mut n = 0;
    while let (Some(_), Some(_)) = (x.next(), y.next()) {
        n += 1;
    }
    n
}
