// property: C22
// expect: ok
// what: a parser can be shared between threads and sent to another one
use poreader::PoParser;
fn shared<T: Sync + Send + 'static>(_: &T) {}
pub fn demo() {
    let parser = PoParser::new();
    shared(&parser);
    let a = "msgid \"\"\nmsgstr \"\"\n";
    std::thread::scope(|s| {
        s.spawn(|| parser.parse(a.as_bytes()).map(|r| r.count()).unwrap_or(0));
        s.spawn(|| parser.parse(a.as_bytes()).map(|r| r.count()).unwrap_or(0));
    });
    std::thread::spawn(move || parser.parse(std::io::empty()).map(|r| r.count()).unwrap_or(0));
}
