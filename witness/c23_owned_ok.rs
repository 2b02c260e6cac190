// property: C23
// expect: ok
// what: a unit and all its parts own their data and outlive the reader, the parser and the stream
use poreader::comment::Comment;
use poreader::note::Note;
use poreader::plural::{Plural, PluralForms};
use poreader::unit::Unit;
use poreader::{Message, PoParser};
fn owned<T: 'static + Clone>() {}
pub fn demo() -> Option<Unit> {
    owned::<Unit>();
    owned::<Message>();
    owned::<Plural>();
    owned::<PluralForms>();
    owned::<Note>();
    owned::<Comment>();
    let bytes = Vec::from("msgid \"a\"\nmsgstr \"b\"\n");
    let parser = PoParser::new();
    let unit = parser.parse(&bytes[..]).unwrap().next().unwrap().unwrap();
    drop(parser);
    drop(bytes);
    Some(unit)
}
