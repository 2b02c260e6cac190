import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
R='src/po/reader.rs';X='src/po/message_extractor.rs';D='src/po/decoder.rs';L='src/po/line_iter.rs';A='src/po/parser.rs';U='src/po/unescape.rs'
FN='src/plural/formula/node.rs';FM='src/plural/formula/mod.rs';FG='src/plural/formula/formula.lalrpop';FO='src/plural/forms.rs';PL='src/plural/plural.rs'
ME='src/enums/message.rs';UN='src/unit.rs';ER='src/error.rs'
p('C01','No input can make the library panic',
 'Whatever bytes are read, and whatever counts the plural look-ups are asked for, no public operation panics, in builds with overflow checks too, and no plural formula the parser accepts can overflow the stack when it is evaluated. Bad input only ever produces an error value or a `None`.',
 ['inputs'],'all byte streams given to the parser, all counts given to the plural look-ups, all sequences of public calls',
 'The tests sample a handful of well-formed catalogs; an index, slice, unwrap, unreachable or arithmetic overflow that only an odd header, line or count reaches is never executed by them.',
 [R,X,D,L,A,U,FN,FM,FO,PL],[('peek before next/unwrap',D),('wrapping arithmetic and zero tests before division',FN),('range guard before the table look-up',U),('length limit of the formula source',FM),('ASCII guard before the Unix locale parser',R)],
 obs=['PoParser::parse','PoReader::next','Plural::get','PluralForms::get_value','Message::get_plural_text'])
p('C02','Reading always terminates, with work bounded by the input',
 'For every finite input, creating a reader and iterating it to the end terminates: every turn of every reading loop either consumes input or ends the loop. In particular no number written in the header (such as the announced count of plural forms) makes the reader loop more times than there are lines to consume.',
 ['inputs'],'all finite byte streams, all header values',
 'A test terminates on the few inputs it has; a loop whose bound comes from a header number or that forgets to advance on one kind of line only hangs on inputs nobody wrote down.',
 [R,X,D,L],[('loops advance the line stream on every turn',R+', '+D+', '+L),('the variants loop stops at the first absent variant',X)],obs=['PoParser::parse','PoReader::next'])
p('C03','The first error ends the iteration and is reported once',
 'Once iteration has returned an error it returns `None` for ever. After an I/O error or a malformed line has been met, the underlying stream is never read again.',
 ['fault_sequences','histories'],'all positions at which a read error or bad line can occur, all later calls to next',
 'The tests place an error at two or three positions and call next once or twice afterwards; the claim is about every position and every later call.',
 [L,R],[('inner reader dropped on error',L+' LineIter::next'),('look-ahead unit replaced by None when it is an error',R+' PoReader::next')],
 [dict(name='inner',meaning='the line source, None after a failure',where=L),dict(name='next_unit',meaning='look-ahead unit or error',where=R)],['PoReader::next'])
p('C04','No read error and no malformed line is swallowed',
 'An I/O error (including invalid UTF-8) or a line that is not valid PO syntax, wherever it occurs, is returned as an error by the creation of the reader or by the iteration; it is never taken for the end of the input, a blank line or the end of an entry. The error returned is the one of the failing line, and a bad header formula or count fails the creation of the reader.',
 ['fault_sequences','inputs'],'all positions of a fault relative to entries, comments, continuation lines and the header',
 'Each place that looks ahead in the line stream has its own handling of a failed line; tests exercise a few of these places with one kind of failure.',
 [L,D,R,X,FO],[('every look-ahead on an error takes it out and returns it',D+' fetch_next, expected; '+R+' read_line, parse_comments'),('`?` on every fallible call',R+', '+X)],obs=['PoParser::parse','PoReader::next'])
p('C05','No line that was read is silently lost',
 'Every entry, comment and continuation line that is read ends up in a returned unit, in the header data or in an error; only blank lines and comments that no entry follows are dropped. Units come out in file order, each exactly once, and an entry that lacks a mandatory part gives an error.',
 ['inputs','histories'],'all sequences of lines, all interleavings of the kinds of lines',
 'Tests check a few complete, well-ordered catalogs; losses show for particular orders of kinds of lines.',
 [R,X,D],[('a line is consumed only in the step that stores it',D+' parse_msg; '+R+' parse_comments'),('one unit of look-ahead swapped at each step',R+' next'),('expected() reports the unexpected line',D)],obs=['PoReader::next','Unit accessors'])
p('C06','Errors carry the number of the offending line',
 'The line number carried by an I/O, parse or empty-source error is the 1-based number of the physical line where the problem is (for an empty source: the line where the entry starts), blank lines included in the count.',
 ['inputs'],'all inputs with a fault, all mixes of blank lines, comments and entries before it',
 'A wrong number needs a particular mix of lines before the fault; tests have few faults and nearly all near the top of the input.',
 [L,A,D,R],[('counter incremented once per physical line',L),('number copied in each parsed line',A),('number of the peeked line in the errors',D+' expected; '+R+' read_unit')],
 [dict(name='n',meaning='number of the next line',where=L)],['Error::Parse','Error::Io','Error::Unexpected'])
p('C07','Comments of an entry go where their marker says',
 'Of the comment lines before an entry, `#,` gives the trimmed comma-separated flags, `#:` the whitespace-separated locations, `#.` a developer note, `# ` (or a bare `#`) a translator note, and any other marker a custom comment with that marker. Order within notes, locations and comments is that of the file, nothing is added, and no entry sees the comments of another one.',
 ['inputs'],'all sequences of comment lines with any markers and contents',
 'The tests have one line of each kind with benign contents; the claim is about every marker, every content and every repetition.',
 [R,A,'src/comment.rs','src/note.rs'],[('dispatch on the marker',R+' parse_comments'),('marker and content captured',A+' comment_re')],obs=['Unit::flags','Unit::locations','Unit::notes','Unit::comments'])
p('C08','Only complete non-fuzzy entries count as translated',
 'A unit is `NeedsWork` exactly when one of its flags is `fuzzy`; otherwise it is `Final` when its translation has some non-empty text and `Empty` when it has none. `is_translated` holds exactly for `Final`.',
 ['inputs'],'all combinations of flags, flag lines, simple and plural texts',
 'The state depends on the combination of flags at any place of any flag line with the blankness of every variant; tests have a few of them.',
 [R,UN,ME,PL],[('state set by the flag',R+' parse_comments'),('state completed after the entry is read',R+' read_unit'),('blankness of a message',ME+', '+PL)],obs=['Unit::state','Unit::is_translated'])
p('C09','Obsolete entries are exactly the ones written with #~',
 'A unit is obsolete exactly when the lines of its entry carry the `#~` marker (`#~|` for the previous fields). Lines with the marker and lines without it are never combined in one unit.',
 ['inputs'],'all mixtures of marked and unmarked lines',
 'Tests contain purely obsolete or purely live entries; mixtures within one entry or one string are not tested.',
 [R,D,A],[('marker of the first line',R+' read_line'),('marker compared for each field and each continuation',D+' parse_msg')],obs=['Unit::is_obsolete'])
p('C10','The header entry is the first entry iff its source is empty',
 'If the first entry is a simple one with an empty source, that entry is the header: its data is exposed by the reader and it is never returned as a unit. Otherwise the first entry is returned as the first unit and the header data is empty; a later simple entry with an empty source is an error.',
 ['inputs'],'all inputs, with or without header, header repeated or misplaced',
 'Tests have one header at the start or none; the claim concerns every position of an empty source.',
 [R,X,ME],[('first unit parsed in a special mode',R+' new'),('empty source rejected afterwards',R+' read_unit')],obs=['PoParser::parse','PoReader::next'])
p('C11','Header data is exposed faithfully',
 'Each line `Key: value` of the translation of the header, split at its first colon and trimmed on both sides, gives a property, the values of a repeated key being joined by one space in file order; lines without colon are ignored. The notes and the custom comments of the header entry are the header notes and comments; the target language is the `Language` property parsed as a language tag, else as a Unix locale name, else the invariant language, and `Plural-Forms` gives the plural forms of every plural message read afterwards.',
 ['inputs'],'all header texts: any keys, repeated keys, colons in values, languages',
 'Tests have two header texts; values with several colons, repeated keys and malformed languages have many combinations.',
 [R],[('split at the first colon, group by key, join',R+' parse_po_header')],obs=['CatalogueReader::header_properties','header_notes','header_comments','target_language','Plural::get_forms'])
p('C12','Each field of an entry is returned by its own accessor',
 'In a returned unit, the context, previous context, source, plural source, previous source, previous plural source and translations are exactly the decoded strings of the lines `msgctxt`, `#| msgctxt`, `msgid`, `msgid_plural`, `#| msgid`, `#| msgid_plural` and `msgstr` of that entry, absent when the line is absent. A message is plural exactly when it has a plural source; an empty simple translation is no text; fields out of the standard order give an error.',
 ['inputs'],'all subsets and orders of the fields of an entry',
 'The fields are read by a sequence of optional steps; tests cover two of the subsets and no wrong order.',
 [X,D,UN,ME,PL],[('ordered optional steps',X+' parse_message_fields'),('accessors',UN)],obs=['Unit accessors','Message accessors','Plural accessors'])
p('C13','Continuation strings are appended in order to their own field',
 'The value of a field is the decoded string of its line followed, in order and without separator, by the strings of the directly following continuation lines that carry the same marker, and by nothing else. A continuation line with another marker, or that follows no field, is an error.',
 ['inputs'],'all numbers of continuation lines, all markers',
 'Tests have one or two continuation lines with the same marker.',
 [D],[('loop over continuation lines comparing the marker',D+' parse_msg')],obs=['Unit accessors'])
p('C14','Plural variant i of a message is msgstr[i]',
 'The values of a plural message are the texts of `msgstr[0]`, `msgstr[1]`, ... without gap, up to the count of plural forms of the header, or to 2 when the header has no plural forms. A missing `msgstr[0]`, a gap, an index out of order or an index beyond the count gives an error and never a shifted value.',
 ['inputs'],'all sets of variant indices, all counts of forms',
 'Tests only have complete sets of variants.',
 [X,FO],[('loop over the indices up to the count',X+' new_message')],obs=['Plural::values'])
p('C15','A plural look-up returns the variant the formula selects, or nothing',
 'For every count, the text of a plural message is the variant whose index is the value of the formula on that count, provided that this index is below the announced number of forms and that the variant exists; otherwise it is `None`, as it is without plural forms or for a count the formula arithmetic cannot represent. A look-up never panics or falls back to another variant; a simple message gives its one text for every count.',
 ['inputs'],'all counts, formulas, numbers of forms and numbers of variants',
 'The tests look up some small counts in consistent catalogs; bounds only matter when formula, count of forms and variants disagree or the count is extreme.',
 [PL,FO,FM,ME],[('index filtered by the count of forms',FO+' get_value'),('negative results rejected',FM+' execute'),('checked access',PL+' get')],obs=['Plural::get','PluralForms::get_value','Message::get_plural_text'])
p('C16','Formula operators compute what they say, totally',
 'Evaluating a formula gives, for `+ - * / %` and unary minus, wrapping signed 64-bit arithmetic (division truncates toward zero), for comparisons and logical operators 1 or 0 as in C, and for `?:` the selected branch; `n` is the count. Division by zero gives the largest value, or the smallest one when the dividend is negative, and modulo zero gives the dividend.',
 ['inputs'],'all expression trees, all counts, all operand values',
 'Tests try each operator on a few operand values; signs, zero, boundaries and equal operands distinguish wrong operators only on some values.',
 [FN],[('one arm per operator',FN+' execute')],obs=['PluralForms::get_value'])
p('C17','Formulas are parsed with the precedence and associativity of C',
 'A formula that is accepted has the meaning of the C expression: `?:` binds loosest and to the right, then `||`/`or`, `&&`/`and`, `== !=`, `< <= > >=`, `+ -`, `* / %`, then the unary operators `!`/`not` and `-`, the binary operators grouping to the left; parentheses override. Every such token maps to its own operator with its operands in order, numbers are decimal and one that does not fit 64 bits is an error, as is any other text.',
 ['programs'],'all formulas (all pairs and triples of operators determine the parse)',
 'Precedence is a relation between all pairs of operators; the tests parse one formula per operator and two larger ones.',
 [FG,FM,FN],[('grammar levels',FG),('node constructors',FN)],obs=['PluralForms::get_value'])
p('C18','Escape sequences are decoded exactly once',
 'In the strings of messages, `\\n`, `\\r`, `\\t`, `\\"` and `\\\\` are replaced by newline, carriage return, tab, quote and backslash, in a single left-to-right pass where no decoded character takes part in another escape. Every other character, including other backslash sequences, is left as it is.',
 ['inputs'],'all strings, all characters after a backslash, all runs of backslashes',
 'Tests decode three strings; runs of backslashes and characters off the list are not sampled.',
 [U,A],[('one regular expression and one table that agree',U),('applied once to the quoted part',A+' parse_line')],obs=['Message::get_text','Message::get_id'])
p('C19','Each line is classified by the PO line syntax',
 'A line of white space only is blank. A line made of an optional marker `#~`, `#|` or `#~|`, an optional keyword (`msgctxt`, `msgid`, `msgid_plural`, `msgstr`, `msgstr[N]` with N a decimal number without leading zero) and a quoted string is a field, or a continuation when there is no keyword, with its string running from the first to the last quote; any other line that starts with `#` is a comment whose kind is the character after `#` (a space if none) and whose content is the rest without leading space; anything else is an error.',
 ['inputs'],'all lines',
 'Tests classify fifteen lines; the classification is by regular expressions whose language is infinite.',
 [A],[('regular expressions message_re and comment_re',A),('order of the tests',A+' parse_line')],obs=['PoReader::next'])
p('C20','Plural-Forms is read as a list of key=value; definitions',
 'The plural forms property must be a list of `key = value;` items: anything else is an error. `nplurals` is an unsigned number (2 when absent, an error when it is not a number), `plural` is the formula (`n` when absent or empty, an error when it is not a formula); the definition and the formula are reported as written.',
 ['inputs'],'all property texts',
 'Tests read four such texts.',
 [A,FO,FM],[('list regular expressions',A+' parse_map'),('defaults and errors',FO+' parse')],obs=['PluralForms::get_count','PluralForms::get_definition','PluralForms::get_formula'])
p('C21','The result depends on nothing but the bytes read',
 'Reading the same bytes always gives the same units, header data and errors, whatever the environment, the time, the locale of the process, earlier calls or the way the stream cuts its data into pieces. The library writes nothing and touches no file, environment variable, clock, thread, process or global mutable state; the order of hash tables never shows in a result.',
 ['histories','schedules','configurations','inputs'],'all environments, all earlier calls, all ways of splitting the bytes in reads, all hash seeds',
 'A dependence on ambient state or on read sizes shows only when the state differs; tests run in one environment and read from in-memory slices.',
 ['src/lib.rs',R,L,A,X,D,FO],[('the stream is only used through buffered line reading',L),('no ambient authority is called','all of src'),('hash tables only filled or searched by key',R+', '+A)],obs=['PoReader','CatalogueReader'])
p('C22','One parser serves any number of readers and threads',
 'A parser is immutable after its creation: using it for one reader never changes what another reader returns, at the same time or later. It can be shared between threads and sent to another one, and the compiler rejects a reader that outlives its parser.',
 ['histories','schedules'],'all interleavings of readers of one parser, in one or several threads',
 'Tests create a parser per case and use it from one thread.',
 [A,R,L,U],[('shared reference to the parser only',R+', '+L),('no interior mutability or global state in the parser',A+', '+U)],obs=['PoParser','PoReader'])
p('C23','Units are self-contained values nobody else can change',
 'A returned unit owns all its data: it stays valid and unchanged after the reader, the parser and the stream are gone. User code can only read the data of units, plurals, forms, comments and notes: no public operation changes them, and no accessor has an effect.',
 ['programs','histories'],'all programs that use the public interface',
 'This is about every program that compiles against the interface; tests are a few programs.',
 [UN,PL,FO,'src/comment.rs','src/note.rs',ME],[('private fields and shared-reference accessors',UN+', '+PL+', '+FO),('no borrowed data in units',UN)],obs=['Unit','Plural','PluralForms','Note','Comment'])
p('C24','The views of a message agree with each other',
 'A simple message is simple (when its id is not empty), has no plural id and no plural part, and its text, the empty string when there is none, is what `get_text` returns; a plural message is plural and never simple, its id, plural id and text are the singular, the plural and the first value (or the empty string) of its plural part. A message is blank exactly when it has no non-empty text among all its variants.',
 ['inputs'],'all messages: both kinds, present, absent or empty texts, any variants',
 'The tests check each view on a few messages separately.',
 [ME,PL],[('matches on the kind of message',ME),('values list',PL)],obs=['Message accessors','Plural accessors'])
p('C25','Message equality is an equivalence on content',
 'Equality of messages is reflexive, symmetric and transitive. Two simple messages are equal exactly when they have the same id and the same text, an absent text being the same as an empty one; two plural messages are equal exactly when they have the same singular and plural sources; messages of different kinds are never equal.',
 ['inputs'],'all pairs and triples of messages',
 'Equivalence is a statement on all pairs and triples; the tests compare five pairs.',
 [ME],[('PartialEq for Message',ME)],obs=['Message == Message'])
p('C26','Errors print their position and keep their cause',
 'The texts of an error, by `Display` and by `Debug`, contain its cause or message (for a parse error the expected and the found token unless they are empty) and, except for plural form errors, the line number whenever it is not 0 (a parse error always has it). The source of an I/O error is the original error and other errors have no source; conversion to `std::io::Error` wraps the whole error with kind `Other`.',
 ['inputs'],'all error values',
 'Tests format one value of each kind.',
 [ER],[('fmt, source and From',ER)],obs=['Display','Debug','Error::source','From<Error> for std::io::Error'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import subprocess
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
try:
    import jsonschema
    for x in P: jsonschema.validate(x,s)
except ImportError: print('nojs')
print(len(P), [x['title'] for x in P if len(x['title'])>80])
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
