//! C15 the JSON form of documents, slices and steps
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;

// ---- the JSON that ProseMirror writes, written independently
const NAME: [&str; 12] = ["doc", "paragraph", "heading", "code_block", "blockquote", "bullet_list", "ordered_list", "list_item", "horizontal_rule", "hard_break", "image", "text"];
/// how to write what may be written in more than one way
#[derive(Clone, Copy)]
struct Style { type_last: bool, empty: bool, null: bool, rev_marks: bool }
const PLAIN: Style = Style { type_last: false, empty: false, null: false, rev_marks: false };
fn jstr(s: &str, o: &mut String) { o.push('"'); o.push_str(s); o.push('"'); }
fn jopt(k: &str, s: &str, st: Style, o: &mut String) { if s.is_empty() { if st.null { o.push_str(",\""); o.push_str(k); o.push_str("\":null"); } return; } o.push_str(",\""); o.push_str(k); o.push_str("\":"); jstr(s, o); }
fn jmark(m: &MarkdownMark, st: Style, o: &mut String) {
    let t = match m { MarkdownMark::Strong => "strong", MarkdownMark::Em => "em", MarkdownMark::Code => "code", _ => "link" };
    o.push('{'); if !st.type_last || t != "link" { o.push_str("\"type\":"); jstr(t, o); }
    if let MarkdownMark::Link { attrs } = m { if !st.type_last { o.push(','); } o.push_str("\"attrs\":{\"href\":"); jstr(&attrs.href, o); jopt("title", &attrs.title, st, o); o.push('}'); if st.type_last { o.push_str(",\"type\":\"link\""); } }
    o.push('}');
}
fn jnode(n: &MarkdownNode, st: Style, o: &mut String) {
    let t = NAME[ty(n) as usize]; o.push('{'); let mut sep = "";
    if !st.type_last { o.push_str("\"type\":"); jstr(t, o); sep = ","; }
    let a = match n {
        MarkdownNode::Heading(h) => { const L: [&str; 7] = ["0", "1", "2", "3", "4", "5", "6"]; let mut s = String::from("\"level\":"); s.push_str(L[h.attrs.level as usize % 7]); s }
        MarkdownNode::CodeBlock(c) => { let mut s = String::from("\"params\":"); jstr(&c.attrs.params, &mut s); s }
        MarkdownNode::BulletList(l) => String::from(if l.attrs.tight { "\"tight\":true" } else { "\"tight\":false" }),
        MarkdownNode::OrderedList(l) => format!("\"order\":{},\"tight\":{}", l.attrs.order, l.attrs.tight),
        MarkdownNode::Image(i) => { let mut s = String::from("\"src\":"); jstr(&i.attrs.src, &mut s); jopt("alt", &i.attrs.alt, st, &mut s); jopt("title", &i.attrs.title, st, &mut s); s }
        _ => String::new() };
    if !a.is_empty() { o.push_str(sep); sep = ","; o.push_str("\"attrs\":{"); o.push_str(&a); o.push('}'); }
    if let MarkdownNode::Text(x) = n {
        let mut ms: Vec<&MarkdownMark> = (&x.marks).into_iter().collect(); if st.rev_marks { ms.reverse(); }
        if !ms.is_empty() || st.empty { o.push_str(sep); sep = ","; o.push_str("\"marks\":["); let mut f = true; for m in ms { if !f { o.push(','); } f = false; jmark(m, st, o); } o.push(']'); }
        o.push_str(sep); sep = ","; o.push_str("\"text\":"); jstr(x.text.as_str(), o);
    } else if !is_leaf(n) && (!kids(n).is_empty() || st.empty) { o.push_str(sep); sep = ","; o.push_str("\"content\":"); jnodes(kids(n), st, o); }
    if st.type_last { o.push_str(sep); o.push_str("\"type\":"); jstr(t, o); }
    o.push('}');
}
fn jnodes(ns: &[MarkdownNode], st: Style, o: &mut String) { o.push('['); let mut f = true; for n in ns { if !f { o.push(','); } f = false; jnode(n, st, o); } o.push(']'); }
fn jslice(s: &Slice<MD>, st: Style, o: &mut String) { o.push_str("{\"content\":"); jnodes(s.content.children(), st, o); if s.open_start > 0 || st.empty { o.push_str(&format!(",\"openStart\":{}", s.open_start)); } if s.open_end > 0 || st.empty { o.push_str(&format!(",\"openEnd\":{}", s.open_end)); } o.push('}'); }

fn any_style() -> Style { let k = pick("style", 5); Style { type_last: k == 1, empty: k == 2, null: k == 3, rev_marks: k == 4 } }
fn read(s: &str) -> MarkdownNode { match serde_json::from_str::<MarkdownNode>(s) { Ok(n) => n, Err(e) => { note!("error {}", e); fail("the JSON of a document could not be read") } } }
fn same(a: &MarkdownNode, b: &MarkdownNode) -> bool { ty(a) == ty(b) && attr_key(a) == attr_key(b) && (ty(a) != TEXT || { let (mut x, mut y) = (vec![], vec![]); flat_into(a, &mut x); flat_into(b, &mut y); eq_toks(&x, &y) }) && eq_toks(&flat(a), &flat(b)) && a == b }
/// written and read back
pub fn check_round(d: &MarkdownNode) {
    note!("node {}", show(std::slice::from_ref(d)));
    let s = match serde_json::to_string(d) { Ok(s) => s, Err(_) => fail("a document could not be written as JSON") };
    note!("json {}", s); let r = read(&s); cover("read back"); observe(digest(&flat(&r)));
    if !same(&r, d) { fail("a document written as JSON is read back differently") }
    if !sizes_ok(&r) { fail("a cached size in a document read from JSON is wrong") }
}
/// read from the JSON that ProseMirror writes
pub fn check_read(d: &MarkdownNode, st: Style) {
    let mut s = String::new(); jnode(d, st, &mut s); note!("json {}", s);
    let r = read(&s); cover("read"); note!("read as {}", show(std::slice::from_ref(&r))); observe(digest(&flat(&r)));
    if !same(&r, d) { fail("a document was not read as its JSON says") }
    if !sizes_ok(&r) { fail("a cached size in a document read from JSON is wrong") }
}
/// what is written says the same as what ProseMirror writes: empty lists and zero depths may be left out or not
fn norm(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::Object(m) => { let mut drop = Vec::new(); for (k, x) in m.iter_mut() { norm(x); let e = match x { serde_json::Value::Array(a) => a.is_empty() && (k == "content" || k == "marks"), serde_json::Value::Number(n) => (k == "openStart" || k == "openEnd") && n.as_u64() == Some(0), serde_json::Value::Bool(b) => k == "structure" && !*b, serde_json::Value::String(s) => s.is_empty() && (k == "alt" || k == "title"), serde_json::Value::Null => true, _ => false }; if e { drop.push(k.clone()); } } for k in drop { m.remove(&k); } }
        serde_json::Value::Array(a) => for x in a { norm(x) },
        _ => {}
    }
}
fn val_of(s: &str) -> serde_json::Value { match serde_json::from_str(s) { Ok(v) => v, Err(_) => fail("what is written is not JSON") } }
fn check_written(s: &str, want: &str) { let (mut a, mut b) = (val_of(s), val_of(want)); norm(&mut a); norm(&mut b); note!("json {} expected {}", s, want); cover("written"); if a != b { fail("the JSON written does not say what ProseMirror's does") } }
fn written(d: &MarkdownNode) { let s = match serde_json::to_string(d) { Ok(s) => s, Err(_) => fail("a document could not be written as JSON") }; let mut w = String::new(); jnode(d, PLAIN, &mut w); check_written(&s, &w); observe(s.len() as u64) }

pub fn h_json_round() { check_round(&any_doc()) }
pub fn h_json_round_gen() { check_round(&gen_doc(3)) }
pub fn h_json_round_big() { check_round(&big(pick("big", NBIG))) }
pub fn h_json_read() { let d = any_doc(); let st = any_style(); check_read(&d, st) }
pub fn h_json_read_gen() { let d = gen_doc(2); let st = any_style(); check_read(&d, st) }
pub fn h_json_read_gen3() { let d = gen_doc(3); let st = any_style(); check_read(&d, st) }
pub fn h_json_read_big() { let d = big(pick("big", NBIG)); let st = any_style(); check_read(&d, st) }
/// the other ways to read and write: from bytes, a reader, a value; laid out with blanks; with escapes for all characters
fn spaced(s: &str) -> String { let mut o = String::new(); let (mut q, mut e) = (false, false); for c in s.chars() { if q { o.push(c); if e { e = false } else if c == '\\' { e = true } else if c == '"' { q = false } } else if c == '"' { q = true; o.push(c) } else if matches!(c, '{' | '[' | ',' | ':') { o.push(c); o.push_str("\n\t \r"); } else { if matches!(c, '}' | ']') { o.push(' '); } o.push(c) } } o }
fn escaped(s: &str) -> String { let mut o = String::new(); let mut q = false; for c in s.chars() { if c == '"' { q = !q; o.push(c) } else if q { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b).iter() { o.push_str("\\u"); for k in [12, 8, 4, 0] { o.push(char::from(b"0123456789aBcDeF"[(*u >> k) as usize & 15])); } } } else { o.push(c) } } o }
pub fn h_json_how() {
    let d = any_doc(); let mut s = String::new(); jnode(&d, PLAIN, &mut s);
    let r = match pick("how", 9) {
        0 => serde_json::from_slice(s.as_bytes()), 1 => serde_json::from_reader(std::io::Cursor::new(s.as_bytes())), 2 => serde_json::from_value(val_of(&s)), 3 => serde_json::from_str(&spaced(&s)), 4 => serde_json::from_str(&escaped(&s)),
        5 => serde_json::from_slice(&serde_json::to_vec(&d).unwrap_or_default()), 6 => serde_json::from_value(serde_json::to_value(&d).unwrap_or_default()), 7 => serde_json::from_str(&serde_json::to_string_pretty(&d).unwrap_or_default()), _ => { let mut w: Vec<u8> = Vec::new(); let _ = serde_json::to_writer(&mut w, &d); serde_json::from_slice(&w) } };
    note!("json {}", s); let r: MarkdownNode = match r { Ok(r) => r, Err(_) => fail("the JSON of a document could not be read") };
    cover("read"); observe(digest(&flat(&r))); if !same(&r, &d) { fail("a document was not read as its JSON says") } if !sizes_ok(&r) { fail("a cached size in a document read from JSON is wrong") }
}
pub fn h_json_written() { written(&any_doc()) }
pub fn h_json_written_gen() { written(&gen_doc(2)) }

fn ch(t: &str, s: &mut String) { // any character up to U+FFFF without surrogates, by its UTF-8 bytes
    match pick("bytes", 4) { 0 => s.push(val(t, 0x7f) as u8 as char), 1 => { let v = [0xC2 + val("b0", 0xDF - 0xC2) as u8, 0x80 + val("b1", 0x3f) as u8]; s.push_str(unsafe { std::str::from_utf8_unchecked(&v) }) }
        2 => { let v = [0xF1 + val("b0", 2) as u8, 0x80 + val("b1", 0x3f) as u8, 0x80 + val("b2", 0x3f) as u8, 0x80 + val("b3", 0x3f) as u8]; s.push_str(unsafe { std::str::from_utf8_unchecked(&v) }) }
        _ => { let v = [0xE1 + val("b0", 11) as u8, 0x80 + val("b1", 0x3f) as u8, 0x80 + val("b2", 0x3f) as u8]; s.push_str(unsafe { std::str::from_utf8_unchecked(&v) }) } }
}
fn word(t: &str) -> String { let mut s = String::from("a"); ch(t, &mut s); s }
/// any character in each of the strings of a document
pub fn h_json_chars() {
    let d = match pick("where", 7) {
        0 => doc_of(vec![elem(b'p', Fragment::from(vec![text(word("c"), MarkSet::default())]))]),
        1 => doc_of(vec![elem(b'p', Fragment::from(vec![text("a".into(), { let mut m = MarkSet::default(); m.add(&link(&word("c"), "")); m })]))]),
        2 => doc_of(vec![elem(b'p', Fragment::from(vec![text("a".into(), { let mut m = MarkSet::default(); m.add(&link("x", &word("c"))); m })]))]),
        3 => doc_of(vec![elem(b'p', Fragment::from(vec![image(&word("c"), "", "")]))]),
        4 => doc_of(vec![elem(b'p', Fragment::from(vec![image("x", &word("c"), "")]))]),
        5 => doc_of(vec![elem(b'p', Fragment::from(vec![image("x", "", &word("c"))]))]),
        _ => doc_of(vec![MarkdownNode::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: word("c") }, content: Fragment::new() })]),
    };
    check_round(&d)
}
fn doc_of(v: Vec<MarkdownNode>) -> MarkdownNode { elem(b'd', Fragment::from(v)) }
/// numbers and flags in attributes
pub fn h_json_attrs() {
    let d = match pick("where", 3) {
        0 => MarkdownNode::Heading(AttrNode { attrs: HeadingAttrs { level: val("level", 255) as u8 }, content: Fragment::new() }),
        1 => MarkdownNode::BulletList(AttrNode { attrs: BulletListAttrs { tight: pick("tight", 2) == 1 }, content: Fragment::new() }),
        _ => MarkdownNode::OrderedList(AttrNode { attrs: OrderedListAttrs { order: number("order"), tight: pick("tight", 2) == 1 }, content: Fragment::new() }),
    };
    check_round(&d)
}
fn number(t: &str) -> usize { match pick("range", 6) { 0 => us(t, 150), 1 => 65535, 2 => u32::MAX as usize + us(t, 3), 3 => (1usize << 53) + us(t, 3), 4 => i64::MAX as usize + us(t, 2), _ => usize::MAX - us(t, 2) } }

// ---- slices and steps
pub fn h_json_slice() {
    let s = Slice::<MD>::new(Fragment::from(build(SLICES[pick("slice", SLICES.len())])), us("os", 3), us("oe", 3)); note!("slice {:?}", s);
    let t = match serde_json::to_string(&s) { Ok(t) => t, Err(_) => fail("a slice could not be written as JSON") };
    match serde_json::from_str::<Slice<MD>>(&t) { Ok(r) => { observe(digest(&flat_all(r.content.children()))); if r != s || r.content.size() != s.content.size() || !eq_toks(&flat_all(r.content.children()), &flat_all(s.content.children())) { fail("a slice written as JSON is read back differently") } } Err(_) => fail("a slice written as JSON could not be read back") }
    let mut w = String::new(); jslice(&s, PLAIN, &mut w); check_written(&t, &w);
    match serde_json::from_str::<Slice<MD>>(&w) { Ok(r) => { cover("read"); if r != s { fail("a slice was not read as its JSON says") } } Err(_) => fail("the JSON of a slice could not be read") }
}
fn num(k: &str, v: usize, o: &mut String) { o.push_str(&format!(",\"{}\":{}", k, v)); }
/// a step and the JSON that ProseMirror writes for it; one number varies, the others differ from each other
fn step(st: Style, big: bool) -> (Step<MD>, String) {
    let mut o = String::new(); let kind = pick("kind", 4);
    let mut f = [3usize, 14, 25, 36, 47]; let w = pick("which", if kind == 1 { 5 } else { 2 }); f[w] = if big { number("number") } else { us("number", 12) };
    let span = Span { from: f[0], to: f[1] };
    if kind >= 2 {
        let mark = any_mark(); o.push_str(if kind == 2 { "{\"stepType\":\"addMark\",\"mark\":" } else { "{\"stepType\":\"removeMark\",\"mark\":" }); jmark(&mark, st, &mut o); num("from", span.from, &mut o); num("to", span.to, &mut o); o.push('}');
        return (if kind == 2 { Step::AddMark(AddMarkStep { span, mark }) } else { Step::RemoveMark(RemoveMarkStep { span, mark }) }, o);
    }
    let c = ["", "'x'", "p{*'x'}p{}", "u{l{p{'x'}}}"]; let k = if big { 1 } else { pick("slice", c.len()) }; let slice = Slice::<MD>::new(Fragment::from(build(c[k])), if k != 1 { us("os", 2) } else { 0 }, if k != 1 { us("oe", 2) } else { 0 });
    let structure = pick("structure", 2) == 1;
    o.push_str(if kind == 0 { "{\"stepType\":\"replace\"" } else { "{\"stepType\":\"replaceAround\"" }); num("from", span.from, &mut o); num("to", span.to, &mut o);
    if kind == 1 { num("gapFrom", f[2], &mut o); num("gapTo", f[3], &mut o); num("insert", f[4], &mut o); }
    if k > 0 || st.empty || slice.open_start + slice.open_end > 0 { o.push_str(",\"slice\":"); jslice(&slice, st, &mut o); }
    if structure || st.empty { o.push_str(if structure { ",\"structure\":true" } else { ",\"structure\":false" }); }
    o.push('}');
    (if kind == 0 { Step::Replace(ReplaceStep { span, slice, structure }) } else { Step::ReplaceAround(ReplaceAroundStep { span, gap_from: f[2], gap_to: f[3], slice, insert: f[4], structure }) }, o)
}
fn check_step(s: Step<MD>, w: &str) {
    note!("step {:?} json {}", s, w);
    match serde_json::from_str::<Step<MD>>(w) { Ok(r) => { cover("read"); observe(1); if r != s { fail("a step was not read as its JSON says") } } Err(e) => { note!("error {}", e); fail("the JSON of a step could not be read") } }
    let t = match serde_json::to_string(&s) { Ok(t) => t, Err(_) => fail("a step could not be written as JSON") };
    match serde_json::from_str::<Step<MD>>(&t) { Ok(r) => { observe(t.len() as u64); if r != s { fail("a step written as JSON is read back differently") } } Err(_) => fail("a step written as JSON could not be read back") }
    if let (Ok(mut a), Ok(mut b)) = (serde_json::from_str::<serde_json::Value>(&t), serde_json::from_str::<serde_json::Value>(w)) { norm(&mut a); norm(&mut b); empty_slice(&mut a); empty_slice(&mut b); cover("written"); note!("written {}", t); if a != b { fail("the JSON written does not say what ProseMirror's does") } } else { fail("what is written is not JSON") }
}
fn empty_slice(v: &mut serde_json::Value) { if let serde_json::Value::Object(m) = v { let e = match m.get("slice") { Some(serde_json::Value::Object(s)) => s.is_empty(), _ => false }; if e { m.remove("slice"); } } }
pub fn h_json_step() { let st = any_style(); let (s, w) = step(st, false); check_step(s, &w) }
pub fn h_json_step_big() { let (s, w) = step(PLAIN, true); check_step(s, &w) }
pub fn h_json_step_how() {
    let (s, w) = step(PLAIN, false); note!("step {:?} json {}", s, w);
    let r: Step<MD> = match match pick("how", 7) { 0 => serde_json::from_slice(w.as_bytes()), 1 => serde_json::from_reader(std::io::Cursor::new(w.as_bytes())), 2 => serde_json::from_value(val_of(&w)), 3 => serde_json::from_str(&spaced(&w)), 4 => serde_json::from_str(&escaped(&w)), 5 => serde_json::from_value(serde_json::to_value(&s).unwrap_or_default()), _ => serde_json::from_str(&serde_json::to_string_pretty(&s).unwrap_or_default()) } { Ok(r) => r, Err(e) => { note!("error {}", e); fail("the JSON of a step could not be read") } };
    cover("read"); observe(1); if r != s { fail("a step was not read as its JSON says") }
    // the kinds of steps on their own
    let same = match &s { Step::Replace(x) => serde_json::from_str::<ReplaceStep<MD>>(&w).map(|y| y == *x), Step::ReplaceAround(x) => serde_json::from_str::<ReplaceAroundStep<MD>>(&w).map(|y| y == *x), Step::AddMark(x) => serde_json::from_str::<AddMarkStep<MD>>(&w).map(|y| y == *x), Step::RemoveMark(x) => serde_json::from_str::<RemoveMarkStep<MD>>(&w).map(|y| y == *x) };
    if !matches!(same, Ok(true)) { fail("a step was not read as its JSON says") }
}

// ---- arbitrary input
const BASE: &[&str] = &[r#"{"type":"doc","content":[{"type":"paragraph","content":[{"type":"text","marks":[{"type":"em"},{"type":"link","attrs":{"href":"x","title":null}}],"text":"ab"}]}]}"#,
    r#"{"type":"ordered_list","attrs":{"order":1,"tight":false},"content":[]}"#, r#"{"type":"image","attrs":{"src":"a","alt":null,"title":"b"}}"#, r#"{"type":"heading","attrs":{"level":2},"content":[{"type":"text","text":"\u00e9\n"}]}"#, r#"{"type":"code_block","attrs":{"params":""}}"#, r#"{"type":"text","text":"a","marks":[{"type":"strong"},{"type":"em"},{"type":"code"}]}"#];
fn check_any(s: &str) { note!("json {}", s); match serde_json::from_str::<MarkdownNode>(s) { Ok(n) => { cover("read"); observe(digest(&flat(&n))); if !sizes_ok(&n) { fail("a cached size in a document read from JSON is wrong") } if !marks_sorted(&n) { fail("marks read from JSON are not a set in order") } if !same(&read(&match serde_json::to_string(&n) { Ok(s) => s, Err(_) => fail("a document could not be written as JSON") }), &n) { fail("a document written as JSON is read back differently") } } Err(_) => { cover("refused"); observe(0) } } }
fn marks_sorted(n: &MarkdownNode) -> bool { if let MarkdownNode::Text(t) = n { return ordered(&t.marks); } kids(n).iter().all(marks_sorted) }
pub fn h_json_hole() { let t = BASE[pick("base", BASE.len())]; let at = pick("at", 160); let cut = pick("cut", 2); assume(at + cut <= t.len()); let mut s = String::from(&t[..at]); s.push(val("c0", 0x7f) as u8 as char); s.push_str(&t[at + cut..]); check_any(&s) }
pub fn h_json_hole_step() { const T: &[&str] = &[r#"{"stepType":"replace","from":1,"to":2,"slice":{"content":[{"type":"text","text":"a"}],"openStart":1},"structure":true}"#, r#"{"stepType":"addMark","mark":{"type":"em"},"from":1,"to":2}"#, r#"{"stepType":"replaceAround","from":1,"to":9,"gapFrom":2,"gapTo":8,"insert":0}"#];
    let t = T[pick("base", T.len())]; let at = pick("at", 120); let cut = pick("cut", 2); assume(at + cut <= t.len()); let mut s = String::from(&t[..at]); s.push(val("c0", 0x7f) as u8 as char); s.push_str(&t[at + cut..]); note!("json {}", s);
    match serde_json::from_str::<Step<MD>>(&s) { Ok(r) => { cover("read"); let w = match serde_json::to_string(&r) { Ok(w) => w, Err(_) => fail("a step could not be written as JSON") }; observe(w.len() as u64); match serde_json::from_str::<Step<MD>>(&w) { Ok(q) => if q != r { fail("a step written as JSON is read back differently") }, Err(_) => fail("a step written as JSON could not be read back") } } Err(_) => { cover("refused"); observe(0) } } }
/// a list of marks in any order, repeated types refused
pub fn h_json_marks() {
    const M: [&str; 5] = [r#"{"type":"strong"}"#, r#"{"type":"em"}"#, r#"{"type":"code"}"#, r#"{"type":"link","attrs":{"href":"x"}}"#, r#"{"attrs":{"title":"t","href":"y"},"type":"link"}"#]; const BITS: [u64; 3] = [1, 2, 4];
    let n = pick("n", 4); let mut s = String::from(r#"{"type":"text","marks":["#); let mut want = 0u64; let mut dup = false;
    for i in 0..n { let k = pick(["m0", "m1", "m2"][i], 5); if i > 0 { s.push(','); } s.push_str(M[k]); let b = if k < 3 { BITS[k] } else if k == 3 { link_bits("x", "") } else { link_bits("y", "t") }; if want & mark_type(b) != 0 { dup = true; } want |= b; }
    s.push_str(r#"],"text":"a"}"#); note!("json {}", s);
    match serde_json::from_str::<MarkdownNode>(&s) { Ok(r) => { cover("set"); if dup { fail("marks with a repeated type were read") } if let MarkdownNode::Text(t) = &r { observe(marks_key(&t.marks)); if marks_key(&t.marks) != want || !ordered(&t.marks) { fail("marks were not read as the set they are") } } else { fail("text was not read as text") } } Err(_) => { cover("duplicates"); observe(0); if !dup { fail("a set of marks was refused") } } }
}
