//! Documents with more than 65 535 positions, more than 255 levels, or more than 255 children in a node
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;

pub const NHUGE: usize = 4;
fn word(n: usize) -> String { let mut s = String::with_capacity(n); for i in 0..n { s.push((b'a' + (i % 26) as u8) as char); } s }
fn plain(s: String) -> MarkdownNode { text(s, MarkSet::default()) }
fn one(b: u8, c: MarkdownNode) -> MarkdownNode { elem(b, Fragment::from(vec![c])) }
pub fn huge(k: usize) -> MarkdownNode {
    match k {
        0 => elem(b'd', Fragment::from(vec![one(b'p', plain(word(65_600))), one(b'q', one(b'p', plain("z\u{1F60A}y".into())))])),
        1 => { let mut n = one(b'p', plain("ab".into())); for _ in 0..270 { n = one(b'q', n); } elem(b'd', Fragment::from(vec![n, one(b'p', plain("c".into()))])) }
        2 => { let mut v = Vec::new(); for i in 0..300u32 { v.push(one(b'p', plain(((b'a' + (i % 26) as u8) as char).to_string()))); } elem(b'd', Fragment::from(v)) }
        _ => { let mut v = Vec::new(); for i in 0..300u32 { if i % 2 == 1 { v.push(MarkdownNode::HardBreak) } else { let mut m = MarkSet::default(); if i % 4 == 2 { m.add(&MarkdownMark::Strong); } v.push(text(((b'a' + (i % 26) as u8) as char).to_string(), m)) } } v.push(plain("z".into())); elem(b'd', Fragment::from(vec![one(b'q', elem(b'p', Fragment::from(v)))])) }
    }
}
/// a position near the start, the end, or a power of two
fn spot(t: &str, n: usize) -> usize { let b: Vec<usize> = [0, 255, 768, 65_535, n - 1].iter().copied().filter(|b| *b < n).collect(); let k = pick(t, 2 * b.len()); b[k / 2] + k % 2 }
fn pair(n: usize) -> (usize, usize) { let a = spot("from", n); let b = spot("to", n); assume(a <= b); (a, b) }
macro_rules! huges { ($($n:ident($d:ident, $s:ident, $e:ident) $b:expr;)*) => { $(pub fn $n() { let $d = huge(pick("huge", NHUGE)); let $s = size_of(&$d) - 2; let $e = (); $b })* } }
huges! {
    h_huge_resolve(d, n, _e) { let p = spot("pos", n); let q = spot("other", n); crate::p_pos::check_resolve(&d, p, q) };
    h_huge_sizes(d, n, _e) { let t = flat(&d); cover("huge"); observe(n as u64); if t.len() != n || d.content_size() != n || !sizes_ok(&d) { fail("a cached size is wrong") } };
    h_huge_cut(d, n, _e) { let (a, b) = pair(n); crate::p_frag::check_cut(&d, a, b, 0) };
    h_huge_slice(d, n, _e) { let (a, b) = pair(n); crate::p_frag::check_slice(&d, a, b, pick("parents", 2) == 1, 0) };
    h_huge_replace(d, n, _e) { let (a, b) = pair(n); let o = pick("open", 2); let c = match pick("slice", 3) { 0 => vec![], 1 => build("p{'x'}p{'y'}"), _ => vec![plain(word(300))] }; crate::p_replace::check_replace(&d, a, b, c, o, o) };
    h_huge_insert(d, n, _e) { let s = doc("p{'ab'}q{p{'c'}}"); let a = pick("at", 9); let _ = n; crate::p_replace::check_replace(&s, a, a, kids(&d).to_vec(), 0, 0) };
    h_huge_inverse(d, n, _e) { let (a, b) = pair(n); let o = pick("open", 2); crate::p_replace::check_inverse(&d, a, b, if pick("slice", 2) == 0 { vec![] } else { build("p{'x'}p{'y'}") }, o, o) };
    h_huge_mark(d, n, _e) { let (a, b) = pair(n); crate::p_step::check_mark(&d, a, b, MarkdownMark::Em, true) };
    h_huge_unmark(d, n, _e) { let (a, b) = pair(n); crate::p_step::check_mark(&d, a, b, MarkdownMark::Strong, false) };
    h_huge_structure(d, n, _e) { let (a, b) = pair(n); crate::p_step::check_structure(&d, a, b, vec![], 0, 0) };
    h_huge_around(d, n, _e) { let (a, b) = pair(n); let s = pick("side", 2); assume(a + 2 * s <= b); let k = pick("around", 2); crate::p_step::check_around(&d, a, a + s, b - s, b, build(["", "q{}"][k]), 0, 0, k, pick("structure", 2) == 1) };
    h_huge_normal(d, n, _e) { let (a, b) = pair(n); let c = build(["", "'x'"][pick("slice", 2)]); crate::p_replace::step_normal(&d, &Step::Replace(ReplaceStep { span: Span { from: a, to: b }, slice: Slice::new(Fragment::from(c), 0, 0), structure: false })) };
    h_huge_valid(d, n, _e) { let (a, b) = pair(n); let o = pick("open", 2); let c = build(["", "'x'", "p{'x'}p{}"][pick("slice", 3)]); crate::p_replace::step_valid(&d, &Step::Replace(ReplaceStep { span: Span { from: a, to: b }, slice: Slice::new(Fragment::from(c), o, o), structure: false })) };
    h_huge_text(d, n, _e) { let (a, b) = pair(n); crate::p_frag::check_text_with(&d, a, b, Some("-"), Some("?"), pick("separated", 2) == 1) };
    h_huge_walk(d, n, _e) { let (a, b) = pair(n); crate::p_frag::check_walk(&d, a, b, 0, 1000) };
    h_huge_eq(d, n, _e) { let _ = n; let e = huge(pick("other", NHUGE)); crate::p_more::check_eq(&d, &e); let mut v = kids(&d).to_vec(); v.pop(); crate::p_more::check_eq(&d, &elem(b'd', Fragment::from(v))) };
    h_huge_md(d, n, _e) { let _ = n; crate::p_md::check_round(&d) };
    h_huge_notation(d, n, _e) { let _ = n; crate::p_md::check_read(&d) };
}
/// serde_json itself refuses to read JSON nested deeper than 128 levels
pub fn h_huge_json() { let k = pick("huge", NHUGE - 1); crate::p_json::check_round(&huge(if k == 0 { 0 } else { k + 1 })) }
/// one text of more than 65 535 units, in each kind of character
pub fn h_huge_units() {
    let k = pick("char", 4); let c = ['a', '\u{e9}', '\u{20ac}', '\u{1F60A}'][k]; let n = [65_600, 33_000, 22_000, 33_000][k]; let s: String = { let mut s = String::new(); for _ in 0..n { s.push(c); } s }; let u = n * c.len_utf16();
    let b = s.len(); let d = elem(b'd', Fragment::from(vec![one(b'p', plain(s))])); cover("long"); observe(u as u64);
    if d.content_size() != u + 2 { fail("the length of a text is not its number of UTF-16 units") }
    let i = pick("at", 5); let at = [c.len_utf16(), 256, 65_536.min(u - 2), (u / 4) * 2, u - c.len_utf16()][i];
    let (x, y) = (d.cut(..1 + at).text_content(), d.cut(1 + at..).text_content()); if x.len() * c.len_utf16() != at * c.len_utf8() || x.len() + y.len() != b { fail("a cut at a UTF-16 position cuts elsewhere") }
}
pub fn h_huge_content() {
    let k = pick("kind", 4); let n = [255, 256, 257, 300][pick("n", 4)]; let bad = pick("bad", 2) == 1;
    let (p, c): (u8, fn() -> MarkdownNode) = match k { 0 => (b'd', || elem(b'p', Fragment::new())), 1 => (b'p', || MarkdownNode::HardBreak), 2 => (b'u', || one(b'l', elem(b'p', Fragment::new()))), _ => (b'l', || elem(b'p', Fragment::new())) };
    let mut v = Vec::new(); for _ in 0..n { v.push(c()) } if bad { v.push(if k == 1 { elem(b'p', Fragment::new()) } else { MarkdownNode::HardBreak }) }
    let f = Fragment::from(v); let m = elem(p, Fragment::new()); cover("matched"); observe(n as u64); if m.r#type().valid_content(&f) == bad { fail("a sequence of children is accepted although the schema forbids it, or the other way round") }
}
