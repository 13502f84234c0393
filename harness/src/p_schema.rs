//! C08 mark sets, C12 text in UTF-16, C13 content expressions, C14 what can be joined
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::p_frag::any_char;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use std::borrow::Cow;

// ---- C08
fn mark_no(k: usize) -> MarkdownMark { match k { 0 => MarkdownMark::Strong, 1 => MarkdownMark::Em, 2 => MarkdownMark::Code, 3 => link("x", ""), 4 => link("y", "t"), _ => link("x", "t") } }
fn set_is(s: &MarkSet<MD>, bits: u64, m: &str) { if marks_key(s) != bits || !ordered(s) { fail(m) } for k in 0..6 { let x = mark_no(k); let b = mark_bits(&x); if s.contains(&x) != (bits & mark_type(b) == b) { fail("membership in a mark set is wrong") } } observe(bits); }
/// a set built by additions in any order
fn any_set(n: usize) -> (MarkSet<MD>, u64) { let mut s = MarkSet::<MD>::default(); let mut b = 0; for t in ["m0", "m1", "m2"].iter().take(n) { let k = pick(t, 7); if k == 6 { continue; } let m = mark_no(k); s.add(&m); b = add_mark(b, mark_bits(&m)); } (s, b) }
pub fn h_marks() {
    let (mut s, mut b) = any_set(3); set_is(&s, b, "adding marks one after the other gives another set");
    let m = mark_no(pick("m", 6)); let mb = mark_bits(&m); note!("set {:?} mark {:?}", s, m);
    match pick("op", 5) {
        0 => { s.add(&m); b = add_mark(b, mb); set_is(&s, b, "adding a mark gives another set"); s.add(&m); set_is(&s, b, "adding a mark twice differs from adding it once"); }
        1 => { s.remove(&m); b = remove_mark(b, mb); set_is(&s, b, "removing a mark gives another set"); }
        2 => { let r = m.add_to_set(Cow::Borrowed(&s)).into_owned(); set_is(&r, add_mark(b, mb), "adding a mark to a set gives another set"); set_is(&s, b, "adding a mark to a set changed the set it was added to"); let mut t = s.clone(); t.add(&m); if t != r { fail("the two ways to add a mark differ") } let o = m.add_to_set(Cow::Owned(s)).into_owned(); if o != r { fail("adding to an owned set differs") } }
        3 => { let r = m.remove_from_set(Cow::Borrowed(&s)).into_owned(); set_is(&r, remove_mark(b, mb), "removing a mark from a set gives another set"); let mut t = s.clone(); t.remove(&m); if t != r { fail("the two ways to remove a mark differ") } let o = m.remove_from_set(Cow::Owned(s)).into_owned(); if o != r { fail("removing from an owned set differs") } }
        _ => { set_is(&m.clone().into_set(), mb, "the set of a single mark is another set"); let mut t = s.clone(); t.add(&m); t.remove(&m); set_is(&t, b & !mark_type(mb), "adding and removing a mark leaves it, or loses another") }
    }
    cover("done");
}
/// longer histories of additions and removals
pub fn h_marks4() { let mut s = MarkSet::<MD>::default(); let mut b = 0; for t in ["o0", "o1", "o2", "o3"] { let k = pick(t, 12); let m = mark_no(k % 6); if k < 6 { s.add(&m); b = add_mark(b, mark_bits(&m)) } else { s.remove(&m); b = remove_mark(b, mark_bits(&m)) } } note!("{:?}", s); cover("done"); set_is(&s, b, "a history of additions and removals gives another set") }
/// sets with the same marks are equal, however they came about
pub fn h_marks_eq() { let (a, x) = any_set(3); let mut c = MarkSet::<MD>::default(); let mut y = 0; for t in ["n0", "n1"] { let k = pick(t, 7); if k == 6 { continue; } let m = mark_no(k); c.add(&m); y = add_mark(y, mark_bits(&m)); } if flag("rev") { c.remove(&MarkdownMark::Em); y = remove_mark(y, 2) } note!("{:?} {:?}", a, c); cover("compared"); observe((a == c) as u64); if (a == c) != (x == y) { fail("mark sets compare wrong") } }
/// a list of marks as it comes in: duplicate types are refused, the order does not matter
pub fn h_marks_list() {
    let n = pick("n", 4); let mut v = Vec::new(); let mut b = 0u64; let mut dup = false; for t in ["m0", "m1", "m2"].iter().take(n) { let m = mark_no(pick(t, 6)); let x = mark_bits(&m); if b & mark_type(x) != 0 { dup = true; } b = add_mark(b, x); v.push(m); }
    note!("list {:?}", v); let r: Result<MarkSet<MD>, _> = std::convert::TryFrom::try_from(v); observe(r.is_ok() as u64);
    match r { Ok(s) => { cover("set"); if dup { fail("a list with two marks of one type was accepted") } set_is(&s, b, "a list of marks gives another set") } Err(_) => { cover("duplicates"); if !dup { fail("a list of different marks was refused") } } }
}

// ---- C12
fn units(s: &str) -> usize { let mut n = 0; for c in s.chars() { n += if (c as u32) < 0x10000 { 1 } else { 2 }; } n }
fn any_text(tags: &[&str]) -> String { let mut s = String::new(); for t in tags { s.push(any_char(t)); } s }
pub fn h_text_len() { let s = any_text(&["c0", "c1", "c2"]); let t = Text::from(s.clone()); cover("len"); observe(t.len_utf16() as u64); if t.len_utf16() != units(&s) { fail("the length of a text is not its length in UTF-16") } if t.as_str().as_bytes() != s.as_bytes() { fail("a text is not the string it was made from") } if MarkdownNode::text(s.clone()).node_size() != units(&s) { fail("the size of a text node is not its length in UTF-16") } }
pub fn h_text_join() { let (a, b) = (any_text(&["a0", "a1"]), any_text(&["b0"])); let t = Text::from(a.clone()).join(&Text::from(b.clone())); cover("join"); observe(t.len_utf16() as u64); if t.as_str().as_bytes() != [a.as_bytes(), b.as_bytes()].concat() { fail("joined text is not the two texts") } if t.len_utf16() != units(&a) + units(&b) { fail("the length of joined text is wrong") }
    let n = flag("empty"); if n { let e = Text::from(a.clone()).join(&Text::default()); if e.as_str().as_bytes() != a.as_bytes() || e.len_utf16() != units(&a) { fail("joining nothing changes a text") } } }
/// cutting a text at any character boundary, in UTF-16 positions
pub fn h_text_split() { split(&[any_char("c0"), any_char("c1"), any_char("c2")]) }
pub fn h_text_split4() { split(&[any_char("c0"), any_char("c1"), any_char("c2"), any_char("c3")]) }
fn split(cs: &[char]) {
    let mut s = String::new(); for c in cs { s.push(*c); } let n = MarkdownNode::text(s.clone()); let k = pick("k", cs.len() + 1); let j = pick("j", cs.len() + 1); assume(k <= j);
    let off = |k: usize| -> (usize, usize) { let (mut u, mut b) = (0, 0); for c in &cs[..k] { u += c.len_utf16(); b += c.len_utf8(); } (u, b) }; let ((u0, b0), (u1, b1)) = (off(k), off(j));
    let c = n.cut(u0..u1).into_owned(); cover("split"); observe((u0 * 8 + u1) as u64); let t = c.text_node().unwrap_or_else(|| fail("cutting text gives something else"));
    if t.text.as_str().as_bytes() != &s.as_bytes()[b0..b1] || t.text.len_utf16() != u1 - u0 { fail("a part of a text is not the characters between the positions") }
}
/// long texts with one arbitrary character at an arbitrary place
pub fn h_text_long() {
    let at = pick("at", 4) * 13; let mut cs: Vec<char> = Vec::new(); for i in 0..40u32 { if i as usize == at { cs.push(any_char("c")); } cs.push(match i % 7 { 3 => '\u{1F60A}', 5 => '\u{e9}', 6 => '\u{20ac}', _ => (b'a' + (i % 26) as u8) as char }); }
    let mut s = String::new(); for c in &cs { s.push(*c); } let (mut u, mut b) = (vec![0usize], vec![0usize]); for c in &cs { u.push(u[u.len() - 1] + 1 + (*c as u32 > 0xffff) as usize); b.push(b[b.len() - 1] + c.len_utf8()); }
    let n = MarkdownNode::text(s.clone()); let l = u[cs.len()]; cover("long"); observe(l as u64); if n.node_size() != l { fail("the size of a text node is not its length in UTF-16") }
    let k = pick("k", cs.len() + 1); let j = pick("j", 5) * 9; assume(j <= cs.len()); let (k, j) = if k <= j { (k, j) } else { (j, k) };
    let c = n.cut(u[k]..u[j]).into_owned(); let t = c.text_node().unwrap_or_else(|| fail("cutting text gives something else")); if t.text.as_str().as_bytes() != &s.as_bytes()[b[k]..b[j]] || t.text.len_utf16() != u[j] - u[k] { fail("a part of a text is not the characters between the positions") }
}
/// positions inside a document with arbitrary characters: exactly those between characters are accepted, and replacing there splices them
pub fn h_text_pos() {
    let cs = [any_char("c0"), any_char("c1")]; let mut s = String::new(); for c in cs { s.push(c); } let w = [cs[0].len_utf16(), cs[1].len_utf16()]; let d = elem(b'd', Fragment::from(vec![elem(b'p', Fragment::from(vec![text(s.clone(), MarkSet::default())]))]));
    let p = us("pos", 7); let q = us("to", 7); assume(p <= q); let n = w[0] + w[1]; let bound = |p: usize| p == 0 || p == 1 || p == 1 + w[0] || p == 1 + n || p == 2 + n;
    let r = d.resolve(p); observe(r.is_ok() as u64); if r.is_ok() != bound(p) { fail("exactly the positions between characters should be accepted") }
    if p >= 1 && q <= 1 + n { let r = d.replace(p..q, &Slice::new(Fragment::from(vec![MarkdownNode::text("-")]), 0, 0)); if r.is_ok() != (bound(p) && bound(q)) { fail("exactly the ranges between characters can be replaced") } if let Ok(x) = r { cover("replaced"); let f = |p: usize| if p == 1 { 0 } else if p == 1 + n { s.len() } else { cs[0].len_utf8() }; let e = [&s.as_bytes()[..f(p)], b"-", &s.as_bytes()[f(q)..]].concat(); if x.text_content().as_bytes() != &e[..] || !sizes_ok(&x) { fail("replacing text gives other text") } } }
}

// ---- C13
fn node_of(t: u8) -> MarkdownNode { match t { DOC => doc(""), P => elem(b'p', Fragment::new()), H => elem(b'h', Fragment::new()), CODE => elem(b'c', Fragment::new()), BQ => elem(b'q', Fragment::new()), UL => elem(b'u', Fragment::new()), OL => elem(b'o', Fragment::new()), LI => elem(b'l', Fragment::new()), HR => MarkdownNode::HorizontalRule, BR => MarkdownNode::HardBreak, IMG => image("s", "", ""), _ => MarkdownNode::text("x") } }
fn any_kids(n: usize) -> Vec<MarkdownNode> { let mut v = Vec::new(); for t in ["k0", "k1", "k2"].iter().take(n) { let k = pick(t, NTYPES as usize + 1) as u8; v.push(if k == NTYPES { text("m".into(), MarkdownMark::Em.into_set()) } else { node_of(k) }); } v }
/// state of the model after children `ks` in a node of type t, if they are allowed
fn run(t: u8, st: u8, ks: &[MarkdownNode]) -> Option<u8> { let mut st = st; for k in ks { if !accepts(t, st, ty(k)) { return None; } st = 1; } Some(st) }
/// any type, any children up to three: which sequences match, end and are valid
pub fn h_content() {
    let t = pick("type", NTYPES as usize) as u8; let ks = any_kids(pick("n", 4)); note!("type {:?} content {}", nt(t), show(&ks)); let f = Fragment::<MD>::from(ks.clone());
    let m = nt(t).content_match().match_fragment(&f); let e = run(t, 0, &ks); cover(if e.is_some() { "matches" } else { "does not match" });
    match (m, e) { (None, None) => {} (Some(m), Some(st)) => { if m.valid_end() != may_end(t, st) { fail("whether the content may end there is wrong") } let n = pick("next", NTYPES as usize) as u8; if m.match_type(nt(n)).is_some() != accepts(t, st, n) { fail("whether another node may follow is wrong") } } _ => fail("whether a sequence of children matches the content expression is wrong") }
    let v = valid_children(t, &ks); observe(v as u64); if nt(t).valid_content(&f) != v { fail("whether content is valid for a node type is wrong") }
}
/// longer sequences: a run of one type, a run of another, and one more child
pub fn h_content_long() {
    let t = pick("type", NTYPES as usize) as u8; let (a, b, c) = (pick("a", NTYPES as usize) as u8, pick("b", NTYPES as usize) as u8, pick("c", NTYPES as usize) as u8); let (x, y) = (us("x", 4), us("y", 4)); let mut ks = Vec::new(); for _ in 0..x { ks.push(node_of(a)); } for _ in 0..y { ks.push(node_of(b)); } ks.push(node_of(c)); note!("type {:?} content {}", nt(t), show(&ks)); let f = Fragment::<MD>::from(ks.clone());
    let e = run(t, 0, &ks); cover(if e.is_some() { "matches" } else { "does not match" }); if nt(t).content_match().match_fragment(&f).map(|m| m.valid_end()) != e.map(|s| may_end(t, s)) { fail("whether a sequence of children matches the content expression is wrong") } let v = valid_children(t, &ks); observe(v as u64); if nt(t).valid_content(&f) != v { fail("whether content is valid for a node type is wrong") }
}
/// parts of a fragment
pub fn h_content_range() {
    let t = pick("type", NTYPES as usize) as u8; let ks = any_kids(2); let f = Fragment::<MD>::from(ks.clone()); let (a, b) = (pick("a", 3), pick("b", 3)); assume(a <= b); note!("type {:?} part {}..{} of {}", nt(t), a, b, show(&ks));
    let m = nt(t).content_match().match_fragment_range(&f, a..b); let e = run(t, 0, &ks[a..b]); cover("range"); observe(m.is_some() as u64); if m.is_some() != e.is_some() || m.map_or(false, |m| m.valid_end()) != e.map_or(false, |s| may_end(t, s)) { fail("matching a part of a fragment is wrong") }
    if b == 2 { let m2 = nt(t).content_match().match_fragment_range(&f, a..); if m2.is_some() != e.is_some() { fail("matching a part of a fragment is wrong") } }
}
const HOLDERS: &[&str] = &["p{'ab'b'c'}", "h{'a'i}", "c{'a'}", "q{p{'a'}r}", "u{l{p{'a'}}l{p{}}}", "l{p{'a'}q{p{}}}", "l{p{}}", "o{l{p{}}}", "p{}", "r", "q{h{}p{}p{}}", "i", "d{p{'a'}}", "l{h{}p{}}", "p{'x'r'y'}"];
/// can_replace and content_match_at, over child indices
pub fn h_can_replace() {
    let n = build(HOLDERS[pick("holder", HOLDERS.len())]).pop().unwrap(); let ks = kids(&n).to_vec(); let (from, to) = (pick("from", ks.len() + 1), pick("to", ks.len() + 1)); assume(from <= to); let rep = any_kids(pick("n", 3)); let (a, b) = (pick("a", rep.len() + 1), pick("b", rep.len() + 1)); assume(a <= b);
    note!("node {} children {}..{} by {}..{} of {}", show(std::slice::from_ref(&n)), from, to, a, b, show(&rep)); let t = ty(&n); let f = Fragment::<MD>::from(rep.clone());
    let before = run(t, 0, &ks[..from]); let at = n.content_match_at(from); if at.is_ok() != before.is_some() { fail("the content match at an index is wrong") } if let (Ok(m), Some(s)) = (&at, before) { if m.valid_end() != may_end(t, s) { fail("the content match at an index is wrong") } }
    let r = if a == 0 && b == rep.len() && flag("whole") { if rep.is_empty() && flag("none") { n.can_replace(from, to, None, ..) } else { n.can_replace(from, to, Some(&f), ..) } } else { n.can_replace(from, to, Some(&f), a..b) };
    let types = before.and_then(|s| run(t, s, &rep[a..b])).and_then(|s| run(t, s, &ks[to..])).map_or(false, |s| may_end(t, s)); let marks = rep[a..b].iter().all(|k| if let MarkdownNode::Text(x) = k { marks_ok(t, marks_key(&x.marks)) } else { true });
    match r { Ok(x) => { cover(if x { "can" } else { "cannot" }); observe(x as u64); if before.is_none() || x != (types && marks) { fail("whether children can be replaced is wrong") } } Err(_) => { cover("invalid before"); observe(9); if before.is_some() { fail("valid content is reported as invalid") } } }
}
/// marks and kinds per type
pub fn h_type() {
    let t = pick("type", NTYPES as usize) as u8; let x = nt(t); let (s, b) = { let mut s = MarkSet::<MD>::default(); let k = pick("m", 7); if k < 6 { s.add(&mark_no(k)); } let b = marks_key(&s); (s, b) }; note!("type {:?} marks {:?}", x, s); cover("type");
    if t <= LI && x.allow_marks(&s) != marks_ok(t, b) { fail("whether marks are allowed in a node is wrong") }
    if t <= LI && x.allows_mark_type(MarkdownMark::Em.r#type()) != (t == P || t == H) { fail("whether a mark type is allowed in a node is wrong") }
    if x.is_inline() != (t >= BR) { fail("whether a type is inline is wrong") } let n = node_of(t); if n.r#type() != x { fail("the type of a node is wrong") } observe(x.is_inline() as u64);
}
// ---- C14
pub fn h_compatible() { let a = pick("a", NTYPES as usize) as u8; let b = pick("b", NTYPES as usize) as u8; note!("{:?} {:?}", nt(a), nt(b)); let r = nt(a).compatible_content(nt(b)); cover(if r { "compatible" } else { "not compatible" }); observe(r as u64); if r != compatible(a, b) { fail("whether two node types can be joined is wrong") } if r != nt(b).compatible_content(nt(a)) { fail("joining is not symmetric") } }
