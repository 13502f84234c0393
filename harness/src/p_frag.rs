//! C02 sizes, C03 cut and slice, C18 text, C19 traversal
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;

fn frag_ok(f: &Fragment<MD>, e: &[Tok], m: &str) {
    if f.size() != e.len() || f.children().iter().map(size_of).sum::<usize>() != e.len() || !f.children().iter().all(sizes_ok) { fail("a fragment's size is not the sum of the sizes of its nodes") }
    if !eq_toks(&flat_all(f.children()), e) { fail(m) }
    observe(digest(e));
}
// ---- C02
/// every node of the document: the sizes it reports and how it gives access to its children
fn walk_sizes(n: &MarkdownNode) {
    let s = size_of(n); let ks = kids(n); observe(s as u64);
    if n.node_size() != s { fail("the size of a node is wrong") }
    if n.content_size() != (if is_leaf(n) { 0 } else { s - 2 }) { fail("the content size of a node is wrong") }
    if n.is_leaf() != is_leaf(n) || n.is_text() != (ty(n) == TEXT) || n.content().is_some() == is_leaf(n) { fail("leaf or text is misreported") }
    if n.is_block() != (ty(n) < BR) || n.is_inline() != (ty(n) >= BR) || n.r#type() != nt(ty(n)) { fail("the kind of a node is misreported") }
    if n.child_count() != ks.len() { fail("child count is wrong") }
    for (i, c) in ks.iter().enumerate() { if !n.child(i).map_or(false, |x| std::ptr::eq(x, c)) || !n.maybe_child(i).map_or(false, |x| std::ptr::eq(x, c)) { fail("a child is not the child at that index") } walk_sizes(c); }
    if n.maybe_child(ks.len()).is_some() { fail("a child past the end exists") }
    if n.first_child().map(|x| x as *const _) != ks.first().map(|x| x as *const _) { fail("first child is wrong") }
    if let Some(f) = n.content() { if f.child_count() != ks.len() || f.last_child().map(|x| x as *const _) != ks.last().map(|x| x as *const _) || f.maybe_child(ks.len()).is_some() { fail("a fragment misreports its children") } let e = flat_all(ks); if f.size() != e.len() { fail("a fragment's size is not the sum of the sizes of its nodes") } }
}
pub fn h_sizes() { let d = match pick("g", 3) { 0 => any_doc(), 1 => gen_doc(3), _ => big(pick("big", NBIG)) }; note!("doc {}", show(kids(&d))); cover("walked"); walk_sizes(&d); }
pub const FRAGS: &[&str] = &["", "'a'", "*'b'", "'a'*'b'", "'\u{1F60A}'", "p{'a'}", "b'x'", "p{'a'}q{p{*'b'}}", "'z'b", "ri", "u{l{p{}}l{p{'q'}}}", "*'\u{e9}''c'", "@'d'", "%'e'", "@'f'*@'g'", "*%'h'@'i'"];
/// appending, replacing a child and copying keep the sizes
pub fn h_append() {
    let (a, b) = (build(FRAGS[pick("a", FRAGS.len())]), build(FRAGS[pick("b", FRAGS.len())])); let mut e = flat_all(&a); e.extend(flat_all(&b)); let join = match (a.last(), b.first()) { (Some(MarkdownNode::Text(x)), Some(MarkdownNode::Text(y))) => marks_key(&x.marks) == marks_key(&y.marks), _ => false };
    note!("append {} and {}", show(&a), show(&b)); let n = a.len() + b.len() - join as usize;
    let f = Fragment::<MD>::from(a).append(Fragment::from(b)); cover(if join { "joined" } else { "appended" });
    frag_ok(&f, &e, "appending two fragments lost or changed content"); if f.child_count() != n { fail("appending did not join exactly the adjacent text with equal marks") }
}
pub fn h_replace_child() {
    let a = build(FRAGS[pick("a", FRAGS.len())]); assume(!a.is_empty()); let b = build(FRAGS[1 + pick("b", FRAGS.len() - 1)]); let i = us("i", a.len() - 1); let i = pin(i);
    note!("{} with child {} replaced by {}", show(&a), i, show(&b[..1])); cover("replaced");
    let mut v = a.clone(); v[i] = b[0].clone(); let f = Fragment::<MD>::from(a.clone()); let g = f.replace_child(i, b[0].clone());
    frag_ok(&g, &flat_all(&v), "replacing a child changed something else"); if g.child_count() != a.len() { fail("replacing a child changed the number of children") } frag_ok(&f, &flat_all(&a), "replacing a child changed the original");
    let w = elem(b'q', f.clone()).copy(|_| Fragment::from(v.clone())); if ty(&w) != BQ || !eq_toks(&flat(&w), &flat_all(&v)) || w.node_size() != flat_all(&v).len() + 2 { fail("copying a node with other content gives another node") }
}
/// any three characters: sizes follow the UTF-16 length
pub fn h_size_chars() {
    let mut s = String::new(); let mut n = 0; for t in ["c0", "c1", "c2"] { let c = any_char(t); n += 1 + (c as u32 > 0xffff) as usize; s.push(c); }
    let d = elem(b'd', Fragment::from(vec![elem(b'p', Fragment::from(vec![text(s, MarkSet::default())]))])); cover("sized"); observe(n as u64);
    if d.node_size() != n + 4 || d.content_size() != n + 2 { fail("the size of a document with arbitrary characters is wrong") }
    let e = us("end", 8); if d.resolve(e).is_ok() && e > n + 2 { fail("a position after the end was accepted") }
}
pub fn any_char(t: &str) -> char { let c = val(t, 0x10FFFF) as u32; assume(c < 0xD800 || c > 0xDFFF); match char::from_u32(c) { Some(c) => c, None => fail("not a scalar value") } }

// ---- C03
/// what cutting from..to out of the tokens leaves: the nodes open at `from`, the tokens, and the ends of the nodes open at `to`, below the first `skip` levels
fn cut_toks(t: &[Tok], from: usize, to: usize, skip: usize) -> Vec<Tok> {
    let mut v = Vec::new(); if from >= to { return v; }
    for i in &open_path(t, from)[skip..] { v.push(t[*i]); } v.extend_from_slice(&t[from..to]); for _ in skip..open_path(t, to).len() { v.push(Tok { kind: CLOSE, ty: 0, a: 0, m: 0 }); } v
}
/// one of the ways to write the range
pub fn ranged<T>(k: usize, from: usize, to: usize, n: usize, f: impl Fn((std::ops::Bound<usize>, std::ops::Bound<usize>)) -> T) -> T {
    use std::ops::Bound::*;
    match k { 0 => f((Included(from), Excluded(to))), 1 => { assume(to == n); f((Included(from), Unbounded)) } 2 => { assume(from == 0); f((Unbounded, Excluded(to))) } 3 => { assume(to > 0); f((Included(from), Included(to - 1))) } _ => { assume(from > 0); f((Excluded(from - 1), Excluded(to))) } }
}
pub fn check_cut(d: &MarkdownNode, from: usize, to: usize, how: usize) {
    let t = flat(d); assume(from <= to && to <= t.len()); assume(!splits_pair(&t, from) && !splits_pair(&t, to));
    note!("doc {} cut {}..{} written {}", show(kids(d)), from, to, how);
    let e = if from == 0 && to == t.len() { t.clone() } else { cut_toks(&t, from, to, 0) };
    let f = ranged(how, from, to, t.len(), |r| frag(d).unwrap().cut(r)); cover("cut"); frag_ok(&f, &e, "cutting a fragment does not give exactly that part");
    let n = ranged(how, from, to, t.len(), |r| d.cut(r).into_owned()); if ty(&n) != ty(d) || attr_key(&n) != attr_key(d) || !sizes_ok(&n) || !eq_toks(&flat(&n), &e) { fail("cutting a node does not give that node with exactly that part") }
}
pub fn h_cut() { let d = any_doc(); let n = size_of(&d) - 2; check_cut(&d, us("from", n), us("to", n), 0) }
pub fn h_cut_gen() { let d = gen_doc(3); let n = size_of(&d) - 2; check_cut(&d, us("from", n), us("to", n), 0) }
pub fn h_cut_how() { let d = if pick("b", 2) == 0 { any_doc() } else { build(["h{'a\u{1F60A}'*'b'i}", "c{'ab'}", "U{l{p{'a'}}l{p{}}}", "O{l{p{'a'}r}}"][pick("e", 4)]).pop().unwrap() }; let n = size_of(&d) - 2; check_cut(&d, us("from", n), us("to", n), pick("how", 5)) }
/// text nodes and leaves as the node that is cut
pub fn h_cut_text() {
    let k = pick("k", 4); if k == 3 { let l = build("rbI"); for n in &l { if *n.cut(0..0) != *n || *n.cut(..) != *n { fail("cutting a leaf changed it") } } cover("leaf"); return; }
    let s = ["abc", "\u{1F60A}x\u{1F60A}", "\u{e9}\u{20ac}z"][k]; let n = s.encode_utf16().count(); let mut m = MarkSet::default(); m.add(&MarkdownMark::Em); let t = text(s.to_string(), m); let ts = flat_all(std::slice::from_ref(&t));
    let (from, to) = (us("from", n), us("to", n)); assume(from <= to && !splits_pair(&ts, from) && !splits_pair(&ts, to)); note!("text {} cut {}..{}", s, from, to);
    let c = ranged(pick("how", 5), from, to, n, |r| t.cut(r).into_owned()); cover("text"); observe(from as u64 * 16 + to as u64);
    if !sizes_ok(&c) || !eq_toks(&flat_all(std::slice::from_ref(&c)), &ts[from..to]) { fail("cutting a text node does not give exactly that part") }
}
pub fn check_slice(d: &MarkdownNode, from: usize, to: usize, parents: bool, how: usize) {
    let t = flat(d); assume(from <= to && to <= t.len()); assume(!splits_pair(&t, from) && !splits_pair(&t, to));
    note!("doc {} slice {}..{} parents {} written {}", show(kids(d)), from, to, parents, how);
    let (a, b) = (open_path(&t, from), open_path(&t, to)); let mut sh = 0; while sh < a.len() && sh < b.len() && a[sh] == b[sh] { sh += 1; } if parents { sh = 0 }
    let s = match ranged(how, from, to, t.len(), |r| d.slice(r, parents)) { Ok(s) => s, Err(_) => fail("a range of the document cannot be sliced") };
    if from == to { cover("empty"); if s != Slice::default() { fail("an empty range gives a slice that is not empty") } return; }
    cover("sliced"); if s.open_start != a.len() - sh || s.open_end != b.len() - sh { fail("the open depths of a slice are wrong") }
    let e = if from == 0 && to == t.len() { t.clone() } else { cut_toks(&t, from, to, sh) }; frag_ok(&s.content, &e, "a slice does not hold exactly that part of the document");
}
pub fn h_slice() { let d = any_doc(); let n = size_of(&d) - 2; check_slice(&d, us("from", n), us("to", n), flag("parents"), 0) }
pub fn h_slice_gen() { let d = gen_doc(3); let n = size_of(&d) - 2; check_slice(&d, us("from", n), us("to", n), flag("parents"), 0) }
/// a range that ends before it starts is not one of the document
pub fn h_slice_reversed() { let d = if pick("g", 2) == 0 { any_doc() } else { gen_doc(2) }; let n = size_of(&d) - 2; let (from, to) = (us("from", n + 1), us("to", n + 1)); assume(from > to || to > n); let parents = flag("parents"); note!("doc {} slice {}..{} parents {}", show(kids(&d)), from, to, parents); cover(if from > to { "reversed" } else { "too long" }); if from == to { return; }
    match d.slice(from..to, parents) { Ok(_) => fail("a range that is not one of the document is sliced"), Err(_) => observe(1) } }
pub fn h_slice_how() { let d = any_doc(); let n = size_of(&d) - 2; check_slice(&d, us("from", n), us("to", n), false, pick("how", 5)) }
/// a slice of a node that is not the root of a document
pub fn h_slice_sub() { let d = build(["h{'a\u{1F60A}'*'b'i}", "q{p{'a'}p{'b'}}", "u{l{p{'a'}}l{p{}}}", "l{p{'a'}r}"][pick("e", 4)]).pop().unwrap(); let n = size_of(&d) - 2; check_slice(&d, us("from", n), us("to", n), flag("parents"), pick("how", 2)) }
pub fn h_cut_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let from = us("from", n.min(60)); let to = from + us("len", 30); check_cut(&d, from, to, 0) }

// ---- C18
fn utf16(t: &[Tok]) -> Vec<u16> { t.iter().filter(|k| k.kind == UNIT).map(|k| k.a as u16).collect() }
fn is_str(s: &str, u: &[u16]) -> bool { let mut i = 0; for x in s.encode_utf16() { if i >= u.len() || u[i] != x { return false; } i += 1; } i == u.len() }
fn is_block_ty(t: u8) -> bool { t <= HR }
/// the text between two positions, over tokens
fn text_model(t: &[Tok], from: usize, to: usize, sep: Option<&str>, leaf: Option<&str>, mut separated: bool) -> Vec<u16> {
    let mut out = Vec::new(); let mut ends = vec![0usize; t.len()]; let mut st = Vec::new(); for (i, k) in t.iter().enumerate() { if k.kind == OPEN { st.push(i) } else if k.kind == CLOSE { ends[st.pop().unwrap()] = i + 1 } else { ends[i] = i + 1 } }
    for (i, k) in t.iter().enumerate() {
        if k.kind == CLOSE || i >= to || ends[i] <= from { continue; }
        if k.kind == UNIT { out.push(k.a as u16); separated = sep.is_none(); continue; }
        if k.kind == LEAF { if let Some(l) = leaf { out.extend(l.encode_utf16()); separated = sep.is_none(); continue; } }
        if !separated && is_block_ty(k.ty) { out.extend(sep.unwrap_or("").encode_utf16()); separated = true; }
    }
    out
}
pub fn check_text(d: &MarkdownNode, from: usize, to: usize) { check_text_with(d, from, to, [None, Some(""), Some("\n"), Some("--")][pick("sep", 4)], [None, Some("?"), Some("")][pick("leaf", 3)], flag("separated")) }
pub fn check_text_with(d: &MarkdownNode, from: usize, to: usize, sep: Option<&str>, leaf: Option<&str>, first: bool) {
    let t = flat(d); assume(from <= to && to <= t.len()); assume(!splits_pair(&t, from) && !splits_pair(&t, to));
    note!("doc {} text {}..{} sep {:?} leaf {:?} separated {}", show(kids(d)), from, to, sep, leaf, first);
    let e = text_model(&t, from, to, sep, leaf, first); let mut s = "<".to_string(); frag(d).unwrap().text_between(&mut s, first, from, to, sep, leaf); cover("text"); observe(s.len() as u64);
    let mut x = vec![b'<' as u16]; x.extend(e); if !is_str(&s, &x) { note!("got {:?}", s); fail("the text between two positions is wrong") }
}
pub fn h_text() { let d = any_doc(); let n = size_of(&d) - 2; check_text(&d, us("from", n), us("to", n)) }
pub fn h_text_gen() { let d = gen_doc(2); let n = size_of(&d) - 2; check_text(&d, us("from", n), us("to", n)) }
pub fn h_text_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let from = us("from", n.min(60)); let len = us("len", 20); check_text(&d, from, from + len) }
pub fn h_text_content() { let d = match pick("g", 3) { 0 => any_doc(), 1 => gen_doc(3), _ => big(pick("big", NBIG)) }; let mut n = &d; for t in ["a", "b"] { if !kids(n).is_empty() { let k = pick(t, kids(n).len() + 1); if k < kids(n).len() { n = &kids(n)[k] } } }
    note!("node {}", show(std::slice::from_ref(n))); let s = n.text_content(); cover("content"); observe(s.len() as u64); if !is_str(&s, &utf16(&flat_all(std::slice::from_ref(n)))) { fail("the text content is not all the text of the node") } }
pub fn h_text_chars() { let mut s = String::new(); for t in ["c0", "c1"] { s.push(any_char(t)); } let d = elem(b'd', Fragment::from(vec![elem(b'p', Fragment::from(vec![text(s.clone(), MarkSet::default()), MarkdownNode::HardBreak])), elem(b'q', Fragment::from(vec![elem(b'p', Fragment::from(vec![text(s.clone(), MarkSet::default())]))]))])); let c = d.text_content(); cover("chars"); observe(c.len() as u64); if c.as_bytes() != [s.as_bytes(), s.as_bytes()].concat() { fail("the text content is not all the text of the node") } }

// ---- C19
pub fn check_walk(d: &MarkdownNode, from: usize, to: usize, base: usize, stop: usize) {
    assume(from <= to); note!("doc {} nodes between {} and {} base {} not below visit {}", show(kids(d)), from, to, base, stop);
    let mut exp: Vec<(*const MarkdownNode, usize)> = Vec::new(); expect_walk(kids(d), 0, from, to, stop, &mut exp);
    let mut i = 0; let mut ok = true;
    frag(d).unwrap().nodes_between(from, to, &mut |n, pos| { if i >= exp.len() || exp[i].0 != n as *const _ || exp[i].1 + base != pos { ok = false; } i += 1; i - 1 != stop }, base);
    observe(i as u64); if i > 0 { cover("visited") } else { cover("none") }
    if !ok { fail("the traversal visits another node, or gives another position") } if i != exp.len() { fail("the traversal does not visit all nodes of the range") }
}
fn expect_walk(ks: &[MarkdownNode], mut pos: usize, from: usize, to: usize, stop: usize, out: &mut Vec<(*const MarkdownNode, usize)>) {
    for k in ks { let s = size_of(k); if pos < to && pos + s > from { let me = out.len(); out.push((k, pos)); if me != stop { expect_walk(kids(k), pos + 1, from, to, stop, out); } } pos += s; }
}
pub fn h_walk() { let d = any_doc(); let n = size_of(&d) - 2; check_walk(&d, us("from", n + 1), us("to", n + 1), us("base", 1000), us("stop", 8)) }
pub fn h_walk_gen() { let d = gen_doc(3); let n = size_of(&d) - 2; check_walk(&d, us("from", n), us("to", n), 0, us("stop", 4)) }
pub fn h_walk_any() { let d = any_doc(); check_walk(&d, any("from"), any("to"), 0, 99) }
pub fn h_walk_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; check_walk(&d, us("from", n), us("to", n), 7, 99) }
