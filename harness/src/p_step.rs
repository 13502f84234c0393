//! C06/C07 mark steps, C09 structure flag, C10 replace-around, C11 totality
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::p_replace::*;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use std::ops::Bound;
use prosemirror::transform::*;

/// the tokens after adding (or removing) a mark on from..to
fn marked(t: &[Tok], from: usize, to: usize, b: u64, add: bool) -> Vec<Tok> {
    let mut out = t.to_vec(); let mut st = vec![DOC];
    for i in 0..out.len() { match out[i].kind { OPEN => st.push(out[i].ty), CLOSE => { st.pop(); } UNIT if from <= i && i < to => { let p = st[st.len() - 1]; if !add { out[i].m = remove_mark(out[i].m, b) } else if p == P || p == H { out[i].m = add_mark(out[i].m, b) } } _ => {} } }
    out
}
pub fn check_mark(d: &MarkdownNode, from: usize, to: usize, mark: MarkdownMark, add: bool) {
    let t = flat(d); note!("doc {} {} {:?} on {}..{}", show(kids(d)), if add { "add" } else { "remove" }, mark, from, to);
    let bad = from > to || to > t.len() || splits_pair(&t, from) || splits_pair(&t, to);
    let e = marked(&t, from, to, mark_bits(&mark), add); let span = Span { from, to };
    let r = if add { AddMarkStep::<MD> { span, mark }.apply(d) } else { RemoveMarkStep::<MD> { span, mark }.apply(d) };
    match r { Ok(n) => { if bad && from != to { fail("a mark step with an invalid range was applied") } cover("applied"); if !eq_toks(&e, &t) { cover("changed") } if ty(&n) != DOC || !sizes_ok(&n) { fail("the result is malformed") } if !eq_toks(&flat(&n), &e) { fail("the mark step did not change exactly the marks it should") } if !normal(&n) { fail("the mark step left text nodes that should have been joined") } observe(digest(&e)); }
        Err(_) => { cover("refused"); if !bad { fail("a mark step with a valid range was refused") } observe(0) } }
}
const MDOCS: &[&str] = &["p{'a'*'b'_'c'*_'d'}", "p{@'a'%'b'`'c'*@'d'}", "c{'ab'}p{*'c'}h{_'d'}", "q{p{'a'b*'b'}}p{*'c''d'}", "u{l{p{*_`@'a''b'}}l{p{_'c'}}}", "p{'ab'}p{'c'*'d'}p{*'e''f'}", "p{i'a\u{1F60A}'I*'b'}", "p{%'a'_%'b'*%'c'}rh{`'d'i'e'}"];
fn mark_doc() -> MarkdownNode { let k = pick("mdoc", MDOCS.len() + DOCS.len()); doc(if k < MDOCS.len() { MDOCS[k] } else { DOCS[k - MDOCS.len()] }) }
pub fn h_add_mark() { let d = mark_doc(); let n = size_of(&d) - 2; let m = any_mark(); let from = us("from", n + 1); let to = us("to", n + 1); check_mark(&d, from, to, m, true) }
pub fn h_remove_mark() { let d = mark_doc(); let n = size_of(&d) - 2; let m = any_mark(); let from = us("from", n + 1); let to = us("to", n + 1); check_mark(&d, from, to, m, false) }
/// text with an arbitrary mark set on each of three runs
fn any_marked_doc(n: usize) -> MarkdownNode {
    let mut runs = Vec::new(); let mut prev = 99;
    for c in ["a", "b", "c"].iter().take(n) { let k = pick("set", 12); if k == prev { return doc("p{'x'}"); } prev = k; let mut s = MarkSet::<MD>::default(); if k & 1 != 0 { s.add(&MarkdownMark::Strong) } if k & 2 != 0 { s.add(&MarkdownMark::Em) } if k & 4 != 0 { s.add(&link("x", "")) } if k & 8 != 0 { s.add(&link("y", "t")); s.add(&MarkdownMark::Code) } runs.push(text(c.to_string(), s)); }
    elem(b'd', Fragment::from(vec![elem(if pick("blk", 2) == 0 { b'p' } else { b'h' }, Fragment::from(runs))]))
}
pub fn h_add_mark_sets() { let d = any_marked_doc(3); let m = any_mark(); let from = us("from", 5); let to = us("to", 5); check_mark(&d, from, to, m, true) }
pub fn h_remove_mark_sets() { let d = any_marked_doc(3); let m = any_mark(); let from = us("from", 5); let to = us("to", 5); check_mark(&d, from, to, m, false) }
pub fn h_add_mark_two() { let d = any_marked_doc(2); let m = any_mark(); let from = us("from", 4); let to = us("to", 4); check_mark(&d, from, to, m, true) }
pub fn h_remove_mark_two() { let d = any_marked_doc(2); let m = any_mark(); let from = us("from", 4); let to = us("to", 4); check_mark(&d, from, to, m, false) }
pub fn h_add_mark_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let from = us("from", n.min(45)); let len = us("len", 6); check_mark(&d, from, from + len, MarkdownMark::Em, true) }
pub fn h_remove_mark_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let from = us("from", n.min(45)); let len = us("len", 6); check_mark(&d, from, from + len, MarkdownMark::Strong, false) }

/// from..to of the document is nothing but node ends followed by node starts
fn only_structure(t: &[Tok]) -> bool { let mut seen_open = false; for k in t { match k.kind { OPEN => seen_open = true, CLOSE if !seen_open => {} _ => return false } } true }
/// C09
pub fn check_structure(d: &MarkdownNode, from: usize, to: usize, c: Vec<MarkdownNode>, os: usize, oe: usize) {
    let t = flat(d); note!("doc {} structural {}..{} slice {} open {} {}", show(kids(d)), from, to, show(&c), os, oe);
    let over = from < to && to <= t.len() && !only_structure(&t[from..to]);
    let sl = Slice::new(Fragment::from(c), os, oe); let plain = d.replace(from..to, &sl);
    let r = ReplaceStep::<MD> { span: Span { from, to }, slice: sl, structure: true }.apply(d);
    match r {
        Ok(n) => { cover("applied"); if over { fail("a structural step overwrote content") } observe(digest(&flat(&n))); if plain != Ok(n) { fail("a structural step differs from the same replacement") } }
        Err(StepError::WouldOverwrite) => { cover("would overwrite"); observe(1); if !over { fail("a structural step that overwrites nothing was refused as overwriting") } }
        Err(_) => { observe(2); if plain.is_ok() { fail("a structural step that fits was refused") } }
    }
}
pub fn h_structure() { let d = any_doc(); let n = size_of(&d) - 2; let c = build(SLICES[pick("slice", SLICES.len())]); let (os, oe) = (us("os", 2), us("oe", 2)); let from = us("from", n); let to = us("to", n); assume(from <= to); check_structure(&d, from, to, c, os, oe) }
pub fn h_structure_gen() { let d = gen_doc(3); let n = size_of(&d) - 2; let from = us("from", n); let to = us("to", n); assume(from <= to); check_structure(&d, from, to, vec![], 0, 0) }
pub fn h_structure_off() { let d = any_doc(); let n = size_of(&d) - 2; let c = build(SLICES[pick("slice", SLICES.len())]); let from = us("from", n); let to = us("to", n + 1); assume(from <= to); let sl = Slice::new(Fragment::from(c), 0, 0); let plain = d.replace(from..to, &sl);
    note!("doc {} {}..{} slice {:?}", show(kids(&d)), from, to, sl);
    let r = Step::Replace(ReplaceStep::<MD> { span: Span { from, to }, slice: sl, structure: false }).apply(&d); observe(r.is_ok() as u64); cover("plain");
    if r.ok() != plain.ok() { fail("a plain replace step differs from the same replacement") } }

pub fn h_structure_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let from = pick("chunk", 18) * 4 + us("from", 3); let len = us("len", 30); assume(from + len <= n); check_structure(&d, from, from + len, vec![], 0, 0) }
/// C10
pub fn check_around(d: &MarkdownNode, from: usize, gf: usize, gt: usize, to: usize, c: Vec<MarkdownNode>, os: usize, oe: usize, ins: usize, structure: bool) {
    let (t, st) = (flat(d), flat_all(&c));
    note!("doc {} around {}..[{}..{}]..{} slice {} open {} {} insert {} structure {}", show(kids(d)), from, gf, gt, to, show(&c), os, oe, ins, structure);
    // what is expected
    let bad = splits_pair(&t, from) || splits_pair(&t, to) || gf != gt && (splits_pair(&t, gf) || splits_pair(&t, gt));
    let half = splits_pair(&t, gf); // an empty gap in the middle of a character: may be refused
    let over = structure && !(only_structure(&t[from..gf]) && only_structure(&t[gt..to]));
    let (a, b) = (open_path(&t, gf), open_path(&t, gt));
    let flatgap = a == b;
    let at = ins + os;
    let place = at <= st.len() && !splits_pair(&st, at);
    let r = ReplaceAroundStep::<MD> { span: Span { from, to }, gap_from: gf, gap_to: gt, slice: Slice::new(Fragment::from(c), os, oe), insert: ins, structure }.apply(d);
    let gap = &t[gf..gt];
    // the slice with the gap in it, as a tree, to reuse the splice oracle
    let e = if bad || over || !flatgap || !place { None } else { let mut s = Vec::new(); s.extend_from_slice(&st[..at]); s.extend_from_slice(gap); s.extend_from_slice(&st[at..]); Some(s) };
    match r {
        Ok(n) => { cover("applied"); if structure { cover("structural") }
            if !flatgap { fail("a gap that is not flat was moved") } if over { fail("a structural step overwrote content around the gap") }
            let s = match e { Some(s) => s, None => fail("an impossible replace-around step was applied") };
            let mut x = Vec::new(); x.extend_from_slice(&t[..from]); x.extend_from_slice(&s[os..s.len() - oe]); x.extend_from_slice(&t[to..]);
            if closed_nodes_valid(&s, at, gap.len(), os, oe) && !valid_tokens(DOC, &x) { fail("a replace-around step gave an invalid document") }
            check_tree(&n, &x); }
        Err(er) => { observe(7);
            match er { StepError::GapWouldOverwrite => { cover("gap would overwrite"); if !over && !bad { fail("a structural step that overwrites nothing was refused as overwriting") } } StepError::GapNotFlat => { cover("not flat"); if flatgap { fail("a flat gap was refused as not flat") } } StepError::GapNotFit => cover("gap does not fit"), _ => {} }
            if let (Some(s), false) = (e, half) { let tree = unflat(&s); if expect(&t, from, to, &tree, &s, os, oe).is_ok() { fail("a replace-around step that fits was refused") } } }
    }
}
/// premise of a step giving a valid document: the nodes of its slice that end up closed, other than the one holding the gap, are valid
pub fn closed_nodes_valid(s: &[Tok], at: usize, gap: usize, os: usize, oe: usize) -> bool {
    let host = open_path(s, at); let mut w = Vec::new();
    for (i, k) in s.iter().enumerate() { if k.kind == OPEN { w.push(i) } else if k.kind == CLOSE { let o = w.pop().unwrap(); if o >= at && o < at + gap || o < os || i >= s.len() - oe || host.last() == Some(&o) { continue; } if !valid_level(s, o, i) { return false; } } }
    true
}
/// node whose OPEN is at s and CLOSE at e: are its children acceptable?
fn valid_level(t: &[Tok], s: usize, e: usize) -> bool { let (mut st, mut lvl) = (0, 0); for i in s + 1..e { let k = t[i]; if k.kind == CLOSE { lvl -= 1; continue; } if lvl == 0 { if !accepts(t[s].ty, st, k.ty) { return false; } st = 1; } if k.kind == OPEN { lvl += 1; } } may_end(t[s].ty, st) }
/// a tree with the given shape (attributes and text do not matter here)
fn unflat(t: &[Tok]) -> Vec<MarkdownNode> {
    let mut st: Vec<(u8, Vec<MarkdownNode>)> = vec![(DOC, vec![])];
    for k in t { let n = match k.kind { OPEN => { st.push((k.ty, vec![])); continue; } CLOSE => { let (ty, c) = st.pop().unwrap(); let b = match ty { P => b'p', H => b'h', CODE => b'c', BQ => b'q', UL => b'u', OL => b'o', _ => b'l' }; elem(b, Fragment::from(c)) } UNIT => text("x".into(), MarkSet::default()), _ => if k.ty == HR { MarkdownNode::HorizontalRule } else if k.ty == BR { MarkdownNode::HardBreak } else { image("", "", "") } }; let top = st.len() - 1; st[top].1.push(n); }
    st.pop().unwrap().1
}
pub const GDOCS: &[&str] = &["q{p{'a'}p{'b'}}", "u{l{p{'a'}}l{p{'b'}}}", "h{*'a''b'}r", "q{u{l{p{'a'}}}}", "p{'a\u{1F60A}'b}", "u{l{p{'a'}u{l{p{'b'}}}}}", "p{'ab'}p{'c'}", "q{q{p{'a'}}p{'b'}}", "o{l{p{}}}c{'x'}"];
pub fn h_around() { let d = doc(GDOCS[pick("gdoc", 5)]); around(&d, 8) }
pub fn h_around_all() { let d = doc(GDOCS[pick("gdoc", GDOCS.len())]); around(&d, AROUND.len()) }
fn around(d: &MarkdownNode, k: usize) { let n = size_of(d) - 2; let c = build(AROUND[pick("around", k)]); let from = us("from", n); let gf = us("gf", n); let gt = us("gt", n); let to = us("to", n); assume(from <= gf); assume(gf <= gt); assume(gt <= to); let (os, oe) = (us("os", 2), us("oe", 2)); check_around(d, from, gf, gt, to, c, os, oe, us("insert", 5), flag("structure")) }
pub fn h_around_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let c = build(AROUND[pick("around", 4)]); let from = pick("chunk", 10) * 4 + us("from", 3); let (o, x) = (us("open", 1), us("side", 1)); let y = us("gap", 7); assume(from + 2 * x + y <= n); check_around(&d, from, from + x, from + x + y, from + 2 * x + y, c, o, o, us("insert", 1), flag("structure")) }
pub fn h_around_gen() { let d = gen_doc(2); around(&d, 6) }

/// C11: whatever the numbers in a step, applying it returns
pub fn h_step_total() { let d = match pick("root", 8) { 0 => doc(""), 1 => MarkdownNode::HorizontalRule, 2 => text("a\u{1F60A}".into(), MarkSet::default()), k => doc(["p{'a\u{1F60A}b'}q{p{'c'}}", "u{l{p{*'a''b'}q{p{}}}}r", "p{}", "h{'ab'i}p{'c'bb}", "q{q{p{'\u{1F60A}'}}}c{'xy'}"][k - 3]) }; total(&d, &["", "'x'", "p{'\u{1F60A}'}", "q{p{'x'}}r", "u{l{}}", "b"]) }
pub fn h_step_total_more() { let d = any_doc(); total(&d, SLICES) }
fn total(d: &MarkdownNode, slices: &[&str]) {
    let span = Span { from: any("from"), to: any("to") };
    let st: Step<MD> = match pick("step", 4) {
        0 => Step::Replace(ReplaceStep { span, slice: any_slice(slices), structure: flag("structure") }),
        1 => Step::AddMark(AddMarkStep { span, mark: MarkdownMark::Em }),
        2 => Step::RemoveMark(RemoveMarkStep { span, mark: MarkdownMark::Strong }),
        _ => Step::ReplaceAround(ReplaceAroundStep { span, gap_from: any("gf"), gap_to: any("gt"), slice: any_slice(slices), insert: any("insert"), structure: flag("structure") }),
    };
    note!("doc {} step {:?}", show(std::slice::from_ref(d)), st);
    let r = st.apply(d); observe(r.is_ok() as u64); match r { Ok(r) => { cover("applied"); observe(digest(&flat(&r))) } Err(_) => cover("refused") }
}
fn any_slice(s: &[&str]) -> Slice<MD> { let c = build(s[pick("slice", s.len())]); Slice::new(Fragment::from(c), any("os"), any("oe")) }
/// a range of arbitrary numbers, written in any form, and the positions it denotes
pub fn any_range(forms: usize) -> ((Bound<usize>, Bound<usize>), usize, usize) {
    use Bound::*; let how = pick("how", forms); let (a, b) = (any("from"), any("to")); note!("range {} {} form {}", a, b, how);
    let f = if how & 1 == 0 { Included(a) } else { Excluded(a) }; let t = if how & 2 == 0 { Excluded(b) } else { Included(b) }; let past = |x: usize, one: bool| if !one || x == usize::MAX { x } else { x + 1 }; ((f, t), past(a, how & 1 == 1), past(b, how & 2 == 2))
}
pub fn h_slice_total() { let d = any_doc(); let (r, from, to) = any_range(4); let n = size_of(&d) - 2; let par = flag("parents"); note!("doc {} slice {}", show(kids(&d)), par); let r = d.slice(r, par); observe(r.is_ok() as u64); cover(if r.is_ok() { "sliced" } else { "refused" }); if let Ok(s) = r { if from <= to { if to > n && from != to { fail("slicing outside the document succeeded") } } else { fail("slicing backwards succeeded") } observe(s.open_start as u64) } }
/// replacing any range, written in any form
pub fn h_replace_total() { let d = any_doc(); let (r, from, to) = any_range(4); let n = size_of(&d) - 2; let c = build(["", "'x'"][pick("slice", 2)]); note!("doc {}", show(kids(&d))); let s = Slice::new(Fragment::from(c), 0, 0); let e = d.replace(r, &s); observe(e.is_ok() as u64); cover(if e.is_ok() { "replaced" } else { "refused" }); if e.is_ok() && (from > to || to > n) { fail("a range that is not one of the document is replaced") } }
