//! C04 replace is a splice, C05 results are valid, C20 results are normalised, C21 replacing is invertible
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;

#[derive(PartialEq, Eq, Clone, Copy)]
pub enum Why { OutOfRange, TooDeep, Inconsistent, BadSlice, Join, Invalid }

fn chain(mut ks: &[MarkdownNode], left: bool) -> usize { let mut n = 0; loop { match if left { ks.first() } else { ks.last() } { Some(c) if !is_leaf(c) => { n += 1; ks = kids(c); } _ => return n } } }
/// the slice has nodes to leave open as deep as it says
pub fn consistent(c: &[MarkdownNode], os: usize, oe: usize) -> bool { os <= chain(c, true) && oe <= chain(c, false) }

/// What replacing from..to of the content `d` (of a document) by the slice must do.
/// `st` are the tokens of the slice's content.
pub fn expect(d: &[Tok], from: usize, to: usize, slice: &[MarkdownNode], st: &[Tok], os: usize, oe: usize) -> Result<Vec<Tok>, Why> {
    if from > to || to > d.len() || splits_pair(d, from) || splits_pair(d, to) { return Err(Why::OutOfRange); }
    let (l, r) = (open_path(d, from), open_path(d, to));
    if os > l.len() { return Err(Why::TooDeep); }
    if oe > r.len() || l.len() - os != r.len() - oe { return Err(Why::Inconsistent); }
    if !consistent(slice, os, oe) { return Err(Why::BadSlice); }
    let k = l.len() - os;
    let ty = |i: usize| d[i].ty;
    let shared = { let mut e = 0; while e < l.len() && e < r.len() && l[e] == r[e] { e += 1; } e };
    let ok = if st.is_empty() { (shared..l.len()).all(|i| compatible(ty(l[i]), ty(r[i]))) } else {
        let (so, se) = (open_path(st, os), open_path(st, st.len() - oe));
        (shared..k).all(|i| compatible(ty(l[i]), ty(r[i]))) && (k..l.len()).all(|i| compatible(ty(l[i]), st[so[i - k]].ty)) && (k..r.len()).all(|i| compatible(st[se[i - k]].ty, ty(r[i])))
    };
    if !ok { return Err(Why::Join); }
    let mut t = Vec::with_capacity(d.len() + st.len()); t.extend_from_slice(&d[..from]); t.extend_from_slice(&st[os..st.len() - oe]); t.extend_from_slice(&d[to..]);
    if !valid_tokens(DOC, &t) { return Err(Why::Invalid); }
    Ok(t)
}

pub fn check_tree(n: &MarkdownNode, t: &[Tok]) {
    if ty(n) != DOC { fail("the result is not a document") }
    if !sizes_ok(n) { fail("a cached size in the result is wrong") }
    if !eq_toks(&flat(n), t) { fail("the result is not the expected document") }
    observe(digest(t));
}

/// a refusal names two nodes that cannot be joined, or one whose content would be invalid
fn reason(e: &ReplaceError<MD>, d: &[Tok], s: &[Tok], result: Option<&[Tok]>) {
    let has = |n: MarkdownNodeType| n == nt(DOC) || d.iter().chain(s).any(|k| k.kind == OPEN && nt(k.ty) == n); let code = |n: MarkdownNodeType| (0..NTYPES).find(|t| nt(*t) == n).unwrap();
    match e { ReplaceError::CannotJoin(a, b) if result.is_none() => { if compatible(code(*a), code(*b)) || !has(*a) || !has(*b) { fail("a refusal names nodes that could be joined") } }
        ReplaceError::InvalidContent(t) => { if !has(*t) { fail("a refusal names a node that is not there") } if let Some(r) = result { if invalid_types(DOC, r) & 1 << code(*t) == 0 { fail("a refusal names a node whose content is valid") } } }
        _ => fail("a replacement that does not fit is refused for another reason") }
}

pub fn check_replace(d: &MarkdownNode, from: usize, to: usize, content: Vec<MarkdownNode>, os: usize, oe: usize) { check_replace_how(d, from, to, content, os, oe, 0) }
fn check_replace_how(d: &MarkdownNode, from: usize, to: usize, content: Vec<MarkdownNode>, os: usize, oe: usize, how: usize) {
    let (dt, st) = (flat(d), flat_all(&content));
    note!("doc {} range {}..{} slice {} open {} {}", show(kids(d)), from, to, show(&content), os, oe);
    let e = expect(&dt, from, to, &content, &st, os, oe);
    let s = Slice::<MD>::new(Fragment::from(content), os, oe);
    let r = if how == 0 { d.replace(from..to, &s) } else if how == 5 { assume(from == 0 && to == dt.len()); d.replace(.., &s) } else { crate::p_frag::ranged(how, from, to, dt.len(), |r| d.replace(r, &s)) };
    match (r, e) {
        (Ok(n), Ok(t)) => { cover("replaced"); if os > 0 && oe > 0 { cover("open on both sides") } check_tree(&n, &t) }
        (Err(e), Err(w)) => {
            observe(w as u64);
            match w { Why::TooDeep => { cover("too deep"); if e != ReplaceError::InsertTooDeep { fail("content inserted too deep is reported as another error") } }
                Why::Inconsistent | Why::BadSlice => { cover("inconsistent"); let (l, r) = (open_path(&dt, from).len(), open_path(&dt, to).len()); if e != (ReplaceError::InconsistentOpenDepths { from_depth: l, open_start: os, to_depth: r, open_end: oe }) { fail("inconsistent open depths are reported as another error or with other depths") } }
                Why::Join => { cover("cannot join"); reason(&e, &dt, &st, None) }
                Why::Invalid => { cover("invalid"); let mut t = dt[..from].to_vec(); t.extend_from_slice(&st[os..st.len() - oe]); t.extend_from_slice(&dt[to..]); reason(&e, &dt, &st, Some(&t)) }
                Why::OutOfRange => { cover("out of range"); match e { ReplaceError::Resolve(ResolveErr::RangeError { pos }) if pos == to || pos == from && splits_pair(&dt, from) => {} _ => fail("a range that is not one of the document is reported as another error") } } }
        }
        (Ok(_), Err(Why::Invalid)) => fail("a replacement giving an invalid document was accepted"),
        (Ok(_), Err(Why::Join)) => fail("nodes that cannot be joined were joined"),
        (Ok(_), Err(_)) => fail("an impossible replacement was accepted"),
        (Err(_), Ok(_)) => fail("a replacement that fits was rejected"),
    }
}
pub fn h_replace() { let d = any_doc(); let n = size_of(&d) - 2; let c = build(SLICES[pick("slice", SLICES.len())]); let (os, oe) = (us("os", 3), us("oe", 3)); let from = us("from", n); let to = us("to", n); assume(from <= to); check_replace(&d, from, to, c, os, oe) }
/// ranges written in other ways, and ranges that end before they start
pub fn h_replace_how() { let d = if pick("g", 2) == 0 { any_doc() } else { gen_doc(2) }; let n = size_of(&d) - 2; let c = build(["", "'x'", "p{'x'}p{'y'}", "q{p{'x'}}"][pick("slice", 4)]); let o = us("open", 1); let how = pick("how", 6); let from = us("from", n + 1); let to = us("to", n + 1); check_replace_how(&d, from, to, c, o, o, how) }
pub fn h_replace_gen() { let d = gen_doc(2); let n = size_of(&d) - 2; let c = build(SLICES[pick("slice", SLICES.len())]); let (os, oe) = (us("os", 3), us("oe", 3)); let from = us("from", n); let to = us("to", n); assume(from <= to); check_replace(&d, from, to, c, os, oe) }
pub fn h_replace_gen3() { let d = gen_doc(3); let n = size_of(&d) - 2; let c = build(["'x'", "p{'x'}p{'y'}", "q{p{'x'}}", "l{p{'x'}}", "l{p{'x'}}l{p{'y'}}", "h{'x'}", "u{l{p{'x'}}}", "q{p{'x'}}p{'y'}"][pick("slice", 8)]); let (os, oe) = (us("os", 2), us("oe", 2)); let from = us("from", n); let to = us("to", n); assume(from <= to); check_replace(&d, from, to, c, os, oe) }
pub fn h_delete() { let d = gen_doc(3); let n = size_of(&d) - 2; let from = us("from", n); let to = us("to", n + 1); assume(from <= to); check_replace(&d, from, to, vec![], 0, 0) }
pub fn h_replace_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let c = build(["", "'x'", "p{'x'}p{'y'}", "q{p{'x'}}", "l{p{'x'}}"][pick("slice", 5)]); let (os, oe) = (us("os", 2), us("oe", 2)); let from = us("from", n.min(40)); let len = us("len", 4); check_replace(&d, from, from + len, c, os, oe) }
/// wide slices into a wide document
pub fn h_replace_wide() { let d = doc("p{'ab'}q{p{'c'}p{'d'}}"); let n = size_of(&d) - 2; let k = pick("w", 3); let c: Vec<MarkdownNode> = kids(&big([1, 3, 4][k])).to_vec(); let (os, oe) = (us("os", 2), us("oe", 2)); let from = us("from", n); let to = us("to", n); assume(from <= to); check_replace(&d, from, to, c, os, oe) }

/// runs of text with marks on both sides of the seams
fn run(t: &str, k: usize) -> MarkdownNode { let mut m = MarkSet::default(); match k { 0 => {} 1 => m.add(&MarkdownMark::Strong), 2 => m.add(&link("x", "")), 3 => m.add(&link("y", "t")), _ => { m.add(&link("x", "")); m.add(&MarkdownMark::Strong) } } text(t.to_string(), m) }
pub fn h_replace_marks() { let (a, b) = (pick("m0", 5), pick("m1", 5)); let mut k = vec![run("ab", a)]; if b != a { k.push(run("cd", b)); } let (e, f) = (pick("m2", 5), pick("m3", 6)); let mut c = vec![run("x", e)]; if f != e && f < 5 { c.push(run("y", f)); } let d = elem(b'd', Fragment::from(vec![elem(b'p', Fragment::from(k))])); let n = size_of(&d) - 2; let from = us("from", n); let to = us("to", n); assume(from <= to); check_replace(&d, from, to, c, 0, 0) }
/// what is copied from one document and pasted into another
const PDOCS: &[&str] = &["p{'ab'}p{'cd'}", "q{q{q{p{'ab'}}p{'c'}}}H{'d'}", "u{l{p{'ab'}q{p{'c'}}}l{p{*'d'}}}", "O{l{p{'a'}u{l{p{'b'}}l{p{'c'}}}}}", "q{p{'a\u{1F60A}'}}C{'b'}h{}", "p{@'a'%'b'b'c'i}r"];
pub fn h_paste() {
    let (i, j) = (pick("into", PDOCS.len()), pick("of", PDOCS.len())); let (d, e) = (doc(PDOCS[i]), doc(PDOCS[j])); let (n, m) = (size_of(&d) - 2, size_of(&e) - 2);
    let (a, b) = (us("a", m), us("b", m)); assume(a < b); let et = flat(&e); assume(!splits_pair(&et, a) && !splits_pair(&et, b)); let s = match e.slice(a..b, flag("parents")) { Ok(s) => s, Err(_) => fail("a range of the document cannot be sliced") };
    let from = us("from", n); let len = us("len", 2); check_replace(&d, from, from + len, s.content.children().to_vec(), s.open_start, s.open_end)
}
pub fn h_inverse_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let c = build(["", "'x'", "p{'x'}p{'y'}"][pick("slice", 3)]); let o = us("open", 1); let from = pick("chunk", 10) * 4 + us("from", 3); let len = us("len", 6); check_inverse(&d, from, from + len, c, o, o) }
/// C21: replacing back the replaced range restores the document
pub fn check_inverse(d: &MarkdownNode, from: usize, to: usize, content: Vec<MarkdownNode>, os: usize, oe: usize) {
    note!("doc {} range {}..{} slice {} open {} {}", show(kids(d)), from, to, show(&content), os, oe);
    let n = flat_all(&content).len();
    if !consistent(&content, os, oe) { return; }
    let s = Slice::<MD>::new(Fragment::from(content), os, oe);
    let old = match d.slice(from..to, false) { Ok(s) => s, Err(_) => return };
    let d2 = match d.replace(from..to, &s) { Ok(d2) => d2, Err(_) => return };
    cover("applied");
    match d2.replace(from..from + n - os - oe, &old) { Err(_) => fail("the inverse replacement was rejected"), Ok(b) => { observe(digest(&flat(&b))); if !eq_toks(&flat(&b), &flat(d)) || !sizes_ok(&b) || !normal(&b) || b != *d { fail("the inverse replacement does not restore the document") } } }
}
pub fn h_inverse() { let d = any_doc(); let n = size_of(&d) - 2; let c = build(SLICES[pick("slice", SLICES.len())]); let (os, oe) = (us("os", 3), us("oe", 3)); let from = us("from", n); let to = us("to", n); assume(from <= to); check_inverse(&d, from, to, c, os, oe) }
pub fn h_inverse_gen() { let d = gen_doc(2); let n = size_of(&d) - 2; let c = build(SLICES[pick("slice", SLICES.len())]); let (os, oe) = (us("os", 3), us("oe", 3)); let from = us("from", n); let to = us("to", n); assume(from <= to); check_inverse(&d, from, to, c, os, oe) }
/// putting a slice of the document back where it came from changes nothing
pub fn h_reinsert() { let d = if pick("g", 2) == 0 { any_doc() } else { gen_doc(2) }; let n = size_of(&d) - 2; let from = us("from", n); let to = us("to", n); assume(from <= to); let t = flat(&d); assume(!splits_pair(&t, from) && !splits_pair(&t, to));
    note!("doc {} range {}..{}", show(kids(&d)), from, to);
    let s = match d.slice(from..to, false) { Ok(s) => s, Err(_) => fail("a range of the document cannot be sliced") };
    match d.replace(from..to, &s) { Ok(r) => { cover("ok"); observe(digest(&flat(&r))); if r != d || !sizes_ok(&r) { fail("re-inserting a slice of the document changes it") } } Err(_) => fail("re-inserting a slice of the document is rejected") } }

/// C05: any step on a valid document gives a valid document or an error
pub fn any_step(n: usize) -> Step<MD> {
    let from = us("from", n); let to = us("to", n); assume(from <= to); let span = Span { from, to };
    match pick("step", 4) {
        0 => { let c = build(SLICES[pick("slice", SLICES.len())]); let (os, oe) = (us("os", 3), us("oe", 3)); Step::Replace(ReplaceStep { span, slice: Slice::new(Fragment::from(c), os, oe), structure: flag("structure") }) }
        1 => Step::AddMark(AddMarkStep { span, mark: any_mark() }),
        2 => Step::RemoveMark(RemoveMarkStep { span, mark: any_mark() }),
        _ => { let (gap_from, gap_to) = (us("gf", n), us("gt", n)); assume(from <= gap_from); assume(gap_from <= gap_to); assume(gap_to <= to); let c = build(AROUND[pick("around", AROUND.len())]); let (os, oe) = (us("os", 2), us("oe", 2)); Step::ReplaceAround(ReplaceAroundStep { span, gap_from, gap_to, slice: Slice::new(Fragment::from(c), os, oe), insert: us("insert", 4), structure: flag("structure") }) }
    }
}
pub const AROUND: &[&str] = &["", "q{}", "u{l{}}", "h{}", "p{}", "l{}", "u{l{p{'x'}}}", "q{}q{}", "'x'", "q{p{'x'}q{}}"];
/// the documents of the quick run: one per structural feature
const QDOCS: &[usize] = &[2, 4, 7, 9, 13, 14, 16, 18];
pub fn h_step_valid_some() { let d = doc(DOCS[QDOCS[pick("doc", QDOCS.len())]]); let n = size_of(&d) - 2; let st = any_step(n); step_valid(&d, &st) }
pub fn h_step_normal_some() { let d = doc(DOCS[QDOCS[pick("doc", QDOCS.len())]]); let n = size_of(&d) - 2; let st = any_step(n); step_normal(&d, &st) }
pub fn h_step_valid_gen1() { let d = gen_doc(1); let n = size_of(&d) - 2; let st = any_step(n); step_valid(&d, &st) }
pub fn h_step_valid() { let d = any_doc(); let n = size_of(&d) - 2; let st = any_step(n); step_valid(&d, &st) }
pub fn h_step_valid_gen() { let d = gen_doc(2); let n = size_of(&d) - 2; let st = any_step(n); step_valid(&d, &st) }
pub fn step_valid(d: &MarkdownNode, st: &Step<MD>) {
    note!("doc {} step {:?}", show(kids(d)), st);
    match st.apply(d) { Ok(r) => { cover("applied"); observe(digest(&flat(&r))); if ty(&r) != DOC || !valid(&r) && premise(d, st) { fail("a step turned a valid document into an invalid one") } if !sizes_ok(&r) { fail("a cached size in the result is wrong") } } Err(_) => { cover("refused"); observe(0) } }
}
fn premise(d: &MarkdownNode, st: &Step<MD>) -> bool { match st { Step::ReplaceAround(s) => { let (t, c) = (flat(d), flat_all(s.slice.content.children())); let at = s.insert + s.slice.open_start; if at > c.len() { return true; } let mut x = c[..at].to_vec(); x.extend_from_slice(&t[s.gap_from..s.gap_to]); x.extend_from_slice(&c[at..]); crate::p_step::closed_nodes_valid(&x, at, s.gap_to - s.gap_from, s.slice.open_start, s.slice.open_end) } _ => true } }
/// C20: same, for the shape of text
pub fn h_step_normal() { let d = any_doc(); let n = size_of(&d) - 2; let st = any_step(n); step_normal(&d, &st) }
pub fn step_normal(d: &MarkdownNode, st: &Step<MD>) {
    note!("doc {} step {:?}", show(kids(d)), st);
    if let Ok(r) = st.apply(d) { cover("applied"); observe(digest(&flat(&r))); if !normal(&r) { fail("a step left adjacent text nodes with equal marks, an empty text node or an unordered mark set") } }
}
