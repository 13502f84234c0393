//! C01 positions, C02 sizes, C03 cut/slice, C18 text, C19 traversal
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;

pub struct Lvl<'a> { pub node: &'a MarkdownNode, pub start: usize, pub index: usize, pub child_start: usize }
/// where position `pos` lies, found by walking the tree with sizes counted afresh
pub fn locate(d: &MarkdownNode, pos: usize) -> Vec<Lvl> {
    let mut out = Vec::new(); let (mut n, mut start) = (d, 0);
    loop {
        let ks = kids(n); let (mut i, mut cs) = (0, start); let mut down = None;
        while i < ks.len() { let sz = size_of(&ks[i]); if cs + sz > pos { if cs < pos && !is_leaf(&ks[i]) { down = Some(&ks[i]); } break; } cs += sz; i += 1; }
        out.push(Lvl { node: n, start, index: i, child_start: cs });
        match down { Some(c) => { n = c; start = cs + 1; } None => return out }
    }
}

pub fn check_resolve(d: &MarkdownNode, pos: usize, p2: usize) {
    let t = flat(d);
    note!("doc {} pos {} other {}", show(kids(d)), pos, p2);
    let r = d.resolve(pos);
    if pos > t.len() || splits_pair(&t, pos) { cover("out of range"); match r { Ok(_) => fail("a position outside the document was accepted"), Err(ResolveErr::RangeError { pos: p }) if p == pos => {} Err(_) => fail("a refused position is not the one that is reported") } observe(0); return; }
    let r = match r { Ok(r) => r, Err(_) => fail("a position inside the document was rejected") };
    let ls = locate(d, pos); let depth = ls.len() - 1; let last = &ls[depth];
    observe(depth as u64);
    if !std::ptr::eq(r.parent(), last.node) { fail("parent is not the innermost node around the position") }
    if !std::ptr::eq(r.doc(), d) { fail("doc is not the document") }
    for (k, l) in ls.iter().enumerate() {
        if !std::ptr::eq(r.node(k), l.node) { fail("ancestor is not the node on the path") }
        let end = l.start + size_of(l.node) - 2;
        if r.start(k) != l.start { fail("start of an ancestor is wrong") }
        if r.end(k) != end { fail("end of an ancestor is wrong") }
        if r.index(k) != l.index { fail("index into an ancestor is wrong") }
        let inside = k < depth || l.child_start < pos;
        if r.index_after(k) != l.index + inside as usize { fail("index after the position is wrong") }
        if r.before(k) != (if k == 0 { None } else { Some(l.start - 1) }) { fail("before is wrong") }
        if r.after(k) != (if k == 0 { None } else { Some(end + 1) }) { fail("after is wrong") }
    }
    if r.before(depth + 1) != Some(pos) || r.after(depth + 1) != Some(pos) { fail("before/after one level below the position is not the position") }
    let off = pos - last.child_start;
    if r.text_offset() != off { fail("text offset is wrong") }
    let nb = r.node_before(); let na = r.node_after(); let ks = kids(last.node);
    let (eb, ea): (Option<Vec<Tok>>, Option<Vec<Tok>>) = if off > 0 { cover("inside text"); let w = flat_all(&ks[last.index..last.index + 1]); (Some(w[..off].to_vec()), Some(w[off..].to_vec())) }
        else { (if last.index > 0 { Some(flat_all(&ks[last.index - 1..last.index])) } else { None }, if last.index < ks.len() { Some(flat_all(&ks[last.index..last.index + 1])) } else { None }) };
    same_opt(nb.as_deref(), &eb, "node before the position is wrong"); same_opt(na.as_deref(), &ea, "node after the position is wrong");
    let mut sd = 0; for (k, l) in ls.iter().enumerate() { if l.start <= p2 && p2 <= l.start + size_of(l.node) - 2 { sd = k; } else if k > 0 { break; } }
    if r.shared_depth(p2) != sd { fail("shared depth is wrong") }
    observe(sd as u64);
}
fn same_opt(n: Option<&MarkdownNode>, e: &Option<Vec<Tok>>, m: &str) { match (n, e) { (None, None) => {} (Some(n), Some(e)) => { if !sizes_ok(n) || !eq_toks(&flat_all(std::slice::from_ref(n)), e) { fail(m) } } _ => fail(m) } }

pub fn h_resolve() { let d = any_doc(); let n = size_of(&d) - 2; let pos = us("pos", n + 2); let p2 = us("other", n + 2); check_resolve(&d, pos, p2) }
pub fn h_resolve_gen() { let d = gen_doc(2); let n = size_of(&d) - 2; let pos = us("pos", n + 1); let p2 = us("other", n + 1); check_resolve(&d, pos, p2) }
pub fn h_resolve_gen3() { let d = gen_doc(3); let n = size_of(&d) - 2; let pos = us("pos", n + 1); let p2 = us("other", n + 1); check_resolve(&d, pos, p2) }
pub fn h_resolve_big() { let d = big(pick("big", NBIG)); let n = size_of(&d) - 2; let c = n / 16 + 1; let pos = pick("chunk", 17) * c + us("pos", c - 1); check_resolve(&d, pos, pos / 2) }
/// any 64-bit position, any node as the root (leaves included)
pub fn h_resolve_any() {
    let d = match pick("root", 5) { 0 => any_doc(), 1 => doc(""), 2 => MarkdownNode::HorizontalRule, 3 => text("ab".into(), MarkSet::default()), _ => build("u{l{p{'a'}}}").pop().unwrap() };
    let pos = any("pos"); let n = if is_leaf(&d) { 0 } else { size_of(&d) - 2 }; let t = flat(&d);
    note!("root {} pos {}", show(std::slice::from_ref(&d)), pos);
    let ok = d.resolve(pos).is_ok();
    observe(ok as u64); cover(if ok { "accepted" } else { "rejected" });
    if ok { if pos > n || splits_pair(&t, pos) { fail("a position outside the document was accepted") } } else if pos <= n && !is_leaf(&d) && !splits_pair(&t, pos) { fail("a position inside the document was rejected") }
}
