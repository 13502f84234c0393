//! C22 equality, copies and constructors; C23 histories of steps
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::p_replace::*;
use crate::sym::*;
use prosemirror::markdown::helper;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;

// ---- C22
fn same(a: &MarkdownNode, b: &MarkdownNode) -> bool {
    match (a, b) { (MarkdownNode::Text(x), MarkdownNode::Text(y)) => x.text.as_str() == y.text.as_str() && marks_key(&x.marks) == marks_key(&y.marks), _ => ty(a) == ty(b) && attr_key(a) == attr_key(b) && same_all(kids(a), kids(b)) }
}
fn same_all(a: &[MarkdownNode], b: &[MarkdownNode]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)) }
pub fn check_eq(a: &MarkdownNode, b: &MarkdownNode) {
    note!("{} and {}", show(std::slice::from_ref(a)), show(std::slice::from_ref(b)));
    let s = same(a, b); observe(s as u64); cover(if s { "same" } else { "different" });
    if (*a == *b) != s || (*b == *a) != s || (*a != *b) == s { fail("two nodes compare equal although they differ, or the other way round") }
    if !(a.clone() == *a) { fail("a node differs from its clone") }
}
pub fn h_eq_gen() { check_eq(&gen_doc(2), &gen_doc(2)) }
pub fn h_eq_docs() { let (i, j) = (pick("i", DOCS.len() + PARTS.len()), pick("j", DOCS.len() + PARTS.len())); let f = |k: usize| doc(if k < DOCS.len() { DOCS[k] } else { PARTS[k - DOCS.len()] }); check_eq(&f(i), &f(j)) }
/// differ from each other in one thing only
const PARTS: &[&str] = &["p{'a'}", "p{'b'}", "p{'ab'}", "p{'a'}p{}", "p{}p{'a'}", "p{*'a'}", "p{_'a'}", "p{*_'a'}", "p{@'a'}", "p{%'a'}", "p{'a'*'b'}", "p{*'a''b'}", "p{'a'b}", "p{b'a'}", "p{'a'i}", "p{'a'I}", "h{'a'}", "H{'a'}", "c{'a'}", "C{'a'}", "u{l{p{'a'}}}", "U{l{p{'a'}}}", "o{l{p{'a'}}}", "O{l{p{'a'}}}", "q{p{'a'}}", "q{q{p{'a'}}}", "q{p{'a'}}r", "rq{p{'a'}}", "r", "rr", "p{'\u{1F60A}'}", "p{'\u{e9}'}", "u{l{p{'a'}p{'b'}}}", "u{l{p{'a'}}l{p{'b'}}}", "p{'a''b'}"];
fn word(t: &str) -> String { let mut s = String::new(); match pick("len", 3) { 0 => {} 1 => s.push((val(t, 0x7f) as u8) as char), _ => { s.push('a'); s.push((val(t, 0x7f) as u8) as char); } } s }
fn level(t: &str) -> u8 { val(t, 255) as u8 }
/// nodes of one kind with arbitrary attributes
fn attr_node(k: usize) -> MarkdownNode {
    let c = || Fragment::from(build("'a'"));
    match k {
        0 => MarkdownNode::Heading(AttrNode { attrs: HeadingAttrs { level: level("level") }, content: c() }),
        1 => MarkdownNode::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: word("params") }, content: c() }),
        2 => MarkdownNode::BulletList(AttrNode { attrs: BulletListAttrs { tight: flag("tight") }, content: Fragment::from(build("l{p{}}")) }),
        3 => MarkdownNode::OrderedList(AttrNode { attrs: OrderedListAttrs { order: any("order"), tight: flag("tight") }, content: Fragment::from(build("l{p{}}")) }),
        4 => image(&word("src"), &word("alt"), &word("title")),
        5 => { let mut m = MarkSet::default(); if flag("strong") { m.add(&MarkdownMark::Strong) } if flag("em") { m.add(&MarkdownMark::Em) } if flag("code") { m.add(&MarkdownMark::Code) } if flag("linked") { m.add(&link(&word("href"), &word("title"))) } text("a".into(), m) }
        _ => text(word("text"), MarkSet::default()),
    }
}
/// compared field by field: the model's keys are hashes
fn same_attrs(a: &MarkdownNode, b: &MarkdownNode) -> bool {
    match (a, b) {
        (MarkdownNode::Heading(x), MarkdownNode::Heading(y)) => x.attrs.level == y.attrs.level,
        (MarkdownNode::CodeBlock(x), MarkdownNode::CodeBlock(y)) => x.attrs.params.as_bytes() == y.attrs.params.as_bytes(),
        (MarkdownNode::BulletList(x), MarkdownNode::BulletList(y)) => x.attrs.tight == y.attrs.tight,
        (MarkdownNode::OrderedList(x), MarkdownNode::OrderedList(y)) => x.attrs.order == y.attrs.order && x.attrs.tight == y.attrs.tight,
        (MarkdownNode::Image(x), MarkdownNode::Image(y)) => x.attrs.src.as_bytes() == y.attrs.src.as_bytes() && x.attrs.alt.as_bytes() == y.attrs.alt.as_bytes() && x.attrs.title.as_bytes() == y.attrs.title.as_bytes(),
        (MarkdownNode::Text(x), MarkdownNode::Text(y)) => {
            let has = |n: &TextNode<MD>, b: u8| (&n.marks).into_iter().any(|m| rank(m) == b); let lk = |n: &TextNode<MD>| -> Option<(String, String)> { (&n.marks).into_iter().find_map(|m| match m { MarkdownMark::Link { attrs } => Some((attrs.href.to_string(), attrs.title.to_string())), _ => None }) };
            x.text.as_str().as_bytes() == y.text.as_str().as_bytes() && has(x, 0) == has(y, 0) && has(x, 1) == has(y, 1) && has(x, 2) == has(y, 2) && match (lk(x), lk(y)) { (None, None) => true, (Some((a, b)), Some((c, d))) => a.as_bytes() == c.as_bytes() && b.as_bytes() == d.as_bytes(), _ => false }
        }
        _ => false,
    }
}
pub fn h_eq_attrs() { let k = pick("kind", 7); let (a, b) = (attr_node(k), attr_node(k)); note!("{:?} and {:?}", a, b); let s = same_attrs(&a, &b); cover(if s { "same" } else { "different" }); observe(s as u64); if (a == b) != s { fail("nodes with different attributes compare equal, or with the same ones unequal") } }
/// slices and steps
pub fn h_eq_slices() {
    let (i, j) = (pick("i", SLICES.len()), pick("j", SLICES.len())); let (a, b, c, e) = (any("os"), any("oe"), any("pos"), any("poe"));
    let s = Slice::<MD>::new(Fragment::from(build(SLICES[i])), a, b); let t = Slice::<MD>::new(Fragment::from(build(SLICES[j])), c, e); note!("{:?} and {:?}", s, t);
    let q = i == j && a == c && b == e; observe(q as u64); cover(if q { "same" } else { "different" }); if (s == t) != q { fail("slices compare equal although they differ, or the other way round") }
}
pub fn h_eq_steps() {
    let mk = |o: &[&str; 7]| -> (Step<MD>, [u64; 9]) {
        let k = pick("step", 4); let (from, to) = (any(o[0]), any(o[1])); let span = Span { from, to };
        match k {
            0 => { let (c, st) = (pick("slice", 4), flag(o[2])); let (a, b) = (any(o[3]), any(o[4])); (Step::Replace(ReplaceStep { span, slice: Slice::new(Fragment::from(build(["", "'x'", "'y'", "p{'x'}"][c])), a, b), structure: st }), [0, from as u64, to as u64, c as u64, st as u64, a as u64, b as u64, 0, 0]) }
            1 | 2 => { let m = pick("mark", 6); let mark = match m { 0 => MarkdownMark::Strong, 1 => MarkdownMark::Em, 2 => MarkdownMark::Code, 3 => link("x", ""), 4 => link("y", "t"), _ => link("x", "t") }; (if k == 1 { Step::AddMark(AddMarkStep { span, mark }) } else { Step::RemoveMark(RemoveMarkStep { span, mark }) }, [k as u64, from as u64, to as u64, m as u64, 0, 0, 0, 0, 0]) }
            _ => { let st = flag(o[2]); let (g, h, i) = (any(o[3]), any(o[4]), any(o[5])); let c = pick("slice", 2); let a = any(o[6]); (Step::ReplaceAround(ReplaceAroundStep { span, gap_from: g, gap_to: h, slice: Slice::new(Fragment::from(build(["q{}", "u{l{}}"][c])), a, 0), insert: i, structure: st }), [3, from as u64, to as u64, c as u64, st as u64, g as u64, h as u64, i as u64, a as u64]) }
        }
    };
    let (s, x) = mk(&["f", "t", "s", "a", "b", "i", "o"]); let (t, y) = mk(&["f2", "t2", "s2", "a2", "b2", "i2", "o2"]); note!("{:?} and {:?}", s, t);
    let mut q = true; for i in 0..9 { if x[i] != y[i] { q = false; } } observe(q as u64); cover(if q { "same" } else { "different" }); if (s == t) != q { fail("steps compare equal although they differ, or the other way round") }
}
/// copying with other content, marking, building and taking apart
pub fn h_copy() {
    let n = match pick("what", 3) { 0 => attr_node(pick("kind", 7)), 1 => doc(DOCS[pick("doc", DOCS.len())]), _ => { let d = gen_doc(2); let k = kids(&d); if k.is_empty() { return; } k[pick("child", 3).min(k.len() - 1)].clone() } };
    let c = Fragment::<MD>::from(build(["", "'z'", "p{'y'}r"][pick("content", 3)])); note!("{:?} copied with {:?}", n, c);
    let old = frag(&n).map(|f| f.children().to_vec()); let want = c.children().to_vec();
    let mut seen = false; let r = n.copy(|f| { seen = true; if !same_all(f.children(), old.as_ref().unwrap()) { fail("copying hands out other content than the node has") } c.clone() });
    if seen != frag(&n).is_some() { fail("copying a node does not ask for its content, or asks a leaf for it") }
    cover("copied"); observe(size_of(&r) as u64);
    if is_leaf(&n) { if r != n { fail("a copy of a leaf differs from it") } } else if ty(&r) != ty(&n) || !(same_attrs(&r, &n) || plain(&n) && plain(&r)) || !same_all(kids(&r), &want) || !sizes_ok(&r) { fail("a copy has another type, other attributes or other content than it should") }
    let mut m = MarkSet::default(); if flag("strong") { m.add(&MarkdownMark::Strong) } if flag("link") { m.add(&link("h", "t")) } let q = n.mark(m.clone());
    match (&n, &q) { (MarkdownNode::Text(a), MarkdownNode::Text(b)) => { if a.text.as_str().as_bytes() != b.text.as_str().as_bytes() || marks_key(&b.marks) != marks_key(&m) || !sizes_ok(&q) { fail("marking text gives other text or other marks") } } (_, q) => if *q != n { fail("marking a node other than text changes it") } }
}
fn plain(n: &MarkdownNode) -> bool { matches!(ty(n), DOC | P | BQ | LI) }
pub fn h_build() {
    let s = word("c0"); let x = word("c1"); let p = |n: &MarkdownNode| -> Vec<MarkdownNode> { kids(n).to_vec() };
    let is = |n: &MarkdownNode, t: &str, m: u64| match n { MarkdownNode::Text(k) => k.text.as_str().as_bytes() == t.as_bytes() && marks_key(&k.marks) == m && sizes_ok(n), _ => false };
    let ok = match pick("what", 17) {
        0 => is(&MarkdownNode::from(s.as_str()), &s, 0), 1 => is(&MarkdownNode::text(s.clone()), &s, 0), 2 => is(&helper::em(&s), &s, 2), 3 => is(&helper::strong(&s), &s, 1), 4 => is(&helper::node(s.as_str()), &s, 0),
        5 => { let n = helper::p(s.as_str()); ty(&n) == P && p(&n).len() == 1 && is(&p(&n)[0], &s, 0) && sizes_ok(&n) }
        6 => { let l = level("level"); let n = helper::h(l, s.as_str()); attr_key(&n) == l as u64 && ty(&n) == H && is(&p(&n)[0], &s, 0) && sizes_ok(&n) }
        7 => { let n = helper::h1((s.as_str(), x.as_str())); ty(&n) == H && attr_key(&n) == 1 && p(&n).len() == 2 && is(&p(&n)[0], &s, 0) && is(&p(&n)[1], &x, 0) && sizes_ok(&n) }
        8 => { let n = helper::h2(helper::em(&s)); ty(&n) == H && attr_key(&n) == 2 && p(&n).len() == 1 && is(&p(&n)[0], &s, 2) && sizes_ok(&n) }
        9 => { let n = helper::code_block(&x, s.as_str()); matches!(&n, MarkdownNode::CodeBlock(c) if c.attrs.params.as_bytes() == x.as_bytes()) && is(&p(&n)[0], &s, 0) && sizes_ok(&n) }
        10 => { let n = helper::doc(helper::ul(helper::li(helper::blockquote((helper::p(s.as_str()),))))); same(&n, &doc_of(s)) && sizes_ok(&n) }
        11 => { let f = Fragment::<MD>::from((s.as_str(), helper::strong(&x))); let v: Vec<MarkdownNode> = f.clone().into(); v.len() == 2 && f.child_count() == 2 && is(&v[0], &s, 0) && is(&v[1], &x, 1) && f.size() == size_of(&v[0]) + size_of(&v[1]) && Fragment::from(v) == f }
        12 => { let f = Fragment::<MD>::from((s.as_str(),)); f.child_count() == 1 && f.first_child() == f.last_child() && is(f.child(0), &s, 0) && f.size() == size_of(f.child(0)) }
        13 => { let f = Fragment::<MD>::new(); f.size() == 0 && f.child_count() == 0 && f.first_child().is_none() && f.last_child().is_none() && f == Fragment::EMPTY && f == Fragment::default() }
        14 => { let t = TextNode::<MD> { marks: MarkdownMark::Em.into_set(), text: Text::from(s.clone()) }; let w = t.with_text(Text::from(x.clone())); is(&MarkdownNode::new_text_node(w.clone()), &x, 2) && is(&MarkdownNode::from(w), &x, 2) }
        15 => { let t = TextNode::<MD> { marks: MarkdownMark::Em.into_set(), text: Text::from(s.clone()) }; let o = [helper::em(&x), helper::strong(&x), helper::node(x.as_str()), MarkdownNode::HardBreak]; let k = pick("other", 4); match t.same_markup(&o[k]) { Some(n) => k == 0 && n.text.as_str().as_bytes() == x.as_bytes(), None => k != 0 } }
        _ => { let n = helper::p((helper::node(s.as_str()), MarkdownNode::HardBreak)); n.text_content().as_bytes() == s.as_bytes() && n.content_size() == size_of(&n) - 2 && n.first_child().map_or(false, |c| is(c, &s, 0)) && n.child(1) == Some(&MarkdownNode::HardBreak) && n.maybe_child(2).is_none() }
    };
    cover("built"); observe(ok as u64); if !ok { fail("a node built from its parts does not have those parts") }
}
fn doc_of(s: String) -> MarkdownNode { elem(b'd', Fragment::from(vec![elem(b'u', Fragment::from(vec![elem(b'l', Fragment::from(vec![elem(b'q', Fragment::from(vec![elem(b'p', Fragment::from(vec![text(s, MarkSet::default())]))]))]))]))])) }

// ---- C23
fn mark(i: usize, wide: bool) -> MarkdownMark { const M: [&str; 4] = ["m0", "m1", "m2", "m3"]; match if wide { pick(M[i], 4) } else { 0 } { 0 => MarkdownMark::Strong, 1 => MarkdownMark::Em, 2 => link("y", "t"), _ => MarkdownMark::Code } }
/// one step of an editing session; None: out of the range of the document
fn edit(i: usize, n: usize, wide: bool) -> Option<Step<MD>> {
    const F: [&str; 4] = ["f0", "f1", "f2", "f3"]; const L: [&str; 4] = ["l0", "l1", "l2", "l3"];
    let from = us(F[i], n); let len = us(L[i], if wide { 4 } else { 1 }); let to = from + len; if to > n { return None; } let span = Span { from, to };
    let rep = |c: &str, o: usize| Step::Replace(ReplaceStep { span, slice: Slice::new(Fragment::from(build(c)), o, o), structure: false });
    Some(match pick("op", if wide { 9 } else { 6 }) { 0 => rep("", 0), 1 => rep("'x'", 0), 2 => rep("p{}p{}", 1), 3 => Step::AddMark(AddMarkStep { span, mark: mark(i, wide) }), 4 => Step::RemoveMark(RemoveMarkStep { span, mark: mark(i, wide) }),
        5 => rep("l{p{}}l{p{}}", 2), 6 => rep("*'\u{1F60A}'", 0), 7 => rep("q{p{'y'}}", 2),
        _ => Step::ReplaceAround(ReplaceAroundStep { span, gap_from: from, gap_to: to, slice: Slice::new(Fragment::from(build("q{}")), 0, 0), insert: 1, structure: true }) })
}
fn marked(t: &[Tok], from: usize, to: usize, b: u64, add: bool) -> Vec<Tok> {
    let mut out = t.to_vec(); let mut st = vec![DOC];
    for i in 0..out.len() { match out[i].kind { OPEN => st.push(out[i].ty), CLOSE => { st.pop(); } UNIT if from <= i && i < to => { let p = st[st.len() - 1]; if !add { out[i].m = remove_mark(out[i].m, b) } else if p == P || p == H { out[i].m = add_mark(out[i].m, b) } } _ => {} } }
    out
}
/// what the step must make of the tokens; None: it must be refused
fn wanted(t: &[Tok], st: &Step<MD>) -> Option<Vec<Tok>> {
    let span = |s: &Span| s.from > s.to || s.to > t.len() || splits_pair(t, s.from) || splits_pair(t, s.to);
    match st {
        Step::Replace(s) => { let c = s.slice.content.children(); expect(t, s.span.from, s.span.to, c, &flat_all(c), s.slice.open_start, s.slice.open_end).ok() }
        Step::AddMark(s) => if span(&s.span) && s.span.from != s.span.to { None } else { Some(marked(t, s.span.from, s.span.to, mark_bits(&s.mark), true)) },
        Step::RemoveMark(s) => if span(&s.span) && s.span.from != s.span.to { None } else { Some(marked(t, s.span.from, s.span.to, mark_bits(&s.mark), false)) },
        Step::ReplaceAround(s) => { let (a, b) = (s.span.from, s.span.to); if span(&s.span) || open_path(t, a) != open_path(t, b) { return None; } let mut x = t[..a].to_vec(); x.push(Tok { kind: OPEN, ty: BQ, a: 0, m: 0 }); x.extend_from_slice(&t[a..b]); x.push(Tok { kind: CLOSE, ty: 0, a: 0, m: 0 }); x.extend_from_slice(&t[b..]); if valid_tokens(DOC, &x) { Some(x) } else { None } }
    }
}
/// an editor and a server that gets the document and each step as JSON
fn session(mut d: MarkdownNode, steps: usize, wide: bool, json: bool) {
    note!("start {}", show(kids(&d)));
    let mut t = flat(&d); let mut peer = if json { match serde_json::from_str::<MarkdownNode>(&match serde_json::to_string(&d) { Ok(s) => s, Err(_) => fail("a document could not be written as JSON") }) { Ok(p) => p, Err(_) => fail("the JSON of a document could not be read") } } else { d.clone() };
    for i in 0..steps {
        let st = match edit(i, t.len(), wide) { Some(s) => s, None => return };
        note!("step {:?}", st);
        { let (a, b) = match &st { Step::Replace(s) => (s.span.from, s.span.to), Step::AddMark(s) => (s.span.from, s.span.to), Step::RemoveMark(s) => (s.span.from, s.span.to), Step::ReplaceAround(s) => (s.span.from, s.span.to) }; if a == b && splits_pair(&t, a) { return; } } // an empty range inside a character may be refused or not
        let e = wanted(&t, &st); let r = st.apply(&d);
        let st2: Step<MD> = if json { match serde_json::to_string(&st).ok().and_then(|s| serde_json::from_str(&s).ok()) { Some(s) => s, None => fail("a step could not be written or read as JSON") } } else { st };
        let r2 = st2.apply(&peer);
        match (r, r2, e) {
            (Ok(a), Ok(b), Some(e)) => { cover(["one step", "two steps", "three steps", "four steps"][i]); check_tree(&a, &e); if a != b { fail("two peers that applied the same steps have different documents") } if !normal(&a) || !valid(&a) { fail("a history of steps left an invalid or unnormalised document") } d = a; peer = b; t = e; }
            (Err(_), Err(_), None) => { cover("refused"); observe(i as u64); return; }
            (Ok(_), Err(_), _) | (Err(_), Ok(_), _) => fail("a step was applied by one peer and refused by the other"),
            (Ok(_), _, None) => fail("a step that must be refused was applied"),
            (Err(_), _, Some(_)) => fail("a step that fits was refused"),
        }
    }
}
const START: &[&str] = &["p{'a'*'b'}", "u{l{p{'a'}}}p{}", "h{'a'}q{p{*'b'}}", "p{}", "c{'a'}p{i'b'}", "p{*%'a'_@'b'}"];
pub fn h_history2() { session(doc(START[pick("start", START.len())]), 2, true, false) }
pub fn h_history3() { session(doc(START[pick("start", 4)]), 3, false, false) }
pub fn h_history_json() { session(doc(START[pick("start", START.len())]), 2, false, true) }
pub fn h_history4() { session(doc("p{'a'}"), 4, false, false) }
pub fn h_history3_wide() { session(doc(START[pick("start", 4)]), 3, true, false) }
/// any one step, as a peer gets it
pub fn h_peer() {
    let d = doc(START[pick("start", START.len())]); let n = size_of(&d) - 2; let (from, to) = (us("from", n), us("to", n + 1)); assume(from <= to); let span = Span { from, to }; let structure = pick("structure", 2) == 1;
    let st: Step<MD> = match pick("kind", 4) { 0 => Step::Replace(ReplaceStep { span, slice: Slice::new(Fragment::from(build(SLICES[pick("slice", SLICES.len())])), pick("os", 3), pick("oe", 3)), structure }),
        1 => { let (gap_from, gap_to) = (us("gf", n), us("gt", n)); assume(from <= gap_from && gap_from <= gap_to && gap_to <= to && gap_from - from <= 2 && to - gap_to <= 2); Step::ReplaceAround(ReplaceAroundStep { span, gap_from, gap_to, slice: Slice::new(Fragment::from(build(["", "q{}", "p{}", "u{l{}}", "h{}"][pick("slice", 5)])), pick("os", 2), pick("oe", 2)), insert: pick("insert", 3), structure }) }
        2 => Step::AddMark(AddMarkStep { span, mark: mark(0, true) }), _ => Step::RemoveMark(RemoveMarkStep { span, mark: mark(0, true) }) };
    note!("doc {} step {:?}", show(kids(&d)), st);
    let st2: Step<MD> = match serde_json::to_string(&st).ok().and_then(|s| serde_json::from_str(&s).ok()) { Some(s) => s, None => fail("a step could not be written or read as JSON") };
    match (st.apply(&d), st2.apply(&d)) { (Ok(a), Ok(b)) => { cover("applied"); observe(digest(&flat(&a))); if a != b { fail("two peers that applied the same steps have different documents") } } (Err(_), Err(_)) => { cover("refused"); observe(0) } _ => fail("a step was applied by one peer and refused by the other") }
}
