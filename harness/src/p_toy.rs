//! C24: the model works for every schema. Four schemas that are not the Markdown one: several-state
//! content expressions, inline nodes with content, marks on nodes other than text, marks with a value
use crate::model::{digest, eq_toks, open_path, splits_pair, Tok, CLOSE, LEAF, OPEN, UNIT};
use crate::note;
use crate::sym::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, PartialEq, Eq)] pub struct T;
static mut G: u8 = 0;
fn g() -> u8 { unsafe { G } }
// an arbitrary schema: every entry of its tables is an input, chosen when it is first looked at
const ANY: u8 = 9; static mut TABLE: [u8; 189] = [0; 189];
fn choice(i: u8, n: usize) -> u8 { unsafe { let i = i as usize; if TABLE[i] == 0 { TABLE[i] = 1 + pick("table", n) as u8 } TABLE[i] - 1 } }
fn arbitrary() { unsafe { G = ANY; TABLE = [0; 189]; } }
// R0: root, A, B: blocks with content, N: inline with content, D: inline leaf, R: block leaf, X: text
const R0: u8 = 0; const A: u8 = 1; const B: u8 = 2; const N: u8 = 3; const D: u8 = 4; const R: u8 = 5; const X: u8 = 6;
/// the content expressions: the state after a child of type c
fn delta(t: u8, st: u8, c: u8) -> Option<u8> {
    if g() == ANY { return match choice((t * 2 + st) * 7 + c, 3) { 0 => None, k => Some(k - 1) }; }
    match (g(), t) {
        (0, R0) => match (st, c) { (0, B) => Some(1), (1, A) => Some(1), _ => None },                                             // B A*
        (0, A) => match (st, c) { (0, B) => Some(1), (1, R) => Some(2), (2, B) => Some(1), _ => None },                           // (B R)+
        (0, B) => match c { X | D | N => Some(0), _ => None },                                                                    // (X|D|N)*
        (0, N) => match c { X => Some(0), _ => None },                                                                            // X*
        (1, R0) => match c { A | B => Some(1), _ => None },                                                                       // (A|B)+
        (1, A) => match (st, c) { (0, B) => Some(1), (1, B) => Some(2), _ => None },                                              // B B
        (1, B) => match (st, c) { (0, X) | (0, N) => Some(0), (0, D) => Some(1), _ => None },                                     // (X|N)* D?
        (1, N) => match c { X | D => Some(1), _ => None },                                                                        // (X|D)+
        (2, R0) => match (st, c) { (0, A) => Some(1), (0, R) | (1, R) => Some(1), (0, B) | (1, B) => Some(2), _ => None },        // A? R* B
        (2, A) => match (st, c) { (0, A) => Some(0), (0, B) => Some(1), _ => None },                                              // A* B
        (2, B) => match c { X => Some(0), _ => None },                                                                            // X*
        (3, R0) => match c { A | R => Some(0), _ => None },                                                                       // (A|R)*
        (3, A) => match c { X | N => Some(0), _ => None },                                                                        // (X|N)*
        (3, N) => match (st, c) { (0, N) => Some(0), (0, X) | (1, X) => Some(1), (0, D) | (1, D) => Some(2), _ => None },         // N* X* D?
        _ => None,
    }
}
fn may_end(t: u8, st: u8) -> bool { if g() == ANY { return choice(98 + t * 2 + st, 2) == 1; } match (g(), t) { (0, R0) => st == 1, (0, A) => st == 2, (1, R0) => st == 1, (1, A) => st == 2, (1, N) => st == 1, (2, R0) => st == 2, (2, A) => st == 1, _ => true } }
/// the marks allowed on the children of a node
fn mark_ok(t: u8, kind: u8) -> bool { if g() == ANY { return choice(112 + t * 4 + kind, 2) == 1; } match (g(), t) { (0, B) => true, (0, N) => kind == 0, (1, B) => kind == 1 || kind == 2, (1, N) => true, (2, A) => kind == 3, (3, A) => true, _ => false } }

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)] pub struct TMark { kind: u8, val: u8 }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct TKind(u8);
impl MarkType for TKind {}
impl Mark<T> for TMark { fn r#type(&self) -> TKind { TKind(self.kind) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct TType(u8);
#[derive(Clone, Copy)] pub struct TMatch { t: u8, st: u8 }
impl ContentMatch<T> for TMatch {
    fn match_fragment_range<Q: std::ops::RangeBounds<usize>>(self, f: &Fragment<T>, range: Q) -> Option<Self> {
        use std::ops::Bound::*; let a = match range.start_bound() { Included(a) => *a, Excluded(a) => *a + 1, Unbounded => 0 }; let b = match range.end_bound() { Included(b) => *b + 1, Excluded(b) => *b, Unbounded => f.child_count() };
        let mut m = self; for c in &f.children()[a..b] { m = m.match_type(c.r#type())?; } Some(m)
    }
    fn valid_end(self) -> bool { may_end(self.t, self.st) }
    fn match_type(self, t: TType) -> Option<Self> { delta(self.t, self.st, t.0).map(|st| TMatch { t: self.t, st }) }
}
impl NodeType<T> for TType {
    fn compatible_content(self, o: Self) -> bool { compatible(self.0, o.0) }
    fn valid_content(self, f: &Fragment<T>) -> bool { match self.content_match().match_fragment(f) { Some(m) if m.valid_end() => f.children().iter().all(|c| c.marks().map_or(true, |s| self.allow_marks(s))), _ => false } }
    fn allows_mark_type(self, k: TKind) -> bool { mark_ok(self.0, k.0) }
    fn content_match(self) -> TMatch { TMatch { t: self.0, st: 0 } }
    fn allow_marks(self, s: &MarkSet<T>) -> bool { s.into_iter().all(|m| mark_ok(self.0, m.kind)) }
    fn is_block(self) -> bool { matches!(self.0, R0 | A | B | R) }
}
impl Schema for T { type Mark = TMark; type MarkType = TKind; type Node = Toy; type NodeType = TType; type ContentMatch = TMatch; }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Toy { Text(TextNode<T>), Leaf { kind: u8, marks: MarkSet<T> }, Elem { kind: u8, attr: u8, marks: MarkSet<T>, content: Fragment<T> } }
impl From<TextNode<T>> for Toy { fn from(t: TextNode<T>) -> Toy { Toy::Text(t) } }
impl Node<T> for Toy {
    fn mark(&self, set: MarkSet<T>) -> Toy { match self { Toy::Text(t) => Toy::Text(TextNode { marks: set, text: t.text.clone() }), Toy::Leaf { kind, .. } => Toy::Leaf { kind: *kind, marks: set }, Toy::Elem { kind, attr, content, .. } => Toy::Elem { kind: *kind, attr: *attr, marks: set, content: content.clone() } } }
    fn copy<F: FnOnce(&Fragment<T>) -> Fragment<T>>(&self, map: F) -> Toy { match self { Toy::Elem { kind, attr, content, marks } => Toy::Elem { kind: *kind, attr: *attr, marks: marks.clone(), content: map(content) }, n => n.clone() } }
    fn text_node(&self) -> Option<&TextNode<T>> { if let Toy::Text(t) = self { Some(t) } else { None } }
    fn new_text_node(t: TextNode<T>) -> Toy { Toy::Text(t) }
    fn text<S: Into<String>>(t: S) -> Toy { Toy::Text(TextNode { marks: MarkSet::default(), text: Text::from(t.into()) }) }
    fn content(&self) -> Option<&Fragment<T>> { if let Toy::Elem { content, .. } = self { Some(content) } else { None } }
    fn marks(&self) -> Option<&MarkSet<T>> { Some(match self { Toy::Text(t) => &t.marks, Toy::Leaf { marks, .. } => marks, Toy::Elem { marks, .. } => marks }) }
    fn r#type(&self) -> TType { TType(ty(self)) }
    fn is_block(&self) -> bool { self.r#type().is_block() }
}

// ---- the model
fn ty(n: &Toy) -> u8 { match n { Toy::Text(_) => X, Toy::Leaf { kind, .. } => *kind, Toy::Elem { kind, .. } => *kind } }
fn kids(n: &Toy) -> &[Toy] { static NONE: [Toy; 0] = []; match n { Toy::Elem { content, .. } => content.children(), _ => &NONE } }
fn compatible(a: u8, b: u8) -> bool { if a == b { return true; } if g() == ANY { return choice(140 + a.min(b) * 7 + a.max(b), 2) == 1; }  (0..=X).any(|c| delta(a, 0, c).is_some() && delta(b, 0, c).is_some()) }
/// what joins with a node that joins with a third joins with that too
fn transitive() -> bool { g() != ANY || (0..=N).all(|a| (0..=N).all(|b| (0..=N).all(|c| !compatible(a, b) || !compatible(b, c) || compatible(a, c)))) }
fn bits(m: &TMark) -> u64 { (m.val as u64 + 1) << (8 * m.kind) }
fn key(s: &MarkSet<T>) -> u64 { let mut r = 0; for m in s { r |= bits(m) } r }
fn add(set: u64, m: &TMark) -> u64 { set & !(0xff << (8 * m.kind)) | bits(m) }
fn sub(set: u64, m: &TMark) -> u64 { if set & 0xff << (8 * m.kind) == bits(m) { set & !bits(m) } else { set } }
fn flat_into(n: &Toy, out: &mut Vec<Tok>) {
    match n { Toy::Text(t) => { let m = key(&t.marks); for u in t.text.as_str().encode_utf16() { out.push(Tok { kind: UNIT, ty: X, a: u as u64, m }) } }
        Toy::Leaf { kind, marks } => out.push(Tok { kind: LEAF, ty: *kind, a: 0, m: key(marks) }),
        Toy::Elem { kind, attr, marks, content } => { out.push(Tok { kind: OPEN, ty: *kind, a: *attr as u64, m: key(marks) }); for c in content.children() { flat_into(c, out) } out.push(Tok { kind: CLOSE, ty: 0, a: 0, m: 0 }) } }
}
fn flat_all(ns: &[Toy]) -> Vec<Tok> { let mut v = Vec::with_capacity(32); for n in ns { flat_into(n, &mut v) } v }
fn flat(n: &Toy) -> Vec<Tok> { flat_all(kids(n)) }
fn size_of(n: &Toy) -> usize { match n { Toy::Text(t) => t.text.as_str().encode_utf16().count(), Toy::Leaf { .. } => 1, n => 2 + kids(n).iter().map(size_of).sum::<usize>() } }
fn sizes_ok(n: &Toy) -> bool { match n { Toy::Text(t) => t.text.len_utf16() == size_of(n), Toy::Leaf { .. } => true, Toy::Elem { content, .. } => content.children().iter().all(sizes_ok) && content.size() == size_of(n) - 2 } }
fn normal(n: &Toy) -> bool {
    let mut prev: Option<u64> = None;
    for c in kids(n) { if let Toy::Text(t) = c { let m = key(&t.marks); if t.text.as_str().is_empty() || prev == Some(m) { return false; } prev = Some(m); } else { prev = None; if !normal(c) { return false; } } let mut last = -1; for m in c.marks().unwrap() { if m.kind as i32 <= last { return false; } last = m.kind as i32; } }
    true
}
fn set_ok(t: u8, m: u64) -> bool { (0..4).all(|k| m & 0xff << (8 * k) == 0 || mark_ok(t, k)) }
fn valid_tokens(t: &[Tok]) -> bool {
    let mut stack: Vec<(u8, u8)> = Vec::with_capacity(8); stack.push((R0, 0));
    for (i, k) in t.iter().enumerate() {
        if k.kind == UNIT && i > 0 && t[i - 1].kind == UNIT && t[i - 1].m == k.m { continue; } // the same text
        let top = stack.len() - 1; let (p, st) = stack[top];
        if k.kind == CLOSE { if top == 0 || !may_end(p, st) { return false; } stack.pop(); continue; }
        match delta(p, st, k.ty) { None => return false, Some(s) => stack[top].1 = s } if !set_ok(p, k.m) { return false; }
        if k.kind == OPEN { stack.push((k.ty, 0)) }
    }
    stack.len() == 1 && may_end(R0, stack[0].1)
}
/// the nodes of the slice that are not left open are valid
fn closed_valid(s: &[Toy], os: usize, oe: usize) -> bool {
    fn whole(n: &Toy) -> bool { if kids(n).is_empty() && !matches!(n, Toy::Elem { .. }) { return true; } let mut st = 0; for c in kids(n) { match delta(ty(n), st, ty(c)) { Some(s) => st = s, None => return false } if !set_ok(ty(n), key(c.marks().unwrap())) || !whole(c) { return false; } } may_end(ty(n), st) }
    let n = s.len(); s.iter().enumerate().all(|(i, c)| { let (l, r) = (os > 0 && i == 0, oe > 0 && i == n - 1); if l || r { closed_valid(kids(c), if l { os - 1 } else { 0 }, if r { oe - 1 } else { 0 }) } else { whole(c) } })
}
fn chain(mut ks: &[Toy], left: bool) -> usize { let mut n = 0; loop { match if left { ks.first() } else { ks.last() } { Some(c @ Toy::Elem { .. }) => { n += 1; ks = kids(c) } _ => return n } } }
/// what replacing must do: the tokens of the result, or None when it must be refused
fn expect(d: &[Tok], from: usize, to: usize, slice: &[Toy], os: usize, oe: usize) -> Option<Vec<Tok>> {
    if from > to || to > d.len() || splits_pair(d, from) || splits_pair(d, to) { return None; }
    let (l, r) = (open_path(d, from), open_path(d, to)); let st = flat_all(slice);
    if os > l.len() || oe > r.len() || l.len() - os != r.len() - oe || os > chain(slice, true) || oe > chain(slice, false) { return None; }
    let k = l.len() - os; let ty = |i: usize| d[i].ty; let shared = { let mut e = 0; while e < l.len() && e < r.len() && l[e] == r[e] { e += 1 } e };
    let ok = if st.is_empty() { (shared..l.len()).all(|i| compatible(ty(l[i]), ty(r[i]))) } else { let (so, se) = (open_path(&st, os), open_path(&st, st.len() - oe)); (shared..k).all(|i| compatible(ty(l[i]), ty(r[i]))) && (k..l.len()).all(|i| compatible(ty(l[i]), st[so[i - k]].ty)) && (k..r.len()).all(|i| compatible(st[se[i - k]].ty, ty(r[i]))) };
    if !ok { return None; }
    let mut t = d[..from].to_vec(); t.extend_from_slice(&st[os..st.len() - oe]); t.extend_from_slice(&d[to..]);
    if valid_tokens(&t) { Some(t) } else { None }
}
fn check_tree(n: &Toy, t: &[Tok]) { if ty(n) != R0 || !sizes_ok(n) { fail("the result is malformed") } if !eq_toks(&flat(n), t) { fail("the result is not the expected document") } observe(digest(t)) }

// ---- documents: a{} b{} n{} (attribute 0) A{} B{} N{} (attribute 1) d r 'text', marks before: digit = kind, ! after it: value 1
fn build(s: &str) -> Vec<Toy> { let b = s.as_bytes(); let mut i = 0; let r = parse(s, b, &mut i); if i != b.len() { panic!("bad spec") } r }
fn parse(s: &str, b: &[u8], i: &mut usize) -> Vec<Toy> {
    let mut out = Vec::with_capacity(4); let mut marks = MarkSet::<T>::default();
    while *i < b.len() {
        let c = b[*i]; *i += 1;
        match c {
            b'}' => { *i -= 1; break; }
            b'0'..=b'3' => { let v = *i < b.len() && b[*i] == b'!'; if v { *i += 1 } marks.add(&TMark { kind: c - b'0', val: v as u8 }) }
            b'\'' => { let st = *i; while b[*i] != b'\'' { *i += 1 } let t = s[st..*i].to_string(); *i += 1; out.push(Toy::Text(TextNode { marks: std::mem::take(&mut marks), text: Text::from(t) })) }
            b'd' | b'r' => out.push(Toy::Leaf { kind: if c == b'd' { D } else { R }, marks: std::mem::take(&mut marks) }),
            _ => { *i += 1; let m = std::mem::take(&mut marks); let k = Fragment::from(parse(s, b, i)); *i += 1; out.push(Toy::Elem { kind: match c { b'a' | b'A' => A, b'b' | b'B' => B, _ => N }, attr: c.is_ascii_uppercase() as u8, marks: m, content: k }) }
        }
    }
    out
}
const TDOCS: [&[&str]; 4] = [
    &["b{'ab'}", "b{'a'n{'b'}d}a{b{0'x'}r}", "b{}a{b{'a'}rb{'b'}r}A{b{}r}", "B{1d0'a'2!n{0!'bc'}}", "b{'a\u{1F60A}'0n{}0'b'}"],
    &["b{'ab'd}", "a{b{'a'}b{n{'b'}}}b{}", "b{'a'1n{0'b'd}'c'}A{b{}b{'x'd}}", "B{2'a'1d}b{n{d}}"],
    &["b{'ab'}", "a{b{'a'}}rrb{'b'}", "a{a{3b{}}b{'ab'}}b{}", "rb{'a\u{1F60A}'}", "a{3!A{b{'c'}}3a{b{}}b{}}B{}"],
    &["", "a{'ab'n{n{'c'}'d'}}r", "rA{3n{}'a'}a{0'b'}", "a{0!n{'a'd}0'b'1N{n{}n{'c'}}}", "rr"],
];
fn any_doc() -> Toy { let g = pick("schema", 4); unsafe { G = g as u8 } let d = TDOCS[g]; root(build(d[pick("doc", 5).min(d.len() - 1)])) }
fn root(k: Vec<Toy>) -> Toy { Toy::Elem { kind: R0, attr: 0, marks: MarkSet::default(), content: Fragment::from(k) } }
const TSLICES: &[&str] = &["", "'x'", "0'x'", "d", "2!d", "r", "n{'x'}", "b{'x'}", "b{'x'}b{'y'}", "a{b{'x'}r}", "a{b{'x'}}", "a{b{'x'}b{'y'}}", "b{1n{'x'}}", "a{'x'}", "a{}a{}", "n{'x'}n{'y'}", "b{'x'}a{b{}r}", "n{n{'x'}}", "a{'x'n{'y'}}", "b{}rb{}", "a{b{}rb{}}", "B{}"];
fn show(d: &Toy) -> String { format!("schema {} {}", g(), serde_json::to_string(d).unwrap_or_default()) }
pub fn h_toy_replace() { toy_replace(any_doc(), TSLICES, 2) }
pub fn h_toy_replace_wide() { toy_replace(any_doc(), TSLICES, 3) }
const ADOCS: &[&str] = &["b{'a'}b{'b'}", "a{b{'a'}}b{}", "a{'a'0'b'}", "b{}rb{n{'a'}}", "a{b{d}a{'b'}}"];
/// a document that is valid in an arbitrary schema
fn adoc(k: usize) -> Toy { arbitrary(); let d = root(build(ADOCS[k])); assume(valid_tokens(&flat(&d))); d }
pub fn h_toy_any_replace() { toy_replace(adoc(pick("doc", 3)), &["", "'x'", "b{'x'}", "r", "b{}a{}"], 1) }
/// every document with up to `left` nodes, valid in an arbitrary schema
fn gdoc(left: usize) -> Toy { arbitrary(); let mut n = left; let k = gnodes(&mut n, 0); let d = root(k); assume(valid_tokens(&flat(&d))); d }
fn gnodes(left: &mut usize, depth: usize) -> Vec<Toy> {
    let mut out: Vec<Toy> = Vec::with_capacity(4);
    while *left > 0 {
        let k = pick("node", if depth < 2 { 6 } else { 4 }); if k == 0 { break; } *left -= 1; let m = |on: bool| { let mut m = MarkSet::<T>::default(); if on { m.add(&TMark { kind: 0, val: 0 }) } m };
        match k { 1 => out.push(Toy::Leaf { kind: D, marks: m(false) }),
            2 | 3 => { let m = m(k == 3); if let Some(Toy::Text(t)) = out.last() { if t.marks == m { assume(false) } } out.push(Toy::Text(TextNode { marks: m, text: Text::from(["ab", "c"][k - 2].to_string()) })) }
            _ => { let c = gnodes(left, depth + 1); out.push(Toy::Elem { kind: if k == 4 { A } else { B }, attr: 0, marks: m(false), content: Fragment::from(c) }) } }
    }
    out
}
pub fn h_toy_gen_replace() { toy_replace(gdoc(2), &["", "'x'", "b{}a{}"], 1) }
pub fn h_toy_gen_replace3() { toy_replace(gdoc(3), &["", "'x'", "b{}a{}"], 1) }
pub fn h_toy_gen_replace4() { toy_replace(gdoc(4), &["", "'x'", "b{'x'}", "b{}a{}", "a{b{}}"], 2) }
pub fn h_toy_gen_mark() { toy_mark(gdoc(2)) }
pub fn h_toy_gen_mark3() { toy_mark(gdoc(3)) }
pub fn h_toy_gen_around() { toy_around(gdoc(2), 2) }
pub fn h_toy_gen_around3() { toy_around(gdoc(3), 1) }
pub fn h_toy_any_replace_more() { toy_replace(adoc(pick("doc", ADOCS.len())), &["", "'x'", "b{'x'}", "r", "b{}a{}", "a{b{'x'}}", "0!'x'd", "n{}"], 2) }
fn toy_replace(d: Toy, slices: &[&str], open: usize) {
    let n = size_of(&d) - 2; let c = build(slices[pick("slice", slices.len())]); let (os, oe) = (us("os", open), us("oe", open)); let from = us("from", n); let to = us("to", n); assume(from <= to);
    if g() == ANY { assume(os <= chain(&c, true) && oe <= chain(&c, false)) }
    if os <= chain(&c, true) && oe <= chain(&c, false) && !closed_valid(&c, os, oe) { return; }
    note!("{} {}..{} slice {:?} open {} {}", show(&d), from, to, c, os, oe); let t = flat(&d); let e = expect(&t, from, to, &c, os, oe); let structure = flag("structure");
    let over = from < to && { let mut o = false; let mut bad = false; for k in &t[from..to] { match k.kind { OPEN => o = true, CLOSE if !o => {} _ => bad = true } } bad };
    let s = Slice::<T>::new(Fragment::from(c.clone()), os, oe); let r = if structure { ReplaceStep { span: Span { from, to }, slice: Slice::<T>::new(Fragment::from(c), os, oe), structure }.apply(&d).map_err(|e| matches!(e, StepError::WouldOverwrite)) } else { d.replace(from..to, &s).map_err(|_| false) };
    if structure && over { match r { Ok(_) => fail("a structural step overwrote content"), Err(w) => { cover("would overwrite"); observe(1); if !w && !splits_pair(&t, from) && !splits_pair(&t, to) { fail("overwriting is not what a structural step is refused for") } return; } } }
    match (r, e) { (Ok(n), Some(t)) => { cover("replaced"); check_tree(&n, &t); if !normal(&n) { fail("the result is not in normal form") }
            let m = flat_all(s.content.children()).len() - os - oe; if let Ok(old) = d.slice(from..to, false) { match n.replace(from..from + m, &old) { Ok(b) => { if b != d { fail("undoing the replacement does not restore the document") } } Err(_) => { if transitive() { fail("undoing the replacement is refused") } } } } }
        (Err(w), None) => { cover("refused"); observe(0); if w { fail("a structural step that overwrites nothing was refused as overwriting") } } (Ok(_), None) => fail("a replacement that does not fit was accepted"), (Err(_), Some(_)) => fail("a replacement that fits was refused") }
}
pub fn h_toy_mark() { toy_mark(any_doc()) }
pub fn h_toy_any_mark() { toy_mark(adoc(pick("doc", ADOCS.len()))) }
fn toy_mark(d: Toy) {
    let n = size_of(&d) - 2; let m = TMark { kind: pick("kind", 4) as u8, val: pick("val", 2) as u8 }; let from = us("from", n); let to = us("to", n); assume(from <= to); let adding = flag("add"); let t = flat(&d); note!("{} {}..{} {} {:?}", show(&d), from, to, if adding { "add" } else { "remove" }, m);
    // an inline node that is only partly in the range: not specified
    let part = |p: usize, q: usize| open_path(&t, p).iter().any(|i| t[*i].ty == N && !open_path(&t, q).contains(i)); assume(!part(from, to) && !part(to, from));
    let bad = from < to && (splits_pair(&t, from) || splits_pair(&t, to)); if from == to && splits_pair(&t, from) { return; }
    let mut e = t.clone(); let mut st = vec![R0];
    for i in 0..e.len() { let p = st[st.len() - 1]; let k = e[i]; if k.kind != CLOSE && from <= i && i < to && matches!(k.ty, X | D | N) { if !adding { e[i].m = sub(k.m, &m) } else if mark_ok(p, m.kind) { e[i].m = add(k.m, &m) } } match k.kind { OPEN => st.push(k.ty), CLOSE => { st.pop(); } _ => {} } }
    let span = Span { from, to }; let r = if adding { Step::AddMark(AddMarkStep::<T> { span, mark: m }).apply(&d) } else { Step::RemoveMark(RemoveMarkStep::<T> { span, mark: m }).apply(&d) };
    match r { Ok(n) => { if bad { fail("a mark step with an invalid range was applied") } cover("applied"); if !eq_toks(&e, &t) { cover("changed") } check_tree(&n, &e); if !normal(&n) { fail("the result is not in normal form") } } Err(_) => { cover("refused"); observe(0); if !bad && valid_tokens(&e) { fail("a mark step with a valid range was refused") } } }
}
pub fn h_toy_around() { toy_around(any_doc(), 2) }
pub fn h_toy_any_around() { toy_around(adoc(pick("doc", ADOCS.len())), 2) }
pub fn h_toy_around_wide() { toy_around(any_doc(), 4) }
fn toy_around(d: Toy, side: usize) {
    let n = size_of(&d) - 2; let c = build(["a{}", "b{}", "n{}", "a{b{}}", ""][pick("slice", 5)]); let from = us("from", n); let gf = us("gf", n); let gt = us("gt", n); let to = us("to", n); assume(from <= gf && gf <= gt && gt <= to && gf - from <= side && to - gt <= side); let ins = us("insert", 2); let structure = flag("structure");
    note!("{} {}..[{}..{}]..{} slice {:?} insert {} {}", show(&d), from, gf, gt, to, c, ins, structure); let t = flat(&d); if [from, gf, gt, to].iter().any(|p| splits_pair(&t, *p)) { return; }
    let s = flat_all(&c); let gap = &t[gf..gt]; let flatgap = open_path(&t, gf) == open_path(&t, gt);
    let r = Step::ReplaceAround(ReplaceAroundStep::<T> { span: Span { from, to }, gap_from: gf, gap_to: gt, slice: Slice::new(Fragment::from(c.clone()), 0, 0), insert: ins, structure }).apply(&d);
    match r { Ok(n) => { cover("applied"); if !flatgap || ins > s.len() { fail("a gap that is not flat, or a place that does not exist, was accepted") } let mut x = t[..from].to_vec(); x.extend_from_slice(&s[..ins]); x.extend_from_slice(gap); x.extend_from_slice(&s[ins..]); x.extend_from_slice(&t[to..]); check_tree(&n, &x);
            if !normal(&n) { fail("the result is not in normal form") } }
        Err(e) => { observe(3); match e { StepError::GapNotFlat => { cover("not flat"); if flatgap { fail("a flat gap was refused as not flat") } } StepError::GapWouldOverwrite => { cover("gap would overwrite"); if !structure { fail("a step was refused as structural that is not") } } StepError::GapNotFit => { cover("does not fit"); if flatgap && ins <= s.len() { let mut x = s[..ins].to_vec(); x.extend_from_slice(gap); x.extend_from_slice(&s[ins..]); let host = open_path(&s, ins); if let Some(h) = host.last() { let close = { let mut l = 0; let mut j = *h; loop { match x[j].kind { OPEN => l += 1, CLOSE => l -= 1, _ => {} } if l == 0 { break j; } j += 1 } }; let (mut l, mut st, mut ok) = (0, Some(0), true); for j in h + 1..close { let k = &x[j]; if k.kind == CLOSE { l -= 1; continue; } if k.kind == UNIT && x[j - 1].kind == UNIT && x[j - 1].m == k.m { continue; } if l == 0 { st = st.and_then(|q| delta(s[*h].ty, q, k.ty)); ok &= set_ok(s[*h].ty, k.m) } if k.kind == OPEN { l += 1 } } if ok && st.map_or(false, |q| may_end(s[*h].ty, q)) { fail("a gap that fits into the slice was refused") } } else { fail("a gap that goes outside of the slice's nodes was refused as not fitting") } } } _ => {} } } }
}
pub fn h_toy_resolve() {
    let d = any_doc(); let n = size_of(&d) - 2; let pos = us("pos", n + 1); let (a, b) = (us("a", n), us("b", n)); note!("{} position {} range {}..{}", show(&d), pos, a, b); let t = flat(&d);
    match d.resolve(pos) { Err(_) => { cover("refused"); observe(0); if pos <= n && !splits_pair(&t, pos) { fail("a position inside the document was rejected") } }
        Ok(r) => { if pos > n || splits_pair(&t, pos) { fail("a position outside the document was accepted") } cover("resolved"); let path = open_path(&t, pos); observe(path.len() as u64); if !std::ptr::eq(r.parent(), r.node(path.len())) { fail("the depth of a position is wrong") }
            for (k, o) in path.iter().enumerate() { if ty(r.node(k + 1)) != t[*o].ty || r.before(k + 1) != Some(*o) || r.start(k + 1) != o + 1 { fail("an ancestor of a position is wrong") } }
            let off = { let mut i = pos; while i > 0 && t[i - 1].kind == UNIT && i < t.len() && t[i].kind == UNIT && t[i - 1].m == t[i].m { i -= 1 } pos - i }; if r.text_offset() != off { fail("the offset in the text is wrong") }
            if let Some(x) = r.node_after() { if ty(&x) != t[pos].ty { fail("the node after a position is wrong") } } else if pos < n && t[pos].kind != CLOSE { fail("the node after a position is missing") }
            if let Some(x) = r.node_before() { if t[pos - 1].kind != CLOSE && ty(&x) != t[pos - 1].ty { fail("the node before a position is wrong") } } else if pos > 0 && t[pos - 1].kind != OPEN { fail("the node before a position is missing") } } }
    if a <= b && !splits_pair(&t, a) && !splits_pair(&t, b) { cover("slice"); match d.slice(a..b, false) { Ok(s) => { let x = flat_all(s.content.children()); let (p, q) = (open_path(&t, a), open_path(&t, b)); let sh = { let mut e = 0; while e < p.len() && e < q.len() && p[e] == q[e] { e += 1 } e }; if a < b && (s.open_start != p.len() - sh || s.open_end != q.len() - sh || !eq_toks(&x[s.open_start..x.len() - s.open_end], &t[a..b])) { fail("a slice of the document does not hold the range") } if !sizes_ok(&root(s.content.children().to_vec())) || s.content.size() != x.len() { fail("a size in a slice is wrong") } observe(digest(&x)) } Err(_) => fail("a range of the document cannot be sliced") }
        let mut out = String::new(); if let Some(c) = d.content() { c.text_between(&mut out, true, a, b, None, None) } let e: Vec<u16> = t[a..b].iter().filter(|k| k.kind == UNIT).map(|k| k.a as u16).collect(); if !out.encode_utf16().eq(e.iter().copied()) { fail("the text of a range is wrong") } }
}
pub fn h_toy_content() { toy_content(any_doc()) }
pub fn h_toy_any_content() { toy_content(adoc(pick("doc", ADOCS.len()))) }
fn toy_content(d: Toy) {
    let ks = kids(&d).to_vec(); let n = if ks.is_empty() || flag("root") { d } else { ks[pick("child", 3).min(ks.len() - 1)].clone() }; let ks = kids(&n).to_vec(); let rep = build(TSLICES[pick("slice", TSLICES.len())]);
    let (from, to) = (pick("from", ks.len() + 1), pick("to", ks.len() + 1)); assume(from <= to); let (a, b) = (pick("a", rep.len() + 1), pick("b", rep.len() + 1)); assume(a <= b); note!("{} children {}..{} by {}..{} of {:?}", show(&n), from, to, a, b, rep);
    let t = ty(&n); let run = |st: u8, k: &[Toy]| { let mut s = Some(st); for c in k { s = s.and_then(|s| delta(t, s, ty(c))) } s }; let before = run(0, &ks[..from]);
    let at = n.content_match_at(from); if at.is_ok() != before.is_some() { fail("the content match at an index is wrong") } if let (Ok(m), Some(s)) = (&at, before) { if m.valid_end() != may_end(t, s) { fail("the content match at an index is wrong") } }
    let types = before.and_then(|s| run(s, &rep[a..b])).and_then(|s| run(s, &ks[to..])).map_or(false, |s| may_end(t, s)); let marks = rep[a..b].iter().all(|c| set_ok(t, key(c.marks().unwrap())));
    match n.can_replace(from, to, Some(&Fragment::from(rep)), a..b) { Ok(x) => { cover(if x { "can" } else { "cannot" }); observe(x as u64); if before.is_none() || x != (types && marks) { fail("whether children can be replaced is wrong") } } Err(_) => { observe(9); if before.is_some() { fail("valid content is reported as invalid") } } }
}
pub fn h_toy_json() {
    let d = any_doc(); let n = size_of(&d) - 2; let c = build(TSLICES[pick("slice", TSLICES.len())]); let (os, oe) = (us("os", 2), us("oe", 2)); let from = us("from", n); let s = Step::Replace(ReplaceStep { span: Span { from, to: from }, slice: Slice::<T>::new(Fragment::from(c), os, oe), structure: flag("structure") }); note!("{} {:?}", show(&d), s);
    let x: Toy = match serde_json::to_string(&d).ok().and_then(|t| serde_json::from_str(&t).ok()) { Some(x) => x, None => fail("a document could not be written or read") }; let y: Step<T> = match serde_json::to_string(&s).ok().and_then(|t| serde_json::from_str(&t).ok()) { Some(x) => x, None => fail("a step could not be written or read") };
    cover("read back"); observe(digest(&flat(&x))); if x != d || !sizes_ok(&x) || y != s { fail("a document or a step read back differs") } match (s.apply(&d), y.apply(&x)) { (Ok(p), Ok(q)) => { cover("applied"); if p != q { fail("a step read back does something else") } } (Err(_), Err(_)) => {} _ => fail("a step read back is refused or not, other than the original") }
}
pub fn h_toy_text() {
    let d = any_doc(); let n = size_of(&d) - 2; let (from, to) = (us("from", n), us("to", n + 1)); assume(from <= to && to <= n); let t = flat(&d); assume(!splits_pair(&t, from) && !splits_pair(&t, to)); let sep = [None, Some(""), Some("--")][pick("sep", 3)]; let leaf = [None, Some("?"), Some("")][pick("leaf", 3)]; let mut separated = flag("separated");
    note!("{} text {}..{} separator {:?} leaf {:?} separated {}", show(&d), from, to, sep, leaf, separated); let mut s = String::new(); d.content().unwrap().text_between(&mut s, separated, from, to, sep, leaf); observe(s.len() as u64); cover("text");
    let end = |i: usize| { let mut l = 0; let mut j = i; loop { match t[j].kind { OPEN => l += 1, CLOSE => l -= 1, _ => {} } j += 1; if l == 0 { return j; } } }; let mut e: Vec<u16> = Vec::new(); let mut seen = 0;
    for (i, k) in t.iter().enumerate() {
        if k.kind == CLOSE || i >= to || end(i) <= from { continue; } if k.kind == UNIT { e.push(k.a as u16); separated = sep.is_none() } else { seen += 1; if k.kind == LEAF && leaf.is_some() { e.extend(leaf.unwrap().encode_utf16()); separated = sep.is_none() } else if !separated && matches!(k.ty, A | B | R) { e.extend(sep.unwrap_or("").encode_utf16()); separated = true } }
    }
    if !s.encode_utf16().eq(e.iter().copied()) { fail("the text between two positions is wrong") }
    let mut got = 0; d.content().unwrap().nodes_between(from, to, &mut |x, p| { if !x.is_text() { got += 1; if t[p].ty != ty(x) || t[p].kind == CLOSE { got += 1000 } } else if t[p].kind != UNIT || x.is_block() || !x.is_inline() { got += 1000 } true }, 0); if got != seen { fail("the traversal visits other nodes than those of the range") }
}
