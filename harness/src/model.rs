//! The reference model: a document is a sequence of tokens (node start, node end, leaf, UTF-16
//! code unit of text with its marks). Nothing here calls the implementation's algorithms.
use prosemirror::markdown::*;
use prosemirror::model::*;

// node types, in the model's own numbering
pub const DOC: u8 = 0; pub const P: u8 = 1; pub const H: u8 = 2; pub const CODE: u8 = 3; pub const BQ: u8 = 4; pub const UL: u8 = 5; pub const OL: u8 = 6; pub const LI: u8 = 7; pub const HR: u8 = 8; pub const BR: u8 = 9; pub const IMG: u8 = 10; pub const TEXT: u8 = 11;
pub const NTYPES: u8 = 12;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Tok { pub kind: u8, pub ty: u8, pub a: u64, pub m: u64 }
pub const OPEN: u8 = 0; pub const CLOSE: u8 = 1; pub const LEAF: u8 = 2; pub const UNIT: u8 = 3;

fn hs(mut h: u64, s: &str) -> u64 { h = (h ^ s.len() as u64).wrapping_mul(0x100000001b3); for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }
pub fn ty(n: &MarkdownNode) -> u8 {
    match n { MarkdownNode::Doc(_) => DOC, MarkdownNode::Paragraph(_) => P, MarkdownNode::Heading(_) => H, MarkdownNode::CodeBlock(_) => CODE, MarkdownNode::Blockquote(_) => BQ, MarkdownNode::BulletList(_) => UL,
        MarkdownNode::OrderedList(_) => OL, MarkdownNode::ListItem(_) => LI, MarkdownNode::HorizontalRule => HR, MarkdownNode::HardBreak => BR, MarkdownNode::Image(_) => IMG, MarkdownNode::Text(_) => TEXT }
}
pub fn nt(t: u8) -> MarkdownNodeType {
    match t { DOC => MarkdownNodeType::Doc, P => MarkdownNodeType::Paragraph, H => MarkdownNodeType::Heading, CODE => MarkdownNodeType::CodeBlock, BQ => MarkdownNodeType::Blockquote, UL => MarkdownNodeType::BulletList, OL => MarkdownNodeType::OrderedList,
        LI => MarkdownNodeType::ListItem, HR => MarkdownNodeType::HorizontalRule, BR => MarkdownNodeType::HardBreak, IMG => MarkdownNodeType::Image, _ => MarkdownNodeType::Text }
}
pub fn attr_key(n: &MarkdownNode) -> u64 {
    match n { MarkdownNode::Heading(h) => h.attrs.level as u64, MarkdownNode::CodeBlock(c) => code_key(&c.attrs.params), MarkdownNode::BulletList(l) => l.attrs.tight as u64, MarkdownNode::OrderedList(l) => (l.attrs.order as u64) << 1 | l.attrs.tight as u64,
        MarkdownNode::Image(i) => image_key(&i.attrs.src, &i.attrs.alt, &i.attrs.title), _ => 0 }
}
pub fn code_key(p: &str) -> u64 { hs(7, p) }
pub fn image_key(s: &str, a: &str, t: &str) -> u64 { hs(hs(hs(7, s), a), t) }
pub fn kids(n: &MarkdownNode) -> &[MarkdownNode] {
    static NONE: [MarkdownNode; 0] = [];
    match n { MarkdownNode::Doc(b) | MarkdownNode::Blockquote(b) | MarkdownNode::Paragraph(b) | MarkdownNode::ListItem(b) => b.content.children(), MarkdownNode::Heading(h) => h.content.children(), MarkdownNode::CodeBlock(h) => h.content.children(),
        MarkdownNode::BulletList(h) => h.content.children(), MarkdownNode::OrderedList(h) => h.content.children(), _ => &NONE }
}
pub fn is_leaf(n: &MarkdownNode) -> bool { ty(n) >= HR }
pub fn frag(n: &MarkdownNode) -> Option<&Fragment<MD>> {
    match n { MarkdownNode::Doc(b) | MarkdownNode::Blockquote(b) | MarkdownNode::Paragraph(b) | MarkdownNode::ListItem(b) => Some(&b.content), MarkdownNode::Heading(h) => Some(&h.content), MarkdownNode::CodeBlock(h) => Some(&h.content),
        MarkdownNode::BulletList(h) => Some(&h.content), MarkdownNode::OrderedList(h) => Some(&h.content), _ => None }
}
/// marks as bits: 1 strong, 2 em, 4 code, link: hash of its attributes in the upper bits
pub fn mark_bits(m: &MarkdownMark) -> u64 { match m { MarkdownMark::Strong => 1, MarkdownMark::Em => 2, MarkdownMark::Code => 4, MarkdownMark::Link { attrs } => link_bits(&attrs.href, &attrs.title) } }
pub fn link_bits(href: &str, title: &str) -> u64 { hs(hs(7, href), title) << 3 | 8 }
pub const LINK: u64 = !7;
pub fn marks_key(s: &MarkSet<MD>) -> u64 { let mut r = 0; for m in s { r |= mark_bits(m); } r }
pub fn mark_type(b: u64) -> u64 { if b & 7 != 0 { b & 7 } else { LINK } }
/// the model's MarkSet::add / remove
pub fn add_mark(set: u64, b: u64) -> u64 { (set & !mark_type(b)) | b }
pub fn remove_mark(set: u64, b: u64) -> u64 { if set & mark_type(b) == b { set & !mark_type(b) } else { set } }

pub fn flat_into(n: &MarkdownNode, out: &mut Vec<Tok>) {
    if let MarkdownNode::Text(t) = n { let m = marks_key(&t.marks); for u in t.text.as_str().encode_utf16() { out.push(Tok { kind: UNIT, ty: TEXT, a: u as u64, m }); } return; }
    let t = ty(n); let a = attr_key(n);
    if is_leaf(n) { out.push(Tok { kind: LEAF, ty: t, a, m: 0 }); return; }
    out.push(Tok { kind: OPEN, ty: t, a, m: 0 });
    for c in kids(n) { flat_into(c, out); }
    out.push(Tok { kind: CLOSE, ty: 0, a: 0, m: 0 });
}
pub fn flat_all(ns: &[MarkdownNode]) -> Vec<Tok> { let mut v = Vec::with_capacity(32); for n in ns { flat_into(n, &mut v); } v }
/// content tokens of a node: index = position inside it
pub fn flat(n: &MarkdownNode) -> Vec<Tok> { flat_all(kids(n)) }
pub fn size_of(n: &MarkdownNode) -> usize { if let MarkdownNode::Text(t) = n { t.text.as_str().encode_utf16().count() } else if is_leaf(n) { 1 } else { let mut s = 2; for c in kids(n) { s += size_of(c); } s } }
/// is position p inside a surrogate pair?
pub fn splits_pair(t: &[Tok], p: usize) -> bool { p > 0 && p < t.len() && t[p].kind == UNIT && t[p - 1].kind == UNIT && t[p].a >= 0xDC00 && t[p].a <= 0xDFFF && t[p - 1].a >= 0xD800 && t[p - 1].a <= 0xDBFF }

/// every cached size in the tree agrees with the real size
pub fn sizes_ok(n: &MarkdownNode) -> bool {
    if let MarkdownNode::Text(t) = n { return t.text.len_utf16() == t.text.as_str().encode_utf16().count(); }
    match frag(n) { None => true, Some(f) => { let mut s = 0; for c in f.children() { if !sizes_ok(c) { return false; } s += size_of(c); } f.size() == s } }
}
/// no empty text nodes, no two adjacent text nodes with the same marks, mark sets ordered
pub fn normal(n: &MarkdownNode) -> bool { normal_all(kids(n)) }
pub fn normal_all(ks: &[MarkdownNode]) -> bool {
    let mut prev: Option<u64> = None;
    for c in ks {
        if let MarkdownNode::Text(t) = c { let m = marks_key(&t.marks); if t.text.as_str().is_empty() || prev == Some(m) || !ordered(&t.marks) { return false; } prev = Some(m); } else { prev = None; if !normal(c) { return false; } }
    }
    true
}
pub fn rank(m: &MarkdownMark) -> u8 { match m { MarkdownMark::Strong => 0, MarkdownMark::Em => 1, MarkdownMark::Code => 2, MarkdownMark::Link { .. } => 3 } }
pub fn ordered(s: &MarkSet<MD>) -> bool { let mut last = -1i32; for m in s { let r = rank(m) as i32; if r <= last { return false; } last = r; } true }

// ---- the schema, written down independently: content expressions as two-state automata
/// may a child of type c come in state st (0: nothing yet, 1: something) of a node of type t?
pub fn accepts(t: u8, st: u8, c: u8) -> bool {
    let block = c == P || c == H || c == CODE || c == BQ || c == UL || c == OL || c == HR;
    match t { DOC | BQ => block, LI => if st == 0 { c == P } else { block }, UL | OL => c == LI, P => c == TEXT || c == IMG || c == BR, H => c == TEXT || c == IMG, CODE => c == TEXT, _ => false }
}
pub fn may_end(t: u8, st: u8) -> bool { match t { DOC | BQ | LI | UL | OL => st == 1, _ => true } }
pub fn marks_ok(t: u8, m: u64) -> bool { m == 0 || t == P || t == H }
pub fn valid_children(t: u8, ks: &[MarkdownNode]) -> bool {
    let mut st = 0;
    for c in ks { let k = ty(c); if !accepts(t, st, k) { return false; } st = 1; if let MarkdownNode::Text(x) = c { if !marks_ok(t, marks_key(&x.marks)) { return false; } } }
    may_end(t, st)
}
pub fn valid(n: &MarkdownNode) -> bool { if is_leaf(n) { return true; } if !valid_children(ty(n), kids(n)) { return false; } for c in kids(n) { if !valid(c) { return false; } } true }
/// two node types can be joined when they are the same or share a possible first child
pub fn compatible(a: u8, b: u8) -> bool { if a == b { return true; } let mut c = 0; while c < NTYPES { if accepts(a, 0, c) && accepts(b, 0, c) { return true; } c += 1; } false }
/// is the token sequence a well-nested content of a node of type `root` that satisfies the schema?
pub fn valid_tokens(root: u8, t: &[Tok]) -> bool {
    let mut stack: Vec<(u8, u8)> = Vec::with_capacity(8); stack.push((root, 0));
    for k in t {
        let top = stack.len() - 1;
        if k.kind == CLOSE { let (ty, st) = stack[top]; if top == 0 || !may_end(ty, st) { return false; } stack.pop(); continue; }
        let (pt, st) = stack[top];
        if !accepts(pt, st, k.ty) || (k.kind == UNIT && !marks_ok(pt, k.m)) { return false; }
        stack[top].1 = 1;
        if k.kind == OPEN { stack.push((k.ty, 0)); }
    }
    stack.len() == 1 && may_end(stack[0].0, stack[0].1)
}
/// the types of the nodes that such a sequence gives content they do not allow, as bits
pub fn invalid_types(root: u8, t: &[Tok]) -> u32 {
    let mut stack: Vec<(u8, Option<u8>)> = Vec::with_capacity(8); stack.push((root, Some(0))); let mut bad = 0; let end = |(ty, st): (u8, Option<u8>)| if st.map_or(false, |s| may_end(ty, s)) { 0 } else { 1 << ty };
    for k in t {
        let top = stack.len() - 1;
        if k.kind == CLOSE { if top > 0 { bad |= end(stack[top]); stack.pop(); } continue; }
        let (pt, st) = stack[top]; stack[top].1 = match st { Some(s) if accepts(pt, s, k.ty) && (k.kind != UNIT || marks_ok(pt, k.m)) => Some(1), _ => None };
        if k.kind == OPEN { stack.push((k.ty, Some(0))); }
    }
    bad | end(stack[0])
}
/// the stack of open nodes at position p: (index of the OPEN token) per depth >= 1
pub fn open_path(t: &[Tok], p: usize) -> Vec<usize> { let mut s = Vec::with_capacity(8); for i in 0..p { if t[i].kind == OPEN { s.push(i); } else if t[i].kind == CLOSE { s.pop(); } } s }

// ---- a small notation for documents
/// `p h H c C q u U o O l` open a node `{...}`; `r b i I` are leaves; `'..'` is text, with `* _ \` @ %` marks before it
pub fn build(spec: &str) -> Vec<MarkdownNode> { let b = spec.as_bytes(); let mut i = 0; let r = parse(spec, b, &mut i); if i != b.len() { panic!("bad spec") } r }
fn parse(s: &str, b: &[u8], i: &mut usize) -> Vec<MarkdownNode> {
    let mut out = Vec::with_capacity(4); let mut marks = MarkSet::<MD>::default();
    while *i < b.len() {
        let c = b[*i]; *i += 1;
        match c {
            b'}' => { *i -= 1; break; }
            b'\'' => { let st = *i; while b[*i] != b'\'' { *i += 1; } let t = s[st..*i].to_string(); *i += 1; out.push(text(t, std::mem::take(&mut marks))); }
            b'*' => marks.add(&MarkdownMark::Strong), b'_' => marks.add(&MarkdownMark::Em), b'`' => marks.add(&MarkdownMark::Code), b'@' => marks.add(&link("x", "")), b'%' => marks.add(&link("y", "t")),
            b'r' => out.push(MarkdownNode::HorizontalRule), b'b' => out.push(MarkdownNode::HardBreak), b'i' => out.push(image("s", "", "")), b'I' => out.push(image("t", "a", "z")),
            _ => { *i += 1; let k = Fragment::from(parse(s, b, i)); *i += 1; out.push(elem(c, k)); }
        }
    }
    out
}
pub fn text(t: String, marks: MarkSet<MD>) -> MarkdownNode { MarkdownNode::Text(TextNode { marks, text: Text::from(t) }) }
pub fn link(h: &str, t: &str) -> MarkdownMark { MarkdownMark::Link { attrs: LinkAttrs { href: h.to_string(), title: t.to_string() } } }
pub fn image(s: &str, a: &str, t: &str) -> MarkdownNode { MarkdownNode::Image(Leaf { attrs: ImageAttrs { src: s.to_string(), alt: a.to_string(), title: t.to_string() } }) }
pub fn elem(c: u8, k: Fragment<MD>) -> MarkdownNode {
    match c { b'p' => MarkdownNode::Paragraph(Block { content: k }), b'q' => MarkdownNode::Blockquote(Block { content: k }), b'l' => MarkdownNode::ListItem(Block { content: k }), b'd' => MarkdownNode::Doc(Block { content: k }),
        b'h' => MarkdownNode::Heading(AttrNode { attrs: HeadingAttrs { level: 1 }, content: k }), b'H' => MarkdownNode::Heading(AttrNode { attrs: HeadingAttrs { level: 2 }, content: k }),
        b'c' => MarkdownNode::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: String::new() }, content: k }), b'C' => MarkdownNode::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: "x".to_string() }, content: k }),
        b'u' => MarkdownNode::BulletList(AttrNode { attrs: BulletListAttrs { tight: false }, content: k }), b'U' => MarkdownNode::BulletList(AttrNode { attrs: BulletListAttrs { tight: true }, content: k }),
        b'o' => MarkdownNode::OrderedList(AttrNode { attrs: OrderedListAttrs { order: 1, tight: false }, content: k }), b'O' => MarkdownNode::OrderedList(AttrNode { attrs: OrderedListAttrs { order: 7, tight: true }, content: k }),
        _ => panic!("bad spec") }
}
pub fn doc(spec: &str) -> MarkdownNode { elem(b'd', Fragment::from(build(spec))) }
/// the other direction, for reports
pub fn show(ns: &[MarkdownNode]) -> String { let v: Vec<String> = ns.iter().map(|n| match n { MarkdownNode::Text(t) => format!("{:?}{:?}", t.text.as_str(), &t.marks), n if is_leaf(n) => format!("{:?}", n), n => format!("{:?}[{}]({})", n.r#type(), attr_key(n), show(kids(n))) }).collect(); v.join(" ") }

pub fn eq_toks(a: &[Tok], b: &[Tok]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
/// FNV over the tokens, for the observation log (compared between engine and native run)
pub fn digest(t: &[Tok]) -> u64 { let mut h = 0xcbf29ce484222325u64; for k in t { h = (h ^ (k.kind as u64 | (k.ty as u64) << 8)).wrapping_mul(0x100000001b3); h = (h ^ k.a).wrapping_mul(0x100000001b3); h = (h ^ k.m).wrapping_mul(0x100000001b3); } h }
