//! C16 reading markdown, C17 writing and reading it back
use crate::gen::*;
use crate::model::*;
use crate::note;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;

// ---- C16
fn check_parse(s: &str) {
    note!("markdown {:?}", s);
    match from_markdown(s) {
        Ok(d) => { cover("read"); note!("document {}", show(kids(&d))); observe(digest(&flat(&d))); said(s, Some(&d)); if ty(&d) != DOC || !valid(&d) { fail("markdown was read into a document that violates the schema") } if !sizes_ok(&d) { fail("a cached size in a document read from markdown is wrong") } if !normal(&d) { fail("markdown was read into text that is not normalised") } }
        Err(_) => { cover("refused"); observe(0); said(s, None) }
    }
}
// what the markdown says, from the parser's events: a tree over tokens
enum Part { Inline(Vec<Tok>), Block(u8, Vec<Tok>) }
struct Open { ty: u8, a: u64, parts: Vec<Part>, img: Option<(String, String, String)> }
fn tok(kind: u8, ty: u8, a: u64, m: u64) -> Tok { Tok { kind, ty, a, m } }
fn put(st: &mut Vec<Open>, t: Vec<Tok>) { let o = st.last_mut().unwrap(); match o.parts.last_mut() { Some(Part::Inline(v)) => v.extend(t), _ => o.parts.push(Part::Inline(t)) } }
/// closes a node: list items start with a paragraph and have their text in paragraphs, documents and quotes are not empty
fn seal(o: Open) -> Vec<Tok> {
    let mut v = vec![tok(OPEN, o.ty, o.a, 0)]; let wrap = |v: &mut Vec<Tok>, t: Vec<Tok>| { v.push(tok(OPEN, P, 0, 0)); v.extend(t); v.push(tok(CLOSE, 0, 0, 0)); };
    if (o.ty == DOC || o.ty == BQ) && o.parts.is_empty() { wrap(&mut v, vec![]); }
    if o.ty == LI && !matches!(o.parts.first(), Some(Part::Inline(_)) | Some(Part::Block(P, _))) { wrap(&mut v, vec![]); }
    for p in o.parts { match p { Part::Block(_, t) => v.extend(t), Part::Inline(t) => if o.ty == LI { wrap(&mut v, t) } else { v.extend(t) } } }
    if o.ty == CODE && v.last().map_or(false, |k| k.kind == UNIT && k.a == 10) { v.pop(); }
    v.push(tok(CLOSE, 0, 0, 0)); v
}
/// None: the markdown has something that the schema cannot express
fn says(s: &str) -> Option<Vec<Tok>> {
    use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
    let node = |ty: u8, a: u64| Open { ty, a, parts: vec![], img: None }; let mut st = vec![node(DOC, 0)]; let mut marks: Vec<u64> = vec![];
    let units = |t: &str, marks: &[u64], code: u64| -> Vec<Tok> { let mut m = code; for b in marks { m |= b; } t.encode_utf16().map(|u| tok(UNIT, TEXT, u as u64, m)).collect() };
    for ev in Parser::new(s) {
        match ev {
            Event::Start(t) => match t {
                Tag::Paragraph => st.push(node(P, 0)), Tag::Heading(l) => st.push(node(H, l as u64)), Tag::BlockQuote => st.push(node(BQ, 0)), Tag::Item => st.push(node(LI, 0)),
                Tag::CodeBlock(k) => st.push(node(CODE, code_key(match &k { CodeBlockKind::Fenced(p) => p, _ => "" }))),
                Tag::List(Some(n)) => st.push(node(OL, n << 1)), Tag::List(None) => st.push(node(UL, 0)),
                Tag::Emphasis => marks.push(2), Tag::Strong => marks.push(1), Tag::Link(_, h, t) => marks.push(link_bits(&h, &t)),
                Tag::Image(_, h, t) => { let mut o = node(IMG, 0); o.img = Some((h.to_string(), String::new(), t.to_string())); st.push(o) }
                _ => return None },
            Event::End(t) => match t {
                Tag::Emphasis | Tag::Strong | Tag::Link(..) => { marks.pop(); }
                Tag::Image(..) => { let (h, a, t) = st.pop().unwrap().img.unwrap(); match &mut st.last_mut().unwrap().img { Some(i) => i.1.push_str(&a), None => { let k = image_key(&h, &a, &t); put(&mut st, vec![tok(LEAF, IMG, k, 0)]) } } }
                _ => { let o = st.pop().unwrap(); let ty = o.ty; let v = seal(o); st.last_mut().unwrap().parts.push(Part::Block(ty, v)) } },
            Event::Text(t) => { if let Some(i) = &mut st.last_mut().unwrap().img { i.1.push_str(&t) } else if !t.is_empty() { let v = units(&t, &marks, 0); put(&mut st, v) } }
            Event::Code(t) => { if let Some(i) = &mut st.last_mut().unwrap().img { i.1.push_str(&t) } else if !t.is_empty() { let v = units(&t, &marks, 4); put(&mut st, v) } }
            Event::HardBreak => { let o = st.last().unwrap(); if o.ty == H { return None; } if o.img.is_none() { put(&mut st, vec![tok(LEAF, BR, 0, 0)]) } }
            Event::Rule => st.last_mut().unwrap().parts.push(Part::Block(HR, vec![tok(LEAF, HR, 0, 0)])),
            _ => return None,
        }
    }
    let mut v = seal(st.pop().unwrap()); v.pop(); v.remove(0); Some(v)
}
fn said(s: &str, d: Option<&MarkdownNode>) {
    match (says(s), d) { (Some(t), Some(d)) => { cover("says"); if !eq_toks(&t, &flat(d)) { fail("markdown was read into a document that does not say the same") } } (Some(_), None) => fail("markdown of supported constructs was refused"), (None, _) => {} }
}
fn ascii(t: &str) -> char { let c = val(t, 127) as u8; c as char }
pub fn h_md_read1() { let mut s = String::new(); s.push(ascii("c0")); check_parse(&s) }
pub fn h_md_read2() { let mut s = String::new(); for t in ["c0", "c1"] { s.push(ascii(t)); } check_parse(&s) }
pub fn h_md_read3() { let mut s = String::new(); for t in ["c0", "c1", "c2"] { s.push(ascii(t)); } check_parse(&s) }
pub fn h_md_read4() { let mut s = String::new(); for t in ["c0", "c1", "c2", "c3"] { s.push(ascii(t)); } check_parse(&s) }
/// markdown of every construct; two arbitrary characters replace one place of it
const TPL: &[&str] = &["- a\n- b\n", "1. a\n2. b", "> a\n> b", "# a\nb", "```x\na\n```\n", "~~~\na\n", "    a\nb", "[a](b \"c\")", "![a](b \"c\")d", "a  \nb", "a\\\nb", "*a **b** c*", "`a` ``b``", "- - a\n\n  b", "a\n===\nb\n---", "***\n___", "[a]: b\n\n[a]", "<a:b>c", "&amp;a", "> - a\n>\n> b", "- # a\n- ```\n  b", "1) a\n\n   b\n2) c", "a\r\nb\tc", "* a\n + b\n   - c", "![*a* ![b](c)](d)", "**a *b* __c__ d**", "[a *b* `c`](d) e", "# a `b` ![c](d)\n", "12. a\n\n    > b\n13. c", "- a\n\n      b\n-\n- > c", "[![a](b)](c \"d\")*e*", "*a*_b_***c***", "\\*a\\ \\\\&#35;b", "> a  \n> b\n> ===", "- a\\\n  b\n  ---"];
fn holes(k: usize, wide: bool) -> String { let t = TPL[k]; let at = pick("at", t.len() + 1); let cut = pick("cut", 2); assume(at + cut <= t.len()); let mut s = String::from(&t[..at]); s.push(ascii("c0")); if wide { s.push(ascii("c1")); } s.push_str(&t[at + cut..]); s }
pub fn h_md_hole() { check_parse(&holes(pick("template", TPL.len()), false)) }
pub fn h_md_again_hole() { again(&holes(pick("template", TPL.len()), false)) }
pub fn h_md_hole2() { check_parse(&holes(pick("template", TPL.len()), true)) }
pub fn h_md_char() { let k = pick("template", TPL.len()); assume(k != 16); let t = TPL[k]; let at = pick("at", t.len() + 1); let mut s = String::from(&t[..at]); uchar(&mut s); s.push_str(&t[at..]); check_parse(&s) }
/// lines put together from what starts a line and what a line can hold
fn line_mix(n: usize, pre: &[&str], what: &[&str]) -> String { let mut s = String::new(); for i in 0..n { let p = pick(["p0", "p1", "p2", "p3"][i], pre.len()); let w = pick(["w0", "w1", "w2", "w3"][i], what.len()); s.push_str(pre[p]); if what[w] == "a" { s.push(alnum(["t0", "t1", "t2", "t3"][i])) } else { s.push_str(what[w]) } if i + 1 < n { s.push('\n'); } } s }
fn lines2() -> String { line_mix(2, &["", "- ", "  ", "> ", "    ", "1. ", "  - ", "> - ", "   ", "+ ", "- > ", "7) ", "- 1. "], &["a", "# b", "", "```", "***", "`c` *d*", "===", "e  ", "f\\", "![g](h)", "~~~ i", "## [j](k 'l') #", "\tm"]) }
fn lines3() -> String { line_mix(3, &["", "- ", "  ", "> ", "1. ", "> - "], &["a", "# b", "", "```", "*c*  "]) }
fn lines4() -> String { line_mix(4, &["- ", "  ", "  > ", ""], &["a", "# b", "", "```"]) }
pub fn h_md_lines2() { check_parse(&lines2()) }
pub fn h_md_again_lines2() { again(&lines2()) }
pub fn h_md_lines3() { check_parse(&lines3()) }
pub fn h_md_again_lines3() { again(&lines3()) }
pub fn h_md_lines4() { check_parse(&lines4()) }
pub fn h_md_again_lines4() { again(&lines4()) }
/// letters with what may mark them in between
fn inlines(n: usize) -> String { const T: &[&str] = &["", " *", "*", "* ", "**", " _", "_", "`", " [", "](x)", "](y 'z') ", "![", " **", "** ", "\\*", "  \n", "<x:y>"]; let mut s = String::new(); for i in 0..n { let t = pick(["i0", "i1", "i2", "i3", "i4", "i5"][i], T.len()); s.push_str(T[t]); if i == 0 { s.push(alnum("t0")) } else if i + 1 < n { s.push(['a', 'b', 'c', 'd', 'e'][i]); } } s }
pub fn h_md_inlines4() { check_parse(&inlines(4)) }
pub fn h_md_again_inlines4() { again(&inlines(4)) }
pub fn h_md_inlines5() { check_parse(&inlines(5)) }
/// the recorded finding about emphasis
pub fn h_md_emphasis() { let mut s = String::from(["**", "*"][pick("outer", 2)]); s.push(alnum("t0")); s.push_str("*b  \n"); s.push_str(["c", "**c", "x*c*y"][pick("next", 3)]); s.push_str("*d"); if pick("end", 2) == 0 { s.push_str("**") } again(&s) }
pub fn h_md_again_inlines5() { again(&inlines(5)) }
/// any character outside ASCII, by its UTF-8 bytes
fn uchar(s: &mut String) {
    let n = 2 + pick("bytes", 3); let mut v = Vec::with_capacity(4);
    let b0 = val("b0", 0x2f) as u8; let b1 = 0x80 + val("b1", 0x3f) as u8;
    match n { 2 => { assume(b0 <= 0xDF - 0xC2); v.push(0xC2 + b0); v.push(b1); }
        3 => { assume(b0 <= 15); assume(b0 != 0 || b1 >= 0xA0); assume(b0 != 13 || b1 <= 0x9F); v.push(0xE0 + b0); v.push(b1); }
        _ => { assume(b0 <= 4); assume(b0 != 0 || b1 >= 0x90); assume(b0 != 4 || b1 <= 0x8F); v.push(0xF0 + b0); v.push(b1); } }
    if n > 2 { v.push(0x80 + val("b2", 0x3f) as u8); } if n > 3 { v.push(0x80 + val("b3", 0x3f) as u8); }
    s.push_str(unsafe { std::str::from_utf8_unchecked(&v) })
}

// ---- documents that markdown can express
/// an ASCII letter or digit
fn alnum(t: &str) -> char { let c = 0x30 + val(t, 0x7a - 0x30) as u8; assume(c <= 0x39 || (c >= 0x41 && c <= 0x5a) || c >= 0x61); c as char }
/// replaces the letter of each text node by an arbitrary one
fn vary(ns: Vec<MarkdownNode>, n: &mut usize) -> Vec<MarkdownNode> {
    let mut out = Vec::with_capacity(ns.len());
    for x in ns { out.push(if let MarkdownNode::Text(t) = &x { let mut s = String::new(); for c in t.text.as_str().chars() { if c.is_ascii_alphabetic() && *n < 4 { s.push(alnum(["t0", "t1", "t2", "t3"][*n])); *n += 1; } else { s.push(c); } } text(s, t.marks.clone()) } else { x }); }
    out
}
const INL: &[&str] = &["'a'", "'a '*'b'", "'a '_'b'' c'", "'a'i", "I'a'", "`'a'' b'", "'a '@'b'' c'", "'a '%'b'", "'a '*_'b'' c'", "*'a '*_'b'*' c'", "_'a '*_'b'_' c'", "@'a '@*'b'", "'a'*'b''c'", "*'a'", "_'a'", "'a '*`'b'", "i'a'I", "*'a'' '_'b'", "`'a'", "@'a'%'b'", "%`'a'", "I", "@'a '@_'b'@' c'", "*_'a'", "*@'a'", "'a b'", "'ab'",
    // not in headings from here
    "'a'b'b'", "'a '*'b'b'c'", "*'a'b*'b'", "ib'a'bI", "'a'b`'b'", "@'a'b'b'", "'a'b_'b'b'c'"];
const NHEAD: usize = 27;
fn order(n: usize) -> OrderedListAttrs { OrderedListAttrs { order: n, tight: false } }
fn one(n: MarkdownNode) -> Fragment<MD> { Fragment::from(vec![n]) }
fn para(k: Vec<MarkdownNode>) -> MarkdownNode { elem(b'p', Fragment::from(k)) }
fn word(n: &mut usize) -> Vec<MarkdownNode> { vary(build("'a'"), n) }
/// one block that holds the inline content
fn inl_doc() -> MarkdownNode {
    let k = pick("inline", INL.len()); let n = &mut 0; let c = vary(build(INL[k]), n);
    let b = match pick("holder", 6) {
        0 => vec![para(c)],
        1 => { assume(k < NHEAD); vec![MarkdownNode::Heading(AttrNode { attrs: HeadingAttrs { level: 1 + pick("level", 6) as u8 }, content: Fragment::from(c) })] }
        2 => vec![elem(b'q', one(para(c)))],
        3 => vec![elem(b'u', one(elem(b'l', one(para(c)))))],
        4 => vec![MarkdownNode::OrderedList(AttrNode { attrs: order(1), content: one(elem(b'l', Fragment::from(vec![para(word(n)), elem(b'q', one(para(c)))]))) })],
        _ => vec![para(c), para(build("'x'")), elem(b'c', Fragment::from(build("'y'")))],
    };
    elem(b'd', Fragment::from(b))
}
fn md_blocks(budget: &mut usize, n: &mut usize, must: bool) -> Vec<MarkdownNode> {
    let mut v: Vec<MarkdownNode> = Vec::new();
    loop {
        let must = must && v.is_empty();
        if *budget == 0 { if must { v.push(para(word(n))); } return v; }
        let k = if must { 1 + pick("block", 7) } else { pick("block", 8) };
        if k == 0 { return v; }
        *budget -= 1;
        match k {
            1 => v.push(para(word(n))),
            2 => v.push(MarkdownNode::Heading(AttrNode { attrs: HeadingAttrs { level: 1 + pick("level", 2) as u8 }, content: Fragment::from(if pick("empty", 2) == 1 { vec![] } else { word(n) }) })),
            3 => v.push(MarkdownNode::HorizontalRule),
            4 => v.push(MarkdownNode::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: if pick("params", 2) == 1 { "x".into() } else { String::new() }, }, content: Fragment::from(match pick("code", 3) { 0 => vec![], 1 => word(n), _ => build("'a\nb'") }) })),
            5 => v.push(elem(b'q', Fragment::from(md_blocks(budget, n, true)))),
            k => {
                // two lists of one kind in a row are one list in markdown
                if let Some(l) = v.last() { assume(ty(l) != if k == 6 { UL } else { OL }); }
                let mut li = Vec::new();
                loop { let mut c = vec![para(word(n))]; c.extend(md_blocks(budget, n, false)); li.push(elem(b'l', Fragment::from(c))); if *budget == 0 || pick("more", 2) == 0 { break; } *budget -= 1; }
                v.push(if k == 6 { elem(b'u', Fragment::from(li)) } else { MarkdownNode::OrderedList(AttrNode { attrs: order(1), content: Fragment::from(li) }) });
            }
        }
    }
}
fn md_doc(mut budget: usize) -> MarkdownNode { elem(b'd', Fragment::from(md_blocks(&mut budget, &mut 0, true))) }

/// the standard notation of a document, line by line
fn write_block(n: &MarkdownNode, out: &mut Vec<String>) {
    match n {
        MarkdownNode::HorizontalRule => out.push("***".into()),
        MarkdownNode::CodeBlock(c) => { out.push(format!("~~~{}", c.attrs.params)); if !kids(n).is_empty() { if let MarkdownNode::Text(t) = &kids(n)[0] { for l in t.text.as_str().split('\n') { out.push(l.to_string()); } } } out.push("~~~".into()); }
        MarkdownNode::Paragraph(_) | MarkdownNode::Heading(_) => { let mut s = String::new(); if let MarkdownNode::Heading(h) = n { for _ in 0..h.attrs.level { s.push('#'); } s.push(' '); } write_inline(kids(n), &mut s, out); out.push(s); }
        MarkdownNode::Blockquote(_) => for l in lines(kids(n)) { out.push(format!("> {}", l)); },
        _ => { let mut i = if let MarkdownNode::OrderedList(l) = n { l.attrs.order } else { 0 }; let mut first = true; for item in kids(n) { if !first { out.push(String::new()); } first = false; let mark = if ty(n) == UL { "* ".to_string() } else { i += 1; format!("{}) ", i - 1) }; let pad = " ".repeat(mark.len());
            let mut f = true; for l in lines(kids(item)) { out.push(if f { format!("{}{}", mark, l) } else if l.is_empty() { l } else { format!("{}{}", pad, l) }); f = false; } } }
    }
}
fn lines(ns: &[MarkdownNode]) -> Vec<String> { let mut v = Vec::new(); let mut first = true; for n in ns { if !first { v.push(String::new()); } first = false; write_block(n, &mut v); } v }
fn write_inline(ns: &[MarkdownNode], s: &mut String, out: &mut Vec<String>) {
    let mut open: Vec<MarkdownMark> = Vec::new();
    for n in ns {
        let none = MarkSet::<MD>::default(); let marks = if let MarkdownNode::Text(t) = n { &t.marks } else { &none };
        while open.iter().any(|m| !(marks).into_iter().any(|x| x == m)) { let m = open.pop().unwrap(); close(&m, s); }
        for m in marks { if *m != MarkdownMark::Code && !open.contains(m) && matches!(m, MarkdownMark::Link { .. }) { s.push('['); open.push(m.clone()); } }
        for m in marks { if *m != MarkdownMark::Code && !open.contains(m) { s.push_str(match m { MarkdownMark::Strong => "**", MarkdownMark::Em => "*", _ => "[" }); open.push(m.clone()); } }
        match n { MarkdownNode::Text(t) => { let code = marks.into_iter().any(|m| *m == MarkdownMark::Code); if code { s.push_str("``"); } if code { s.push_str(t.text.as_str()); s.push_str("``"); } else { escape(t.text.as_str(), s); } }
            MarkdownNode::HardBreak => { s.push('\\'); out.push(std::mem::take(s)); }
            MarkdownNode::Image(i) => { s.push_str("!["); escape(&i.attrs.alt, s); s.push_str(&format!("](<{}> '{}')", i.attrs.src, i.attrs.title)) } _ => {} }
    }
    while let Some(m) = open.pop() { close(&m, s); }
}
fn escape(t: &str, s: &mut String) { let b = t.as_bytes(); let mut v = Vec::with_capacity(2 * b.len()); for c in b { if c.is_ascii_punctuation() { v.push(b'\\'); } v.push(*c); } s.push_str(unsafe { std::str::from_utf8_unchecked(&v) }) }
fn close(m: &MarkdownMark, s: &mut String) { match m { MarkdownMark::Strong => s.push_str("**"), MarkdownMark::Em => s.push('*'), MarkdownMark::Link { attrs } => s.push_str(&format!("](<{}> '{}')", attrs.href, attrs.title)), _ => {} } }
pub fn check_read(d: &MarkdownNode) {
    let mut s = String::new(); for l in lines(kids(d)) { s.push_str(&l); s.push('\n'); }
    note!("document {}", show(kids(d))); note!("markdown {:?}", s);
    match from_markdown(&s) { Ok(r) => { cover("read"); note!("read as {}", show(kids(&r))); observe(digest(&flat(&r))); if !eq_toks(&flat(&r), &flat(d)) || r != *d { fail("a document was not read from its markdown notation") } } Err(e) => { note!("error {:?}", e); fail("markdown of a supported document was refused") } }
}
/// the pairs of asterisks in a paragraph: as the CommonMark rules say, or as pulldown-cmark 0.7.2 finds them, which
/// forgets to forget from where on it need not search for an opening one, and takes what is left of an opening run for one of the kind of the closing run
fn pairs(s: &[u8], old: bool) -> Vec<(usize, usize, usize)> {
    let (mut out, mut st, mut low) = (Vec::new(), Vec::<(usize, usize, usize, bool)>::new(), [0usize; 4]); let mut i = 0;
    let punct = |c: u8| c.is_ascii_punctuation(); let space = |c: u8| c == b' ' || c == b'\n';
    while i < s.len() {
        if s[i] == b'\\' { i += 2; continue; }
        if s[i] == b'`' { let mut n = 0; while i < s.len() && s[i] == b'`' { i += 1; n += 1; } let mut j = i; while j < s.len() { let mut m = 0; while j < s.len() && s[j] == b'`' { j += 1; m += 1; } if m == n { i = j; break; } if m == 0 { j += 1; } } continue; }
        if s[i] != b'*' { i += 1; continue; }
        let at = i; while i < s.len() && s[i] == b'*' { i += 1; } let full = i - at; let (p, n) = (if at == 0 { b' ' } else { s[at - 1] }, if i == s.len() { b' ' } else { s[i] });
        let open = !space(n) && (!punct(n) || space(p) || punct(p)); let shut = !space(p) && (!punct(p) || space(n) || punct(n)); let both = open && shut; let mut count = full;
        while shut && count > 0 {
            let c = if old { count } else { full }; let b = if !old { 0 } else if both { low[c % 3] } else { low[c % 3].min(low[3]) }.min(st.len());
            match (b..st.len()).rev().find(|k| { let e = st[*k]; let l = if old { e.1 } else { e.2 }; !both && !e.3 || (c + l) % 3 != 0 || c % 3 == 0 }) {
                Some(k) => { let e = st[k]; st.truncate(k); let m = count.min(e.1); out.push((e.0, at, m)); if e.1 > m { st.push((e.0, e.1 - m, e.2, if old { both } else { e.3 })); } count -= m; }
                None => { low[c % 3] = st.len(); if !both { low[3] = st.len(); } break; }
            }
        }
        if count > 0 && open { st.push((at, count, full, both)); }
    }
    out
}
fn misread(s: &str) -> bool { s.split("\n\n").any(|p| pairs(p.as_bytes(), false) != pairs(p.as_bytes(), true)) }
pub fn check_round(d: &MarkdownNode) {
    note!("document {}", show(kids(d)));
    let s = match to_markdown(d) { Ok(s) => s, Err(_) => fail("a document could not be written as markdown") };
    note!("markdown {:?}", s);
    match from_markdown(&s) { Ok(r) => { cover("read back"); note!("read as {}", show(kids(&r))); observe(digest(&flat(&r))); if !eq_toks(&flat(&r), &flat(d)) || r != *d { if misread(&s) { cover("known: emphasis-bounds"); return; } fail("a document written to markdown is read back differently") } } Err(e) => { note!("error {:?}", e); fail("a document written to markdown could not be read back") } }
}
/// What markdown has no notation for
fn expressible(d: &MarkdownNode) -> bool {
    let blank = |c: Option<&u8>| c.map_or(false, |c| *c == b' ' || *c < 32);
    match d {
        MarkdownNode::Text(t) => { let b = t.text.as_str().as_bytes(); !b.iter().any(|c| *c == b'\r' || *c == b'\n') && !((&t.marks).into_iter().next().is_some() && (blank(b.first()) || blank(b.last()))) }
        MarkdownNode::CodeBlock(c) => { let p = c.attrs.params.as_bytes(); !p.iter().any(|c| *c == b'`' || *c == b'\r') && !blank(p.first()) && !blank(p.last()) && kids(d).iter().all(|t| match t { MarkdownNode::Text(t) => !t.text.as_str().as_bytes().contains(&b'\r'), _ => true }) }
        n => {
            let k = kids(n); let bare = |n: &MarkdownNode| ty(n) == P && kids(n).is_empty();
            for i in 0..k.len() {
                if i + 1 < k.len() && ty(&k[i]) == ty(&k[i + 1]) && (ty(n) == DOC || ty(n) == BQ || ty(n) == LI) && (ty(&k[i]) == UL || ty(&k[i]) == OL) { return false; }
                if bare(&k[i]) && k.len() > 1 && !(ty(n) == LI && i == 0 && ty(&k[1]) != P) { return false; }
                if ty(n) == LI && ty(&k[i]) == BQ && kids(&k[i]).iter().all(bare) { return false; }
                if ty(&k[i]) == BR && (i == 0 || i + 1 == k.len()) { return false; }
                if !expressible(&k[i]) { return false; }
            }
            // code in a link at the start of a paragraph that looks like the end of a link definition
            for c in k { let (mut lk, mut cd) = (false, false); if let MarkdownNode::Text(t) = c { for m in &t.marks { lk |= matches!(m, MarkdownMark::Link { .. }); cd |= *m == MarkdownMark::Code; } if cd && lk && t.text.as_str().contains("]:") { return false; } } if !lk { break; } }
            // emphasis next to other text only starts and ends at words
            let soft = |n: &MarkdownNode, last: bool| match n { MarkdownNode::Text(t) => { let b = t.text.as_str().as_bytes(); let e = if last { b[b.len() - 1] } else { b[0] }; let m: Vec<&MarkdownMark> = (&t.marks).into_iter().collect(); m.iter().any(|m| matches!(m, MarkdownMark::Em | MarkdownMark::Strong)) && (!e.is_ascii_alphanumeric() || m.iter().any(|m| matches!(m, MarkdownMark::Code | MarkdownMark::Link { .. }))) } _ => false };
            for i in 1..k.len() { if soft(&k[i - 1], true) && ty(&k[i]) != BR || soft(&k[i], false) && ty(&k[i - 1]) != BR { return false; } }
            if ty(n) == P || ty(n) == H { for (i, c) in k.iter().enumerate() { if let MarkdownNode::Text(t) = c { let b = t.text.as_str().as_bytes(); if (i == 0 || ty(&k[i - 1]) == BR) && blank(b.first()) || (i + 1 == k.len() || ty(&k[i + 1]) == BR) && blank(b.last()) { return false; } } } }
            true
        }
    }
}
/// a document read from markdown, written and read again
fn again(s: &str) { note!("text {:?}", s); if let Ok(d) = from_markdown(s) { if expressible(&d) { check_round(&d) } else { cover("inexpressible") } } }
pub fn h_md_notation() { check_read(&inl_doc()) }
pub fn h_md_notation_gen() { check_read(&md_doc(3)) }
pub fn h_md_round() { check_round(&inl_doc()) }
pub fn h_md_round_gen() { check_round(&md_doc(3)) }
pub fn h_md_round_gen4() { check_round(&md_doc(4)) }
pub fn h_md_notation_gen4() { check_read(&md_doc(4)) }

/// a word with an arbitrary character inside that markdown can hold there
fn mid(n: usize, code: bool, link: bool) -> String {
    let mut s = String::from("a");
    if n == 0 { uchar(&mut s); } else { let c = val("m0", 0x7e) as u8; assume(c >= 0x20); let _ = (code, link); s.push(c as char); }
    s.push('b'); s
}
fn doc_of(v: Vec<MarkdownNode>) -> MarkdownNode { elem(b'd', Fragment::from(v)) }
fn marked(t: &str, ms: &[MarkdownMark]) -> MarkdownNode { let mut s = MarkSet::default(); for m in ms { s.add(m); } text(t.to_string(), s) }
/// characters of all kinds inside words: plain, marked, inline code, link, alternative text
fn char_doc() -> MarkdownNode {
    let n = pick("kind", 2);
    match pick("where", 9) {
        0 => doc_of(vec![para(vec![marked(&mid(n, false, false), &[])])]),
        1 => doc_of(vec![para(vec![marked("x ", &[]), marked(&mid(n, false, false), &[MarkdownMark::Strong]), marked(" y", &[])])]),
        2 => doc_of(vec![para(vec![marked(&mid(n, false, false), &[MarkdownMark::Em])])]),
        3 => doc_of(vec![para(vec![marked(&mid(n, true, false), &[MarkdownMark::Code])])]),
        4 => doc_of(vec![para(vec![marked(&mid(n, false, true), &[link("x", "t")])])]),
        5 => doc_of(vec![elem(b'h', Fragment::from(vec![marked(&mid(n, false, false), &[])]))]),
        6 => doc_of(vec![elem(b'u', one(elem(b'l', one(para(vec![marked(&mid(n, false, false), &[])])))))]),
        7 => doc_of(vec![elem(b'q', one(para(vec![marked(&mid(n, false, false), &[])])))]),
        _ => doc_of(vec![para(vec![image("s", &mid(n, false, true), "")])]),
    }
}
/// attributes: addresses, titles, code block info and list numbers
fn attr_doc() -> MarkdownNode {
    let w = |t: &str| { let mut s = String::from("p"); s.push(alnum(t)); s }; let opt = |t: &str| { let mut s = String::new(); if pick("given", 2) == 1 { s.push(alnum(t)); s.push_str(" q"); } s };
    match pick("where", 6) {
        0 => doc_of(vec![para(vec![marked("a", &[link(&w("h"), &opt("t"))]), marked(" b", &[])])]),
        1 => doc_of(vec![para(vec![image(&w("h"), &opt("a"), &opt("t"))])]),
        2 => doc_of(vec![MarkdownNode::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: opt("p") }, content: Fragment::from(build("'a'")) })]),
        3 | 4 => { const N: [usize; 10] = [0, 1, 2, 9, 10, 42, 99, 100, 12345, 999999990]; let mut li = vec![elem(b'l', Fragment::from(build("p{'a'}q{p{'b'}}")))]; if pick("items", 2) == 1 { li.push(elem(b'l', Fragment::from(build("p{'c'}p{'d'}")))); } doc_of(vec![MarkdownNode::OrderedList(AttrNode { attrs: order(N[pick("order", N.len())]), content: Fragment::from(li) }), elem(b'p', Fragment::from(build("'e'")))]) }
        _ => doc_of(vec![para(vec![marked("a", &[link("x", "")]), marked("b", &[link(&w("h"), "")]), marked("c", &[link(&w("i"), "t")])])]),
    }
}
fn printable(t: &str) -> char { let c = val(t, 0x7e) as u8; assume(c >= 0x20); c as char }
/// code blocks: any printable characters, several lines
fn code_doc() -> MarkdownNode {
    let mut s = String::new(); 
    match pick("lines", 5) { 0 => { s.push(printable("c0")); s.push(printable("c1")); } 1 => { s.push(printable("c0")); s.push('\n'); s.push(printable("c1")); } 2 => { s.push(printable("c0")); s.push_str("\n\n"); s.push(printable("c1")); } 3 => { s.push_str("a\n  "); s.push(printable("c0")); s.push_str("\nb"); } _ => { s.push_str("a\n"); s.push(printable("c0")); s.push('\n'); } }
    let c = MarkdownNode::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: String::new() }, content: one(marked(&s, &[])) });
    match pick("holder", 4) { 0 => doc_of(vec![c]), 1 => doc_of(vec![elem(b'p', Fragment::from(build("'a'"))), c, MarkdownNode::HorizontalRule]), 2 => doc_of(vec![elem(b'q', one(c))]), _ => doc_of(vec![elem(b'u', one(elem(b'l', Fragment::from(vec![elem(b'p', Fragment::from(build("'a'"))), c]))))]) }
}
/// empty blocks
const EMPTY: &[&str] = &["p{}", "q{p{}}", "u{l{p{}}}", "o{l{p{}}}", "u{l{p{}}l{p{'a'}}}", "u{l{p{'a'}}l{p{}}}", "q{p{}}p{'a'}", "h{}", "c{}", "q{h{}}r", "q{c{}}q{p{'a'}}", "u{l{p{}}}p{'a'}", "q{q{p{}}}"];
pub fn h_md_round_char() { check_round(&char_doc()) }
/// addresses and titles of arbitrary printable characters
fn href_doc() -> MarkdownNode {
    let mut w = String::new(); match pick("around", 3) { 0 => { w.push(printable("c0")); } 1 => { w.push('a'); w.push(printable("c0")); w.push('b'); w.push(printable("c1")); w.push(';'); } _ => { w.push(printable("c0")); w.push(printable("c1")); } }
    let (h, t) = match pick("which", 3) { 0 => (w.as_str(), ""), 1 => ("h", w.as_str()), _ => (w.as_str(), "t") };
    if pick("image", 2) == 1 { doc_of(vec![para(vec![image(h, "x", t), marked("y", &[])])]) } else { doc_of(vec![para(vec![marked("x", &[link(h, t)]), marked("y", &[])])]) }
}
pub fn h_md_round_href() { check_round(&href_doc()) }
pub fn h_md_round_attr() { check_round(&attr_doc()) }
pub fn h_md_round_code() { check_round(&code_doc()) }
/// large documents
const LONG: &[&str] = &["q{q{q{u{l{p{'a'}o{l{p{'b'}q{p{'cd'}}}}}}}}}p{'e'}", "u{l{p{'a'}}l{p{'b'}}l{p{'c'}}l{p{'d'}}l{p{'e'}}l{p{'f'}}l{p{'g'}}l{p{'h'}}l{p{'i'}}l{p{'j'}}l{p{'k'}}}p{'z'}", "o{l{p{'a'}}l{p{'b'}}l{p{'c'}}l{p{'d'}}l{p{'e'}}l{p{'f'}}l{p{'g'}}l{p{'h'}}l{p{'i'}}l{p{'j'}q{p{'x'}r}}l{p{'k'}p{'y'}}}p{'z'}",
    "u{l{p{'a'}u{l{p{'b'}u{l{p{'c'}u{l{p{'d'}u{l{p{'e'}u{l{p{'f'}}}}}}}}}}}}}", "h{'a'}p{'b'}q{p{'c'}}c{'d'}rp{'e'}u{l{p{'f'}}}o{l{p{'g'}}}H{'h'}q{u{l{p{'i'}c{'j'}}}}p{'k'}q{q{p{'l'}}p{'m'}}r", "p{'a '*'b'' c '_'d'' e '`'f'' g '@'h'' i '*_'j'' k '%'l'' m'b'n'i'o '*@'p'' q'}", "p{'The quick brown fox jumps over the lazy dog. Then it rests, for a while; and the dog looks on (bored). What else is there to say about this? Nothing: the end of the story is near and the page is almost full of words'}"];
fn long_doc() -> MarkdownNode { let s = LONG[pick("long", LONG.len())]; let mut t = String::new(); let i = s.as_bytes().windows(2).position(|w| w == b"'a").map_or(0, |i| i + 1); if i > 0 { t.push_str(&s[..i]); t.push(alnum("t0")); t.push_str(&s[i + 1..]) } else { t.push_str(s) } doc(&t) }
pub fn h_md_round_long() { check_round(&long_doc()) }
pub fn h_md_notation_long() { check_read(&long_doc()) }
pub fn h_md_round_empty() { check_round(&doc(EMPTY[pick("doc", EMPTY.len())])) }
pub fn h_md_notation_char() { check_read(&char_doc()) }
pub fn h_md_notation_code() { check_read(&code_doc()) }
/// whole texts of arbitrary printable characters
fn text_doc(n: usize) -> MarkdownNode {
    let mut s = String::new(); for i in 0..n { s.push(printable(["c0", "c1", "c2", "c3"][i])); }
    { let b = s.as_bytes(); assume(b[0] != b' ' && b[n - 1] != b' '); }
    let c = vec![marked(&s, &[])];
    match pick("holder", 3) { 0 => doc_of(vec![para(c)]), 1 => doc_of(vec![elem(b'h', Fragment::from(c))]), _ => doc_of(vec![elem(b'u', one(elem(b'l', one(para(c)))))]) }
}
/// whole texts of arbitrary printable characters beside, inside and between other inline nodes
fn place_doc(n: usize) -> MarkdownNode {
    let mut s = String::new(); for i in 0..n { s.push(printable(["c0", "c1", "c2"][i])); }
    use MarkdownMark::{Code, Em, Strong}; let t = |m: &[MarkdownMark]| marked(&s, m); let l = || link("u", ""); let x = |m: &[MarkdownMark]| marked("x", m);
    let c = match pick("place", 20) {
        0 => vec![x(&[]), MarkdownNode::HardBreak, t(&[])], 1 => vec![t(&[]), MarkdownNode::HardBreak, x(&[])], 2 => vec![t(&[Strong])], 3 => vec![t(&[Em])], 4 => vec![t(&[l()])], 5 => vec![t(&[]), x(&[l()])], 6 => vec![x(&[l()]), t(&[])], 7 => vec![image("u", &s, "")],
        8 => vec![t(&[Code])], 9 => vec![x(&[]), t(&[Code]), marked("y", &[])], 10 => vec![x(&[Strong]), t(&[])], 11 => vec![t(&[]), x(&[Strong])], 12 => vec![t(&[]), image("u", "", "")], 13 => vec![image("u", "a", ""), t(&[])], 14 => vec![t(&[l()]), x(&[Strong, l()])], 15 => vec![x(&[l(), Em]), t(&[l()])], 16 => vec![t(&[]), x(&[Code])], 17 => vec![x(&[Code]), t(&[])], 18 => vec![t(&[l(), Code])], _ => vec![t(&[Em]), MarkdownNode::HardBreak, x(&[l()]), MarkdownNode::HardBreak, t(&[])],
    };
    let d = match pick("in", 3) { 0 => doc_of(vec![para(c)]), 1 => doc_of(vec![elem(b'q', one(para(c)))]), _ => { assume(!c.iter().any(|c| ty(c) == BR)); doc_of(vec![elem(b'h', Fragment::from(c))]) } };
    assume(expressible(&d)); d
}
pub fn h_md_round_place() { check_round(&place_doc(2)) }
pub fn h_md_round_place3() { check_round(&place_doc(3)) }
pub fn h_md_round_text4() { check_round(&text_doc(4)) }
/// what looks like an entity
fn entity_doc() -> MarkdownNode { let mut s = String::from("a&"); s.push(printable("c0")); s.push(printable("c1")); s.push(';'); doc_of(vec![para(vec![marked(&s, &[])])]) }
pub fn h_md_round_entity() { check_round(&entity_doc()) }
pub fn h_md_round_text1() { check_round(&text_doc(1)) }
pub fn h_md_round_text2() { check_round(&text_doc(2)) }
pub fn h_md_round_text3() { check_round(&text_doc(3)) }
pub fn h_md_notation_text() { check_read(&text_doc(2)) }
pub fn h_md_notation_attr() { check_read(&attr_doc()) }
