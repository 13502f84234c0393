//! Symbolic documents, slices and steps: shapes are chosen by symbolic picks.
use crate::model::*;
use crate::sym::*;
use prosemirror::markdown::*;
use prosemirror::model::*;

/// schema-valid documents, at least one per structural feature
pub const DOCS: &[&str] = &[
    "p{'ab'}p{'cd'}",
    "h{'ab'}p{'c'}",
    "p{'a'*'bc'}",
    "q{p{'ab'}}p{'c'}",
    "u{l{p{'a'}}l{p{'b'}}}",
    "p{'a\u{1F60A}b'}",
    "q{q{p{'a'}}}q{p{'b'}}",
    "p{'a'b'c'i}",
    "rp{'a'}r",
    "c{'ab'}p{*'c'}",
    "u{l{p{'a'}q{p{'b'}}}}",
    "o{l{p{'a'}u{l{p{'b'}}}}}",
    "h{}p{}q{p{}}",
    "q{h{'a'}}u{l{p{'b'}}}",
    "p{'a'_'b'*_'c'@'d'%'e'}",
    "C{'a'}O{l{p{}}}U{l{p{'b'}}}",
    "q{p{'a'}rp{'b'}}",
    "p{iI*'a'b}h{I'x'}",
    "u{l{p{'a'}p{'b'}}l{p{'c'}}}q{p{'d'}}",
    "p{'\u{1F60A}'*'\u{1F60A}\u{e9}'}H{}",
];
/// deeper, wider and longer ones
pub fn big(k: usize) -> MarkdownNode {
    match k {
        0 => doc("q{q{q{u{l{p{'a'}o{l{p{}q{p{'bc'}}}}}}}}}p{'d'}"),
        1 => { let mut v = Vec::new(); for i in 0..22u8 { v.push(elem(if i % 5 == 3 { b'h' } else { b'p' }, Fragment::from(if i % 4 == 1 { vec![] } else { vec![text(((b'a' + i) as char).to_string(), MarkSet::default())] }))); } elem(b'd', Fragment::from(v)) }
        2 => { let mut s = String::new(); for i in 0..300u32 { s.push((b'a' + (i % 26) as u8) as char); } elem(b'd', Fragment::from(vec![elem(b'p', Fragment::from(vec![text(s, MarkSet::default())])), elem(b'p', Fragment::from(vec![text("z".into(), MarkSet::default())]))])) }
        3 => { let mut v = Vec::new(); for i in 0..18u8 { let mut m = MarkSet::default(); if i % 2 == 1 { m.add(&MarkdownMark::Strong); } if i % 3 == 2 { v.push(MarkdownNode::HardBreak); } v.push(text(((b'a' + i) as char).to_string(), m)); } elem(b'd', Fragment::from(vec![elem(b'q', Fragment::from(vec![elem(b'p', Fragment::from(v))]))])) }
        _ => { let mut v = Vec::new(); for i in 0..9u8 { v.push(elem(b'l', Fragment::from(vec![elem(b'p', Fragment::from(vec![text(((b'a' + i) as char).to_string(), MarkSet::default())]))]))); } elem(b'd', Fragment::from(vec![elem(b'u', Fragment::from(v)), elem(b'p', Fragment::from(vec![]))])) }
    }
}
pub const NBIG: usize = 5;

pub fn any_doc() -> MarkdownNode { let k = pick("doc", DOCS.len()); doc(DOCS[k]) }

/// any valid document with at most `budget` non-inline nodes below the root
pub fn gen_doc(mut budget: usize) -> MarkdownNode { elem(b'd', Fragment::from(gen_blocks(&mut budget, true))) }
fn gen_inline(k: usize) -> Vec<MarkdownNode> { match k { 0 => vec![], 1 => build("'ab'"), 2 => build("'a'*'b'"), _ => build("'a'b") } }
fn gen_blocks(budget: &mut usize, _root: bool) -> Vec<MarkdownNode> {
    let mut v = Vec::new();
    loop {
        let must = v.is_empty();
        if *budget == 0 { if must { v.push(elem(b'p', Fragment::new())); } return v; }
        // 0 stop 1 p 2 h 3 hr 4 quote 5 list
        let k = if must { 1 + pick("block", 5) } else { pick("block", 6) };
        if k == 0 { return v; }
        *budget -= 1;
        match k {
            1 => v.push(elem(b'p', Fragment::from(gen_inline(pick("inl", 4))))),
            2 => v.push(elem(b'h', Fragment::from(gen_inline(pick("inl", 2))))),
            3 => v.push(MarkdownNode::HorizontalRule),
            4 => v.push(elem(b'q', Fragment::from(gen_blocks(budget, false)))),
            _ => { let mut li = Vec::new(); loop { let mut c = vec![elem(b'p', Fragment::from(gen_inline(pick("inl", 2))))]; if *budget > 0 && pick("sub", 2) == 1 { c.extend(gen_blocks(budget, false)); } li.push(elem(b'l', Fragment::from(c))); if *budget == 0 || pick("li", 2) == 0 { break; } *budget -= 1; } v.push(elem(b'u', Fragment::from(li))); }
        }
    }
}

/// slice contents whose nodes are valid inside (apart from what opening them leaves out)
pub const SLICES: &[&str] = &[
    "", "'x'", "*'x'", "p{'x'}", "p{'x'}p{'y'}", "q{p{'x'}}", "h{'x'}", "l{p{'x'}}", "u{l{p{'x'}}}", "r", "b", "c{'x'}", "q{p{'x'}}p{'y'}", "p{'x'}q{p{'y'}}", "p{}", "'\u{1F60A}'", "l{p{'x'}}l{p{'y'}}", "i", "p{*'x''y'}r", "q{u{l{p{'x'}}}}", "q{p{'x'}p{'y'}}", "u{l{p{'x'}}}u{l{p{'y'}}}",
    "@'x'", "H{'x'}", "C{'x'}r", "O{l{p{%'x'}}}", "q{q{q{p{'x'}}}}",
];
pub fn any_mark() -> MarkdownMark { match pick("mark", 6) { 0 => MarkdownMark::Strong, 1 => MarkdownMark::Em, 2 => MarkdownMark::Code, 3 => link("x", ""), 4 => link("y", "t"), _ => link("x", "t") } }
