//! Property harness: each `h_*` function takes symbolic inputs, runs the real code and asserts a
//! property of it against the reference model.
#![allow(clippy::all)]
pub mod sym;
pub mod model;
pub mod gen;
pub mod p_pos;
pub mod p_replace;
pub mod p_step;
pub mod p_frag;
pub mod p_schema;
pub mod p_md;
pub mod p_json;
pub mod p_more;
pub mod p_toy;
pub mod p_huge;

macro_rules! entries { ($($m:ident :: $f:ident),* $(,)?) => {
    pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f as fn())),*];
    #[cfg(feature = "bitcode")] mod ex { $(#[no_mangle] pub extern "C" fn $f() { crate::$m::$f() })* }
} }
entries! { p_huge::h_huge_around, p_huge::h_huge_content, p_huge::h_huge_cut, p_huge::h_huge_eq, p_huge::h_huge_insert, p_huge::h_huge_inverse, p_huge::h_huge_json, p_huge::h_huge_mark, p_huge::h_huge_md, p_huge::h_huge_normal, p_huge::h_huge_notation, p_huge::h_huge_replace, p_huge::h_huge_resolve, p_huge::h_huge_sizes, p_huge::h_huge_slice, p_huge::h_huge_structure, p_huge::h_huge_text, p_huge::h_huge_units, p_huge::h_huge_unmark, p_huge::h_huge_valid, p_huge::h_huge_walk,
  p_toy::h_toy_replace, p_toy::h_toy_mark, p_toy::h_toy_around, p_toy::h_toy_resolve, p_toy::h_toy_content, p_toy::h_toy_json, p_toy::h_toy_text, p_toy::h_toy_any_replace, p_toy::h_toy_any_replace_more, p_toy::h_toy_gen_replace, p_toy::h_toy_gen_replace4, p_toy::h_toy_gen_mark, p_toy::h_toy_gen_mark3, p_toy::h_toy_gen_replace3, p_toy::h_toy_gen_around, p_toy::h_toy_gen_around3, p_toy::h_toy_any_mark, p_toy::h_toy_any_around, p_toy::h_toy_any_content, p_toy::h_toy_replace_wide, p_toy::h_toy_around_wide,
  p_more::h_eq_gen, p_more::h_eq_docs, p_more::h_eq_attrs, p_more::h_eq_slices, p_more::h_eq_steps, p_more::h_copy, p_more::h_build, p_more::h_peer, p_more::h_history2, p_more::h_history3, p_more::h_history_json, p_more::h_history4, p_more::h_history3_wide,
  p_pos::h_resolve, p_pos::h_resolve_gen, p_pos::h_resolve_gen3, p_pos::h_resolve_big, p_pos::h_resolve_any,
  p_replace::h_replace, p_replace::h_replace_gen, p_replace::h_replace_how, p_replace::h_replace_gen3, p_replace::h_inverse_gen, p_replace::h_inverse_big, p_replace::h_replace_marks, p_replace::h_paste, p_replace::h_delete, p_replace::h_replace_big, p_replace::h_replace_wide, p_replace::h_inverse, p_replace::h_reinsert, p_replace::h_step_valid_some, p_replace::h_step_normal_some, p_replace::h_step_valid_gen1, p_replace::h_step_valid, p_replace::h_step_valid_gen, p_replace::h_step_normal,
  p_step::h_add_mark, p_step::h_remove_mark, p_step::h_add_mark_sets, p_step::h_remove_mark_sets, p_step::h_add_mark_big, p_step::h_remove_mark_big, p_step::h_add_mark_two, p_step::h_remove_mark_two, p_step::h_structure, p_step::h_structure_gen, p_step::h_structure_big, p_step::h_around_big, p_step::h_structure_off, p_step::h_around, p_step::h_around_all, p_step::h_around_gen, p_step::h_step_total, p_step::h_step_total_more, p_step::h_slice_total, p_step::h_replace_total,
  p_frag::h_sizes, p_frag::h_append, p_frag::h_replace_child, p_frag::h_size_chars, p_frag::h_cut, p_frag::h_cut_gen, p_frag::h_cut_how, p_frag::h_cut_text, p_frag::h_slice, p_frag::h_slice_gen, p_frag::h_slice_how, p_frag::h_slice_reversed, p_frag::h_slice_sub, p_frag::h_cut_big, p_frag::h_text, p_frag::h_text_gen, p_frag::h_text_big, p_frag::h_text_content, p_frag::h_text_chars, p_frag::h_walk, p_frag::h_walk_gen, p_frag::h_walk_any, p_frag::h_walk_big,
  p_schema::h_marks, p_schema::h_marks4, p_schema::h_marks_eq, p_schema::h_marks_list, p_schema::h_text_len, p_schema::h_text_join, p_schema::h_text_split, p_schema::h_text_split4, p_schema::h_text_pos, p_schema::h_content, p_schema::h_content_range, p_schema::h_content_long, p_schema::h_text_long, p_schema::h_can_replace, p_schema::h_type, p_schema::h_compatible,
  p_md::h_md_read1, p_md::h_md_read2, p_md::h_md_read3, p_md::h_md_read4, p_md::h_md_hole, p_md::h_md_hole2, p_md::h_md_char, p_md::h_md_notation, p_md::h_md_notation_gen, p_md::h_md_notation_gen4, p_md::h_md_round, p_md::h_md_round_gen, p_md::h_md_round_gen4, p_md::h_md_round_char, p_md::h_md_round_attr, p_md::h_md_round_href, p_md::h_md_round_code, p_md::h_md_round_empty, p_md::h_md_round_long, p_md::h_md_notation_long, p_md::h_md_notation_char, p_md::h_md_notation_code, p_md::h_md_round_text1, p_md::h_md_round_text2, p_md::h_md_round_text3, p_md::h_md_round_text4, p_md::h_md_round_place, p_md::h_md_round_place3, p_md::h_md_lines2, p_md::h_md_again_lines2, p_md::h_md_again_lines3, p_md::h_md_again_lines4, p_md::h_md_again_inlines4, p_md::h_md_again_inlines5, p_md::h_md_emphasis, p_md::h_md_again_hole, p_md::h_md_lines3, p_md::h_md_lines4, p_md::h_md_inlines4, p_md::h_md_inlines5, p_md::h_md_round_entity, p_md::h_md_notation_text, p_md::h_md_notation_attr,
  p_json::h_json_round, p_json::h_json_round_gen, p_json::h_json_round_big, p_json::h_json_read, p_json::h_json_read_gen, p_json::h_json_read_big, p_json::h_json_how, p_json::h_json_step_how, p_json::h_json_read_gen3, p_json::h_json_written, p_json::h_json_written_gen, p_json::h_json_chars, p_json::h_json_attrs, p_json::h_json_slice, p_json::h_json_step, p_json::h_json_step_big, p_json::h_json_hole, p_json::h_json_hole_step, p_json::h_json_marks }
