"""The properties, the entries that decide them and the bounds. gen.py writes properties.jsonl and MANIFEST.json from this."""

TESTS = 'The 30 tests run fixed documents with fixed positions. '
DOCS20 = '20 template documents (paragraphs, headings, code blocks, nested quotes, tight and loose bullet and ordered lists, rules, images, hard breaks, empty blocks, all four mark types, characters outside the BMP)'
GEN = lambda n: 'every schema-valid document with up to %d block nodes below the root whose inline content is one of four shapes' % n
BIG = '5 large documents (8 levels deep, 22 siblings, 300 characters of text, 18 marked inline nodes, 9 list items)'
HUGE = '4 documents past every narrow integer (65 600 characters of text, 270 levels, 300 blocks, 301 inline nodes) at positions around 0, 256, 768, 65 536 and the end'
SL = '27 slice contents'

def anchors(files, mech, observe=None, state=None):
    return {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in (state or [])], 'hook_needed': None}

PROPS = {}
def prop(id, title, statement, over, quant, why, anc, quick, thorough, bounds, assumptions=(), note=''):
    assert len(title) <= 80, title
    if any('h_huge' in (e if isinstance(e, str) else e[0]) for e in quick): bounds = bounds.rstrip('.') + '; ' + HUGE + '.'
    PROPS[id] = dict(title=title, statement=statement, quantifier={'over': over, 'text': quant}, why=TESTS + why, anchors=anc, quick=quick, thorough=thorough, bounds=bounds, assumptions=list(assumptions), note=note)

prop('C01', 'A position resolves to exactly the place it denotes in the document',
     'Resolving a position succeeds exactly for the positions from 0 to the size of the document\'s content that do not fall between the two halves of a surrogate pair, and fails with an error for every other number. A resolved position reports the ancestors around it, and for each depth the child index, the index after it, where the node\'s content starts and ends and the positions before and after the node, all as given by counting one per node boundary or leaf and one per UTF-16 unit of text. The text offset, the nodes directly before and after the position and the depth shared with another position agree with the same count.',
     ['inputs'], 'Every document, every position (any machine integer) and every second position.',
     'Tests resolve the positions of one document.',
     anchors(['src/model/resolved_pos.rs', 'src/model/util.rs', 'src/model/fragment.rs'], [('resolving: descends by child offset', 'src/model/resolved_pos.rs ResolvedPos::resolve'), ('index of a position in a fragment', 'src/model/fragment.rs find_index'), ('accessors per depth', 'src/model/resolved_pos.rs node/index/index_after/start/end/before/after/text_offset/node_before/node_after/shared_depth')], ['Node::resolve', 'ResolvedPos accessors']),
     [('h_resolve', dict(cover=['inside text', 'out of range'])), 'h_resolve_gen', 'h_resolve_gen3', 'h_resolve_any', ('h_resolve_big', dict(frontier=70)), ('h_huge_resolve', dict(frontier=24))], [],
     DOCS20 + ' and ' + GEN(3) + ': every position up to two past the end and every second position; ' + BIG + ': every position; every 64-bit position on ten roots, leaves included.')

prop('C02', 'Node and fragment sizes are the sum of their parts, in UTF-16 units',
     'The size of a node is 2 plus the sizes of its children, 1 for a leaf, and the number of UTF-16 code units for text; the size of a fragment is the sum of the sizes of its nodes. This holds for every node that is built, appended to, copied with other content or has a child replaced. Child counts, child access by index, first and last child, and the classification of nodes as leaf, text, block or inline agree with the tree, and appending joins the last and the first node exactly when both are text with equal marks, losing nothing.',
     ['inputs'], 'Every document, every fragment and every text.',
     'One test sums the size of one document.',
     anchors(['src/model/fragment.rs', 'src/model/node.rs', 'src/markdown/mod.rs'], [('cached fragment size', 'src/model/fragment.rs Fragment::from, append, replace_child, cut'), ('cached UTF-16 length', 'src/model/node.rs Text::from, join'), ('node size', 'src/model/node.rs Node::node_size, content_size')], ['node_size', 'Fragment::size', 'child accessors'], [('Fragment.size', 'sum of child sizes', 'src/model/fragment.rs'), ('Text.len_utf16', 'length of the text in UTF-16', 'src/model/node.rs')]),
     ['h_sizes', ('h_append', dict(cover=['joined', 'appended'])), 'h_replace_child', 'h_size_chars', 'h_huge_sizes'], [],
     DOCS20 + ' and ' + GEN(3) + '; all pairs of 16 fragments for appending and replacing a child; texts of three arbitrary Unicode characters.')

prop('C03', 'Cutting and slicing return exactly the requested part of a document',
     'Cutting a node, fragment or text to a range keeps exactly what lies in the range, inside copies of the nodes that the range enters, with correct sizes and with the markup of the node kept. A slice of a range holds the same content and its open depths are the numbers of nodes that the range cuts through on the left and on the right below the innermost node that holds both ends (or below the root, when parents are requested); an empty range gives the empty slice. All ways to write a range (half-open, inclusive, from, to, full) that denote the same positions give the same result.',
     ['inputs'], 'Every document, every range of positions between characters, every way to write the range.',
     'A few tests use slices of fixed ranges as input to replace.',
     anchors(['src/model/fragment.rs', 'src/model/node.rs', 'src/model/util.rs'], [('cut of a fragment', 'src/model/fragment.rs Fragment::cut'), ('cut and slice of a node', 'src/model/node.rs Node::cut, Node::slice'), ('range bounds', 'src/model/util.rs from, to'), ('splitting text at a UTF-16 index', 'src/model/util.rs split_at_utf16')], ['Fragment::cut', 'Node::cut', 'Node::slice']),
     ['h_cut', 'h_cut_gen', ('h_cut_how', {}), 'h_cut_text', ('h_slice', dict(cover=['empty', 'sliced'])), 'h_slice_gen', 'h_slice_how', ('h_slice_reversed', dict(cover=['reversed', 'too long'])), 'h_slice_sub', ('h_cut_big', {}), ('h_huge_cut', dict(frontier=24)), ('h_huge_slice', dict(frontier=24))], [],
     DOCS20 + ' and ' + GEN(3) + ': every range; five ways to write a range; ' + BIG + ': ranges starting in the first 60 positions and up to 30 long; text nodes and elements other than the document as roots.')

prop('C04', 'Replacing a range splices exactly the slice in, or is refused with a reason',
     'Replacing a range by a slice yields the content before the range, then the slice\'s content without its open boundaries, then the content after it, with correct sizes. It succeeds exactly when the slice is consistent with its open depths, fits the depths of both ends, all nodes joined at the seams can be joined, and the resulting document is valid at the replaced place; otherwise it is refused with an error. A slice that opens deeper than the position is reported as inserted too deep and one whose sides do not meet at the same depth as inconsistent open depths.',
     ['inputs'], 'Every valid document, every range and every slice with any open depths.',
     'Tests replace about twenty fixed ranges.',
     anchors(['src/model/replace.rs', 'src/model/fragment.rs', 'src/model/schema.rs'], [('replace', 'src/model/replace.rs replace, replace_outer'), ('three way and two way join', 'src/model/replace.rs replace_three_way, replace_two_way'), ('joinability', 'src/model/replace.rs check_join, joinable'), ('preparing an open slice', 'src/model/replace.rs prepare_slice_for_replace'), ('content check on close', 'src/model/replace.rs close')], ['Node::replace']),
     [('h_replace', dict(cover=['replaced', 'open on both sides', 'too deep', 'inconsistent', 'cannot join', 'invalid'])), 'h_replace_gen', ('h_replace_how', dict(cover=['replaced', 'out of range'])), 'h_delete', 'h_replace_big', 'h_replace_wide', 'h_replace_marks', 'h_paste', ('h_huge_replace', dict(frontier=24)), 'h_huge_insert'], ['h_replace_gen3'],
     DOCS20 + ' and ' + GEN(2) + ' (deletion: 3; thorough: insertion of 8 slices into documents with 3) with ' + SL + ' and open depths 0..3 on each side: every range; ' + BIG + ' with ranges up to 4 long in the first 40 positions; wide slices with up to 22 nodes; 8 documents dense with marks and slices of marked text; slices cut out of one document put at every place of another.')

prop('C05', 'A step turns a valid document into a valid document or an error',
     'Applying any step (replace, replace around, add mark, remove mark) to a document that satisfies the schema gives either an error or a document that satisfies the schema: every node has an allowed sequence of children and only allowed marks. The nodes a step\'s slice brings along complete, untouched by the step, are taken to be valid themselves.',
     ['inputs', 'histories'], 'Every valid document, every step; by induction every history of steps.',
     'Two tests apply one step each.',
     anchors(['src/transform/mod.rs', 'src/transform/replace_step.rs', 'src/transform/mark_step.rs', 'src/model/replace.rs'], [('step dispatch', 'src/transform/mod.rs Step::apply'), ('content check when a node is rebuilt', 'src/model/replace.rs close'), ('marks only where the parent allows them', 'src/transform/mark_step.rs AddMarkStep::apply'), ('gap fitted into the slice', 'src/model/replace.rs insert_at, insert_into')], ['Step::apply']),
     [('h_step_valid_some', dict(cover=['applied', 'refused'])), 'h_step_valid_gen1', ('h_huge_valid', dict(frontier=24))], ['h_step_valid', 'h_step_valid_gen'],
     'Quick: 8 template documents and every valid document with one block; thorough: ' + DOCS20 + ' and ' + GEN(2) + '. Replace steps with ' + SL + ', open depths 0..3, every range, both values of the structure flag; replace-around steps with 10 slices, every from, gap and to, open depths 0..2 and insert 0..4; mark steps with 6 marks on every range.',
     ['The complete nodes inside the slice of a step are schema-valid.'])
PROPS['C05']['quick_only'] = ['h_step_valid_some']

prop('C06', 'Adding a mark adds it to exactly the text it may mark in the range',
     'An add-mark step over a valid range leaves the document\'s structure and text as they are and adds the mark to exactly the text in the range whose parent allows marks, replacing a mark of the same type there; marks elsewhere stay. Text parts that end up adjacent with equal marks become one text node. Ranges that are reversed, outside the document or in the middle of a character are refused.',
     ['inputs'], 'Every document, every range and every mark.',
     'One test applies one add-mark step.',
     anchors(['src/transform/mark_step.rs', 'src/model/marks.rs', 'src/model/fragment.rs'], [('mapping the marks of inline nodes', 'src/transform/mark_step.rs map_fragment, AddMarkStep::apply'), ('adding to a set', 'src/model/marks.rs Mark::add_to_set, MarkSet::add')], ['AddMarkStep::apply']),
     [('h_add_mark', dict(cover=['applied', 'changed', 'refused'])), 'h_add_mark_two', 'h_add_mark_big', ('h_huge_mark', dict(frontier=24))], ['h_add_mark_sets'],
     DOCS20 + ' and 8 documents dense with marks, 6 marks, every range up to one past the end; two (thorough: three) runs of text with each of 12 mark sets; ' + BIG + ' with ranges up to 6 long in the first 45 positions.')

prop('C07', 'Removing a mark removes exactly that mark from the text in the range',
     'A remove-mark step over a valid range leaves the document\'s structure and text as they are and removes the mark, compared with its attributes, from exactly the text in the range; a mark of the same type with other attributes, other marks, and marks outside the range stay. Text parts that end up adjacent with equal marks become one text node. Ranges that are reversed, outside the document or in the middle of a character are refused.',
     ['inputs'], 'Every document, every range and every mark.',
     'No test applies a remove-mark step.',
     anchors(['src/transform/mark_step.rs', 'src/model/marks.rs', 'src/model/fragment.rs'], [('mapping the marks of inline nodes', 'src/transform/mark_step.rs map_fragment, RemoveMarkStep::apply'), ('removing from a set', 'src/model/marks.rs Mark::remove_from_set, MarkSet::remove')], ['RemoveMarkStep::apply']),
     [('h_remove_mark', dict(cover=['applied', 'changed', 'refused'])), 'h_remove_mark_two', 'h_remove_mark_big', ('h_huge_unmark', dict(frontier=24))], ['h_remove_mark_sets'],
     'As C06.')

prop('C08', 'Mark sets hold at most one mark per type in rank order, as sets',
     'A mark set holds at most one mark per type, ordered by type: adding a mark replaces one of its type and keeps the others, adding it again changes nothing, and removing a mark removes it only if that very mark (attributes included) is in the set. The in-place and the copying operations agree and the copying ones leave their argument alone; membership and equality depend only on the marks in the set, not on how it came about. A list of marks is accepted as a set exactly when no two have the same type.',
     ['inputs', 'histories'], 'Every mark set built by any sequence of operations, every mark.',
     'Mark sets are only used incidentally in tests.',
     anchors(['src/model/marks.rs', 'src/markdown/mod.rs'], [('set operations by binary search on the type', 'src/model/marks.rs MarkSet::contains, add, remove'), ('copy on write operations', 'src/model/marks.rs Mark::add_to_set, remove_from_set'), ('list conversion', 'src/model/marks.rs TryFrom<Vec>')], ['MarkSet', 'Mark']),
     ['h_marks', 'h_marks_eq', ('h_marks_list', dict(cover=['set', 'duplicates']))], ['h_marks4'],
     'Sets built by up to three additions (thorough: four additions and removals) of six marks (strong, em, code, three links) in any order, then each operation with each mark; lists of up to three marks.')

prop('C09', 'A structural step never overwrites content',
     'A replace step flagged as structural is refused as overwriting exactly when its range covers anything besides node ends followed by node starts (text, a leaf or a whole node); otherwise it does what the same replacement without the flag does. Without the flag a replace step is the same as replacing the range.',
     ['inputs'], 'Every valid document, range and slice.',
     'No test sets the flag with content in the range.',
     anchors(['src/transform/replace_step.rs'], [('scan of the range', 'src/transform/replace_step.rs content_between'), ('replace step', 'src/transform/replace_step.rs ReplaceStep::apply')], ['ReplaceStep::apply']),
     [('h_structure', dict(cover=['applied', 'would overwrite'])), 'h_structure_gen', 'h_structure_off', ('h_structure_big', dict(frontier=60)), ('h_huge_structure', dict(frontier=24))], [],
     DOCS20 + ' with ' + SL + ' and open depths 0..2, every range; ' + GEN(3) + ' and ' + BIG + ' for deletions.')

prop('C10', 'A replace-around step keeps the gap and replaces only what is around it',
     'A replace-around step that is applied yields the document with the range replaced by the slice into which the content of the gap has been inserted at the stated place, unchanged. It is refused as not flat exactly when the gap cuts through a node, as overwriting only when it is flagged structural and content lies in the range around the gap, and otherwise when the gap or the slice does not fit; a step that fits is applied. The result satisfies the schema if the complete nodes of the slice do.',
     ['inputs'], 'Every valid document, range, gap, slice and insertion place.',
     'No test applies a replace-around step.',
     anchors(['src/transform/replace_step.rs', 'src/model/replace.rs'], [('step', 'src/transform/replace_step.rs ReplaceAroundStep::apply'), ('inserting the gap into the slice', 'src/model/replace.rs Slice::insert_at, insert_into'), ('content check of the insertion', 'src/model/node.rs can_replace')], ['ReplaceAroundStep::apply']),
     [('h_around', dict(cover=['applied', 'structural', 'not flat', 'gap would overwrite', 'gap does not fit'])), 'h_around_big', ('h_huge_around', dict(frontier=24))], ['h_around_all', ('h_around_gen', dict(time=3000))],
     'Quick: 5 template documents with 8 slices, and ' + BIG + ' with 4 slices and ranges starting in the first 40 positions; thorough: 9 with 10 slices, then ' + GEN(2) + ' with 6 slices until the time runs out. Every from, gap and to, open depths 0..2, insert 0..5, both values of the structure flag.',
     ['The complete nodes inside the slice of a step are schema-valid (for the validity part only).'])

prop('C11', 'Applying a step or slicing never panics, whatever the numbers in it',
     'Applying any step, replacing any range and taking any slice returns a document, a slice or an error for every combination of positions, in every form a range can be written in, open depths and insertion offsets, including reversed, out-of-range, mid-character and huge ones; it never panics, overflows or fails to return. A slice outside the document or with reversed ends is an error.',
     ['inputs'], 'Every document, every step with arbitrary machine integers in place of its numbers (as a client may send).',
     'Tests use positions that exist.',
     anchors(['src/model/replace.rs', 'src/transform/replace_step.rs', 'src/transform/mark_step.rs', 'src/model/resolved_pos.rs', 'src/model/node.rs'], [('range checks', 'src/model/resolved_pos.rs ResolvedPos::resolve'), ('open depth checks', 'src/model/replace.rs has_open_depths, replace'), ('gap checks', 'src/model/replace.rs insert_at')], ['Step::apply', 'Node::slice']),
     [('h_step_total', dict(cover=['applied', 'refused'])), ('h_slice_total', dict(cover=['sliced', 'refused'])), ('h_replace_total', dict(cover=['replaced', 'refused']))], ['h_step_total_more'],
     '8 roots (5 documents, the empty document, a leaf, a text) with each kind of step; every number in the step is an arbitrary 64-bit value; 6 slice contents; slices and replacements of ranges of arbitrary 64-bit numbers written in four forms in 20 documents (thorough: 20 documents and 22 slice contents). Stack depth and allocation size are not modelled.')

prop('C12', 'Text positions and lengths count UTF-16 code units for any characters',
     'The length of a text and of a text node is its number of UTF-16 code units; making, joining and cutting text keeps exactly the characters, and a cut at positions between characters gives exactly the characters between them. In a document the positions accepted and the ranges that can be replaced are exactly those between characters, and replacing there splices the string at the corresponding place.',
     ['inputs'], 'Every string of characters, every position.',
     'Tests use one emoji at fixed positions.',
     anchors(['src/model/node.rs', 'src/model/util.rs', 'src/model/resolved_pos.rs'], [('UTF-16 length', 'src/model/node.rs Text::from, Text::join'), ('UTF-16 to byte index', 'src/model/util.rs split_at_utf16, is_boundary_utf16')], ['Text::len_utf16', 'Node::cut', 'Node::resolve', 'Node::replace']),
     ['h_text_len', 'h_text_join', 'h_text_split', ('h_text_pos', dict(cover=['replaced'])), 'h_text_long', 'h_huge_units'], ['h_text_split4'],
     'Strings of up to three (thorough: four) characters, each an arbitrary Unicode scalar value; every pair of positions; strings of 40 characters with an arbitrary one at four places.')

prop('C13', 'Content expressions accept exactly the schema\'s child sequences',
     'Which children a node type accepts, after which it may end, and which marks it allows is exactly the markdown schema: documents and quotes one or more blocks, list items a paragraph then blocks, lists one or more list items, paragraphs text, images and hard breaks, headings text and images, code blocks unmarked text, marks only in paragraphs and headings. Matching a whole sequence of children, any part of it, one more type, or asking whether children of a node can be replaced by a part of a fragment all agree with this.',
     ['inputs'], 'Every node type, every sequence of children, every index range.',
     'Only indirect: the tests\' documents are valid, and one replacement is rejected.',
     anchors(['src/markdown/content.rs', 'src/markdown/schema.rs', 'src/model/node.rs', 'src/model/content.rs'], [('content match automaton', 'src/markdown/content.rs match_type, match_fragment_range, valid_end'), ('validity and marks per type', 'src/markdown/schema.rs valid_content, allow_marks, content_match'), ('replacing children', 'src/model/node.rs can_replace, content_match_at')], ['NodeType', 'ContentMatch', 'Node::can_replace']),
     [('h_content', dict(cover=['matches', 'does not match'])), 'h_content_range', ('h_can_replace', dict(cover=['can', 'cannot', 'invalid before'])), 'h_type', 'h_content_long', 'h_huge_content'], [],
     'All 12 node types with all sequences of up to three of 13 kinds of children; sequences of a run of up to four of one kind, a run of up to four of another and one more; all parts of sequences of two; 14 holders with replacements of up to two of 13 kinds of children at every index range; all types with 7 mark sets.')

prop('C14', 'Two node types can be joined exactly when their content can start alike',
     'Two node types have compatible content exactly when they are the same type or some type of child may come first in both; the relation is symmetric.',
     ['inputs'], 'Every pair of node types.',
     'Tests join three pairs of types.',
     anchors(['src/markdown/content.rs', 'src/markdown/schema.rs'], [('compatibility of content expressions', 'src/markdown/content.rs MarkdownContentMatch::compatible'), ('per type', 'src/markdown/schema.rs compatible_content')], ['NodeType::compatible_content']),
     [('h_compatible', dict(cover=['compatible', 'not compatible']))], [],
     'All 144 pairs: complete.')

prop('C15', 'JSON of documents, slices and steps is read and written without loss',
     'Writing any document, slice or step as JSON and reading it back gives an equal value with correct sizes. JSON in the form ProseMirror uses is read as the document, slice or step it denotes, whatever the order of the fields, the blanks and escapes, and whether optional fields are left out, null or given their default; what is written denotes the same as what ProseMirror writes. Any other input is refused or read consistently but never panics; a list of marks that repeats a type is refused and any other is read as the set in rank order.',
     ['inputs'], 'Every document, slice and step and every style of writing its JSON; arbitrary characters in strings and arbitrary damage to JSON.',
     'Tests read two fixed documents and two fixed steps.',
     anchors(['src/markdown/mod.rs', 'src/markdown/attrs.rs', 'src/model/fragment.rs', 'src/model/marks.rs', 'src/model/node.rs', 'src/de.rs', 'src/transform/mod.rs', 'src/transform/replace_step.rs', 'src/transform/mark_step.rs'], [('reading and writing nodes', 'src/markdown/mod.rs MarkdownNode (serde tags), src/model/fragment.rs Serialize, Deserialize'), ('defaults of attributes', 'src/markdown/attrs.rs, src/de.rs'), ('mark sets', 'src/model/marks.rs Deserialize'), ('steps', 'src/transform/mod.rs Step, src/transform/replace_step.rs, mark_step.rs')], ['serde_json::from_str', 'serde_json::to_string']),
     ['h_json_round', 'h_json_round_gen', 'h_json_round_big', 'h_json_read', 'h_json_read_gen', 'h_json_written', 'h_json_written_gen', ('h_json_slice', dict(cover=['read', 'written'])), ('h_json_marks', dict(cover=['duplicates', 'set'])), 'h_json_attrs', 'h_json_chars', 'h_json_read_big', 'h_json_how', 'h_json_step_how', ('h_json_step', dict(cover=['read', 'written'])), ('h_json_step_big', dict(frontier=40)), ('h_json_hole', dict(cover=['read', 'refused'], frontier=60)), ('h_json_hole_step', dict(cover=['read', 'refused'], frontier=60)), 'h_huge_json'], ['h_json_read_gen3'],
     DOCS20 + ' and ' + GEN(3) + ' (reading in five styles: 2; thorough: 3) and ' + BIG + ' (both ways); read and written as text, bytes, stream and value, compact, spaced and escaped; strings with an arbitrary character in seven places; numbers up to 150 and at the ends of 16, 32, 53, 63 and 64 bits; slices and steps of every kind with one varying number; up to three marks in any order; an arbitrary ASCII character inserted or replaced anywhere in nine texts.')

prop('C16', 'Any markdown is read into a valid document that says what it says',
     'Reading any text as markdown gives either an error or a document that satisfies the schema, has correct sizes and normalised text; it never panics. Markdown made of constructs that the schema has, in whichever of the equivalent notations, is read as the document with exactly the structure, text, marks and attributes that it says.',
     ['inputs'], 'Every markdown text; every document and its notation.',
     'Tests read one text.',
     anchors(['src/markdown/from_markdown.rs'], [('parser events to nodes', 'src/markdown/from_markdown.rs MarkdownDeserializer::deserialize'), ('text and marks', 'src/markdown/from_markdown.rs add_text, add_content'), ('paragraphs that the schema needs', 'src/markdown/from_markdown.rs fill_blocks, fill_list_item')], ['from_markdown']),
     ['h_md_read1', 'h_md_read2', ('h_md_read3', dict(cover=['read', 'refused', 'says'])), 'h_md_read4', ('h_md_hole', dict(cover=['read', 'refused', 'says'])), ('h_md_char', dict(frontier=60)), 'h_md_notation', 'h_md_notation_gen', 'h_md_notation_char', 'h_md_notation_code', 'h_md_notation_text', 'h_md_notation_attr', 'h_md_notation_long', ('h_md_lines2', dict(cover=['says'])), ('h_md_lines3', dict(cover=['says'])), ('h_md_inlines4', dict(cover=['says'])), 'h_huge_notation'], ['h_md_lines4', 'h_md_inlines5', 'h_md_hole2', 'h_md_notation_gen4'],
     'All texts of up to four ASCII characters; one (thorough: two) arbitrary ASCII characters, or an arbitrary other Unicode character, at every place of 35 texts that use every construct, all texts of two or three lines from a set of lines that open, continue and interrupt every block, and all runs of four pieces of inline notation (thorough: four lines, five pieces); each compared with what the events of the markdown parser (pulldown-cmark, trusted) say; notation (with other markers than the crate writes) of every document with up to 3 (thorough: 4) blocks, of 34 inline contents in 6 holders, of arbitrary characters in words, code and alternative texts, of 7 larger documents.',
     ['Raw HTML and what the schema cannot express may be refused.'])

prop('C17', 'A document written as markdown is read back as the same document',
     'Writing a document that markdown can express as markdown and reading the result gives an equal document: the same blocks, text, marks, addresses, titles, alternative texts, levels, list numbers and code block languages, whatever characters the text contains. Writing never fails or panics.',
     ['inputs', 'histories'], 'Every document markdown can express.',
     'Tests write two fixed documents and compare the text.',
     anchors(['src/markdown/to_markdown.rs', 'src/markdown/from_markdown.rs'], [('nodes to events', 'src/markdown/to_markdown.rs MarkdownSerializer::next, process_attr_node'), ('marks opened and closed', 'src/markdown/to_markdown.rs mark_tag, MarkdownSerializer::next'), ('escaping', 'src/markdown/to_markdown.rs push_text'), ('reading', 'src/markdown/from_markdown.rs deserialize')], ['to_markdown', 'from_markdown']),
     ['h_md_round', ('h_md_round_gen', dict(cover=['read back'])), 'h_md_round_char', 'h_md_round_attr', 'h_md_round_code', 'h_md_round_empty', 'h_md_round_text1', 'h_md_round_text2', 'h_md_round_text3', 'h_md_emphasis', ('h_md_round_place', dict(cover=['read back'])), ('h_md_round_entity', dict(frontier=60)), 'h_md_round_long', 'h_md_round_href', ('h_md_again_lines2', dict(cover=['read back'])), ('h_md_again_lines3', dict(cover=['read back'])), ('h_md_again_inlines4', dict(cover=['read back'])), ('h_md_again_hole', dict(cover=['read back'])), 'h_huge_md'], ['h_md_again_lines4', 'h_md_again_inlines5', 'h_md_round_gen4', 'h_md_round_text4', 'h_md_round_place3'],
     'Documents with up to 3 (thorough: 4) blocks, 34 inline contents in 6 holders, empty blocks, attributes with an arbitrary letter or digit, ten list numbers, texts of one to three (thorough: four) arbitrary printable ASCII characters, two (thorough: three) of them in 20 places beside, inside and between links, code, emphasis, images and hard breaks, words with any Unicode character, code blocks with any printable characters on several lines, addresses and titles with up to two arbitrary printable characters, 7 larger documents; and every document that reading one of the following markdown texts gives and that markdown can express: two or three (thorough: four) mixed lines, four (thorough: five) mixed pieces of inline notation, one arbitrary character at every place of 35 texts.',
     ['Markdown cannot express and the property leaves out: adjacent lists of one type, tight lists, empty paragraphs beside other blocks (except the one a list item needs at its start), emphasis that starts or ends with punctuation directly next to other text, backticks in code block languages, spaces at the ends of texts, list numbers above 999999999, hard breaks at the ends of a paragraph or in headings, code in a link at the start of a paragraph that contains "]:".'])

prop('C18', 'Extracted text is exactly the text of the range, in order',
     'The text content of a node is the concatenation of all its text. The text between two positions is the text in the range in document order, with the leaf text for each leaf in the range if one is given, and with the separator before the content of a block exactly where text or a leaf came before it since the last separator.',
     ['inputs'], 'Every document, range, separator and leaf text.',
     'No test extracts text.',
     anchors(['src/model/fragment.rs', 'src/model/node.rs'], [('text between', 'src/model/fragment.rs Fragment::text_between'), ('text content', 'src/model/node.rs Node::text_content')], ['Fragment::text_between', 'Node::text_content']),
     [('h_text', {}), 'h_text_gen', 'h_text_content', 'h_text_chars', 'h_text_big', ('h_huge_text', dict(frontier=24))], [],
     DOCS20 + ' and ' + GEN(2) + ', every range, four separators (none, empty, one and two characters), three leaf texts, both initial states; two arbitrary characters; ' + BIG + ' with ranges up to 20 long in the first 60 positions.')

prop('C19', 'Traversal visits exactly the nodes that overlap the range, in order',
     'Visiting the nodes between two positions calls back once for every node that overlaps the range, in document order, parents before children, with the position of the node, and skips the descendants of a node for which the callback says so; nothing else is visited.',
     ['inputs'], 'Every document, every range (any machine integers) and every choice of where not to descend.',
     'No test traverses.',
     anchors(['src/model/fragment.rs'], [('traversal', 'src/model/fragment.rs Fragment::nodes_between')], ['Fragment::nodes_between']),
     [('h_walk', dict(cover=['visited', 'none'])), 'h_walk_gen', 'h_walk_any', ('h_walk_big', {}), 'h_huge_walk'], [],
     DOCS20 + ' and ' + GEN(3) + ' and ' + BIG + ': every range; any base position up to 1000; one node at which not to descend; arbitrary 64-bit ends on the templates.')

prop('C20', 'Steps leave text normalised: joined, non-empty, marks in order',
     'After any step on a normalised document no two adjacent text nodes have the same marks, no text node is empty and every mark set is in rank order. Thus documents with the same content compare equal whichever steps led to them.',
     ['inputs', 'histories'], 'Every normalised document, every step; by induction every history.',
     'The tests compare a few results of replace with expected documents.',
     anchors(['src/model/replace.rs', 'src/model/fragment.rs', 'src/transform/mark_step.rs'], [('joining text when adding a node', 'src/model/replace.rs add_node'), ('joining text when appending', 'src/model/fragment.rs Fragment::append'), ('joining text after a mark step', 'src/transform/mark_step.rs map_fragment')], ['Step::apply', 'PartialEq']),
     [('h_step_normal_some', dict(cover=['applied'])), ('h_huge_normal', dict(frontier=24))], ['h_step_normal'],
     'Quick: 8 template documents; thorough: ' + DOCS20 + '; steps as in C05.')
PROPS['C20']['quick_only'] = ['h_step_normal_some']

prop('C21', 'A replacement can be undone with the slice it removed',
     'Replacing a range and then replacing what was inserted by the slice that the range held before restores an equal document. Replacing a range of a document by its own slice changes nothing.',
     ['inputs', 'histories'], 'Every valid document, range and slice that fits.',
     'No test undoes a replacement.',
     anchors(['src/model/replace.rs', 'src/model/node.rs'], [('slice', 'src/model/node.rs Node::slice'), ('replace', 'src/model/replace.rs replace')], ['Node::slice', 'Node::replace']),
     [('h_inverse', dict(cover=['applied'])), ('h_reinsert', dict(cover=['ok'])), ('h_inverse_big', dict(frontier=60)), ('h_huge_inverse', dict(frontier=24))], ['h_inverse_gen'],
     DOCS20 + ' with ' + SL + ' and open depths 0..3, every range (thorough: also ' + GEN(2) + '); reinsertion also on ' + GEN(2) + '.')

prop('C22', 'Values are equal exactly when their content is; copies and constructors keep it',
     'Two nodes, slices or steps compare equal exactly when they have the same types, attributes, marks, text, children and numbers. A copy with other content keeps type and attributes, marking text keeps the text, and a node or fragment built from parts (constructors, conversions, helpers) has exactly those parts and the right size.',
     ['inputs'], 'Every pair of documents, attributes, slices and steps; every content copied into every kind of node.',
     'Tests compare expected and actual documents and so rely on equality without testing that it tells things apart.',
     anchors(['src/model/schema.rs', 'src/model/fragment.rs', 'src/model/node.rs', 'src/model/replace.rs', 'src/markdown/mod.rs', 'src/markdown/helper.rs'], [('equality', 'src/model/fragment.rs Fragment PartialEq; src/model/schema.rs TextNode, AttrNode, Block, Leaf'), ('copies', 'src/markdown/mod.rs MarkdownNode::copy, mark; src/model/schema.rs copy, with_text, same_markup'), ('constructors', 'src/markdown/helper.rs; src/model/fragment.rs From')], ['PartialEq', 'Node::copy', 'Node::mark', 'Fragment::from', 'helper']),
     [('h_eq_gen', dict(cover=['same', 'different'])), ('h_eq_docs', dict(cover=['same', 'different'])), ('h_eq_attrs', dict(cover=['same', 'different'])), ('h_eq_slices', dict(cover=['same', 'different'])), ('h_eq_steps', dict(cover=['same', 'different'])), 'h_copy', 'h_build', 'h_huge_eq'], [],
     'Every pair of ' + GEN(2) + '; every pair of 55 documents that differ in one thing; attributes, texts and addresses of up to two arbitrary ASCII characters, arbitrary levels, orders and flags, every mark set; every pair of 27 slices and of steps with arbitrary 64-bit numbers; copies of all of these with three contents.')

prop('C23', 'Any history of steps gives the document the steps describe, for every peer',
     'Applying any sequence of editing steps gives, step by step, exactly the document that the steps describe, and it stays valid and normalised; a peer that receives the document and each step as JSON applies and refuses the same steps and has an equal document after each.',
     ['inputs', 'histories'], 'Every history of steps, whatever they are.',
     'The tests apply one step to a fresh document.',
     anchors(['src/transform/mod.rs', 'src/transform/replace_step.rs', 'src/transform/mark_step.rs', 'src/model/replace.rs'], [('steps', 'src/transform/mod.rs Step::apply'), ('replacement', 'src/model/replace.rs replace'), ('marks', 'src/transform/mark_step.rs map_fragment')], ['Step::apply', 'Step serialize and deserialize']),
     [('h_history2', dict(cover=['two steps', 'refused'])), ('h_history3', dict(cover=['three steps', 'refused'])), ('h_history_json', dict(cover=['two steps', 'refused'])), ('h_peer', dict(cover=['applied', 'refused']))], ['h_history4', 'h_history3_wide'],
     'From six documents: every history of two steps out of nine kinds (delete, insert plain, marked and non-BMP text, split at one and two levels, add and remove one of four marks, lift-in nested block, wrap) on ranges up to 4 long; of three steps out of six kinds on ranges up to 1 long (thorough: four such steps, three of the nine kinds); with JSON between the peers for two steps out of six kinds, and for any single step (every slice and open depth up to 2, gaps, inserts, marks).')

prop('C24', 'The document model works for every schema, not only the Markdown one',
     'With a schema other than the Markdown one (other node types and content expressions, inline nodes that have content, marks on nodes other than text, marks that only some parents allow) replacing, mark steps, replace-around steps, structural steps, undoing, positions, slices, texts, traversal, content checks and JSON give exactly what that schema and the tokens of the document say.',
     ['inputs'], 'Every schema, every document valid in it and every operation.',
     'The tests only use the Markdown schema, in which content expressions have two states, only text has marks and inline nodes are leaves.',
     anchors(['src/model/schema.rs', 'src/model/node.rs', 'src/model/replace.rs', 'src/model/fragment.rs', 'src/model/marks.rs', 'src/model/resolved_pos.rs', 'src/transform/mark_step.rs', 'src/transform/replace_step.rs'], [('the traits a schema implements', 'src/model/schema.rs Schema; src/model/node.rs Node, NodeType; src/model/content.rs ContentMatch; src/model/marks.rs Mark'), ('replace', 'src/model/replace.rs replace'), ('marks on inline nodes', 'src/transform/mark_step.rs map_fragment_parent, map_fragment'), ('content checks', 'src/model/node.rs content_match_at, can_replace')], ['Schema', 'Node', 'Step']),
     [('h_toy_replace', dict(cover=['replaced', 'refused', 'would overwrite'])), ('h_toy_mark', dict(cover=['changed', 'refused'])), ('h_toy_around', dict(cover=['applied', 'not flat', 'does not fit'])), ('h_toy_resolve', dict(cover=['resolved', 'slice'])), ('h_toy_content', dict(cover=['can', 'cannot'])), ('h_toy_json', dict(cover=['applied'])), 'h_toy_text', ('h_toy_any_replace_more', dict(cover=['replaced', 'refused', 'would overwrite'])), ('h_toy_any_mark', dict(cover=['changed'])), ('h_toy_any_around', dict(cover=['applied', 'not flat', 'does not fit'])), ('h_toy_any_content', dict(cover=['can', 'cannot'])), ('h_toy_gen_replace', dict(cover=['replaced', 'refused'])), ('h_toy_gen_mark', dict(cover=['changed'])), ('h_toy_gen_around', dict(cover=['applied', 'does not fit']))], ['h_toy_gen_replace3', 'h_toy_gen_mark3', 'h_toy_gen_around3', 'h_toy_gen_replace4', 'h_toy_replace_wide', 'h_toy_around_wide'],
     'Four schemas written in the harness with content expressions of up to three states ("B A*", "(B R)+", "B B", "(X|N)* D?", "A? R* B", "N* X* D?", ...), 19 documents: every range, 22 slices with open depths 0..2 and both values of the structure flag; every range and 8 marks added and removed (an inline node only partly in the range is left out); 5 slices around every gap with up to 2 tokens on each side (thorough: 4; open depths 0..3); every position; every child range. And one arbitrary schema, whose tables are inputs: for seven node types with content expressions of up to two states each, which child leads from which state to which, where content may end, which marks a node allows on its children, which node types can be joined; five documents and every document of up to two (thorough: four) nodes that are valid in it, every range, 8 slices with open depths 0..2, 8 marks, 5 slices around every gap, every child range (left out: undoing when joinability is not transitive; a mark step that makes two texts one where the schema counts texts).')

NOT_APPLICABLE = {}
