from props_base import P, NA
C = 'crates/ass-core/'
REP = 'the remaining clauses are decided by bounded replay of the same contracts on the real code (never counted as proved)'

P('C01', feat='core', verus=['c_time'],
  title='Timestamps are read, written and compared exactly',
  statement='Every centisecond count up to the largest representable time formats to text that reads back as the same count. A time text is accepted exactly when it is hours, minutes, seconds and an optional fraction (its first one, when several follow) within range, whose value it then denotes, and every other text is refused without failing, however large the numbers. Durations, the ordering of events and whether an event is active at a time follow from those values.',
  over=['inputs'], text='all 32-bit centisecond counts, all strings as time text, all pairs of times',
  why='Tests format and parse a dozen times; exactness over 2^32 values and refusal of every malformed or overflowing text are claims about all inputs.',
  files=[C+'utils/time.rs', C+'parser/ast/event/event_struct.rs'], mech=[('parse_ass_time, format_ass_time', C+'utils/time.rs'), ('Event::start_time_cs/end_time_cs/duration_cs', C+'parser/ast/event/event_struct.rs')],
  bounded='string splitting and the accepted grammar of the fraction part, and the event accessors',
  trusted=['str::split and str::parse::<u32> (uninterpreted in the Verus unit)'],
  note='Verus proves the arithmetic of reading (exact value, or refusal, no overflow for any field values) and of writing; ' + REP + '.')

P('C02', feat='core', verus=['c_color'],
  title='Colours, hexadecimal numbers and names are read exactly or refused',
  statement='A colour text is accepted exactly when, white space around it aside, it is six or eight hexadecimal digits: bare, after 0x, or after &H or &h with an optional closing &. It then denotes red, green and blue from the lowest byte up, and alpha in the highest byte (zero for six digits). Every other text is refused and none makes reading fail. One to eight hexadecimal digits denote their value in every reader of them, numbers in fields are read as their type reads them once trimmed, and a name is valid exactly when it is not empty and has no separator, brace or control character.',
  over=['inputs'], text='all strings as colour, hexadecimal text, number or name',
  why='Tests read a handful of colours; byte order, agreement of the scalar and vectorised readers, and refusal are claims about every text.',
  files=[C+'utils/color.rs', C+'tokenizer/simd/hex.rs', C+'utils/fields.rs'], mech=[('parse_bgr_color', C+'utils/color.rs'), ('parse_hex_u32', C+'tokenizer/simd/hex.rs'), ('parse_numeric, validate_ass_name', C+'utils/fields.rs')],
  bounded='numbers and names in fields, and trimming of white space',
  trusted=['str::trim, u32::from_str_radix on hexadecimal digits, and the lane operations of wide::u8x16 as specified in verus/c_color.vrs'],
  note='Verus proves parse_bgr_color and every hexadecimal reader, scalar and vectorised, on the extracted source: the accepted texts and the value of each, for all texts; ' + REP + '.')

P('C03', feat='core', verus=['c_uu'],
  title='Embedded fonts and pictures decode exactly',
  statement='Data encoded by the line-based encoding of embedded files decodes to the identical bytes, whatever their length. Every other sequence of lines decodes without failing to at most the bytes its characters and length prefixes announce, and stops at an end line.',
  over=['inputs'], text='all byte sequences encoded, all line sequences decoded',
  why='Tests decode a few short lines; padding, masking and length rules matter for each byte value and length.',
  files=[C+'utils/uu.rs'], mech=[('decode_uu_data', C+'utils/uu.rs')],
  bounded='the iterator adapter and trimming of lines',
  trusted=['str::bytes and str::trim (uninterpreted in the Verus unit)'],
  note='Verus proves the decoding loops on the extracted source: per-line output is exactly the decoded groups cut to the announced length, for every line; ' + REP + '.')

P('C04', feat='core', verus=['c_tracker'],
  title='Positions name the real line, column and place in the source',
  statement='While a source is consumed in any steps, the reported offset, line and column are exactly those of the consumed prefix, with every kind of line break and every character width. Each parsed entry and section carries the offset, length, line and column at which its text really stands, and spans of substrings locate the text they were taken from.',
  over=['inputs', 'histories'], text='all source texts and all sequences of advance, skip and slice operations',
  why='Tests track a few ASCII lines; off-by-one columns after multi-byte text or CR LF show only on other inputs and orders of operations.',
  files=[C+'parser/position_tracker/tracker.rs', C+'parser/incremental/line_calc.rs', C+'parser/sections/events/parser.rs', C+'utils/spans.rs'], mech=[('PositionTracker', C+'parser/position_tracker/tracker.rs'), ('calculate_line_number', C+'parser/incremental/line_calc.rs')],
  bounded='positions and spans of parsed entries and sections, and Spans substring lookups', trusted=['str::as_bytes, char_indices and slicing as specified in verus/str.inc'],
  note='Verus proves every PositionTracker method, Span construction and containment, and the line-number and line-range calculation on the extracted source, for all texts and all operation sequences; ' + REP + '.')

P('C05', feat='core', verus=['c_range'],
  title='Incremental edits give what a full parse gives',
  statement='Applying a text change to a parsed script gives the same sections, entries and positions as parsing the changed text from scratch, for every edit position and text, or refuses and leaves the script as it was. Splicing replaces exactly the named range, ranges before an edit stay, ranges after it move by the length difference, and section boundaries are found at line starts only.',
  over=['inputs', 'histories'], text='all scripts, edit ranges and replacement texts',
  why='Tests edit one line of one section; edits across boundaries, headers, repeated sections and multi-byte text need all edits.',
  files=[C+'parser/script/incremental.rs', C+'parser/incremental/range_adjust.rs', C+'parser/incremental/section_bounds.rs', C+'parser/script/partial.rs'], mech=[('Script::parse_incremental', C+'parser/script/incremental.rs'), ('adjust_range_for_change', C+'parser/incremental/range_adjust.rs'), ('find_section_end', C+'parser/incremental/section_bounds.rs')],
  bounded='Script::parse_incremental as a whole against a full parse', trusted=['str slicing and trimming as specified in verus/str.inc'],
  note='Verus proves range adjustment, section-span adjustment, splicing and the section-boundary searches on the extracted source; ' + REP + '.')

P('C06', feat='core', verus=['c_tokenizer'],
  title='Tokens cover the source in order and are classified correctly',
  statement='Tokenising any text ends, and yields non-overlapping tokens in source order, each exactly a piece of the source with its true offset, line and column, which together leave out only whitespace between tokens. Section headers, comments, delimiters, colours, numbers and override blocks are given the kind their text has, and the vectorised scan finds the same first delimiter as a byte-by-byte one.',
  over=['inputs'], text='all source texts',
  why='Tests tokenise well-formed lines; termination, coverage and vector/scalar agreement are claims about all texts and lengths.',
  files=[C+'tokenizer/ass_tokenizer.rs', C+'tokenizer/next_token.rs', C+'tokenizer/scanner/navigator.rs', C+'tokenizer/scanner/text_scanner.rs', C+'tokenizer/simd/mod.rs'], mech=[('AssTokenizer::next_token', C+'tokenizer/next_token.rs'), ('scan_delimiters', C+'tokenizer/simd/')],
  bounded='AssTokenizer::tokenize_all, the collected issues, and sources of 2 GiB or more',
  trusted=['str slicing, find, chars and char classes as specified in verus/c_tokenizer.vrs and str.inc', 'the lane operations of wide::u8x16 (one bit per equal lane)'],
  assumptions=['sources are shorter than 2 GiB (nesting depth of braces is an i32)'],
  note='Verus proves, on the extracted source and for every text and state, that each call of next_token ends, skips only white space the context allows, and returns the piece of source from there with its true line and column, the kind the grammar gives it and the context after it, never an error; the character navigator, every scanner, and the scalar and vectorised delimiter search (the first delimiter) are under contract; ' + REP + '.')

P('C07', feat='core', verus=['c_document', 'c_entries', 'c_rows', 'c_write'],
  title='Parsing never fails and loses no well-formed content',
  statement='Parsing any text ends without failing on malformed parts and borrows every string from the source. Each section holds, in order, exactly the entries its well-formed lines say, mapped by its format line, and malformed lines or sections never swallow their neighbours. Serialising a parsed script and parsing it again gives the same content.',
  over=['inputs'], text='all source texts, well-formed and malformed',
  why='Tests parse a few scripts; recovery, completeness and round trips are claims about every mixture of sections and broken lines.',
  files=[C+'parser/main/section.rs', C+'parser/sections/events/parser.rs', C+'parser/script/serialize.rs', C+'parser/ast/event/serialization.rs', C+'parser/ast/style/conversion.rs'], mech=[('Parser::parse, section parsers', C+'parser/main/section.rs'), ('Script::to_ass_string', C+'parser/script/serialize.rs')],
  bounded='whole-document round trips',
  trusted='splitting, trimming, joining, comparing and formatting of the standard library strings (with their meaning as contracts); PositionTracker (its contract is discharged in c_tracker); ScriptVersion::from_header; plugins process the unknown sections handed to them without touching the parser; the size limit and the byte-order-mark warning; in c_document the section readers are taken by contract (deterministic in the text before them, leaving no more than it), their bodies being discharged in c_rows',
  assumptions='a blank is white space while a comma, an asterisk and a bracket are not; line numbers do not overflow',
  note='Verus proves, on the extracted source, for every text and format: the parser ends and holds, in order, exactly the sections whose headers the text shows, whatever is no section being passed over up to the next header and no further; the readers of event and style lines yield exactly the cells the format names, or refuse exactly the lines with too few fields; the section parsers of script info, styles, events, fonts and graphics end and hold exactly the entries of their lines in order, a malformed line changing nothing for its neighbours; the writers write exactly the cells of the format, every section and entry in order; and an event or style written under a format is read back under it with the same kind, parent and fields. The rest is a bounded replay.')

P('C08', feat='core', verus=['c_overlap'],
  title='Overlap detection reports exactly the overlapping pairs',
  statement='For every list of events with readable times, the reported pairs are exactly the pairs of events of positive duration whose half-open time intervals intersect, each once, the one that starts first named first. The count is the number of pairs, and an unreadable time refuses any list of two or more events.',
  over=['inputs'], text='all event lists, including equal, touching, empty and inverted intervals',
  why='Tests use two or three events; sweep-order ties and duplicates are decided by all interval arrangements.',
  files=[C+'analysis/events/overlap/detection.rs', C+'analysis/events/overlap/sweep.rs'], mech=[('find_overlaps_generic', C+'analysis/events/overlap/detection.rs'), ('SweepEvent ordering', C+'analysis/events/overlap/sweep.rs')],
  bounded='reading the times of the events and the public wrappers', trusted=['slice::sort_by sorts by the proved-total comparison (std)'],
  note='Verus proves that the sweep reports exactly the overlapping pairs, each once, for every list of intervals; ' + REP + '.')

P('C09', feat='core', verus=['c_tags', 'c_text'],
  title='Override tags and visible text are separated exactly',
  statement='For every event text, the visible text is the text outside override blocks and drawings with its escapes replaced, and the character and line counts are those of it. Every override tag is reported once, in order, with its exact name, arguments and offset, and every diagnostic locates its text. No text makes the analysis fail except one nested deeper than a hundred blocks, which is refused.',
  over=['inputs'], text='all event texts, including unclosed and nested blocks and multi-byte characters',
  why='Tests analyse tidy texts; slicing at wrong offsets or losing tags happens on unusual characters and nesting.',
  files=[C+'analysis/events/text_analysis/parser.rs', C+'analysis/events/tags/parser.rs', C+'analysis/events/line_breaks.rs'], mech=[('TextAnalysis::analyze', C+'analysis/events/text_analysis/parser.rs'), ('parse_override_block', C+'analysis/events/tags/parser.rs'), ('TextWithLineBreaks::from_text', C+'analysis/events/line_breaks.rs')],
  bounded='diagnostics, the offsets of tags within the event text, and the owned/borrowed text plumbing', trusted=['str iteration and slicing as specified in verus/str.inc'],
  note='Verus proves tag-name scanning, override-block parsing, tag complexity, the visible-text/drawing split with its nesting limit, and line-break splitting on the extracted source; ' + REP + '.')

P('C10', feat='core', verus=['c_score'],
  title='Event timing and complexity scores are exact and bounded',
  statement='An event is analysed exactly when its times are readable and it has a positive duration; durations, relations between two events, range queries, total and average durations and time sorting follow exactly from its interval. The animation score is the capped sum of its tags, the complexity score stays within 0 to 100 and never falls when tags, length or animation grow, and the performance class is the band the score lies in.',
  over=['inputs'], text='all event lists, tag lists, lengths and counts',
  why='Tests score a few events; caps, overflow and monotonicity are claims about all counts and times.',
  files=[C+'analysis/events/dialogue_info/accessors.rs', C+'analysis/events/scoring/calculators.rs', C+'analysis/events/utils/duration.rs', C+'analysis/events/utils/ordering.rs'], mech=[('DialogueInfo', C+'analysis/events/dialogue_info/accessors.rs'), ('calculate_complexity_score', C+'analysis/events/scoring/calculators.rs')],
  bounded='the tags and lengths a text analysis finds (C09)', trusted=['parse_ass_time as specified by C01 (uninterpreted here)', 'slice::sort_by sorts by the comparison it is given, which is discharged (std)'],
  note='Verus proves the score calculators (caps, bands, monotonicity), the timing accessors, relations between two events, total and average durations, the order of sorting, the positive-duration condition of analysis and range queries on the extracted source; ' + REP + '.')

P('C11', feat='core', verus=['c_batch'],
  title='Batch edits of a script change exactly the named lines',
  statement='Updating the line at an offset replaces exactly that entry by the parsed new line, keeps every other entry and section, and reports the old content; it can be undone by the reverse update. Additions get the next indices in order, a failing atomic batch leaves the script as it was, and the reported differences between two scripts name every changed section.',
  over=['histories'], text='all scripts and sequences of updates, additions and batches',
  why='Tests update one event once; repeated updates and partial failure need histories.',
  files=[C+'parser/script/mutate.rs', C+'parser/script/update.rs', C+'parser/script/batch.rs', C+'parser/script/delta.rs'], mech=[('Script::update_line_at_offset', C+'parser/script/update.rs'), ('atomic batches', C+'parser/script/batch.rs')],
  bounded='that a stored entry spans its whole source line, and the reading of one line, are replayed',
  trusted='the reading of one line (c11 replay), sections_equal_ignoring_spans, Section::span, the standard library stable sort, Vec and clone operations',
  assumptions='an entry is its span and the remaining fields taken together as one value',
  note='update_line_at_offset replaces the first entry covering the offset and nothing else, and its reverse restores the script; sections, styles and events are added and removed at the stated indices; batch_update_lines is the fold of single updates in offset order; atomic_batch_update leaves the script untouched on every error; calculate_delta lists exactly the gone, altered and new kinds. The change tracker is left out of this contract (see C04).')

P('C12', feat='core', verus=['c_utf8'],
  title='Text encoding checks agree with the standard',
  statement='Validation accepts exactly well-formed UTF-8 and otherwise names the offset of the first error; recovery gives the standard replacement decoding and changes nothing valid. Byte-order marks are recognised by their exact bytes and at most one is stripped, truncation yields the longest prefix that fits, and normalising line endings, white space or control characters changes nothing else. An encoding is named from the mark, or else from validity alone.',
  over=['inputs'], text='all byte sequences and all lengths',
  why='Tests decode a few strings; boundaries inside multi-byte sequences and batch offsets need every byte sequence.',
  files=[C+'utils/utf8/validation/validate.rs', C+'utils/utf8/bom.rs', C+'utils/utf8/validation/recovery.rs'], mech=[('validate_utf8_batch', C+'utils/utf8/'), ('detect_bom, strip_bom', C+'utils/utf8/')],
  bounded='lossy recovery, encoding guesses, white-space and control-character clean-up',
  trusted=['core::str::from_utf8 (valid exactly on well-formed UTF-8, with the offset of the first error), str slicing and str::replace as specified in verus/c_utf8.vrs'],
  note='Verus proves byte-order-mark detection and stripping, truncation, line-ending normalisation and both validators (including the batch offsets of the vectorised one) on the extracted source, for all byte sequences; ' + REP + '.')

P('C13', feat='core', verus=['c_stream'],
  title='Feeding text in any chunks is the same as feeding it whole',
  statement='A streaming parse accepts every division of a valid text into chunks, inside a character or a line ending too, and ends with the same outcome as the undivided text. Text that is not valid in the encoding is refused however it is divided.',
  over=['inputs', 'schedules'], text='all texts and all divisions of them into chunks',
  why='Tests feed a text in one or two chunks; chunk boundaries inside characters and lines are schedules no sample covers.',
  files=[C+'parser/streaming/parser.rs', C+'parser/streaming/mod.rs'], mech=[('StreamingParser::feed_chunk/finish', C+'parser/streaming/parser.rs')],
  bounded='resetting a parser in mid-stream, and that a parser built with room for sections is empty',
  trusted='str::from_utf8 (which text it accepts and what it says of cut text), string functions of the standard library (trim, prefixes, find, lines, push_str), Vec functions', assumptions='fewer lines are read than a machine integer counts; the memory counter of the feature "benches" is left out',
  note='Verus proves, on the extracted source of the streaming parser and its reader of lines, for every state reached by any history and every chunk: a chunk is accepted exactly if all bytes so far begin a text, finishing succeeds exactly if they are one, nothing is lost or taken twice between chunks, the lines handed on are those of the text waiting with the new one, the reader of lines never fails or panics and changes its state by the stated rule, and no chunk yields anything another division would not; '+REP+'.')

P('C14', feat='core', verus=['c_order', 'c_style'],
  title='Style resolution follows inheritance and scaling exactly',
  statement='A style resolves to its own fields, with fields it leaves empty or at their default taken from its parent, recursively, whatever the order of styles in the section. Scaling from layout to play resolution is applied exactly once to sizes, spacing, borders, shadows and margins along their axes. Cyclic or missing parents fall back to resolution without a parent, and a style with an unreadable field is left out.',
  over=['inputs'], text='all style tables, parent graphs, orders and resolutions',
  why='Tests resolve a parent and a child in order; order independence, cycles and single scaling are claims about all graphs.',
  files=[C+'analysis/styles/resolved_style/inheritance.rs', C+'analysis/styles/resolved_style/from_style.rs', C+'analysis/styles/resolved_style/scaling.rs', C+'analysis/styles/analyzer/dependency.rs', C+'analysis/styles/analyzer/analysis.rs'], mech=[('StyleAnalyzer', C+'analysis/styles/analyzer/analysis.rs'), ('from_style_with_parent', C+'analysis/styles/resolved_style/inheritance.rs')],
  bounded='choosing between the ordered and the parentless resolution, compared with a recursive definition',
  trusted=['the field readers (floats, percentages, font sizes, integers)', 'IEEE arithmetic and casts', 'BTreeMap and BTreeSet (lookup, insertion, and iteration over every member once), values_mut', 'bitflags', 'the inheritance notes and the texts of conflicts are dropped from the extracted dependency order'],
  note='proved: both resolvers field by field, the flag reader, scaling along its axes and its frame, the single scaling of the whole table, the order-relative resolution of every style; the order of styles (every name once, each style after its parents, found for exactly the acyclic tables) and the detection of cycles, for every parent graph.')

P('C15', feat='core', verus=['c_lint'],
  title='Linting reports exactly the problems it names',
  statement='Linting any script ends without failing; each overlapping pair, non-positive duration, undefined style, broken tag, too short, too fast or too long event is reported exactly once and nothing else is. Severity thresholds, disabled rules and issue limits select from the same list in order, and analysing a script reports the same issues.',
  over=['inputs'], text='all scripts and lint configurations',
  why='Tests lint one fault at a time; completeness and the effect of limits need all combinations.',
  files=[C+'analysis/linting/runner.rs', C+'analysis/linting/config.rs', C+'analysis/linting/rules/accessibility/rule.rs', C+'analysis/linting/rules/invalid_color/rule.rs', C+'analysis/construction.rs'], mech=[('lint_script', C+'analysis/linting/runner.rs'), ('rules', C+'analysis/linting/rules/')],
  bounded='the construction of the analysis (which events and styles it knows), cutting a colour out of a tag, and the speed of reading as machine floats compute it',
  trusted='string functions of the standard library (split, format! as concatenation), finding the first section of a kind, the readers of times, colours and texts and the overlapping pairs (contracts discharged on the real functions in units c_time, c_color, c_tags, c_text and c_overlap), dynamic dispatch to the rules', assumptions='texts are shorter than 1 GiB',
  note='Verus proves, on the extracted source of all eight rules, the runner, the linting of an analysis and the configuration, for every script and configuration: each rule reports exactly what its definition names, once each, in order, with its severity, rule name and message; a rule takes part exactly if it is enabled and not disabled, an issue exactly if it is severe enough, and a limit cuts the same list short; '+REP+'.')
