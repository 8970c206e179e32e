from props_base import P, NA
D = 'crates/ass-editor/'
REP = 'the remaining clauses are decided by bounded replay of the same contracts on the real code (never counted as proved)'
ONLY = 'bounded replay of the stated contract on the real code; no obligation is discharged for it yet.'

P('E01', feat='editor', verus=['e_undo'], level='proof',
  title='Undo and redo are exact inverses of every edit',
  statement='For every sequence of edits, undos and redos, in any mix of direct, command and incremental editing: an accepted edit replaces exactly the named bytes, a refused one changes neither text nor history, undo restores the text and cursor before the latest edit not yet undone, redo restores them after it, a new edit forgets what was undone, and the history keeps within its entry and memory limits by forgetting the oldest edits. Every command, however many steps it takes, can be undone completely.',
  over=['histories'], text='all sequences of edits, undos, redos and commands, at all positions, under all history limits',
  why='Tests undo one or two edits; interleavings of kinds of edit, limits and multi-byte positions are unbounded.',
  files=[D+'core/history/stack_impl.rs', D+'core/history/manager.rs', D+'core/document/undo_redo.rs', D+'core/document/editing_raw.rs', D+'core/document/editing.rs', D+'core/document/incremental_edit.rs', D+'core/document/incremental_fast.rs', D+'core/document/validation.rs', D+'core/history/entry.rs', D+'core/history/operation.rs', D+'core/thread_safety/sync_document.rs'],
  mech=[('UndoStack', D+'core/history/stack_impl.rs'), ('UndoManager', D+'core/history/manager.rs'), ('EditorDocument::undo/redo', D+'core/document/undo_redo.rs')],
  bounded='applying a script delta, the event channel, and what each command does to the text', trusted='ropey (length, byte/char conversion, insert, remove, slice) as a sequence of characters, the iterator chains for the common start and end of two texts, counters that stay below the machine limit', note='Verus proves, on the extracted source and for every history: each raw edit is an exact splice or changes nothing, each edit records an entry that leads from the old text to the new one, the stack keeps exactly the newest entries the limits allow and its memory count is exact, undo and redo are the exact inverse and repeat of the entry they move, the chain of entries stays valid, and a command (of which nothing is assumed) is one entry or leaves no trace; '+REP)

P('E02', feat='editor', verus=['e_pos'], level='proof',
  title='Offsets and line/column positions convert exactly both ways',
  statement='For every document text, a byte offset within it converts to the line and character column where it stands, and that line and column convert back to the same offset. Start and end of a line are its first character and the place before its line break, whichever of the recognised breaks ends it. Offsets, lines and columns that do not exist are refused.',
  over=['inputs'], text='all document texts with any line breaks and character widths, all offsets, lines and columns',
  why='Tests use short ASCII text with LF; off-by-one errors at CR LF, Unicode line breaks and wide characters show only on other texts.',
  files=[D+'core/document/position_api.rs', D+'core/position/builder.rs'], mech=[('position_to_line_column', D+'core/document/position_api.rs'), ('PositionBuilder::build', D+'core/position/builder.rs')],
  bounded='start and end of a line for documents built from real text (the rope model states where lines begin; which characters break a line is ropey\'s)', trusted='ropey (line/byte/char conversion and the line table) as stated in verus/rope.inc', note='Verus proves, on the extracted position_to_line_column and PositionBuilder (every setter and build), that the offset, line and column forms name the same place, that line and column convert back to the offset, and that everything out of range is refused, for every text, every line table and every number; '+REP)

P('E03', feat='editor', verus=['e_range'], level='proof',
  title='Ranges and selections form an exact interval algebra',
  statement='A range made of two positions runs from the lesser to the greater. Containment, overlap, union, intersection, extension and length agree with the set of offsets the range stands for, for all positions up to the largest representable. A selection keeps its anchor and cursor in whichever order, and stands for the range between them.',
  over=['inputs'], text='all pairs and triples of positions',
  why='Tests try a few ranges; touching, empty, reversed and extreme ranges are a claim about all of them.',
  files=[D+'core/position/range.rs', D+'core/position/selection.rs', D+'core/position/points.rs'], mech=[('Range', D+'core/position/range.rs'), ('Selection', D+'core/position/selection.rs'), ('Position', D+'core/position/points.rs')],
  bounded='setters that hold a document (none in scope) and the derived ordering of positions', trusted='core::cmp::min and max on usize (shown as verified functions of the same name)', note='Verus proves every Position, LineColumn, Range and Selection operation on the extracted source, for all positions, against the set of offsets a range stands for; '+REP)

P('E04', feat='editor', verus=['e_search'], level='proof',
  title='Search and replace act on exactly the matches',
  statement='Searching finds exactly the leftmost, non-overlapping occurrences of the pattern within the requested scope, honouring letter case, whole words and the result limit, and reports the true offsets, line, column, text and context of each, whatever was indexed or cached before. Replacing all substitutes exactly those occurrences and nothing else.',
  over=['inputs', 'histories'], text='all texts, patterns, options, scopes and replacements, with the search index fresh, updated or stale',
  why='Tests search short ASCII text; case folding that changes length, overlapping matches, scope borders and stale caches need other inputs.',
  files=[D+'utils/search/basic.rs', D+'utils/search/query.rs', D+'utils/search/trait_impl.rs', D+'utils/search/index.rs'], mech=[('basic_search', D+'utils/search/basic.rs'), ('find_replace', D+'utils/search/trait_impl.rs'), ('build_index/update_index', D+'utils/search/index.rs')],
  bounded='searches answered from the word index and by regular expression; keeping the index up to date',
  trusted='character and string functions of the standard library (to_lowercase, is_alphanumeric, find, rfind, matches, trim, lines), the document operations text and replace (contracts discharged on the real functions in unit e_undo), that nothing is ever put into the cache of results, and that the word index and the regular expressions report matches in order', assumptions='texts are shorter than 2 GiB',
  note='Verus proves, on the extracted source, for every text, pattern and options: the parts searched are those the scope names (whole characters, lines, bracketed sections); the results are exactly the leftmost non-overlapping occurrences in them, compared with or without case, whole words only when asked, up to the limit; each result has its true offsets, line, column, text and context; and replacing all rewrites exactly what the search reports and copies everything else; '+REP)

P('E05', feat='editor', verus=['e_event', 'e_toggle', 'e_effect', 'e_timing', 'e_cut', 'e_cutmany'], level='proof',
  title='Event commands change exactly the events they name',
  statement='Shifting times, toggling the kind, changing the effect, deleting, merging and splitting act on exactly the events with the given indices, counted over the event lines of the document, or on all when none are given. Times are shifted by the given amounts, kept representable and never left empty; all other fields and all other lines stay as they were. A command that cannot be carried out says so and changes nothing.',
  over=['inputs'], text='all documents with an event section, all sets of indices, all offsets and arguments',
  why='Tests run each command on three events; later events after a change of length, extreme offsets, CR LF and effects with commas need other documents.',
  files=[D+'commands/event_commands/timing.rs', D+'commands/event_commands/toggle.rs', D+'commands/event_commands/effect_exec.rs', D+'commands/event_commands/merge.rs', D+'commands/event_commands/split.rs', D+'commands/event_commands/delete.rs', D+'commands/event_commands/batch_delete.rs', D+'commands/event_commands/helpers.rs'],
  mech=[('TimingAdjustCommand', D+'commands/event_commands/timing.rs'), ('parse_event_line', D+'commands/event_commands/helpers.rs'), ('MergeEventsCommand', D+'commands/event_commands/merge.rs'), ('SplitEventCommand', D+'commands/event_commands/split.rs')],
  bounded='the events deleted through the fluent interface by query', trusted='string functions of the standard library (find, splitn, trim, replacen, format!), its sort and dedup, document operations (E01, E02: contracts discharged in unit e_undo), reading and writing times (C02: unit c_time), add with saturation', note='Verus proves, on the extracted source, for every document, every set of indices and every argument: the fields of an event line are read with the comma outside parentheses between effect and text; switching the kind, changing the effect and shifting the times replace exactly the event lines named (counted over the lines below the format line up to the next section) by the line the specification gives for them and copy all the rest, character by character; the times are kept representable and not empty; deleting one event or any set of them takes out exactly those lines; splitting replaces the one line by two that differ from it in one time each; merging puts the merged line at the place of the first and keeps what stood between; a command on a document without events is refused and changes nothing; and content_changed is reported exactly when a line was rewritten; '+REP)

P('E06', feat='editor', verus=['e_cuetimes', 'e_cues'], level='proof',
  title='Format conversion keeps every cue, its time and its text',
  statement='Exporting to SRT, WebVTT or plain text writes every dialogue event, in order, once, with its times to the millisecond and its text lines and basic styling, and no other event; importing reads every cue with its times to the centisecond and its text. Exporting and importing again gives the same dialogue. No text whatsoever makes a conversion panic.',
  over=['inputs'], text='all documents exported, all SRT and WebVTT texts imported, all strings as input',
  why='Tests convert two cues; long times, several lines, CR LF, missing hours and malformed input are a claim about all of them.',
  files=[D+'utils/formats/import_srt.rs', D+'utils/formats/import_webvtt.rs', D+'utils/formats/export_srt.rs', D+'utils/formats/export_webvtt.rs', D+'formats/srt/import.rs', D+'formats/srt/export.rs', D+'formats/srt/time.rs', D+'formats/webvtt/cue.rs', D+'formats/webvtt/exporter.rs', D+'formats/webvtt/time.rs'],
  mech=[('FormatConverter', D+'utils/formats/converter.rs'), ('SrtFormat', D+'formats/srt/format.rs'), ('WebVttFormat', D+'formats/webvtt/format.rs')],
  bounded='styling and cue settings, gathering the events of a document and writing the read lines into one, plain text, and the second importer and exporter (FormatConverter) apart from its times',
  trusted='string functions of the standard library (trim, split, lines, parse, replace, join, format!), the reader of script times (contract discharged on the real function in unit c_time), the styling conversions',
  note='Verus proves, on the extracted source of the times and of the SRT and WebVTT writers and readers, for every list of events and every list of lines: the writer puts down exactly the dialogue events with two readable times, in order, numbered from one, each with its times and its text with every line break; the times carry hours, minutes, seconds and milliseconds that add up to the time; the reader yields exactly the cues, in order, each from its line of times to the next blank line, passing over only lines at which no cue begins, and never stops early; '+REP)

P('E07', feat='editor', verus=['e_sessions'], level='proof',
  title='Sessions stay apart, within the limit and correctly counted',
  statement='For every sequence of creating, replacing, switching, editing and removing sessions: each session holds exactly its own document, editing one changes no other, no more than the configured number exist at once, the count reported is the number that exist, and the active session is the one last switched to, or the first created while there was none, as long as it exists.',
  over=['histories'], text='all sequences of session operations under all limits',
  why='Tests create two sessions; replacing, removing the active one and hitting the limit in some order need histories.',
  files=[D+'sessions/lifecycle.rs', D+'sessions/access.rs'], mech=[('EditorSessionManager', D+'sessions/lifecycle.rs')],
  bounded='removing stale sessions, listing sessions, and sharing one manager between threads', trusted='the hash table of the standard library as a map from names, the lock (taken as exclusive access), String equality, counters that stay below the machine limit', note='Verus proves, on the extracted source, for every state reached by any history, every name, every limit and every document operation (of which nothing is assumed): creating puts the document under its name and leaves every other session as it was, refuses exactly at the limit, and activates the first; switching, removing, editing and reading act on the named session only and leave the active one as stated; and the count reported stays the number that exist; '+REP)

P('E08', feat='editor', verus=['e_events'], level='proof',
  title='Document events reach exactly the handlers that asked for them',
  statement='An event reaches exactly the registered handlers whose filter accepts it, once each, in descending priority and in order of registration within a priority. A filter accepts an event exactly when its included and excluded types, modification and cursor conditions all allow it. Handler identifiers are never reused, the handler limit holds, and the counters equal what happened.',
  over=['histories', 'inputs'], text='all sequences of registration, removal and dispatch; all filters and events',
  why='Tests register a handler or two; ordering, filters in combination and counters are claims about every sequence.',
  files=[D+'events/filter.rs', D+'events/dispatch.rs', D+'events/registry.rs', D+'events/event_query.rs'], mech=[('EventFilter::matches', D+'events/filter.rs'), ('EventChannel::dispatch', D+'events/dispatch.rs'), ('register_handler', D+'events/registry.rs')],
  bounded='asynchronous queueing, and the order of handlers that ask for events while one is being dispatched (the lock forbids it)', trusted='the handler lock (taken as exclusive access that never fails), the stable sort of the standard library, String equality, counters that stay below the machine limit', note='Verus proves, on the extracted source, for every channel, every set of handlers (of which nothing is assumed) and every event: the filter accepts exactly by its four conditions; registering gives a fresh identifier, keeps the order by priority and registration and refuses exactly at the limit; removing takes away just the named handler; dispatching gives the event once to each accepting handler and to no other, stopping where one fails; a batch gives each handler the accepted events in order; and the counters are exact; '+REP)

P('E09', feat='editor', verus=['e_karaoke'], level='proof',
  title='Karaoke commands change timing only, never the words',
  statement='Generating or splitting karaoke inserts karaoke tags of the requested kind and duration and leaves the visible text exactly as it was. Adjusting karaoke changes the durations of the karaoke tags in the range, by the rule asked for and in order, and not one other character.',
  over=['inputs'], text='all texts, ranges, split positions, durations and adjustments',
  why='Tests adjust one tag; repeated tags, neighbouring tags that share digits, whitespace and multi-byte text need other inputs.',
  files=[D+'commands/karaoke_commands/generate.rs', D+'commands/karaoke_commands/split.rs', D+'commands/karaoke_commands/adjust_impl.rs'], mech=[('GenerateKaraokeCommand', D+'commands/karaoke_commands/generate.rs'), ('SplitKaraokeCommand', D+'commands/karaoke_commands/split.rs'), ('AdjustKaraokeCommand', D+'commands/karaoke_commands/adjust_impl.rs')],
  bounded='applying karaoke templates (which splits at blanks by design), and that the registry of karaoke tag handlers only checks tags', trusted='string functions of the standard library (trim, parse, push_str, format!, char boundaries, whitespace), the product of a duration and a factor, the override-block parser and the document operations (contracts discharged on the real functions in units c_tags and e_undo)', assumptions='texts are shorter than 2 GiB', note='Verus proves, on the extracted source, for every document, range, text, list of positions, duration and adjustment: splitting puts one tag before each piece between the usable positions, and generating one before the first and each non-blank syllable, where the pieces put together are the text and the visible text stays the same; adjusting replaces the number of each karaoke tag of the range by the rule, in order, and copies every other character; each command changes its range only, or on failure nothing; '+REP)

P('E10', feat='editor', verus=['e_lines'], level='proof',
  title='Field edits change exactly the named field and read back',
  statement='Setting a script property, editing fields of an event by index, and adding event or style lines change exactly that field or add exactly that line: reading it back gives the new value, every other field, event and line is unchanged, and a property or event that does not exist is left alone or refused.',
  over=['inputs'], text='all documents, keys, values, event indices and sets of field changes',
  why='Tests edit one field of a tidy document; keys that occur inside other keys or values, repeated fields and missing sections need other documents.',
  files=[D+'core/document/ass_api.rs', D+'core/document/section_lines.rs', D+'core/document/event_edit.rs', D+'core/document/event_line.rs'], mech=[('set_script_info_field', D+'core/document/ass_api.rs'), ('edit_event_by_index', D+'core/document/event_edit.rs'), ('add_event_line', D+'core/document/section_lines.rs')],
  bounded='edit_event_by_index and the line it builds; reading the values back through the parser',
  trusted='string functions of the standard library (trim, find, prefixes, lines, format! as concatenation) and the document operations text, insert and replace (contracts discharged on the real functions in unit e_undo)', assumptions='texts are shorter than 2 GiB',
  note='Verus proves, on the extracted source, for every document, name and value: setting a script property replaces the first line of that key in the script-info section and nothing else; editing the text of an event replaces the first occurrence of it that lies in the text field of an event line; adding an event or style line puts it below the format line of its section (or its header, or a new section with a default format line); editing a style line replaces the line of that name or adds it; every other character stays; '+REP)

P('E11', feat='editor', verus=['e_tags', 'e_sections', 'e_styles'], level='proof',
  title='Section and tag commands change exactly the line, file or tag they name',
  statement='Setting and deleting script properties, creating, editing, cloning, deleting and applying styles, adding, removing and clearing embedded fonts and graphics, and inserting, wrapping in, reading, removing and replacing override tags act on whole lines of the section concerned, or on whole tags of override blocks, found by their exact name wherever similar text stands elsewhere. They change just that line, those fields, that file or those tags; every other byte of the document stays, and listing or reading gives what the document holds. A command whose target does not exist leaves the document as it was.',
  over=['inputs'], text='all documents, names, keys, values, ranges and tag patterns',
  why='Tests run each command on one tidy document; names that begin other names, headers quoted inside values or event text, own column orders, missing line breaks and comments inside override blocks need other documents.',
  files=[D+'core/section_text.rs', D+'commands/script_info_commands/set.rs', D+'commands/script_info_commands/get.rs', D+'commands/script_info_commands/delete.rs', D+'commands/style_commands/edit.rs', D+'commands/style_commands/create.rs', D+'commands/style_commands/clone.rs', D+'commands/style_commands/delete.rs', D+'commands/style_commands/apply.rs', D+'commands/fonts_graphics_commands/section.rs', D+'commands/fonts_graphics_commands/add.rs', D+'commands/fonts_graphics_commands/remove.rs', D+'commands/tag_commands/blocks.rs', D+'commands/tag_commands/remove.rs', D+'commands/tag_commands/replace.rs', D+'commands/tag_commands/parse.rs'],
  mech=[('section_lines', D+'core/section_text.rs'), ('find_style', D+'core/section_text.rs'), ('ApplyStyleCommand', D+'commands/style_commands/apply.rs'), ('file_section', D+'commands/fonts_graphics_commands/section.rs'), ('RemoveTagCommand', D+'commands/tag_commands/remove.rs'), ('ReplaceTagCommand', D+'commands/tag_commands/replace.rs')],
  bounded='creating and applying styles; embedded fonts and graphics; which tag closes which when a range is wrapped', trusted='string functions of the standard library (trim, split, prefixes, push_str, format!), the override-block parser and the document operations (contracts discharged on the real functions in units c_tags and e_undo)', assumptions='texts are shorter than 2 GiB', note='Verus proves, on the extracted source, for every document, range, pattern and replacement: the blocks found are those between outermost braces and the tags in them those of the override parser, each with its exact place; removing copies every character but the tags whose name begins with the pattern (or the whole blocks); replacing rewrites the pattern at the start of a tag and copies everything else; reading lists the tags in order with their places; inserting and wrapping put their braces where asked; each tag command changes its range only, or on failure nothing; setting, reading, listing and deleting script properties and editing, cloning and deleting styles act on the lines of the section whose exact name is theirs and leave every other character; '+REP)
