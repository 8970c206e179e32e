//@@ strs crates/ass-editor/core/section_text.rs SCRIPT_INFO
//@@ strs crates/ass-editor/core/section_text.rs EVENTS
//@@ strs crates/ass-editor/core/section_text.rs STYLES
/// the headers of the sections the commands work on
proof fn headers_known() ensures SCRIPT_INFO_is() == seq!["[Script Info]"@], EVENTS_is() == seq!["[Events]"@], STYLES_is() == seq!["[V4+ Styles]"@, "[V4 Styles]"@, "[Styles]"@] {}
#[verifier::external_body]
fn ends_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
/// a text between two others: format!
#[verifier::external_body]
fn around(a: &str, x: &str, b: &str) -> (r: String) ensures r@ == a@ + x@ + b@ { format!("{a}{x}{b}") }
#[verifier::external_body]
fn pair(a: &str, b: &str, c: &str, d: &str) -> (r: String) ensures r@ == a@ + b@ + ": "@ + c@ + d@ { format!("{a}{b}: {c}{d}") }
proof fn len_mono(c: Seq<char>) ensures forall|i: int| 0 <= i <= c.len() ==> 0 <= #[trigger] off(c, i) <= nbytes(c) { assert forall|i: int| 0 <= i <= c.len() implies 0 <= #[trigger] off(c, i) <= nbytes(c) by { off_mono(c, i, c.len() as int); off_mono(c, 0, i); off_zero(c); } }

//@@ fn crates/ass-editor/core/section_text.rs section_lines
//@ret r
//@re let mut lines = Vec::new\(\); => let mut lines: Vec<(usize, &str)> = Vec::new();
//@re let mut offset = 0; => let mut offset: usize = 0; let pieces = lines_of(content); let mut ix: usize = 0;
//@re for line in content\.split_inclusive\('\\n'\) \{ => while ix < pieces.len() { let line = pieces[ix]; ix += 1;
//@re line\.trim_start_matches\('\\u\{FEFF\}'\)\.trim\(\) => trimmed(no_bom(line))
//@re name\.starts_with\( => begins_with(name, 
//@re headers\.contains\(&name\) => listed(headers, name)
//@re line\.trim_end_matches\(\['\\r', '\\n'\]\) => unbreak(line)
//@re line\.len\(\) => blen(line)
//@spec
    requires nbytes(content@) < 0x7fff_ffff
    ensures at_rows(content@, r@, all_rows(content@, texts(headers@)))
//@start
    let ghost c = content@; let ghost h = texts(headers@);
    proof { off_zero(c); }
//@loop 0
    invariant c == content@, h == texts(headers@), nbytes(c) < 0x7fff_ffff, ix <= pieces.len(), pieces.len() == lns(c, 0).len(), forall|k: int| 0 <= k < pieces.len() ==> (#[trigger] pieces@[k])@ == ln(c, k),
        offset == off(c, if ix == 0 { 0 } else { lns(c, 0)[ix - 1].1 }), inside == within(c, ix as int, h), at_rows(c, lines@, rows(c, ix as int, h)),
    decreases pieces.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost (a, b) = lns(c, 0)[k];
        proof {
            lns_at(c, 0, k); ends_in_line(ln(c, k)); let e = a + ends_at(ln(c, k));
            assert(ln(c, k).take(ends_at(ln(c, k))) =~= c.subrange(a, e)); sub_bytes(c, a, b); sub_bytes(c, a, e); len_mono(c); off_mono(c, a, b);
        }
//@@ end
//@@ fn crates/ass-editor/core/section_text.rs key_value
//@ret r
//@re line\.trim_start\(\)\.starts_with\(\[';', '#'\]\) => { let t = ltrimmed(line); begins_with(t, ';') || begins_with(t, '#') }
//@re line\.split_once\(':'\) => split_colon(line)
//@re key\.trim\(\) => trimmed(key)
//@re value\.trim\(\) => trimmed(value)
//@spec
    ensures match r { None => keyed(line@) is None, Some((a, b)) => keyed(line@) == Some((a@, b@)) }
//@@ end
//@@ fn crates/ass-editor/core/section_text.rs section_header
//@ret r
//@sig-re Range<usize> => Bytes
//@re let mut offset = 0; => let mut offset: usize = 0; let pieces = lines_of(content); let mut ix: usize = 0;
//@re for line in content\.split_inclusive\('\\n'\) \{ => while ix < pieces.len() { let line = pieces[ix]; ix += 1;
//@re headers\.contains\(&line\.trim_start_matches\('\\u\{FEFF\}'\)\.trim\(\)\) => listed(headers, trimmed(no_bom(line)))
//@re-all line\.len\(\) => blen(line)
//@spec
    requires nbytes(content@) < 0x7fff_ffff
    ensures at_header(content@, r, header_from(content@, 0, texts(headers@)))
//@start
    let ghost c = content@; let ghost h = texts(headers@);
    proof { off_zero(c); }
//@loop 0
    invariant c == content@, h == texts(headers@), nbytes(c) < 0x7fff_ffff, ix <= pieces.len(), pieces.len() == lns(c, 0).len(), forall|k: int| 0 <= k < pieces.len() ==> (#[trigger] pieces@[k])@ == ln(c, k),
        offset == off(c, if ix == 0 { 0 } else { lns(c, 0)[ix - 1].1 }), header_from(c, 0, h) == header_from(c, ix as int, h),
    decreases pieces.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost (a, b) = lns(c, 0)[k];
        proof { lns_at(c, 0, k); sub_bytes(c, a, b); len_mono(c); off_mono(c, a, b); }
//@@ end
