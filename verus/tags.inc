//@@ struct crates/ass-core/analysis/events/tags/types.rs OverrideTag pubfields
//@@ struct crates/ass-core/analysis/events/tags/types.rs TagDiagnostic
//@@ struct crates/ass-core/analysis/events/tags/types.rs DiagnosticKind

// ---- assumed contracts of character and string functions ---------------------------------------------
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
#[verifier::external_body]
fn ascii_digit(c: char) -> (r: bool) ensures r == is_digit(c) { c.is_ascii_digit() }
#[verifier::external_body]
fn ascii_alphabetic(c: char) -> (r: bool) ensures r == is_alpha(c) { c.is_ascii_alphabetic() }
pub uninterp spec fn blank(s: Seq<char>) -> bool;
#[verifier::external_body]
fn trims_to_nothing(s: &str) -> (r: bool) ensures r == blank(s@), s@.len() > 0 && (is_digit(s@[0]) || is_alpha(s@[0])) ==> !r { s.trim().is_empty() }
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }

// ---- specification: an override block, by character index ---------------------------------------------
/// end of the tag name that starts at s (at most one leading digit, then letters; `r` and `fn` end early)
pub open spec fn name_end(c: Seq<char>, s: int, i: int) -> int
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { i }
    else if i == s && is_digit(c[i]) { name_end(c, s, i + 1) }
    else if is_alpha(c[i]) { if c.subrange(s, i + 1) == "r"@ || c.subrange(s, i + 1) == "fn"@ { i + 1 } else { name_end(c, s, i + 1) } }
    else { i }
}
/// end of the arguments of a transform: behind the parenthesis matching the first one
pub open spec fn paren_end(c: Seq<char>, i: int, d: int) -> int
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { c.len() as int }
    else if c[i] == '(' { paren_end(c, i + 1, d + 1) }
    else if c[i] == ')' { if d == 1 { i + 1 } else { paren_end(c, i + 1, d - 1) } }
    else { paren_end(c, i + 1, d) }
}
pub open spec fn slash(c: Seq<char>, i: int) -> int
    decreases c.len() - i
{ if i < 0 || i >= c.len() { c.len() as int } else if c[i] == '\\' { i } else { slash(c, i + 1) } }
pub open spec fn args_end(c: Seq<char>, s: int, e: int) -> int {
    if c.subrange(s, e) == "t"@ && e < c.len() && c[e] == '(' { paren_end(c, e, 0) } else { slash(c, e) }
}
pub proof fn ends_in(c: Seq<char>, s: int, i: int, d: int)
    requires 0 <= s <= i <= c.len()
    ensures i <= name_end(c, s, i) <= c.len(), i <= paren_end(c, i, d) <= c.len(), i <= slash(c, i) <= c.len()
    decreases c.len() - i
{ if i < c.len() { ends_in(c, s, i + 1, d); ends_in(c, s, i + 1, d + 1); ends_in(c, s, i + 1, d - 1); } }
pub proof fn starts_ok(c: Seq<char>, s: int)
    requires 0 <= s < c.len(), name_end(c, s, s) > s
    ensures is_digit(c[s]) || is_alpha(c[s])
{}
/// a tag as the user sees it
pub ghost struct Tag { pub name: Seq<char>, pub args: Seq<char>, pub pos: int }
/// a complaint: the text it quotes and where that text stands
pub ghost struct Note { pub span: Seq<char>, pub at: int, pub kind: DiagnosticKind }
/// tags (notes) of a block from character p on; positions count from `base`
pub open spec fn tags_of(c: Seq<char>, base: int, p: int) -> Seq<Tag>
    decreases c.len() - p
{
    if p < 0 || p >= c.len() { Seq::empty() }
    else if c[p] == '\\' {
        let s = p + 1; let e = name_end(c, s, s);
        if e > s { let a = args_end(c, s, e);
            if a <= p || a > c.len() { Seq::empty() } else { seq![Tag { name: c.subrange(s, e), args: c.subrange(e, a), pos: base + off(c, p) }] + tags_of(c, base, a) } }
        else { tags_of(c, base, if s < c.len() { s + 1 } else { s }) }
    } else { tags_of(c, base, p + 1) }
}
pub open spec fn notes_of(c: Seq<char>, base: int, p: int) -> Seq<Note>
    decreases c.len() - p
{
    if p < 0 || p >= c.len() { Seq::empty() }
    else if c[p] == '\\' {
        let s = p + 1; let e = name_end(c, s, s);
        if e > s { let a = args_end(c, s, e); if a <= p || a > c.len() { Seq::empty() } else { notes_of(c, base, a) } }
        else { let q = if s < c.len() { s + 1 } else { s };
            seq![Note { span: c.subrange(p, q), at: base + off(c, p), kind: DiagnosticKind::EmptyOverride }] + notes_of(c, base, q) }
    } else { notes_of(c, base, p + 1) }
}
pub open spec fn tag_view(t: OverrideTag) -> Tag { Tag { name: t.name@, args: t.args@, pos: t.position as int } }
pub open spec fn note_view(t: TagDiagnostic) -> Note { Note { span: t.span@, at: t.offset as int, kind: t.kind } }
pub open spec fn tseq(v: Seq<OverrideTag>) -> Seq<Tag> { v.map_values(|t: OverrideTag| tag_view(t)) }
pub open spec fn nseq(v: Seq<TagDiagnostic>) -> Seq<Note> { v.map_values(|t: TagDiagnostic| note_view(t)) }
proof fn tags_push(v: Seq<OverrideTag>, t: OverrideTag) ensures tseq(v.push(t)) == tseq(v).push(tag_view(t)) { assert(tseq(v.push(t)) =~= tseq(v).push(tag_view(t))); }
proof fn notes_push(v: Seq<TagDiagnostic>, t: TagDiagnostic) ensures nseq(v.push(t)) == nseq(v).push(note_view(t)) { assert(nseq(v.push(t)) =~= nseq(v).push(note_view(t))); }
proof fn glue<T>(a: Seq<T>, x: T, b: Seq<T>) ensures a.push(x) + b == a + (seq![x] + b) { assert(a.push(x) + b =~= a + (seq![x] + b)); }
/// cost of a tag
pub open spec fn cost(n: Seq<char>) -> int {
    if n == "b"@ || n == "i"@ || n == "u"@ || n == "s"@ || n == "c"@ || n == "1c"@ || n == "2c"@ || n == "3c"@ || n == "4c"@ || n == "alpha"@
        || n == "1a"@ || n == "2a"@ || n == "3a"@ || n == "4a"@ || n == "fn"@ || n == "fs"@ { 1 }
    else if n == "move"@ || n == "fad"@ || n == "fade"@ || n == "frx"@ || n == "fry"@ || n == "frz"@ || n == "fscx"@ || n == "fscy"@ || n == "fsp"@ || n == "clip"@ || n == "iclip"@ { 3 }
    else if n == "t"@ || n == "pbo"@ { 4 } else if n == "p"@ { 5 } else { 2 }
}
