// src/escape.rs
//@include prelude.vrs
//@use html.vrs
pub mod escape {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use crate::prelude::*;
use crate::html::*;
verus! {
broadcast use group_prelude;

//@type list.rs UnorderedListMarker PartialEq Eq Clone Copy
//@type escape.rs EscapeKind PartialEq Eq Clone Copy
//@type escape.rs SingleLineEscape PartialEq Eq Clone Copy
//@type escape.rs MultiLineEscape PartialEq Eq Clone Copy
//@type escape.rs FencedCodeBlockMarker PartialEq Eq Clone Copy
//@type escape.rs ThematicBreakMarker PartialEq Eq Clone Copy
//@type escape.rs SetextHeaderMarker PartialEq Eq Clone Copy

pub open spec fn unordered_char(m: UnorderedListMarker) -> char {
    match m { UnorderedListMarker::Asterisk => '*', UnorderedListMarker::Plus => '+', UnorderedListMarker::Hyphen => '-' }
}
pub open spec fn fence_char(m: FencedCodeBlockMarker) -> char { match m { FencedCodeBlockMarker::Backtick => '`', FencedCodeBlockMarker::Tildes => '~' } }
pub open spec fn break_char(m: ThematicBreakMarker) -> char {
    match m { ThematicBreakMarker::Asterisk => '*', ThematicBreakMarker::Hyphen => '-', ThematicBreakMarker::Underscore => '_' }
}
pub open spec fn setext_char(m: SetextHeaderMarker) -> char { match m { SetextHeaderMarker::H1 => '=', SetextHeaderMarker::H2 => '-' } }
pub open spec fn kind_char(k: EscapeKind) -> char {
    match k {
        EscapeKind::SingleLine(SingleLineEscape::AtxHeader) => '#',
        EscapeKind::SingleLine(SingleLineEscape::BlockQuote) => '>',
        EscapeKind::SingleLine(SingleLineEscape::FencedCodeBlock(m)) => fence_char(m),
        EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(m)) => break_char(m),
        EscapeKind::SingleLine(SingleLineEscape::UnorderedList(m)) => unordered_char(m),
        EscapeKind::MultiLine(MultiLineEscape::SetextHeader(m)) => setext_char(m),
    }
}

impl FromSpecImpl<&UnorderedListMarker> for char {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(m: &UnorderedListMarker) -> char { unordered_char(*m) }
}
impl From<&UnorderedListMarker> for char {
//@fn list.rs From<&UnorderedListMarker>@char::from
//@nopub
//@end
}
impl FromSpecImpl<FencedCodeBlockMarker> for char {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(m: FencedCodeBlockMarker) -> char { fence_char(m) }
}
impl From<FencedCodeBlockMarker> for char {
//@fn escape.rs From<FencedCodeBlockMarker>@char::from
//@nopub
//@end
}
impl FromSpecImpl<ThematicBreakMarker> for char {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(m: ThematicBreakMarker) -> char { break_char(m) }
}
impl From<ThematicBreakMarker> for char {
//@fn escape.rs From<ThematicBreakMarker>@char::from
//@nopub
//@end
}
impl FromSpecImpl<SetextHeaderMarker> for char {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(m: SetextHeaderMarker) -> char { setext_char(m) }
}
impl From<SetextHeaderMarker> for char {
//@fn escape.rs From<SetextHeaderMarker>@char::from
//@nopub
//@end
}

// ------------------------------------------------------------------------------------------------ what a line can be taken for
// The conditions of CommonMark, for a line without its indentation.
/// s starts with n times c, and not with more
pub open spec fn run(s: Seq<char>, c: char, n: int) -> bool {
    0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == c) && (n < s.len() ==> s[n] != c)
}
/// 1 to 6 `#`, then a space, a tab, or the end of the line
pub open spec fn looks_like_atx(s: Seq<char>) -> bool {
    exists|n: int| 1 <= n <= 6 && #[trigger] run(s, '#', n) && (n == s.len() || s[n] == ' ' || s[n] == '\t')
}
/// `-`, `+` or `*`, then a space, a tab, or the end of the line
pub open spec fn looks_like_bullet(s: Seq<char>) -> bool {
    s.len() > 0 && (s[0] == '-' || s[0] == '+' || s[0] == '*') && (s.len() == 1 || s[1] == ' ' || s[1] == '\t')
}
/// Three or more `-`, `_` or `*`, and spaces or tabs
pub open spec fn looks_like_break(s: Seq<char>, c: char) -> bool {
    s.len() > 0 && s[0] == c && (c == '-' || c == '_' || c == '*') && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == c || s[i] == ' ' || s[i] == '\t')
        && (exists|a: int, b: int| 0 < a < b < s.len() && #[trigger] s[a] == c && #[trigger] s[b] == c)
}
/// Any number of `=` or `-`, then spaces or tabs
pub open spec fn looks_like_setext(s: Seq<char>, c: char) -> bool {
    exists|n: int| 1 <= n && #[trigger] run(s, c, n) && (c == '=' || c == '-') && (forall|i: int| n <= i < s.len() ==> #[trigger] s[i] == ' ' || s[i] == '\t')
}
/// Three or more `~`, or three or more backticks and no further backtick
pub open spec fn looks_like_fence(s: Seq<char>) -> bool {
    exists|c: char, n: int| 3 <= n && #[trigger] run(s, c, n) && (c == '~' || c == '`' && forall|i: int| n <= i < s.len() ==> #[trigger] s[i] != '`')
}
pub open spec fn looks_like_quote(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '>' }

/// n leading markers, at most max of them, then whitespace or nothing
pub open spec fn marker_ok(s: Seq<char>, max: int, c: char) -> bool {
    exists|n: int| n <= max && #[trigger] run(s, c, n) && (n == s.len() || sp_is_whitespace(s[n]))
}
pub proof fn lemma_run_unique(s: Seq<char>, c: char, n: int, m: int)
    requires run(s, c, n), run(s, c, m),
    ensures n == m,
{
    if n < m { assert(s[n] == c); }
    if m < n { assert(s[m] == c); }
}

/// only value, a single byte, up to the end
pub open spec fn only(s: Seq<char>, value: u8) -> bool { forall|i: int| 0 <= i < utf8(s).len() ==> #[trigger] utf8(s)[i] == value }
pub open spec fn break_like(s: Seq<char>, value: u8) -> bool {
    (forall|i: int| 0 <= i < utf8(s).len() ==> #[trigger] utf8(s)[i] == value || utf8(s)[i] == 0x20 || utf8(s)[i] == 0x09) && utf8(s).filter(|b: u8| b == value).len() >= 3
}
pub open spec fn fence_like(s: Seq<char>, value: Seq<char>) -> bool {
    let info = trim_start_p(trim_start_p(s, |c: char| c == value[0]), ws());
    text_at(value, s, 0) && (info.len() == 0 || value[0] != '`' || !info.contains('`'))
}
/// The result of needs_escape
pub open spec fn kind_of(s: Seq<char>) -> Option<EscapeKind> {
    if s.len() == 0 { None }
    else if s[0] == '#' { if marker_ok(s, 6, '#') { Some(EscapeKind::SingleLine(SingleLineEscape::AtxHeader)) } else { None } }
    else if s[0] == '=' { if only(trim_end_p(s, ws()), 0x3d) { Some(EscapeKind::MultiLine(MultiLineEscape::SetextHeader(SetextHeaderMarker::H1))) } else { None } }
    else if s[0] == '-' {
        if break_like(s, 0x2d) { Some(EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(ThematicBreakMarker::Hyphen))) }
        else if marker_ok(s, 1, '-') { Some(EscapeKind::SingleLine(SingleLineEscape::UnorderedList(UnorderedListMarker::Hyphen))) }
        else if only(trim_end_p(s, ws()), 0x2d) { Some(EscapeKind::MultiLine(MultiLineEscape::SetextHeader(SetextHeaderMarker::H2))) }
        else { None }
    }
    else if s[0] == '_' { if break_like(s, 0x5f) { Some(EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(ThematicBreakMarker::Underscore))) } else { None } }
    else if s[0] == '*' {
        if break_like(s, 0x2a) { Some(EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(ThematicBreakMarker::Asterisk))) }
        else if marker_ok(s, 1, '*') { Some(EscapeKind::SingleLine(SingleLineEscape::UnorderedList(UnorderedListMarker::Asterisk))) }
        else { None }
    }
    else if s[0] == '+' { if marker_ok(s, 1, '+') { Some(EscapeKind::SingleLine(SingleLineEscape::UnorderedList(UnorderedListMarker::Plus))) } else { None } }
    else if s[0] == '`' { if fence_like(s, fill_seq('`', 3)) { Some(EscapeKind::SingleLine(SingleLineEscape::FencedCodeBlock(FencedCodeBlockMarker::Backtick))) } else { None } }
    else if s[0] == '~' { if fence_like(s, fill_seq('~', 3)) { Some(EscapeKind::SingleLine(SingleLineEscape::FencedCodeBlock(FencedCodeBlockMarker::Tildes))) } else { None } }
    else if s[0] == '>' { Some(EscapeKind::SingleLine(SingleLineEscape::BlockQuote)) }
    else { None }
}
proof fn lemma_filter_three(s: Seq<u8>, p: spec_fn(u8) -> bool, a: int, b: int)
    requires 0 < a < b < s.len(), p(s[0]), p(s[a]), p(s[b]),
    ensures s.filter(p).len() >= 3,
{
    let (x, y, z) = (s.take(a), s.subrange(a, b), s.skip(b));
    assert(s =~= x + (y + z));
    Seq::filter_distributes_over_add(x, y + z, p);
    Seq::filter_distributes_over_add(y, z, p);
    lemma_filter_first(x, p);
    lemma_filter_first(y, p);
    lemma_filter_first(z, p);
}
proof fn lemma_filter_first(s: Seq<u8>, p: spec_fn(u8) -> bool)
    requires s.len() > 0, p(s[0]),
    ensures s.filter(p).len() >= 1,
{
    broadcast use vstd::seq_lib::group_filter_ensures;
    assert(s.filter(p).contains(s[0]));
}
/// Nothing after trimming but c
proof fn lemma_only(s: Seq<char>, c: char)
    requires looks_like_setext(s, c),
    ensures only(trim_end_p(s, ws()), c as u8),
{
    let n = choose|n: int| 1 <= n && #[trigger] run(s, c, n) && (forall|i: int| n <= i < s.len() ==> #[trigger] s[i] == ' ' || s[i] == '\t');
    lemma_trim_end(s, ws());
    let t = trim_end_p(s, ws());
    if t.len() > n { assert(t.last() == s[t.len() - 1]); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == c by { assert(t[i] == s[i]); }
    assert(ascii(t));
    lemma_utf8_ascii(t);
}
/// C12: a line that a parser could take for the start of a construct is recognised, with the right marker, ...
pub proof fn theorem_escape_complete(s: Seq<char>)
    ensures
        looks_like_atx(s) ==> kind_of(s) == Some(EscapeKind::SingleLine(SingleLineEscape::AtxHeader)),
        looks_like_quote(s) ==> kind_of(s) == Some(EscapeKind::SingleLine(SingleLineEscape::BlockQuote)),
        forall|c: char| #[trigger] looks_like_break(s, c) ==> exists|m: ThematicBreakMarker| #[trigger] break_char(m) == c && kind_of(s) == Some(EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(m))),
        looks_like_bullet(s) ==> (kind_of(s) matches Some(EscapeKind::SingleLine(k)) && (k is UnorderedList || k is ThematicBreak)),
        looks_like_setext(s, '=') ==> kind_of(s) == Some(EscapeKind::MultiLine(MultiLineEscape::SetextHeader(SetextHeaderMarker::H1))),
        looks_like_setext(s, '-') ==> kind_of(s) is Some,
        looks_like_fence(s) ==> (kind_of(s) matches Some(EscapeKind::SingleLine(k)) && k is FencedCodeBlock),
{
    if looks_like_atx(s) {
        let n = choose|n: int| 1 <= n <= 6 && #[trigger] run(s, '#', n) && (n == s.len() || s[n] == ' ' || s[n] == '\t');
        assert(s[0] == '#');
        assert(marker_ok(s, 6, '#'));
    }
    assert forall|c: char| #[trigger] looks_like_break(s, c) implies exists|m: ThematicBreakMarker| #[trigger] break_char(m) == c && kind_of(s) == Some(EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(m))) by {
        let (a, b) = choose|a: int, b: int| 0 < a < b < s.len() && #[trigger] s[a] == c && #[trigger] s[b] == c;
        assert(ascii(s));
        lemma_utf8_ascii(s);
        let p = |x: u8| x == c as u8;
        lemma_filter_three(utf8(s), p, a, b);
        assert(break_like(s, c as u8));
        let m = if c == '*' { ThematicBreakMarker::Asterisk } else if c == '-' { ThematicBreakMarker::Hyphen } else { ThematicBreakMarker::Underscore };
        assert(break_char(m) == c && kind_of(s) == Some(EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(m))));
    }
    if looks_like_bullet(s) {
        if s.len() > 1 { assert(run(s, s[0], 1)); } else { assert(run(s, s[0], 1)); }
        assert(marker_ok(s, 1, s[0]));
    }
    if looks_like_setext(s, '=') { lemma_only(s, '='); }
    if looks_like_setext(s, '-') { lemma_only(s, '-'); }
    if looks_like_fence(s) {
        let (c, n) = choose|c: char, n: int| 3 <= n && #[trigger] run(s, c, n) && (c == '~' || c == '`' && forall|i: int| n <= i < s.len() ==> #[trigger] s[i] != '`');
        let v = fill_seq(c, 3);
        assert(s.subrange(0, 3) =~= v);
        let p = |x: char| x == v[0];
        let t = trim_start_p(s, p);
        lemma_take_while(s, p);
        lemma_take_while(t, ws());
        let info = trim_start_p(t, ws());
        assert(info =~= s.skip(s.len() - info.len()));
        if c == '`' {
            let k = take_while(s, p).len();
            if k < n { assert(p(s[k as int])); }
            assert forall|i: int| 0 <= i < info.len() implies #[trigger] info[i] != '`' by { assert(info[i] == s[s.len() - info.len() + i]); }
        }
        assert(fence_like(s, v));
    }
}
/// ... and nothing is escaped but that marker, which is ASCII punctuation (so a backslash before it never shows).
pub proof fn theorem_escape_sound(s: Seq<char>)
    ensures kind_of(s) is Some ==> s.len() > 0 && s[0] == kind_char(kind_of(s)->Some_0) && sp_is_ascii_punctuation(s[0]),
{
}

//@fn escape.rs needs_escape
//@ret r
//@shape 1 11
//@closure 0
    -> (vx_r: bool) ensures vx_r == marker_ok(input@, max_marker_count as int, marker),
//@closure 1
    -> (vx_r: bool) ensures vx_r == (forall|i: int| 0 <= i < input@.len() ==> #[trigger] input@[i] == marker),
//@closure 3
    -> (vx_r: bool) ensures vx_r == marker_ok(input@, 6, '#'),
//@closure 4
    -> (vx_r: bool) ensures vx_r == only(trim_end_p(input@, ws()), value),
//@closure 6
    -> (vx_r: bool) ensures vx_r == marker_ok(input@, 1, value),
//@closure 7
    -> (vx_r: bool) ensures vx_r == break_like(input@, value),
//@closure 10
    -> (vx_r: bool) requires value@.len() > 0, ensures vx_r == fence_like(input@, value@),
//@loop 0
    invariant_except_break
        0 <= leading_marker_count <= input@.len() <= isize::MAX,
        vx_it0@ == input@.skip(leading_marker_count as int),
        forall|i: int| 0 <= i < leading_marker_count ==> #[trigger] input@[i] == marker,
        !whitespace_after_marker,
    ensures
        run(input@, marker, leading_marker_count as int),
        whitespace_after_marker == (leading_marker_count < input@.len() && sp_is_whitespace(input@[leading_marker_count as int])),
    decreases vx_it0@.len(),
//@proof before marker != '`'
    proof {
        let t = info_string@;
        assert((exists|k: int| #[trigger] '`'.at(t, k)) == t.contains('`')) by {
            if t.contains('`') { let i = choose|i: int| 0 <= i < t.len() && t[i] == '`'; assert('`'.at(t, i)); }
        }
    }
//@proof before leading_marker_count <=
    proof {
        assert(run(input@, marker, leading_marker_count as int));
        assert(leading_marker_count < input@.len() ==> input@[leading_marker_count as int] != marker);
        assert forall|n: int| #[trigger] run(input@, marker, n) implies n == leading_marker_count by { lemma_run_unique(input@, marker, n, leading_marker_count as int); }
    }
//@spec
    ensures r == kind_of(input@),
//@end

impl EscapeKind {
//@fn escape.rs EscapeKind::marker
//@ret r
//@spec
    ensures r == kind_char(*self),
//@end

//@fn escape.rs EscapeKind::multi_character_escape
//@ret r
//@spec
    ensures r == (*self matches EscapeKind::SingleLine(SingleLineEscape::FencedCodeBlock(_)) || *self matches EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(_))),
//@end
}

/// A backslash before each c
pub open spec fn escape_each(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else if s.last() == c { escape_each(s.drop_last(), c) + seq!['\\', c] } else { escape_each(s.drop_last(), c).push(s.last()) }
}
pub open spec fn multi(k: EscapeKind) -> bool {
    k matches EscapeKind::SingleLine(SingleLineEscape::FencedCodeBlock(_)) || k matches EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(_))
}
/// The text of a line that could start a block
pub open spec fn escape_line(s: Seq<char>) -> Seq<char> {
    match kind_of(s) {
        None => s,
        Some(k) => if multi(k) { escape_each(s, kind_char(k)) } else { seq!['\\'] + s },
    }
}
pub proof fn lemma_escape_each(s: Seq<char>, c: char)
    ensures s.len() > 0 && s[0] == c ==> escape_each(s, c).len() > 0 && escape_each(s, c)[0] == '\\',
    decreases s.len(),
{
    if s.len() > 1 { lemma_escape_each(s.drop_last(), c); }
    if s.len() == 1 && s[0] == c { assert(escape_each(s.drop_last(), c) =~= seq![]); assert(escape_each(s, c) =~= seq!['\\', c]); }
}
/// C10, C12: the line of a setext heading that could start a block starts with a backslash instead
pub proof fn theorem_escape_line(s: Seq<char>)
    ensures
        kind_of(escape_line(s)) is None,
        kind_of(s) is None ==> escape_line(s) == s,
        kind_of(s) is Some ==> escape_line(s)[0] == '\\',
{
    if kind_of(s) is Some { lemma_escape_each(s, kind_char(kind_of(s)->Some_0)); }
}
// ------------------------------------------------------------------ lines that could start a block
/// Zeros, a 1, a `.` or `)`, and a space or tab: an ordered list that can interrupt a paragraph
pub open spec fn ordered_marker(s: Seq<char>, k: int) -> bool {
    run(s, '0', k) && k + 2 < s.len() && s[k] == '1' && (s[k + 1] == '.' || s[k + 1] == ')') && (s[k + 2] == ' ' || s[k + 2] == '\t')
}
pub open spec fn looks_like_ordered(s: Seq<char>) -> bool { exists|k: int| #[trigger] ordered_marker(s, k) }
proof fn lemma_trim_run(s: Seq<char>, c: char) -> (k: int)
    ensures run(s, c, k), trim_start_p(s, pat(c)) == s.skip(k),
    decreases s.len(),
{
    reveal_with_fuel(skip_while, 2);
    if s.len() == 0 || s[0] != c {
        assert(s.skip(0) =~= s);
        0
    } else {
        let t = s.skip(1);
        let k = lemma_trim_run(t, c);
        assert(t.skip(k) =~= s.skip(k + 1));
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] s[i] == c by { if i > 0 { assert(t[i - 1] == c); } }
        if k < t.len() { assert(t[k] == s[k + 1]); }
        k + 1
    }
}

//@fn escape.rs split_ordered_list_marker
//@ret r
//@proof start
    proof {
        let k = lemma_trim_run(input@, '0');
        assert forall|j: int| #[trigger] run(input@, '0', j) implies j == k by { lemma_run_unique(input@, '0', j, k); }
        if k < input@.len() && input@[k] == '1' {
            assert(input@.skip(k).skip(1) =~= input@.skip(k + 1));
            lemma_blen_split(input@, k + 1);
            lemma_cix(input@, k + 1);
            lemma_bdy(input@, k + 1);
            if k + 1 < input@.len() {
                assert(input@.skip(k + 1).skip(1) =~= input@.skip(k + 2));
                if k + 2 < input@.len() { assert(input@.skip(k + 2)[0] == input@[k + 2]); }
            }
            assert(blen(input@) - blen(input@.skip(k + 1)) == blen(input@.take(k + 1)));
        }
        if looks_like_ordered(input@) { let j = choose|j: int| #[trigger] ordered_marker(input@, j); assert(run(input@, '0', j)); assert(ordered_marker(input@, k)); }
        if k + 2 < input@.len() && input@[k] == '1' && (input@[k + 1] == '.' || input@[k + 1] == ')') && (input@[k + 2] == ' ' || input@[k + 2] == '\t') { assert(ordered_marker(input@, k)); }
    }
//@spec
    ensures
        match r {
            Some((number, rest)) => exists|k: int| #[trigger] ordered_marker(input@, k) && number@ == input@.take(k + 1) && rest@ == input@.skip(k + 1),
            None => !looks_like_ordered(input@),
        },
//@end

/// What could be the name of an HTML tag
pub open spec fn html_name(s: Seq<char>) -> Seq<char> {
    trim_end_p(split_p(s, pat(VxAny3('>', ' ', '\t')))[0], pat('/'))
}
//@fn escape.rs could_start_block
//@ret r
//@closure 0
    -> (vx_r: bool) ensures vx_r == html_like(html_name(html@)),
//@spec
    ensures r == (line@.len() > 0 && line@[0] == '<' && html_like(html_name(line@.skip(1))) || kind_of(line@) is Some || looks_like_ordered(line@)),
//@end

proof fn lemma_split_first(s: Seq<char>, p: spec_fn(char) -> bool, m: int)
    requires 0 <= m <= s.len(), forall|i: int| 0 <= i < m ==> !p(#[trigger] s[i]), m == s.len() || p(s[m]),
    ensures split_p(s, p).len() > 0, split_p(s, p)[0] == s.take(m),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s.take(0) =~= s);
    } else {
        let d = s.drop_last();
        if m == s.len() {
            assert forall|i: int| 0 <= i < d.len() implies !p(#[trigger] d[i]) by { assert(d[i] == s[i]); }
            lemma_split_first(d, p, d.len() as int);
            assert(!p(s.last()));
            lemma_split_one(d, p);
            assert(split_p(s, p)[0] =~= s.take(m));
        } else {
            assert forall|i: int| 0 <= i < m implies !p(#[trigger] d[i]) by { assert(d[i] == s[i]); }
            if m < d.len() { assert(p(d[m])); }
            lemma_split_first(d, p, m);
            assert(d.take(m) =~= s.take(m));
            if m < d.len() { lemma_split_two(d, p, m); }
        }
    }
}
/// There is one piece if nothing matches ...
proof fn lemma_split_one(s: Seq<char>, p: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i]),
    ensures split_p(s, p) == seq![s],
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !p(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        lemma_split_one(d, p);
        assert(!p(s.last()));
        assert(d.push(s.last()) =~= s);
        assert(split_p(s, p) =~= seq![s]);
    }
}
/// ... and more if something does
proof fn lemma_split_two(s: Seq<char>, p: spec_fn(char) -> bool, m: int)
    requires 0 <= m < s.len(), p(s[m]),
    ensures split_p(s, p).len() >= 2,
    decreases s.len(),
{
    let d = s.drop_last();
    if m == d.len() {
        lemma_split_some(d, p);
    } else {
        assert(d[m] == s[m]);
        lemma_split_two(d, p, m);
    }
}
proof fn lemma_split_some(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures split_p(s, p).len() > 0,
    decreases s.len(),
{
    if s.len() > 0 { lemma_split_some(s.drop_last(), p); }
}
/// A line that starts with `<`, perhaps `/`, the name of a block's tag in any case, and then the end of the line, a space,
/// a tab, `>` or `/>`
pub open spec fn looks_like_tag(s: Seq<char>, from: int, t: Seq<char>) -> bool {
    let end = from + t.len();
    &&& (from == 1 && (tag_1(t) || tag_6(t)) || from == 2 && tag_6(t) && s[1] == '/')
    &&& end <= s.len() && s[0] == '<' && eq_ci(t, s.subrange(from, end))
    &&& end == s.len() || s[end] == ' ' || s[end] == '\t' || s[end] == '>' || s[end] == '/' && end + 1 < s.len() && s[end + 1] == '>'
}
pub open spec fn looks_like_html(s: Seq<char>) -> bool { exists|from: int, t: Seq<char>| #[trigger] looks_like_tag(s, from, t) }
proof fn lemma_html_name(s: Seq<char>, from: int, t: Seq<char>)
    requires looks_like_tag(s, from, t),
    ensures starts_block(html_name(s.skip(1))),
{
    lemma_tags(t);
    let n = t.len() as int;
    let end = from + n;
    let u = s.subrange(from, end);
    let r = s.skip(1);
    let p = pat(VxAny3('>', ' ', '\t'));
    let slash = end < s.len() && s[end] == '/';
    let m = if slash { end } else { end - 1 };
    assert forall|i: int| 0 <= i < m implies !p(#[trigger] r[i]) by {
        assert(r[i] == s[i + 1]);
        if from <= i + 1 < end { assert(u[i + 1 - from] == s[i + 1]); assert(lower(t[i + 1 - from]) == lower(u[i + 1 - from])); assert(sp_is_ascii_alphanumeric(t[i + 1 - from])); }
    }
    if m < r.len() { assert(r[m] == s[m + 1]); }
    lemma_split_first(r, p, m);
    let w = r.take(m);
    lemma_trim_end(w, pat('/'));
    let k = trim_end_p(w, pat('/')).len() as int;
    let last = end - 2;
    assert(w[last] == s[end - 1] && u[n - 1] == s[end - 1] && lower(t[n - 1]) == lower(u[n - 1]) && sp_is_ascii_alphanumeric(t[n - 1]));
    if k <= last { assert(pat('/')(w[last])); }
    if k > last + 1 { assert(slash && k == m); assert(w[m - 1] == '/'); }
    let name = html_name(r);
    assert(name =~= r.take(end - 1));
    assert(name.subrange(from - 1, end - 1) =~= u);
    assert(tag_then_space(name, from - 1, n, t));
    if from == 2 { assert(name[0] == s[1]); }
}
/// C12, C13: a line of inline code or inline HTML that would start a block when it isn't indented is recognised.
pub proof fn theorem_start_complete(s: Seq<char>)
    requires looks_like_html(s) || looks_like_ordered(s) || looks_like_atx(s) || looks_like_bullet(s) || looks_like_quote(s) || looks_like_fence(s) || looks_like_break(s, '-') || looks_like_break(s, '*') || looks_like_break(s, '_') || looks_like_setext(s, '=') || looks_like_setext(s, '-'),
    ensures s.len() > 0 && s[0] == '<' && html_like(html_name(s.skip(1))) || kind_of(s) is Some || looks_like_ordered(s),
{
    if looks_like_html(s) {
        let (from, t) = choose|from: int, t: Seq<char>| #[trigger] looks_like_tag(s, from, t);
        lemma_html_name(s, from, t);
        theorem_html_complete(html_name(s.skip(1)));
    } else if !looks_like_ordered(s) {
        theorem_escape_complete(s);
    }
}
}
}
