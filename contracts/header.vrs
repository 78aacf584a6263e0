// src/header.rs: the text of headings
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use escape.vrs
pub mod header {
use vstd::prelude::*;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::escape::*;
verus! {
broadcast use group_prelude;

//@type writer.rs MarkdownContext
//@type header.rs HeaderKind Clone Copy
//@type header.rs Header

// ------------------------------------------------------------------------------------------------ closing sequences
pub open spec fn hash() -> spec_fn(char) -> bool { pat('#') }
/// What is before the `#` at the end
pub open spec fn before_hashes(s: Seq<char>) -> Seq<char> { trim_end_p(trim_end_p(s, ws()), hash()) }
/// s ends with `#` that CommonMark reads as a closing sequence: after white space (or nothing), and not escaped
pub open spec fn closing(s: Seq<char>) -> bool {
    let t = trim_end_p(s, ws());
    let n = before_hashes(s);
    t.len() > 0 && t.last() == '#' && !ends_on_escape(n) && (n.len() == 0 || sp_is_whitespace(n.last()))
}
proof fn lemma_before_hashes(s: Seq<char>)
    ensures
        trim_end_p(before_hashes(s), ws()).len() <= before_hashes(s).len() <= trim_end_p(s, ws()).len() <= s.len(),
        closing(s) ==> before_hashes(s).len() < trim_end_p(s, ws()).len(),
        trim_end_p(before_hashes(s), ws()) == s.take(trim_end_p(before_hashes(s), ws()).len() as int),
{
    let t = trim_end_p(s, ws());
    let n = before_hashes(s);
    lemma_trim_end(s, ws());
    lemma_trim_end(t, hash());
    lemma_trim_end(n, ws());
    let k = trim_end_p(n, ws()).len() as int;
    assert(trim_end_p(n, ws()) =~= s.take(k));
    if closing(s) && n.len() == t.len() { assert(hash()(t.last())); }
}
/// s without all of its closing sequences
pub open spec fn strip_closing(s: Seq<char>) -> Seq<char>
    decreases s.len()
    via strip_closing_decreases
{
    if closing(s) { strip_closing(trim_end_p(before_hashes(s), ws())) } else { s }
}
#[via_fn]
proof fn strip_closing_decreases(s: Seq<char>) { lemma_before_hashes(s); }
/// C10: nothing but closing sequences is removed, and none of them is left
pub proof fn theorem_strip_closing(s: Seq<char>)
    ensures
        !closing(strip_closing(s)),
        !closing(s) ==> strip_closing(s) == s,
        strip_closing(s).len() <= s.len(),
        strip_closing(s) == s.take(strip_closing(s).len() as int),
        forall|i: int| strip_closing(s).len() <= i < s.len() ==> #[trigger] s[i] == '#' || sp_is_whitespace(s[i]),
    decreases s.len(),
{
    if closing(s) {
        lemma_before_hashes(s);
        let t = trim_end_p(s, ws());
        let n = before_hashes(s);
        let m = trim_end_p(n, ws());
        lemma_trim_end(s, ws());
        lemma_trim_end(t, hash());
        lemma_trim_end(n, ws());
        theorem_strip_closing(m);
        let k = strip_closing(s).len() as int;
        assert(m.take(k) =~= s.take(k));
        assert forall|i: int| k <= i < s.len() implies #[trigger] s[i] == '#' || sp_is_whitespace(s[i]) by {
            if i < m.len() { assert(m[i] == s[i]); }
            else if i < n.len() { assert(ws()(n[i])); assert(n[i] == s[i]); }
            else if i < t.len() { assert(hash()(t[i])); assert(t[i] == s[i]); }
            else { assert(ws()(s[i])); }
        }
    } else {
        assert(s.take(s.len() as int) =~= s);
    }
}
/// A heading with attributes keeps its `#`: the first one of the last run is escaped
pub open spec fn escape_closing(s: Seq<char>) -> Seq<char> {
    let t = trim_end_p(s, ws());
    let n = trim_end_p(t, hash());
    if ends_on_escape(n) { t } else { n + seq!['\\'] + fill_seq('#', t.len() - n.len()) }
}

// ------------------------------------------------------------------------------------------------ empty attributes
pub open spec fn not_ws() -> spec_fn(char) -> bool { |c: char| !sp_is_whitespace(c) }
pub open spec fn nl_pat() -> spec_fn(char) -> bool { pat(VxAny2('\r', '\n')) }
/// The line ends with `{}`, which would be attributes
pub open spec fn empty_attrs(line: Seq<char>) -> bool {
    let t = trim_end_p(line, ws());
    let u = trim_end_p(t.drop_last(), ws());
    t.len() > 1 && t.last() == '}' && u.len() > 0 && u.last() == '{'
}
proof fn lemma_filter_rev(x: Seq<char>)
    ensures ({
        let f = rev(x).filter(not_ws());
        let t = trim_end_p(x, ws());
        &&& (f.len() == 0) == (t.len() == 0)
        &&& t.len() > 0 ==> f[0] == t.last() && f.skip(1) =~= rev(t.drop_last()).filter(not_ws())
    }),
    decreases x.len(),
{
    reveal(Seq::filter);
    let p = not_ws();
    if x.len() == 0 {
    } else {
        let d = x.drop_last();
        assert(rev(x) =~= seq![x.last()] + rev(d));
        Seq::filter_distributes_over_add(seq![x.last()], rev(d), p);
        assert(seq![x.last()].drop_last() =~= seq![]);
        assert(seq![x.last()].drop_last().filter(p) =~= seq![]);
        if sp_is_whitespace(x.last()) {
            assert(seq![x.last()].filter(p) =~= seq![]);
            assert(rev(x).filter(p) =~= rev(d).filter(p));
            lemma_filter_rev(d);
        } else {
            assert(seq![x.last()].filter(p) =~= seq![x.last()]);
        }
    }
}
proof fn lemma_empty_attrs(line: Seq<char>)
    ensures ({
        let f = rev(line).filter(not_ws());
        empty_attrs(line) == (f.len() >= 2 && f[0] == '}' && f[1] == '{')
    }),
{
    let f = rev(line).filter(not_ws());
    let t = trim_end_p(line, ws());
    lemma_filter_rev(line);
    if t.len() > 0 {
        lemma_filter_rev(t.drop_last());
        assert(f.len() > 1 ==> f.skip(1)[0] == f[1]);
        lemma_trim_end(t.drop_last(), ws());
    }
}
/// The index of the last char that matches
pub open spec fn last_at(s: Seq<char>, p: spec_fn(char) -> bool) -> int { s.len() - after_last(s, p).len() - 1 }
proof fn lemma_after_last(s: Seq<char>, p: spec_fn(char) -> bool, k: int)
    requires -1 <= k < s.len(), k >= 0 ==> p(s[k]), forall|i: int| k < i < s.len() ==> !p(#[trigger] s[i]),
    ensures after_last(s, p) == s.skip(k + 1), last_at(s, p) == k,
    decreases s.len(),
{
    if s.len() > 0 && k < s.len() - 1 {
        let d = s.drop_last();
        assert forall|i: int| k < i < d.len() implies !p(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        lemma_after_last(d, p, k);
        assert(d.skip(k + 1).push(s.last()) =~= s.skip(k + 1));
    } else {
        assert(s.skip(k + 1) =~= seq![]);
    }
}
/// Where the attributes could be: the last line
pub open spec fn last_line(s: Seq<char>, setext: bool) -> Seq<char> { if setext { after_last(s, nl_pat()) } else { s } }
/// An empty pair of braces at the end is escaped
pub open spec fn escape_braces(s: Seq<char>, setext: bool) -> Seq<char> {
    let t = trim_end_p(s, ws());
    if empty_attrs(last_line(t, setext)) {
        let k = last_at(t, pat('{'));
        t.take(k) + (if ends_on_escape(t.take(k)) { seq!['{', '\\', '}'] } else { seq!['\\', '{', '\\', '}'] })
    } else { t }
}
/// What escape_braces replaces is a pair of braces with white space between them
pub proof fn theorem_escape_braces(s: Seq<char>, setext: bool)
    requires empty_attrs(last_line(trim_end_p(s, ws()), setext)),
    ensures ({
        let t = trim_end_p(s, ws());
        let k = last_at(t, pat('{'));
        &&& 0 <= k < t.len() - 1 && t[k] == '{' && t.last() == '}'
        &&& forall|i: int| k < i < t.len() - 1 ==> sp_is_whitespace(#[trigger] t[i])
    }),
{
    let t = trim_end_p(s, ws());
    let l = last_line(t, setext);
    lemma_trim_end(s, ws());
    let d = t.len() - l.len();
    if setext { lemma_after_last_skip(t, nl_pat()); } else { assert(t.skip(0) =~= t); }
    assert(l =~= t.skip(d));
    lemma_trim_end(l, ws());
    let t2 = trim_end_p(l, ws());
    if t2.len() < l.len() { assert(ws()(l.last())); assert(l.last() == t.last()); }
    assert(t2 =~= l);
    let u = trim_end_p(l.drop_last(), ws());
    lemma_trim_end(l.drop_last(), ws());
    let k = d + u.len() - 1;
    assert(u.last() == l[u.len() - 1]);
    assert(t[k] == '{');
    assert(t.last() == '}');
    assert forall|i: int| k < i < t.len() - 1 implies sp_is_whitespace(#[trigger] t[i]) by { assert(t[i] == l[i - d]); assert(l.drop_last()[i - d] == t[i]); assert(ws()(l.drop_last()[i - d])); }
    assert forall|i: int| k < i < t.len() implies !pat('{')(#[trigger] t[i]) by { if i < t.len() - 1 { assert(sp_is_whitespace(t[i])); } }
    lemma_after_last(t, pat('{'), k);
}
proof fn lemma_after_last_skip(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures after_last(s, p).len() <= s.len(), after_last(s, p) == s.skip(s.len() - after_last(s, p).len()),
    decreases s.len(),
{
    if s.len() == 0 || p(s.last()) { assert(s.skip(s.len() as int) =~= seq![]); } else {
        lemma_after_last_skip(s.drop_last(), p);
        let n = after_last(s.drop_last(), p).len() as int;
        assert(s.drop_last().skip(s.drop_last().len() - n).push(s.last()) =~= s.skip(s.len() - n - 1));
    }
}
proof fn lemma_cix_next(s: Seq<char>, b: int)
    requires bdy(s, b), cix(s, b) < s.len(),
    ensures bdy(s, b + ulen(s[cix(s, b)])), cix(s, b + ulen(s[cix(s, b)])) == cix(s, b) + 1, b + ulen(s[cix(s, b)]) <= blen(s),
{
    lemma_cix_inv(s, b);
    let k = cix(s, b);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    lemma_bdy(s, k + 1);
}

// ------------------------------------------------------------------------------------------------ attributes
/// The attributes in the order they're written
pub open spec fn id_items(id: Option<CowStr<'_>>) -> Seq<Seq<char>> { match id { Some(i) => seq![seq!['#'] + i@], None => seq![] } }
pub open spec fn class_items(classes: Seq<CowStr<'_>>) -> Seq<Seq<char>> { Seq::new(classes.len(), |i: int| seq!['.'] + classes[i]@) }
pub open spec fn custom_item(a: (CowStr<'_>, Option<CowStr<'_>>)) -> Seq<char> { match a.1 { Some(v) => a.0@ + seq!['='] + v@, None => a.0@ } }
pub open spec fn custom_items(attrs: Seq<(CowStr<'_>, Option<CowStr<'_>>)>) -> Seq<Seq<char>> { Seq::new(attrs.len(), |i: int| custom_item(attrs[i])) }
pub open spec fn attr_items(id: Option<CowStr<'_>>, classes: Seq<CowStr<'_>>, attrs: Seq<(CowStr<'_>, Option<CowStr<'_>>)>) -> Seq<Seq<char>> {
    id_items(id) + class_items(classes) + custom_items(attrs)
}
/// Each of them after a space
pub open spec fn spaced(items: Seq<Seq<char>>) -> Seq<char>
    decreases items.len()
{
    if items.len() == 0 { seq![] } else { spaced(items.drop_last()) + seq![' '] + items.last() }
}
/// ... but not the first one
pub open spec fn unspaced(items: Seq<Seq<char>>) -> Seq<char> { if items.len() == 0 { seq![] } else { spaced(items).skip(1) } }
pub open spec fn part(items: Seq<Seq<char>>, first: bool) -> Seq<char> { if first { unspaced(items) } else { spaced(items) } }
proof fn lemma_spaced_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures spaced(a + b) == spaced(a) + spaced(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_spaced_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(spaced(a + b) =~= spaced(a) + spaced(b));
    }
}
/// The parts of a list are written one after the other
pub proof fn lemma_part_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>, first: bool)
    ensures part(a + b, first) == part(a, first) + part(b, first && a.len() == 0),
{
    lemma_spaced_add(a, b);
    lemma_spaced_first(a);
    if a.len() == 0 { assert(a + b =~= b); }
    assert(part(a + b, first) =~= part(a, first) + part(b, first && a.len() == 0));
}
proof fn lemma_spaced_first(a: Seq<Seq<char>>)
    ensures a.len() > 0 ==> spaced(a).len() > 0 && spaced(a)[0] == ' ',
    decreases a.len(),
{
    if a.len() > 0 { lemma_spaced_first(a.drop_last()); assert(spaced(a) =~= spaced(a.drop_last()) + (seq![' '] + a.last())); }
}
proof fn lemma_part_step(a: Seq<Seq<char>>, k: int, first: bool)
    requires 0 <= k < a.len(),
    ensures part(a.take(k + 1), first) == part(a.take(k), first) + (if k == 0 && first { seq![] } else { seq![' '] }) + a[k],
{
    assert(a.take(k + 1).drop_last() =~= a.take(k));
    lemma_spaced_first(a.take(k));
    if k == 0 { assert(a.take(0) =~= seq![]); }
    assert(part(a.take(k + 1), first) =~= part(a.take(k), first) + (if k == 0 && first { seq![] } else { seq![' '] }) + a[k]);
}

proof fn lemma_filter_none(s: Seq<u8>, p: spec_fn(u8) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i]),
    ensures s.filter(p).len() == 0,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(!p(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !p(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_filter_none(s.drop_last(), p);
    }
}
// ------------------------------------------------------------------------------------------------ setext headings
pub open spec fn quote_or_ws() -> spec_fn(char) -> bool { |c: char| sp_is_whitespace(c) || c == '>' }
/// The source of a heading has several lines and ends with an underline
pub open spec fn setext_like(s: Seq<char>) -> bool { within(VxAny2('\r', '\n'), s) && (s.last() == '=' || s.last() == '-') }
/// ... which is its last line, without the markers of the containers
pub open spec fn underline(s: Seq<char>) -> Seq<char> { trim_end_p(trim_start_p(after_last(str_lines(s).last(), pat('\r')), quote_or_ws()), ws()) }
pub open spec fn brace_line(l: Seq<char>) -> bool { let t = trim_start_p(l, quote_or_ws()); t.len() > 0 && t[0] == '{' }
pub open spec fn sp_ws_end(s: Seq<char>) -> bool { s.len() > 0 && sp_is_whitespace(s.last()) }
proof fn lemma_trim_step(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures
        s.len() > 0 && p(s.last()) ==> trim_end_p(s, p) == trim_end_p(s.drop_last(), p),
        s.len() == 0 || !p(s.last()) ==> trim_end_p(s, p) == s,
{
}
proof fn lemma_rev_indices(t: Seq<char>)
    ensures
        rev(sp_char_indices(t)).len() == t.len(),
        forall|i: int| 0 <= i < t.len() ==> (#[trigger] rev(sp_char_indices(t))[i]).1 == t[t.len() - 1 - i] && rev(sp_char_indices(t))[i].0 == blen(t.take(t.len() - 1 - i)) as usize,
{
}
/// ... in the reversed char_indices
pub open spec fn first_other(ci: Seq<(usize, char)>, idx: usize, n: usize) -> bool {
    ||| exists|k: int| 0 <= k < ci.len() && (#[trigger] ci[k]).1 != '#' && ci[k].0 == idx && n == ulen(ci[k].1) && forall|i: int| 0 <= i < k ==> (#[trigger] ci[i]).1 == '#'
    ||| idx == 0 && n == 0 && forall|i: int| 0 <= i < ci.len() ==> (#[trigger] ci[i]).1 == '#'
}
proof fn lemma_first_other(t: Seq<char>, idx: usize, n: usize)
    requires first_other(rev(sp_char_indices(t)), idx, n),
    ensures last_other(t, idx, n),
{
    lemma_rev_indices(t);
    let ci = rev(sp_char_indices(t));
    if exists|k: int| 0 <= k < ci.len() && (#[trigger] ci[k]).1 != '#' && ci[k].0 == idx && n == ulen(ci[k].1) && forall|i: int| 0 <= i < k ==> (#[trigger] ci[i]).1 == '#' {
        let k = choose|k: int| 0 <= k < ci.len() && (#[trigger] ci[k]).1 != '#' && ci[k].0 == idx && n == ulen(ci[k].1) && forall|i: int| 0 <= i < k ==> (#[trigger] ci[i]).1 == '#';
        let j = t.len() - 1 - k;
        assert forall|m: int| j < m < t.len() implies #[trigger] t[m] == '#' by { assert(ci[t.len() - 1 - m].1 == '#'); }
        assert(found(t, j, idx, n));
    } else {
        assert forall|m: int| 0 <= m < t.len() implies #[trigger] t[m] == '#' by { assert(ci[t.len() - 1 - m].1 == '#'); }
    }
}
pub open spec fn found(t: Seq<char>, j: int, idx: usize, n: usize) -> bool {
    0 <= j < t.len() && t[j] != '#' && idx == blen(t.take(j)) as usize && n == ulen(t[j])
}
/// What escape_trailing_hashtag finds: the last char that isn't `#`
pub open spec fn last_other(t: Seq<char>, idx: usize, n: usize) -> bool {
    ||| exists|j: int| #[trigger] found(t, j, idx, n) && forall|i: int| j < i < t.len() ==> #[trigger] t[i] == '#'
    ||| idx == 0 && n == 0 && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == '#'
}
proof fn lemma_last_other(t: Seq<char>, n: Seq<char>, idx: usize, byte_len: usize)
    requires last_other(t, idx, byte_len), n == trim_end_p(t, hash()), blen(t) <= isize::MAX,
    ensures idx + byte_len == blen(n), bdy(t, blen(n) as int), cix(t, blen(n) as int) == n.len(), blen(n) <= blen(t), n == t.take(n.len() as int), n.len() <= t.len(),
{
    lemma_trim_end(t, hash());
    let k = n.len() as int;
    lemma_bdy(t, k);
    if exists|j: int| #[trigger] found(t, j, idx, byte_len) && forall|i: int| j < i < t.len() ==> #[trigger] t[i] == '#' {
        let j = choose|j: int| #[trigger] found(t, j, idx, byte_len) && forall|i: int| j < i < t.len() ==> #[trigger] t[i] == '#';
        if j >= k { assert(hash()(t[j])); }
        if j < k - 1 { assert(t[k - 1] == n.last()); }
        lemma_bdy(t, j);
        assert(t.take(k).drop_last() =~= t.take(j));
    } else {
        if k > 0 { assert(t[k - 1] == n.last()); }
    }
}
//@fn header.rs rewirte_header_classes
//@generics
//@inputs writer: &mut String, classes: Vec<CowStr<'_>>, trim_start: bool
//@ret r
//@spec
    ensures r is Ok, final(writer)@ == old(writer)@ + part(class_items(classes@), trim_start),
//@proof loop 0 before
    let ghost items = class_items(classes@);
    let ghost n = vx_it0@.len() as int;
    assert(items.take(0) =~= seq![]);
//@loop 0
    invariant
        vx_it0@.len() <= n == classes@.len() == items.len(), items == class_items(classes@),
        forall|i: int| 0 <= i < vx_it0@.len() ==> (#[trigger] vx_it0@[i]).0 == n - vx_it0@.len() + i && *vx_it0@[i].1 == classes@[n - vx_it0@.len() + i],
        writer@ == old(writer)@ + part(items.take(n - vx_it0@.len()), trim_start),
    decreases vx_it0@.len(),
//@proof loop 0 begin
    let ghost w0 = writer@;
    let ghost k = idx as int;
//@proof loop 0 end
    proof {
        lemma_part_step(items, k, trim_start);
        assert(items[k] == seq!['.'] + classes@[k]@);
        assert(writer@ =~= old(writer)@ + part(items.take(k + 1), trim_start));
    }
//@proof loop 0 after
    assert(items.take(n) =~= items);
//@end

//@fn header.rs rewrite_custom_attrs
//@generics
//@inputs writer: &mut String, attrs: Vec<(CowStr<'_>, Option<CowStr<'_>>)>, trim_start: bool
//@ret r
//@spec
    ensures r is Ok, final(writer)@ == old(writer)@ + part(custom_items(attrs@), trim_start),
//@proof loop 0 before
    let ghost items = custom_items(attrs@);
    let ghost n = vx_it0@.len() as int;
    assert(items.take(0) =~= seq![]);
//@loop 0
    invariant
        vx_it0@.len() <= n == attrs@.len() == items.len(), items == custom_items(attrs@),
        forall|i: int| 0 <= i < vx_it0@.len() ==> (#[trigger] vx_it0@[i]).0 == n - vx_it0@.len() + i && *vx_it0@[i].1 == attrs@[n - vx_it0@.len() + i],
        writer@ == old(writer)@ + part(items.take(n - vx_it0@.len()), trim_start),
    decreases vx_it0@.len(),
//@proof loop 0 begin
    let ghost k = idx as int;
//@proof loop 0 end
    proof {
        lemma_part_step(items, k, trim_start);
        assert(items[k] == custom_item(attrs@[k]));
        assert(writer@ =~= old(writer)@ + part(items.take(k + 1), trim_start));
    }
//@proof loop 0 after
    assert(items.take(n) =~= items);
//@end

// ------------------------------------------------------------------------------------------------ lines of setext headings
pub open spec fn text_context(ctx: MarkdownContext<'_, '_>) -> bool {
    ctx matches MarkdownContext::Event(Event::Text(_)) || ctx matches MarkdownContext::Event(Event::InlineHtml(_)) || ctx matches MarkdownContext::Event(Event::Code(_))
}
impl<'i> Header<'i> {
//@fn header.rs Header::is_empty
//@ret r
//@spec
    ensures r == (self.buffer@.len() == 0),
//@end
//@fn header.rs Header::kind
//@ret r
//@spec
    ensures r == self.kind,
//@end
//@fn header.rs Header::has_attributes
//@ret r
//@spec
    ensures r == self.attributed(),
//@end
    pub open spec fn attributed(&self) -> bool { self.id is Some || self.classes@.len() > 0 || self.attrs@.len() > 0 }
    /// What is written for the text s
    pub open spec fn escaped(&self, text: bool, s: Seq<char>) -> Seq<char> {
        if text && self.setext() && self.buffer@.len() > 0 && self.buffer@.last() == '\n' { escape_line(s) } else { s }
    }
    pub open spec fn setext(&self) -> bool { !(self.kind is Atx) }
//@fn header.rs Header::is_setext_header
//@ret r
//@spec
    ensures r == self.setext(),
//@end
//@fn header.rs Header::remove_trailing_hashtags
//@spec
    ensures *final(self) == (Header { buffer: final(self).buffer, ..*old(self) }), final(self).buffer@ == strip_closing(old(self).buffer@),
//@loop 0
    invariant
        *self == (Header { buffer: self.buffer, ..*old(self) }), strip_closing(self.buffer@) == strip_closing(old(self).buffer@),
    decreases self.buffer@.len(),
//@proof loop 0 begin
    let ghost b = self.buffer@;
    proof { lemma_before_hashes(b); }
//@proof loop 0 end
    proof {
        lemma_before_hashes(b);
    }
//@proof let len
    proof {
        assert(snippet@ == before_hashes(b));
        lemma_bdy(b, trim_end_p(snippet@, ws()).len() as int);
        assert(closing(b));
    }
//@end
//@fn header.rs Header::escape_trailing_hashtag
//@spec
    requires before_hashes(old(self).buffer@).len() < trim_end_p(old(self).buffer@, ws()).len(),
    ensures *final(self) == (Header { buffer: final(self).buffer, ..*old(self) }), final(self).buffer@ == escape_closing(old(self).buffer@),
//@loop 0
    invariant
        *self == (Header { buffer: self.buffer, ..*old(self) }), trim_end_p(self.buffer@, ws()) == trim_end_p(old(self).buffer@, ws()),
        sp_ws_end(self.buffer@) ==> trim_end_p(self.buffer@, ws()) == trim_end_p(self.buffer@.drop_last(), ws()),
        !sp_ws_end(self.buffer@) ==> trim_end_p(self.buffer@, ws()) == self.buffer@,
    decreases self.buffer@.len(),
//@closure 0
    -> (vx_r: Option<(usize, usize)>) ensures vx_r == if arg_0.1 != '#' { Some((arg_0.0, ulen(arg_0.1) as usize)) } else { None::<(usize, usize)> },
//@proof before let (idx, byte_len)
    let ghost t = self.buffer@;
    let ghost n = trim_end_p(t, hash());
    proof {
        assert(t == trim_end_p(old(self).buffer@, ws()));
        lemma_trim_end(t, hash());
    }
//@proof let idx
    proof { assert(first_other(rev(sp_char_indices(t)), idx, byte_len)); lemma_first_other(t, idx, byte_len); lemma_last_other(t, n, idx, byte_len); }
//@proof start
    proof { lemma_trim_step(self.buffer@, ws()); }
//@proof loop 0 end
    proof { lemma_trim_step(self.buffer@, ws()); }
//@proof head
    hide(sp_char_indices);
    hide(trim_end_p);
    hide(ends_on_escape);
    hide(blen);
//@proof before let hashtag_count
    proof {
        ax_blen_ascii(fill_seq('#', t.len() - n.len()));
        assert(t.skip(n.len() as int) =~= fill_seq('#', t.len() - n.len()));
    }
//@loop 1
    invariant
        *self == (Header { buffer: self.buffer, ..*old(self) }), n == trim_end_p(t, hash()), n.len() <= self.buffer@.len() <= t.len(), self.buffer@ == t.take(self.buffer@.len() as int),
    ensures self.buffer@ == n,
    decreases self.buffer@.len(),
//@proof loop 1 begin
    proof {
        lemma_trim_end(t, hash());
        if self.buffer@.len() == n.len() { assert(n.last() == self.buffer@.last()); assert(!hash()('#')); }
    }
//@loop 2
    invariant
        0 <= vx_i2 <= vx_end2 == hashtag_count,
        *self == (Header { buffer: self.buffer, ..*old(self) }), self.buffer@ == n + seq!['\\'] + fill_seq('#', vx_i2 as int),
    decreases vx_end2 - vx_i2,
//@end
//@fn header.rs Header::escape_trailing_empty_attribute_brackets
//@spec
    ensures *final(self) == (Header { buffer: final(self).buffer, ..*old(self) }), final(self).buffer@ == escape_braces(old(self).buffer@, old(self).setext()),
//@loop 0
    invariant
        *self == (Header { buffer: self.buffer, ..*old(self) }), trim_end_p(self.buffer@, ws()) == trim_end_p(old(self).buffer@, ws()),
    decreases self.buffer@.len(),
//@closure 0
    -> (vx_r: usize) requires i < isize::MAX, ensures vx_r == i + 1,
//@closure 1
    -> (vx_r: bool) ensures vx_r == !sp_is_whitespace(*c),
//@proof before let last_line_start_index
    let ghost t = self.buffer@;
    let ghost setext = self.setext();
    proof { assert(t == trim_end_p(old(self).buffer@, ws())); lemma_trim_end(old(self).buffer@, ws()); }
//@proof let last_line_start_index
    let ghost line = last_line(t, setext);
    proof {
        let a = VxAny2('\r', '\n');
        if setext {
            if within(a, t) {
                let b = last_line_start_index - 1;
                lemma_cix_inv(t, b);
                let k = cix(t, b);
                assert(a.at(t, k));
                lemma_cix_next(t, b);
                assert forall|i: int| k < i < t.len() implies !nl_pat()(#[trigger] t[i]) by { assert(!a.at(t, i)); }
                lemma_after_last(t, nl_pat(), k);
            } else {
                assert forall|i: int| -1 < i < t.len() implies !nl_pat()(#[trigger] t[i]) by { assert(!a.at(t, i)); }
                lemma_after_last(t, nl_pat(), -1);
                assert(t.skip(0) =~= t);
            }
        } else { assert(t.skip(0) =~= t); }
        assert(blen(t) >= 0);
        assert(bdy(t, last_line_start_index as int) && t.skip(cix(t, last_line_start_index as int)) == line);
    }
//@proof let iter
    proof {
        lemma_empty_attrs(line);
        let f = rev(line).filter(not_ws());
        assert(iter@ == if f.len() > 2 { f.take(2) } else { f });
    }
//@proof before let open_bracket_index
    let ghost k = last_at(t, pat('{'));
    proof {
        let f = rev(line).filter(not_ws());
        assert(f.len() >= 2 && f[0] == '}' && f[1] == '{');
        theorem_escape_braces(old(self).buffer@, setext);
        assert('{'.at(t, k));
    }
//@proof let open_bracket_index
    proof {
        let b = open_bracket_index as int;
        lemma_cix_inv(t, b);
        let j = cix(t, b);
        assert forall|i: int| j < i < t.len() implies !pat('{')(#[trigger] t[i]) by { assert(!'{'.at(t, i)); }
        lemma_after_last(t, pat('{'), j);
        assert(t.take(t.len() as int) =~= t);
    }
//@loop 1
    invariant
        *self == (Header { buffer: self.buffer, ..*old(self) }), 0 <= k < t.len(), t[k] == '{', forall|i: int| k < i < t.len() ==> #[trigger] t[i] != '{',
        k < self.buffer@.len() <= t.len(), self.buffer@ == t.take(self.buffer@.len() as int),
    ensures self.buffer@ == t.take(k + 1),
    decreases self.buffer@.len(),
//@proof loop 1 begin
    proof {
        let m = self.buffer@.len() as int;
        if m == k + 1 { assert(self.buffer@.last() == t[k]); assert('{'.at(self.buffer@, m - 1)); }
    }
//@proof loop 1 end
    assert(self.buffer@ =~= t.take(self.buffer@.len() as int));
//@proof after while !self.buffer.ends_with('{')
    assert(t.take(k + 1).drop_last() =~= t.take(k));
//@end
    /// The attributes, as they're written after the text b
    pub open spec fn with_attributes(&self, b: Seq<char>) -> Seq<char> {
        if !self.attributed() { b } else {
            b + (if self.attrs_on_own_line { if b.len() > 0 && b.last() == '\n' { seq![] } else { seq!['\n'] } }
                else if b.len() > 0 && !ends_on_escape(b) { seq![' '] } else { seq![] })
            + seq!['{'] + unspaced(attr_items(self.id, self.classes@, self.attrs@)) + seq!['}']
        }
    }
    /// The underline
    pub open spec fn with_setext(&self, b: Seq<char>) -> Seq<char> {
        match self.kind {
            HeaderKind::SetextH1(s) | HeaderKind::SetextH2(s) => (if b.len() == 0 { seq!['\\'] } else { b }) + seq!['\n'] + s@ + seq!['\n'],
            _ => b,
        }
    }
    pub open spec fn hash_end(&self) -> bool { trim_end_p(self.buffer@, ws()).len() > 0 && trim_end_p(self.buffer@, ws()).last() == '#' }
    /// What a heading is written as
    pub open spec fn result(&self) -> Seq<char> {
        let b = if self.kind is Atx && self.hash_end() {
            if self.attributed() { escape_closing(self.buffer@) } else { strip_closing(self.buffer@) }
        } else { self.buffer@ };
        self.with_setext(self.with_attributes(escape_braces(b, self.setext())))
    }
//@fn header.rs Header::write_setext_header
//@ret r
//@spec
    ensures r is Ok, *final(self) == (Header { buffer: final(self).buffer, ..*old(self) }), final(self).buffer@ == old(self).with_setext(old(self).buffer@),
//@proof tail
    assert(self.buffer@ =~= old(self).with_setext(old(self).buffer@));
//@end
//@fn header.rs Header::write_header_attributes
//@ret r
//@spec
    ensures
        r is Ok, final(self).kind == old(self).kind, final(self).indentation == old(self).indentation,
        final(self).buffer@ == old(self).with_attributes(old(self).buffer@),
//@closure 0
    -> (vx_r: bool) ensures vx_r == false,
//@loop 0
    invariant false,
    decreases 0nat,
//@proof let iter
    proof { lemma_filter_none(rev(utf8(self.buffer@)), |b: u8| false); }
//@proof before let classes
    let ghost b0 = self.buffer@;
    let ghost cl = self.classes@;
    let ghost at = self.attrs@;
    let ghost ids = id_items(self.id);
    let ghost id0 = self.id;
//@proof before let empty_classes
    let ghost b1 = self.buffer@;
    proof {
        if id0 is Some { assert(ids.drop_last() =~= seq![]); }
        assert(spaced(seq![]) =~= Seq::<char>::empty());
        assert(unspaced(ids) =~= match id0 { Some(i) => seq!['#'] + i@, None => seq![] });
        assert(spaced(class_items(seq![])) =~= seq![]);
        assert(spaced(custom_items(seq![])) =~= seq![]);
        lemma_part_add(ids, class_items(cl), true);
        lemma_part_add(ids + class_items(cl), custom_items(at), true);
    }
//@proof tail
    assert(self.buffer@ =~= old(self).with_attributes(old(self).buffer@));
//@end
//@fn header.rs Header::into_parts
//@ret r
//@proof start
    proof {
        let t = trim_end_p(self.buffer@, ws());
        lemma_trim_end(t, hash());
        if self.hash_end() && before_hashes(self.buffer@).len() == t.len() { assert(!hash()(t.last())); }
    }
//@spec
    ensures r is Ok, r->Ok_0.0@ == self.result(), r->Ok_0.1 == self.indentation,
//@end
/// Write::write_char, the provided method
fn vx_write_char(&mut self, c: char) -> (r: FmtResult)
    ensures r is Ok, *final(self) == (Header { buffer: final(self).buffer, ..*old(self) }), final(self).buffer@ == old(self).buffer@.push(c),
{
    let r = self.buffer.vx_write_char(c);
    r
}
//@fn header.rs Write@Header::write_str
//@name vx_write_str
//@ret r
//@nopub
//@spec
    ensures r is Ok, *final(self) == (Header { buffer: final(self).buffer, ..*old(self) }), final(self).buffer@ == old(self).buffer@ + s@,
//@end
//@fn header.rs WriteContext@Header::write_context_str
//@ret r
//@nopub
//@spec
    ensures
        r is Ok, *final(self) == (Header { buffer: final(self).buffer, ..*old(self) }),
        final(self).buffer@ == old(self).buffer@ + old(self).escaped(text_context(ctx), s@),
//@loop 0
    invariant
        *self == (Header { buffer: self.buffer, ..*old(self) }), marker == kind_char(escape_kind),
        0 <= s@.len() - vx_it0@.len(), vx_it0@ == s@.skip(s@.len() - vx_it0@.len()),
        self.buffer@ == old(self).buffer@ + escape_each(s@.take(s@.len() - vx_it0@.len()), marker),
    decreases vx_it0@.len(),
//@proof loop 0 before
    proof { assert(s@.take(0) =~= seq![]); assert(self.buffer@ =~= old(self).buffer@ + escape_each(seq![], marker)); }
//@proof loop 0 begin
    let ghost b0 = self.buffer@;
//@proof loop 0 end
    proof {
        let n = s@.len() - vx_it0@.len();
        assert(s@.take(n).drop_last() =~= s@.take(n - 1));
        assert(c == s@[n - 1]);
        assert(self.buffer@ =~= old(self).buffer@ + escape_each(s@.take(n), marker));
    }
//@proof loop 0 after
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@proof start
    proof { assert(self.buffer@.push('\\') + s@ =~= old(self).buffer@ + (seq!['\\'] + s@)); }
//@end
//@fn header.rs Header::new
//@ret r
//@spec
    requires tag is Heading,
    ensures
        r.buffer@.len() == 0, r.indentation == indentation, tag matches Tag::Heading { level, id, classes, attrs } && {
            &&& r.id == id && r.classes == classes && r.attrs == attrs
            &&& setext_like(full_header@) && level is H1 ==> r.kind is SetextH1 && r.kind->SetextH1_0@ == underline(full_header@)
            &&& setext_like(full_header@) && level is H2 ==> r.kind is SetextH2 && r.kind->SetextH2_0@ == underline(full_header@)
            &&& !setext_like(full_header@) || !(level is H1 || level is H2) ==> r.kind == HeaderKind::<'i>::Atx(level)
        },
        r.attrs_on_own_line == exists|i: int| 0 <= i < str_lines(full_header@).len() && brace_line(#[trigger] str_lines(full_header@)[i]),
//@closure 0
    -> (vx_r: Option<&'i str>) ensures vx_r is Some && vx_r->Some_0@ == after_last(maybe_last_line@, pat('\r')),
//@closure 1
    -> (vx_r: &'i str) ensures vx_r@ == trim_end_p(trim_start_p(marker@, quote_or_ws()), ws()),
//@closure 2
    -> (vx_r: bool) ensures vx_r == quote_or_ws()(c),
//@closure 3
    -> (vx_r: &'i str) ensures vx_r@ == trim_start_p(l@, quote_or_ws()),
//@closure 4
    -> (vx_r: bool) ensures vx_r == quote_or_ws()(c),
//@closure 5
    -> (vx_r: bool) ensures vx_r == (l@.len() > 0 && l@[0] == '{'),
//@proof chain any
    proof {
        let l = str_lines(full_header@);
        assert forall|j: int| 0 <= j < l.len() && brace_line(#[trigger] l[j]) implies exists|k: int| 0 <= k < vx_chain@.len() && (#[trigger] vx_chain@[k])@.len() > 0 && vx_chain@[k]@[0] == '{' by {
            let m = vx_chain@[l.len() - 1 - j];
            assert(m@ == trim_start_p(l[j], quote_or_ws()));
        }
    }
//@end
}
}
}
