// src/links.rs: links and link reference definitions
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
pub mod links {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
verus! {
broadcast use group_prelude;

// ------------------------------------------------------------------------------------------------ parens
/// How deeply the pairs are nested, or None if they aren't balanced. d pairs are open, and esc says whether the next char is escaped.
pub open spec fn nesting(s: Seq<char>, o: char, c: char, d: nat, esc: bool, max: nat) -> Option<nat>
    decreases s.len()
{
    if s.len() == 0 { if d == 0 { Some(max) } else { None } }
    else if !esc && s[0] == o { nesting(s.skip(1), o, c, d + 1, false, if d + 1 > max { d + 1 } else { max }) }
    else if !esc && s[0] == c { if d == 0 { None } else { nesting(s.skip(1), o, c, (d - 1) as nat, s[0] == '\\' && !esc, max) } }
    else { nesting(s.skip(1), o, c, d, s[0] == '\\' && !esc, max) }
}

//@static links.rs MAX_NESTED_PARENS
//@fn links.rs max_nesting
//@ret r
//@spec
    ensures
        r is Some ==> nesting(s@, opener, closer, 0, false, 0) == Some(r->Some_0 as nat),
        r is None ==> nesting(s@, opener, closer, 0, false, 0) is None,
//@loop 0
    invariant
        forall|i: int| 0 <= i < stack@.len() ==> #[trigger] stack@[i] == opener,
        stack@.len() + vx_it0@.len() <= s@.len(), s@.len() <= isize::MAX, max <= s@.len(),
        nesting(s@, opener, closer, 0, false, 0) == nesting(vx_it0@, opener, closer, stack@.len(), was_last_escape, max as nat),
    decreases vx_it0@.len(),
//@end
//@fn links.rs is_balanced
//@ret r
//@spec
    ensures r == (nesting(s@, opener, closer, 0, false, 0) is Some),
//@end
//@fn links.rs balanced_parens
//@ret r
//@spec
    ensures r == (nesting(url@, '(', ')', 0, false, 0) matches Some(n) && n <= 33),
//@closure 0
    -> (vx_r: bool) ensures vx_r == (nesting <= MAX_NESTED_PARENS),
//@end
/// A char that can't be part of a destination outside of `<` and `>`
pub open spec fn bars_raw(c: char) -> bool { c == ' ' || sp_is_ascii_control(c) }
pub open spec fn balanced(url: Seq<char>) -> bool { nesting(url, '(', ')', 0, false, 0) matches Some(n) && n <= 33 }
/// What is written for a destination
pub open spec fn dest_text(url: Seq<char>, wrap_empty: bool) -> Seq<char> {
    if wrap_empty && url.len() == 0 { seq!['<', '>'] }
    else if ends_on_escape(url) { url.push('\\') }
    else if (exists|i: int| 0 <= i < url.len() && #[trigger] bars_raw(url[i])) || !balanced(url) { seq!['<'] + url + seq!['>'] }
    else { url }
}
//@fn links.rs format_link_url
//@ret r
//@spec
    ensures r@ == dest_text(url@, wrap_empty_urls),
//@closure 0
    -> (vx_r: bool) ensures vx_r == bars_raw(c),
//@proof start
    proof {
        assert(Seq::<char>::empty() + seq!['<'] + url@ + seq!['>'] =~= seq!['<'] + url@ + seq!['>']);
        assert(fill_seq('<', 1) =~= seq!['<'] && fill_seq('>', 1) =~= seq!['>']);
        assert(Seq::<char>::empty() + seq!['<'] =~= seq!['<']);
        assert(fill_seq('\\', 1) =~= seq!['\\']);
        assert(Seq::<char>::empty() + url@ + seq!['\\'] =~= url@.push('\\'));
    }
//@end

// ------------------------------------------------------------------------------------------------ what the parser reads
/// Chars of a destination between `<` and `>`, as pulldown-cmark's scan_link_dest reads it
pub open spec fn pointy(s: Seq<char>) -> Option<nat>
    decreases s.len()
{
    if s.len() == 0 || s[0] == '\n' || s[0] == '\r' || s[0] == '<' { None }
    else if s[0] == '>' { Some(0) }
    else if s[0] == '\\' && s.len() > 1 && sp_is_ascii_punctuation(s[1]) { match pointy(s.skip(2)) { Some(n) => Some(n + 2), None => None } }
    else { match pointy(s.skip(1)) { Some(n) => Some(n + 1), None => None } }
}
/// Chars of a destination without `<` and `>`; d parens are open
pub open spec fn raw(s: Seq<char>, d: nat) -> Option<nat>
    decreases s.len()
{
    if s.len() == 0 || s[0] as u32 <= 0x20 { if d == 0 { Some(0) } else { None } }
    else if s[0] == '(' { if d > 32 { None } else { match raw(s.skip(1), d + 1) { Some(n) => Some(n + 1), None => None } } }
    else if s[0] == ')' { if d == 0 { Some(0) } else { match raw(s.skip(1), (d - 1) as nat) { Some(n) => Some(n + 1), None => None } } }
    else if s[0] == '\\' && s.len() > 1 && sp_is_ascii_punctuation(s[1]) { match raw(s.skip(2), d) { Some(n) => Some(n + 2), None => None } }
    else { match raw(s.skip(1), d) { Some(n) => Some(n + 1), None => None } }
}
/// The destination at the start of s
pub open spec fn scan_dest(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() > 0 && s[0] == '<' { match pointy(s.skip(1)) { Some(n) => Some(s.skip(1).take(n as int)), None => None } }
    else { match raw(s, 0) { Some(n) => Some(s.take(n as int)), None => None } }
}
/// Whether the char after s is escaped
pub open spec fn esc_after(s: Seq<char>, esc: bool) -> bool
    decreases s.len()
{
    if s.len() == 0 { esc } else { esc_after(s.skip(1), s[0] == '\\' && !esc) }
}
proof fn lemma_esc_last(s: Seq<char>, esc: bool)
    requires s.len() > 0,
    ensures esc_after(s, esc) == (s.last() == '\\' && !esc_after(s.drop_last(), esc)),
    decreases s.len(),
{
    if s.len() == 1 {
        assert(s.skip(1).len() == 0 && s.drop_last().len() == 0);
        reveal_with_fuel(esc_after, 2);
    } else {
        lemma_esc_last(s.skip(1), s[0] == '\\' && !esc);
        assert(s.skip(1).drop_last() =~= s.drop_last().skip(1));
    }
}
proof fn lemma_esc_ends(s: Seq<char>)
    ensures esc_after(s, false) == ends_on_escape(s),
    decreases s.len(),
{
    if s.len() > 0 { lemma_esc_last(s, false); lemma_esc_ends(s.drop_last()); }
}
proof fn lemma_pointy(s: Seq<char>, t: Seq<char>)
    requires pointy(s) is Some,
    ensures
        pointy(s)->Some_0 < s.len(), pointy(s.take(pointy(s)->Some_0 as int) + seq!['>'] + t) == pointy(s),
        !esc_after(s.take(pointy(s)->Some_0 as int), false),
    decreases s.len(),
{
    let n = pointy(s)->Some_0 as int;
    let u = s.take(n);
    let w = u + seq!['>'] + t;
    if s[0] == '>' {
        assert(w[0] == '>');
    } else if s[0] == '\\' && s.len() > 1 && sp_is_ascii_punctuation(s[1]) {
        lemma_pointy(s.skip(2), t);
        assert(w.skip(2) =~= s.skip(2).take(n - 2) + seq!['>'] + t);
        assert(w[0] == s[0] && w[1] == s[1]);
        assert(u.skip(1).skip(1) =~= s.skip(2).take(n - 2));
        reveal_with_fuel(esc_after, 3);
    } else {
        lemma_pointy(s.skip(1), t);
        assert(w.skip(1) =~= s.skip(1).take(n - 1) + seq!['>'] + t);
        assert(w[0] == s[0]);
        let v = s.skip(1).take(n - 1);
        assert(u.skip(1) =~= v);
        if n > 1 { assert(w[1] == s[1]); assert(v[0] == s[1]); } else { assert(s.skip(1)[0] == '>'); assert(s[1] == '>'); assert(w[1] == '>'); }
        if s[0] == '\\' {
            assert(!sp_is_ascii_punctuation(s[1]));
            assert(n > 1);
            assert(esc_after(v, true) == esc_after(v, false));
        }
        assert(esc_after(u, false) == esc_after(v, s[0] == '\\'));
    }
}
pub open spec fn visible(u: Seq<char>) -> bool { forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]) as u32 > 0x20 }
proof fn lemma_raw(s: Seq<char>, d: nat, max: nat)
    requires raw(s, d) is Some, d <= 33, max <= 33,
    ensures
        raw(s, d)->Some_0 <= s.len(), visible(s.take(raw(s, d)->Some_0 as int)),
        nesting(s.take(raw(s, d)->Some_0 as int), '(', ')', d, false, max) matches Some(m) && m <= 33,
    decreases s.len(),
{
    let n = raw(s, d)->Some_0 as int;
    let u = s.take(n);
    if n > 0 {
        if s[0] == '(' {
            let m = if d + 1 > max { d + 1 } else { max };
            lemma_raw(s.skip(1), d + 1, m);
            assert(u[0] == s[0]);
            assert(u.skip(1) =~= s.skip(1).take(n - 1));
            assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) as u32 > 0x20 by { if i > 0 { assert(u[i] == s.skip(1).take(n - 1)[i - 1]); } }
        } else if s[0] == ')' {
            lemma_raw(s.skip(1), (d - 1) as nat, max);
            assert(u[0] == s[0]);
            assert(u.skip(1) =~= s.skip(1).take(n - 1));
            assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) as u32 > 0x20 by { if i > 0 { assert(u[i] == s.skip(1).take(n - 1)[i - 1]); } }
        } else if s[0] == '\\' && s.len() > 1 && sp_is_ascii_punctuation(s[1]) {
            lemma_raw(s.skip(2), d, max);
            assert(u[0] == s[0]);
            assert(u.skip(1).skip(1) =~= s.skip(2).take(n - 2));
            reveal_with_fuel(nesting, 3);
            assert(u[1] == s[1]);
            assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) as u32 > 0x20 by { if i > 1 { assert(u[i] == s.skip(2).take(n - 2)[i - 2]); } }
        } else {
            lemma_raw(s.skip(1), d, max);
            let v = s.skip(1).take(n - 1);
            assert(u[0] == s[0]);
            assert(u.skip(1) =~= v);
            if s[0] == '\\' {
                if n > 1 { assert(v[0] == s[1]); assert(!sp_is_ascii_punctuation(s[1])); }
                assert(nesting(v, '(', ')', d, true, max) == nesting(v, '(', ')', d, false, max));
            }
            assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) as u32 > 0x20 by { if i > 0 { assert(u[i] == v[i - 1]); } }
        }
    }
}
/// A destination that's fine without `<` and `>` is read as it is written.
proof fn lemma_raw_reads(u: Seq<char>, rest: Seq<char>, d: nat, max: nat)
    requires
        visible(u), nesting(u, '(', ')', d, false, max) matches Some(m) && m <= 33, max <= 33, d <= max, !esc_after(u, false),
        rest.len() > 0, rest[0] == ' ' || rest[0] == ')',
    ensures raw(u + rest, d) == Some(u.len()),
    decreases u.len(),
{
    let s = u + rest;
    if u.len() == 0 {
        assert(s =~= rest);
    } else {
        assert(s[0] == u[0] && s.skip(1) =~= u.skip(1) + rest);
        assert(visible(u.skip(1))) by { assert forall|i: int| 0 <= i < u.skip(1).len() implies (#[trigger] u.skip(1)[i]) as u32 > 0x20 by { assert(u.skip(1)[i] == u[i + 1]); } }
        if u[0] == '(' {
            let m = if d + 1 > max { d + 1 } else { max };
            lemma_max_le(u.skip(1), d + 1, false, m);
            lemma_raw_reads(u.skip(1), rest, d + 1, m);
        } else if u[0] == ')' {
            lemma_raw_reads(u.skip(1), rest, (d - 1) as nat, max);
        } else if u[0] == '\\' {
            if u.len() == 1 {
                reveal_with_fuel(esc_after, 2);
                assert(false);
            }
            let v = u.skip(1);
            assert(s[1] == u[1] && v[0] == u[1]);
            if sp_is_ascii_punctuation(u[1]) {
                assert(v.skip(1) =~= u.skip(2));
                reveal_with_fuel(nesting, 3);
                reveal_with_fuel(esc_after, 3);
                assert(s.skip(2) =~= u.skip(2) + rest);
                assert(visible(u.skip(2))) by { assert forall|i: int| 0 <= i < u.skip(2).len() implies (#[trigger] u.skip(2)[i]) as u32 > 0x20 by { assert(u.skip(2)[i] == u[i + 2]); } }
                lemma_raw_reads(u.skip(2), rest, d, max);
            } else {
                assert(nesting(v, '(', ')', d, true, max) == nesting(v, '(', ')', d, false, max));
                assert(esc_after(v, true) == esc_after(v, false));
                lemma_raw_reads(v, rest, d, max);
            }
        } else {
            lemma_raw_reads(u.skip(1), rest, d, max);
        }
    }
}
proof fn lemma_max_le(s: Seq<char>, d: nat, esc: bool, max: nat)
    ensures nesting(s, '(', ')', d, esc, max) matches Some(m) ==> max <= m,
    decreases s.len(),
{
    if s.len() > 0 {
        let e = s[0] == '\\' && !esc;
        if !esc && s[0] == '(' { lemma_max_le(s.skip(1), d + 1, false, if d + 1 > max { d + 1 } else { max }); }
        else if !esc && s[0] == ')' { if d > 0 { lemma_max_le(s.skip(1), (d - 1) as nat, e, max); } }
        else { lemma_max_le(s.skip(1), d, e, max); }
    }
}
proof fn lemma_nesting_backslash(u: Seq<char>, d: nat, esc: bool, max: nat)
    ensures nesting(u.push('\\'), '(', ')', d, esc, max) == nesting(u, '(', ')', d, esc, max),
    decreases u.len(),
{
    let w = u.push('\\');
    let e = w[0] == '\\' && !esc;
    if u.len() == 0 {
        assert(w.skip(1).len() == 0);
        reveal_with_fuel(nesting, 2);
    } else {
        assert(w.skip(1) =~= u.skip(1).push('\\'));
        if !esc && u[0] == '(' { lemma_nesting_backslash(u.skip(1), d + 1, false, if d + 1 > max { d + 1 } else { max }); }
        else if !esc && u[0] == ')' { if d > 0 { lemma_nesting_backslash(u.skip(1), (d - 1) as nat, e, max); } }
        else { lemma_nesting_backslash(u.skip(1), d, e, max); }
    }
}
/// What is written for a destination that the parser has read is read as that destination again, whatever comes after it.
pub proof fn theorem_link_destination(src: Seq<char>, rest: Seq<char>, wrap: bool)
    requires
        scan_dest(src) is Some, src[0] == '<' || !scan_dest(src)->Some_0.contains('\x7f'),
        rest.len() > 0, rest[0] == ' ' || rest[0] == ')', wrap == (rest[0] == ' '),
    ensures ({
        let url = scan_dest(src)->Some_0;
        let read = scan_dest(dest_text(url, wrap) + rest);
        read == Some(url) || (ends_on_escape(url) && read == Some(url.push('\\')))
    }),
{
    let url = scan_dest(src)->Some_0;
    let out = dest_text(url, wrap) + rest;
    lemma_esc_ends(url);
    let brackets = exists|i: int| 0 <= i < url.len() && #[trigger] bars_raw(url[i]);
    let pointed = src.len() > 0 && src[0] == '<';
    if pointed {
        let n = pointy(src.skip(1))->Some_0 as int;
        lemma_pointy(src.skip(1), rest);
        assert(url =~= src.skip(1).take(n));
        assert(!ends_on_escape(url));
        if url.len() > 0 { assert(url[0] == src.skip(1)[0]); assert(url[0] != '<'); }
    } else {
        let n = raw(src, 0)->Some_0 as int;
        lemma_raw(src, 0, 0);
        assert(url =~= src.take(n));
        assert(balanced(url));
        if url.len() > 0 { assert(url[0] == src[0]); }
        assert(!brackets) by {
            assert forall|i: int| 0 <= i < url.len() implies !#[trigger] bars_raw(url[i]) by { assert(url[i] as u32 > 0x20); assert(url[i] != '\x7f'); }
        }
    }
    if wrap && url.len() == 0 {
        assert(out[0] == '<' && out.skip(1)[0] == '>');
        assert(out.skip(1).take(0) =~= url);
    } else if ends_on_escape(url) {
        let u = url.push('\\');
        lemma_nesting_backslash(url, 0, false, 0);
        lemma_esc_last(u, false);
        assert(u.drop_last() =~= url);
        assert(visible(u)) by { assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) as u32 > 0x20 by { if i < url.len() { assert(u[i] == url[i]); } } }
        lemma_raw_reads(u, rest, 0, 0);
        assert(out[0] == url[0]);
        assert(out.take(u.len() as int) =~= u);
    } else if brackets || !balanced(url) {
        assert(out.skip(1) =~= url + seq!['>'] + rest);
        assert(out[0] == '<');
        assert(out.skip(1).take(url.len() as int) =~= url);
    } else {
        assert(visible(url)) by { assert forall|i: int| 0 <= i < url.len() implies (#[trigger] url[i]) as u32 > 0x20 by { assert(!bars_raw(url[i])); } }
        lemma_raw_reads(url, rest, 0, 0);
        if url.len() > 0 { assert(out[0] == url[0]); } else { assert(out[0] == rest[0]); }
        assert(out.take(url.len() as int) =~= url);
    }
}

// ------------------------------------------------------------------------------------------------ the text of links
//@type writer.rs MarkdownContext
//@type links.rs LinkWriter
/// The lines as they are written on one line; end says whether the last one had a line ending
pub open spec fn one_line(ls: Seq<Seq<char>>, end: bool) -> Seq<char>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() }
    else { ls[0] + (if ls.len() > 1 || end { seq![' '] } else { Seq::empty() }) + one_line(ls.skip(1), end) }
}
/// What is added to the text of a link
pub open spec fn link_piece(s: Seq<char>, first: bool) -> Seq<char> {
    let t = if first { trim_start_p(s, ws()) } else { s };
    (if first && t.len() > 0 && t[0] == '^' { seq!['\\'] } else { Seq::empty() })
        + (if nl(t) > 0 { one_line(lines(s), s.len() > 0 && s.last() == '\n') } else { t })
}
impl LinkWriter {
//@fn links.rs LinkWriter::new
//@ret r
//@spec
    ensures r.buffer@.len() == 0, r.is_auto_link == is_auto_link,
//@end
//@fn links.rs LinkWriter::is_empty
//@ret r
//@spec
    ensures r == (self.buffer@.len() == 0),
//@end
//@fn links.rs Write@LinkWriter::write_str
//@keep self.is_empty
//@ret r
//@nopub
//@spec
    ensures
        r is Ok, final(self).is_auto_link == old(self).is_auto_link,
        final(self).buffer@ == old(self).buffer@ + link_piece(s@, old(self).buffer@.len() == 0),
//@loop 0
    invariant
        self.is_auto_link == old(self).is_auto_link, iter@.len() <= ls0.len(), iter@ =~= ls0.skip(ls0.len() - iter@.len()),
        old(self).buffer@ + link_piece(s@, old(self).buffer@.len() == 0) == self.buffer@ + one_line(texts(iter@), ends_with_newline),
    decreases iter@.len(),
//@proof loop 0 before
    let ghost ls0 = iter@;
    proof { assert(old(self).buffer@ + link_piece(s@, old(self).buffer@.len() == 0) =~= self.buffer@ + one_line(texts(iter@), ends_with_newline)); }
//@proof loop 0 begin
    let ghost b0 = self.buffer@;
    let ghost t0 = texts(ls0.skip(ls0.len() - iter@.len() - 1));
    proof { assert(line == ls0[ls0.len() - iter@.len() - 1]); assert(texts(iter@) =~= t0.skip(1)); assert(t0[0] == line@); }
//@proof loop 0 end
    proof {
        let sep = if t0.len() > 1 || ends_with_newline { seq![' '] } else { Seq::<char>::empty() };
        assert(t0.len() > 0 && texts(iter@) == t0.skip(1));
        assert(self.buffer@ =~= b0 + t0[0] + sep);
        assert(b0 + one_line(t0, ends_with_newline) =~= self.buffer@ + one_line(texts(iter@), ends_with_newline));
    }
//@proof tail
    proof { assert(self.buffer@ =~= old(self).buffer@ + link_piece(s@, old(self).buffer@.len() == 0)); }
//@end
//@fn links.rs LinkWriter::into_buffer
//@ret r
//@spec
    ensures
        r@ == ({ let t = trim_end_p(self.buffer@, ws()); if !self.is_auto_link && ends_on_escape(t) { t.push('\\') } else { t } }),
        !self.is_auto_link ==> !ends_on_escape(r@),
//@loop 0
    invariant vx_self.is_auto_link == self.is_auto_link, trim_end_p(vx_self.buffer@, ws()) == trim_end_p(self.buffer@, ws()),
    decreases vx_self.buffer@.len(),
//@proof loop 0 begin
    let ghost b0 = vx_self.buffer@;
    proof { assert(b0.len() > 0 && sp_is_whitespace(b0.last())); }
//@proof loop 0 end
    proof { assert(vx_self.buffer@ =~= b0.drop_last()); }
//@proof loop 0 after
    proof {
        assert(vx_self.buffer@.len() == 0 || !ws()(vx_self.buffer@.last()));
        assert(vx_self.buffer@ == trim_end_p(self.buffer@, ws()));
    }
//@proof tail
    proof { let t = trim_end_p(self.buffer@, ws()); assert(t.push('\\').drop_last() =~= t); }
//@end
}

// ------------------------------------------------------------------------------------------------ brackets
/// A char at byte offset i would be escaped
pub open spec fn esc_before(b: Seq<u8>, i: int) -> bool
    decreases i
{
    0 < i <= b.len() && b[i - 1] == 0x5c && !esc_before(b, i - 1)
}
/// The offsets of the openers before offset i that aren't closed before it
pub open spec fn open_at(b: Seq<u8>, o: u8, c: u8, i: int) -> Seq<int>
    decreases i
{
    if i <= 0 || i > b.len() { Seq::empty() }
    else {
        let p = open_at(b, o, c, i - 1);
        if esc_before(b, i - 1) { p }
        else if b[i - 1] == o { p.push(i - 1) }
        else if b[i - 1] == c && p.len() > 0 { p.drop_last() }
        else { p }
    }
}
/// There's a closer at offset i
pub open spec fn closer_at(b: Seq<u8>, c: u8, i: int) -> bool { 0 <= i < b.len() && b[i] == c && !esc_before(b, i) }
/// The last pair that is closed before offset i
pub open spec fn last_pair(b: Seq<u8>, o: u8, c: u8, i: int) -> (int, int)
    decreases i
{
    if i <= 0 || i > b.len() { (0, b.len() as int) }
    else if closer_at(b, c, i - 1) && open_at(b, o, c, i - 1).len() > 0 { (open_at(b, o, c, i - 1).last(), i - 1) }
    else { last_pair(b, o, c, i - 1) }
}
/// All pairs up to the closer at offset i are closed, and something comes after it
pub open spec fn all_closed(b: Seq<u8>, o: u8, c: u8, i: int) -> bool {
    closer_at(b, c, i) && open_at(b, o, c, i + 1).len() == 0 && i + 1 < b.len()
}
proof fn lemma_open_at(b: Seq<u8>, o: u8, c: u8, i: int)
    requires 0 <= i <= b.len(),
    ensures forall|k: int| 0 <= k < open_at(b, o, c, i).len() ==> 0 <= #[trigger] open_at(b, o, c, i)[k] < i && b[open_at(b, o, c, i)[k]] == o,
    decreases i,
{
    if i > 0 {
        lemma_open_at(b, o, c, i - 1);
        let p = open_at(b, o, c, i - 1);
        let q = open_at(b, o, c, i);
        assert forall|k: int| 0 <= k < q.len() implies 0 <= #[trigger] q[k] < i && b[q[k]] == o by { if k < p.len() { assert(q[k] == p[k]); } }
    }
}
proof fn lemma_last_pair(b: Seq<u8>, o: u8, c: u8, i: int)
    requires 0 <= i <= b.len(),
    ensures
        last_pair(b, o, c, i) == (0int, b.len() as int)
            || (0 <= last_pair(b, o, c, i).0 < last_pair(b, o, c, i).1 < i && b[last_pair(b, o, c, i).0] == o && b[last_pair(b, o, c, i).1] == c),
    decreases i,
{
    if i > 0 { lemma_last_pair(b, o, c, i - 1); lemma_open_at(b, o, c, i - 1); }
}
/// The pair that is found when the search ends at offset h
pub open spec fn pair_until(b: Seq<u8>, o: u8, c: u8, h: int, r: (usize, usize)) -> bool {
    0 <= h <= b.len() && r.0 == last_pair(b, o, c, h).0 && r.1 == last_pair(b, o, c, h).1 + 1
}
/// The search ends at offset h, as early as it has to, and finds r
pub open spec fn found<F: Fn(u8) -> bool>(b: Seq<u8>, o: u8, c: u8, halt: Option<F>, h: int, r: (usize, usize)) -> bool {
    &&& pair_until(b, o, c, h, r)
    &&& h < b.len() ==> all_closed(b, o, c, h - 1) && (halt matches Some(f) && f.ensures((b[h],), true))
    &&& forall|j: int| 0 <= j < h - 1 && #[trigger] all_closed(b, o, c, j) ==> (halt matches Some(f) ==> f.ensures((b[j + 1],), false))
}
//@fn links.rs find_text_within_last_set_of_balance_bracket
//@generics <F: Fn(u8) -> bool + Copy>
//@inputs label: &str, opener: u8, closer: u8, halt_condition: Option<F>
//@ret r
//@spec
    requires
        opener != closer, blen(label@) < usize::MAX,
        halt_condition matches Some(f) ==> forall|x: u8| f.requires((x,)),
    ensures
        exists|h: int| #[trigger] found(utf8(label@), opener, closer, halt_condition, h, r),
//@proof start
    let ghost b = utf8(label@);
    proof { lemma_utf8_len(label@); }
//@loop 0
    invariant_except_break
        pair_until(b, opener, closer, b.len() - bytes@.len(), (start, (end + 1) as usize)),
        was_last_escape == esc_before(b, b.len() - bytes@.len()),
        stack@.len() == open_at(b, opener, closer, b.len() - bytes@.len()).len(),
        forall|k: int| 0 <= k < stack@.len() ==> #[trigger] stack@[k] == open_at(b, opener, closer, b.len() - bytes@.len())[k],
        forall|j: int| 0 <= j < b.len() - bytes@.len() && #[trigger] all_closed(b, opener, closer, j) ==> (halt_condition matches Some(f) ==> f.ensures((b[j + 1],), false)),
    invariant
        b == utf8(label@), b.len() == blen(label@), b.len() < usize::MAX, opener != closer, bytes@.len() <= b.len(), end <= b.len(),
        halt_condition matches Some(f) ==> forall|x: u8| f.requires((x,)),
        forall|i: int| 0 <= i < bytes@.len() ==> #[trigger] bytes@[i] == ((b.len() - bytes@.len() + i) as usize, b[b.len() - bytes@.len() + i]),
    decreases bytes@.len(),
//@proof loop 0 begin
    proof { assert(index == b.len() - bytes@.len() - 1 && byte == b[index as int]); lemma_open_at(b, opener, closer, index as int); lemma_open_at(b, opener, closer, index + 1); }
//@proof tail
    proof {
        assert(found(utf8(label@), opener, closer, halt_condition, b.len() - bytes@.len(), vx_ret));
    }
//@end

/// A byte below 0x80 is a char of its own
pub proof fn lemma_ascii_byte(s: Seq<char>, i: int)
    requires 0 <= i < blen(s), utf8(s)[i] < 0x80,
    ensures
        utf8(s).len() == blen(s), bdy(s, i), bdy(s, i + 1), 0 <= cix(s, i) < s.len(), cix(s, i + 1) == cix(s, i) + 1,
        blen(s.take(cix(s, i))) == i, s[cix(s, i)] as u8 == utf8(s)[i], (s[cix(s, i)] as u32) < 0x80,
    decreases s.len(),
{
    lemma_utf8_len(s);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_utf8_len(t);
        lemma_enc(s.last());
        if i < blen(t) {
            lemma_ascii_byte(t, i);
            let k = cix(t, i);
            assert(t.take(k) =~= s.take(k));
            assert(t.take(k + 1) =~= s.take(k + 1));
            lemma_cix_inv(t, i + 1);
            lemma_cix(s, k);
            lemma_cix(s, k + 1);
        } else {
            let k = s.len() - 1;
            assert(s.take(k) =~= t);
            assert(s.take(k + 1) =~= s);
            assert((s.last() as u32) < 0x80) by { if (s.last() as u32) >= 0x80 { assert(utf8(s)[i] == enc(s.last())[i - blen(t)]); } }
            lemma_cix(s, k);
            lemma_cix(s, k + 1);
        }
    }
}
/// The label at the end of a reference link
pub open spec fn label_of(s: Seq<char>) -> Seq<char> {
    let p = last_pair(utf8(s), 0x5b, 0x5d, utf8(s).len() as int);
    s.subrange(cix(s, p.0 + 1), cix(s, p.1))
}
pub open spec fn has_label(s: Seq<char>) -> bool { last_pair(utf8(s), 0x5b, 0x5d, utf8(s).len() as int) != (0int, utf8(s).len() as int) }
//@fn links.rs find_reference_link_label
//@rename None => if false { Some(|x: u8| -> (y: bool) { false }) } else { None }
//@ret r
//@spec
    requires has_label(input@), blen(input@) < usize::MAX,
    ensures r@ == label_of(input@),
//@proof let start
    proof {
        let b = utf8(input@);
        let p = last_pair(b, 0x5b, 0x5d, b.len() as int);
        lemma_utf8_len(input@);
        lemma_last_pair(b, 0x5b, 0x5d, b.len() as int);
        lemma_ascii_byte(input@, p.0);
        lemma_ascii_byte(input@, p.1);
        if cix(input@, p.1) <= cix(input@, p.0) { lemma_blen_mono(input@, cix(input@, p.1), cix(input@, p.0)); }
    }
//@end

/// No bracket in l that isn't escaped
pub open spec fn no_brackets(l: Seq<char>) -> bool { forall|k: int| 0 <= k < l.len() && (#[trigger] l[k] == '[' || l[k] == ']') ==> ends_on_escape(l.take(k)) }
proof fn lemma_esc_before(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures esc_before(utf8(s), blen(s.take(k)) as int) == ends_on_escape(s.take(k)),
    decreases k,
{
    lemma_utf8_len(s);
    if k > 0 {
        let t = s.take(k);
        assert(t.drop_last() =~= s.take(k - 1));
        lemma_esc_before(s, k - 1);
        lemma_blen_mono(s, k, s.len() as int);
        assert(s.take(s.len() as int) =~= s);
        lemma_utf8_len(t);
        lemma_utf8_add(t, s.skip(k));
        assert(t + s.skip(k) =~= s);
        lemma_enc(t.last());
        let i = blen(t) - 1;
        assert(utf8(s)[i] == utf8(t)[i]);
        assert(utf8(t)[i] == enc(t.last())[i - blen(t.drop_last())]);
        if (t.last() as u32) < 0x80 {
            assert(utf8(s)[i] == t.last() as u8);
            assert((utf8(s)[i] == 0x5c) == (t.last() == '\\'));
        }
    }
}
proof fn lemma_ends_on_escape_after(t: Seq<char>, l: Seq<char>)
    ensures !ends_on_escape(t) ==> ends_on_escape(t + l) == ends_on_escape(l),
    decreases l.len(),
{
    if l.len() == 0 { assert(t + l =~= t); }
    else {
        assert((t + l).drop_last() =~= t + l.drop_last());
        lemma_ends_on_escape_after(t, l.drop_last());
    }
}
proof fn lemma_open_stays(b: Seq<u8>, o: u8, c: u8, i: int, j: int)
    requires 0 <= i <= j <= b.len(), forall|k: int| i <= k < j && (#[trigger] b[k] == o || b[k] == c) ==> esc_before(b, k),
    ensures open_at(b, o, c, j) == open_at(b, o, c, i),
    decreases j - i,
{
    if i < j { lemma_open_stays(b, o, c, i, j - 1); }
}
/// C09: in [text][label] the label is found, whatever the text is.
pub proof fn theorem_reference_label(t: Seq<char>, l: Seq<char>)
    requires !ends_on_escape(t), !ends_on_escape(l), no_brackets(l),
    ensures ({ let s = t + seq!['['] + l + seq![']']; has_label(s) && label_of(s) == l }),
{
    let s = t + seq!['['] + l + seq![']'];
    let b = utf8(s);
    let n = t.len() as int;
    let m = n + 1 + l.len();
    assert(s[n] == '[' && s[m] == ']' && s.len() == m + 1);
    let p = blen(s.take(n)) as int;
    let q = blen(s.take(m)) as int;
    lemma_utf8_len(s);
    assert(s.take(n) =~= t);
    lemma_esc_before(s, n);
    lemma_esc_before(s, m);
    assert(s.take(m) =~= t + seq!['['] + l);
    assert((t + seq!['[']).drop_last() =~= t);
    assert(!ends_on_escape(t + seq!['[']));
    lemma_ends_on_escape_after(t + seq!['['], l);
    lemma_blen_split(s, n);
    lemma_blen_split(s, m);
    lemma_byte_of(s, n);
    lemma_byte_of(s, m);
    assert(s.take(m + 1) =~= s);
    assert(q + 1 == b.len());
    assert(b[p] == 0x5b && b[q] == 0x5d);
    lemma_blen_mono(s, n + 1, m);
    assert forall|k: int| p + 1 <= k < q && (#[trigger] b[k] == 0x5b || b[k] == 0x5d) implies esc_before(b, k) by {
        lemma_ascii_byte(s, k);
        let i = cix(s, k);
        if i <= n { lemma_blen_mono(s, i, n); }
        if i >= m { lemma_blen_mono(s, m, i); }
        let h = i - n - 1;
        assert(s[i] == l[h]);
        assert((s[i] as u32) < 0x80 && (s[i] as u8 == 0x5b ==> s[i] == '[') && (s[i] as u8 == 0x5d ==> s[i] == ']'));
        lemma_esc_before(s, i);
        assert(s.take(i) =~= t + seq!['['] + l.take(h));
        lemma_ends_on_escape_after(t + seq!['['], l.take(h));
    }
    lemma_open_stays(b, 0x5b, 0x5d, p + 1, q);
    assert(open_at(b, 0x5b, 0x5d, p + 1).last() == p);
    assert(last_pair(b, 0x5b, 0x5d, q + 1) == (p, q));
    lemma_cix(s, n + 1);
    lemma_cix(s, m);
    assert(s.take(n + 1).drop_last() =~= s.take(n));
    assert(label_of(s) =~= l);
}
proof fn lemma_byte_of(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), (s[k] as u32) < 0x80,
    ensures blen(s.take(k)) < utf8(s).len(), utf8(s)[blen(s.take(k)) as int] == s[k] as u8, blen(s.take(k + 1)) == blen(s.take(k)) + 1,
{
    let t = s.take(k + 1);
    assert(t.drop_last() =~= s.take(k));
    assert(t + s.skip(k + 1) =~= s);
    lemma_utf8_len(s);
    lemma_utf8_len(s.take(k));
    lemma_utf8_len(t);
    lemma_utf8_add(t, s.skip(k + 1));
    lemma_enc(s[k]);
    lemma_blen_split(s, k + 1);
    assert(utf8(t)[blen(s.take(k)) as int] == enc(s[k])[0]);
}

// ------------------------------------------------------------------------------------------------ destination and title
/// A title might start after s
pub open spec fn title_after(s: Seq<char>) -> bool { s.len() > 0 && (sp_is_whitespace(s.last()) || s.last() == '>') }
/// The last o up to offset i where a title might start (0: there is none)
pub open spec fn title_from(s: Seq<char>, o: u8, i: int) -> int
    decreases i
{
    if i < 2 { 0 } else if utf8(s)[i] == o && title_after(s.take(cix(s, i))) { i } else { title_from(s, o, i - 1) }
}
pub open spec fn title_opener(b: Seq<u8>) -> u8 { if b.last() == 0x29 { 0x28 } else { b.last() } }
/// Where the title starts (0: there is none)
pub open spec fn title_start(s: Seq<char>) -> int { title_from(s, title_opener(utf8(s)), utf8(s).len() - 2) }
proof fn lemma_title_from(s: Seq<char>, o: u8, i: int)
    requires i < utf8(s).len(),
    ensures title_from(s, o, i) == 0 || 2 <= title_from(s, o, i) <= i && utf8(s)[title_from(s, o, i)] == o,
    decreases i,
{
    if i >= 2 { lemma_title_from(s, o, i - 1); }
}
//@fn links.rs link_title_start
//@ret r
//@spec
    requires input@.len() > 0, quoted(input@),
    ensures r == title_start(input@),
//@proof start
    proof {
        lemma_utf8_len(input@);
        assert(input@.take(input@.len() as int) =~= input@);
        lemma_byte_of(input@, input@.len() - 1);
    }
//@loop 0
    invariant
        link@ == utf8(input@), opener == title_opener(utf8(input@)), opener < 0x80, link@.len() == blen(input@),
        index <= if link@.len() < 2 { 0 } else { link@.len() - 2 },
        title_from(input@, opener, index as int) == title_start(input@),
    decreases index,
//@proof loop 0 begin
    proof { if link@[index as int] == opener { lemma_ascii_byte(input@, index as int); } }
//@end
pub open spec fn asws() -> spec_fn(char) -> bool { |c: char| sp_is_ascii_whitespace(c) }
pub open spec fn trim_ascii(s: Seq<char>) -> Seq<char> { trim_end_p(trim_start_p(s, asws()), asws()) }
/// A destination without its brackets
pub open spec fn bare(url: Seq<char>) -> Seq<char> {
    if url.len() > 1 && url[0] == '<' && url.last() == '>' { url.subrange(1, url.len() - 1) } else { trim_ascii(url) }
}
//@fn links.rs trim_angle_brackes
//@ret r
//@spec
    ensures r@ == bare(url@),
//@proof start
    proof { if url@.len() > 1 && url@[0] == '<' && url@.last() == '>' {
        let n = url@.len() as int;
        lemma_byte_of(url@, 0);
        lemma_byte_of(url@, n - 1);
        lemma_cix(url@, 1);
        lemma_cix(url@, n - 1);
        assert(url@.take(0) =~= Seq::empty());
        lemma_blen_mono(url@, 1, n - 1);
        assert(url@.take(n) =~= url@);
    } }
//@end
//@fn links.rs trim_ascii_whitespace
//@ret r
//@spec
    ensures r@ == trim_ascii(input@),
//@closure 0
    -> (vx_r: bool) ensures vx_r == asws()(c),
//@end
/// The destination and the title (with its closing quote) that are read from the text between the parens
pub open spec fn parts(s: Seq<char>, has_title: bool) -> (Seq<char>, Option<(Seq<char>, char)>) {
    let p = title_start(s);
    let k = cix(s, p);
    if !has_title || p == 0 || !(exists|i: int| 0 <= i < s.len() && sp_is_whitespace(#[trigger] s[i])) { (bare(s), None) }
    else { (bare(trim_end_p(trim_start_p(s.take(k), ws()), ws())), Some((s.subrange(k + 1, s.len() - 1), s.last()))) }
}
pub open spec fn quoted(s: Seq<char>) -> bool { s.len() > 0 && (s.last() == '"' || s.last() == '\'' || s.last() == ')') }
pub open spec fn is_parts(r: Option<(String, Option<(String, char)>)>, p: (Seq<char>, Option<(Seq<char>, char)>)) -> bool {
    r is Some && r->Some_0.0@ == p.0 && match (r->Some_0.1, p.1) { (None, None) => true, (Some(x), Some(y)) => x.0@ == y.0 && x.1 == y.1, _ => false }
}
//@fn links.rs split_inline_url_from_title
//@ret r
//@spec
    requires input@.len() > 0, has_title ==> quoted(input@),
    ensures is_parts(r, parts(input@, has_title)),
//@proof start
    proof {
    let b = utf8(input@);
    let p = title_start(input@);
    lemma_utf8_len(input@);
    lemma_title_from(input@, title_opener(b), b.len() - 2);
    if has_title {
        let n = input@.len() as int;
        assert(input@.take(n) =~= input@);
        lemma_byte_of(input@, n - 1);
        if p != 0 {
            lemma_ascii_byte(input@, p);
            lemma_ascii_byte(input@, b.len() - 1);
            let k = cix(input@, p);
            lemma_cix(input@, n - 1);
            assert(k < n - 1) by { if k >= n - 1 { lemma_blen_mono(input@, n - 1, k); } }
            let t = input@.skip(k);
            assert(t[0] == input@[k] && t.last() == input@.last());
            assert(trim_end_p(trim_start_p(t, ws()), ws()) == t);
            lemma_byte_of(t, 0);
            lemma_byte_of(t, t.len() - 1);
            lemma_cix(t, 1);
            lemma_cix(t, t.len() - 1);
            assert(t.take(0) =~= Seq::empty());
            lemma_blen_mono(t, 1, t.len() - 1);
            assert(t.take(t.len() as int) =~= t);
            assert(t.subrange(1, t.len() - 1) =~= input@.subrange(k + 1, n - 1));
            lemma_utf8_len(t);
        }
    }
    assert(within(VxIsWhitespace {}, input@) == (exists|i: int| 0 <= i < input@.len() && sp_is_whitespace(#[trigger] input@[i]))) by {
        if within(VxIsWhitespace {}, input@) { let k = choose|k: int| #[trigger] VxIsWhitespace {}.at(input@, k); assert(sp_is_whitespace(input@[k])); }
        if exists|i: int| 0 <= i < input@.len() && sp_is_whitespace(#[trigger] input@[i]) {
            let i = choose|i: int| 0 <= i < input@.len() && sp_is_whitespace(#[trigger] input@[i]);
            assert(VxIsWhitespace {}.at(input@, i));
        }
    }
    }
//@end
/// What comes between the parens of `[](…)`
pub open spec fn inline_body(s: Seq<char>) -> Seq<char> { trim_ascii(s.subrange(3, s.len() - 1)) }
pub open spec fn is_inline(s: Seq<char>) -> bool { s.len() >= 4 && s[0] == '[' && s[1] == ']' && s[2] == '(' && s.last() == ')' }
pub open spec fn inline_parts(s: Seq<char>) -> (Seq<char>, Option<(Seq<char>, char)>) {
    let x = inline_body(s);
    if x.len() == 0 { (Seq::empty(), None) } else { parts(x, quoted(x)) }
}
pub proof fn lemma_inline_bytes(s: Seq<char>)
    requires is_inline(s),
    ensures
        utf8(s).len() == blen(s), utf8(s).len() >= 4, utf8(s)[0] == 0x5b, utf8(s)[1] == 0x5d, utf8(s)[2] == 0x28,
        bdy(s, 3), bdy(s, blen(s) - 1), cix(s, 3) == 3, cix(s, blen(s) - 1) == s.len() - 1, 3 <= blen(s) - 1,
{
    let n = s.len() as int;
    lemma_utf8_len(s);
    assert(s.take(0) =~= Seq::empty());
    lemma_byte_of(s, 0);
    lemma_byte_of(s, 1);
    lemma_byte_of(s, 2);
    lemma_byte_of(s, n - 1);
    assert(s.take(n) =~= s);
    lemma_cix(s, 3);
    lemma_cix(s, n - 1);
    lemma_blen_mono(s, 3, n);
    if n > 4 { lemma_blen_mono(s, 3, n - 1); }
}
pub broadcast proof fn lemma_inline_found<F: Fn(u8) -> bool>(b: Seq<u8>, f: F, h: int, r: (usize, usize))
    requires
        #[trigger] found(b, 0x5b, 0x5d, Some(f), h, r), b.len() >= 4, b[0] == 0x5b, b[1] == 0x5d, b[2] == 0x28,
        forall|x: u8, y: bool| f.ensures((x,), y) ==> y == (x == 0x28),
    ensures r == (0usize, 2usize),
{
    reveal_with_fuel(open_at, 3);
    reveal_with_fuel(esc_before, 3);
    reveal_with_fuel(last_pair, 3);
    assert(open_at(b, 0x5b, 0x5d, 1) =~= seq![0]);
    assert(open_at(b, 0x5b, 0x5d, 2) =~= Seq::empty());
    assert(all_closed(b, 0x5b, 0x5d, 1));
    assert(h == 2) by {
        if h > 2 { assert(f.ensures((b[2],), false)); }
        if h < 2 { assert(all_closed(b, 0x5b, 0x5d, h - 1)); }
    }
}
//@fn links.rs find_inline_url_and_title
//@ret r
//@spec
    requires is_inline(input@), blen(input@) < usize::MAX,
    ensures is_parts(r, inline_parts(input@)),
//@proof start
    broadcast use lemma_inline_found;
    proof { lemma_inline_bytes(input@); }
//@end

/// `[](d w q t c)`: a destination, whitespace and a title between q and c
pub open spec fn with_title(d: Seq<char>, w: Seq<char>, q: char, t: Seq<char>, c: char) -> Seq<char> {
    seq!['[', ']', '('] + (d + w + seq![q] + t + seq![c]) + seq![')']
}
pub open spec fn quotes(q: char, c: char) -> bool { q == '"' && c == '"' || q == '\'' && c == '\'' || q == '(' && c == ')' }
proof fn lemma_title_from_is(s: Seq<char>, o: u8, k: int, i: int)
    requires
        o < 0x80, 0 < k < s.len(), s[k] as u8 == o, (s[k] as u32) < 0x80, title_after(s.take(k)), 2 <= blen(s.take(k)) <= i < blen(s),
        forall|j: int| k < j < s.len() - 1 && #[trigger] s[j] as u8 == o && (s[j] as u32) < 0x80 ==> !title_after(s.take(j)),
        i < blen(s.take(s.len() - 1)),
    ensures title_from(s, o, i) == blen(s.take(k)),
    decreases i,
{
    lemma_utf8_len(s);
    lemma_byte_of(s, k);
    lemma_cix(s, k);
    if i > blen(s.take(k)) {
        if utf8(s)[i] == o {
            lemma_ascii_byte(s, i);
            let j = cix(s, i);
            assert(j > k) by { if j <= k { lemma_blen_mono_le(s, j, k); } }
            assert(j < s.len() - 1) by { if j >= s.len() - 1 { lemma_blen_mono_le(s, s.len() - 1, j); } }
            assert(s[j] as u8 == o);
        }
        lemma_title_from_is(s, o, k, i - 1);
    }
}
proof fn lemma_blen_mono_le(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(i)) <= blen(s.take(j)),
{
    if i < j { lemma_blen_mono(s, i, j); }
}
//@own
/// C09: the title of an inline link and its quotes are the ones that are in the source, and so is the destination
pub proof fn theorem_inline_title(d: Seq<char>, w: Seq<char>, q: char, t: Seq<char>, c: char)
    requires
        d.len() > 0, !sp_is_whitespace(d[0]), !sp_is_whitespace(d.last()), w.len() > 0, quotes(q, c),
        forall|i: int| 0 <= i < w.len() ==> sp_is_ascii_whitespace(#[trigger] w[i]),
        forall|i: int| 0 <= i < t.len() && #[trigger] t[i] == q ==> i > 0 && t[i - 1] == '\\',
    ensures
        is_inline(with_title(d, w, q, t, c)),
        inline_parts(with_title(d, w, q, t, c)) == (bare(d), Some((t, c))),
{
    let s = with_title(d, w, q, t, c);
    let x = d + w + seq![q] + t + seq![c];
    assert(s.subrange(3, s.len() - 1) =~= x);
    assert(x[0] == d[0] && x.last() == c);
    assert(trim_ascii(x) == x);
    let k = (d.len() + w.len()) as int;
    let o = title_opener(utf8(x));
    lemma_utf8_len(x);
    let n = x.len() as int;
    assert(x.take(n) =~= x);
    lemma_byte_of(x, n - 1);
    assert(x[k as int] == q);
    assert(x.take(k) =~= d + w);
    assert(title_after(x.take(k)));
    lemma_byte_of(x, k);
    assert(d + w == (d + w).take(k as int));
    lemma_blen_mono(x, 0, 1);
    lemma_blen_mono(x, 1, k as int);
    lemma_blen_mono(x, k as int, n - 1);
    assert forall|j: int| k < j < n - 1 && #[trigger] x[j] as u8 == o && (x[j] as u32) < 0x80 implies !title_after(x.take(j)) by {
        assert(x[j] == t[j - k - 1] && x[j] == q);
        assert(x.take(j).last() == x[j - 1]);
        assert(x[j - 1] == t[j - k - 2]);
    }
    lemma_title_from_is(x, o, k as int, utf8(x).len() - 2);
    lemma_cix(x, k as int);
    assert(sp_is_whitespace(x[d.len() as int])) by { assert(x[d.len() as int] == w[0]); }
    lemma_trim_after(d, w);
    assert(x.subrange(k + 1, n - 1) =~= t);
}
//@own-end
proof fn lemma_trim_after(d: Seq<char>, w: Seq<char>)
    requires d.len() > 0, !sp_is_whitespace(d[0]), !sp_is_whitespace(d.last()), forall|i: int| 0 <= i < w.len() ==> sp_is_ascii_whitespace(#[trigger] w[i]),
    ensures trim_end_p(trim_start_p(d + w, ws()), ws()) == d,
    decreases w.len(),
{
    assert((d + w)[0] == d[0]);
    assert(trim_start_p(d + w, ws()) == d + w);
    if w.len() == 0 { assert(d + w =~= d); }
    else {
        assert((d + w).last() == w.last());
        assert((d + w).drop_last() =~= d + w.drop_last());
        lemma_trim_after(d, w.drop_last());
        assert((d + w.drop_last())[0] == d[0]);
    }
}
/// C09: a destination without whitespace is read as it is, also when it ends like a title
pub proof fn theorem_inline_destination(d: Seq<char>)
    requires d.len() > 0, forall|i: int| 0 <= i < d.len() ==> !sp_is_whitespace(#[trigger] d[i]),
    ensures
        is_inline(seq!['[', ']', '('] + d + seq![')']),
        inline_parts(seq!['[', ']', '('] + d + seq![')']) == (bare(d), None),
{
    let s = seq!['[', ']', '('] + d + seq![')'];
    assert(s.subrange(3, s.len() - 1) =~= d);
    assert(!sp_is_whitespace(d[0]) && !sp_is_whitespace(d.last()));
    assert(trim_ascii(d) == d);
}

}
}
