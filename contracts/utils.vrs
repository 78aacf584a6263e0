// src/utils.rs
//@include prelude.vrs
pub mod utils {
use vstd::prelude::*;
use crate::prelude::*;
verus! {
broadcast use {group_prelude, ax_skip_skip};

// ------------------------------------------------------------------------------------------------ displayed width
/// Columns a char takes up in a string (unicode-width): the width of a string is the sum over its chars.
pub uninterp spec fn cwidth(c: char) -> nat;
pub open spec fn swidth(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { swidth(s.drop_last()) + cwidth(s.last()) }
}
pub broadcast axiom fn ax_cwidth(c: char)
    requires 0x20 <= c as u32, (c as u32) < 0x7f,
    ensures #[trigger] cwidth(c) == 1;
pub broadcast axiom fn ax_cwidth_ulen(c: char)
    ensures #[trigger] cwidth(c) <= ulen(c);
pub proof fn lemma_swidth_blen(s: Seq<char>)
    ensures swidth(s) <= blen(s),
    decreases s.len(),
{
    if s.len() > 0 { lemma_swidth_blen(s.drop_last()); ax_cwidth_ulen(s.last()); }
}
pub proof fn lemma_swidth_add(a: Seq<char>, b: Seq<char>)
    ensures swidth(a + b) == swidth(a) + swidth(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b == a);
    } else {
        lemma_swidth_add(a, b.drop_last());
        assert((a + b).drop_last() == a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub proof fn lemma_swidth_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> 0x20 <= (#[trigger] s[i]) as u32 && (s[i] as u32) < 0x7f,
    ensures swidth(s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        ax_cwidth(s.last());
        assert forall|i: int| 0 <= i < s.drop_last().len() implies 0x20 <= (#[trigger] s.drop_last()[i]) as u32 && (s.drop_last()[i] as u32) < 0x7f by {
            assert(s.drop_last()[i] == s[i]);
        }
        lemma_swidth_ascii(s.drop_last());
    }
}
pub trait VxWidthStr { fn vx_width(&self) -> (r: usize) ensures r == swidth(self.wview()), r <= isize::MAX; spec fn wview(&self) -> Seq<char>; }
impl VxWidthStr for str {
    open spec fn wview(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_width(&self) -> (r: usize) { unimplemented!() }
}

// ------------------------------------------------------------------------------------------------ escapes
/// The text ends with an odd number of backslashes: the next char is escaped.
pub open spec fn ends_on_escape(s: Seq<char>) -> bool
    decreases s.len()
{
    s.len() > 0 && s.last() == '\\' && !ends_on_escape(s.drop_last())
}

pub broadcast proof fn lemma_fold_escape(s: Seq<char>, g: spec_fn(bool, char) -> bool)
    requires forall|a: bool, i: int| 0 <= i < s.len() ==> #[trigger] g(a, s[i]) == (s[i] == '\\' && !a),
    ensures #[trigger] s.fold_left(false, g) == ends_on_escape(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|a: bool, i: int| 0 <= i < s.drop_last().len() implies #[trigger] g(a, s.drop_last()[i]) == (s.drop_last()[i] == '\\' && !a) by {
            assert(s.drop_last()[i] == s[i]);
            assert(g(a, s[i]) == (s[i] == '\\' && !a));
        }
        lemma_fold_escape(s.drop_last(), g);
        let a = s.drop_last().fold_left(false, g);
        assert(g(a, s[s.len() - 1]) == (s[s.len() - 1] == '\\' && !a));
    }
}

// ------------------------------------------------------------------------------------------------ line endings
/// Number of line endings: CRLF, CR and LF each count once
pub open spec fn nl(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if s[0] == '\r' { if s.len() > 1 && s[1] == '\n' { 1 + nl(s.skip(2)) } else { 1 + nl(s.skip(1)) } }
    else if s[0] == '\n' { 1 + nl(s.skip(1)) }
    else { nl(s.skip(1)) }
}
pub open spec fn nlb(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if s[0] == 13 { if s.len() > 1 && s[1] == 10 { 1 + nlb(s.skip(2)) } else { 1 + nlb(s.skip(1)) } }
    else if s[0] == 10 { 1 + nlb(s.skip(1)) }
    else { nlb(s.skip(1)) }
}
proof fn lemma_nlb_skip_high(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> b[i] != 13 && b[i] != 10,
    ensures nlb(b) == nlb(b.skip(k)),
    decreases k,
{
    if k > 0 {
        lemma_nlb_skip_high(b.skip(1), k - 1);
        assert(b.skip(1).skip(k - 1) == b.skip(k));
    } else {
        assert(b.skip(0) == b);
    }
}
proof fn lemma_utf8_first(s: Seq<char>)
    requires s.len() > 0,
    ensures utf8(s) == enc(s[0]) + utf8(s.skip(1)),
{
    assert(s == seq![s[0]] + s.skip(1));
    lemma_utf8_add(seq![s[0]], s.skip(1));
    assert(seq![s[0]].drop_last() == Seq::<char>::empty());
    assert(utf8(seq![s[0]]) == utf8(Seq::<char>::empty()) + enc(s[0]));
    assert(utf8(seq![s[0]]) == enc(s[0]));
}
pub proof fn lemma_nlb(s: Seq<char>)
    ensures nlb(utf8(s)) == nl(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_utf8_first(s);
        lemma_enc(s[0]);
        lemma_nlb(s.skip(1));
        let b = utf8(s);
        let e = enc(s[0]);
        assert(b.skip(e.len() as int) == utf8(s.skip(1)));
        if s[0] == '\r' || s[0] == '\n' {
            assert(b[0] == e[0]);
            if s[0] == '\r' && s.len() > 1 {
                lemma_utf8_first(s.skip(1));
                lemma_enc(s[1]);
                assert(s.skip(1)[0] == s[1]);
                assert(s.skip(1).skip(1) == s.skip(2));
                lemma_nlb(s.skip(2));
                assert(b[1] == enc(s[1])[0]);
                if s[1] == '\n' {
                    assert(b.skip(2) == utf8(s.skip(2)));
                } else if (s[1] as u32) < 0x80 {
                    assert(b[1] == s[1] as u8);
                }
            } else if s.len() == 1 {
                assert(s.skip(1) == Seq::<char>::empty());
                assert(b.len() == 1);
            }
        } else {
            assert forall|i: int| 0 <= i < e.len() implies b[i] != 13 && b[i] != 10 by {
                assert(b[i] == e[i]);
            }
            lemma_nlb_skip_high(b, e.len() as int);
        }
    }
}
proof fn lemma_nlb_le(b: Seq<u8>)
    ensures nlb(b) <= b.len(),
    decreases b.len(),
{
    if b.len() > 0 {
        lemma_nlb_le(b.skip(1));
        if b.len() > 1 { lemma_nlb_le(b.skip(2)); }
    }
}

/// The document with CRLF line endings
pub open spec fn crlf(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '\n' { seq!['\r', '\n'] + crlf(s.skip(1)) }
    else { seq![s[0]] + crlf(s.skip(1)) }
}
pub open spec fn no_cr(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '\r' }
/// C02: the line endings are counted alike
pub proof fn theorem_count_newlines_crlf(s: Seq<char>)
    requires no_cr(s),
    ensures nl(crlf(s)) == nl(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != '\r' by { assert(s.skip(1)[i] == s[i + 1]); }
        theorem_count_newlines_crlf(s.skip(1));
        if s[0] == '\n' {
            let t = seq!['\r', '\n'] + crlf(s.skip(1));
            assert(t.skip(2) == crlf(s.skip(1)));
        } else {
            let t = seq![s[0]] + crlf(s.skip(1));
            assert(t.skip(1) == crlf(s.skip(1)));
        }
    }
}

/// All line breaks are LF
pub open spec fn unix(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s.len() > 1 && s[0] == '\r' && s[1] == '\n' { seq!['\n'] + unix(s.skip(2)) }
    else { seq![if s[0] == '\r' { '\n' } else { s[0] }] + unix(s.skip(1)) }
}
/// CRLF, then CR
pub proof fn lemma_unix(s: Seq<char>, p: &str)
    requires p@ == seq!['\r', '\n'],
    ensures sp_replace(sp_replace(s, p, seq!['\n']), '\r', seq!['\n']) == unix(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let n = seq!['\n'];
        let k: int = if s.len() > 1 && s[0] == '\r' && s[1] == '\n' { 2 } else { 1 };
        lemma_unix(s.skip(k), p);
        if k == 2 { assert(s.subrange(0, 2) =~= p@); }
        else if p.at(s, 0) { assert(s.subrange(0, 2)[0] == '\r'); assert(s.subrange(0, 2)[1] == '\n'); assert(false); }
        let f = if k == 2 { n } else { seq![s[0]] };
        let t = sp_replace(s.skip(k), p, n);
        assert(sp_replace(s, p, n) == f + t);
        assert((f + t).skip(1) =~= t);
        assert((f + t)[0] == f[0]);
    }
}
/// C02: the same text with CRLF
pub proof fn theorem_unix_crlf(s: Seq<char>)
    requires no_cr(s),
    ensures unix(crlf(s)) == s, unix(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies t[i] != '\r' by { assert(t[i] == s[i + 1]); }
        theorem_unix_crlf(t);
        if s[0] == '\n' { assert((seq!['\r', '\n'] + crlf(t)).skip(2) =~= crlf(t)); }
        else { assert((seq![s[0]] + crlf(t)).skip(1) =~= crlf(t)); }
        assert(s =~= seq![s[0]] + t);
    }
}

//@fn utils.rs get_spaces
//@ret r
//@spec
    requires n <= isize::MAX,
    ensures r@ =~= spaces(n as int),
//@end

//@fn utils.rs unicode_str_width
//@ret r
//@spec
    ensures r == swidth(s@), r <= isize::MAX,
//@end

//@fn utils.rs is_char_esacped
//@ret r
//@spec
    ensures r == (c == '\\' && !prev_escape_char),
//@end

//@fn utils.rs sequence_ends_on_escape
//@ret r
//@spec
    ensures r == ends_on_escape(s@),
//@proof start
    broadcast use lemma_fold_escape;
//@closure 0
    -> (r: bool) ensures r == (current_char == '\\' && !prev),
//@end

//@fn utils.rs count_newlines
//@ret r
//@spec
    ensures r == nl(s@),
//@proof start
    proof { lemma_nlb(s@); lemma_nlb_le(utf8(s@)); }
//@loop 0
    invariant newline_count + nlb(iter@) == nl(s@), nl(s@) <= isize::MAX,
    decreases iter@.len(),
//@end

// ------------------------------------------------------------------------------------------------ lines
pub open spec fn is_nl(c: char) -> bool { c == '\r' || c == '\n' }
/// Chars of the first line, with its line ending
pub open spec fn fl(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if s[0] == '\r' { if s.len() > 1 && s[1] == '\n' { 2 } else { 1 } }
    else if s[0] == '\n' { 1 }
    else { 1 + fl(s.skip(1)) }
}
pub open spec fn flb(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if s[0] == 13 { if s.len() > 1 && s[1] == 10 { 2 } else { 1 } }
    else if s[0] == 10 { 1 }
    else { 1 + flb(s.skip(1)) }
}
/// The first line without its line ending
pub open spec fn first_line(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || is_nl(s[0]) { Seq::empty() } else { seq![s[0]] + first_line(s.skip(1)) }
}
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 || !(0 < fl(s) <= s.len()) { Seq::empty() } else { seq![first_line(s)] + lines(s.skip(fl(s) as int)) }
}
pub proof fn lemma_fl(s: Seq<char>)
    ensures s.len() > 0 ==> 0 < fl(s) <= s.len(), fl(s) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_fl(s.skip(1)); }
}
proof fn lemma_flb(s: Seq<char>)
    ensures flb(utf8(s)) == blen(s.take(fl(s) as int)),
    decreases s.len(),
{
    lemma_fl(s);
    if s.len() > 0 {
        lemma_utf8_first(s);
        lemma_enc(s[0]);
        let b = utf8(s);
        let e = enc(s[0]);
        assert(b.skip(e.len() as int) == utf8(s.skip(1)));
        assert(b[0] == e[0]);
        let k = fl(s) as int;
        if is_nl(s[0]) {
            assert(ascii(s.take(1)));
            assert(s.take(1)[0] == s[0]);
            ax_blen_ascii(s.take(1));
            if s[0] == '\r' && s.len() > 1 {
                lemma_utf8_first(s.skip(1));
                lemma_enc(s[1]);
                assert(b[1] == enc(s[1])[0]);
                if s[1] == '\n' {
                    assert(s.take(2)[0] == s[0] && s.take(2)[1] == s[1]);
                    assert(ascii(s.take(2)));
                    ax_blen_ascii(s.take(2));
                }
            } else if s.len() == 1 {
                assert(s.skip(1) == Seq::<char>::empty());
                assert(b.len() == 1);
            }
        } else {
            lemma_flb(s.skip(1));
            lemma_fl(s.skip(1));
            lemma_flb_skip_high(b, e.len() as int);
            assert(s.take(k) == seq![s[0]] + s.skip(1).take(k - 1));
            lemma_blen_add(seq![s[0]], s.skip(1).take(k - 1));
            lemma_blen_one(s[0]);
        }
    } else {
        assert(s.take(0) == s);
    }
}
proof fn lemma_flb_skip_high(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> b[i] != 13 && b[i] != 10,
    ensures flb(b) == k + flb(b.skip(k)),
    decreases k,
{
    if k > 0 {
        lemma_flb_skip_high(b.skip(1), k - 1);
    } else {
        assert(b.skip(0) == b);
    }
}
proof fn lemma_flb_le(b: Seq<u8>)
    ensures flb(b) <= b.len(),
    decreases b.len(),
{
    if b.len() > 0 { lemma_flb_le(b.skip(1)); }
}
/// The line ending is what trimming the line breaks removes.
proof fn lemma_first_line(s: Seq<char>, p: spec_fn(char) -> bool)
    requires forall|c: char| #[trigger] p(c) == is_nl(c),
    ensures trim_end_p(s.take(fl(s) as int), p) == first_line(s),
    decreases s.len(),
{
    lemma_fl(s);
    let k = fl(s) as int;
    if s.len() == 0 {
        assert(s.take(0) == s);
    } else if is_nl(s[0]) {
        assert(p('\r') && p('\n'));
        assert(s.take(k).drop_last() == s.take(k - 1));
        assert(s.take(0) == Seq::<char>::empty());
        assert(trim_end_p(s.take(0), p) == Seq::<char>::empty());
        assert(s.take(1).drop_last() == s.take(0));
        assert(s.take(1).last() == s[0]);
        assert(trim_end_p(s.take(1), p) == Seq::<char>::empty());
        if k == 2 {
            assert(s.take(2).last() == s[1]);
            assert(s.take(2).drop_last() == s.take(1));
        }
    } else {
        lemma_first_line(s.skip(1), p);
        lemma_fl(s.skip(1));
        assert(s.take(k) == seq![s[0]] + s.skip(1).take(k - 1));
        lemma_trim_end_cons(s[0], s.skip(1).take(k - 1), p);
    }
}
pub proof fn lemma_trim_end_cons(c: char, s: Seq<char>, p: spec_fn(char) -> bool)
    requires !p(c),
    ensures trim_end_p(seq![c] + s, p) == seq![c] + trim_end_p(s, p),
    decreases s.len(),
{
    let t = seq![c] + s;
    if s.len() == 0 {
        assert(t.last() == c);
        assert(t == seq![c] + trim_end_p(s, p));
    } else {
        assert(t.last() == s.last());
        assert(t.drop_last() == seq![c] + s.drop_last());
        lemma_trim_end_cons(c, s.drop_last(), p);
    }
}
proof fn lemma_crlf_nonempty(s: Seq<char>)
    requires no_cr(s), s.len() > 0,
    ensures
        crlf(s).len() > 0,
        first_line(crlf(s)) == first_line(s),
        fl(crlf(s)) <= crlf(s).len(),
        crlf(s).skip(fl(crlf(s)) as int) == crlf(s.skip(fl(s) as int)),
    decreases s.len(),
{
    lemma_fl(crlf(s));
    lemma_fl(s);
    let r = crlf(s.skip(1));
    if s[0] == '\n' {
        let t = seq!['\r', '\n'] + r;
        assert(t[0] == '\r' && t[1] == '\n');
        assert(t.skip(2) == r);
    } else {
        let t = seq![s[0]] + r;
        assert(s[0] != '\r');
        assert(t.skip(1) == r);
        if s.len() > 1 {
            assert forall|i: int| 0 <= i < s.skip(1).len() implies s.skip(1)[i] != '\r' by { assert(s.skip(1)[i] == s[i + 1]); }
            lemma_crlf_nonempty(s.skip(1));
            lemma_fl(s.skip(1));
            lemma_fl(r);
        } else {
            assert(s.skip(1) == Seq::<char>::empty());
            assert(r == Seq::<char>::empty());
            assert(t.skip(1) == crlf(s.skip(1)));
        }
    }
}
/// C02: the lines are the same
pub proof fn theorem_lines_crlf(s: Seq<char>)
    requires no_cr(s),
    ensures lines(crlf(s)) == lines(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_fl(s);
        lemma_crlf_nonempty(s);
        let t = s.skip(fl(s) as int);
        assert forall|i: int| 0 <= i < t.len() implies t[i] != '\r' by { assert(t[i] == s[i + fl(s)]); }
        theorem_lines_crlf(t);
    }
}

/// White space that makes a blank line
pub open spec fn blc(c: char) -> bool { c == ' ' || (9 <= c as u32 && c as u32 <= 13) }
pub open spec fn blw() -> spec_fn(char) -> bool { |c: char| blc(c) }
pub open spec fn blank_line(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> blc(#[trigger] s[i]) }
//@fn utils.rs is_blank_line_char
//@ret r
//@spec
    ensures r == blc(c),
//@end
//@fn utils.rs is_blank_line
//@ret r
//@rename is_blank_line_char => |vx_c: char| -> (vx_r: bool) ensures vx_r == blc(vx_c), { is_blank_line_char(vx_c) }
//@spec
    ensures r == blank_line(s@),
//@end
//@type utils.rs SplitLines
impl<'input> SplitLines<'input> {
    pub open spec fn wf(&self) -> bool { bdy(self.input@, self.offset as int) && self.offset <= blen(self.input@) }
    /// what hasn't been split yet
    pub open spec fn rest(&self) -> Seq<char> { self.input@.skip(cix(self.input@, self.offset as int)) }
//@fn utils.rs Iterator@SplitLines::next
//@name vx_next
//@rettype Option<&'input str>
//@ret r
//@keep self.next
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).input == old(self).input,
        match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Some(l) => old(self).rest().len() > 0 && l@ == first_line(old(self).rest())
                && final(self).rest() == old(self).rest().skip(fl(old(self).rest()) as int),
        },
//@proof start
    let ghost s = self.input@;
    let ghost k = cix(s, self.offset as int);
    let ghost rest = self.rest();
    proof {
        lemma_cix_inv(s, self.offset as int);
        lemma_fl(rest);
        lemma_flb(rest);
        lemma_flb_le(utf8(rest));
        lemma_utf8_len(rest);
        lemma_blen_split(s, k);
        lemma_blen_ge(rest);
    }
//@loop 0
    invariant_except_break new_offset + flb(iter@) == flb(utf8(rest)),
    invariant flb(utf8(rest)) <= isize::MAX,
    ensures new_offset == flb(utf8(rest)),
    decreases iter@.len(),
//@proof let end
    proof {
        let n = fl(rest) as int;
        assert(s.take(k + n) == s.take(k) + rest.take(n));
        lemma_blen_add(s.take(k), rest.take(n));
        lemma_bdy(s, k + n);
        assert(s.subrange(k, k + n) == rest.take(n));
        lemma_first_line(rest, |c: char| is_nl(c));
        assert(rest.skip(n) == s.skip(k + n));
    }
//@end
}
/// The struct behind `split_lines`; what its `next` returns is proved above.
//@fn utils.rs split_lines
//@name vx_split_lines
//@rettype SplitLines<'_>
//@ret r
//@spec
    ensures r.wf(), r.rest() == s@,
//@proof start
    proof { ax_bdy_ends(s@); assert(s@.skip(0) =~= s@); }
//@end
/// Taken for granted: the adapters of the standard library yield what `next` returns, in order.
#[verifier::external_body]
pub fn split_lines(s: &str) -> (r: VxIter<&str>) ensures texts(r@) == lines(s@), r@.len() <= isize::MAX { unimplemented!() }
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
}
}
