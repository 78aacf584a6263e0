// src/html.rs
//@include prelude.vrs
pub mod html {
use vstd::prelude::*;
use crate::prelude::*;
verus! {
broadcast use group_prelude;

//@static html.rs HTML_BLOCK_TAG

/// One of the tags, in any case
pub open spec fn tag_ci(t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] is_html_block_tag(u) && eq_ci(u, t) }
pub open spec fn identifier(w: Seq<char>) -> bool { tag_ci(if w.len() > 0 && w[0] == '/' { w.skip(1) } else { w }) }
pub open spec fn declaration(w: Seq<char>) -> bool { w.len() > 1 && w[0] == '!' && sp_is_ascii_alphabetic(w[1]) }
pub open spec fn comment(w: Seq<char>) -> bool { w.len() >= 3 && w[0] == '!' && w[1] == '-' && w[2] == '-' }
pub open spec fn instruction(w: Seq<char>) -> bool { w.len() >= 1 && w[0] == '?' }
pub open spec fn cdata(w: Seq<char>) -> bool { w.len() >= 2 && w[0] == '!' && w[1] == '[' }

pub open spec fn html_like(s: Seq<char>) -> bool {
    let w = first_word(s);
    w.len() > 0 && (identifier(w) || instruction(w) || comment(w) || declaration(w) || cdata(w))
}

// ------------------------------------------------------------------------------------------------ CommonMark
// The start conditions of HTML blocks, for the text behind the `<` (the tags of condition 1 and 6 that are followed by `>`
// or `/>` aren't text: they are inline HTML).
pub open spec fn tag_1(t: Seq<char>) -> bool {
    ||| t == seq!['s', 'c', 'r', 'i', 'p', 't']
    ||| t == seq!['p', 'r', 'e']
    ||| t == seq!['s', 't', 'y', 'l', 'e']
    ||| t == seq!['t', 'e', 'x', 't', 'a', 'r', 'e', 'a']
}
pub open spec fn tag_6(t: Seq<char>) -> bool {
    ||| t == seq!['a', 'd', 'd', 'r', 'e', 's', 's']
    ||| t == seq!['a', 'r', 't', 'i', 'c', 'l', 'e']
    ||| t == seq!['a', 's', 'i', 'd', 'e']
    ||| t == seq!['b', 'a', 's', 'e']
    ||| t == seq!['b', 'a', 's', 'e', 'f', 'o', 'n', 't']
    ||| t == seq!['b', 'l', 'o', 'c', 'k', 'q', 'u', 'o', 't', 'e']
    ||| t == seq!['b', 'o', 'd', 'y']
    ||| t == seq!['c', 'a', 'p', 't', 'i', 'o', 'n']
    ||| t == seq!['c', 'e', 'n', 't', 'e', 'r']
    ||| t == seq!['c', 'o', 'l']
    ||| t == seq!['c', 'o', 'l', 'g', 'r', 'o', 'u', 'p']
    ||| t == seq!['d', 'd']
    ||| t == seq!['d', 'e', 't', 'a', 'i', 'l', 's']
    ||| t == seq!['d', 'i', 'a', 'l', 'o', 'g']
    ||| t == seq!['d', 'i', 'r']
    ||| t == seq!['d', 'i', 'v']
    ||| t == seq!['d', 'l']
    ||| t == seq!['d', 't']
    ||| t == seq!['f', 'i', 'e', 'l', 'd', 's', 'e', 't']
    ||| t == seq!['f', 'i', 'g', 'c', 'a', 'p', 't', 'i', 'o', 'n']
    ||| t == seq!['f', 'i', 'g', 'u', 'r', 'e']
    ||| t == seq!['f', 'o', 'o', 't', 'e', 'r']
    ||| t == seq!['f', 'o', 'r', 'm']
    ||| t == seq!['f', 'r', 'a', 'm', 'e']
    ||| t == seq!['f', 'r', 'a', 'm', 'e', 's', 'e', 't']
    ||| t == seq!['h', '1']
    ||| t == seq!['h', '2']
    ||| t == seq!['h', '3']
    ||| t == seq!['h', '4']
    ||| t == seq!['h', '5']
    ||| t == seq!['h', '6']
    ||| t == seq!['h', 'e', 'a', 'd']
    ||| t == seq!['h', 'e', 'a', 'd', 'e', 'r']
    ||| t == seq!['h', 'r']
    ||| t == seq!['h', 't', 'm', 'l']
    ||| t == seq!['i', 'f', 'r', 'a', 'm', 'e']
    ||| t == seq!['l', 'e', 'g', 'e', 'n', 'd']
    ||| t == seq!['l', 'i']
    ||| t == seq!['l', 'i', 'n', 'k']
    ||| t == seq!['m', 'a', 'i', 'n']
    ||| t == seq!['m', 'e', 'n', 'u']
    ||| t == seq!['m', 'e', 'n', 'u', 'i', 't', 'e', 'm']
    ||| t == seq!['n', 'a', 'v']
    ||| t == seq!['n', 'o', 'f', 'r', 'a', 'm', 'e', 's']
    ||| t == seq!['o', 'l']
    ||| t == seq!['o', 'p', 't', 'g', 'r', 'o', 'u', 'p']
    ||| t == seq!['o', 'p', 't', 'i', 'o', 'n']
    ||| t == seq!['p']
    ||| t == seq!['p', 'a', 'r', 'a', 'm']
    ||| t == seq!['s', 'e', 'a', 'r', 'c', 'h']
    ||| t == seq!['s', 'e', 'c', 't', 'i', 'o', 'n']
    ||| t == seq!['s', 'u', 'm', 'm', 'a', 'r', 'y']
    ||| t == seq!['t', 'a', 'b', 'l', 'e']
    ||| t == seq!['t', 'b', 'o', 'd', 'y']
    ||| t == seq!['t', 'd']
    ||| t == seq!['t', 'f', 'o', 'o', 't']
    ||| t == seq!['t', 'h']
    ||| t == seq!['t', 'h', 'e', 'a', 'd']
    ||| t == seq!['t', 'i', 't', 'l', 'e']
    ||| t == seq!['t', 'r']
    ||| t == seq!['t', 'r', 'a', 'c', 'k']
    ||| t == seq!['u', 'l']
}
/// The tag name (in any case) ends the line, or a space or tab follows
pub open spec fn tag_then_space(s: Seq<char>, from: int, n: int, t: Seq<char>) -> bool {
    0 < n && 0 <= from <= s.len() - n && eq_ci(t, s.subrange(from, from + n)) && (from + n == s.len() || s[from + n] == ' ' || s[from + n] == '\t')
}
pub open spec fn starts_block(s: Seq<char>) -> bool {
    ||| exists|t: Seq<char>| #[trigger] tag_1(t) && tag_then_space(s, 0, t.len() as int, t)
    ||| exists|t: Seq<char>| #[trigger] tag_6(t) && (tag_then_space(s, 0, t.len() as int, t) || s.len() > 0 && s[0] == '/' && tag_then_space(s, 1, t.len() as int, t))
    ||| s.len() >= 3 && s[0] == '!' && s[1] == '-' && s[2] == '-'
    ||| s.len() >= 1 && s[0] == '?'
    ||| s.len() >= 2 && s[0] == '!' && sp_is_ascii_alphabetic(s[1])
    ||| s.len() >= 2 && s[0] == '!' && s[1] == '['
}
pub proof fn lemma_tags(t: Seq<char>)
    ensures
        tag_1(t) || tag_6(t) ==> is_html_block_tag(t),
        tag_1(t) || tag_6(t) ==> t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> sp_is_ascii_alphanumeric(#[trigger] t[i]),
{
}
/// The first word: what is before the first whitespace
proof fn lemma_first_word(s: Seq<char>, n: int)
    requires
        0 < n <= s.len(), forall|i: int| 0 <= i < n ==> !sp_is_whitespace(#[trigger] s[i]), n == s.len() || sp_is_whitespace(s[n]),
    ensures first_word(s) == s.take(n),
{
    lemma_take_while(s, ws());
    let p = |c: char| !sp_is_whitespace(c);
    assert(!ws()(s[0]));
    assert(skip_while(s, ws()) =~= s);
    lemma_take_while(s, p);
    let k = take_while(s, p).len() as int;
    if k < n { assert(p(s[k])); }
    if k > n { assert(p(s[n])); }
}
proof fn lemma_prefix(s: Seq<char>, n: int)
    requires 0 < n <= s.len(), forall|i: int| 0 <= i < n ==> !sp_is_whitespace(#[trigger] s[i]),
    ensures first_word(s).len() >= n, forall|i: int| 0 <= i < n ==> #[trigger] first_word(s)[i] == s[i],
{
    lemma_take_while(s, ws());
    let p = |c: char| !sp_is_whitespace(c);
    assert(!ws()(s[0]));
    assert(skip_while(s, ws()) =~= s);
    lemma_take_while(s, p);
    let k = take_while(s, p).len() as int;
    if k < n { assert(p(s[k])); }
}
proof fn lemma_tag(s: Seq<char>, from: int, t: Seq<char>)
    requires tag_1(t) || tag_6(t), tag_then_space(s, from, t.len() as int, t), from == 0 || from == 1 && s[0] == '/',
    ensures html_like(s),
{
    lemma_tags(t);
    let n = from + t.len();
    assert forall|i: int| 0 <= i < n implies !sp_is_whitespace(#[trigger] s[i]) && (i >= from ==> sp_is_ascii_alphanumeric(s[i])) by {
        if i >= from {
            let u = s.subrange(from, n);
            assert(u[i - from] == s[i]);
            assert(lower(t[i - from]) == lower(u[i - from]));
            assert(sp_is_ascii_alphanumeric(t[i - from]));
        }
    }
    lemma_first_word(s, n);
    let w = first_word(s);
    assert(w.skip(from) =~= s.subrange(from, n));
    if from == 0 { assert(s[0] != '/'); assert(w =~= s.subrange(0, n)); }
    assert(identifier(w));
}
/// C12, C13: text that would start an HTML block is recognised.
pub proof fn theorem_html_complete(s: Seq<char>)
    requires starts_block(s),
    ensures html_like(s),
{
    if exists|t: Seq<char>| #[trigger] tag_1(t) && tag_then_space(s, 0, t.len() as int, t) {
        let t = choose|t: Seq<char>| #[trigger] tag_1(t) && tag_then_space(s, 0, t.len() as int, t);
        lemma_tag(s, 0, t);
    } else if exists|t: Seq<char>| #[trigger] tag_6(t) && tag_then_space(s, 0, t.len() as int, t) {
        let t = choose|t: Seq<char>| #[trigger] tag_6(t) && tag_then_space(s, 0, t.len() as int, t);
        lemma_tag(s, 0, t);
    } else if exists|t: Seq<char>| #[trigger] tag_6(t) && s.len() > 0 && s[0] == '/' && tag_then_space(s, 1, t.len() as int, t) {
        let t = choose|t: Seq<char>| #[trigger] tag_6(t) && s.len() > 0 && s[0] == '/' && tag_then_space(s, 1, t.len() as int, t);
        lemma_tag(s, 1, t);
    } else if s.len() >= 3 && s[0] == '!' && s[1] == '-' && s[2] == '-' {
        lemma_prefix(s, 3);
    } else if s.len() >= 1 && s[0] == '?' {
        lemma_prefix(s, 1);
    } else {
        lemma_prefix(s, 2);
    }
}

//@fn html.rs starts_with_html_block_identifier
//@ret r
//@rename HTML_BLOCK_TAG => vx_html_block_tag()
//@proof start
    proof { lemma_trim_empty(s@); }
//@closure 0
    -> (vx_r: bool) ensures vx_r == identifier(value@),
//@closure 1
    -> (vx_r: bool) ensures vx_r == eq_ci(tag@, value@),
//@closure 2
    -> (vx_r: bool) ensures vx_r == comment(value@),
//@closure 3
    -> (vx_r: bool) ensures vx_r == instruction(value@),
//@closure 4
    -> (vx_r: bool) ensures vx_r == declaration(value@),
//@closure 5
    -> (vx_r: bool) ensures vx_r == (t@.len() > 0 && sp_is_ascii_alphabetic(t@[0])),
//@closure 6
    -> (vx_r: bool) ensures vx_r == sp_is_ascii_alphabetic(c),
//@closure 7
    -> (vx_r: bool) ensures vx_r == cdata(value@),
//@spec
    ensures r == html_like(s@),
//@end
}
}
