// src/list.rs
//@include prelude.vrs
pub mod list {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use crate::prelude::*;
verus! {
broadcast use group_prelude;

//@type list.rs ListMarker
//@type list.rs OrderedListMarker
//@type list.rs UnorderedListMarker PartialEq Eq Clone Copy
//@type list.rs InvalidMarker
//@type list.rs ParseListMarkerError

pub open spec fn ordered_char(m: OrderedListMarker) -> char { match m { OrderedListMarker::Period => '.', OrderedListMarker::Parenthesis => ')' } }
pub open spec fn unordered_char(m: UnorderedListMarker) -> char {
    match m { UnorderedListMarker::Asterisk => '*', UnorderedListMarker::Plus => '+', UnorderedListMarker::Hyphen => '-' }
}
pub open spec fn marker_char(m: ListMarker) -> char {
    match m { ListMarker::Ordered { zero_padding, number, marker } => ordered_char(marker), ListMarker::Unordered(marker) => unordered_char(marker) }
}
/// What is written for a marker
pub open spec fn marker_text(m: ListMarker) -> Seq<char> {
    match m {
        ListMarker::Ordered { zero_padding, number, marker } => fill_seq('0', zero_padding as int) + dec(number as nat) + seq![ordered_char(marker)],
        ListMarker::Unordered(marker) => seq![unordered_char(marker)],
    }
}
pub open spec fn marker_edge() -> spec_fn(char) -> bool { |c: char| sp_is_whitespace(c) || c == '>' }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_end_p(trim_start_p(s, marker_edge()), marker_edge()) }
/// The first `.` or `)`
pub open spec fn is_delimiter_at(s: Seq<char>, k: int) -> bool {
    0 <= k < s.len() && (s[k] == '.' || s[k] == ')') && forall|i: int| 0 <= i < k ==> #[trigger] s[i] != '.' && s[i] != ')'
}

// ------------------------------------------------------------------------------------------------ numbers
proof fn lemma_digit(c: char)
    requires sp_is_ascii_digit(c),
    ensures dval(c) < 10, digit(dval(c)) == c,
{
}
proof fn lemma_dec_num(d: Seq<char>)
    requires digits(d), d.len() > 0, d[0] != '0',
    ensures num(d) > 0, dec(num(d)) =~= d,
    decreases d.len(),
{
    let e = d.drop_last();
    lemma_digit(d.last());
    assert(digits(e)) by { assert forall|i: int| 0 <= i < e.len() implies sp_is_ascii_digit(#[trigger] e[i]) by { assert(e[i] == d[i]); } }
    if d.len() == 1 {
        assert(num(e) == 0);
        assert(num(d) == dval(d.last()));
    } else {
        assert(e[0] == d[0]);
        lemma_dec_num(e);
        let n = num(d);
        assert(n == num(e) * 10 + dval(d.last()));
        assert(n / 10 == num(e) && n % 10 == dval(d.last()));
        assert(dec(n) == dec(n / 10).push(digit(n % 10)));
        assert(e.push(d.last()) =~= d);
    }
}
proof fn lemma_num_zeros(z: nat, e: Seq<char>)
    ensures num(fill_seq('0', z as int) + e) == num(e),
    decreases e.len(), z,
{
    let s = fill_seq('0', z as int) + e;
    if e.len() > 0 {
        assert(s.drop_last() =~= fill_seq('0', z as int) + e.drop_last());
        lemma_num_zeros(z, e.drop_last());
    } else if z > 0 {
        assert(s.drop_last() =~= fill_seq('0', z - 1) + e);
        lemma_num_zeros((z - 1) as nat, e);
        assert(s.last() == '0');
    } else {
        assert(s =~= e);
    }
}
/// A number is kept by writing its value with its leading zeros.
proof fn lemma_number_text(d: Seq<char>, p: spec_fn(u8) -> bool)
    requires digits(d), d.len() > 0, forall|b: u8| #[trigger] p(b) == (b == 0x30u8),
    ensures ({
        let z = take_while(utf8(d), p).len();
        let n = num(d);
        &&& z <= d.len()
        &&& n == 0 ==> z > 0 && fill_seq('0', z - 1) + dec(0) =~= d
        &&& n > 0 ==> fill_seq('0', z as int) + dec(n) =~= d
    }),
{
    let z = take_while(utf8(d), p).len();
    assert(ascii(d)) by { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i] as u32) < 0x80 by { assert(sp_is_ascii_digit(d[i])); } }
    lemma_utf8_ascii(d);
    lemma_take_while(utf8(d), p);
    let e = d.skip(z as int);
    assert forall|i: int| 0 <= i < z implies #[trigger] d[i] == '0' by { assert(p(utf8(d)[i])); assert(sp_is_ascii_digit(d[i])); }
    assert(d =~= fill_seq('0', z as int) + e);
    lemma_num_zeros(z, e);
    if e.len() > 0 {
        assert(!p(utf8(d)[z as int]));
        assert(e[0] == d[z as int]);
        assert forall|i: int| 0 <= i < e.len() implies sp_is_ascii_digit(#[trigger] e[i]) by { assert(e[i] == d[i + z]); }
        lemma_dec_num(e);
    }
}

pub open spec fn bullet(c: char) -> bool { c == '*' || c == '+' || c == '-' }
/// The result of parsing the (trimmed) text of an item
#[verifier::opaque]
pub open spec fn parses(t: Seq<char>, r: Result<ListMarker, ParseListMarkerError>) -> bool {
    match r {
        Ok(m) => t.len() > 0 && if bullet(t[0]) { m is Unordered && marker_text(m) =~= seq![t[0]] }
            else { exists|k: int| #[trigger] is_delimiter_at(t, k) && digits(t.take(k)) && k > 0 && m is Ordered && marker_text(m) =~= t.take(k + 1) },
        Err(_) => t.len() == 0 || !bullet(t[0])
            && forall|k: int| #[trigger] is_delimiter_at(t, k) && digits(t.take(k)) ==> k == 0 || num(t.take(k)) > usize::MAX,
    }
}
proof fn lemma_parses_err(t: Seq<char>, r: Result<ListMarker, ParseListMarkerError>)
    requires r is Err, t.len() == 0 || !bullet(t[0]) && forall|k: int| !is_delimiter_at(t, k),
    ensures parses(t, r),
{
    reveal(parses);
}
proof fn lemma_parses_bullet(t: Seq<char>, m: UnorderedListMarker)
    requires t.len() > 0, t[0] == unordered_char(m),
    ensures parses(t, Ok(ListMarker::Unordered(m))),
{
    reveal(parses);
}
proof fn lemma_parses_not_number(t: Seq<char>, k: int, r: Result<ListMarker, ParseListMarkerError>)
    requires is_delimiter_at(t, k), !bullet(t[0]), r is Err, sp_parse(t.take(k)).is_none() || sp_parse(t.take(k)).unwrap() > usize::MAX,
    ensures parses(t, r),
{
    reveal(parses);
    assert forall|j: int| #[trigger] is_delimiter_at(t, j) implies j == k by {
        if j < k { assert(t[j] != '.' && t[j] != ')'); }
        if k < j { assert(t[k] != '.' && t[k] != ')'); }
    }
}
proof fn lemma_parses_number(t: Seq<char>, k: int, n: nat, p: spec_fn(u8) -> bool, r: Result<ListMarker, ParseListMarkerError>)
    requires
        is_delimiter_at(t, k), !bullet(t[0]), sp_parse(t.take(k)) == Some(n),
        forall|b: u8| #[trigger] p(b) == (b == 0x30u8),
        match r {
            Ok(ListMarker::Ordered { zero_padding, number, marker }) => number == n && ordered_char(marker) == t[k]
                && ({ let z = take_while(utf8(t.take(k)), p).len(); zero_padding == if n == 0 && z > 0 { z - 1 } else { z as int } }),
            _ => false,
        },
    ensures parses(t, r),
{
    reveal(parses);
    let d = t.take(k);
    assert(d[0] == t[0]);
    assert(digits(d));
    lemma_number_text(d, p);
    assert(marker_text(r->Ok_0) =~= t.take(k + 1));
}

impl FromSpecImpl<&OrderedListMarker> for char {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(m: &OrderedListMarker) -> char { ordered_char(*m) }
}
impl From<&OrderedListMarker> for char {
//@fn list.rs From<&OrderedListMarker>@char::from
//@nopub
//@end
}
impl FromSpecImpl<&UnorderedListMarker> for char {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(m: &UnorderedListMarker) -> char { unordered_char(*m) }
}
impl From<&UnorderedListMarker> for char {
//@fn list.rs From<&UnorderedListMarker>@char::from
//@nopub
//@end
}
impl TryFromSpecImpl<char> for OrderedListMarker {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(c: char) -> Result<Self, InvalidMarker> {
        if c == '.' { Ok(OrderedListMarker::Period) } else if c == ')' { Ok(OrderedListMarker::Parenthesis) } else { Err(InvalidMarker(c)) }
    }
}
impl TryFrom<char> for OrderedListMarker {
    type Error = InvalidMarker;
//@fn list.rs TryFrom<char>@OrderedListMarker::try_from
//@nopub
//@end
}
impl TryFromSpecImpl<char> for UnorderedListMarker {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(c: char) -> Result<Self, InvalidMarker> {
        if c == '*' { Ok(UnorderedListMarker::Asterisk) } else if c == '+' { Ok(UnorderedListMarker::Plus) }
        else if c == '-' { Ok(UnorderedListMarker::Hyphen) } else { Err(InvalidMarker(c)) }
    }
}
impl TryFrom<char> for UnorderedListMarker {
    type Error = InvalidMarker;
//@fn list.rs TryFrom<char>@UnorderedListMarker::try_from
//@nopub
//@end
}
impl FromSpecImpl<InvalidMarker> for ParseListMarkerError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: InvalidMarker) -> Self { ParseListMarkerError::InvalidMarker(e) }
}
impl From<InvalidMarker> for ParseListMarkerError {
//@fn list.rs From<InvalidMarker>@ParseListMarkerError::from
//@nopub
//@end
}
impl FromSpecImpl<ParseIntError> for ParseListMarkerError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParseIntError) -> Self { ParseListMarkerError::ParseIntError(e) }
}
impl From<ParseIntError> for ParseListMarkerError {
//@fn list.rs From<ParseIntError>@ParseListMarkerError::from
//@nopub
//@end
}

impl ListMarker {
//@fn list.rs Default@ListMarker::default
//@end

//@fn list.rs ListMarker::indentation_len
//@ret r
//@spec
    requires match *self { ListMarker::Ordered { zero_padding, number, marker } => zero_padding <= 0xffff, _ => true },
    ensures r == marker_text(*self).len() + 1, r <= 0x10030,
//@end

//@fn list.rs ListMarker::indentation
//@ret r
//@spec
    requires match *self { ListMarker::Ordered { zero_padding, number, marker } => zero_padding <= 0xffff, _ => true },
    ensures r@ =~= spaces(marker_text(*self).len() as int + 1),
//@end

//@fn list.rs ListMarker::len
//@name vx_len
//@ret r
//@spec
    requires match *self { ListMarker::Ordered { zero_padding, number, marker } => zero_padding <= 0xffff, _ => true },
    ensures r == marker_text(*self).len(),
//@end

//@fn list.rs ListMarker::marker_char
//@ret r
//@spec
    ensures r == marker_char(*self),
//@end

//@fn list.rs ListMarker::zero_padding
//@ret r
//@spec
    requires match *self { ListMarker::Ordered { zero_padding, number, marker } => zero_padding <= 20, _ => true },
    ensures r@ =~= match *self { ListMarker::Ordered { zero_padding, number, marker } => fill_seq('0', zero_padding as int), _ => Seq::empty() },
//@end

//@fn list.rs std::str::FromStr@ListMarker::from_str
//@rettype Result<ListMarker, ParseListMarkerError>
//@ret r
//@spec
    ensures parses(trimmed(s@), r),
//@proof start
    hide(skip_while); hide(trim_end_p); hide(take_while); hide(num); hide(blen); hide(utf8); hide(sp_parse);
    let ghost t = trimmed(s@);
    proof {
        assert forall|r: Result<ListMarker, ParseListMarkerError>| r is Err && (t.len() == 0 || !bullet(t[0]) && forall|k: int| !is_delimiter_at(t, k))
            implies #[trigger] parses(t, r) by { lemma_parses_err(t, r); }
        assert forall|m: UnorderedListMarker| t.len() > 0 && t[0] == unordered_char(m) implies #[trigger] parses(t, Ok(ListMarker::Unordered(m))) by { lemma_parses_bullet(t, m); }
    }
//@proof let offset
    let ghost k = cix(t, offset as int);
    proof {
        assert(s@ == t);
        let items = sp_char_indices(t);
        let j = choose|j: int| 0 <= j < items.len() && (offset, marker) == #[trigger] items[j] && (t[j] == '.' || t[j] == ')')
            && forall|i: int| 0 <= i < j ==> (#[trigger] items[i]).1 != '.' && items[i].1 != ')';
        lemma_bdy(t, j);
        assert forall|i: int| 0 <= i < j implies #[trigger] t[i] != '.' && t[i] != ')' by { let x = items[i]; }
        assert(is_delimiter_at(t, k));
        assert forall|r: Result<ListMarker, ParseListMarkerError>| r is Err && (sp_parse(t.take(k)).is_none() || sp_parse(t.take(k)).unwrap() > usize::MAX)
            implies #[trigger] parses(t, r) by { lemma_parses_not_number(t, k, r); }
    }
//@proof tail
    proof { lemma_parses_number(t, k, number as nat, |b: u8| b == 0x30u8, vx_ret); }
//@end
}
}
}
