// ====================================================================================================================
// The model of the standard library the extracted functions are verified against.
//
// A str / String is a sequence of chars (vstd's view). Byte offsets are derived from it with `blen` (the UTF-8 length).
// Functions marked external_body are trusted: their contracts are the documented behaviour of the std function named by
// the part after `vx_`. The definitions they use (UTF-8 lengths and encodings, whitespace, ...) are compared with std
// itself by `vp-harness model` (every char, and random strings).
// ====================================================================================================================
pub mod prelude {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
verus! {

// ------------------------------------------------------------------------------------------------ UTF-8
pub open spec fn ulen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn enc(c: char) -> Seq<u8> {
    let n = c as u32 as int;
    if n < 0x80 { seq![n as u8] }
    else if n < 0x800 { seq![(0xc0 + n / 0x40) as u8, (0x80 + n % 0x40) as u8] }
    else if n < 0x10000 { seq![(0xe0 + n / 0x1000) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8] }
    else { seq![(0xf0 + n / 0x40000) as u8, (0x80 + n / 0x1000 % 0x40) as u8, (0x80 + n / 0x40 % 0x40) as u8, (0x80 + n % 0x40) as u8] }
}
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + ulen(s.last()) }
}
pub open spec fn utf8(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + enc(s.last()) }
}
pub proof fn lemma_enc(c: char)
    ensures
        enc(c).len() == ulen(c),
        (c as u32) < 0x80 ==> enc(c) == seq![c as u8],
        (c as u32) >= 0x80 ==> forall|i: int| 0 <= i < enc(c).len() ==> enc(c)[i] >= 0x80,
{
}
pub proof fn lemma_utf8_len(s: Seq<char>)
    ensures utf8(s).len() == blen(s),
    decreases s.len(),
{
    if s.len() > 0 { lemma_utf8_len(s.drop_last()); lemma_enc(s.last()); }
}
pub proof fn lemma_utf8_add(a: Seq<char>, b: Seq<char>)
    ensures utf8(a + b) == utf8(a) + utf8(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b == a);
        assert(utf8(a) + utf8(b) == utf8(a));
    } else {
        lemma_utf8_add(a, b.drop_last());
        assert((a + b).drop_last() == a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(utf8(a) + (utf8(b.drop_last()) + enc(b.last())) == (utf8(a) + utf8(b.drop_last())) + enc(b.last()));
    }
}
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b == a);
    } else {
        lemma_blen_add(a, b.drop_last());
        assert((a + b).drop_last() == a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}
pub proof fn lemma_blen_one(c: char)
    ensures blen(seq![c]) == ulen(c), utf8(seq![c]) == enc(c),
{
    let s = seq![c];
    assert(s.drop_last() == Seq::<char>::empty());
    assert(blen(s) == blen(s.drop_last()) + ulen(s.last()));
    assert(utf8(s) == utf8(s.drop_last()) + enc(s.last()));
    assert(utf8(s) == enc(c));
}
pub proof fn lemma_blen_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures blen(s) == blen(s.take(k)) + blen(s.skip(k)),
{
    assert(s =~= s.take(k) + s.skip(k));
    lemma_blen_add(s.take(k), s.skip(k));
}
pub proof fn lemma_blen_ge(s: Seq<char>)
    ensures blen(s) >= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_blen_ge(s.drop_last()); }
}
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub broadcast proof fn ax_blen_ascii(s: Seq<char>)
    requires ascii(s),
    ensures #[trigger] blen(s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as u32) < 0x80 by { assert(s.drop_last()[i] == s[i]); }
        ax_blen_ascii(s.drop_last());
    }
}
pub proof fn lemma_blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(i)) + (j - i) <= blen(s.take(j)),
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    lemma_blen_add(s.take(i), s.subrange(i, j));
    lemma_blen_ge(s.subrange(i, j));
}
/// b is the offset of a char boundary
#[verifier::opaque]
pub open spec fn bdy(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == b }
/// the index of the char at byte offset b
#[verifier::opaque]
pub open spec fn cix(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == b }
pub proof fn lemma_cix(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures bdy(s, blen(s.take(k)) as int), cix(s, blen(s.take(k)) as int) == k,
{
    reveal(bdy);
    reveal(cix);
    let b = blen(s.take(k)) as int;
    let j = cix(s, b);
    assert(0 <= j <= s.len() && blen(s.take(j)) == b);
    if j < k { lemma_blen_mono(s, j, k); }
    if k < j { lemma_blen_mono(s, k, j); }
}
pub broadcast proof fn ax_bdy_ends(s: Seq<char>)
    ensures #![trigger blen(s)] bdy(s, 0), bdy(s, blen(s) as int), cix(s, 0) == 0, cix(s, blen(s) as int) == s.len(),
{
    assert(s.take(0) =~= Seq::empty());
    assert(blen(s.take(0)) == 0);
    assert(s.take(s.len() as int) =~= s);
    lemma_cix(s, 0);
    lemma_cix(s, s.len() as int);
}
pub proof fn lemma_cix_inv(s: Seq<char>, b: int)
    requires bdy(s, b),
    ensures 0 <= cix(s, b) <= s.len(), blen(s.take(cix(s, b))) == b, 0 <= b <= blen(s),
{
    reveal(bdy);
    reveal(cix);
    lemma_blen_split(s, cix(s, b));
}
/// Everything about the boundary at char k.
pub proof fn lemma_bdy(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        bdy(s, blen(s.take(k)) as int), cix(s, blen(s.take(k)) as int) == k, blen(s.take(k)) <= blen(s),
        blen(s) == blen(s.take(k)) + blen(s.skip(k)),
{
    lemma_cix(s, k);
    lemma_blen_split(s, k);
}
pub proof fn lemma_blen_ascii_prefix(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), ascii(s.take(k)),
    ensures blen(s.take(k)) == k, bdy(s, k), cix(s, k) == k, k <= blen(s),
{
    ax_blen_ascii(s.take(k));
    lemma_bdy(s, k);
}
pub proof fn lemma_ulen_ascii(c: char)
    ensures ulen(c) == 1 <==> (c as u32) < 0x80,
{
}

// ------------------------------------------------------------------------------------------------ chars
pub open spec fn sp_is_whitespace(c: char) -> bool {
    let n = c as u32;
    (9 <= n && n <= 13) || n == 0x20 || n == 0x85 || n == 0xa0 || n == 0x1680 || (0x2000 <= n && n <= 0x200a) || n == 0x2028 || n == 0x2029
        || n == 0x202f || n == 0x205f || n == 0x3000
}
pub open spec fn sp_is_ascii_whitespace(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || (c as u32) == 0xc }
pub open spec fn sp_is_ascii_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn sp_is_ascii_punctuation(c: char) -> bool {
    let n = c as u32;
    (33 <= n && n <= 47) || (58 <= n && n <= 64) || (91 <= n && n <= 96) || (123 <= n && n <= 126)
}
pub open spec fn sp_is_ascii_control(c: char) -> bool { (c as u32) < 0x20 || (c as u32) == 0x7f }
pub open spec fn sp_is_ascii(c: char) -> bool { (c as u32) < 0x80 }

pub uninterp spec fn u_is_alphanumeric(c: char) -> bool;
pub uninterp spec fn u_is_alphabetic(c: char) -> bool;
pub uninterp spec fn u_is_numeric(c: char) -> bool;
pub open spec fn sp_is_ascii_alphanumeric(c: char) -> bool { sp_is_ascii_digit(c) || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn sp_is_ascii_alphabetic(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub uninterp spec fn u_is_control(c: char) -> bool;
/// The methods of char. `sp_NAME` is the specification of `vx_NAME`.
pub trait VxChar: Sized {
    spec fn chr(&self) -> char;
    spec fn sp_is_whitespace(&self) -> bool;
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == self.sp_is_whitespace();
    spec fn sp_is_ascii_whitespace(&self) -> bool;
    fn vx_is_ascii_whitespace(&self) -> (r: bool) ensures r == self.sp_is_ascii_whitespace();
    spec fn sp_is_ascii_digit(&self) -> bool;
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == self.sp_is_ascii_digit();
    spec fn sp_is_ascii_punctuation(&self) -> bool;
    fn vx_is_ascii_punctuation(&self) -> (r: bool) ensures r == self.sp_is_ascii_punctuation();
    spec fn sp_is_ascii_control(&self) -> bool;
    fn vx_is_ascii_control(&self) -> (r: bool) ensures r == self.sp_is_ascii_control();
    spec fn sp_is_ascii(&self) -> bool;
    fn vx_is_ascii(&self) -> (r: bool) ensures r == self.sp_is_ascii();
    spec fn sp_is_alphanumeric(&self) -> bool;
    fn vx_is_alphanumeric(&self) -> (r: bool) ensures r == self.sp_is_alphanumeric();
    spec fn sp_is_alphabetic(&self) -> bool;
    fn vx_is_alphabetic(&self) -> (r: bool) ensures r == self.sp_is_alphabetic();
    spec fn sp_is_numeric(&self) -> bool;
    fn vx_is_numeric(&self) -> (r: bool) ensures r == self.sp_is_numeric();
    spec fn sp_is_ascii_alphanumeric(&self) -> bool;
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == self.sp_is_ascii_alphanumeric();
    spec fn sp_is_ascii_alphabetic(&self) -> bool;
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == self.sp_is_ascii_alphabetic();
    spec fn sp_is_control(&self) -> bool;
    fn vx_is_control(&self) -> (r: bool) ensures r == self.sp_is_control();
    fn vx_len_utf8(&self) -> (r: usize) ensures r == ulen(self.chr());
}
impl VxChar for char {
    open spec fn chr(&self) -> char { *self }
    open spec fn sp_is_whitespace(&self) -> bool { sp_is_whitespace(*self) }
    #[verifier::external_body]
    fn vx_is_whitespace(&self) -> (r: bool) { self.is_whitespace() }
    open spec fn sp_is_ascii_whitespace(&self) -> bool { sp_is_ascii_whitespace(*self) }
    #[verifier::external_body]
    fn vx_is_ascii_whitespace(&self) -> (r: bool) { self.is_ascii_whitespace() }
    open spec fn sp_is_ascii_digit(&self) -> bool { sp_is_ascii_digit(*self) }
    #[verifier::external_body]
    fn vx_is_ascii_digit(&self) -> (r: bool) { self.is_ascii_digit() }
    open spec fn sp_is_ascii_punctuation(&self) -> bool { sp_is_ascii_punctuation(*self) }
    #[verifier::external_body]
    fn vx_is_ascii_punctuation(&self) -> (r: bool) { self.is_ascii_punctuation() }
    open spec fn sp_is_ascii_control(&self) -> bool { sp_is_ascii_control(*self) }
    #[verifier::external_body]
    fn vx_is_ascii_control(&self) -> (r: bool) { self.is_ascii_control() }
    open spec fn sp_is_ascii(&self) -> bool { sp_is_ascii(*self) }
    #[verifier::external_body]
    fn vx_is_ascii(&self) -> (r: bool) { self.is_ascii() }
    open spec fn sp_is_alphanumeric(&self) -> bool { u_is_alphanumeric(*self) }
    #[verifier::external_body]
    fn vx_is_alphanumeric(&self) -> (r: bool) { self.is_alphanumeric() }
    open spec fn sp_is_alphabetic(&self) -> bool { u_is_alphabetic(*self) }
    #[verifier::external_body]
    fn vx_is_alphabetic(&self) -> (r: bool) { self.is_alphabetic() }
    open spec fn sp_is_numeric(&self) -> bool { u_is_numeric(*self) }
    #[verifier::external_body]
    fn vx_is_numeric(&self) -> (r: bool) { self.is_numeric() }
    open spec fn sp_is_ascii_alphanumeric(&self) -> bool { sp_is_ascii_alphanumeric(*self) }
    #[verifier::external_body]
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { self.is_ascii_alphanumeric() }
    open spec fn sp_is_ascii_alphabetic(&self) -> bool { sp_is_ascii_alphabetic(*self) }
    #[verifier::external_body]
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) { self.is_ascii_alphabetic() }
    open spec fn sp_is_control(&self) -> bool { u_is_control(*self) }
    #[verifier::external_body]
    fn vx_is_control(&self) -> (r: bool) { self.is_control() }
    #[verifier::external_body]
    fn vx_len_utf8(&self) -> (r: usize) { self.len_utf8() }
}

pub open spec fn byte_ws(b: u8) -> bool { b == 0x20 || b == 9 || b == 10 || b == 12 || b == 13 }
pub trait VxByte { spec fn byte(&self) -> u8; fn vx_is_ascii_whitespace(&self) -> (r: bool) ensures r == byte_ws(self.byte()); }
impl VxByte for u8 {
    open spec fn byte(&self) -> u8 { *self }
    #[verifier::external_body]
    fn vx_is_ascii_whitespace(&self) -> (r: bool) { self.is_ascii_whitespace() }
}

// ------------------------------------------------------------------------------------------------ iterators
/// An iterator over a known sequence of items.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { x: core::marker::PhantomData<T> }
/// The closure's contract determines its result.
pub open spec fn decided<T, F: Fn(T) -> bool>(f: F) -> bool {
    forall|x: T| !(#[trigger] f.ensures((x,), true) && #[trigger] f.ensures((x,), false))
}
pub open spec fn decided_ref<T, F: Fn(&T) -> bool>(f: F) -> bool {
    forall|x: T| !(#[trigger] f.ensures((&x,), true) && #[trigger] f.ensures((&x,), false))
}
/// The result of a closure whose contract determines it
pub open spec fn pred<T, F: Fn(T) -> bool>(f: F) -> spec_fn(T) -> bool { |x: T| choose|b: bool| f.ensures((x,), b) }
pub open spec fn pred_ref<T, F: Fn(&T) -> bool>(f: F) -> spec_fn(T) -> bool { |x: T| choose|b: bool| f.ensures((&x,), b) }
pub open spec fn called<T, F: Fn(T) -> bool>(f: F, s: Seq<T>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] s[i],), pred::<T, F>(f)(s[i]))
}
pub open spec fn called_ref<T, F: Fn(&T) -> bool>(f: F, s: Seq<T>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] s[i],), pred_ref::<T, F>(f)(s[i]))
}
/// s up to the first item that doesn't satisfy p
pub open spec fn take_while<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 || !p(s[0]) { Seq::empty() } else { seq![s[0]] + take_while(s.skip(1), p) }
}
pub open spec fn skip_while<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 || !p(s[0]) { s } else { skip_while(s.skip(1), p) }
}
/// `&[]`
#[verifier::external_body]
pub fn vx_no_items<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { unimplemented!() }
pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
pub open spec fn slices<U>(p: Seq<&[U]>) -> Seq<Seq<U>> { Seq::new(p.len(), |i: int| p[i]@) }
pub open spec fn refers<U>(r: Seq<&U>, s: Seq<U>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < r.len() ==> *r[i] == s[i] }
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
impl<T> VxIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn vx_next_if<F: FnOnce(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires old(self)@.len() > 0 ==> f.requires((&old(self)@[0],)),
        ensures
            if old(self)@.len() == 0 { r is None && final(self)@ == old(self)@ }
            else { match r {
                Some(x) => f.ensures((&old(self)@[0],), true) && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => f.ensures((&old(self)@[0],), false) && final(self)@ == old(self)@,
            } },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next_back(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peek(&mut self) -> (r: Option<&T>)
        ensures
            // (the elements that it has in advance are a part of the sequence)
            *final(self) == *old(self),
            old(self)@.len() == 0 ==> r.is_none(),
            old(self)@.len() > 0 ==> r.is_some() && *r.unwrap() == old(self)@[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peekable(self) -> (r: VxIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: VxIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VxIter<T>) ensures r@ == rev(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_last(self) -> (r: Option<T>)
        ensures self@.len() == 0 ==> r.is_none(), self@.len() > 0 ==> r == Some(self@.last()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
            r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)), decided_ref::<T, F>(f),
        ensures r@ == self@.filter(pred_ref::<T, F>(f)), called_ref::<T, F>(f, self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)), decided_ref::<T, F>(f),
        ensures r@ == take_while(self@, pred_ref::<T, F>(f)), called_ref::<T, F>(f, self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)), decided_ref::<T, F>(f),
        ensures r@ == skip_while(self@, pred_ref::<T, F>(f)), called_ref::<T, F>(f, self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            match r {
                None => forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
                Some(k) => 0 <= k < old(self)@.len() && f.ensures((old(self)@[k as int],), true)
                    && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] old(self)@[i],), false),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rposition<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            match r {
                None => forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
                Some(k) => 0 <= k < old(self)@.len() && f.ensures((old(self)@[k as int],), true)
                    && forall|i: int| k < i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain(self, other: VxIter<T>) -> (r: VxIter<T>) ensures r@ == self@ + other@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_flat_map<'a, U, F: Fn(T) -> &'a [U]>(self, f: F) -> (r: VxIter<&'a U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|p: Seq<&'a [U]>| #![trigger flat(slices(p))] p.len() == self@.len() && (forall|i: int| 0 <= i < p.len() ==> f.ensures((#[trigger] self@[i],), #[trigger] p[i])) && refers(r@, flat(slices(p))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((&#[trigger] old(self)@[i],)),
        ensures
            match r {
                None => forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((&#[trigger] old(self)@[i],), false),
                Some(x) => exists|k: int| 0 <= k < old(self)@.len() && x == #[trigger] old(self)@[k] && f.ensures((&old(self)@[k],), true)
                    && forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] old(self)@[i],), false),
            },
    { unimplemented!() }
    /// The first Some
    #[verifier::external_body]
    pub fn vx_find_map<U, F: Fn(T) -> Option<U>>(&mut self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            match r {
                None => forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), None),
                Some(x) => exists|k: int| 0 <= k < old(self)@.len() && f.ensures((#[trigger] old(self)@[k],), Some(x))
                    && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] old(self)@[i],), None),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_fold<A, F: Fn(A, T) -> A>(self, init: A, f: F) -> (r: A)
        requires
            forall|a: A, i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((a, self@[i])),
            functional2::<A, T, F>(f),
        ensures
            r == self@.fold_left(init, as_fn2::<A, T, F>(f)),
            forall|a: A, i: int| 0 <= i < self@.len() ==> f.ensures((a, self@[i]), #[trigger] as_fn2::<A, T, F>(f)(a, self@[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip<U>(self, other: VxIter<U>) -> (r: VxIter<(T, U)>)
        ensures
            r@.len() == if self@.len() < other@.len() { self@.len() } else { other@.len() },
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], other@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip_longest<U>(self, other: VxIter<U>) -> (r: VxIter<EitherOrBoth<T, U>>)
        ensures
            r@.len() == if self@.len() < other@.len() { other@.len() } else { self@.len() },
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == if i < self@.len() && i < other@.len() { EitherOrBoth::Both(self@[i], other@[i]) }
                else if i < self@.len() { EitherOrBoth::Left(self@[i]) } else { EitherOrBoth::Right(other@[i]) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]), self@.len() <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: VxIter<T>)
        ensures r@ == if n < self@.len() { self@.skip(n as int) } else { Seq::empty() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: VxIter<T>)
        ensures r@ == if n < self@.len() { self@.take(n as int) } else { self@ },
    { unimplemented!() }
}
/// A closure whose contract determines its result, as a function
pub open spec fn sum(s: Seq<usize>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat }
}
/// These parts with sep in between
pub open spec fn sp_join(p: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { p[0] + sep + sp_join(p.skip(1), sep) }
}
impl<'a> VxIter<&'a str> {
    /// itertools
    #[verifier::external_body]
    pub fn vx_join(self, sep: &str) -> (r: String) ensures r@ == sp_join(Seq::new(self@.len(), |i: int| self@[i]@), sep@) { unimplemented!() }
}
impl VxIter<usize> {
    #[verifier::external_body]
    pub fn vx_sum(self) -> (r: usize)
        requires sum(self@) <= usize::MAX,
        ensures r == sum(self@),
    { unimplemented!() }
}
pub open spec fn functional2<A, T, F: Fn(A, T) -> A>(f: F) -> bool {
    forall|a: A, x: T, r1: A, r2: A| #[trigger] f.ensures((a, x), r1) && #[trigger] f.ensures((a, x), r2) ==> r1 == r2
}
pub open spec fn as_fn2<A, T, F: Fn(A, T) -> A>(f: F) -> spec_fn(A, T) -> A { |a: A, x: T| choose|r: A| f.ensures((a, x), r) }
pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }

// ------------------------------------------------------------------------------------------------ str and String
/// Patterns that match single chars: a char, or an array of chars
pub trait VxPat: Sized { spec fn hits(&self, c: char) -> bool; }
impl VxPat for char { open spec fn hits(&self, c: char) -> bool { c == *self } }
impl<const N: usize> VxPat for [char; N] { open spec fn hits(&self, c: char) -> bool { self@.contains(c) } }
impl<const N: usize> VxPat for &[char; N] { open spec fn hits(&self, c: char) -> bool { self@.contains(c) } }
/// Patterns of split: those, and strings
pub trait VxSplit: Sized { spec fn parts(&self, s: Seq<char>) -> Seq<Seq<char>>; }
impl VxSplit for char { open spec fn parts(&self, s: Seq<char>) -> Seq<Seq<char>> { split_p(s, pat(*self)) } }
impl<const N: usize> VxSplit for [char; N] { open spec fn parts(&self, s: Seq<char>) -> Seq<Seq<char>> { split_p(s, pat(*self)) } }
impl VxSplit for VxAny2 { open spec fn parts(&self, s: Seq<char>) -> Seq<Seq<char>> { split_p(s, pat(*self)) } }
impl VxSplit for VxAny3 { open spec fn parts(&self, s: Seq<char>) -> Seq<Seq<char>> { split_p(s, pat(*self)) } }
impl VxSplit for VxIsWhitespace { open spec fn parts(&self, s: Seq<char>) -> Seq<Seq<char>> { split_p(s, pat(*self)) } }
impl VxSplit for &str { open spec fn parts(&self, s: Seq<char>) -> Seq<Seq<char>> { split_str(s, self@) } }
/// The first index from k on where t is
pub open spec fn first_at(t: Seq<char>, s: Seq<char>, k: int) -> int
    decreases s.len() - k
{
    if text_at(t, s, k) { k } else if k >= s.len() || k < 0 { -1 } else { first_at(t, s, k + 1) }
}
/// str::split with a string that isn't empty
pub open spec fn split_str(s: Seq<char>, t: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    let k = first_at(t, s, 0);
    if k < 0 || t.len() == 0 || k + t.len() > s.len() { seq![s] } else { seq![s.take(k)] + split_str(s.skip(k + t.len() as int), t) }
}
/// Patterns of starts_with, contains, strip_prefix, ...
pub trait VxNeedle: Sized {
    /// The number of chars that match (all patterns match a fixed number of chars)
    spec fn nlen(&self) -> nat;
    /// It matches at index k
    spec fn at(&self, s: Seq<char>, k: int) -> bool;
}
impl VxNeedle for char {
    open spec fn nlen(&self) -> nat { 1 }
    open spec fn at(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && s[k] == *self }
}
impl<const N: usize> VxNeedle for [char; N] {
    open spec fn nlen(&self) -> nat { 1 }
    open spec fn at(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && self@.contains(s[k]) }
}
impl<const N: usize> VxNeedle for &[char; N] {
    open spec fn nlen(&self) -> nat { 1 }
    open spec fn at(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && self@.contains(s[k]) }
}
/// The pattern matches somewhere
pub open spec fn within<P: VxNeedle>(p: P, s: Seq<char>) -> bool { exists|k: int| #[trigger] p.at(s, k) }
pub open spec fn text_at(t: Seq<char>, s: Seq<char>, k: int) -> bool { 0 <= k <= s.len() - t.len() && s.subrange(k, k + t.len()) == t }
impl VxNeedle for &str {
    open spec fn nlen(&self) -> nat { self@.len() }
    open spec fn at(&self, s: Seq<char>, k: int) -> bool { text_at(self@, s, k) }
}
/// Each place where the pattern matches, from left to right, is replaced
pub open spec fn sp_replace<P: VxNeedle>(s: Seq<char>, p: P, to: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || p.nlen() == 0 { s }
    else if p.at(s, 0) && p.nlen() <= s.len() { to + sp_replace(s.skip(p.nlen() as int), p, to) }
    else { seq![s[0]] + sp_replace(s.skip(1), p, to) }
}
/// `[char; 2]` as a pattern
pub struct VxAny2(pub char, pub char);
impl VxPat for VxAny2 { open spec fn hits(&self, c: char) -> bool { c == self.0 || c == self.1 } }
impl VxNeedle for VxAny2 {
    open spec fn nlen(&self) -> nat { 1 }
    open spec fn at(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && self.hits(s[k]) }
}
/// `[char; 3]` as a pattern
pub struct VxAny3(pub char, pub char, pub char);
impl VxPat for VxAny3 { open spec fn hits(&self, c: char) -> bool { c == self.0 || c == self.1 || c == self.2 } }
impl VxNeedle for VxAny3 {
    open spec fn nlen(&self) -> nat { 1 }
    open spec fn at(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && self.hits(s[k]) }
}
/// `[char; 4]` as a pattern
pub struct VxAny4(pub char, pub char, pub char, pub char);
impl VxPat for VxAny4 { open spec fn hits(&self, c: char) -> bool { c == self.0 || c == self.1 || c == self.2 || c == self.3 } }
impl VxNeedle for VxAny4 {
    open spec fn nlen(&self) -> nat { 1 }
    open spec fn at(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && self.hits(s[k]) }
}
impl VxNeedle for VxIsWhitespace {
    open spec fn nlen(&self) -> nat { 1 }
    open spec fn at(&self, s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && sp_is_whitespace(s[k]) }
}
/// `char::is_whitespace`
pub struct VxIsWhitespace {}
impl VxPat for VxIsWhitespace { open spec fn hits(&self, c: char) -> bool { sp_is_whitespace(c) } }

pub open spec fn trim_start_p(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> { skip_while(s, p) }
pub open spec fn trim_end_p(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || !p(s.last()) { s } else { trim_end_p(s.drop_last(), p) }
}
pub open spec fn ws() -> spec_fn(char) -> bool { |c: char| sp_is_whitespace(c) }
pub open spec fn pat<P: VxPat>(p: P) -> spec_fn(char) -> bool { |c: char| p.hits(c) }

pub open spec fn sp_char_indices(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (blen(s.take(i)) as usize, s[i])) }
/// The number that is written with these digits
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> sp_is_ascii_digit(#[trigger] s[i]) }
pub open spec fn dval(c: char) -> nat { (c as u32 - '0' as u32) as nat }
pub open spec fn num(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + dval(s.last()) }
}
/// str::parse::<usize>
pub open spec fn sp_parse(s: Seq<char>) -> Option<nat> {
    if s.len() > 0 && digits(s) { Some(num(s)) }
    else if s.len() > 1 && s[0] == '+' && digits(s.skip(1)) { Some(num(s.skip(1))) }
    else { None }
}
#[verifier::external_body]
#[derive(Debug, PartialEq, Eq)]
pub struct ParseIntError { e: () }

pub open spec fn first_word(s: Seq<char>) -> Seq<char> { take_while(skip_while(s, ws()), |c: char| !sp_is_whitespace(c)) }
pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn eq_ci(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
/// str::lines
pub open spec fn line_len(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + line_len(s.skip(1)) }
}
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn str_lines(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if line_len(s) >= s.len() { seq![s] }
    else { seq![strip_cr(s.take(line_len(s) as int))] + str_lines(s.skip(line_len(s) as int + 1)) }
}
/// str::split with a pattern for single chars
pub open spec fn split_p(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![s] }
    else if p(s.last()) { split_p(s.drop_last(), p).push(seq![]) }
    else { let r = split_p(s.drop_last(), p); r.drop_last().push(r.last().push(s.last())) }
}
/// What follows the last char that matches
pub open spec fn after_last(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || p(s.last()) { seq![] } else { after_last(s.drop_last(), p).push(s.last()) }
}
pub broadcast proof fn ax_split_last(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures #![trigger split_p(s, p)] split_p(s, p).len() > 0, split_p(s, p).last() == after_last(s, p),
    decreases s.len(),
{
    if s.len() > 0 { ax_split_last(s.drop_last(), p); }
}
pub broadcast proof fn ax_after_last_ext(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]),
    ensures #![trigger after_last(s, p), after_last(s, q)] after_last(s, p) == after_last(s, q),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        assert(p(s[s.len() - 1]) == q(s[s.len() - 1]));
        ax_after_last_ext(s.drop_last(), p, q);
    }
}
/// A value that is taken out, the default is left behind
pub trait VxTake: Sized {
    spec fn is_default(&self) -> bool;
}
impl<T> VxTake for Vec<T> { open spec fn is_default(&self) -> bool { self@.len() == 0 } }
impl VxTake for String { open spec fn is_default(&self) -> bool { self@.len() == 0 } }
#[verifier::external_body]
pub fn vx_take<T: VxTake>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).is_default() { unimplemented!() }
/// The methods of Option<bool>, Result<String, _>, ... that need a default
pub trait VxUnwrapOrDefault<T> { spec fn or_default(&self, r: T) -> bool; fn vx_unwrap_or_default(self) -> (r: T) ensures self.or_default(r); }
impl VxUnwrapOrDefault<bool> for Option<bool> {
    open spec fn or_default(&self, r: bool) -> bool { match self { Some(b) => r == b, None => !r } }
    fn vx_unwrap_or_default(self) -> (r: bool) { match self { Some(b) => b, None => false } }
}
/// The methods of Option that take closures
pub trait VxOption<T>: Sized {
    spec fn ov(&self) -> Option<T>;
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.ov() is Some ==> f.requires((self.ov()->Some_0,)),
        ensures match self.ov() { Some(x) => f.ensures((x,), r), None => !r };
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.ov() { Some(x) => x, None => d });
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T)
        requires self.ov() is None ==> f.requires(()),
        ensures match self.ov() { Some(x) => r == x, None => f.ensures((), r) };
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.ov() is Some ==> f.requires((self.ov()->Some_0,)),
        ensures match self.ov() { Some(x) => f.ensures((x,), r), None => r == d };
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.ov() is Some ==> f.requires((self.ov()->Some_0,)),
        ensures match self.ov() { Some(x) => r is Some && f.ensures((x,), r->Some_0), None => r is None };
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.ov() is Some ==> f.requires((self.ov()->Some_0,)),
        ensures match self.ov() { Some(x) => f.ensures((x,), r), None => r is None };
}
/// Option::as_ref
pub trait VxOptionRef<T> {
    spec fn orv(&self) -> Option<T>;
    fn vx_as_ref(&self) -> (r: Option<&T>) ensures match self.orv() { Some(x) => r is Some && *r->Some_0 == x, None => r is None };
}
impl<T> VxOptionRef<T> for Option<T> {
    open spec fn orv(&self) -> Option<T> { *self }
    fn vx_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } }
}
/// Option::take
pub trait VxOptionTake<T> {
    spec fn otv(&self) -> Option<T>;
    fn vx_take(&mut self) -> (r: Option<T>) ensures r == old(self).otv(), final(self).otv() is None;
}
impl<T> VxOptionTake<T> for Option<T> {
    open spec fn otv(&self) -> Option<T> { *self }
    fn vx_take(&mut self) -> (r: Option<T>) { self.take() }
}
impl<T> VxOption<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(x) => f(x), None => false } }
    #[verifier::external_body]
    fn vx_unwrap_or(self, d: T) -> (r: T) { self.unwrap_or(d) }
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) { match self { Some(x) => x, None => f() } }
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { match self { Some(x) => f(x), None => d } }
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { match self { Some(x) => f(x), None => None } }
}
/// The methods of Result that take closures
pub trait VxResult<T, E>: Sized {
    spec fn rv(&self) -> Result<T, E>;
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.rv() { Ok(x) => x, Err(_) => d });
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>)
        requires self.rv() is Ok ==> f.requires((self.rv()->Ok_0,)),
        ensures match self.rv() { Ok(x) => r is Ok && f.ensures((x,), r->Ok_0), Err(e) => r == Err::<U, E>(e) };
    fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>)
        requires self.rv() is Ok ==> f.requires((self.rv()->Ok_0,)),
        ensures match self.rv() { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
}
impl<T, E> VxResult<T, E> for Result<T, E> {
    open spec fn rv(&self) -> Result<T, E> { *self }
    #[verifier::external_body]
    fn vx_unwrap_or(self, d: T) -> (r: T) { self.unwrap_or(d) }
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) { match self { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
    fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>) { match self { Ok(x) => f(x), Err(e) => Err(e) } }
}
/// push and pop of String and Vec
pub trait VxPush<T> {
    spec fn items(&self) -> Seq<T>;
    fn vx_push(&mut self, x: T) ensures final(self).items() == old(self).items().push(x);
    fn vx_pop(&mut self) -> (r: Option<T>)
        ensures
            old(self).items().len() == 0 ==> r is None && final(self).items() == old(self).items(),
            old(self).items().len() > 0 ==> r == Some(old(self).items().last()) && final(self).items() == old(self).items().drop_last();
}
impl VxPush<char> for String {
    open spec fn items(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_push(&mut self, x: char) { self.push(x) }
    #[verifier::external_body]
    fn vx_pop(&mut self) -> (r: Option<char>) { self.pop() }
}
impl<T> VxPush<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn vx_push(&mut self, x: T) { self.push(x) }
    fn vx_pop(&mut self) -> (r: Option<T>) { self.pop() }
}
pub trait VxString {
    spec fn sv(&self) -> Seq<char>;
    fn vx_push_str(&mut self, s: &str) ensures final(self).sv() == old(self).sv() + s@;
    fn vx_truncate(&mut self, n: usize)
        requires n <= blen(old(self).sv()) ==> bdy(old(self).sv(), n as int),
        ensures final(self).sv() == if n <= blen(old(self).sv()) { old(self).sv().take(cix(old(self).sv(), n as int)) } else { old(self).sv() };
    fn vx_write_char(&mut self, c: char) -> (r: FmtResult) ensures r is Ok, final(self).sv() == old(self).sv().push(c);
}
impl VxString for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_push_str(&mut self, s: &str) { self.push_str(s) }
    #[verifier::external_body]
    fn vx_truncate(&mut self, n: usize) { self.truncate(n) }
    #[verifier::external_body]
    fn vx_write_char(&mut self, c: char) -> (r: FmtResult) { self.push(c); Ok(()) }
}
/// `[&str]::contains`
pub open spec fn one_of(s: Seq<char>, m: Seq<&str>) -> bool { exists|i: int| 0 <= i < m.len() && s == #[trigger] m[i]@ }
pub trait VxHas {
    spec fn vh(&self) -> Seq<&str>;
    fn vx_contains(&self, x: &&str) -> (r: bool) ensures r == one_of((*x)@, self.vh());
}
impl<'a> VxHas for [&'a str] {
    open spec fn vh(&self) -> Seq<&str> { self@ }
    #[verifier::external_body]
    fn vx_contains(&self, x: &&str) -> (r: bool) { unimplemented!() }
}
pub trait VxStr {
    spec fn vs(&self) -> Seq<char>;
    spec fn sp_len(&self) -> nat;
    spec fn sp_is_empty(&self) -> bool;
    fn vx_len(&self) -> (r: usize) ensures r == blen(self.vs()), r <= isize::MAX;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vs().len() == 0);
    fn vx_is_ascii(&self) -> (r: bool) ensures r == ascii(self.vs());
    fn vx_chars(&self) -> (r: VxIter<char>) ensures r@ == self.vs(), r@.len() <= isize::MAX;
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.vs()), r@.len() <= isize::MAX;
    fn vx_split_at(&self, n: usize) -> (r: (&str, &str))
        requires bdy(self.vs(), n as int),
        ensures r.0@ == self.vs().take(cix(self.vs(), n as int)), r.1@ == self.vs().skip(cix(self.vs(), n as int));
    fn vx_bytes(&self) -> (r: VxIter<u8>) ensures r@ == utf8(self.vs()), r@.len() <= isize::MAX;
    fn vx_lines(&self) -> (r: VxIter<&str>)
        ensures r@.len() == str_lines(self.vs()).len(), r@.len() <= isize::MAX, forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i]@ == str_lines(self.vs())[i];
    fn vx_char_indices(&self) -> (r: VxIter<(usize, char)>)
        ensures r@ == sp_char_indices(self.vs()), blen(self.vs()) <= isize::MAX;
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, bdy(self.vs(), a as int), bdy(self.vs(), b as int),
        ensures r@ == self.vs().subrange(cix(self.vs(), a as int), cix(self.vs(), b as int)), blen(r@) == b - a;
    fn vx_slice_from(&self, a: usize) -> (r: &str)
        requires bdy(self.vs(), a as int),
        ensures r@ == self.vs().skip(cix(self.vs(), a as int)), blen(r@) == blen(self.vs()) - a;
    fn vx_slice_to(&self, b: usize) -> (r: &str)
        requires bdy(self.vs(), b as int),
        ensures r@ == self.vs().take(cix(self.vs(), b as int)), blen(r@) == b;
    fn vx_slice_range(&self, r: core::ops::Range<usize>) -> (t: &str)
        requires r.start <= r.end, bdy(self.vs(), r.start as int), bdy(self.vs(), r.end as int),
        ensures t@ == self.vs().subrange(cix(self.vs(), r.start as int), cix(self.vs(), r.end as int)), blen(t@) == r.end - r.start;
    fn vx_slice_all(&self) -> (r: &str) ensures r@ == self.vs();
    fn vx_trim(&self) -> (r: &str) ensures r@ == trim_end_p(trim_start_p(self.vs(), ws()), ws());
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == trim_start_p(self.vs(), ws());
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == trim_end_p(self.vs(), ws());
    fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str) ensures r@ == trim_end_p(self.vs(), pat(p));
    fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str) ensures r@ == trim_start_p(self.vs(), pat(p));
    fn vx_trim_matches<P: VxPat>(&self, p: P) -> (r: &str) ensures r@ == trim_end_p(trim_start_p(self.vs(), pat(p)), pat(p));
    fn vx_trim_matches_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| #[trigger] f.requires((c,)), decided::<char, F>(f),
        ensures r@ == trim_end_p(trim_start_p(self.vs(), pred::<char, F>(f)), pred::<char, F>(f)),
            forall|c: char| f.ensures((c,), #[trigger] pred::<char, F>(f)(c));
    fn vx_trim_start_matches_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| #[trigger] f.requires((c,)), decided::<char, F>(f),
        ensures r@ == trim_start_p(self.vs(), pred::<char, F>(f)), forall|c: char| f.ensures((c,), #[trigger] pred::<char, F>(f)(c));
    fn vx_trim_end_matches_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| #[trigger] f.requires((c,)), decided::<char, F>(f),
        ensures r@ == trim_end_p(self.vs(), pred::<char, F>(f)), forall|c: char| f.ensures((c,), #[trigger] pred::<char, F>(f)(c));
    /// split with a pattern for single chars, or a string that isn't empty
    fn vx_split<P: VxSplit>(&self, p: P) -> (r: VxIter<&str>)
        ensures r@.len() == p.parts(self.vs()).len(), r@.len() > 0, r@.len() <= isize::MAX, forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i]@ == p.parts(self.vs())[i];
    fn vx_starts_with<P: VxNeedle>(&self, p: P) -> (r: bool) ensures r == p.at(self.vs(), 0);
    fn vx_ends_with<P: VxNeedle>(&self, p: P) -> (r: bool) ensures r == p.at(self.vs(), self.vs().len() - p.nlen());
    fn vx_contains<P: VxNeedle>(&self, p: P) -> (r: bool) ensures r == within(p, self.vs());
    fn vx_replace<P: VxNeedle>(&self, p: P, to: &str) -> (r: String) requires p.nlen() > 0, ensures r@ == sp_replace(self.vs(), p, to@);
    fn vx_strip_prefix<P: VxNeedle>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => p.at(self.vs(), 0) && t@ == self.vs().skip(p.nlen() as int), None => !p.at(self.vs(), 0) };
    fn vx_strip_suffix<P: VxNeedle>(&self, p: P) -> (r: Option<&str>)
        ensures match r {
            Some(t) => p.at(self.vs(), self.vs().len() - p.nlen()) && t@ == self.vs().take(self.vs().len() - p.nlen()),
            None => !p.at(self.vs(), self.vs().len() - p.nlen()),
        };
    fn vx_starts_with_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires self.vs().len() > 0 ==> f.requires((self.vs()[0],)),
        ensures if self.vs().len() > 0 { f.ensures((self.vs()[0],), r) } else { !r };
    fn vx_ends_with_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires self.vs().len() > 0 ==> f.requires((self.vs().last(),)),
        ensures if self.vs().len() > 0 { f.ensures((self.vs().last(),), r) } else { !r };
    fn vx_contains_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.vs().len() ==> f.requires((#[trigger] self.vs()[i],)),
        ensures
            r ==> exists|i: int| 0 <= i < self.vs().len() && f.ensures((#[trigger] self.vs()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.vs().len() ==> f.ensures((#[trigger] self.vs()[i],), false);
    fn vx_find<P: VxNeedle>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(b) => b < isize::MAX && bdy(self.vs(), b as int) && p.at(self.vs(), cix(self.vs(), b as int)) && forall|i: int| 0 <= i < cix(self.vs(), b as int) ==> !#[trigger] p.at(self.vs(), i),
            None => !within(p, self.vs()),
        };
    fn vx_rfind<P: VxNeedle>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(b) => b < isize::MAX && bdy(self.vs(), b as int) && p.at(self.vs(), cix(self.vs(), b as int)) && forall|i: int| i > cix(self.vs(), b as int) ==> !#[trigger] p.at(self.vs(), i),
            None => !within(p, self.vs()),
        };
    fn vx_rfind_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.vs().len() ==> f.requires((#[trigger] self.vs()[i],)),
        ensures match r {
            Some(b) => b < isize::MAX && bdy(self.vs(), b as int) && 0 <= cix(self.vs(), b as int) < self.vs().len() && f.ensures((self.vs()[cix(self.vs(), b as int)],), true)
                && forall|i: int| cix(self.vs(), b as int) < i < self.vs().len() ==> f.ensures((#[trigger] self.vs()[i],), false),
            None => forall|i: int| 0 <= i < self.vs().len() ==> f.ensures((#[trigger] self.vs()[i],), false),
        };
    fn vx_split_whitespace(&self) -> (r: VxIter<&str>)
        ensures
            (r@.len() == 0) == (skip_while(self.vs(), ws()).len() == 0),
            r@.len() > 0 ==> r@[0]@ == first_word(self.vs());
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == eq_ci(self.vs(), o@);
    /// `==`
    fn vx_same(&self, o: &str) -> (r: bool) ensures r == (self.vs() == o@);
    /// parse::<usize>()
    fn vx_parse(&self) -> (r: Result<usize, ParseIntError>)
        ensures match r {
            Ok(n) => sp_parse(self.vs()) == Some(n as nat),
            Err(_) => sp_parse(self.vs()).is_none() || sp_parse(self.vs()).unwrap() > usize::MAX,
        };
    fn vx_repeat(&self, n: usize) -> (r: String)
        requires rep_len(self.vs(), n as nat) <= isize::MAX,
        ensures r@ == repeat_seq(self.vs(), n as nat);
}
/// The UTF-8 length of s repeated n times
pub open spec fn rep_len(s: Seq<char>, n: nat) -> nat { if blen(s) == 1 { n } else { blen(s) * n } }
pub open spec fn repeat_seq<T>(s: Seq<T>, n: nat) -> Seq<T>
    decreases n
{
    if n == 0 { Seq::empty() } else { repeat_seq(s, (n - 1) as nat) + s }
}
pub open spec fn fill_seq<T>(c: T, n: int) -> Seq<T> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| c) }
pub open spec fn spaces(n: int) -> Seq<char> { fill_seq(' ', n) }
impl VxStr for str {
    open spec fn vs(&self) -> Seq<char> { self@ }
    open spec fn sp_len(&self) -> nat { blen(self@) }
    open spec fn sp_is_empty(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body]
    fn vx_is_ascii(&self) -> (r: bool) { self.is_ascii() }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
    #[verifier::external_body]
    fn vx_split_at(&self, n: usize) -> (r: (&str, &str)) { self.split_at(n) }
    #[verifier::external_body]
    fn vx_bytes(&self) -> (r: VxIter<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: VxIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_matches_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start_matches_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end_matches_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split<P: VxSplit>(&self, p: P) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_rfind_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_whitespace(&self) -> (r: VxIter<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_same(&self, o: &str) -> (r: bool) { self == o }
    #[verifier::external_body]
    fn vx_parse(&self) -> (r: Result<usize, ParseIntError>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with<P: VxNeedle>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_replace<P: VxNeedle>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends_with<P: VxNeedle>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_contains<P: VxNeedle>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_prefix<P: VxNeedle>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_suffix<P: VxNeedle>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends_with_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_contains_fn<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_find<P: VxNeedle>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_rfind<P: VxNeedle>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn vx_slice_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body]
    fn vx_slice_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body]
    fn vx_slice_range(&self, r: core::ops::Range<usize>) -> (t: &str) { &self[r] }
    #[verifier::external_body]
    fn vx_slice_all(&self) -> (r: &str) { self }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body]
    fn vx_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body]
    fn vx_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body]
    fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_repeat(&self, n: usize) -> (r: String) { self.repeat(n) }
}

/// `Cow<'_, str>`
#[verifier::external_body]
pub struct Cow<'a>(std::borrow::Cow<'a, str>);
impl<'a> Cow<'a> {
    #[verifier::external_body]
    pub fn vx_as_ref(&self) -> (r: &str) ensures r@ == self@ { self.0.as_ref() }
}
impl<'a> View for Cow<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> core::ops::Deref for Cow<'a> {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str) ensures r@ == self@ { &self.0 }
}
impl<'a> FromSpecImpl<&'a str> for Cow<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'a str) -> Self { cow_of(s@) }
}
impl<'a> FromSpecImpl<String> for Cow<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: String) -> Self { cow_of(s@) }
}
/// Whether the text is borrowed isn't part of the model.
pub uninterp spec fn cow_of<'a>(s: Seq<char>) -> Cow<'a>;
pub broadcast axiom fn ax_cow_of<'a>(s: Seq<char>)
    ensures #[trigger] cow_of::<'a>(s)@ == s;
#[verifier::external_body]
pub proof fn lemma_string_len(s: &String) ensures blen(s@) <= isize::MAX {}
#[verifier::external_body]
pub proof fn lemma_cow_len<'a>(c: Cow<'a>) ensures blen(c@) <= isize::MAX {}
impl<'a> From<&'a str> for Cow<'a> {
    #[verifier::external_body]
    fn from(s: &'a str) -> (r: Cow<'a>) { Cow(s.into()) }
}
impl<'a> From<String> for Cow<'a> {
    #[verifier::external_body]
    fn from(s: String) -> (r: Cow<'a>) { Cow(s.into()) }
}

impl<'a> core::ops::AddAssign<Cow<'a>> for Cow<'a> {
    #[verifier::external_body]
    fn add_assign(&mut self, o: Cow<'a>) { unimplemented!() }
}
impl<'a> vstd::std_specs::ops::AddAssignSpecImpl<Cow<'a>> for Cow<'a> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: Cow<'a>) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: Cow<'a>) -> &Self { &cow_of(self@ + rhs@) }
}

// ------------------------------------------------------------------------------------------------ Vec and slices
pub trait VxVec<T> {
    spec fn vv(&self) -> Seq<T>;
    /// (no elements of size 0)
    fn vx_len(&self) -> (r: usize) ensures r == self.vv().len(), r <= isize::MAX;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vv().len() == 0);
    fn vx_iter(&self) -> (r: VxIter<&T>) ensures r@.len() == self.vv().len(), r@.len() <= isize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self.vv()[i]] 0 <= i < r@.len() ==> *r@[i] == self.vv()[i];
    fn vx_into_iter(&self) -> (r: VxIter<&T>) ensures r@.len() == self.vv().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vv()[i]] 0 <= i < r@.len() ==> *r@[i] == self.vv()[i];
    fn vx_last(&self) -> (r: Option<&T>)
        ensures self.vv().len() == 0 ==> r.is_none(), self.vv().len() > 0 ==> r.is_some() && *r.unwrap() == self.vv().last();
    fn vx_first(&self) -> (r: Option<&T>)
        ensures self.vv().len() == 0 ==> r.is_none(), self.vv().len() > 0 ==> r.is_some() && *r.unwrap() == self.vv()[0];
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_last(&self) -> (r: Option<&T>) { self.last() }
    #[verifier::external_body]
    fn vx_first(&self) -> (r: Option<&T>) { self.first() }
}
impl<T> VxVec<T> for [T] {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) { self.len() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(&self) -> (r: VxIter<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_last(&self) -> (r: Option<&T>) { self.last() }
    #[verifier::external_body]
    fn vx_first(&self) -> (r: Option<&T>) { self.first() }
}
#[verifier::external_body]
pub fn vx_vec_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vx_vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@ =~= fill_seq(x, n as int), r@.len() == n { vec![x; n] }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }
#[verifier::external_body]
pub fn vx_range(r: &core::ops::Range<usize>) -> (c: core::ops::Range<usize>) ensures c == *r { r.clone() }
pub trait VxRangeIsEmpty { spec fn no_range(&self) -> bool; fn vx_is_empty(&self) -> (r: bool) ensures r == self.no_range(); }
impl VxRangeIsEmpty for core::ops::Range<usize> {
    open spec fn no_range(&self) -> bool { self.start >= self.end }
    fn vx_is_empty(&self) -> (r: bool) { !(self.start < self.end) }
}
pub trait VxBool: Sized { spec fn bv(&self) -> bool; fn vx_then_some<T>(self, x: T) -> (r: Option<T>) ensures r == if self.bv() { Some(x) } else { None }; }
impl VxBool for bool {
    open spec fn bv(&self) -> bool { *self }
    #[verifier::external_body]
    fn vx_then_some<T>(self, x: T) -> (r: Option<T>) { self.then_some(x) }
}
pub trait VxUsize {
    fn vx_saturating_sub(self, b: usize) -> (r: usize) ensures r == if self.un() < b { 0 } else { self.un() - b };
    spec fn un(self) -> usize;
    fn vx_max(self, b: usize) -> (r: usize) ensures r == if self.un() < b { b } else { self.un() };
    fn vx_min(self, b: usize) -> (r: usize) ensures r == if b < self.un() { b } else { self.un() };
}
pub trait VxIlog: Sized { spec fn ilog_of(&self) -> nat; fn vx_checked_ilog10(&self) -> (r: Option<u32>)
    ensures self.ilog_of() == 0 ==> r.is_none(), self.ilog_of() > 0 ==> r.is_some() && r.unwrap() + 1 == dec(self.ilog_of()).len() && r.unwrap() <= 19; }
impl VxIlog for usize {
    open spec fn ilog_of(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn vx_checked_ilog10(&self) -> (r: Option<u32>) { (*self).checked_ilog10() }
}
impl VxUsize for usize {
    open spec fn un(self) -> usize { self }
    fn vx_max(self, b: usize) -> (r: usize) { if self < b { b } else { self } }
    fn vx_min(self, b: usize) -> (r: usize) { if b < self { b } else { self } }
    fn vx_saturating_sub(self, b: usize) -> (r: usize) { if self < b { 0 } else { self - b } }
}

// ------------------------------------------------------------------------------------------------ formatting
/// Values that can be formatted with `{}`
pub trait VxDisplay {
    spec fn disp(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
pub fn vx_display<T: VxDisplay + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { x.vx_to_string() }
impl VxDisplay for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
impl VxDisplay for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
impl<'a> VxDisplay for Cow<'a> {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { self.0.to_string() }
}
impl VxDisplay for char {
    open spec fn disp(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
/// The decimal digits of a number
pub open spec fn dec(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub open spec fn digit(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
impl VxDisplay for usize {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { self.to_string() }
}
impl<T: VxDisplay + ?Sized> VxDisplay for &T {
    open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    fn vx_to_string(&self) -> (r: String) { (**self).vx_to_string() }
}
pub open spec fn pad_left(s: Seq<char>, c: char, n: int) -> Seq<char> { fill_seq(c, n - s.len()) + s }
pub open spec fn pad_right(s: Seq<char>, c: char, n: int) -> Seq<char> { s + fill_seq(c, n - s.len()) }
pub open spec fn pad_both(s: Seq<char>, c: char, n: int) -> Seq<char> {
    if n <= s.len() { s } else { fill_seq(c, (n - s.len()) / 2) + s + fill_seq(c, n - s.len() - (n - s.len()) / 2) }
}
#[verifier::external_body]
pub fn vx_pad_left(s: String, c: char, n: usize) -> (r: String) ensures r@ == pad_left(s@, c, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_pad_right(s: String, c: char, n: usize) -> (r: String) ensures r@ == pad_right(s@, c, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_pad_both(s: String, c: char, n: usize) -> (r: String) ensures r@ == pad_both(s@, c, n as int) { unimplemented!() }
pub trait VxAsUsize { fn vx_as_usize(self) -> (r: usize) ensures r == self.us(); spec fn us(self) -> usize; }
impl VxAsUsize for usize { open spec fn us(self) -> usize { self } fn vx_as_usize(self) -> (r: usize) { self } }
impl VxAsUsize for &usize { open spec fn us(self) -> usize { *self } fn vx_as_usize(self) -> (r: usize) { *self } }
pub fn vx_usize<T: VxAsUsize>(x: T) -> (r: usize) ensures r == x.us() { x.vx_as_usize() }

/// `write!(x, "a{}b", y)` writes each piece with write_str.
pub trait VxWrite {
    spec fn wv(&self) -> Seq<char>;
    spec fn wok(&self) -> bool;
    fn vx_write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures r.is_ok(), final(self).wv() == old(self).wv() + s@;
}
impl VxWrite for String {
    open spec fn wv(&self) -> Seq<char> { self@ }
    open spec fn wok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_write_str(&mut self, s: &str) -> (r: FmtResult) { self.push_str(s); Ok(()) }
}
#[verifier::external_body]
pub fn vx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_string_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
#[derive(Debug)]
pub struct FmtError {}
pub type FmtResult = Result<(), FmtError>;
pub fn vx_fmt_ok() -> (r: FmtResult) ensures r.is_ok() { Ok(()) }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { unreachable!() }
pub fn vx_assert(b: bool) requires b {}
/// IntoIterator for Vec
#[verifier::external_body]
pub fn vx_owned<T>(v: Vec<T>) -> (r: VxIter<T>) ensures r@ == v@ { unimplemented!() }
pub fn vx_assert_eq<T>(a: T, b: T) requires a == b {}

/// What a literal at index k means, char by char
pub proof fn lemma_text_at(t: Seq<char>, s: Seq<char>, k: int)
    ensures text_at(t, s, k) == (0 <= k <= s.len() - t.len() && forall|i: int| 0 <= i < t.len() ==> s[k + i] == #[trigger] t[i]),
{
    if 0 <= k <= s.len() - t.len() {
        if forall|i: int| 0 <= i < t.len() ==> s[k + i] == #[trigger] t[i] {
            assert(s.subrange(k, k + t.len()) =~= t);
        } else {
            let i = choose|i: int| 0 <= i < t.len() && s[k + i] != #[trigger] t[i];
            assert(s.subrange(k, k + t.len())[i] == s[k + i]);
        }
    }
}
pub proof fn lemma_trim_end(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures
        trim_end_p(s, p).len() <= s.len(), trim_end_p(s, p) == s.take(trim_end_p(s, p).len() as int),
        forall|i: int| trim_end_p(s, p).len() <= i < s.len() ==> p(#[trigger] s[i]),
        trim_end_p(s, p).len() > 0 ==> !p(trim_end_p(s, p).last()),
    decreases s.len(),
{
    if s.len() == 0 || !p(s.last()) {
        assert(s.take(s.len() as int) =~= s);
    } else {
        let d = s.drop_last();
        lemma_trim_end(d, p);
        let n = trim_end_p(d, p).len() as int;
        assert(d.take(n) =~= s.take(n));
        assert forall|i: int| n <= i < s.len() implies p(#[trigger] s[i]) by { if i < d.len() { assert(d[i] == s[i]); } }
    }
}
pub proof fn lemma_trim_empty(s: Seq<char>)
    ensures (trim_end_p(trim_start_p(s, ws()), ws()).len() == 0) == (skip_while(s, ws()).len() == 0),
{
    let x = skip_while(s, ws());
    lemma_take_while(s, ws());
    lemma_trim_end(x, ws());
    if x.len() > 0 { assert(x[0] == s[s.len() - x.len()]); assert(!ws()(x[0])); if trim_end_p(x, ws()).len() == 0 { assert(ws()(x[0])); } }
}
// Functions of predicates depend on what the predicates hold for.
pub broadcast proof fn ax_take_while_ext<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]),
    ensures #![trigger take_while(s, p), take_while(s, q)] take_while(s, p) == take_while(s, q),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies p(#[trigger] s.skip(1)[i]) == q(s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        assert(p(s[0]) == q(s[0]));
        ax_take_while_ext(s.skip(1), p, q);
    }
}
pub broadcast proof fn ax_skip_while_ext<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]),
    ensures #![trigger skip_while(s, p), skip_while(s, q)] skip_while(s, p) == skip_while(s, q),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies p(#[trigger] s.skip(1)[i]) == q(s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        assert(p(s[0]) == q(s[0]));
        ax_skip_while_ext(s.skip(1), p, q);
    }
}
pub broadcast proof fn ax_filter_ext<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]),
    ensures #![trigger s.filter(p), s.filter(q)] s.filter(p) == s.filter(q),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        assert(p(s[s.len() - 1]) == q(s[s.len() - 1]));
        ax_filter_ext(s.drop_last(), p, q);
    }
}
pub broadcast proof fn ax_trim_end_ext(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]),
    ensures #![trigger trim_end_p(s, p), trim_end_p(s, q)] trim_end_p(s, p) == trim_end_p(s, q),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        assert(p(s[s.len() - 1]) == q(s[s.len() - 1]));
        ax_trim_end_ext(s.drop_last(), p, q);
    }
}
pub broadcast proof fn ax_ascii_bdy(s: Seq<char>, k: int)
    requires ascii(s), 0 <= k <= s.len(),
    ensures #![trigger bdy(s, k)] #![trigger cix(s, k)] bdy(s, k), cix(s, k) == k,
{
    assert forall|i: int| 0 <= i < s.take(k).len() implies (#[trigger] s.take(k)[i] as u32) < 0x80 by { assert(s.take(k)[i] == s[i]); }
    lemma_blen_ascii_prefix(s, k);
}
pub broadcast proof fn ax_repeat_one<T>(s: Seq<T>, n: nat)
    requires s.len() == 1,
    ensures #[trigger] repeat_seq(s, n) == fill_seq(s[0], n as int),
    decreases n,
{
    if n > 0 { ax_repeat_one(s, (n - 1) as nat); }
    assert(repeat_seq(s, n) =~= fill_seq(s[0], n as int));
}
pub broadcast proof fn ax_fill_bdy(c: char, m: int, k: int)
    requires 0 <= k <= m, (c as u32) < 0x80,
    ensures #![trigger bdy(fill_seq(c, m), k)] #![trigger cix(fill_seq(c, m), k)] bdy(fill_seq(c, m), k), cix(fill_seq(c, m), k) == k, fill_seq(c, m).take(k) == fill_seq(c, k),
{
    let s = fill_seq(c, m);
    assert(ascii(s));
    ax_ascii_bdy(s, k);
    assert(s.take(k) =~= fill_seq(c, k));
}
pub broadcast proof fn ax_char_indices(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures #![trigger s[i], sp_char_indices(s)] sp_char_indices(s)[i] == (blen(s.take(i)) as usize, s[i]),
{
}
pub proof fn lemma_utf8_ascii(s: Seq<char>)
    requires ascii(s),
    ensures utf8(s) =~= Seq::new(s.len(), |i: int| s[i] as u8),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as u32) < 0x80 by { assert(s.drop_last()[i] == s[i]); }
        lemma_utf8_ascii(s.drop_last());
        lemma_enc(s.last());
        assert(utf8(s.drop_last()) == Seq::new((s.len() - 1) as nat, |i: int| s.drop_last()[i] as u8));
    }
}
pub proof fn lemma_take_while<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures ({
        let n = take_while(s, p).len();
        &&& n <= s.len() && take_while(s, p) == s.take(n as int)
        &&& forall|i: int| 0 <= i < n ==> p(#[trigger] s[i])
        &&& n < s.len() ==> !p(s[n as int])
        &&& skip_while(s, p) == s.skip(n as int)
    }),
    decreases s.len(),
{
    if s.len() == 0 || !p(s[0]) {
        assert(take_while(s, p) =~= s.take(0));
        assert(skip_while(s, p) =~= s.skip(0));
    } else {
        lemma_take_while(s.skip(1), p);
        let m = take_while(s.skip(1), p).len() as int;
        assert(take_while(s, p) =~= s.take(m + 1));
        assert(s.skip(1).skip(m) =~= s.skip(m + 1));
        assert forall|i: int| 0 <= i < m + 1 implies p(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
        if m + 1 < s.len() { assert(s.skip(1)[m] == s[m + 1]); }
    }
}
pub broadcast proof fn ax_skip_skip<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len() - a,
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}
pub broadcast group group_prelude {
    ax_char_indices, ax_fill_bdy, ax_blen_ascii, ax_bdy_ends, ax_cow_of, ax_take_while_ext, ax_skip_while_ext, ax_filter_ext, ax_trim_end_ext, ax_ascii_bdy, ax_repeat_one, ax_split_last, ax_after_last_ext }
}
}
