// src/formatter.rs, src/links.rs: where a link ends, and the cells of tables
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use list.vrs
//@use escape.vrs
//@use state.vrs
//@use events.vrs
//@use starts.vrs
//@use links.vrs
pub mod ends {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::state::*;
use crate::state::{texts, trim};
use crate::events::*;
use crate::starts::*;
use crate::links::{find_inline_url_and_title, find_reference_link_label, format_link_url, dest_text, is_inline, inline_parts, is_parts, has_label, label_of};
verus! {
broadcast use group_prelude;

/// AsRef<str>
pub trait VxAsRefStr { spec fn rv(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.rv(); }
impl VxAsRefStr for String {
    open spec fn rv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl<'a, 'b> VxAsRefStr for &'b CowStr<'a> {
    open spec fn rv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &str) { unimplemented!() }
}
/// What comes after the text of an inline link
pub open spec fn inline_tail(url: Seq<char>, title: Option<(Seq<char>, char)>) -> Seq<char> {
    let d = dest_text(url, title is Some);
    match title {
        Some((t, q)) => seq![']', '('] + d + (if q == ')' { seq![' ', '('] + t + seq![')', ')'] } else { seq![' ', q] + t + seq![q, ')'] }),
        None => seq![']', '('] + d + seq![')'],
    }
}
impl LinkWriter {
    pub uninterp spec fn result(&self) -> Seq<char>;
    /// (links.vrs)
    #[verifier::external_body]
    pub fn into_buffer(self) -> (r: String) ensures r@ == self.result() { unimplemented!() }
}
impl<'i> FormatState<'i> {
    /// Dynamic dispatch (current_buffer) to the last writer, or to rewrite_buffer if there's none
    #[verifier::external_body]
    pub fn vx_write_tag_str(&mut self, t: &Tag<'i>, s: &str) -> (r: FmtResult)
        ensures
            final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
            r is Ok && old(self).plain() && !(old(self).writers@.len() > 0 && old(self).writers@.last() is Paragraph) ==> final(self).out() == old(self).out() + s@,
    { unimplemented!() }

//@fn links.rs FormatState::write_inline_link
//@generics <S: VxAsRefStr>
//@ret r
//@spec
    ensures
        final(self).only_out(*old(self)), final(self).indentation == old(self).indentation,
        r is Ok && old(self).plain() ==> final(self).out() == old(self).out() + inline_tail(url@, match title { Some((t, q)) => Some((t.rv(), q)), None => None }),
//@proof start
    let ghost vx_t = title;
    let ghost url0 = url@;
    proof { lemma_same(); }
//@proof tail
    proof {
        if vx_ret is Ok && old(self).plain() {
            let o = old(self).out();
            let d = dest_text(url0, vx_t is Some);
            match vx_t {
                None => { assert(self.out() =~= o + (seq![']', '('] + d + seq![')'])); },
                Some((t, q)) => {
                    if q == ')' { assert(self.out() =~= o + (seq![']', '('] + d + (seq![' ', '('] + t.rv() + seq![')', ')']))); }
                    else { assert(self.out() =~= o + (seq![']', '('] + d + (seq![' ', q] + t.rv() + seq![q, ')']))); }
                },
            }
        }
    }
//@end

/// Link: what the source has behind its text
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::Link | TagEnd::Image
//@name end_link
//@inputs &mut self, tag: TagEnd, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: TagEnd) ensures vx_r == t.end(),
//@closure 1
    -> (vx_r: usize) requires text_end + offset <= usize::MAX, ensures vx_r == text_end + offset,
//@closure 2
    -> (vx_r: &str) ensures vx_r@ == if arg_0.0 == 0 { arg_0.1@ } else { unindents(self.all_ind(), arg_0.1@) },
//@spec
    requires
        old(self).in_block(tag), old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX,
        old(self).writers@.len() > 0, old(self).writers@.last() is Link,
        // (pulldown-cmark)
        old(self).nested_context@.last() is Link || old(self).nested_context@.last() is Image,
        !(link_of(old(self).nested_context@.last()).0 is WikiLink),
        link_of(old(self).nested_context@.last()).0 is Reference || link_of(old(self).nested_context@.last()).0 is ReferenceUnknown ==> has_label(old(self).after_text(range)),
        link_of(old(self).nested_context@.last()).0 is Inline ==> is_inline(old(self).after_text(range)),
    ensures r is Ok ==> exists|m: FormatState<'i>, b: FormatState<'i>| #[trigger] final(self).link_ended(*old(self), m, b, range),
//@proof head
    hide(MarkdownWriter::same); hide(MarkdownWriter::plain); hide(MarkdownWriter::takes); hide(inline_parts); hide(is_inline); hide(inline_tail); hide(label_of); hide(has_label); hide(unindents);
//@proof start
    let ghost o = *self;
    let ghost rg = range;
    let ghost mut m = *self;
    let ghost mut b = *self;
    let ghost mut w = *self;
    proof { lemma_same(); }
//@proof let popped_tag
    proof { m = *self; assert(m.writers@ == o.writers@.drop_last()); }
//@proof before self.write_str(&link_writer.into_buffer())
    proof {
        b = *self;
        assert(("<")@ =~= seq!['<']); assert(("[")@ =~= seq!['[']); assert(("![")@ =~= seq!['!', '[']);
        let vt = o.nested_context@.last();
        assert(vt is Image && m.plain() ==> b.out() =~= m.out() + seq!['!', '[']);
        assert(vt is Link && m.plain() && m.writers@.len() == 0 ==> b.out() =~= m.out() + seq!['<'] || b.out() =~= m.out() + seq!['[']);
        assert(vt is Link ==> (link_of(vt).0 is Email || link_of(vt).0 is Autolink) ==> m.plain() && m.writers@.len() == 0 ==> b.out() =~= m.out() + seq!['<']);
        assert(opened(o.nested_context@.last(), m, b));
    }
//@proof let text_end
    let ghost a = text_end;
    let ghost tt = between(self.input@, a as int, rg.end as int);
    proof {
        lemma_between(self.input@, a as int, rg.end as int);
        assert forall|off: int| #[trigger] bdy(tt, off) implies a + off <= rg.end && bdy(self.input@, a + off) && between(self.input@, a + off, rg.end as int) == tt.skip(cix(tt, off)) by {
            lemma_found(self.input@, a as int, rg.end as int, off);
        }
    }
//@proof let text_end 2
    let ghost rest = between(self.input@, text_end as int, rg.end as int);
    let ghost ind = texts(flat(helds(o.writers@.drop_last())) + o.indentation@);
    let ghost l = lines(rest);
    proof {
        lemma_only_out(*self, m);
        assert(self.all_ind() == ind);
        if within(']', tt) {
            let k = cix(tt, text_end - a);
            assert(tt[k] == ']' && forall|i: int| 0 <= i < k ==> tt[i] != ']') by {
                assert forall|i: int| 0 <= i < k implies tt[i] != ']' by { assert(!']'.at(tt, i)); }
            }
            let f = first_of(tt, ']');
            assert(f == k);
            assert(rest == tt.skip(f));
        }
        assert(rest == (if within(']', tt) { tt.skip(first_of(tt, ']')) } else { between(o.input@, rg.start as int, rg.end as int) }));
    }
//@proof chain join
    proof {
        assert(Seq::new(vx_chain@.len(), |i: int| vx_chain@[i]@) =~= outdented(l, ind));
    }
//@proof let text
    let ghost t1 = text@;
    proof { assert(("\n")@ =~= seq!['\n']); assert(t1 == sp_join(outdented(l, ind), seq!['\n'])); }
//@proof let text 2
    proof {
        lemma_string_len(&text);
        assert(text@ =~= seq!['['] + t1);
        assert(text@ == o.after_text(rg));
        w = *self;
        assert(w.out() == b.out() + o.writers@.last()->Link_0.result() || !m.plain());
        assert(w.only_out(m) && w.indentation == m.indentation && b.only_out(m) && b.indentation == m.indentation);
        assert(w.plain() == m.plain());
    }
//@proof tail
    proof {
        if vx_ret is Ok {
            let k = link_of(o.nested_context@.last()).0;
            assert(self.only_out(w) && self.indentation == w.indentation);
            assert(self.only_out(m));
            let tail = link_tail(k, o.after_text(rg));
            assert(w.plain() ==> self.out() =~= w.out() + tail);
            assert(m == (FormatState { writers: m.writers, nested_context: m.nested_context, ..o }));
            assert(m.nested_context@ == o.nested_context@.drop_last());
            assert(b.only_out(m) && b.indentation == m.indentation);
            assert(m.plain() ==> self.out() =~= b.out() + o.writers@.last()->Link_0.result() + tail);
            assert(self.link_ended(o, m, b, rg));
        }
    }
//@end
    /// `[` and the source from the end of the link's text on, without the indentation of its lines
    pub open spec fn after_text(&self, range: Range<usize>) -> Seq<char> {
        let a = if self.last_position < range.start { range.start } else { self.last_position };
        let t = between(self.input@, a as int, range.end as int);
        let l = lines(if within(']', t) { t.skip(first_of(t, ']')) } else { between(self.input@, range.start as int, range.end as int) });
        let ind = texts(flat(helds(self.writers@.drop_last())) + self.indentation@);
        seq!['['] + sp_join(outdented(l, ind), seq!['\n'])
    }
    pub open spec fn link_ended(&self, o: FormatState<'i>, m: FormatState<'i>, b: FormatState<'i>, range: Range<usize>) -> bool {
        let tag = o.nested_context@.last();
        let k = link_of(tag);
        let t = o.after_text(range);
        // the link's writer and its tag are gone
        &&& m == (FormatState { writers: m.writers, nested_context: m.nested_context, ..o })
        &&& m.writers@ == o.writers@.drop_last() && m.nested_context@ == o.nested_context@.drop_last()
        // what opens it (b)
        &&& b.only_out(m) && b.indentation == m.indentation
        &&& opened(tag, m, b)
        // its text, then C09: its destination and title or its label
        &&& self.only_out(m) && self.indentation == m.indentation
        &&& m.plain() ==> self.out() == b.out() + o.writers@.last()->Link_0.result() + link_tail(k.0, t)
    }
}
proof fn lemma_found(s: Seq<char>, a: int, b: int, off: int)
    requires bdy(s, a), bdy(s, b), a <= b, bdy(between(s, a, b), off),
    ensures a + off <= b, bdy(s, a + off), between(s, a + off, b) == between(s, a, b).skip(cix(between(s, a, b), off)),
{
    let t = between(s, a, b);
    lemma_between(s, a, b);
    lemma_cix_inv(s, a);
    lemma_cix_inv(t, off);
    let k = cix(t, off);
    let j = cix(s, a) + k;
    assert(s.take(j) =~= s.take(cix(s, a)) + t.take(k));
    lemma_blen_add(s.take(cix(s, a)), t.take(k));
    lemma_cix(s, j);
    assert(between(s, a + off, b) =~= t.skip(k));
}
proof fn lemma_only_out(a: FormatState<'_>, b: FormatState<'_>)
    requires a.only_out(b), a.indentation == b.indentation,
    ensures a.all_ind() == b.all_ind(),
{
    assert forall|i: int| 0 <= i < a.writers@.len() implies #[trigger] helds(a.writers@)[i] == helds(b.writers@)[i] by {
        if i < a.writers@.len() - 1 {
            assert(a.writers@.drop_last()[i] == a.writers@[i]);
            assert(b.writers@.drop_last()[i] == b.writers@[i]);
        }
    }
    assert(helds(a.writers@) =~= helds(b.writers@));
}
pub open spec fn outdented(l: Seq<Seq<char>>, ind: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| if i == 0 { l[0] } else { unindents(ind, l[i]) }) }
/// What closes it
pub open spec fn link_tail(k: LinkType, t: Seq<char>) -> Seq<char> {
    match k {
            LinkType::Inline => inline_tail(inline_parts(t).0, inline_parts(t).1),
            LinkType::Reference | LinkType::ReferenceUnknown => {
                let l = trim(label_of(t));
                seq![']', '['] + (if l.len() > 0 && l[0] == '^' { seq!['\\'] } else { seq![] }) + l + seq![']']
            },
            LinkType::Collapsed | LinkType::CollapsedUnknown => seq![']', '[', ']'],
            LinkType::Shortcut | LinkType::ShortcutUnknown => seq![']'],
            _ => seq!['>'],
    }
}
pub open spec fn opened(tag: Tag<'_>, m: FormatState<'_>, b: FormatState<'_>) -> bool {
    m.plain() && (tag is Image || m.writers@.len() == 0 || !(m.writers@.last() is Paragraph)) ==>
        b.out() == m.out() + (if tag is Image { seq!['!', '['] } else if link_of(tag).0 is Email || link_of(tag).0 is Autolink { seq!['<'] } else { seq!['['] })
}
pub open spec fn first_of(s: Seq<char>, c: char) -> int { choose|k: int| 0 <= k < s.len() && s[k] == c && forall|i: int| 0 <= i < k ==> s[i] != c }
pub open spec fn link_of<'a>(t: Tag<'a>) -> (LinkType, CowStr<'a>, CowStr<'a>) {
    match t {
        Tag::Link { link_type, dest_url, title, .. } => (link_type, dest_url, title),
        Tag::Image { link_type, dest_url, title, .. } => (link_type, dest_url, title),
        _ => arbitrary(),
    }
}
}
}
