// src/formatter.rs: what is written where a block quote starts and ends
//@include prelude.vrs
//@include pulldown.vrs
//@use utils.vrs
//@use list.vrs
//@use escape.vrs
//@use state.vrs
//@use events.vrs
//@use starts.vrs
//@use items.vrs
pub mod quotes {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use core::ops::Range;
use crate::prelude::*;
use crate::pulldown::*;
use crate::utils::*;
use crate::state::*;
use crate::state::texts;
use crate::events::*;
use crate::starts::*;
use crate::items::*;
verus! {
broadcast use group_prelude;

#[verifier::external_body]
pub fn vx_event<'a, 'i>(e: &'a Event<'i>) -> (r: Event<'i>) ensures r == *e { unimplemented!() }
/// What a line in a block quote starts with
pub open spec fn quote_mark(s: Seq<char>) -> bool { s == (">")@ || s == ("> ")@ }
/// The same indentation, but there might be no space, or one, after the last `>`
pub open spec fn like(a: Seq<Cow<'static>>, b: Seq<Cow<'static>>) -> bool {
    a.len() == b.len() && (a.len() > 0 ==> a.drop_last() == b.drop_last() && (a.last()@ == b.last()@ || (quote_mark(a.last()@) && quote_mark(b.last()@))))
}
/// Line breaks, each with this indentation (or one like it)
pub open spec fn quote_breaks(s: Seq<char>, o: FormatState<'_>) -> bool {
    s.len() == 0 || exists|st: FormatState<'_>, n: nat| s == #[trigger] st.breaks(n, false) && like(st.indentation@, o.indentation@)
}
impl<'i> FormatState<'i> {
/// Block quote: `>` and the same as the indentation of what is in it
//@fn formatter.rs FormatState::start_tag
//@arm Tag::BlockQuote(kind)
//@name start_quote
//@inputs &mut self, tag: Tag<'i>, kind: Option<BlockQuoteKind>, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@rename e.clone() => vx_event(e)
//@closure 0
    -> (vx_r: (Event<'i>, Range<usize>)) ensures vx_r == (*arg_0.0, *arg_0.1),
//@rename r.clone() => vx_range(r)
//@rename range.clone() => vx_range(&range)
//@closure 1
    -> (vx_r: usize) ensures vx_r == l.span().start,
//@spec
    requires
        old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX, kind is None,
        old(self).events@.len() > 0, old(self).next_in_bounds(range.start),
    ensures r is Ok ==> exists|m: FormatState<'i>, gap: Seq<char>, b: FormatState<'i>| #[trigger] final(self).quote_started(*old(self), m, gap, b, tag, range),
//@proof head
    hide(MarkdownWriter::same); hide(MarkdownWriter::plain); hide(FormatState::breaks); hide(nl);
//@proof start
    let ghost vx_rg = range;
    let ghost mut vx_n: usize = 0;
    let ghost mut m = *self;
    let ghost mut b = *self;
    let ghost mut t = *self;
    let ghost mut k: nat = 0;
    let ghost mut d = Seq::<LinkReferenceDefinition<'i>>::empty();
    proof { lemma_same(); ax_len_mono(self.input@, range); }
//@proof let newlines
    proof { vx_n = newlines; t = *self;
        assert(self.indentation@.len() == old(self).indentation@.len());
        if self.indentation@.len() > 0 {
            assert(self.indentation@.drop_last() =~= old(self).indentation@.drop_last());
            assert(self.indentation@.last() == old(self).indentation@.last() || self.indentation@.last() == cow_of::<'static>((">")@));
            assert(self.indentation@.last()@ == old(self).indentation@.last()@ || quote_mark(self.indentation@.last()@));
        }
        assert(like(t.indentation@, old(self).indentation@));
    }
//@proof before self.last_position = range.start
    let ghost gap = if old(self).needs_indent && vx_n > 0 { t.breaks(vx_n as nat, false) } else { Seq::empty() };
    proof {
        assert(old(self).plain() ==> self.out() =~= old(self).out() + gap);
        assert(like(t.indentation@, old(self).indentation@));
    }
//@proof before match self.peek_with_range()
    proof { m = *self; }
//@proof let link_defs
    proof {
        d = link_defs@;
        lemma_cix_inv(self.input@, old(self).events@[0].1.start as int);
        lemma_part(self.input@, range.start as int, range.end as int, snippet@, link_defs@);
    }
//@proof let link_defs 2
    proof {
        d = link_defs@;
        lemma_part(self.input@, range.start as int, next_range.start as int, snippet@, link_defs@);
    }
//@proof let link_defs 3
    proof {
        d = link_defs@;
        lemma_part(self.input@, range.start as int, next_range.start as int, snippet@, link_defs@);
    }
//@proof before self.rewrite_reference_link_definitions_inner
    proof { b = *self; k = 0; assert(b.indentation@.drop_last() =~= m.indentation@); assert(b.marked(m)); }
//@proof before self.rewrite_reference_link_definitions_inner
    proof { b = *self; k = 0; assert(b.indentation@.drop_last() =~= m.indentation@); assert(b.marked(m)); }
//@proof before self.rewrite_reference_link_definitions_inner
    proof { b = *self; k = 0; assert(b.indentation@.drop_last() =~= m.indentation@); assert(b.marked(m)); }
//@proof before self.write_newlines(newlines)
    proof { }
//@proof before self.write_newlines(newlines)
    proof { b = *self; k = newlines as nat; assert(b.indentation@.drop_last() =~= m.indentation@); assert(b.marked(m)); }
//@proof before self.write_newlines(newlines)
    proof { b = *self; k = newlines as nat; assert(b.indentation@.drop_last() =~= m.indentation@); assert(b.marked(m)); }
//@proof after self.indentation.push(">".into())
    proof { b = *self; k = 0; assert(b.indentation@.drop_last() =~= m.indentation@); assert(b.marked(m)); }
//@proof after self.indentation.push(">".into())
    proof { b = *self; k = 0; assert(b.indentation@.drop_last() =~= m.indentation@); assert(b.marked(m)); }
//@proof after *self.indentation.last_mut().unwrap() = ">".into()
    proof { assert(self.indentation@.drop_last() =~= b.indentation@.drop_last()); assert(like(self.indentation@, b.indentation@)); }
//@proof tail
    proof {
        if vx_ret is Ok {
            let z = if k > 0 { b.breaks(k, false) } else { Seq::empty() };
            assert(d.len() == 0 ==> line_breaks(z, b.ind()));
            assert(k == 0 && d.len() == 0 ==> b.plain() ==> self.out() =~= b.out());
            assert(d.len() == 0 ==> b.plain() ==> self.out() =~= b.out() + z);
            assert(like(m.indentation@, old(self).indentation@));
            assert(old(self).plain() ==> m.out() == old(self).out() + gap);
            assert(quote_breaks(gap, *old(self)));
            assert(b.marked(m));
            assert(self.only_defs(b));
            assert(like(self.indentation@, b.indentation@));
            assert(self.quote_started(*old(self), m, gap, b, tag, vx_rg));
        }
    }
//@end
    pub open spec fn marked(&self, m: FormatState<'i>) -> bool {
        &&& self.only_out(m) && self.indentation@.len() == m.indentation@.len() + 1 && self.indentation@.drop_last() == m.indentation@ && quote_mark(self.indentation@.last()@)
        &&& m.plain() ==> self.plain() && (self.out() == m.out() + (">")@ || self.out() == m.out() + ("> ")@)
    }
    /// Line breaks (m), the mark (b), then definitions or line breaks
    pub open spec fn quote_started(&self, o: FormatState<'i>, m: FormatState<'i>, gap: Seq<char>, b: FormatState<'i>, tag: Tag<'i>, range: Range<usize>) -> bool {
        let end = if o.next_event() matches Some(Event::End(TagEnd::BlockQuote(_))) { range.end } else { o.events@[0].1.start };
        let d = shown(parsed(between(o.input@, range.start as int, end as int), range.start));
        &&& m.only_out(FormatState { nested_context: m.nested_context, last_position: range.start, needs_indent: false, ..o }) && m.nested_context@ == o.nested_context@.push(tag)
        &&& like(m.indentation@, o.indentation@)
        &&& o.plain() ==> m.out() == o.out() + gap
        &&& quote_breaks(gap, o)
        // C13: the mark is the indentation of what is in it
        &&& b.marked(m)
        // C08
        &&& self.only_defs(b) && like(self.indentation@, b.indentation@)
        &&& b.plain() ==> if d.len() > 0 { defs_out(b.out(), self.out(), d, b.ind()) } else { exists|z: Seq<char>| self.out() == #[trigger] (b.out() + z) && line_breaks(z, b.ind()) }
    }

/// Block quote: its indentation is gone
//@fn formatter.rs FormatState::end_tag
//@arm TagEnd::BlockQuote(..)
//@name end_quote
//@inputs &mut self, tag: TagEnd, range: Range<usize>
//@ret r
//@rettype FmtResult
//@tail Ok(())
//@closure 0
    -> (vx_r: TagEnd) ensures vx_r == t.end(),
//@spec
    requires old(self).in_block(tag), old(self).in_bounds(range), blen(old(self).input@) <= usize::MAX, old(self).indentation@.len() > 0, quote_mark(old(self).indentation@.last()@),
    ensures r is Ok ==> exists|m: FormatState<'i>, s: Seq<char>| #[trigger] final(self).quote_ended(*old(self), m, s, range),
//@proof start
    proof { lemma_cix_inv(self.input@, self.last_position as int); }
    let ghost mut t = *self;
    let ghost mut w = *self;
//@proof let newlines
    let ghost m = *self;
//@proof before self.write_newlines(newlines)
    proof { t = *self;
        assert(self.indentation@.len() == old(self).indentation@.len());
        assert(self.indentation@.drop_last() =~= m.indentation@.drop_last());
        assert(self.indentation@.last() == cow_of::<'static>((">")@));
        assert(quote_mark(self.indentation@.last()@));
        assert(m.indentation@ == old(self).indentation@);
    }
//@proof let popped_tag
    proof { w = *self; }
//@proof tail
    proof {
        let s = if newlines > 0 { t.breaks(newlines as nat, false) } else { Seq::empty() };
        assert(self.nested_context@ =~= old(self).nested_context@.drop_last());
        assert(newlines > 0 ==> like(t.indentation@, old(self).indentation@));
        assert(m.plain() ==> self.out() =~= m.out() + s);
        assert(quote_breaks(s, *old(self)));
        assert(w.indentation@.drop_last() =~= old(self).indentation@.drop_last());
        let want = old(self).indentation@.drop_last();
        assert(self.indentation@.len() == want.len());
        if want.len() > 0 {
            assert(self.indentation@.drop_last() =~= want.drop_last());
            assert(quote_mark(w.indentation@.last()@));
            assert(want.last() == w.indentation@.drop_last().last());
            assert(self.indentation@.last()@ == want.last()@ || (quote_mark(self.indentation@.last()@) && quote_mark(want.last()@)));
        }
        assert(like(self.indentation@, want));
        assert(self.events == old(self).events);
        assert(self.writers@.len() == old(self).writers@.len());
        assert(m.defs_written(*old(self), old(self).last_position..range.end));
        assert(self.quote_ended(*old(self), m, s, range));
    }
//@end
    pub open spec fn quote_ended(&self, o: FormatState<'i>, m: FormatState<'i>, s: Seq<char>, range: Range<usize>) -> bool {
        let rest = o.last_position..range.end;
        // the definitions (m), then line breaks
        &&& m.defs_written(o, rest) && (o.plain() ==> defs_out(o.out(), m.out(), o.defs(rest), o.ind()))
        &&& quote_breaks(s, o)
        &&& m.plain() ==> self.out() == m.out() + s
        // C13: the other blocks keep their indentation
        &&& like(self.indentation@, o.indentation@.drop_last()) && self.nested_context@ == o.nested_context@.drop_last()
        &&& self.events == o.events && self.last_event == o.last_event && self.formatter == o.formatter && self.writers@.len() == o.writers@.len()
    }
}
}
}
