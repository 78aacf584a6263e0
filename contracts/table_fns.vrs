impl<'a> TableState<'a> {
//@fn table.rs TableState::new
//@ret r
//@spec
    ensures r.wf(), r.alignment == alignment, r.headers@.len() == 0, r.body@.len() == 0, r.col_index == 0,
//@end

//@fn table.rs TableState::is_empty
//@ret r
//@spec
    ensures r == (self.headers@.len() == 0 && self.body@.len() == 0),
//@end

//@fn table.rs TableState::increment_col_index
//@spec
    requires old(self).col_index < usize::MAX,
    ensures
        *final(self) == (TableState { col_index: final(self).col_index, ..*old(self) }),
        final(self).col_index == old(self).col_index + 1,
//@end

//@fn table.rs TableState::push_row
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).alignment == old(self).alignment, final(self).headers == old(self).headers, final(self).max_column_width == old(self).max_column_width,
        final(self).body@.len() == old(self).body@.len() + 1,
        final(self).body@.drop_last() == old(self).body@,
        final(self).body@.last()@.len() == 0,
        final(self).col_index == 0,
//@proof tail
    assert(self.body@.drop_last() =~= old(self).body@);
//@end

//@fn table.rs TableState::update_column_width
//@spec
    ensures
        *final(self) == (TableState { max_column_width: final(self).max_column_width, ..*old(self) }),
        index >= old(self).max_column_width@.len() ==> final(self).max_column_width@ == old(self).max_column_width@,
        index < old(self).max_column_width@.len() ==> final(self).max_column_width@ =~= old(self).max_column_width@.update(index as int,
            if old(self).max_column_width@[index as int] < column_width { column_width } else { old(self).max_column_width@[index as int] }),
//@end

//@fn table.rs TableState::write_header
//@spec
    requires
        old(self).wf(), !old(self).write_to_body, old(self).col_index < old(self).columns(), old(self).col_index <= old(self).headers@.len(),
    ensures
        final(self).wf(),
        final(self).alignment == old(self).alignment, final(self).body == old(self).body, final(self).write_to_body == old(self).write_to_body,
        final(self).col_index == old(self).col_index,
        texts(final(self).headers@) =~= appended(texts(old(self).headers@), old(self).col_index as int, text@),
//@proof start
    let ghost k = self.col_index as int;
    proof {
        if k < self.headers@.len() {
            assert(self.fits(self.headers@[k]@, k));
            lemma_swidth_add(self.headers@[k]@, text@);
        }
    }
//@proof tail
    proof {
        assert forall|j: int| 0 <= j < self.columns() implies
            #[trigger] self.max_column_width@[j] == (if j < self.headers@.len() { swidth(self.headers@[j]@) } else { 0 }) by {
            assert(old(self).max_column_width@[j] == (if j < old(self).headers@.len() { swidth(old(self).headers@[j]@) } else { 0 }));
        }
        lemma_cow_len(self.headers@[k]); lemma_swidth_blen(self.headers@[k]@);
        assert forall|j: int| 0 <= j < self.headers@.len() implies self.fits(#[trigger] self.headers@[j]@, j) by {
            assert(self.max_column_width@[j] == swidth(self.headers@[j]@));
        }
        assert(self.wf());
        assert(texts(self.headers@) =~= appended(texts(old(self).headers@), k, text@));
    }
//@end

//@fn table.rs TableState::write_cell
//@spec
    requires
        old(self).wf(), old(self).write_to_body, old(self).col_index < old(self).columns(), old(self).col_index <= old(self).body@.last()@.len(),
    ensures
        final(self).wf(),
        final(self).alignment == old(self).alignment, final(self).headers == old(self).headers, final(self).write_to_body == old(self).write_to_body,
        final(self).col_index == old(self).col_index,
        final(self).body@.len() == old(self).body@.len(),
        final(self).body@.drop_last() =~= old(self).body@.drop_last(),
        texts(final(self).body@.last()@) =~= appended(texts(old(self).body@.last()@), old(self).col_index as int, text@),
//@proof start
    let ghost k = self.col_index as int;
    let ghost n = self.body@.len() - 1;
    proof {
        if k < self.body@[n]@.len() { lemma_swidth_add(self.body@[n]@[k]@, text@); }
    }
//@proof tail
    proof {
        lemma_cow_len(self.body@[n]@[k]); lemma_swidth_blen(self.body@[n]@[k]@);
        assert forall|i: int| 0 <= i < self.body@.len() implies (#[trigger] self.body@[i])@.len() <= self.columns() by {
            if i < n { assert(self.body@[i] == old(self).body@.drop_last()[i]); assert(self.body@[i] == old(self).body@[i]); } else { assert(old(self).body@[n]@.len() <= self.columns()); }
        }
        assert forall|i: int, j: int| 0 <= i < self.body@.len() && 0 <= j < self.body@[i]@.len() implies self.fits(#[trigger] self.body@[i]@[j]@, j) by {
            if i < n { assert(self.body@[i] == old(self).body@[i]); }
            if i < n || j < old(self).body@[i]@.len() { assert(old(self).fits(old(self).body@[i]@[j]@, j)); }
        }
        assert(self.wf());
    }
//@end

//@fn table.rs TableState::write
//@spec
    requires
        old(self).wf(), old(self).col_index < old(self).columns(), old(self).col_index <= old(self).current().len(),
    ensures
        final(self).wf(),
        final(self).alignment == old(self).alignment, final(self).write_to_body == old(self).write_to_body,
        final(self).col_index == old(self).col_index,
        old(self).write_to_body ==> final(self).headers == old(self).headers && final(self).body@.len() == old(self).body@.len()
            && final(self).body@.drop_last() =~= old(self).body@.drop_last(),
        !old(self).write_to_body ==> final(self).body == old(self).body,
        texts(final(self).current()) =~= appended(texts(old(self).current()), old(self).col_index as int, value@),
//@end

//@fn table.rs TableState::update_column_width_for_alignment
//@spec
    ensures
        *final(self) == (TableState { max_column_width: final(self).max_column_width, ..*old(self) }),
        final(self).max_column_width@ =~= final_widths(old(self).max_column_width@),
//@loop 0
    invariant
        self.max_column_width@.len() == old(self).max_column_width@.len(),
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] self.max_column_width@[j] == final_widths(old(self).max_column_width@)[j],
        forall|j: int| vx_i0 <= j < self.max_column_width@.len() ==> #[trigger] self.max_column_width@[j] == old(self).max_column_width@[j],
        *self == (TableState { max_column_width: self.max_column_width, ..*old(self) }),
    decreases self.max_column_width@.len() - vx_i0,
//@end

//@fn table.rs TableState::write_wth_padding
//@ret r
//@spec
    requires swidth(value@) <= size ==> size - swidth(value@) <= isize::MAX,
    ensures r.is_ok(), final(buffer)@ == old(buffer)@ + cell(value@, size as int),
//@proof tail
    assert(buffer@ =~= old(buffer)@ + cell(value@, size as int));
//@end

//@fn table.rs TableState::rewrite_header
//@ret r
//@spec
    requires forall|j: int| 0 <= j < self.max_column_width@.len() ==> #[trigger] self.max_column_width@[j] <= isize::MAX,
    ensures
        r.is_ok(),
        final(buffer)@ == old(buffer)@ + row(texts(self.headers@), self.max_column_width@, min_nat(self.headers@.len(), self.max_column_width@.len())),
//@proof loop 0 before
    let ghost n = min_nat(self.headers@.len(), self.max_column_width@.len());
    let ghost w = self.max_column_width@;
    let ghost h = texts(self.headers@);
    let ghost mut i: nat = 0;
    assert(buffer@ =~= old(buffer)@ + row(h, w, 0));
//@loop 0
    invariant
        n == min_nat(self.headers@.len(), w.len()), w == self.max_column_width@, h == texts(self.headers@), i <= n,
        forall|j: int| 0 <= j < self.max_column_width@.len() ==> #[trigger] self.max_column_width@[j] <= isize::MAX,
        vx_it0@.len() == n - i,
        forall|k: int| 0 <= k < n - i ==> *(#[trigger] vx_it0@[k]).0 == self.headers@[i + k] && *vx_it0@[k].1 == w[i + k],
        buffer@ == old(buffer)@ + row(h, w, i),
    decreases vx_it0@.len(),
//@proof loop 0 end
    proof {
        assert(buffer@ =~= old(buffer)@ + row(h, w, i + 1));
        i = i + 1;
    }
//@end

//@fn table.rs TableState::rewrite_alignment
//@ret r
//@spec
    requires
        self.alignment@.len() == self.max_column_width@.len(),
        forall|j: int| 0 <= j < self.max_column_width@.len() ==> 3 <= #[trigger] self.max_column_width@[j] <= isize::MAX,
    ensures
        r.is_ok(),
        final(buffer)@ == old(buffer)@ + (seq!['\n'] + row(delimiters(self.alignment@, self.max_column_width@), self.max_column_width@, self.max_column_width@.len())),
//@proof loop 0 before
    let ghost n = self.max_column_width@.len();
    let ghost w = self.max_column_width@;
    let ghost h = delimiters(self.alignment@, w);
    let ghost mut i: nat = 0;
    assert(buffer@ =~= old(buffer)@ + seq!['\n'] + row(h, w, 0));
//@loop 0
    invariant
        n == w.len(), w == self.max_column_width@, h == delimiters(self.alignment@, w), i <= n,
        self.alignment@.len() == self.max_column_width@.len(),
        forall|j: int| 0 <= j < self.max_column_width@.len() ==> 3 <= #[trigger] self.max_column_width@[j] <= isize::MAX,
        vx_it0@.len() == n - i,
        forall|k: int| 0 <= k < n - i ==> *(#[trigger] vx_it0@[k]).0 == self.alignment@[i + k] && *vx_it0@[k].1 == w[i + k],
        buffer@ == old(buffer)@ + seq!['\n'] + row(h, w, i),
    decreases vx_it0@.len(),
//@proof loop 0 begin
    proof { assert(blen("-"@) == 1); assert(3 <= w[i as int] <= isize::MAX); assert(blen("-"@) * w[i as int] == w[i as int]) by (nonlinear_arith) requires blen("-"@) == 1; }
//@proof let alignment
    proof { assert(alignment@ =~= h[i as int]); assert(3 <= w[i as int] <= isize::MAX); }
//@proof loop 0 end
    proof {
        assert(buffer@ =~= old(buffer)@ + seq!['\n'] + row(h, w, i + 1));
        i = i + 1;
    }
//@proof tail
    assert(buffer@ =~= old(buffer)@ + (seq!['\n'] + row(delimiters(self.alignment@, self.max_column_width@), self.max_column_width@, self.max_column_width@.len())));
//@end

//@fn table.rs TableState::rewrite_body
//@ret r
//@spec
    requires
        forall|j: int| 0 <= j < self.max_column_width@.len() ==> #[trigger] self.max_column_width@[j] <= isize::MAX,
        forall|i: int| 0 <= i < self.body@.len() ==> (#[trigger] self.body@[i])@.len() <= self.max_column_width@.len(),
    ensures
        r.is_ok(),
        final(buffer)@ == old(buffer)@ + rows(self.body@, self.max_column_width@, self.body@.len()),
//@proof loop 0 before
    let ghost w = self.max_column_width@;
    let ghost mut i: nat = 0;
    assert(buffer@ =~= old(buffer)@ + rows(self.body@, w, 0));
//@loop 0
    invariant
        w == self.max_column_width@, i <= self.body@.len(),
        forall|j: int| 0 <= j < self.max_column_width@.len() ==> #[trigger] self.max_column_width@[j] <= isize::MAX,
        forall|i: int| 0 <= i < self.body@.len() ==> (#[trigger] self.body@[i])@.len() <= self.max_column_width@.len(),
        vx_it0@.len() == self.body@.len() - i,
        forall|k: int| 0 <= k < vx_it0@.len() ==> *(#[trigger] vx_it0@[k]) == self.body@[i + k],
        buffer@ == old(buffer)@ + rows(self.body@, w, i),
    decreases vx_it0@.len(),
//@proof loop 1 before
    let ghost before = buffer@;
    let ghost cells = texts(row@);
    let ghost mut j: nat = 0;
    assert(buffer@ =~= before + crate::table::row(cells, w, 0));
//@loop 1
    invariant
        w == self.max_column_width@, j <= w.len(), row@.len() <= w.len(), cells == texts(row@),
        forall|j: int| 0 <= j < self.max_column_width@.len() ==> #[trigger] self.max_column_width@[j] <= isize::MAX,
        vx_it1@.len() == w.len() - j,
        forall|k: int| 0 <= k < vx_it1@.len() ==> match #[trigger] vx_it1@[k] {
            EitherOrBoth::Both(a, b) => j + k < row@.len() && *a == row@[j + k] && *b == w[j + k],
            EitherOrBoth::Left(a) => false,
            EitherOrBoth::Right(b) => j + k >= row@.len() && *b == w[j + k],
        },
        buffer@ == before + crate::table::row(cells, w, j),
    decreases vx_it1@.len(),
//@proof loop 1 end
    proof {
        assert(buffer@ =~= before + crate::table::row(cells, w, j + 1));
        j = j + 1;
    }
//@proof loop 0 end
    proof {
        assert(buffer@ =~= old(buffer)@ + rows(self.body@, w, i + 1));
        i = i + 1;
    }
//@end

//@fn table.rs TableState::format
//@ret r
//@spec
    requires self.wf(),
    ensures r.is_ok(), r.unwrap()@ == self.text(),
//@proof tail
    assert(result@ =~= self.text());
//@end
}
