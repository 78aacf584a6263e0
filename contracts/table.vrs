// src/table.rs
//@use utils.vrs
pub mod table {
use vstd::prelude::*;
use crate::prelude::*;
use crate::utils::*;
verus! {
broadcast use {group_prelude, ax_cwidth};

/// pulldown_cmark::Alignment
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Alignment { None, Left, Center, Right }

//@type table.rs TableState

// ------------------------------------------------------------------------------------------------ what is written
/// One cell: padded to the width of its column
pub open spec fn cell(v: Seq<char>, w: int) -> Seq<char> { seq![' '] + v + spaces(w - swidth(v)) + seq![' ', '|'] }
pub open spec fn delimiter(a: Alignment, w: int) -> Seq<char> {
    match a {
        Alignment::Center => seq![':'] + fill_seq('-', w - 2) + seq![':'],
        Alignment::Left => seq![':'] + fill_seq('-', w - 1),
        Alignment::Right => fill_seq('-', w - 1) + seq![':'],
        Alignment::None => fill_seq('-', w),
    }
}
/// The first n cells of a row. Missing cells are empty.
pub open spec fn row(cells: Seq<Seq<char>>, widths: Seq<usize>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { Seq::empty() } else {
        let j = n - 1;
        row(cells, widths, j as nat) + cell(if j < cells.len() { cells[j] } else { Seq::empty() }, widths[j] as int)
    }
}
pub open spec fn delimiters(al: Seq<Alignment>, widths: Seq<usize>) -> Seq<Seq<char>> {
    Seq::new(al.len(), |j: int| delimiter(al[j], widths[j] as int))
}
pub open spec fn texts<'a>(v: Seq<Cow<'a>>) -> Seq<Seq<char>> { Seq::new(v.len(), |j: int| v[j]@) }
pub open spec fn rows<'a>(body: Seq<Vec<Cow<'a>>>, widths: Seq<usize>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { Seq::empty() } else { rows(body, widths, (n - 1) as nat) + seq!['\n'] + row(texts(body[n - 1]@), widths, widths.len()) }
}
pub open spec fn final_widths(widths: Seq<usize>) -> Seq<usize> { Seq::new(widths.len(), |j: int| if widths[j] < 3 { 3 } else { widths[j] }) }
/// Text is appended to cell k. The cell is added if it's the next one.
pub open spec fn appended(cells: Seq<Seq<char>>, k: int, text: Seq<char>) -> Seq<Seq<char>> {
    if k < cells.len() { cells.update(k, cells[k] + text) } else { cells.push(text) }
}
pub open spec fn min_nat(a: nat, b: nat) -> nat { if a < b { a } else { b } }

impl<'a> TableState<'a> {
    pub open spec fn columns(&self) -> nat { self.alignment@.len() }
    pub open spec fn fits(&self, s: Seq<char>, j: int) -> bool { swidth(s) <= self.max_column_width@[j] }
    /// The shape of the table, and the widths hold every cell
    pub open spec fn wf(&self) -> bool {
        &&& self.max_column_width@.len() == self.columns()
        &&& self.headers@.len() <= self.columns()
        &&& forall|j: int| 0 <= j < self.columns() ==> #[trigger] self.max_column_width@[j] <= isize::MAX
        &&& forall|j: int| 0 <= j < self.headers@.len() ==> self.fits(#[trigger] self.headers@[j]@, j)
        &&& forall|i: int| 0 <= i < self.body@.len() ==> (#[trigger] self.body@[i])@.len() <= self.columns()
        &&& forall|i: int, j: int| 0 <= i < self.body@.len() && 0 <= j < self.body@[i]@.len() ==> self.fits(#[trigger] self.body@[i]@[j]@, j)
        &&& self.write_to_body <==> self.body@.len() > 0
        &&& !self.write_to_body ==> forall|j: int| 0 <= j < self.columns() ==>
                #[trigger] self.max_column_width@[j] == if j < self.headers@.len() { swidth(self.headers@[j]@) } else { 0 }
    }
    /// The cells that are being written
    pub open spec fn current(&self) -> Seq<Cow<'a>> { if self.write_to_body { self.body@.last()@ } else { self.headers@ } }
    pub open spec fn text(&self) -> Seq<char> {
        let w = final_widths(self.max_column_width@);
        row(texts(self.headers@), w, min_nat(self.headers@.len(), w.len())) + seq!['\n'] + row(delimiters(self.alignment@, w), w, w.len())
            + rows(self.body@, w, self.body@.len())
    }
}

//@include table_fns.vrs

// ------------------------------------------------------------------------------------------------ theorems
/// The width of a table with these columns, without the leading `|`
pub open spec fn table_width(widths: Seq<usize>, n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { table_width(widths, (n - 1) as nat) + widths[n - 1] as nat + 3 }
}
proof fn lemma_cell_width(v: Seq<char>, w: int)
    requires swidth(v) <= w,
    ensures swidth(cell(v, w)) == w + 3,
{
    let a = seq![' '] + v;
    let b = spaces(w - swidth(v)) + seq![' ', '|'];
    assert(cell(v, w) =~= a + b);
    lemma_swidth_add(seq![' '], v);
    lemma_swidth_ascii(seq![' ']);
    lemma_swidth_add(a, b);
    lemma_swidth_ascii(b);
}
proof fn lemma_row_width(cells: Seq<Seq<char>>, widths: Seq<usize>, n: nat)
    requires n <= widths.len(), forall|j: int| 0 <= j < cells.len() && j < n ==> swidth(#[trigger] cells[j]) <= widths[j],
    ensures swidth(row(cells, widths, n)) == table_width(widths, n),
    decreases n,
{
    if n > 0 {
        let c = if n - 1 < cells.len() { cells[n - 1] } else { Seq::empty() };
        lemma_row_width(cells, widths, (n - 1) as nat);
        lemma_cell_width(c, widths[n - 1] as int);
        lemma_swidth_add(row(cells, widths, (n - 1) as nat), cell(c, widths[n - 1] as int));
    }
}
proof fn lemma_delimiter_width(a: Alignment, w: int)
    requires w >= 3,
    ensures swidth(delimiter(a, w)) == w,
{
    lemma_swidth_ascii(delimiter(a, w));
}
/// C09: every line of a table (its header, delimiter row and body rows) takes up the same width, whatever the cells are.
pub proof fn theorem_table_aligned<'a>(t: TableState<'a>)
    requires t.wf(), t.headers@.len() == t.columns(),
    ensures ({
        let w = final_widths(t.max_column_width@);
        let n = t.columns();
        &&& t.text() == row(texts(t.headers@), w, n) + seq!['\n'] + row(delimiters(t.alignment@, w), w, n) + rows(t.body@, w, t.body@.len())
        &&& swidth(row(texts(t.headers@), w, n)) == table_width(w, n)
        &&& swidth(row(delimiters(t.alignment@, w), w, n)) == table_width(w, n)
        &&& forall|i: int| 0 <= i < t.body@.len() ==> swidth(row(texts(#[trigger] t.body@[i]@), w, n)) == table_width(w, n)
        &&& forall|i: int| 0 < i <= t.body@.len() ==> #[trigger] rows(t.body@, w, i as nat) == rows(t.body@, w, (i - 1) as nat) + seq!['\n'] + row(texts(t.body@[i - 1]@), w, n)
    }),
{
    let w = final_widths(t.max_column_width@);
    let n = t.columns();
    assert forall|j: int| 0 <= j < n implies swidth(#[trigger] texts(t.headers@)[j]) <= w[j] by { assert(t.fits(t.headers@[j]@, j)); }
    lemma_row_width(texts(t.headers@), w, n);
    assert forall|j: int| 0 <= j < n implies swidth(#[trigger] delimiters(t.alignment@, w)[j]) <= w[j] by { lemma_delimiter_width(t.alignment@[j], w[j] as int); }
    lemma_row_width(delimiters(t.alignment@, w), w, n);
    assert forall|i: int| 0 <= i < t.body@.len() implies swidth(row(texts(#[trigger] t.body@[i]@), w, n)) == table_width(w, n) by {
        assert forall|j: int| 0 <= j < texts(t.body@[i]@).len() && j < n implies swidth(#[trigger] texts(t.body@[i]@)[j]) <= w[j] by { assert(t.fits(t.body@[i]@[j]@, j)); }
        lemma_row_width(texts(t.body@[i]@), w, n);
    }
}
}
}
