//! One generator and one oracle per property. An oracle looks only at what a user of the crate can
//! see: the text (and configuration) given to the formatter and the text it returns.
use crate::util::*;
use crate::{gens, view};
use pulldown_cmark::{CodeBlockKind, Event, Tag, TagEnd};
use std::cell::RefCell;
use std::rc::Rc;
use unicode_width::UnicodeWidthStr;

pub enum Verdict {
    /// Outside the property's precondition.
    Skip,
    /// Held; the flag says whether the case exercised the property.
    Pass(bool),
    Fail(String),
}
use Verdict::*;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut R) -> Case,
    pub check: fn(&Case) -> Verdict,
    /// Cases in the quick tier.
    pub quick: usize,
}

macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(m) => return Fail(m),
        }
    };
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: &T, b: &T, out: &str) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{what} changed\n  before: {a:?}\n  after:  {b:?}\n  output: {out:?}"))
    }
}

/// Put a document in a random container.
pub fn contain(r: &mut R, body: &str) -> String {
    match r.n(8) {
        0 => gens::nest("> ", "> ", body),
        1 => {
            let s = gens::nest("- ", "  ", body);
            // the indentation of some lines is a tab
            match r.one(3) {
                true => s.split('\n').map(|l| match l.strip_prefix("  ") { Some(rest) if r.b() => format!("\t{}", rest.trim_start()), _ => l.to_string() }).collect::<Vec<_>>().join("\n"),
                false => s,
            }
        }
        2 => gens::nest("1. ", "   ", body),
        3 => gens::nest("> * ", ">   ", body),
        4 => gens::nest("10) > ", "    > ", body),
        5 => format!("text\n\n{body}\n\nafter"),
        _ => body.to_string(),
    }
}

fn config(r: &mut R, c: &mut Case) {
    match r.n(4) {
        0 => c.max_width = Some(r.n(60)),
        1 => {
            c.max_width = Some(r.n(60));
            c.reflow = true;
        }
        2 => c.reflow = r.b(),
        _ => {}
    }
}

fn doc_case(r: &mut R) -> Case {
    Case::new(gens::document(r))
}

fn soup_case(r: &mut R) -> Case {
    let mut c = Case::new(if r.one(4) { gens::document(r) } else { gens::soup(r, 14) });
    config(r, &mut c);
    c
}

// ---------------------------------------------------------------- final line ending
fn gen_final(r: &mut R) -> Case {
    let mut c = soup_case(r);
    if r.b() {
        c.input.push_str(r.pick(&["", "\n", "\r\n", " ", "\n  ", "\n\n\n", "\\\n", "  \n", "\u{a0}", "\n\u{a0}", "\r", "\t\n", "\n>", "\n-", " \r\n \r\n"]));
    }
    c
}
fn check_final(c: &Case) -> Verdict {
    let out = tri!(fmt(c));
    let body = c.input.trim_end();
    let want = !body.is_empty() && c.input[body.len()..].contains(['\n', '\r']);
    let tail = &out[out.trim_end_matches(['\n', '\r']).len()..];
    let expect = if want { "\n" } else { "" };
    if tail != expect {
        return Fail(format!(
            "the input {} a line break, so the output should end with {expect:?} but ends with {tail:?}\n  output: {out:?}",
            if want { "ends with" } else { "doesn't end with" }
        ));
    }
    Pass(!body.is_empty())
}

// ---------------------------------------------------------------- CRLF and LF
fn gen_crlf(r: &mut R) -> Case {
    let mut c = soup_case(r);
    if r.b() {
        c.input = gens::document(r);
    }
    if r.one(6) {
        c.input = gens::definitions_doc(r);
    }
    c.input = c.input.replace('\r', "");
    c
}
fn nested_html(s: &str) -> bool {
    let mut depth = 0;
    for (e, _) in events(s) {
        match e {
            Event::Start(Tag::Item | Tag::BlockQuote(_) | Tag::FootnoteDefinition(_)) => depth += 1,
            Event::End(TagEnd::Item | TagEnd::BlockQuote(_) | TagEnd::FootnoteDefinition) => depth -= 1,
            Event::Start(Tag::HtmlBlock) if depth > 0 => return true,
            _ => {}
        }
    }
    false
}
fn check_crlf(c: &Case) -> Verdict {
    if c.input.contains('\r') || nested_html(&c.input) {
        return Skip;
    }
    let a = tri!(fmt(c));
    let b = tri!(fmt_cfg(&c.input.replace('\n', "\r\n"), c.max_width, c.reflow));
    tri!(same("the result for CRLF line endings", &a, &b, &b));
    Pass(c.input.contains('\n'))
}

// ---------------------------------------------------------------- tables
fn gen_table(r: &mut R) -> Case {
    let t = gens::table(r, 0);
    let mut c = Case::new(contain(r, &t));
    config(r, &mut c);
    c
}
fn check_table(c: &Case) -> Verdict {
    if c.max_width.is_some() && !wrap_safe(&c.input) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let (a, b) = (view::tables(&c.input), view::tables(&out));
    tri!(same("a table", &a, &b, &out));
    for (e, r) in events(&out) {
        if let Event::Start(Tag::Table(_)) = e {
            let start = out[..r.start].rfind('\n').map_or(0, |i| i + 1);
            let ls: Vec<&str> = out[start..r.end].trim_end_matches('\n').split('\n').collect();
            let ws: Vec<usize> = ls.iter().map(|l| l.width()).collect();
            if ws.iter().any(|w| *w != ws[0]) {
                return Fail(format!("the rows of a table have different widths {ws:?}\n  output: {out:?}"));
            }
            let col = out[start..r.start].width();
            let first: Vec<usize> = pipes(ls[0], col);
            for l in &ls {
                if pipes(l, col) != first {
                    return Fail(format!("the columns of a table aren't aligned\n  row: {l:?}\n  output: {out:?}"));
                }
            }
        }
    }
    Pass(!a.is_empty())
}
/// Display columns of the unescaped pipes at or after column `from`.
fn pipes(l: &str, from: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut esc = false;
    let mut col = 0;
    for ch in l.chars() {
        if ch == '|' && !esc && col >= from {
            v.push(col);
        }
        esc = ch == '\\' && !esc;
        col += unicode_width::UnicodeWidthChar::width(ch).unwrap_or(0);
    }
    v
}

// ---------------------------------------------------------------- code blocks
pub fn norm_code(s: &str) -> Vec<String> {
    s.trim_end().lines().map(|l| if l.trim().is_empty() { String::new() } else { l.to_string() }).collect()
}
fn gen_code(r: &mut R) -> Case {
    let f = if r.one(4) {
        let mut ls = vec![];
        for _ in 0..1 + r.n(4) {
            ls.push(r.pick(&["    x = 1", "      deep", "    # no heading", "", "    - a", "    ```", "    [a]: /u", "    日本"]).to_string());
        }
        ls.insert(0, "    first".into());
        ls.join("\n")
    } else {
        gens::fence(r)
    };
    let d = match r.n(4) {
        0 => format!("{f}\n\n{}", gens::fence(r)),
        1 => format!("{}\n\n{f}", gens::paragraph(r)),
        _ => f,
    };
    let mut c = Case::new(contain(r, &d));
    if r.one(4) {
        c.input.push('\n');
    }
    config(r, &mut c);
    c
}
fn check_code(c: &Case) -> Verdict {
    if known_text(c) || c.max_width.is_some() && !wrap_safe(&c.input) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let f = |s: &str| -> Vec<_> {
        view::codes(s)
            .into_iter()
            .filter(|c| !c.info.contains("markdown"))
            .map(|c| (c.fenced, c.info.trim().to_string(), c.fence, norm_code(&c.body)))
            .collect()
    };
    let (a, b) = (f(&c.input), f(&out));
    tri!(same("a code block", &a, &b, &out));
    Pass(a.iter().any(|x| !x.3.is_empty()))
}

// ---------------------------------------------------------------- the code block callback
fn gen_callback(r: &mut R) -> Case {
    let mut v: Vec<String> = vec![];
    for _ in 0..1 + r.n(3) {
        let mut d = match r.n(3) {
            0 => gens::paragraph(r),
            _ => gens::fence(r),
        };
        if r.b() {
            let f2 = gens::fence(r);
            let d2 = contain(r, &f2);
            let info = r.pick(&["markdown", "markdown", "rust markdown"]);
            d = format!("~~~~~~~{info}\n{d2}\n~~~~~~~");
        }
        if r.b() {
            d = contain(r, &d);
        }
        v.push(d);
    }
    let mut c = Case::new(v.join("\n\n"));
    config(r, &mut c);
    c
}
type Call = (String, Vec<String>, usize, Option<usize>);
fn run_callback(c: &Case) -> Result<(String, Vec<Call>), String> {
    let calls: Rc<RefCell<Vec<Call>>> = Rc::default();
    let rec = calls.clone();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let f = move |ctx: &markdown_fmt::CodeBlockContext, info: &str, code: String| {
            let mut v = rec.borrow_mut();
            v.push((info.to_string(), norm_code(&code), ctx.indentation(), ctx.max_width()));
            format!("replaced {}\n  by the callback", v.len())
        };
        // both ways to set it
        let b = if c.input.len() % 2 == 0 {
            let mut b = builder(c.max_width, c.reflow);
            b.code_block_formatter(f);
            b
        } else {
            let mut b = markdown_fmt::FormatBuilder::with_code_block_formatter(f);
            b.max_width(c.max_width).reflow_text(c.reflow);
            b
        };
        b.build().format(&c.input)
    }));
    let out = res.map_err(|e| format!("panicked: {}", panic_text(e)))?.map_err(|_| "returned an error".to_string())?;
    let calls = calls.borrow().clone();
    Ok((out, calls))
}
/// What the callback should be given for `src`, whose formatted text is `out`.
fn expected_calls(src: &str, out: &str, width: Option<usize>, v: &mut Vec<Call>) -> Result<(), String> {
    let a = view::codes(src);
    let mut cols = vec![];
    for (e, r) in events(out) {
        if let Event::Start(Tag::CodeBlock(k)) = e {
            let start = out[..r.start].rfind('\n').map_or(0, |i| i + 1);
            cols.push((matches!(k, CodeBlockKind::Fenced(_)), r.start - start));
        }
    }
    let b = view::codes(out);
    if a.len() != b.len() || cols.len() != b.len() {
        return Err(format!("the number of code blocks changed\n  output: {out:?}"));
    }
    for ((a, b), (_, col)) in a.iter().zip(&b).zip(&cols) {
        if !a.fenced {
            continue;
        }
        if a.info.contains("markdown") {
            expected_calls(&a.body, &b.body, width.map(|w| w.saturating_sub(*col)), v)?;
        } else {
            v.push((a.info.clone(), norm_code(&a.body), *col, width));
            let want = format!("replaced {}\n  by the callback", v.len());
            if norm_code(&b.body) != norm_code(&want) {
                return Err(format!("the callback returned {want:?} but the code block holds {:?}\n  output: {out:?}", b.body));
            }
        }
    }
    Ok(())
}
fn check_callback(c: &Case) -> Verdict {
    if code_has_fence(&c.input) || c.max_width.is_some() && !wrap_safe(&c.input) {
        // K01 in nested documents
        return Skip;
    }
    if c.max_width.is_some() && c.input.contains("\t>") {
        return Skip;
    }
    if events(&c.input).iter().any(|(e, _)| matches!(e, Event::Start(Tag::FootnoteDefinition(_)))) {
        return Skip;
    }
    let (out, calls) = tri!(run_callback(c));
    let mut want = vec![];
    tri!(expected_calls(&c.input, &out, c.max_width, &mut want));
    if calls != want {
        return Fail(format!("the code block callback was called with\n  {calls:?}\nbut should have been called with\n  {want:?}\n  output: {out:?}"));
    }
    Pass(!calls.is_empty())
}

// ---------------------------------------------------------------- reuse of a formatter
fn gen_history(r: &mut R) -> Case {
    let mut c = if r.b() { gen_callback(r) } else { Case::new(gens::document(r)) };
    config(r, &mut c);
    if r.b() {
        c.max_width = Some(5 + r.n(40));
    }
    for _ in 0..1 + r.n(3) {
        c.extra.push(match r.n(3) {
            0 => gen_callback(r).input,
            1 => gens::document(r),
            _ => gens::soup(r, 12),
        });
    }
    c
}
fn check_history(c: &Case) -> Verdict {
    let fresh = tri!(fmt(c));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let f = builder(c.max_width, c.reflow).build();
        for d in &c.extra {
            let _ = f.format(d);
        }
        (f.format(&c.input), f.format(&c.input))
    }));
    let (a, b) = match res {
        Ok((Ok(a), Ok(b))) => (a, b),
        Ok(_) => return Fail("a reused formatter returned an error".into()),
        Err(e) => return Fail(format!("a reused formatter panicked: {}", panic_text(e))),
    };
    if a != fresh || b != fresh {
        return Fail(format!("a reused formatter gives a different result\n  fresh:  {fresh:?}\n  reused: {a:?}\n  again:  {b:?}"));
    }
    Pass(!c.extra.is_empty() && !fresh.is_empty())
}

// ---------------------------------------------------------------- list markers
fn gen_list(r: &mut R) -> Case {
    let l = gens::list(r, 3);
    let mut c = Case::new(if r.b() { l } else { contain(r, &l) });
    if r.one(4) {
        c = doc_case(r);
    }
    if r.one(10) {
        let n = r.pick(&["123456789", "000000000", "000000001", "999999999", "0", "00", "007"]);
        let d = r.pick(&[".", ")"]);
        c.input = gens::nest(&format!("{n}{d} "), &" ".repeat(n.len() + 2), &gens::blocks(r, 1, 2));
    }
    config(r, &mut c);
    c.max_width = None;
    c
}
fn html_starts_line(s: &str) -> bool {
    // K06: inline HTML or code that could be a block after a hard break (or after what would be a list marker then)
    events(s).windows(2).any(|w| {
        let t = &s[w[1].1.clone()];
        let list = s[..w[0].1.start].ends_with(['.', ')']);
        let after = matches!(w[0].0, Event::HardBreak) || matches!(w[0].0, Event::SoftBreak) && list;
        after && matches!(w[1].0, Event::InlineHtml(_) | Event::Code(_)) && (t.starts_with('<') || t.starts_with("```"))
    })
}
/// K12: a line of fenced code that isn't a closing fence only because of its indentation, which changes.
fn code_has_fence(s: &str) -> bool {
    let mut fence = None;
    events(s).iter().any(|(e, r)| {
        match e {
            Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(_))) => {
                let f = s[r.clone()].chars().next().unwrap_or('`');
                fence = Some((f, s[r.clone()].chars().take_while(|c| *c == f).count()));
            }
            Event::End(TagEnd::CodeBlock) => fence = None,
            Event::Text(t) => {
                if let Some((f, n)) = fence {
                    return t.lines().any(|l| l.trim().len() >= n && l.trim().chars().all(|c| c == f));
                }
            }
            _ => {}
        }
        false
    })
}
fn check_list(c: &Case) -> Verdict {
    if html_starts_line(&c.input) || code_has_fence(&c.input) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let (a, b) = (view::markers(&c.input), view::markers(&out));
    tri!(same("a list marker", &a, &b, &out));
    tri!(item_columns(&out));
    Pass(!a.is_empty())
}
/// Everything in a list item starts in the same column: one past the marker and a space.
fn item_columns(out: &str) -> Result<(), String> {
    let mut stack: Vec<Option<usize>> = vec![];
    let col = |p: usize| out[out[..p].rfind('\n').map_or(0, |i| i + 1)..p].chars().count();
    for (e, r) in events(out) {
        match e {
            Event::Start(t) => {
                if let Some(Some(want)) = stack.last() {
                    let simple = matches!(
                        t,
                        Tag::Paragraph | Tag::Heading { .. } | Tag::BlockQuote(_) | Tag::CodeBlock(CodeBlockKind::Fenced(_)) | Tag::List(_) | Tag::Table(_)
                    );
                    if simple && !out[r.start..].starts_with([' ', '\t']) && col(r.start) != *want {
                        return Err(format!(
                            "the content of a list item starts in column {} and not {want}: {:?}\n  output: {out:?}",
                            col(r.start),
                            &out[r.clone()]
                        ));
                    }
                }
                stack.push(match t {
                    Tag::Item => {
                        let m: usize = out[r.start..].find(|c: char| c.is_whitespace()).unwrap_or(1);
                        Some(col(r.start) + m + 1)
                    }
                    _ => None,
                });
            }
            Event::End(_) => {
                stack.pop();
            }
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- link reference definitions
fn gen_def(r: &mut R) -> Case {
    Case::new(gens::definitions_doc(r))
}
fn check_def(c: &Case) -> Verdict {
    if has_footnote_label(&c.input) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let (a, b) = (definitions(&c.input), definitions(&out));
    tri!(same("a link reference definition", &a, &b, &out));
    Pass(!a.is_empty())
}
fn has_footnote_label(s: &str) -> bool {
    s.contains("[^")
}

// ---------------------------------------------------------------- links and images
/// The label of a reference, over one or several lines.
fn label(r: &mut R) -> String {
    let mut l = String::new();
    for _ in 0..1 + r.n(4) {
        l.push_str(r.pick(&["^", "a", "b", "é", "日", " ", "\n", "\\]", "\\[", "\\\\", "\\^", "x y", "*", "!", "&amp;", "1"]));
    }
    l
}
fn gen_link(r: &mut R) -> Case {
    let mut c = if r.b() {
        doc_case(r)
    } else {
        let mut p = String::new();
        for i in 0..1 + r.n(3) {
            if i > 0 {
                p.push_str(r.pick(&[" ", "\n", " word "]));
            }
            p.push_str(&match r.n(7) {
                0 => format!("[{}][{}]", gens::words(r, 2), r.pick(&["ref", "a b", "R é", "x\\]y", "a\\\\"])),
                5 => format!("[{}][{}]", gens::words(r, 2), label(r)),
                1 => format!("[{}][]", gens::words(r, 2)),
                2 => format!("[{}]", gens::words(r, 2)),
                3 => format!("[{}\n{}]({})", gens::words(r, 2), gens::words(r, 2), gens::dest_title(r)),
                _ => gens::link(r, 1),
            });
        }
        Case::new(contain(r, &p))
    };
    config(r, &mut c);
    c.max_width = None;
    c
}
/// K07: Unicode whitespace in a destination, and a title (or what looks like one)
fn space_before_title(s: &str) -> bool {
    events(s).iter().any(|(e, r)| match e {
        Event::Start(Tag::Link { dest_url: d, .. } | Tag::Image { dest_url: d, .. }) => {
            d.contains(|c: char| c.is_whitespace() && !c.is_ascii())
                && s[r.start..r.end - 1].trim_end_matches(|c: char| c.is_whitespace() || c == '>').ends_with(['"', '\'', ')'])
        }
        _ => false,
    })
}
/// K10: the text has the start of a destination, which what follows may complete
fn broken_link(s: &str) -> bool {
    events(s).iter().any(|(e, r)| matches!(e, Event::Text(_)) && s.as_bytes()[r.start.saturating_sub(1)..r.end].windows(2).any(|w| w == b"]("))
}
fn check_link(c: &Case) -> Verdict {
    if space_before_title(&c.input) || html_starts_line(&c.input) || broken_link(&c.input) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let (a, b) = (view::links(&c.input), view::links(&out));
    tri!(same("a link or an image", &a, &b, &out));
    Pass(!a.is_empty())
}

// ---------------------------------------------------------------- headings
fn gen_heading(r: &mut R) -> Case {
    let h = if r.one(4) {
        // any combination of what is special in a heading
        let mut t = String::new();
        for _ in 0..1 + r.n(5) {
            t.push_str(r.pick(&["#", "##", " ", " ", "\\", "é", "日", "x", "a", "{", "}", "\\#", "\t", "*b*", "`#`"]));
        }
        let a = r.pick(&["", "", " {#i}", " {.c}", " {#i .c k=v w}", " {.ü}", " #", " ###"]).to_string();
        let a = if r.one(3) { gens::attributes(r) } else { a };
        format!("{} {t}{a}", "#".repeat(1 + r.n(6)))
    } else if r.one(3) {
        let t = r.pick(&["{}", "x {}", "x \\{}", "x #", "x \\#", "# x", "x ##", "x#", "#", "", "x\\\\", "x {#a} {}", "\\#", "x \\\\#", "a {b} c"]);
        let a = r.pick(&["", "", " {#i}", " {.c}", " {#i .c k=v w}"]);
        let close = if a.is_empty() { r.pick(&["", " #", " ###"]) } else { "" };
        format!("{} {t}{close}{a}", "#".repeat(1 + r.n(6)))
    } else {
        gens::heading(r)
    };
    let mut c = Case::new(contain(r, &h));
    config(r, &mut c);
    c
}
fn check_heading(c: &Case) -> Verdict {
    // K05: braces before an empty attribute block or a closing sequence
    if c.input.lines().any(|l| {
        let t = l.trim_end_matches(['#', ' ', '\t', '\r']);
        t.ends_with('}') && l.matches('{').count() > usize::from(t.len() == l.trim_end().len())
    }) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let (a, b) = (view::headings(&c.input), view::headings(&out));
    if !view::same_headings(&a, &b) {
        tri!(same("a heading", &a, &b, &out));
    }
    Pass(!a.is_empty())
}

// ---------------------------------------------------------------- wrapping
/// A word that can start a line without the line becoming another block (K01).
fn safe_word(w: &str) -> bool {
    let rest = w.trim_start_matches(|c: char| !c.is_alphanumeric());
    w.starts_with(|c: char| c.is_alphabetic())
        || (w.starts_with(['[', '(', '*', '_', '~', '`', '!', '&', '"', '<'])
            && !rest.is_empty()
            && !w.starts_with("```")
            && !w.starts_with("~~~")
            && !w.contains(['^', '|']))
        || (w.starts_with(|c: char| c.is_ascii_digit()) && !w.ends_with(['.', ')']))
        || matches!(w, "\\")
}
/// Every word of the document's text could start a line, and no link has a destination with spaces
/// (K01 and K02).
fn wrap_safe(s: &str) -> bool {
    // the source of every run of inline events
    let mut runs: Vec<std::ops::Range<usize>> = vec![];
    let mut open = false;
    let mut raw = 0;
    for (e, r) in events(s) {
        let inline = match &e {
            Event::Start(Tag::CodeBlock(_) | Tag::HtmlBlock | Tag::MetadataBlock(_)) => {
                raw += 1;
                false
            }
            Event::End(TagEnd::CodeBlock | TagEnd::HtmlBlock | TagEnd::MetadataBlock(_)) => {
                raw -= 1;
                false
            }
            Event::Text(_) | Event::Code(_) | Event::InlineHtml(_) | Event::SoftBreak | Event::HardBreak | Event::FootnoteReference(_) => raw == 0,
            Event::Start(Tag::Emphasis | Tag::Strong | Tag::Strikethrough | Tag::Link { .. } | Tag::Image { .. }) => true,
            Event::End(TagEnd::Emphasis | TagEnd::Strong | TagEnd::Strikethrough | TagEnd::Link | TagEnd::Image) => true,
            _ => false,
        };
        if inline {
            if open {
                let l = runs.last_mut().unwrap();
                l.end = l.end.max(r.end);
                l.start = l.start.min(r.start);
            } else {
                runs.push(r);
            }
        }
        open = inline;
    }
    for r in runs {
        for (i, l) in s[r].split('\n').enumerate() {
            let l = if i == 0 { l } else { l.trim_start_matches(['>', ' ', '\t']) };
            // a literal backslash before a space
            let backslash = l.contains("\\ ") || l.contains("\\\t");
            if backslash || l.contains("](<") || l.split([' ', '\u{a0}', '\t', '\r']).any(|w| !w.is_empty() && !safe_word(w)) {
                return false;
            }
        }
    }
    true
}
fn gen_wrap(r: &mut R) -> Case {
    let mut v: Vec<String> = vec![];
    for _ in 0..1 + r.n(2) {
        let mut p = String::new();
        for i in 0..1 + r.n(4) {
            if i > 0 {
                p.push_str(r.pick(&["\n", "\n", "  \n", "\\\n"]));
            }
            p.push_str(&gens::words(r, 12));
            if r.one(3) {
                p.push(' ');
                p.push_str(&gens::inline(r, 2));
            }
        }
        v.push(p);
    }
    let mut c = Case::new(contain(r, &v.join("\n\n")));
    c.max_width = if r.one(8) { None } else { Some(1 + r.n(60)) };
    c.reflow = r.b();
    c
}
fn para_lines(s: &str) -> Vec<(usize, Vec<String>)> {
    // The lines of every paragraph, with the width of the prefix.
    let mut v = vec![];
    let mut depth_prefix: Vec<()> = vec![];
    let _ = &mut depth_prefix;
    for (e, r) in events(s) {
        if let Event::Start(Tag::Paragraph) = e {
            let start = s[..r.start].rfind('\n').map_or(0, |i| i + 1);
            let prefix = s[start..r.start].chars().count();
            let text = s[start..r.end].trim_end_matches('\n');
            v.push((prefix, text.split('\n').map(|l| l.to_string()).collect()));
        }
    }
    v
}
fn check_wrap(c: &Case) -> Verdict {
    if literal_star_after_break(&c.input) {
        return Skip;
    }
    if c.input.contains("    ") || c.input.contains('\t') {
        return Skip;
    }
    for (e, _) in events(&c.input) {
        if matches!(e, Event::Start(Tag::HtmlBlock | Tag::FootnoteDefinition(_) | Tag::Table(_) | Tag::MetadataBlock(_) | Tag::CodeBlock(_))) {
            return Skip;
        }
    }
    if c.max_width.is_some() && !wrap_safe(&c.input) {
        return Skip;
    }
    let out = tri!(fmt(c));
    tri!(same("the blocks", &view::blocks(&c.input, false), &view::blocks(&out, false), &out));
    tri!(same("the text of a paragraph", &view::inlines(&c.input), &view::inlines(&out), &out));
    let (pin, pout) = (para_lines(&c.input), para_lines(&out));
    let Some(w) = c.max_width else {
        let f = |p: &Vec<(usize, Vec<String>)>| p.iter().map(|x| x.1.len()).collect::<Vec<_>>();
        // link text is always written on one line
        if !c.input.contains('[') {
            tri!(same("the number of lines of a paragraph", &f(&pin), &f(&pout), &out));
        }
        return Pass(false);
    };
    let mut wrapped = false;
    for (prefix, ls) in &pout {
        for l in ls {
            let body: String = l.chars().skip(*prefix).collect();
            let body = body.trim_end_matches('\\').trim();
            if body.contains(' ') && l.trim_end_matches([' ', '\\']).width() > w {
                return Fail(format!("a line that could be wrapped is wider than {w}: {l:?}\n  output: {out:?}"));
            }
        }
        wrapped |= ls.len() > 1;
    }
    if !c.reflow && pin.len() == pout.len() && !c.input.contains('[') {
        for ((_, a), (_, b)) in pin.iter().zip(&pout) {
            if a.len() > b.len() {
                return Fail(format!("line breaks were removed although text shouldn't reflow\n  output: {out:?}"));
            }
        }
    }
    Pass(wrapped)
}

/// K04: an unescaped, literal run of `*` or `_` after a break, with another run of it somewhere.
fn literal_star_after_break(s: &str) -> bool {
    let ev = events(s);
    ['*', '_'].iter().any(|&m| {
        let mut hit = false;
        for w in ev.windows(2) {
            if let (Event::HardBreak, Event::Text(t)) = (&w[0].0, &w[1].0) {
                // the start of a line that could be a block
                let line = s[w[1].1.start..].split(['\n', '\r']).next().unwrap_or("");
                let rest = line.trim_start_matches(m);
                let block = rest.starts_with([' ', '\t']) || line.chars().all(|c| c == m || c == ' ' || c == '\t');
                hit |= t.starts_with(m) && block && !s[..w[1].1.start].ends_with('\\');
            }
        }
        hit && s.split(|c| c != m).filter(|r| !r.is_empty()).count() > 1
    })
}

// ---------------------------------------------------------------- text that looks like a block
fn literal_line(r: &mut R) -> String {
    let t = r.pick(&[
        "# x", "## x", "#", "###### x", "- x", "* x", "+ x", "> x", ">", "```", "```rust", "~~~", "~~~ x", "---", "***", "___", "- - -", "* * *", "_ _ _",
        "===", "=", "-", "--", "-x", "#x", "+1", "*x", "** a", "> > x", "````", "~~~~~ y", "+", "*", "= =", "-----", "=====", "- -", "``` a b", "~~~ a~b",
    ]);
    // or any combination of the chars that markers are made of
    let random: String = if r.b() {
        let m = ['#', '-', '*', '+', '>', '~', '=', '_'];
        let m = m[r.n(m.len())];
        let n = 1 + r.n(6);
        (0..n).map(|i| if i == 0 || r.b() { m } else { [' ', ' ', '\t', 'a', 'b', '#', '-', '~'][r.n(8)] }).collect()
    } else {
        String::new()
    };
    let t = if random.is_empty() { t } else { &random };
    let html = format!("<{}", r.pick(&["!doctype x", "!Doctype x", "!a", "!-- x", "?x", "!", "!1", "?", "div", "Div x", "a", "![x", "!é", "script", "p x", "/p", "TAG", "TAG", "/TAG"]));
    let html = html.replace("TAG", r.pick(&["address", "article", "base", "body", "caption", "center", "col", "dd", "details", "dialog", "dir", "fieldset", "form", "frame", "h1", "H6",
        "head", "header", "hr", "html", "iframe", "legend", "li", "link", "main", "menu", "nav", "ol", "Option", "param", "pre", "search", "section", "style", "summary", "TABLE", "td",
        "textarea", "title", "tr", "track", "ul", "span", "b", "em", "pp", "address-x"])) + r.pick(&["", "", " x", " é", "é", "/", "x", " \"", "*y*"]);
    let t = if r.one(6) { &html } else { t };
    match r.n(4) {
        0 => format!("    {t}"),
        1 => format!("       {t}"),
        2 => format!("{}{}", r.pick(&["    ", "     ", "      ", "\t "]), r.pick(&["1. x", "12) y", "0.", "1)", "2. - z", "123456789. a", "1234567890. b", "1.\tc", "1.x", "1 .", "-1. d"])),
        _ => format!("\\{t}"),
    }
}
fn gen_literal(r: &mut R) -> Case {
    let mut p = String::new();
    if r.one(5) {
        p.push_str(&format!("\\{}", r.pick(&["# x", "- x", "+ x", "> x", "---", "***", "```", "~~~", "* * *", "- - -", "* x"])));
    } else {
        p.push_str(&gens::words(r, 2));
    }
    for _ in 0..1 + r.n(3) {
        p.push_str(r.pick(&["\n", "\n", "\n", "  \n", "\\\n"]));
        let l = if r.one(4) { gens::words(r, 2) } else { literal_line(r) };
        p.push_str(&l);
    }
    if r.b() {
        p.push('\n');
        p.push_str(&gens::words(r, 2));
    }
    if r.one(5) {
        p.push_str("\n\n");
        p.push_str(&gens::words(r, 4));
    }
    Case::new(contain(r, &p))
}
fn code_looks_like_block(span: &str) -> bool {
    span.split(['\n', '\r']).skip(1).any(|l| l.trim_matches(|c| " \t>|:-`".contains(c)).is_empty())
}
/// Text whose failure is a known finding (K03, K04, K06).
fn known_text(c: &Case) -> bool {
    let ev = events(&c.input);
    let break_before = |p: usize| c.input[..p].trim_end_matches([' ', '>', '\t']).ends_with('\n');
    // K03: a code span that starts a line with at least three backticks
    // K06: inline HTML that starts a line
    literal_star_after_break(&c.input)
        || code_has_fence(&c.input)
        || ev.iter().any(|(e, r)| match e {
            // K08: a line of a code span that looks like a block
            Event::Code(_) => html_starts_line(&c.input) || code_looks_like_block(&c.input[r.clone()]),
            // literal text: as K03
            // K10: a broken link whose destination what follows completes
            Event::Text(_) => {
                c.input[r.clone()].starts_with("```") && break_before(r.start)
                    || c.input.as_bytes()[r.start.saturating_sub(1)..r.end].windows(2).any(|w| w == b"](")
            }
            // the parser doesn't see a closing sequence next to a tab, but it is one
            // C10 covers closing sequences
            // K11: a lazy line of a setext heading that looks like a table's delimiter row
            Event::Start(Tag::Heading { .. }) => {
                c.input[r.clone()].contains('\t')
                    || c.input[r.clone()].trim_end().ends_with('#')
                    || c.input[r.clone()].lines().skip(1).any(|l| l.contains(['|', ':']) && l.contains('-') && l.chars().all(|c| " >|:-".contains(c)))
            }
            // K13: an indented paragraph right after a definition that looks like a block
            Event::Start(Tag::Paragraph) => {
                (c.input[..r.start].ends_with("    ") || c.input[..r.start].ends_with('\t'))
                    && c.input[r.start..].starts_with(['-', '+', '*', '#', '>', '~', '`', '=', '<', '|', '1', '0'])
            }
            Event::InlineHtml(_) => html_starts_line(&c.input) || code_looks_like_block(&c.input[r.clone()]),
            _ => false,
        })
}
fn check_literal(c: &Case) -> Verdict {
    // C14 covers emphasis; delimiters next to literal ones are K04
    if known_text(c) || events(&c.input).iter().any(|(e, _)| matches!(e, Event::Start(Tag::Emphasis | Tag::Strong))) {
        return Skip;
    }
    let out = tri!(fmt(c));
    tri!(same("the blocks", &view::blocks(&c.input, false), &view::blocks(&out, false), &out));
    tri!(same("the text", &view::inlines(&c.input), &view::inlines(&out), &out));
    Pass(true)
}

// ---------------------------------------------------------------- block structure
fn gen_blocks(r: &mut R) -> Case {
    let gens: [fn(&mut R) -> Case; 6] = [gen_table, gen_list, gen_link, gen_heading, gen_literal, gen_inline];
    let n = r.n(12);
    let mut c = if n < 6 { gens[n](r) } else { doc_case(r) };
    c.max_width = None;
    c
}
fn check_blocks(c: &Case) -> Verdict {
    if known_text(c) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let (a, b) = (view::blocks(&c.input, false), view::blocks(&out, false));
    tri!(same("the block structure", &a, &b, &out));
    Pass(a.len() > 1)
}

// ---------------------------------------------------------------- inline structure
fn gen_inline(r: &mut R) -> Case {
    let p = match r.n(8) {
        0..=2 => gens::paragraph(r),
        6 => format!("{} {}", gens::words(r, 2), gens::multi_line(r)),
        7 => format!("{}\n{}", gens::multi_line(r), gens::paragraph(r)),
        3 | 4 => gens::blocks(r, 2, 3),
        _ => return gen_literal(r),
    };
    Case::new(contain(r, &p))
}
fn check_inlines(c: &Case) -> Verdict {
    if known_text(c) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let (a, b) = (view::inlines(&c.input), view::inlines(&out));
    tri!(same("the text or its markup", &a, &b, &out));
    Pass(a.len() > 1)
}

// ---------------------------------------------------------------- no crash
/// Whatever any other property generates, and token soup.
fn gen_crash(r: &mut R) -> Case {
    let gens: [fn(&mut R) -> Case; 14] = [
        gen_final, gen_crlf, gen_table, gen_code, gen_callback, gen_list, gen_def, gen_link, gen_heading, gen_wrap, gen_literal, gen_inline, gen_raw, gen_foot,
    ];
    let mut c = match r.n(30) {
        n if n < 14 => gens[n](r),
        14 => {
            // a document cut off anywhere
            let mut c = gens[r.n(14)](r);
            let mut n = r.n(c.input.len() + 1);
            while !c.input.is_char_boundary(n) {
                n -= 1;
            }
            c.input.truncate(n);
            c
        }
        15..=21 => Case::new(gens::marker_soup(r)),
        _ => return soup_case(r),
    };
    config(r, &mut c);
    c
}
fn check_crash(c: &Case) -> Verdict {
    let out = tri!(fmt(c));
    Pass(!out.is_empty())
}

// ---------------------------------------------------------------- blank lines between blocks
fn top_gaps(s: &str) -> Vec<usize> {
    let mut depth = 0;
    let mut last: Option<usize> = None;
    let mut v = vec![];
    let mut comments = 0;
    for (e, r) in events(s) {
        // the comments that the formatter puts between a list and an indented code block
        if matches!(e, Event::Start(Tag::HtmlBlock) | Event::End(TagEnd::HtmlBlock)) && view::COMMENTS.contains(&s[r.clone()].trim_end()) {
            comments += matches!(e, Event::Start(_)) as usize;
            continue;
        }
        let (open, close) = match e {
            Event::Start(_) => (true, false),
            Event::End(_) => (false, true),
            Event::Rule => (true, true),
            _ => continue,
        };
        if open {
            if depth == 0 {
                if let Some(l) = last {
                    let end = l.min(r.start);
                    let text = s[..end].trim_end().len();
                    let n = s[text..r.start].matches('\n').count() - comments;
                    // a list that starts with a dash may get a blank line before it, so that the
                    // dash isn't taken for the underline of a heading
                    v.push(if n == 1 && s[r.start..].trim_start().starts_with('-') { 2 } else { n });
                }
                last = Some(r.end);
                comments = 0;
            }
            depth += 1;
        }
        if close {
            depth -= 1;
        }
    }
    v
}
fn check_gaps(c: &Case) -> Verdict {
    let out = tri!(fmt(c));
    if view::blocks(&c.input, false) != view::blocks(&out, false) {
        return Skip;
    }
    let (a, b) = (top_gaps(&c.input), top_gaps(&out));
    tri!(same("the number of line breaks between blocks", &a, &b, &out));
    Pass(!a.is_empty())
}

// ---------------------------------------------------------------- raw blocks
fn gen_raw(r: &mut R) -> Case {
    let mut v: Vec<String> = vec![];
    if r.one(3) {
        v.push(match r.n(2) {
            0 => format!("---\ntitle: {}\nkey: [a, b]\n---", gens::words(r, 3)),
            _ => format!("+++\nx = \"{}\"\n\n[t]\ny = 1\n+++", gens::words(r, 3)),
        });
    }
    for _ in 0..1 + r.n(3) {
        v.push(match r.n(9) {
            5 => {
                let t = r.pick(&["div", "table", "SECTION", "x-y", "/p"]);
                let n = 1 + r.n(3);
                let l: Vec<String> = (0..n).map(|_| html_line(r)).collect();
                format!("<{t}>\n{}", l.join("\n"))
            }
            6 => {
                let w = gens::words(r, 2);
                r.pick(&["<![CDATA[\nX\n\n Y ]]>", "<!DOCTYPE X>", "<script>\nX\n\n<i>\n</script>", "<style\n>X\n</style> Y", "<i>\nX", "</b >\n*X*", "<!--\nX\n-->\n", "<hr/>", "<textarea>\n\n  X</textarea>Y"]).replace('X', &w)
            }
            7 => format!("{}\n<div>\n{}", gens::words(r, 2), html_line(r)),
            0 => format!("<div>\n{}\n</div>", gens::words(r, 4)),
            1 => format!("<!-- {}\n\n  {} -->", gens::words(r, 3), gens::words(r, 2)),
            2 => format!("<pre>\n  {}\n\n    {}\n</pre>", gens::words(r, 2), gens::words(r, 2)),
            3 => format!("<p align=\"{}\">\n  <b>{}</b>\n</p>", r.pick(&["left", "right"]), gens::words(r, 2)),
            4 => format!("<?php\necho \"{}\";\n?>", gens::word(r)),
            _ => gens::paragraph(r),
        });
    }
    let s = v.join("\n\n");
    if s.starts_with("---") || s.starts_with("+++") || r.one(2) {
        return Case::new(s);
    }
    let s = contain(r, &s);
    if !r.one(4) {
        return Case::new(s);
    }
    // some lines of a container are indented with a tab
    let lines: Vec<String> = s
        .split('\n')
        .map(|l| match l.strip_prefix("  ") {
            Some(rest) if r.b() => format!("\t{}", rest.trim_start()),
            _ => l.to_string(),
        })
        .collect();
    Case::new(lines.join("\n"))
}
fn html_line(r: &mut R) -> String {
    let w = gens::words(r, 2);
    r.pick(&["<i>", "<b>X", "</i>", "X", "  X", "\t<td>", "# X", "- X", "> X", "```", "<!-- X -->", "X\\", "&amp;", "1. X", "X  "]).replace('X', &w)
}
fn raw(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut on = false;
    for (e, _) in events(s) {
        match e {
            Event::Start(Tag::HtmlBlock | Tag::MetadataBlock(_)) => {
                on = true;
                v.push(String::new());
            }
            Event::End(TagEnd::HtmlBlock | TagEnd::MetadataBlock(_)) => on = false,
            Event::Html(t) | Event::Text(t) if on => v.last_mut().unwrap().push_str(&t),
            _ => {}
        }
    }
    v.iter().map(|s| s.lines().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n").trim_end().to_string()).collect()
}
fn check_raw(c: &Case) -> Verdict {
    let out = tri!(fmt(c));
    let (a, b) = (raw(&c.input), raw(&out));
    tri!(same("a raw HTML or metadata block", &a, &b, &out));
    Pass(!a.is_empty())
}

// ---------------------------------------------------------------- footnotes
fn gen_foot(r: &mut R) -> Case {
    let mut v: Vec<String> = vec![format!("{} [^a] and [^note]", gens::words(r, 3))];
    for l in ["a", "note", "日"] {
        if r.one(4) {
            continue;
        }
        let b = match r.n(6) {
            4 => format!("{}\n\n{}", gens::words(r, 3), gens::blocks(r, 2, 3)),
            5 => gens::blocks(r, 2, 3),
            0 => gens::paragraph(r),
            1 => format!("{}\n\n{}", gens::paragraph(r), gens::paragraph(r)),
            2 => format!("{}\n\n{}", gens::words(r, 3), gens::fence(r)),
            _ => gens::words(r, 5),
        };
        v.push(gens::nest(&format!("[^{l}]: "), "    ", &b));
    }
    Case::new(contain(r, &v.join("\n\n")))
}
/// Blank lines at the end of code aren't part of what a footnote holds, and each block's text is joined
fn squeeze(s: &str) -> String {
    s.split_whitespace().collect()
}
fn foots(s: &str) -> Vec<String> {
    let mut v = vec![];
    let ev = events(s);
    let mut start = (0, String::new());
    for (i, (e, _)) in ev.iter().enumerate() {
        match e {
            Event::Start(Tag::FootnoteDefinition(l)) => start = (i, l.to_string()),
            Event::End(TagEnd::FootnoteDefinition) => v.push(format!("{}: {}", start.1, squeeze(&view::inline_text(&ev[start.0..i])))),
            Event::FootnoteReference(l) => v.push(format!("reference {l}")),
            _ => {}
        }
    }
    v
}
fn check_foot(c: &Case) -> Verdict {
    if known_text(c) {
        return Skip;
    }
    let out = tri!(fmt(c));
    let (a, b) = (foots(&c.input), foots(&out));
    tri!(same("a footnote", &a, &b, &out));
    tri!(same("the block structure", &view::blocks(&c.input, false), &view::blocks(&out, false), &out));
    Pass(!a.is_empty())
}

// ---------------------------------------------------------------- idempotence (not a claimed check)
fn check_idem(c: &Case) -> Verdict {
    let out = tri!(fmt(c));
    let again = tri!(fmt_cfg(&out, c.max_width, c.reflow));
    tri!(same("the output of a second run", &out, &again, &again));
    Pass(true)
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", rule: "documents and token soup with varied tails (blank lines, CR, CRLF, NBSP, empty containers), random configuration; non-trivial: the input isn't blank", gen: gen_final, check: check_final, quick: 60_000 },
    Prop { id: "C02", rule: "documents, token soup and link definitions without CR, each formatted with LF and with CRLF, random configuration; non-trivial: has a line break", gen: gen_crlf, check: check_crlf, quick: 60_000 },
    Prop { id: "C03", rule: "tables with 1-4 columns, 1-4 rows, wide/combining/escaped/missing cells, in random containers, random configuration; non-trivial: the parser sees a table", gen: gen_table, check: check_table, quick: 60_000 },
    Prop { id: "C04", rule: "fenced and indented code blocks with block-like lines, tabs, blank lines, in random containers, random configuration; non-trivial: a block with content", gen: gen_code, check: check_code, quick: 60_000 },
    Prop { id: "C05", rule: "documents with fenced code, also inside markdown blocks, in random containers, with a recording formatter; non-trivial: the formatter was called", gen: gen_callback, check: check_callback, quick: 40_000 },
    Prop { id: "C06", rule: "1-3 documents given to a formatter before the one compared with a fresh formatter, random configuration; non-trivial: the result isn't empty", gen: gen_history, check: check_history, quick: 20_000 },
    Prop { id: "C07", rule: "lists nested up to depth 3, every delimiter, leading zeros, up to nine digits, in random containers; non-trivial: has an item", gen: gen_list, check: check_list, quick: 60_000 },
    Prop { id: "C08", rule: "1-3 definitions spelled at random (multi-line labels and titles, escapes, brackets, non-ASCII, trailing junk) in random containers; non-trivial: the parser sees a definition", gen: gen_def, check: check_def, quick: 60_000 },
    Prop { id: "C09", rule: "links and images of every kind, with varied destinations, titles, labels, line breaks, in random contexts; non-trivial: has a link", gen: gen_link, check: check_link, quick: 60_000 },
    Prop { id: "C10", rule: "ATX and setext headings with attributes, closing sequences, escapes, empty braces, in random containers, random configuration; non-trivial: has a heading", gen: gen_heading, check: check_heading, quick: 60_000 },
    Prop { id: "C11", rule: "paragraphs of up to four lines with inline markup and hard breaks in random containers, width 1-60 or none, reflow or not; non-trivial: a paragraph was put on several lines", gen: gen_wrap, check: check_wrap, quick: 60_000 },
    Prop { id: "C12", rule: "paragraphs with escaped or indented lines that look like other blocks, in random containers; non-trivial: always", gen: gen_literal, check: check_literal, quick: 60_000 },
    Prop { id: "C13", rule: "documents of paragraphs, headings, fences, tables, rules, lists and quotes nested up to depth 3; non-trivial: more than one block event", gen: gen_blocks, check: check_blocks, quick: 40_000 },
    Prop { id: "C14", rule: "paragraphs and small documents with inline markup nested up to depth 2, in random containers; non-trivial: more than one inline event", gen: gen_inline, check: check_inlines, quick: 60_000 },
    Prop { id: "C15", rule: "what the other properties generate, some of it cut off anywhere, token soup and documents, random configuration, with overflow checks and debug assertions on; non-trivial: the result isn't empty", gen: gen_crash, check: check_crash, quick: 100_000 },
    Prop { id: "C16", rule: "documents and token soup written to a scratch file, the command run on it with random options; also invalid UTF-8, a missing file, a bad option; non-trivial: always", gen: crate::cli::gen, check: crate::cli::check, quick: 1_500 },
    Prop { id: "C17", rule: "documents with one to four line breaks more than needed between blocks; non-trivial: two top-level blocks", gen: doc_case, check: check_gaps, quick: 60_000 },
    Prop { id: "C18", rule: "HTML blocks of several kinds, YAML and TOML front matter, paragraphs between them; non-trivial: has a raw block", gen: gen_raw, check: check_raw, quick: 60_000 },
    Prop { id: "C19", rule: "footnote references and definitions holding paragraphs and code blocks; non-trivial: has a definition or reference", gen: gen_foot, check: check_foot, quick: 60_000 },
    Prop { id: "X01", rule: "idem", gen: doc_case, check: check_idem, quick: 60_000 },
];

/// The comparisons without their preconditions, for the known findings.
pub fn raw_check(which: &str, c: &Case) -> bool {
    let Ok(out) = fmt(c) else { return true };
    match which {
        "blocks" => view::blocks(&c.input, false) != view::blocks(&out, false),
        "inlines" => view::inlines(&c.input) != view::inlines(&out),
        "links" => view::links(&c.input) != view::links(&out),
        "code" => view::codes(&c.input).len() != view::codes(&out).len(),
        "headings" => view::headings(&c.input) != view::headings(&out),
        "definitions" => definitions(&c.input) != definitions(&out),
        "crlf" => fmt_cfg(&c.input.replace('\n', "\r\n"), c.max_width, c.reflow).map_or(true, |o| o != out),
        _ => panic!("unknown comparison {which}"),
    }
}
