//! Shared pieces: random numbers, running the formatter, and reading markdown with the parser.
use markdown_fmt::FormatBuilder;
use pulldown_cmark::{Event, Parser};
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct R(pub u64);
impl R {
    pub fn new(seed: u64) -> Self {
        let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn n(&mut self, k: usize) -> usize {
        ((self.next() >> 11) as usize) % k.max(1)
    }
    pub fn b(&mut self) -> bool {
        self.n(2) == 0
    }
    pub fn one(&mut self, k: usize) -> bool {
        self.n(k) == 0
    }
    pub fn pick<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.n(xs.len())]
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub input: String,
    pub max_width: Option<usize>,
    pub reflow: bool,
    /// Further documents, for the properties over histories.
    pub extra: Vec<String>,
}

impl Case {
    pub fn new(input: String) -> Self {
        Case { input, ..Default::default() }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

pub fn builder(max_width: Option<usize>, reflow: bool) -> FormatBuilder {
    let mut b = FormatBuilder::default();
    b.max_width(max_width).reflow_text(reflow);
    b
}

/// Format, turning a panic into an error message.
pub fn fmt_cfg(input: &str, max_width: Option<usize>, reflow: bool) -> Result<String, String> {
    catch_unwind(AssertUnwindSafe(|| builder(max_width, reflow).build().format(input)))
        .map_err(|e| format!("the formatter panicked: {}", panic_text(e)))?
        .map_err(|_| "the formatter returned an error".to_string())
}
pub fn fmt(c: &Case) -> Result<String, String> {
    fmt_cfg(&c.input, c.max_width, c.reflow)
}

pub fn events(s: &str) -> Vec<(Event<'_>, Range<usize>)> {
    let o = markdown_fmt::pulldown_cmark_options!();
    let mut cb = |_| Some(("".into(), "".into()));
    Parser::new_with_broken_link_callback(s, o, Some(&mut cb))
        .into_offset_iter()
        .collect()
}

/// The (label, destination, title) of every link reference definition the parser recognises.
pub fn definitions(s: &str) -> Vec<(String, String, String)> {
    let o = markdown_fmt::pulldown_cmark_options!();
    let p = Parser::new_ext(s, o);
    let mut v: Vec<_> = p
        .reference_definitions()
        .iter()
        .map(|(l, d)| {
            (
                norm_label(l),
                d.dest.to_string(),
                d.title.as_ref().map(|t| t.split_whitespace().collect::<Vec<_>>().join(" ")).unwrap_or_default(),
            )
        })
        .collect();
    v.sort();
    v
}

pub fn show(s: &str) -> String {
    format!("{s:?}")
}

/// Labels are compared up to whitespace, and up to the escapes the formatter adds so that the label
/// is read back as a label: a leading `^` and a trailing backslash.
pub fn norm_label(l: &str) -> String {
    let mut l = l.split_whitespace().collect::<Vec<_>>().join(" ");
    if l.starts_with('^') {
        l.insert(0, '\\');
    }
    if l.chars().rev().take_while(|c| *c == '\\').count() % 2 == 1 {
        l.push('\\');
    }
    l.to_lowercase()
}
