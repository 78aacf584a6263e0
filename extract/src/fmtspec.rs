//! Format strings: `{}`, `{name}`, `{0}`, `{:fill<width$}`.
#[derive(Debug, Clone, PartialEq)]
pub enum Arg {
    Next,
    Pos(usize),
    Name(String),
}
#[derive(Debug, Clone)]
pub enum Piece {
    Lit(String),
    Val { arg: Arg, fill: char, align: char, width: Option<Width> },
}
#[derive(Debug, Clone)]
pub enum Width {
    Num(usize),
    Arg(Arg),
}

fn arg(s: &str) -> Arg {
    if s.is_empty() {
        Arg::Next
    } else if let Ok(n) = s.parse() {
        Arg::Pos(n)
    } else {
        Arg::Name(s.into())
    }
}

/// None: uses something that isn't supported
pub fn parse(s: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                lit.push('{');
            }
            '}' => {
                if it.next() != Some('}') {
                    return None;
                }
                lit.push('}');
            }
            '{' => {
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                let mut spec = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => spec.push(c),
                    }
                }
                let (name, f) = spec.split_once(':').map_or((spec.as_str(), None), |(a, b)| (a, Some(b)));
                let (mut fill, mut align, mut width) = (' ', ' ', None);
                if let Some(f) = f {
                    let cs: Vec<char> = f.chars().collect();
                    let mut rest = 0;
                    if cs.len() > 1 && "<>^".contains(cs[1]) {
                        fill = cs[0];
                        align = cs[1];
                        rest = 2;
                    } else if !cs.is_empty() && "<>^".contains(cs[0]) {
                        align = cs[0];
                        rest = 1;
                    }
                    let w: String = cs[rest..].iter().collect();
                    if let Some(a) = w.strip_suffix('$') {
                        width = Some(Width::Arg(arg(a)));
                    } else if !w.is_empty() {
                        width = Some(Width::Num(w.parse().ok()?));
                    }
                }
                out.push(Piece::Val { arg: arg(name), fill, align, width });
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Some(out)
}
