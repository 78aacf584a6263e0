// src/main.rs, src/lib.rs, src/builder.rs: the configuration, and what the program does with files
//@include prelude.vrs
pub mod cli {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use crate::prelude::*;
verus! {
broadcast use group_prelude;

// ------------------------------------------------------------------------------------------------ the configuration
//@type config.rs Config
impl Config {
/// The implementation that is derived
#[verifier::external_body]
pub fn default() -> (r: Config) ensures r == (Config { max_width: None, reflow_text: false }) { unimplemented!() }
//@fn config.rs Config::max_width
//@ret r
//@spec
    ensures r == self.max_width,
//@end
//@fn config.rs Config::reflow_text
//@ret r
//@spec
    ensures r == self.reflow_text,
//@end
//@fn config.rs Config::set_max_width
//@spec
    ensures *final(self) == (Config { max_width: value, ..*old(self) }),
//@end
//@fn config.rs Config::set_reflow_text
//@spec
    ensures *final(self) == (Config { reflow_text: value, ..*old(self) }),
//@end
}
/// The code formatter: any function
#[verifier::external_body]
pub struct CodeBlockFormatter { f: () }
pub uninterp spec fn identity_formatter() -> CodeBlockFormatter;
pub uninterp spec fn boxed<F>(f: F) -> CodeBlockFormatter;
#[verifier::external_body]
pub fn vx_identity_formatter() -> (r: CodeBlockFormatter) ensures r == identity_formatter() { unimplemented!() }
#[verifier::external_body]
pub fn vx_box_formatter<F>(f: F) -> (r: CodeBlockFormatter) ensures r == boxed(f) { unimplemented!() }

//@type builder.rs FormatBuilder
//@struct formatter.rs MarkdownFormatter - code_block_formatter config=Config
/// The result of formatting a document, if it's not an error
pub uninterp spec fn formatted(f: MarkdownFormatter, input: Seq<char>) -> Option<Seq<char>>;
impl MarkdownFormatter {
//@fn formatter.rs MarkdownFormatter::new
//@ret r
//@rename RefCell::new(config) => config
//@spec
    ensures r.code_block_formatter == code_block_formatter, r.config == config,
//@end
    /// The result depends on the formatter (with its configuration and its code formatter) and on the text only
    #[verifier::external_body]
    pub fn format(&self, input: &str) -> (r: Result<String, FmtError>)
        ensures match formatted(*self, input@) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err },
    { unimplemented!() }
}
impl FormatBuilder {
/// The formatter with this configuration
pub open spec fn built(&self) -> MarkdownFormatter { MarkdownFormatter { code_block_formatter: self.code_block_formatter, config: self.config } }
//@fn builder.rs Default@FormatBuilder::default
//@ret r
//@spec
    ensures r.code_block_formatter == identity_formatter(), r.config == (Config { max_width: None, reflow_text: false }),
//@end
//@fn builder.rs FormatBuilder::with_code_block_formatter
//@ret r
//@generics <F>
//@spec
    ensures r.code_block_formatter == boxed(formatter), r.config == (Config { max_width: None, reflow_text: false }),
//@end
//@fn builder.rs FormatBuilder::build
//@ret r
//@spec
    ensures r == self.built(),
//@end
//@fn builder.rs FormatBuilder::code_block_formatter
//@ret r
//@generics <F>
//@spec
    ensures
        *r == (FormatBuilder { code_block_formatter: boxed(formatter), ..*old(self) }),
        *final(self) == *final(r),
//@end
//@fn builder.rs FormatBuilder::max_width
//@ret r
//@spec
    ensures
        *r == (FormatBuilder { config: Config { max_width: max_width, ..old(self).config }, ..*old(self) }),
        *final(self) == *final(r),
//@end
//@fn builder.rs FormatBuilder::reflow_text
//@ret r
//@spec
    ensures
        *r == (FormatBuilder { config: Config { reflow_text: should_reflow, ..old(self).config }, ..*old(self) }),
        *final(self) == *final(r),
//@end
}
//@fn lib.rs rewrite_markdown_with_builder
//@ret r
//@spec
    ensures match formatted(builder.built(), input@) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err },
//@end
/// The formatter with these options, which leaves code as it is
pub open spec fn formatter_with(max_width: Option<usize>, reflow_text: bool) -> MarkdownFormatter {
    MarkdownFormatter { code_block_formatter: identity_formatter(), config: Config { max_width, reflow_text } }
}
//@fn lib.rs rewrite_markdown
//@ret r
//@spec
    ensures match formatted(formatter_with(None, false), input@) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err },
//@end

// ------------------------------------------------------------------------------------------------ the program
/// A path of a file
#[verifier::external_body]
pub struct Path { p: () }
pub type PathBuf = Path;
//@type main.rs Cli
/// What is outside of the program: the content of the files, the text that has been written to standard output, and
/// the arguments
pub tracked struct World { pub ghost files: Map<Path, Seq<u8>>, pub ghost stdout: Seq<char>, pub ghost cli: Cli }
/// The text whose UTF-8 encoding this is
pub open spec fn is_text(bytes: Seq<u8>, t: Seq<char>) -> bool { utf8(t) == bytes }
/// Only the content of this file may have changed
pub open spec fn only_file(a: World, b: World, p: Path) -> bool {
    &&& b.stdout == a.stdout && b.cli == a.cli
    &&& forall|q: Path| q != p ==> (a.files.dom().contains(q) <==> #[trigger] b.files.dom().contains(q))
    &&& forall|q: Path| q != p && a.files.dom().contains(q) ==> #[trigger] b.files[q] == a.files[q]
}

pub struct IoError {}
/// anyhow::Error
pub struct Error {}
impl From<IoError> for Error { #[verifier::external_body] fn from(e: IoError) -> Error { unimplemented!() } }
impl From<FmtError> for Error { #[verifier::external_body] fn from(e: FmtError) -> Error { unimplemented!() } }

/// The documented behaviour of std::fs::read_to_string, std::fs::write, print! and clap's parse
#[verifier::external_body]
pub fn vx_io_read_to_string(p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<String, IoError>)
    ensures
        *final(w) == *old(w),
        r is Ok ==> old(w).files.dom().contains(*p) && is_text(old(w).files[*p], r->Ok_0@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_io_write(p: &Path, text: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>)
    ensures
        r is Ok ==> *final(w) == (World { files: old(w).files.insert(*p, utf8(text@)), ..*old(w) }),
        r is Err ==> only_file(*old(w), *final(w), *p),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_io_print(text: &str, Tracked(w): Tracked<&mut World>)
    ensures *final(w) == (World { stdout: old(w).stdout + text@, ..*old(w) }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_io_parse(Tracked(w): Tracked<&mut World>) -> (r: Cli)
    ensures *final(w) == *old(w), r == old(w).cli,
{ unimplemented!() }

//@fn main.rs output_result
//@ret r
//@rettype Result<(), Error>
//@io write print println
//@inputs input: &Path, result: &str, stdout: bool, Tracked(vx_world): Tracked<&mut World>
//@spec
    ensures
        stdout ==> r is Ok && *final(vx_world) == (World { stdout: old(vx_world).stdout + result@, ..*old(vx_world) }),
        !stdout && r is Ok ==> *final(vx_world) == (World { files: old(vx_world).files.insert(*input, utf8(result@)), ..*old(vx_world) }),
        !stdout && r is Err ==> only_file(*old(vx_world), *final(vx_world), *input),
//@end

/// C16. The world after a run that succeeded: the text of the file has been formatted with the options of the command
/// line, and the result is either the new content of the file or has been printed
pub open spec fn ran(a: World, b: World) -> bool {
    exists|t: Seq<char>| {
        &&& a.files.dom().contains(a.cli.input)
        &&& #[trigger] is_text(a.files[a.cli.input], t)
        &&& formatted(formatter_with(a.cli.max_width, a.cli.reflow_text), t) is Some
        &&& {
            let out = formatted(formatter_with(a.cli.max_width, a.cli.reflow_text), t)->Some_0;
            if a.cli.stdout { b == (World { stdout: a.stdout + out, ..a }) } else { b == (World { files: a.files.insert(a.cli.input, utf8(out)), ..a }) }
        }
    }
}
//@fn main.rs main
//@ret r
//@rettype Result<(), Error>
//@io read_to_string parse output_result write print println
//@inputs Tracked(vx_world): Tracked<&mut World>
//@spec
    ensures
        // a run that succeeds
        r is Ok ==> ran(*old(vx_world), *final(vx_world)),
        // a run that fails has printed nothing, and has changed no other file, and none at all with --stdout
        r is Err ==> only_file(*old(vx_world), *final(vx_world), old(vx_world).cli.input),
        r is Err && old(vx_world).cli.stdout ==> *final(vx_world) == *old(vx_world),
        // what isn't text, or can't be formatted, is left alone
        (forall|t: Seq<char>| !#[trigger] is_text(old(vx_world).files[old(vx_world).cli.input], t)) ==> r is Err && *final(vx_world) == *old(vx_world),
        !old(vx_world).files.dom().contains(old(vx_world).cli.input) ==> r is Err && *final(vx_world) == *old(vx_world),
        (forall|t: Seq<char>| #[trigger] is_text(old(vx_world).files[old(vx_world).cli.input], t) ==> formatted(formatter_with(old(vx_world).cli.max_width, old(vx_world).cli.reflow_text), t) is None)
            ==> r is Err && *final(vx_world) == *old(vx_world),
//@end
/// C16: a run without --stdout prints nothing, changes no other file, and leaves the encoding of a text
pub proof fn theorem_other_files(a: World, b: World)
    requires ran(a, b), !a.cli.stdout,
    ensures
        b.stdout == a.stdout,
        b.files.dom() == a.files.dom(),
        forall|q: Path| q != a.cli.input && a.files.dom().contains(q) ==> #[trigger] b.files[q] == a.files[q],
        exists|t: Seq<char>| #[trigger] is_text(a.files[a.cli.input], t) && is_text(b.files[a.cli.input], formatted(formatter_with(a.cli.max_width, a.cli.reflow_text), t)->Some_0),
{
    assert(b.files.dom() =~= a.files.dom());
}
}
}
