#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

API = "the string returned by rewrite_markdown / MarkdownFormatter::format"

p("C01", "The final line ending mirrors the input's",
  "The formatted text ends with exactly one line feed if the input has a line break (LF, CR or CRLF) after its last non-whitespace character, and with no line break otherwise. This holds for every input and every configuration, so formatting never adds or removes a file's final newline and never leaves trailing blank lines.",
  ["inputs", "configurations"], "every input text, every max_width / reflow setting",
  "The tests compare a few hundred fixed documents; the rule has to hold whatever block the document ends with, and for every mixture of trailing whitespace and line ending characters.",
  ["src/formatter.rs"], [("FormatState::format (epilogue)", "src/formatter.rs"), ("rewrite_final_reference_links", "src/formatter.rs")], [API])

p("C02", "The result doesn't depend on the input's line endings",
  "A document whose lines end with CRLF is formatted to exactly the same text as the same document with LF line endings. HTML blocks nested in a list, block quote or footnote are the exception.",
  ["inputs", "configurations"], "every document without lone carriage returns and without HTML blocks in containers, every configuration",
  "Only a handful of fixtures use CRLF; every line-based scan in the code (counting, splitting, link titles, setext headings, hard breaks) has to treat the two alike for all inputs.",
  ["src/utils.rs", "src/formatter.rs", "src/header.rs", "src/links.rs"],
  [("count_newlines, split_lines", "src/utils.rs"), ("HardBreak arm of FormatState::format", "src/formatter.rs")], [API])

p("C03", "Tables keep their cells and alignment, and come out aligned",
  "A formatted table has the same rows, the same content in each cell and the same column alignments as the input's table. All its lines have the same displayed width, with the column separators below each other, whatever characters the cells hold.",
  ["inputs"], "every table: any number of rows and columns, any alignment, any cell text (wide, combining, escaped characters, missing cells), in any container",
  "The tests have a few tables with fixed content; width arithmetic, padding and missing cells must be right for every shape and every character.",
  ["src/table.rs", "src/utils.rs"],
  [("TableState::write / update_column_width / push_row", "src/table.rs"), ("TableState::format, write_wth_padding, rewrite_alignment, rewrite_body", "src/table.rs")], [API],
  [("max_column_width", "widest content of each column", "TableState"), ("col_index", "the cell that is being written", "TableState")])

p("C04", "The content of code blocks is kept",
  "Without a code formatter, every code block keeps its lines, its indentation relative to the block, its fence and its info string, in any container and for any max_width. Only blank lines at its end and the whitespace of whitespace-only lines may change.",
  ["inputs", "configurations"], "every fenced or indented code block (info string other than markdown), in any container, every configuration",
  "The tests sample some code blocks; code can hold anything that looks like markdown, and each line must get through the container indentation unharmed.",
  ["src/formatter.rs"],
  [("write_code_block_buffer, join_with_indentation, write_indentation", "src/formatter.rs"), ("rewrite_marker, find_marker", "src/formatter.rs")], [API])

p("C05", "The code formatter is called with the right arguments, and its result is used",
  "The custom code formatter is called exactly once, in document order, for every fenced code block whose info string doesn't mention markdown, with the block's info string, its code, the column in which the block is written, and the max_width in force for the (possibly nested) document it belongs to. What it returns becomes the content of the code block; blocks marked as markdown are formatted as documents of their own with the width left to them.",
  ["inputs", "configurations"], "every document, including markdown nested in markdown to any depth, every max_width",
  "Two tests check one document; the context depends on nesting, on the widths of all enclosing containers and on the recursion depth.",
  ["src/formatter.rs", "src/builder.rs"],
  [("format_code_buffer, indentation_len", "src/formatter.rs"), ("CodeBlockContext", "src/builder.rs")],
  ["the arguments seen by the closure given to FormatBuilder::code_block_formatter", API],
  [("config.max_width", "temporarily narrowed while nested markdown is formatted", "MarkdownFormatter")])

p("C06", "A formatter can be reused",
  "Formatting a document gives the same result with a fresh formatter, with one that has already formatted any sequence of other documents, and when it is repeated. In particular the configured max_width is in force again after documents with nested markdown were formatted.",
  ["histories", "inputs", "configurations"], "every sequence of documents given to one formatter, every configuration",
  "Every test builds a new formatter for each document, so no test can see state that leaks from one document to the next.",
  ["src/formatter.rs", "src/config.rs", "src/builder.rs"],
  [("format_code_buffer saves and restores the width", "src/formatter.rs"), ("Config setters", "src/config.rs")], [API],
  [("config", "shared by all the documents a formatter handles", "MarkdownFormatter")])

p("C07", "List markers are kept and items are indented to match",
  "Every list item keeps its marker: the bullet character, or the number with its leading zeros and its delimiter. What belongs to an item starts exactly one column after the marker and its space, on every line.",
  ["inputs"], "every list and item, nested to any depth in lists and block quotes, every marker the grammar allows",
  "Tests list some markers; the number of digits, leading zeros, nesting and item content vary without limit, and a wrong indentation silently moves content out of the item.",
  ["src/list.rs", "src/formatter.rs"],
  [("ListMarker::from_str, indentation, zero_padding, marker_char", "src/list.rs"), ("start_tag(Tag::Item)", "src/formatter.rs")], [API])

p("C08", "Link reference definitions are kept",
  "The formatted document defines the same link references as the input: the same labels, with the same destinations and titles, none lost and none invented. Labels are compared as the parser compares them, up to an added backslash that keeps a label a label.",
  ["inputs"], "every document without footnotes: every way to write a definition (over several lines, escapes, angle brackets, quotes, parentheses), in any container",
  "The parser reports no events for definitions, so the crate re-parses the source by hand; the tests sample a few dozen spellings out of an unbounded set.",
  ["src/links.rs", "src/formatter.rs"],
  [("parse_link_reference_definitions", "src/links.rs"), ("LinkReferenceDefinition::write, LinkLines::write, LinkDestination::write", "src/links.rs"), ("rewrite_reference_link_definitions", "src/formatter.rs")],
  [API, "the reference definitions the parser reports for it"])

p("C09", "Links and images keep their kind, destination, title and label",
  "Every link and image of the input is still there after formatting, in the same order, with the same kind (inline, reference, collapsed, shortcut, autolink), destination, title and label (a backslash may be added to a label's text).",
  ["inputs"], "every link and image: any text, destination, title and label, in any inline or block context, without wrapping",
  "The crate finds destination, title and label by scanning the source; parentheses, escapes, quotes, brackets and line breaks combine without limit.",
  ["src/links.rs", "src/formatter.rs"],
  [("find_inline_url_and_title, find_reference_link_label, is_balanced, format_link_url", "src/links.rs"), ("LinkWriter", "src/links.rs"), ("end_tag(TagEnd::Link)", "src/formatter.rs")], [API])

p("C10", "Headings keep their level, style, text and attributes",
  "Every heading keeps its level, its style (ATX or setext), its text and its id, classes and attributes. Unescaped # characters and an empty {} at the end of an ATX heading count as its closing sequence and not as text.",
  ["inputs", "configurations"], "every heading: any text, closing sequence, attribute list, escape and container",
  "Attributes, escapes and closing sequences interact; the tests fix some combinations.",
  ["src/header.rs", "src/formatter.rs"],
  [("Header::new, into_parts, escape_trailing_hashtag, escape_trailing_empty_attribute_brackets, write_header_attributes", "src/header.rs"), ("end_tag(TagEnd::Heading)", "src/formatter.rs")], [API])

p("C11", "Wrapping changes line breaks only",
  "With a max_width, paragraphs keep their words, markup and hard breaks; only the places of soft line breaks change. No line that holds more than one word is wider than max_width, containers included, and unless text reflows no line break of the input is removed; without max_width the lines stay as they are.",
  ["inputs", "configurations"], "every paragraph whose words can't be mistaken for the start of another block, in any container, every max_width, with and without reflow",
  "A few fixtures use two or three widths; wrapping decisions depend on every word length, width and nesting depth.",
  ["src/paragraph.rs", "src/formatter.rs"],
  [("Paragraph::into_buffer, write_str", "src/paragraph.rs"), ("start_tag(Tag::Paragraph) computes the width left", "src/formatter.rs")], [API])

p("C12", "Text that looks like another block stays text",
  "A line of paragraph text that would start a heading, block quote, bullet list, thematic break, fenced code block or setext underline once its indentation is changed is escaped, so it is still text after formatting. The text itself, hard breaks included, is unchanged.",
  ["inputs"], "every paragraph made of words and such lines, escaped or indented, in any container",
  "Whether a line needs an escape depends on its exact characters and on what was written before it; tests pick single lines.",
  ["src/escape.rs", "src/paragraph.rs", "src/formatter.rs", "src/html.rs"],
  [("needs_escape", "src/escape.rs"), ("Paragraph::write_context_str", "src/paragraph.rs"), ("Text arm of FormatState::format", "src/formatter.rs")], [API])

p("C13", "The block structure is kept",
  "The formatted document has the same tree of blocks as the input: block quotes, lists, items, headings, code blocks, tables, thematic breaks and footnote definitions, nested in the same way and in the same order.",
  ["inputs"], "every well-formed document built from paragraphs, headings, fences, tables, rules, lists and block quotes nested to any depth",
  "A wrong prefix on a single line moves a block in or out of its container; the number of nestings and neighbours is unbounded.",
  ["src/formatter.rs", "src/adapters/loose_list.rs", "src/adapters/end_list_at_last_item.rs", "src/list.rs"],
  [("write_newlines, write_indentation, join_with_indentation", "src/formatter.rs"), ("start_tag / end_tag keep the indentation stack", "src/formatter.rs"), ("LooseListAdapter, ListEndAtLastItemAdapter", "src/adapters")], [API],
  [("indentation", "prefix of every line in the current container", "FormatState")])

p("C14", "Text and inline markup are kept",
  "Every paragraph keeps its text, emphasis, strong emphasis, strikethrough, code spans, inline HTML, links, task markers and hard breaks, in the same order and around the same text. (A hard break inside the text of a link may become a space.)",
  ["inputs"], "every paragraph of inline content nested to any depth, in any container, without max_width",
  "Markers are copied from the source by position and backslashes are recovered by looking back; tests sample single constructs.",
  ["src/formatter.rs", "src/paragraph.rs", "src/utils.rs"],
  [("rewrite_marker_with_limit, find_marker", "src/formatter.rs"), ("Text, Code, InlineHtml and HardBreak arms of FormatState::format", "src/formatter.rs"), ("sequence_ends_on_escape", "src/utils.rs")], [API])

p("C15", "Formatting never fails",
  "For every input text and configuration, formatting returns a result: it doesn't panic, doesn't return an error, and ends.",
  ["inputs", "configurations"], "every string, every max_width / reflow setting",
  "The code slices strings at computed byte offsets and relies on unwraps and unreachable branches; tests and the fuzzer's corpus visit finitely many inputs.",
  ["src/formatter.rs", "src/links.rs", "src/header.rs", "src/table.rs", "src/list.rs", "src/utils.rs"],
  [("every slice, index, unwrap, expect, unreachable", "src"), ("loops of parse_link_reference_definitions, SplitLines", "src/links.rs, src/utils.rs")],
  ["the result of rewrite_markdown / MarkdownFormatter::format, or a panic"])

p("C16", "The command replaces the file with the result, or leaves it alone",
  "markdown-fmt FILE replaces the file's content with exactly what the library returns for it and the given options, and prints nothing; with --stdout it prints exactly that and doesn't touch the file. If the file can't be read as text, the command fails and the file keeps its bytes.",
  ["inputs", "configurations"], "every file content, every combination of options",
  "No test runs the command.",
  ["src/main.rs", "src/lib.rs"],
  [("output_result", "src/main.rs"), ("main passes the options to the builder", "src/main.rs")],
  ["the file's bytes, the command's output and exit status"])

p("C17", "Blank lines between blocks are kept",
  "The number of line breaks between two consecutive top-level blocks is the same before and after formatting. (A list of dashes right after a paragraph may get the blank line that keeps the dash from being taken for a heading's underline.)",
  ["inputs"], "every well-formed document built from paragraphs, headings, fences, tables, rules, lists and block quotes, any number of blank lines",
  "It depends on which two blocks meet and on how many blank lines separate them; tests fix both.",
  ["src/formatter.rs", "src/utils.rs", "src/adapters/end_list_at_last_item.rs"],
  [("count_newlines, write_newlines_inner", "src/formatter.rs"), ("count_newlines", "src/utils.rs"), ("ListEndAtLastItemAdapter", "src/adapters/end_list_at_last_item.rs")], [API],
  [("last_position", "how far the source has been written", "FormatState")])

p("C18", "Raw HTML blocks and front matter are kept",
  "Every HTML block, in whatever container, and every metadata block keeps its text, line for line, up to whitespace at the ends of lines.",
  ["inputs"], "every HTML block and metadata block, whatever surrounds or follows it",
  "Tests contain some HTML blocks; any text can appear in them.",
  ["src/formatter.rs", "src/html.rs"],
  [("Html arm of FormatState::format", "src/formatter.rs"), ("start_tag(Tag::MetadataBlock), Text arm", "src/formatter.rs")], [API])

p("C19", "Footnotes are kept",
  "Every footnote definition keeps its label and everything it contains, and every footnote reference still refers to the same label.",
  ["inputs"], "every footnote definition made of paragraphs and code blocks, and every reference",
  "The definition's body is moved to an indented block of its own; its content is unbounded.",
  ["src/footnote.rs", "src/formatter.rs"],
  [("FootnoteDefinition", "src/footnote.rs"), ("start_tag / end_tag (FootnoteDefinition), join_with_indentation", "src/formatter.rs")], [API],
  [("buffer", "the definition's text before it is indented", "FootnoteDefinition")])

p("N01", "Formatting is idempotent",
  "Formatting the formatted text again changes nothing.",
  ["inputs", "configurations"], "every input text and configuration",
  "The tests check it for their fixtures only.",
  ["src"], [("all of the formatter", "src/formatter.rs")], [API])

p("N02", "The rendered document is unchanged",
  "For every input text the formatted text renders to the same HTML.",
  ["inputs", "configurations"], "every input text and configuration",
  "The tests check it for some fixtures only.",
  ["src"], [("all of the formatter", "src/formatter.rs")], [API])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
