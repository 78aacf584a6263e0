#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the theorems named in contracts/properties.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROOF = "contract-based deductive verification (Verus) of functions extracted from /repo/src on every run"
BOTH = PROOF + "; bounded exploration of the public API for what isn't under contract"
PART = "bounded exploration of the public API against an oracle written from the property; Verus contracts on the helpers it depends on"
BOUNDED = "bounded exploration of the public API (or the command) against an oracle written from the property"
TAIL = " Trusted: Verus, Z3, the extractor, the std model of contracts/prelude.vrs. If the changed code leaves the verifier's dialect, the proof is reported as undecided and only the bounded part decides."
CHECKS = {
    "C01": ("proof", BOTH, "Proved for every buffer and input: the end of FormatState::format returns text that ends with exactly one line feed iff the input has a line break after its last non-whitespace character, and with none otherwise; every run that returns Ok passes there (shape of the statements checked on every run). Bounded: that Ok is returned (C15)." + TAIL),
    "C02": ("proof", BOTH, "Proved: count_newlines gives the same count, and split_lines the same lines, for a text and its CRLF version (theorems over the contracts of the real functions). Bounded: that the rest of the formatter sees line endings through them only." + TAIL),
    "C03": ("proof", BOTH, "Proved for all cells: every line TableState::format writes has the same displayed width with the separators below each other, each cell is written whole and padded by its alignment's column width, and the delimiter row says the column's alignment. Bounded: that the events fill the table with the input's cells." + TAIL),
    "C04": ("proof", BOTH, "Proved for all texts: code lines are written unchanged after the block's indentation (only whitespace-only lines and blank lines at the end change), in every container, and the width limit doesn't affect them. Bounded: what the events put into the buffer, and the fences." + TAIL),
    "C05": ("proof", BOTH, "Proved for all states: write_code_block_buffer calls the code formatter once, with the info string, the code, and max_width less the block's column, and writes its result. Bounded: that end_tag does so once per block, in order, and which blocks count as markdown." + TAIL),
    "C06": ("proof", BOTH, "Proved for all states: format_code_buffer, the only code that changes the configuration, leaves it as it was. Bounded: the end-to-end statement on sequences of documents." + TAIL),
    "C07": ("proof", BOTH, "Proved for all texts: ListMarker's parsing keeps bullet, number, leading zeros and delimiter, what is written is the marker itself, and the indentation is its width plus one. Bounded: that each item's lines get that indentation." + TAIL),
    "C08": ("proof", BOTH, "Proved for all texts: a definition is written with the words of its label and title in order (theorem_same_words), its destination unchanged, and closed by a bracket or quote that isn't escaped; each definition that parse_link_reference_definitions finds is a part of the input, they are in order, and where blocks, items and footnotes start and end every one found in the skipped input is written once, in order. Bounded: that they are the ones pulldown-cmark finds." + TAIL),
    "C09": ("proof", BOTH, "Proved for all destinations, titles and labels: what format_link_url writes for a destination is read as that destination again, whatever follows it; the destination, title and quotes of an inline link and the label of a reference link are the ones of the source (with the preconditions listed as assumptions); LinkWriter keeps the link's text on one line and never ends it on an escape. Bounded: which text of the source the formatter hands to these functions, and the kind of the link." + TAIL),
    "C10": ("proof", BOTH, "Proved for all texts: Header's functions remove nothing but closing sequences, escape a trailing brace pair or closing sequence that is text, and escape the first line of a setext heading that would start a block. Bounded: level, style and attributes end to end." + TAIL),
    "C11": ("proof", BOTH, "Proved for every paragraph, width and reflow setting: into_buffer returns the text as it is, or each part between two hard breaks wrapped by textwrap with options that break at spaces only; reflowing (unfill) replaces line feeds by spaces and nothing else, and no hard break; words and their order are kept. Trusted: textwrap::fill (compared with its contract on random texts). Bounded: that the text and the width are those of the paragraph, markup at the new line starts." + TAIL),
    "C12": ("proof", BOTH, "Proved for all lines: needs_escape and could_be_interpreted_as_html recognise every line that a CommonMark parser could take for the start of another block, with the right marker, and nothing but that marker (ASCII punctuation) is escaped. Bounded: that the formatter asks for every line whose start moves." + TAIL),
    "C13": ("exploration", PART, "Bounded: covers the cases counted in the evidence. Proved in addition: the recognition of block starts in text (as C12)."),
    "C14": ("exploration", PART, "Bounded: covers the cases counted in the evidence. Proved in addition: the removal of the containers' indentation takes nothing else away."),
    "C15": ("exploration", PART, "Bounded: covers the cases counted in the evidence. Proved in addition, for all inputs: the functions under contract (listed in the evidence) don't panic, overflow or index out of bounds, and end."),
    "C16": ("proof", BOTH, "Proved for every content of the files, every standard output and all arguments: main and output_result print exactly the result and change no file, or replace the content of the input file (and of no other) by the encoding of the result and print nothing; a file that isn't UTF-8, is missing or can't be formatted is left alone; the options on the command line are those the formatter gets. Bounded: the real file system, clap, that the command's result is the library's." + TAIL),
    "C17": ("proof", BOTH, "Proved for all states: count_newlines counts the line breaks between two events, and the write_newlines family ends the output with exactly that many (at most, minus those already there). Bounded: that every block start goes through them with the right range." + TAIL),
    "C18": ("exploration", PART, "Bounded: covers the cases counted in the evidence. Proved in addition: where HTML and metadata blocks start and end nothing is written but line breaks and the fences of the front matter."),
    "C19": ("exploration", PART, "Bounded: covers the cases counted in the evidence. Proved in addition: a definition starts with its label as the input has it, and its text is written after it, whole."),
}
NA = {
    "N01": "Formatting isn't idempotent for every input (wrapping and escaping decisions depend on the layout of the input, several upstream issues), so the property doesn't hold on the current tree, and no contract over single functions expresses that a second run of the event-driven state machine reaches a fixed point.",
    "N02": "Equality of the rendering of input and output quantifies over pulldown-cmark's whole parser, which is an external dependency without a contract; no deductive verifier here can reach it. The parts of it that can be stated on their own are C03-C04, C07-C10, C12-C14 and C18-C19.",
}
units = json.load(open(HERE + "/../contracts/properties.json"))
checks = []
for k, (l, t, n) in CHECKS.items():
    c = {"property": k, "quick_cmd": f"python3 tools/check.py {k}", "thorough_cmd": f"python3 tools/check.py {k}", "technique": t, "level": l, "level_note": n}
    th = units.get(k, {}).get("theorems", [])
    if l == "proof" and th:
        c["theorems"] = th
    checks.append(c)
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()]}
with open(HERE + "/../MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
