NOT_APPLICABLE = []
PROPS = [
 dict(id="C01", title="No input crashes, hangs or exhausts the converter",
  statement="For every source text, set of included files, doctype, safe mode, document attribute setting and backend, parsing followed by conversion ends with an HTML string or a list of diagnostics: it never panics, overflows the stack of a main thread, loops forever or uses memory without bound.",
  quant="all byte strings that decode to text, all include trees, all attribute and settings combinations",
  why="A robustness guarantee ranges over all inputs; the suite feeds about a thousand well-formed snippets, and hundreds of unwraps, index expressions and parser loops are only ever reached by malformed combinations.",
  files=["parser/src/parser.rs","parser/src/line.rs","parser/src/tasks/parse_block.rs","parser/src/tasks/parse_inlines/mod.rs","parser/src/lexer/root_lexer.rs","eval/src/eval.rs","backend/src/html/backend.rs"],
  mech=[("recursive-descent block parser","parser/src/parser.rs"),("inline parser","parser/src/tasks/parse_inlines/mod.rs"),("evaluation","eval/src/eval.rs")],
  technique="grammar-aware random documents + mutation, crash/hang/memory oracle in isolated workers",
  note="Searches random documents spliced from syntax fragments, a corpus of real snippets and mutations under random settings; assumes an 8 MiB stack, a 1 GB and 60 s CPU bound per case count as unbounded."),
 dict(id="C03", title="Generated HTML is well formed",
  statement="For every source text and setting without passthrough constructs, the HTML of either backend, embedded or standalone, is well formed: every element opened is closed in the right order, void elements are the only unclosed ones, attribute values are quoted and an element has no attribute twice, and outside of markup `<`, `>` and `&` occur only as character references.",
  quant="all source texts without passthroughs, all settings, both backends",
  why="The backends print tags by hand from a visitor with some sixty enter/exit callbacks and ad-hoc state; whether they balance depends on the composition of all nodes of a document.",
  files=["dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs","backend/src/html/backend.rs","backend/src/html/htmlbuf.rs","eval/src/eval.rs","parser/src/tasks/parse_inlines/mod.rs"],
  mech=[("HTML output","backend/src/html/htmlbuf.rs"),("Asciidoctor HTML backend","dr-html-backend/src/asciidoctor_html.rs"),("html5s backend","backend-html5s/src/html5s.rs")],
  technique="random and mutated documents converted by both backends, output checked by a strict HTML parser",
  note="Random documents (fragments, corpus mutations, generated trees) and settings; passthroughs are left out because they print raw text by design."),
 dict(id="C04", title="Text of a document never becomes markup",
  statement="Outside of passthrough constructs, no text of the source can introduce an element, an attribute or a character reference that the constructs it stands in do not produce: special characters in paragraphs, titles, macro targets, attribute lists, document attributes, ids, roles, captions, author and revision lines, callouts and include targets come out escaped for the place (text or attribute value) they are printed in.",
  quant="all payloads of special characters in all positions of a document",
  why="Escaping is the job of every one of the places where a string reaches the output; one forgotten place is an HTML injection, and tests check a couple of them.",
  files=["backend/src/html/htmlbuf.rs","backend/src/html/backend.rs","dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs","parser/src/tasks/parse_inlines/inline_utils.rs","parser/src/tasks/parse_inlines/mod.rs"],
  mech=[("escaping","backend/src/html/htmlbuf.rs"),("special characters in inline parsing","parser/src/tasks/parse_inlines/inline_utils.rs")],
  technique="payloads with markup characters injected into every syntactic position; output parsed and searched for injected elements and attributes",
  note="Payload list crossed with about 150 position templates and random splices; passthroughs and `javascript:` URLs are out of scope."),
 dict(id="C12", title="Lists nest exactly as their markers and attachments say",
  statement="For every document of unordered, ordered, description and checklist lists nested in each other to any depth, with continuation lines, items separated by blank lines, blocks attached with `+`, lists inside delimited blocks and inside table cells, the converted output contains the same tree: each item under the list its marker belongs to, with its own text, attached blocks and nested lists in order, with the list's style, start number, options, id, roles and title; nothing is lost, duplicated or moved to another item, and no diagnostic is reported.",
  quant="all nestings and orders of list kinds, markers, attachments, blank lines and metadata",
  why="Which list a line belongs to depends on the whole stack of open lists, blank lines and attachments before it; tests sample a few dozen of the unbounded combinations.",
  files=["parser/src/tasks/parse_list.rs","parser/src/list_context.rs","parser/src/contiguous_lines.rs","parser/src/line.rs","parser/src/tasks/parse_inlines/mod.rs","eval/src/eval.rs","dr-html-backend/src/asciidoctor_html.rs","backend/src/html/backend.rs"],
  mech=[("list parser","parser/src/tasks/parse_list.rs"),("open-list stack","parser/src/list_context.rs"),("list rendering","dr-html-backend/src/asciidoctor_html.rs")],
  technique="model-based generation: a random list tree is rendered to AsciiDoc, the HTML output parsed back and compared with the tree",
  note="Random trees up to five list levels; ambiguous spellings (where processors differ) are not generated."),
 dict(id="C22", title="Every block appears once, in order, with its nesting, kind and metadata",
  statement="For every document built from paragraphs, admonitions, verbatim, quote, verse, sidebar, example, open, collapsible and abstract blocks, images, breaks, discrete headings, tables and lists, nested in any allowed way, the output contains exactly these blocks in source order and nesting, each with its kind, text, id, roles, options, title, caption number and attribution, whichever of the equivalent spellings (delimited or paragraph form, masquerading delimiter, shorthand or named attributes, attribute lines before or after the title) was used.",
  quant="all block trees, metadata combinations and equivalent spellings",
  why="The block parser is a recursion over line groups whose decisions interact (delimiters inside lists inside cells inside admonitions); correct composition is a statement about all trees, not about the sampled pairs.",
  files=["parser/src/tasks/parse_block.rs","parser/src/parser.rs","parser/src/chunk.rs","parser/src/delimiter.rs","ast/src/attr_list.rs","ast/src/multi_attr_list.rs","eval/src/eval.rs","dr-html-backend/src/asciidoctor_html.rs","backend/src/html/backend.rs"],
  mech=[("block parser","parser/src/tasks/parse_block.rs"),("block metadata","ast/src/attr_list.rs"),("block rendering","dr-html-backend/src/asciidoctor_html.rs")],
  technique="model-based generation: a random block tree is rendered to AsciiDoc, the HTML output parsed back and compared with the tree",
  note="Random trees of up to about 18 blocks; ambiguous spellings are not generated."),
 dict(id="C05", title="Verbatim text comes out character for character",
  statement="The text of listing, literal, source, fenced and passthrough blocks, of indented literal paragraphs, of comment-free `[listing]`/`[literal]` paragraphs, literal table cells, and of inline literal monospace reaches the output character for character (as escaped text, or raw for passthrough blocks), trailing spaces apart: no formatting, replacement, macro, attribute reference, directive-looking line, comment, attribute entry, blank line, other delimiter or indentation in it is interpreted, dropped, joined or reordered; `indent` shifts all lines alike.",
  quant="all contents of verbatim constructs, in all nestings and positions",
  why="The same lexer, line reader and inline parser handle verbatim and normal text; every special token must be turned back into its source text in verbatim mode, which only an arbitrary-content search exercises.",
  files=["parser/src/tasks/parse_inlines/mod.rs","parser/src/tasks/parse_block.rs","parser/src/parser.rs","parser/src/lexer/root_lexer.rs","parser/src/tasks/parse_inlines/inline_preproc.rs","core/src/substitutions.rs","dr-html-backend/src/asciidoctor_html.rs"],
  mech=[("verbatim blocks","parser/src/tasks/parse_block.rs"),("inline parser","parser/src/tasks/parse_inlines/mod.rs"),("line reader","parser/src/parser.rs")],
  technique="random markup-heavy text put into every verbatim construct; the output text compared with the source text",
  note="Random lines made of markup fragments, in nested positions, both backends."),
 dict(id="C15", title="Inline markup is parsed as the tree it spells",
  statement="For every properly nested combination of constrained and unconstrained bold, italic, monospace and highlight (with roles and ids), sub- and superscript, curly quotes, character replacements, special characters, passthroughs, escapes, links, inline anchors, hard breaks and plain words and punctuation, spanning lines or not, and placed in a paragraph, list item, description term or text, section title, block title, table cell, AsciiDoc table cell, admonition, quote, verse or discrete heading, the HTML contains exactly that tree: same elements, nesting, attributes and text, nothing swallowed, duplicated or left as punctuation.",
  quant="all nested inline trees in all inline positions, both backends",
  why="Which mark opens or closes depends on neighbouring characters, on enclosing constructs, on text later in the paragraph and on the position; suites test pairs, users write combinations.",
  files=["parser/src/tasks/parse_inlines/mod.rs","parser/src/tasks/parse_inlines/inline_utils.rs","parser/src/tasks/parse_inlines/inline_preproc.rs","parser/src/line.rs","parser/src/lexer/source_lexer.rs","eval/src/eval.rs","dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs"],
  mech=[("inline parser","parser/src/tasks/parse_inlines/mod.rs"),("constrained and unconstrained marks","parser/src/line.rs"),("inline rendering","dr-html-backend/src/asciidoctor_html.rs")],
  technique="model-based generation: a random inline tree is rendered to AsciiDoc in a random position, the HTML output parsed back and compared with the tree",
  note="Ambiguous spellings are not generated; passthroughs containing an enclosing mark are not put on later lines of that mark's text (see DESIGN.md)."),
 dict(id="C16", title="Substitutions apply exactly when the subs in effect include them",
  statement="For every block or inline pass construct and every value of `subs` (any subset and order of names, shorthand letters, groups, and `+`/`-` modifiers on the default of the block kind), each kind of syntax in the text (special characters, quotes, attribute references, replacements, macros, hard breaks, callouts) is substituted in the output if and only if the subs in effect include it; otherwise it appears as written.",
  quant="all subsets of substitutions, spellings of them, block kinds and mixtures of syntax",
  why="Each of the inline constructs must check the right flag at the right place; seven flags times dozens of constructs times defaults per block kind cannot be enumerated by hand.",
  files=["core/src/substitutions.rs","parser/src/tasks/customize_subs.rs","parser/src/tasks/parse_inlines/mod.rs","parser/src/tasks/parse_inlines/inline_preproc.rs","parser/src/tasks/parse_block.rs"],
  mech=[("substitutions in effect","core/src/substitutions.rs"),("subs attribute","parser/src/tasks/customize_subs.rs"),("inline parser","parser/src/tasks/parse_inlines/mod.rs")],
  technique="random sub sets in random spellings on random block kinds; each syntax kind's output predicted from set membership by a reference model",
  note="One probe per syntax kind, mixed at random."),
 dict(id="C20", title="Conditional directives keep exactly the parts whose condition holds",
  statement="For every document with `ifdef`, `ifndef`, `ifeval` and `endif` directives (nested, single-line, with `,` and `+` lists, with matching or bare `endif`, around any range of lines including parts of blocks, verbatim content, lists, tables and attribute entries, with or without a final newline), the output and diagnostics equal those of the document in which the directives and the parts whose condition is false are deleted; the text in a false part, whatever it contains, has no effect; conditions follow the attribute values at that point, from the API, header or body.",
  quant="all documents, nestings and placements of conditionals, attribute states and ifeval expressions",
  why="Directives are processed line by line inside the block parser that looks ahead, groups, rewinds and restores lines; whether a conditional is transparent depends on every construct it can interrupt.",
  files=["parser/src/tasks/directives/ifdef.rs","parser/src/tasks/directives/ifeval.rs","parser/src/tasks/directives/mod.rs","parser/src/parser.rs","parser/src/tasks/parse_doc_attrs.rs","parser/src/lexer/source_lexer.rs"],
  mech=[("ifdef and ifndef","parser/src/tasks/directives/ifdef.rs"),("ifeval","parser/src/tasks/directives/ifeval.rs"),("reading lines","parser/src/parser.rs")],
  technique="metamorphic: random documents with random line ranges wrapped in true conditionals and junk in false ones must convert like the text that remains",
  note="Random block documents; mixed `ifndef` with `+` of defined and undefined names is left out (existing tests pin an order-dependent meaning)."),
 dict(id="C17", title="Includes are equivalent to writing the selected lines in place",
  statement="For every document of which any parts have been moved to (nested) include files, whole or as the lines selected by `lines` or `tag`/`tags`, in any supported encoding, line-ending style and directory, with optional includes of missing files in between, the output equals that of the document in one piece; relative `leveloffset` values of nested includes add up and shift headings only; `indent` re-indents the included lines as a whole; tag filters select the documented lines and never show tag directives; the nesting of includes, not their number, is limited by `max-include-depth`, and a directive that is not processed stays as text.",
  quant="all documents, splits into files, line and tag selections, offsets, indents and nestings",
  why="An include splices another source into a parser that peeks, groups and rewinds lines, in the middle of any construct; each combination of construct, selection and file ending is a separate path.",
  files=["parser/src/tasks/directives/includes/process_includes.rs","parser/src/tasks/directives/includes/normalize_includes.rs","parser/src/tasks/directives/includes/tags.rs","parser/src/tasks/directives/includes/target.rs","parser/src/lexer/root_lexer.rs","parser/src/tasks/heading_level.rs","parser/src/parser.rs"],
  mech=[("include directive","parser/src/tasks/directives/includes/process_includes.rs"),("line and tag selection","parser/src/tasks/directives/includes/tags.rs"),("level offsets","parser/src/tasks/heading_level.rs"),("source stack","parser/src/lexer/root_lexer.rs")],
  technique="metamorphic: random documents split at random into include files must convert like the document in one piece; reference models for tag filters, level offsets, indents and depths",
  note="Random block documents, up to five levels of includes; selections that contain no text are not generated (they are dropped by design), and filters are those with one documented reading."),
 dict(id="C02", title="Conversion depends only on the source and the settings",
  statement="Converting the same document with the same settings gives the same HTML and the same diagnostics in the same order, always: a second time, after any other document, in another thread, and while another document is being parsed in the same arena; nothing leaks from one conversion into the next.",
  quant="all documents, settings, intervening documents and threads",
  why="Hash-map iteration order, thread-local caches, global regexes and shared arenas can leak state or order into the result; one run of one document cannot show it.",
  files=["parser/src/parser.rs","parser/src/tasks/diagnose_document.rs","parser/src/tasks/anchors.rs","core/src/document_meta.rs","eval/src/eval.rs","dr-html-backend/src/asciidoctor_html.rs"],
  mech=[("parser state","parser/src/parser.rs"),("cross reference diagnostics","parser/src/tasks/diagnose_document.rs"),("attributes","core/src/document_meta.rs")],
  technique="metamorphic: random documents converted twice, with other random documents in between, in threads and in a shared arena; outputs and diagnostics must be identical",
  note="Documents rich in anchors, references and attributes; settings that ask for the current time are not used."),
 dict(id="C21", title="Line endings and invisible whitespace do not change the result",
  statement="For every document, LF and CRLF line endings, in any mixture, give the same HTML and the same diagnostics at the same lines; so do additional or missing final newlines, additional leading newlines (lines shifted accordingly), and trailing whitespace on lines and whitespace-only blank lines (trailing spaces in the output apart).",
  quant="all documents, well-formed or not, and all variations of line ends",
  why="The lexer, the line reader, the attribute-entry and delimiter recognisers and the include splicer each look for line ends on their own; a missed `\\r` or space shows up only in particular constructs.",
  files=["parser/src/lexer/source_lexer.rs","parser/src/lexer/root_lexer.rs","parser/src/parser.rs","parser/src/line.rs","parser/src/tasks/parse_doc_attrs.rs","parser/src/tasks/table/parse_table.rs"],
  mech=[("lexer","parser/src/lexer/source_lexer.rs"),("line reader","parser/src/parser.rs"),("lines","parser/src/line.rs")],
  technique="metamorphic: random and malformed documents rewritten with other line endings, blank lines and trailing whitespace must give the same output and diagnostics",
  note="Positions of diagnostics are not compared for documents with tables or examples (`===`), whose cells have approximate positions."),
 dict(id="C24", title="Independent parts convert the same together as apart",
  statement="For all sequences of blocks A, B, ... without references to each other, numbering or captions, the HTML of the document A B ... (as parts separated by breaks or as sections) is the concatenation of the HTML of A, B, ... on their own: no block's metadata, list, delimiter, attribute, id or parser state reaches into the next part; comments, comment blocks, false conditionals and attribute entries between them, whatever they contain, leave no trace.",
  quant="all sequences of independent blocks and all contents of comments and false conditionals between them",
  why="The parser keeps much state (peeked lines and metadata, list contexts, delimiters, verbatim and comment modes, callouts) that must be cleared at the end of each block for every combination of blocks.",
  files=["parser/src/parser.rs","parser/src/tasks/parse_block.rs","parser/src/tasks/parse_list.rs","parser/src/tasks/parse_section.rs","parser/src/tasks/table/parse_table.rs","dr-html-backend/src/asciidoctor_html.rs"],
  mech=[("block parser","parser/src/tasks/parse_block.rs"),("parser state","parser/src/parser.rs"),("lists","parser/src/tasks/parse_list.rs")],
  technique="metamorphic: random block documents joined with invisible junk in between must give the concatenation of their separate outputs",
  note="Captions switched off; random block documents of the shared generator."),
 dict(id="C19", title="Attribute references give the value in force at that point",
  statement="For every sequence of attributes set through the API (fixed or overridable), header and body attribute entries (set, empty, unset by either spelling, continued on further lines, in any letter case, referring to other attributes) and references anywhere in normal text: a reference is replaced by the value in force at that point, as resolved when it was set; API-fixed values never change; unset or unknown names follow `attribute-missing` (skip, drop, drop-line, warn with one warning each); escaped and verbatim references stay; replacing words of any document by references to attributes holding these words changes nothing.",
  quant="all histories of attribute entries and API attributes, all positions of references in documents",
  why="References are resolved while lines are read ahead, entries while blocks are parsed, in header, body, cells and delimited blocks; order and lookahead effects only appear in particular combinations.",
  files=["parser/src/tasks/attr_refs.rs","parser/src/tasks/parse_doc_attrs.rs","parser/src/tasks/parse_doc_header.rs","parser/src/tasks/parse_block.rs","parser/src/parser.rs","core/src/document_meta.rs","core/src/attrs.rs","core/src/job_attrs.rs"],
  mech=[("attribute references","parser/src/tasks/attr_refs.rs"),("attribute entries","parser/src/tasks/parse_doc_attrs.rs"),("precedence","core/src/document_meta.rs")],
  technique="model-based: random histories of entries, API settings and references compared with a reference model; metamorphic: words of random documents moved into attributes",
  note="Values are plain text, without inline markup that would be formatted; references are not the only content of a list item."),
 dict(id="C07", title="Sections nest, number and name themselves as their headings say",
  statement="For every article or book made of headings of any level (either marker, level offsets, parts, chapters, appendices and other special sections, discrete headings) with any text between them: each heading and paragraph appears once, in source order, inside exactly the sections that enclose it; the heading has the tag of its level, its roles, and its title; its number follows from the sections before it (sectnums, sectnumlevels, appendix letters, part and chapter signifiers, special sections unnumbered unless `all`), changing only where the attributes do; its id is the explicit one, or the one generated from the title with the prefix and separator in force, made unique; anchors and links refer to that id.",
  quant="all outlines, titles, explicit ids, level offsets and section attributes, changed at any point of the document",
  why="Nesting, ids, numbers and special sections interact over the whole document: parts followed by appendices followed by parts, ids colliding with generated ones, attributes toggled in between.",
  files=["parser/src/tasks/parse_section.rs","parser/src/tasks/parse_book.rs","parser/src/tasks/parse_book_part.rs","parser/src/tasks/section_id.rs","parser/src/tasks/heading_level.rs","backend/src/html/backend.rs","eval/src/eval.rs"],
  mech=[("sections","parser/src/tasks/parse_section.rs"),("books","parser/src/tasks/parse_book.rs"),("ids","parser/src/tasks/section_id.rs"),("numbers","backend/src/html/backend.rs")],
  technique="model-based: random outlines with attribute changes compared, heading by heading, with a reference model of nesting, numbers and ids",
  note="Sections out of sequence are not generated, nor links, anchors and attribute references in titles."),
 dict(id="C08", title="The table of contents mirrors the sections of the document",
  statement="For every document with a table of contents: it appears once, at the place `toc` says (start, after the preamble, at the macro), with its title and class; it has one entry per section down to `toclevels`, nested as the sections are, in their order, each with the text the heading has, number or caption included, and a link to the heading's id; discrete headings are not in it; a document without sections has none; and the table changes nothing about the sections themselves, wherever it is.",
  quant="all outlines, toc placements, depths, numberings and ids",
  why="Entries are collected while sections are parsed and numbered again when the table is written, before or between the sections; every mix of levels, special sections and placements must agree with the headings.",
  files=["parser/src/tasks/parse_section.rs","parser/src/tasks/parse_doc_header.rs","eval/src/eval.rs","backend/src/html/backend.rs","dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs"],
  mech=[("entries","parser/src/tasks/parse_section.rs"),("placement","eval/src/eval.rs"),("numbers","backend/src/html/backend.rs")],
  technique="model-based: random outlines with a table of contents compared with the reference model's tree of sections",
  note="`sectnums` is not changed between sections (the table uses the value of its own place); sections out of sequence are not generated."),
 dict(id="C09", title="Cross references and anchors find each other",
  statement="For every document: each id it defines (on sections, generated or explicit; on blocks through `[[id,text]]`, `[#id,reftext=..]` or `[id=..]`; inline anchors, the anchor macro, formatted text with an id, discrete headings; in list items, table cells, delimited blocks and included files) appears exactly once in the output, on the element it was given to; each cross reference to it (shorthand or macro, with or without `#`, before or after it, or through the path of the included file) is a link to `#id` whose text is the explicit one, else the reftext, else the title, else `[id]`; references into other documents get their path, with the prefix and suffix in force, and fragment; and exactly the references to missing ids and the second definitions of an id are reported.",
  quant="all documents with ids and references of any form, anywhere, in any order",
  why="Ids are collected by five different parsers and looked up when the output is written; any host (cell, list, included file) and order of definition and use may lose one side.",
  files=["parser/src/tasks/anchors.rs","parser/src/tasks/parse_inlines/mod.rs","parser/src/tasks/parse_attr_list.rs","parser/src/tasks/parse_section.rs","parser/src/parser.rs","eval/src/eval.rs","backend/src/html/backend.rs","dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs"],
  mech=[("anchors","parser/src/tasks/anchors.rs"),("references","parser/src/tasks/parse_inlines/mod.rs"),("links","eval/src/eval.rs")],
  technique="model-based: random documents with recorded ids, texts and references; every id and link in the output and every report compared with the record",
  note="References by the title of a section (natural cross references) are not generated: the implementation does not have them."),
 dict(id="C10", title="Footnotes are numbered, listed and linked both ways",
  statement="For every document with footnotes anywhere (text, titles, headings, lists, table cells, delimited blocks, included files, over several lines, held in attributes), with or without a table of contents: the first appearance of each gets the next number and the id `_footnoteref_N`; the list at the end has each footnote once, in the order of the numbers, with its text, formatted, and a link back; a named footnote (`footnote:name[text]`, referred to by `footnote:name[]`, before or after) is listed once and each further reference shows its number; every reference links to its entry; a footnote within another one is numbered before it; escaped, literal and verbatim ones are plain text; nothing is reported; without footnotes there is no list.",
  quant="all documents with footnotes and references to them, anywhere, in any order",
  why="Numbers depend on everything evaluated before, including nested documents, titles rendered out of place and text rendered twice (titles in the table of contents or in references).",
  files=["parser/src/tasks/parse_inlines/mod.rs","parser/src/line.rs","parser/src/tasks/attr_refs.rs","eval/src/eval.rs","backend/src/html/backend.rs","dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs"],
  mech=[("macro","parser/src/tasks/parse_inlines/mod.rs"),("numbers and list","dr-html-backend/src/asciidoctor_html.rs"),("evaluation","eval/src/eval.rs")],
  technique="model-based: random documents with recorded footnotes; numbers, ids, links and the list in the output compared with the record",
  note="Each named footnote is defined somewhere, always with the same text."),
 dict(id="C11", title="Callouts: numbers, where they are, and their lists",
  statement="In every verbatim block (listing, literal, fenced, source paragraph, styled open block; in containers, list items, AsciiDoc cells, included files), a callout (`<N>`, `<.>` numbered from 1 on, `<!--N-->`), alone or with others, at the end of a line becomes its number; a line comment in front (`//`, `#`, `--`, `;;`, `line-comment=`) stays in plain numbers and goes with font icons; anything else (in the middle of a line, escaped, malformed, without the substitution, outside of verbatim blocks) is plain text and the code is unchanged. A callout list has its items in order with their texts (as table with icons). An item is reported, at its line, if and only if no callout since the list before has its number or it is not one above the item before; after a list numbers start over.",
  quant="all documents with verbatim blocks, callouts and callout lists, for both backends and every icon setting",
  why="What a list refers to depends on every block since the list before, across nested documents (cells) and containers; whether `<1>` is a callout on everything after it in the line.",
  files=["parser/src/parse_context.rs","parser/src/tasks/parse_list.rs","parser/src/tasks/parse_inlines/mod.rs","parser/src/line.rs","parser/src/lexer/source_lexer.rs","dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs"],
  mech=[("numbers","parser/src/parse_context.rs"),("callouts","parser/src/tasks/parse_inlines/mod.rs"),("lists","parser/src/tasks/parse_list.rs")],
  technique="model-based: random documents with recorded callouts and lists; code, numbers, lists and reports in the output compared with the record",
  note="Numbers up to 255; written and automatic numbers are not mixed before one list."),
 dict(id="C13", title="Tables: rows, columns, spans, and what a cell is",
  statement="A prefix-separated table has exactly the cells written, in the rows and columns they tile (column and row spans, also overlapping ones; repeated cells; columns from `cols` or the first row), each with its text, colspan, rowspan, alignment (its own, else its column's) and style (d, a, e, h, l, m, s: its own, else its column's, none in a header): AsciiDoc cells render as the same blocks do in a document, literal cells keep lines, other cells their paragraphs. A first row is the header exactly if asked for or, without an explicit choice, set off by a blank line; the last is the footer exactly if asked for. Column widths (proportional, percent, auto), frame, grid, stripes, width and their document defaults show. Layout (which cells share lines, blank lines, comment lines, spaces), the order and form of attributes, and a custom separator make no difference; an escaped separator is text; what looks like a cell spec but is not set off by space is text.",
  quant="all rectangular tables over the described cells, layouts, separators and attributes, for both backends",
  why="Cells are found by looking ahead in a token stream with specs, separators and escapes, and rows from counted cells and spans: any combination can go wrong on its own.",
  files=["parser/src/tasks/table/parse_psv_table.rs","parser/src/tasks/table/parse_table.rs","parser/src/tasks/table/parse_table_spec.rs","parser/src/tasks/table/context.rs","parser/src/tasks/table/mod.rs","dr-html-backend/src/table.rs","backend-html5s/src/html5s.rs"],
  mech=[("cells","parser/src/tasks/table/parse_psv_table.rs"),("styles, headers","parser/src/tasks/table/parse_table.rs"),("spans","parser/src/tasks/table/context.rs")],
  technique="model-based: random grids tiled with cells and written in random layouts, the grid in the output compared with the model",
  note="Cells fill the grid, columns are alike where cells span them, each row starts a cell."),
 dict(id="C14", title="CSV, TSV and DSV tables hold the values written",
  statement="Values written as CSV (quoted when needed, doubled quotes, separators, newlines and blank lines in quotes, spaces around), TSV or DSV (escaped separators, other backslashes kept), with the format's or a custom separator, by `format` or delimiter, in the document or in an included file, come back as exactly these values, in the same rows and columns: empty ones included, wherever they are; separators and quotes that come from attribute values are text. Header, footer, column styles and alignment, widths and table attributes act as for other tables; records may be wrapped when columns are given; blank lines between records do not count except for the implicit header.",
  quant="all tables of values in the three formats, for both backends",
  why="A separator can be a part of any token of the lexer (words, macro names, list delimiters, whitespace): which texts go wrong depends on what is next to it.",
  files=["parser/src/tasks/table/parse_csv_table.rs","parser/src/tasks/table/parse_dsv_table.rs","parser/src/tasks/table/parse_table.rs","parser/src/tasks/table/mod.rs"],
  mech=[("csv","parser/src/tasks/table/parse_csv_table.rs"),("dsv","parser/src/tasks/table/parse_dsv_table.rs")],
  technique="round-trip: random values written in the format, the cells in the output compared with the values",
  note="Every record has a value for each column; trailing empty TSV values are quoted (trailing space is trimmed)."),
 dict(id="C06", title="Problems are reported where they are, and only there",
  statement="For every document and its included files: conversion reports exactly the problems it has - unresolved cross references, references to missing attributes, duplicate, empty or malformed ids and anchors, empty footnotes, bad index terms, callout list errors, sections and level-0 titles out of sequence, dangling continuations, unclosed or mismatched conditionals, blocks, tables and include tags, missing includes, malformed tables and attribute entries - and nothing for text in which such a construct is escaped, literal or commented out. Each diagnostic names the file, the number and the text of the line in which the problem is, and underlines the offending text within it (also in list items, cells, footnotes and included files, or regions of them, of any depth); printed, it has its carets below that text. In strict mode conversion fails exactly for documents with problems, with one of them.",
  quant="all placements of any number of problems in blocks, lists, tables, cells, sections, conditionals and included files; all documents",
  why="Tokens come from included, filtered, substituted and re-parsed sources; whether each of them still maps to its line depends on combinations of includes, tags, cells, directives and multibyte text that examples do not cover.",
  files=["parser/src/diagnostic.rs","parser/src/lexer/root_lexer.rs","parser/src/lexer/source_lexer.rs","parser/src/parser.rs","parser/src/tasks/table","parser/src/tasks/directives","parser/src/tasks/parse_inlines/mod.rs","parser/src/tasks/parse_block.rs","parser/src/tasks/parse_list.rs","parser/src/tasks/parse_section.rs"],
  mech=[("diagnostics","parser/src/diagnostic.rs"),("locations","parser/src/lexer/root_lexer.rs"),("cells","parser/src/tasks/table/parse_table.rs")],
  technique="model-based: problems planted at known places of random documents and includes, the set of diagnostics compared with them; invariants on the diagnostics of random documents",
  note="Random documents: the line, file and underlined range of each diagnostic must exist and match; strict mode against lenient mode."),
 dict(id="C23", title="The header's title, authors, revision and attributes reach the page",
  statement="For every document header - comments and attribute entries before and after the title, a title with any inline content (either marker), an author line of any number of authors (one to several names, underscores, initials, e-mail addresses) or an author attribute, a revision line in each of its forms, attributes set by entry or through the API - the attributes it defines (`author`, `firstname`, `lastname_2`, `authorinitials`, `authors`, `email`, `revnumber`, `revdate`, `revremark`, ...) have the values written; a standalone page has the title (as text in `<title>` or the `title` attribute, formatted in `h1` unless hidden), meta data, favicon, language, encoding, every author and e-mail address in order, the revision with its label, ISO date (in any time zone), body class, id and width, and the footer, each exactly once and none that was not set; embedded output has the content and, if asked for, the title.",
  quant="all headers, embedded and standalone, for both backends",
  why="Header lines are recognised by regular expressions and token kinds, and each part of the page depends on a combination of attributes from three sources; examples cover a few names and one setting at a time.",
  files=["parser/src/tasks/parse_doc_header.rs","parser/src/tasks/parse_author_line.rs","parser/src/tasks/parse_revision_line.rs","parser/src/tasks/parse_doc_attrs.rs","core/src/document_meta.rs","core/src/types.rs","backend/src/html/backend.rs","backend/src/time.rs","dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs","ast/src/inline_nodes.rs"],
  mech=[("header","parser/src/tasks/parse_doc_header.rs"),("authors","parser/src/tasks/parse_author_line.rs"),("page","backend/src/html/backend.rs")],
  technique="model-based: random headers and attributes, the page and attribute values predicted by a model",
  note="Runs in a time zone where it is another day than in UTC. Docinfo files, manpages and ids on the title are not judged."),
 dict(id="C29", title="Media, link and UI macros become the element their attributes describe",
  statement="For every image, icon, audio, video, link, URL, mailto, kbd, btn and menu macro (block or inline), however its attributes are ordered and quoted and wherever it is written, the output has the one element it describes: source with `imagesdir`/`iconsdir` applied, alternative text (given or derived from the name), size, alignment, roles, id, link target with window and `rel`, title and numbered caption, time range, player parameters each once, encoded subject and body, key and menu sequence - with every value as written, no attribute lost or leaking into another, and no macro source left over; a bare URL extends exactly to the punctuation or formatting mark that follows it.",
  quant="all macros with any attributes, for both backends",
  why="An attribute list is split by a tokenizer that knows quotes, escapes and brackets, its values are parsed as inlines, and each element combines several attributes; examples use plain words and one attribute at a time.",
  files=["parser/src/tasks/parse_attr_list.rs","parser/src/tasks/parse_image_block.rs","parser/src/tasks/parse_inlines/mod.rs","parser/src/line.rs","ast/src/attr_list.rs","backend/src/html/backend.rs","backend/src/html/htmlbuf.rs","backend/src/html/open_tag.rs","backend/src/html/video.rs","dr-html-backend/src/asciidoctor_html.rs","backend-html5s/src/html5s.rs","core/src/file.rs"],
  mech=[("attribute list","parser/src/tasks/parse_attr_list.rs"),("url","parser/src/line.rs"),("elements","backend/src/html/backend.rs")],
  technique="model-based: random macros, attributes, quoting and context against a model of the element",
  note="Server safe mode (icons). SVG inlining, data URIs, e-mail addresses with a hyphen, and attributes of the line above a block macro (other than id, role, title and link) are not judged."),
]
