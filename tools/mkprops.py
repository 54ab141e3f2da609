#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe_at or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Exactly the selected pages are converted, once each, in document order",
 "Converting a PDF with a page selection (an explicit list of pages, of which out-of-range ones are ignored, or else a start/end range with slice semantics) writes exactly the selected pages, each once, in ascending document order, and table extraction reads exactly the same pages; an empty selection selects no page. The outcome depends only on the selection, not on pages the same converter parsed before nor on the number of worker processes, which together parse exactly the selected pages. Page numbers given one-based on the command line select the same pages as their zero-based equivalents.",
 ["inputs", "configurations", "histories"],
 "every page count, every start/end/list of pages including empty, negative, duplicate and out-of-range ones, every history of earlier conversions on the same converter, every number of workers",
 "tests convert one selection of one document on a fresh converter without workers",
 ["pdf2docx/converter.py", "pdf2docx/main.py", "pdf2docx/page/Page.py"],
 [("Converter._page_indexes", "pdf2docx/converter.py"), ("Converter.parse", "pdf2docx/converter.py"), ("Converter.convert / extract_tables", "pdf2docx/converter.py"),
  ("Converter._parse_pages_per_cpu", "pdf2docx/converter.py"), ("Converter.make_docx", "pdf2docx/converter.py"), ("PDF2DOCX.convert / table", "pdf2docx/main.py")],
 ["sections and text of the saved docx", "return value of extract_tables"],
 [("page finalized flag", "page takes part in the docx", "Page._finalized")])

prop("C02", "A failing page never costs another page",
 "If analysing or writing one selected page raises an error, the conversion still finishes and saves the document: every other selected page is still analysed and written, in order. A page whose analysis failed contributes nothing to the document, even if the same page had been parsed successfully before. An error reaches the caller only when not a single selected page could be analysed.",
 ["inputs", "fault_sequences"],
 "every set of pages and every subset of them failing, in analysis or while being written",
 "no test makes a page fail",
 ["pdf2docx/converter.py", "pdf2docx/page/Page.py"],
 [("Converter.parse", "pdf2docx/converter.py"), ("Converter.make_docx", "pdf2docx/converter.py"), ("Page.parse", "pdf2docx/page/Page.py")],
 ["sections and text of the saved docx", "exceptions seen by the caller"])

prop("C03", "Only the requested docx is written; the source and other files stay intact",
 "A conversion creates or replaces exactly one file, the requested docx (by default the PDF's own name with its extension replaced by .docx), and never changes or removes the source PDF or any other file, with or without worker processes. If no page could be parsed, an already existing docx is left untouched.",
 ["inputs", "configurations", "fault_sequences"],
 "every PDF file name (any extension, dots and upper case included), explicit or default target, any files next to it, with or without workers, any failing pages",
 "tests always pass an explicit target in a folder of its own and look only at the target",
 ["pdf2docx/converter.py"],
 [("Converter.make_docx", "pdf2docx/converter.py"), ("Converter._parse_and_create_pages_with_multi_processing", "pdf2docx/converter.py")],
 ["the file system after the call"])

prop("C04", "Stored layout restores to the same document",
 "Storing parsed pages as JSON and loading them into another converter of the same PDF produces the same docx as writing the parsed pages directly: same sections, paragraphs, text runs and their formatting, images, links, tables, cell borders and shading. Loading the same data again, or into a converter that parsed other pages before, changes nothing.",
 ["inputs", "histories"],
 "every parsed layout (text, images, links, lattice and stream tables, nested tables, rotated pages), every number and order of load operations",
 "tests restore one page and compare a few numbers only",
 ["pdf2docx/converter.py", "pdf2docx/page/Page.py", "pdf2docx/page/Layout.py", "pdf2docx/page/Blocks.py", "pdf2docx/common/Block.py", "pdf2docx/common/Element.py",
  "pdf2docx/text/TextBlock.py", "pdf2docx/text/Line.py", "pdf2docx/text/Lines.py", "pdf2docx/text/Spans.py", "pdf2docx/text/TextSpan.py", "pdf2docx/text/Char.py", "pdf2docx/image/Image.py", "pdf2docx/table/TableBlock.py",
  "pdf2docx/table/Row.py", "pdf2docx/table/Cell.py", "pdf2docx/shape/Shape.py", "pdf2docx/shape/Shapes.py"],
 [("store / restore / __init__(raw) of every layout class", "pdf2docx")],
 ["document.xml of the saved docx"])

prop("C07", "Grouping yields exactly the connected components",
 "Whenever layout elements are grouped, two elements are in the same group exactly if a chain of related elements links them, and every element is in exactly one group. For grouping by connectivity, elements whose boxes, enlarged by the given tolerance, overlap in their interiors are related, and elements whose enlarged boxes do not even touch are not.",
 ["inputs"],
 "every number and arrangement of boxes (ties, nested, identical, lines), every tolerance that leaves the boxes ordered, every symmetric relation",
 "the sweep that finds intersecting boxes depends on the order and ties of all edges; tests run a few sample pages",
 ["pdf2docx/common/Collection.py", "pdf2docx/common/share.py"],
 [("BaseCollection.group / group_by_connectivity", "pdf2docx/common/Collection.py"), ("solve_rects_intersection, _stab, _report_pair, graph_bfs", "pdf2docx/common/share.py")],
 ["groups returned"])

prop("C14", "Colours are carried unchanged from PDF to docx",
 "A colour given as gray, RGB or CMYK components between 0 and 1 becomes the 24-bit RGB colour with these components, each truncated to 0..255, in red-green-blue order (CMYK: r=(1-c)(1-k) and so on). Splitting such a colour into components, and the six-digit hexadecimal colour written for text, underline, highlight, cell shading and cell borders, lose nothing.",
 ["inputs"],
 "every component value in 0..1 and every 24-bit colour, including those with leading zero digits",
 "tests see a handful of colours and look at none of the written ones",
 ["pdf2docx/common/share.py", "pdf2docx/common/docx.py", "pdf2docx/table/Cell.py", "pdf2docx/text/TextSpan.py"],
 [("rgb_value, rgb_to_value, cmyk_to_rgb, rgb_component", "pdf2docx/common/share.py"), ("set_cell_shading, set_char_shading, set_char_underline, set_cell_border", "pdf2docx/common/docx.py")],
 ["colour attributes in document.xml"])

prop("C15", "Box relations mean what they say",
 "Two boxes are aligned exactly if the overlap of their extents in the tested direction is at least the given fraction of the shorter extent; they are in the same row exactly if their text directions agree and neither centre line lies beyond the bottom of the other; a box is contained in another only if at least the given share of it is covered; two boxes are merged into their union exactly if their intersection reaches the given share of the smaller one. Alignment, same row and merging are symmetric, disjoint boxes are never contained or merged, and boxes are recorded to 0.1 pt without being changed by these tests.",
 ["inputs"],
 "every pair of boxes (touching, disjoint, nested, identical, degenerate), both text directions, every threshold in 0..1",
 "all layout decisions rest on these relations for boxes in general position, samples hit few of the boundary cases",
 ["pdf2docx/common/Element.py"],
 [("vertically_align_with, horizontally_align_with, in_same_row, contains, get_main_bbox, update_bbox, union_bbox, get_expand_bbox", "pdf2docx/common/Element.py")],
 ["return values"])

prop("C09", "No text is lost or duplicated",
 "Every non-blank character of left-to-right or bottom-up text that lies on a converted page is in the converted document exactly once, whatever columns, tables, shapes or images surround it and even if the text runs across the border of table cells; text printed over itself counts once. Words with a blank between them stay separate; in a single column, text appears in reading order, and in a table every character is in the cell its centre lies in. Only text in other directions, outside the page, or lying on top of the preceding line (beyond the overlap threshold of the settings) may be left out.",
 ["inputs"],
 "every arrangement of text, tables and images on a page, every position of a line relative to the cell borders, every order in which the text is stored in the PDF",
 "text passes through some fifteen regroupings (lines, blocks, cells, columns) that depend on positions; tests compare a few sample pages",
 ["pdf2docx/text/TextSpan.py", "pdf2docx/text/Line.py", "pdf2docx/text/Lines.py", "pdf2docx/text/Spans.py", "pdf2docx/table/TableBlock.py", "pdf2docx/table/Cell.py", "pdf2docx/page/Blocks.py", "pdf2docx/common/Collection.py"],
 [("Element.located_in, TextSpan.intersects, Line.intersects", "pdf2docx/common/Element.py, pdf2docx/text"), ("TableBlock.assign_blocks / _region", "pdf2docx/table/TableBlock.py"),
  ("Collection.split_with_intersection", "pdf2docx/common/Collection.py"), ("Lines.join", "pdf2docx/text/Lines.py"), ("Blocks.clean_up / assign_to_tables / parse_block", "pdf2docx/page/Blocks.py")],
 ["text of the saved docx"])

prop("C08", "Text marks style exactly the characters they cover",
 "A line, filled area or hyperlink area over text styles exactly the characters of which it covers more than half of the extent along the text, and leaves their order, font, size and colour and all other characters unchanged. A line within the bottom quarter of the text is an underline, a line around its centre a strike-through, and an area of at least half the text height that is not white and overlaps it substantially a highlight, in the colour of the mark; a hyperlink area makes its text a link to its address, together with any other style. Removing redundant blanks at the ends of a line removes only blanks beyond one.",
 ["inputs"],
 "every span (any number of characters of any width, including none), every position and kind of mark, both text directions, any number of marks over the same text",
 "tests look at a few underlined words; where a span is cut depends on every character box",
 ["pdf2docx/text/TextSpan.py", "pdf2docx/text/Char.py", "pdf2docx/text/Spans.py", "pdf2docx/text/Line.py", "pdf2docx/text/Lines.py", "pdf2docx/text/TextBlock.py"],
 [("TextSpan.split / _parse_text_format / lstrip / rstrip", "pdf2docx/text/TextSpan.py"), ("Char.contained_in_rect", "pdf2docx/text/Char.py"), ("Spans.strip", "pdf2docx/text/Spans.py"), ("TextBlock.parse_text_format", "pdf2docx/text/TextBlock.py")],
 ["runs of the saved docx and their properties"])

prop("C13", "Sections have the page's size and margins that fit its content",
 "Every converted page becomes one section, beginning on a new page, of exactly the size at which the page is displayed. Its left and right margins reach to the content (on the right less 1 pt) and its top and bottom margins to the configured fraction of the distance to the content, none below zero or above one inch; a page without content has margins of one inch. Alignment and indentation refer to the area within these margins.",
 ["inputs", "configurations"],
 "every page size, rotation, extent of text, images and shapes including content across the page edges, every margin factor in 0..1",
 "tests do not look at the sections",
 ["pdf2docx/page/Page.py", "pdf2docx/page/RawPage.py", "pdf2docx/common/Collection.py"],
 [("Page._cal_margin / working_bbox / make_docx", "pdf2docx/page/Page.py"), ("RawPage.raw_dict", "pdf2docx/page/RawPage.py")],
 ["section properties in document.xml"])

prop("C22", "Rotated pages are converted as displayed",
 "A page stored with a rotation attribute (90, 180 or 270 degrees) is converted like the same page stored upright: the same text with the same formatting and links, the same tables with their borders and shading, the same images and drawings at the same size, on a section of the displayed size. Text that is displayed from left to right or from bottom to top is kept in that direction.",
 ["inputs"],
 "every page with any content (text, marks, links, tables, images, drawings) and each of the four rotations",
 "no test has a rotated page; text, images, drawings and links are given in different coordinate systems",
 ["pdf2docx/page/RawPage.py", "pdf2docx/common/Element.py", "pdf2docx/text/Line.py", "pdf2docx/shape/Shape.py", "pdf2docx/shape/Path.py", "pdf2docx/image/ImagesExtractor.py"],
 [("Element.__init__ / set_rotation_matrix", "pdf2docx/common/Element.py"), ("RawPage.raw_dict / _preprocess_images / _preprocess_shapes", "pdf2docx/page/RawPage.py"), ("Line.__init__ / text_direction", "pdf2docx/text/Line.py"), ("ImagesExtractor", "pdf2docx/image/ImagesExtractor.py")],
 ["text, tables, pictures and sections of the docx"])

prop("C18", "Text keeps font, size, colour, weight, slant and superscript",
 "Each run written for text shows the colour, boldness, slant and superscript that the page gives to these characters, the font named there without subset prefix and style suffix, and a size rounded to half a point with character scaling making up for the difference. A marked run is additionally shown underlined, struck through or shaded in the colour of the mark, and a linked run leads to the link's target. Text that cannot be represented does not prevent the rest from being written.",
 ["inputs"],
 "every size, colour, flag combination, font name, mark, link and text including characters that XML excludes",
 "the sample files contain a few fonts and sizes, and no test reads the formats of the runs",
 ["pdf2docx/text/TextSpan.py", "pdf2docx/common/docx.py", "pdf2docx/font/Fonts.py"],
 [("TextSpan._set_text_format / make_docx", "pdf2docx/text/TextSpan.py"), ("set_char_scaling / set_char_shading / set_char_underline / add_hyperlink", "pdf2docx/common/docx.py")],
 ["w:rPr of the runs and w:hyperlink in document.xml"])

prop("C05", "Ruled tables keep lattice, sizes, borders, shading and contents",
 "A table ruled on the page, alone, among text, beside other tables or inside a cell, is one table of the document with the rows and columns drawn, exactly the row heights, column widths and left position drawn (the last row of the page gives 1 pt to the paragraph after it), and every cell contains just the content displayed in it. Each cell has the shading drawn and on each side a border of the width and colour drawn there, and none where none is drawn. Extracting tables gives the same texts cell by cell.",
 ["inputs"],
 "every lattice, every line width, colour and shading, lines drawn whole, piecewise or as filled rectangles, in every order, open sides, tables above each other and nested",
 "tests compare a few sample tables; cells depend on the position and order of every single line of the table",
 ["pdf2docx/table/TableStructure.py", "pdf2docx/table/TablesConstructor.py", "pdf2docx/table/TableBlock.py", "pdf2docx/table/Row.py", "pdf2docx/table/Cell.py", "pdf2docx/common/docx.py", "pdf2docx/shape/Shapes.py"],
 [("CellStructure.parse_borders / _get_border_stroke / parse_shading, TableStructure.to_table_block", "pdf2docx/table/TableStructure.py"), ("Cell.make_docx / _set_style, Row.make_docx, TableBlock.make_docx", "pdf2docx/table"),
  ("set_cell_border / set_cell_shading / set_cell_margins / indent_table", "pdf2docx/common/docx.py"), ("TablesConstructor.lattice_tables", "pdf2docx/table/TablesConstructor.py")],
 ["tables of the saved docx, result of extract_tables"])

prop("C06", "Merged cells partition the table",
 "Whichever inner borders of a ruled table are present, the cells of the converted table are disjoint rectangular ranges of its lattice that together cover it, and every row is complete. A rectangle of the lattice enclosed by borders without any border inside is one (merged) cell, lattices separated by a border are never merged across it where the regions are rectangles, and all text stays, once, in the cell displayed around it.",
 ["inputs"],
 "every pattern of present and missing inner borders (L-shaped, open and interlocked regions included), lines given in any order, whole or in pieces",
 "the samples contain a few plain merged cells; irregular regions made ranges overlap and lost pages",
 ["pdf2docx/table/TableStructure.py", "pdf2docx/table/Cell.py", "pdf2docx/table/Rows.py", "pdf2docx/table/Cells.py", "pdf2docx/table/TableBlock.py"],
 [("TableStructure._check_merged_cells / _count_merged_cells / _check_merging_status", "pdf2docx/table/TableStructure.py"), ("Cell.make_docx", "pdf2docx/table/Cell.py"), ("TableBlock.assign_blocks", "pdf2docx/table/TableBlock.py")],
 ["tables of the saved docx"])

prop("C19", "Settings take effect exactly as given, the others keep their defaults",
 "Every setting a caller gives takes effect, at the value given, on every page converted by that call (nested table cells, table extraction and worker processes included), and every other setting has its documented default; giving a default explicitly or an unknown setting changes nothing. The settings of one call have no effect on another one, and the caller's own settings object is never changed. Drawing the layout for debugging changes nothing in the document.",
 ["inputs", "histories"],
 "every setting and value, every combination of given and omitted settings, every sequence of conversions, every depth of nested tables",
 "tests run with the defaults; a threshold mixed up with its neighbour on the way to its step shows only in documents near that threshold",
 ["pdf2docx/converter.py", "pdf2docx/page/Page.py", "pdf2docx/page/RawPage.py", "pdf2docx/page/Layout.py", "pdf2docx/page/Blocks.py", "pdf2docx/table/TablesConstructor.py", "pdf2docx/table/TableStructure.py", "pdf2docx/text/TextBlock.py"],
 [("Converter.convert / parse / extract_tables / debug_page / _parse_pages_per_cpu", "pdf2docx/converter.py"), ("Page.init_settings / parse / extract_tables", "pdf2docx/page/Page.py"), ("Layout.clean_up / parse / _parse_layout_bottom_up / _parse_text_format", "pdf2docx/page/Layout.py"),
  ("Blocks.clean_up", "pdf2docx/page/Blocks.py"), ("TablesConstructor.lattice_tables / stream_tables", "pdf2docx/table/TablesConstructor.py"), ("TextBlock.parse_horizontal_spacing", "pdf2docx/text/TextBlock.py"), ("RawPage._preprocess_images / _preprocess_shapes", "pdf2docx/page/RawPage.py")],
 ["saved docx, result of extract_tables, stored layout"])

prop("C20", "The document body follows the page: order, separated tables, closing paragraph",
 "In every section the texts, tables and pictures of the page follow each other in the order of the page, each written once, as paragraphs and tables side by side in the body, and likewise inside every table cell. Two tables are always separated by a paragraph; a page that ends with a table is closed by exactly one small paragraph, every cell ends with a paragraph, and there are no other paragraphs without content. Overlapping pictures float over the text of the page they are on, never on another page.",
 ["inputs"],
 "every sequence of texts, tables and pictures on a page or in a cell, any number of adjacent tables, pages without any text before or after other pages",
 "the samples hold few adjacent tables and no page of pictures only; adjacent tables without a paragraph between them become one table in the word processor, which no check of the layout shows",
 ["pdf2docx/page/Blocks.py", "pdf2docx/page/Page.py", "pdf2docx/table/Cell.py", "pdf2docx/common/Collection.py"],
 [("Blocks.make_docx / identify_floating_images", "pdf2docx/page/Blocks.py"), ("Page.make_docx", "pdf2docx/page/Page.py"), ("Cell.make_docx", "pdf2docx/table/Cell.py"), ("ElementCollection.append / reset / sort_in_reading_order", "pdf2docx/common/Collection.py")],
 ["body of the saved docx"])

prop("C12", "Every row of a paragraph stands horizontally where it is drawn",
 "In the converted document, alignment, indents and tab stops of a paragraph place every row of the page where it is drawn: its start in a left aligned or justified paragraph, its end in a right aligned one, its middle in a centred one, within 2 pt, and the text area is wide enough for it. A row that leaves free space beyond the configured ratio is followed by exactly one line break; there is none within a row, after the last row or in rows that fill the line, and the words of successive rows never run together. This holds on pages, in table cells, in columns and for text read from bottom to top.",
 ["inputs"],
 "every number, width and place of rows; every alignment, first-line and hanging indent, any threshold; rows of several parts; horizontal and bottom-up text",
 "the layout tests compare a text similarity and the place of blocks in a few sample files; indents and tab stops depend on sums and differences of real positions for which samples take only one branch",
 ["pdf2docx/text/TextBlock.py", "pdf2docx/text/Lines.py", "pdf2docx/text/Line.py", "pdf2docx/common/docx.py"],
 [("TextBlock.parse_horizontal_spacing / _internal_alignment / _external_alignment", "pdf2docx/text/TextBlock.py"), ("TextBlock.make_docx", "pdf2docx/text/TextBlock.py"), ("Lines.parse_line_break / make_docx", "pdf2docx/text/Lines.py"), ("add_stop", "pdf2docx/common/docx.py")],
 ["paragraph formats, tabs and line breaks in the saved docx"])

prop("C11", "Paragraphs, tables and rows stand vertically where they are drawn",
 "In the converted document, the heights and spaces written for the content of a page or table cell add up to the positions on the page: the last row of every paragraph ends, and every table and each of its rows starts and ends, where it is drawn, within 1 pt and the rounding of the values above it; so does every row of a paragraph whose rows are evenly spaced, if there is room above it. This holds on pages with one or two columns, in table cells, between tables and for pages displayed turned, and the content fits the page it is written to. No space and no line or row height is negative, also where content overlaps.",
 ["inputs"],
 "every number, size and distance of paragraphs, rows, tables and cells, every border width; pages, cells, columns, rotations",
 "the layout tests compare text positions in a few sample files by overlap; spacing is computed from differences of consecutive positions, where an error in one place shifts everything below it in any other layout",
 ["pdf2docx/text/TextBlock.py", "pdf2docx/page/Blocks.py", "pdf2docx/table/Row.py", "pdf2docx/table/TablesConstructor.py", "pdf2docx/common/docx.py"],
 [("Blocks.parse_spacing / make_docx", "pdf2docx/page/Blocks.py"), ("TextBlock.parse_line_spacing / make_docx", "pdf2docx/text/TextBlock.py"), ("Row.make_docx", "pdf2docx/table/Row.py"), ("TablesConstructor.page_layout_table", "pdf2docx/table/TablesConstructor.py")],
 ["paragraph spacing, row heights and page margins in the saved docx"])

prop("C21", "A page is converted the same, whatever is converted before or with it",
 "A page gives the same section of the document whether it is converted alone, with any other pages before and after it, by one process or several, by a fresh converter or one used before for other pages, settings, restored layouts or table extraction, and whatever other documents are converted in the same process. An error in one page leaves no trace on other pages, nor on later conversions of the same page. The opened PDF itself (text, drawings, rotation, rendering of its pages) is unchanged by conversion.",
 ["history", "inputs", "faults"],
 "every document, selection and order of pages, every history of calls on one or several converters with any settings, every place in a page where reading its source fails",
 "the tests convert each sample once with a fresh converter; what is left behind (cached parts, the rotation of the last page, hidden text, settings) only shows in the next conversion",
 ["pdf2docx/page/RawPage.py", "pdf2docx/page/Page.py", "pdf2docx/page/Layout.py", "pdf2docx/shape/Shapes.py", "pdf2docx/common/Element.py", "pdf2docx/image/ImagesExtractor.py", "pdf2docx/converter.py"],
 [("RawPage.raw_dict / _get_drawings", "pdf2docx/page/RawPage.py"), ("Page.parse / restore / init_settings", "pdf2docx/page/Page.py"), ("Shapes.restore / detect_initial_categories", "pdf2docx/shape/Shapes.py"), ("ImagesExtractor._clip_page", "pdf2docx/image/ImagesExtractor.py"), ("Element.set_rotation_matrix", "pdf2docx/common/Element.py"), ("Converter.parse / restore", "pdf2docx/converter.py")],
 ["sections of the saved docx", "the fitz document held by the Converter"])

prop("C10", "Every picture is in the document, with its pixels, transparency, size and place",
 "Every picture drawn on a page (also inside other content, several times, exactly on another, grey, RGB or CMYK, with a mask of any size) is once in the document for each time it is drawn, in the section of its page, and shows the same pixels with the same transparency, in the width and height it has on the page. A picture that overlaps other content floats at its place on the page; any other is in line, and one drawn in a table cell is in that cell. This holds on pages displayed turned, and no other picture is added.",
 ["inputs"],
 "every list of pictures of a page with any resources, sizes, masks, colour spaces and boxes; every page rotation; every grouping with other content",
 "the tests convert a few samples and compare the number of pictures at most; pixels, masks, repeated, stacked or nested pictures are not compared",
 ["pdf2docx/image/ImagesExtractor.py", "pdf2docx/image/Image.py", "pdf2docx/image/ImageBlock.py", "pdf2docx/image/ImageSpan.py", "pdf2docx/page/RawPage.py", "pdf2docx/page/Blocks.py", "pdf2docx/common/docx.py"],
 [("ImagesExtractor.extract_images / _recover_pixmap / _to_raw_dict", "pdf2docx/image/ImagesExtractor.py"), ("RawPage._preprocess_images", "pdf2docx/page/RawPage.py"), ("ImageBlock.to_text_block / from_text_block / make_docx", "pdf2docx/image/ImageBlock.py"), ("ImageSpan.intersects", "pdf2docx/image/ImageSpan.py"), ("Blocks.identify_floating_images / make_docx", "pdf2docx/page/Blocks.py"), ("add_image / add_float_image", "pdf2docx/common/docx.py")],
 ["inline and anchored drawings of the saved docx, and their media"])

prop("C17", "Curved drawings become pictures; lines, rectangles and text stay what they are",
 "Every connected drawing of a page with more than the configured share of paths that are not along the page or rectangular is whole in a picture of the document, unless it lies on a picture or shaded cell; the picture shows exactly what the page shows there without its text, as large as there, at its place if it floats, and in the table cell the drawing is in. Horizontal and vertical lines and rectangles never become pictures: they stay lines and areas of the extent, width and colour drawn. Text on, in or around drawings stays text, once, also in pages shown within the page, and all of this holds on pages displayed turned.",
 ["inputs"],
 "every list of drawing commands with any coordinates, widths and colours, every grouping of paths and every share, every page rotation",
 "the tests convert a few samples and count pictures and tables at most; what a picture shows, its size and the hidden text are not compared, nor are shares other than the default",
 ["pdf2docx/shape/Path.py", "pdf2docx/shape/Paths.py", "pdf2docx/shape/Shape.py", "pdf2docx/shape/Shapes.py", "pdf2docx/page/RawPage.py", "pdf2docx/image/ImagesExtractor.py"],
 [("Path / Segments / L / R", "pdf2docx/shape/Path.py"), ("Paths.restore / contains_curve / to_shapes", "pdf2docx/shape/Paths.py"), ("Stroke, Fill.to_stroke", "pdf2docx/shape/Shape.py"), ("RawPage._preprocess_shapes / _get_drawings", "pdf2docx/page/RawPage.py"), ("ImagesExtractor.extract_vector_graphics / _hide_page_text / _clip_page", "pdf2docx/image/ImagesExtractor.py")],
 ["drawings and tables of the saved docx, and the pixels of its media"])

open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
