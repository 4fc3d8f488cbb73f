#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list is edited here and regenerated."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        }})

prop("C01", "Every produced file is a structurally valid PDF",
 "Whatever sequence of calls built the document, the bytes produced are a well-formed PDF: header, cross-reference table with exact byte offsets, trailer, objects that parse, stream lengths that are exact and data that decodes, and no reference to an object that does not exist. The catalog, the page tree with its count, and every page's contents, resources, annotations, fonts, images, graphics states and outlines are well-typed and mutually consistent, and every name used in a content stream is defined in that page's resources. Content streams use only known operators with the right operands, with text and graphics-state brackets balanced.",
 ["histories", "inputs", "configurations"],
 "All histories of drawing, font, image, page, link, outline, info, transparency, import and compression calls, all unit/page-size/protection/compression configurations, all names given by the caller for fonts and colour spaces.",
 "The existing tests write a file and check that no error was returned; nothing parses the result, and offsets, counts and cross-references depend on the whole history of calls.",
 ["gopdf.go", "content_obj.go", "pages_obj.go", "page_obj.go", "procset_obj.go", "catalog_obj.go", "outlines_obj.go", "annot_obj.go", "image_obj.go", "image_obj_parse.go", "smask_obj.go", "ext_g_state_obj.go", "transparency_xobject_group.go", "pdf_dictionary_obj.go", "unicode_map.go", "cid_font_obj.go", "subfont_descriptor_obj.go", "color_space_obj.go", "device_rgb_obj.go", "imported_obj.go"],
 [("object numbering by position, offsets recorded while writing, xref and trailer", "gopdf.go compilePdf, xref, prepare, addObj"), ("per-object writers", "*_obj.go write")],
 ["bytes returned by the output methods, parsed by an independent strict PDF parser"])

prop("C02", "Pages come out in order, right-sized, each with exactly its own content",
 "The document has exactly one page per page-adding call, in call order, and the reported number of pages agrees; each page has the size and trim box in force when it was added (the one given with the page, otherwise the document default). Everything drawn appears exactly once, in drawing order, on the page that was current at the time (the most recently added, or the one selected with the page-selection call, pages being numbered from 1), measured from that page's top-left corner, and selecting a page that does not exist is an error that changes nothing. Header and footer functions run exactly once per added page and draw on that page.",
 ["histories", "configurations"],
 "All interleavings of page additions with and without options, page selections, drawing calls, and header/footer registrations, including pages left empty.",
 "Tests select a page once on a document where every page has content; the mapping from pages to content depends on the entire history (empty pages, drawing before the first page, different sizes).",
 ["gopdf.go", "page_obj.go", "pages_obj.go", "page_option.go", "content_obj.go"],
 [("attachment of content to pages when preparing output", "gopdf.go prepare"), ("current page/content tracking", "gopdf.go AddPageWithOption, SetPage, getContent")],
 ["page tree and page contents of the parsed output", "GetNumberOfPages", "SetPage error"])

prop("C03", "All output methods produce the same bytes, repeatably and without side effects",
 "For any document state every way of obtaining the output (writing to a stream, writing to a file, getting bytes, reading piecewise with any buffer sizes) yields exactly the same bytes, and obtaining the output any number of times yields the same bytes again and does not change what later calls draw or what a later output contains. Building the same document again with the same calls yields the same bytes.",
 ["histories", "inputs", "configurations"],
 "All documents, all interleavings of output calls with drawing calls, all read-buffer sizes, all numbers of repetitions.",
 "Tests output each document once, by one method; the second and later outputs and their interleaving with drawing are never looked at.",
 ["gopdf.go", "content_obj.go", "pages_obj.go", "cache_content_imported_object.go", "procset_obj.go", "encryption_obj.go", "buffer_pool.go", "arabic_helper.go"],
 [("preparation step before each output", "gopdf.go prepare"), ("buffered reader", "gopdf.go Read, Close")],
 ["bytes of GetBytesPdf, GetBytesPdfReturnErr, WriteTo, Write, Read, WritePdf"])

prop("C04", "A failing destination is always reported, with the exact byte count",
 "When the destination of an output fails at any point, after any number of bytes, in one call or many, temporarily or for good, the streaming output method returns a non-nil error together with the number of bytes the destination accepted, and never reports success for an output that was not completely accepted. After such a failure the document is intact: writing it again to a working destination gives the complete correct bytes.",
 ["fault_sequences", "crash_points", "inputs"],
 "Every byte position at which the destination can fail, every kind of failure (error with or without partial progress, short write, transient), every document.",
 "No test writes to a destination that fails; the failing position ranges over every byte of every object.",
 ["gopdf.go", "content_obj.go", "image_obj.go", "pdf_dictionary_obj.go", "unicode_map.go"],
 [("counting writer around the destination", "gopdf.go compilePdf, countingWriter, xref")],
 ["error and count returned by WriteTo, Write, WritePdf", "bytes the destination received"])

prop("C05", "Text in the output is exactly the text that was drawn",
 "For any string drawn with an embedded font, the glyphs shown in the page are, in order, the glyphs the font assigns to the string's characters, and extracting the text through the font's character map gives back the drawn string, including characters outside the basic multilingual plane (characters for which the font uses one and the same glyph read back as one of them). A character the font lacks is reported once per occurrence to the not-found callback and replaced by the configured substitute (a space by default), never dropped, and the other characters are unaffected.",
 ["inputs", "histories", "configurations"],
 "All strings over all characters, all fonts (including fonts with sparse, multi-range or supplementary-plane character maps), all substitution configurations, text spread over any number of calls, styles and pages.",
 "Tests draw a few fixed strings with one font and do not decode the result.",
 ["subset_font_obj.go", "unicode_map.go", "map_of_character_To_glyph_index.go", "cache_content_text.go", "list_cache_content.go", "fontmaker/core/ttfparser.go", "ttf_option.go"],
 [("character registration and lookup", "subset_font_obj.go AddChars, CharCodeToGlyphIndex"), ("character map written with the font", "unicode_map.go write"), ("text merge and encoding", "list_cache_content.go, cache_content_text.go write")],
 ["glyph codes in the content streams", "ToUnicode map", "not-found callback"])

prop("C06", "Embedded fonts render the used glyphs exactly as the original font",
 "For every font in the output the embedded font program is a valid TrueType file in which every glyph used by the text, and every glyph reachable from it through composite glyphs, has byte-for-byte the outline and the metrics it has in the original font. The widths declared for the used glyphs equal the font's own advance widths, and the declared font-wide metrics and names agree with the original font.",
 ["inputs", "configurations", "histories"],
 "All TrueType fonts that are accepted (short and long offsets, fewer metrics than glyphs, nested composites, any table order and padding, any units per em), all sets of used characters, all registration orders.",
 "Tests embed one font and never open the embedded program.",
 ["pdf_dictionary_obj.go", "cid_font_obj.go", "subfont_descriptor_obj.go", "subset_font_obj.go", "fontmaker/core/ttfparser.go", "font_container.go"],
 [("subset builder", "pdf_dictionary_obj.go makeFont, completeGlyphClosure, AddCompositeGlyphs"), ("width array", "cid_font_obj.go write")],
 ["FontFile2 stream, /W array and font descriptor in the parsed output"])

prop("C07", "Measured text size equals what is drawn",
 "The measured width of a string in the current font, size and character spacing is the distance the drawn string occupies on the page, including kerning, and is what the current position advances by when the string is drawn. Measuring never moves the current position or draws anything, scales linearly with font size, and the measured height is the font's ascender-to-descender height at that size.",
 ["inputs", "configurations", "histories"],
 "All strings, fonts, sizes, character spacings, kerning settings and overrides, and units.",
 "Tests compare a handful of fixed widths; the agreement between measuring and drawing must hold for all strings and settings.",
 ["gopdf.go", "cache_content_text.go", "subset_font_obj.go", "content_obj.go", "list_cache_content.go", "fontmaker/core/kern_table.go"],
 [("shared measuring routine", "cache_content_text.go createContent"), ("kerning", "cache_content_text.go kern, content_obj.go convertTTFUnit2PDFUnit")],
 ["MeasureTextWidth, MeasureCellHeightByText, GetX", "glyph positions in the parsed output"])

prop("C08", "Every text call renders at its own place with its own style",
 "Each text or cell call shows its text at the position current when it was called: text starts with its baseline at the current point, a cell places its text inside its rectangle according to the horizontal and vertical alignment, draws exactly the requested borders and moves the current position as its float option says. Font, size, style, underline, text colour and character spacing are those in force at that call, and no call changes how any other call's text is rendered, however the calls are interleaved with cursor moves, style changes and other drawing.",
 ["histories", "inputs", "configurations"],
 "All sequences of text, cell and cell-with-option calls mixed with position, font, colour, spacing, underline and page changes; all alignment, border and float combinations; all rectangles.",
 "Consecutive text calls are merged internally; whether merging is invisible depends on the pair of calls, and tests never inspect positions or styles in the output.",
 ["cache_content_text.go", "list_cache_content.go", "content_obj.go", "gopdf.go", "cell_option.go", "current.go"],
 [("merging of adjacent text", "list_cache_content.go appendContentText, cache_content_text.go isSame"), ("placement", "cache_content_text.go calX, calY, drawBorder, underline")],
 ["text, line and fill operations in the parsed output", "GetX, GetY"])

prop("C09", "Splitting text into lines loses nothing, fits the width and terminates",
 "Splitting any text for any width ends and returns lines which, put back together (without the line breaks and inserted separators), are the original text in order with nothing lost, duplicated or reordered, apart from blanks a word break consumes where documented. Each line's measured width is within the requested width unless the line is a single character that is too wide by itself; existing newlines always break, lines are as long as the width permits, and with word wrap a word (with the blanks kept before it) is broken only if it cannot fit on a line by itself. A line that ends with an inserted separator may be one character shorter than possible.",
 ["inputs", "configurations"],
 "All texts, widths (including narrower than a character), fonts, sizes, break modes, indicators and separators.",
 "Tests split a few fixed sentences at comfortable widths.",
 ["gopdf.go", "break_option.go"],
 [("splitting loop and break helpers", "gopdf.go SplitTextWithOption, performIndicatorSensitiveLineBreak, performStrictLineBreak")],
 ["lines returned by SplitText, SplitTextWithWordWrap, SplitTextWithOption"])

prop("C10", "Multi-line cells draw all lines in order inside the cell; fit checks agree",
 "A multi-line cell shows its text line by line, top to bottom, in order, each line no wider than the rectangle and one line height below the previous, and leaves the current position at the start column below the last line drawn (with the default float). The fit check says yes exactly when the multi-line cell draws the whole text within the rectangle's height, and the height it then reports is the number of lines times the line height; the option variant draws exactly the lines the splitter returns, each aligned as asked, and the block of lines as a whole at the top, middle or bottom of the rectangle. Justified lines end flush with both edges of the cell, except the last line, which is left-aligned.",
 ["inputs", "configurations"],
 "All texts, rectangles, fonts, sizes, spacings, alignments, break options and units.",
 "Tests check a few fixed texts for absence of errors; the agreement between the fit check, the splitter and the drawing is never compared.",
 ["gopdf.go", "cache_content_text.go", "break_option.go", "cell_option.go"],
 [("line filling", "gopdf.go MultiCell, IsFitMultiCell, IsFitMultiCellWithNewline, MultiCellWithOption"), ("justification", "cache_content_text.go justifyAdjustment, interiorSpaceCount, lineAlign")],
 ["text operations in the parsed output", "results of IsFitMultiCell and IsFitMultiCellWithNewline", "GetX, GetY"])

prop("C11", "Embedded images keep their pixels, colours and transparency",
 "For every image accepted (PNG of every colour type and bit depth, JPEG, GIF, or a decoded image, from a file, bytes or reader) the image object in the document decodes to exactly the pixel dimensions, colours and alpha of the source image; JPEG data is embedded unchanged; a mask given with the call takes the place of the image's own transparency. An image used several times is embedded once and two different images are never confused, in whatever order, on whatever pages and by whatever entry point they are drawn.",
 ["inputs", "histories"],
 "All image contents, sizes, colour types, bit depths, palettes, filter types, chunk layouts; all sequences of image calls mixing new and repeated images.",
 "Tests insert a few sample files and check that no error is returned; pixel data is never compared.",
 ["image_obj.go", "image_obj_parse.go", "smask_obj.go", "device_rgb_obj.go", "image_holder.go", "gopdf.go"],
 [("PNG chunk parser and alpha split", "image_obj_parse.go parsePng"), ("image cache by identity", "gopdf.go imageByHolder, maskHolder")],
 ["image XObjects in the parsed output, decoded independently"])

prop("C12", "Images appear in the requested rectangle with crop, flip, rotation and mask",
 "Each image call paints its image exactly once, filling exactly the requested rectangle measured from the page's top-left corner (its natural size when no rectangle is given), and flipping mirrors it in place, cropping shows only the requested window of the (flipped) image, rotation turns it about the centre of its visible rectangle, and a mask limits it to the mask image placed as requested. The options given by the caller are not modified, and no image call affects how anything else is drawn.",
 ["inputs", "histories", "configurations"],
 "All positions, sizes, crops, flips, angles, mask placements, transparencies, units and combinations, over sequences of image and other drawing calls.",
 "Tests draw a few images at fixed places and do not inspect the transformation matrices or clips.",
 ["cache_content_image.go", "cache_content_rotate.go", "gopdf.go", "transparency_xobject_group.go", "smask_obj.go"],
 [("image matrix, clip and flip computation", "cache_content_image.go write"), ("mask construction", "gopdf.go maskHolder, createTransparencyXObjectGroup")],
 ["image operations with their matrices and clips in the parsed output", "caller's option values after the call"])

prop("C13", "Protected documents decrypt to the same document with either password",
 "A protected document opens with the user password and with the owner password and with no other, declares exactly the requested permissions, and after decryption every string and stream equals that of the same document built without protection. Every string and stream of the protected file is encrypted, no text of the document appears in clear, and the caller's passwords are not modified.",
 ["inputs", "configurations", "histories"],
 "All user and owner passwords (empty, short, longer than the significant length, binary), all permission sets, all documents including images with masks, links, outlines, information, colour spaces and imported pages.",
 "Tests only check that a protected file is written; nothing ever decrypts one.",
 ["pdf_protection.go", "encryption_obj.go", "gopdf.go", "content_obj.go", "image_obj.go", "smask_obj.go", "device_rgb_obj.go", "unicode_map.go", "pdf_dictionary_obj.go", "annot_obj.go", "outlines_obj.go"],
 [("key derivation", "pdf_protection.go"), ("per-object encryption", "*_obj.go write, pdf_protection.go objectkey, rc4Cip")],
 ["encryption dictionary, strings and streams of the parsed output, decrypted by an independent implementation"])

prop("C14", "Shapes are drawn with the requested geometry and painting attributes",
 "Each line, rectangle, rounded rectangle, oval, curve and polygon call paints exactly the described figure, measured from the page's top-left corner, once and in call order, stroked and/or filled as its style says, with the line width, dash pattern and stroke and fill colours (gray, RGB, CMYK or named) set most recently on that page. Rotation turns everything drawn until its reset about the given centre by the given angle, a clip restricts what is drawn until the saved state is restored, restoring brings back all saved attributes, and invalid rectangles are rejected with an error and draw nothing.",
 ["histories", "inputs", "configurations"],
 "All sequences of shape, attribute, rotation, clip and save/restore calls with all coordinates, colours, styles, dash patterns and page sizes.",
 "Tests draw sample shapes and do not interpret the resulting operations.",
 ["gopdf.go", "content_obj.go", "cache_content_line.go", "cache_content_rectangle.go", "cache_content_oval.go", "cache_contnent_curve.go", "cache_content_polygon.go", "cache_content_rotate.go", "cache_content_clip.go", "cache_content_line_type.go", "cache_content_custom_line_type.go", "cache_content_line_width.go", "cache_contact_color_rgb.go", "cache_content_color_cmyk.go", "cache_content_gray.go", "cache_color_space.go", "style.go"],
 [("operation writers", "cache_content_*.go write"), ("rounded corner construction", "gopdf.go Rectangle")],
 ["path operations with graphics state in the parsed output, interpreted independently"])

prop("C15", "Transparency applies to exactly the drawing it was set for",
 "Drawing done with a transparency in force, whether set for the document until cleared or given with a single call, is painted with exactly that opacity and blend mode, for strokes and fills alike, and a call's own transparency takes precedence over the document's. Drawing done without one is painted fully opaque in normal mode, and no transparency ever leaks to other calls, pages or documents, however many different transparencies are used, repeated or changed by the caller afterwards.",
 ["histories", "inputs"],
 "All sequences of setting and clearing transparency and of drawing calls that accept it (lines, polygons, rectangles with options, cells, images, masks), all opacity values and blend modes.",
 "Tests set one transparency and check for absence of errors; the sharing of graphics states between calls depends on the history.",
 ["transparency.go", "ext_g_state_obj.go", "gopdf.go", "cache_content_text.go", "cache_content_image.go", "cache_content_rectangle.go", "cache_content_line.go", "cache_content_polygon.go"],
 [("graphics-state cache", "transparency.go, ext_g_state_obj.go"), ("document-wide transparency", "gopdf.go SetTransparency, getCachedTransparency")],
 ["graphics state of every painting operation in the parsed output"])

prop("C16", "The unit of measure changes nothing but the numbers",
 "Describing the same document in points, millimetres, centimetres, inches, pixels or a custom conversion yields the same drawing up to rounding of the last digit, for every call that takes or returns a length, and every length returned (positions, margins, measurements) is in the document's unit and consistent with lengths passed in. Predefined page sizes keep their physical size in every unit, and arguments passed by the caller are never modified by the conversion.",
 ["configurations", "inputs", "histories"],
 "All units and conversion factors, all calls with length arguments or results, all values.",
 "Tests convert a few numbers; whether every call converts every argument exactly once needs whole documents in all units.",
 ["config.go", "rect.go", "box.go", "margin.go", "gopdf.go", "page_sizes.go", "content_obj.go"],
 [("conversion helpers", "config.go unitsToPoints, pointsToUnits"), ("conversion at each entry point", "gopdf.go")],
 ["parsed output compared between units", "values returned by getters and measuring calls", "caller's arguments after the call"])

prop("C17", "Links, anchors and outlines lead where they were told to",
 "Every external link appears on the page it was added to, with the requested rectangle and exactly the given address, and every internal link leads to the page and height at which its anchor was set, whether the anchor was set before or after the link. The outline shown has every entry once, in order, with the nesting built by the caller and well-formed parent, sibling and child links, and each entry leads to the page (and position) where it was added.",
 ["histories", "inputs", "configurations"],
 "All sequences of link, anchor, outline and page calls with pages of any size, all addresses and names, all outline trees.",
 "Tests create one link or a fixed outline; the link graph depends on the full history and is never read back.",
 ["annot_obj.go", "outlines_obj.go", "gopdf.go", "page_obj.go", "link_option.go"],
 [("annotation and destination writing", "annot_obj.go"), ("outline tree linking", "outlines_obj.go AddOutline, AddOutlinesWithPosition, Parse")],
 ["annotations, destinations and outline objects in the parsed output"])

prop("C18", "Document information and outline titles survive for all Unicode text",
 "The title, author, subject, creator, producer and creation date set for the document, and the title of every outline entry, read back from the output exactly as given for every Unicode string, including characters outside the basic multilingual plane and text that looks like document syntax, and fields not set are absent. The information set last wins and reading it back from the document object returns what was set.",
 ["inputs", "histories"],
 "All Unicode strings, all dates and time zones, all combinations of fields set or not, repeated setting.",
 "Tests use ASCII and a few fixed non-ASCII letters and check the encoder's output against itself.",
 ["gopdf.go", "outlines_obj.go", "pdf_info_obj.go"],
 [("Unicode text string encoding", "gopdf.go encodeUtf8, writeInfo, infodate"), ("outline titles", "outlines_obj.go write")],
 ["/Info dictionary and outline titles in the parsed output", "GetInfo"])

prop("C19", "Placeholders are filled with the right text at the right place",
 "Text filled into a named placeholder appears on the page, at the position and in the font, size, colour and spacing in force where the placeholder was created, aligned left, centred or right within the placeholder's width, once for every placeholder with that name, and replaces any earlier fill of it. Creating a placeholder advances the current position by its width, filling does not disturb other drawing, other placeholders or the current position and font, an unfilled placeholder shows nothing, and filling an unknown name is an error.",
 ["histories", "inputs", "configurations"],
 "All sequences of creating and filling placeholders, interleaved with drawing, font, page and unit changes, all texts, widths and alignments, repeated fills.",
 "Tests fill placeholders once, immediately, with the font still selected and in points.",
 ["placeholder.go", "gopdf.go", "content_obj.go", "list_cache_content.go", "cache_content_text.go"],
 [("placeholder registry and fill", "gopdf.go PlaceHolderText, FillInPlaceHoldText")],
 ["text operations in the parsed output", "GetX, GetY, error results"])

prop("C20", "Tables show every cell's text in its row and column",
 "Drawing a table shows every header and every cell text inside its own column and row, in order, aligned as its column says, rows below each other at the row height and columns next to each other at their widths, with the requested fills, borders and text colours from the styles that apply to it (the cell's own before the table-wide one, the header's for the header). The table starts at the requested position, every added row is drawn and enclosed by the table's border, a table that cannot be drawn as described (a row longer than the columns, an unknown font) is an error, and drawing the table leaves what was drawn before unaffected.",
 ["inputs", "configurations", "histories"],
 "All column layouts, row counts, cell texts, styles, borders, alignments and start positions.",
 "Tests draw a few tables and compare nothing but the absence of errors.",
 ["table.go"],
 [("table layout", "table.go DrawTable")],
 ["text and path operations in the parsed output"])

prop("C21", "Arabic text shaping follows the joining rules and loses no letter",
 "Shaping any text replaces each letter of the Arabic alphabet (and each supported Persian letter) by its isolated, initial, medial or final form as determined by whether its neighbours join, forms the four mandatory lam-alef ligatures, and keeps every other character. The result lists the characters of the text from last to first, with the marks of a letter following it in the text placed before it; the word Allah becomes its ligature only where it is joined to no other letter. The result depends only on the input: the same text always gives the same result, non-Arabic text comes back with all its characters, reversed, and shaping never fails for any string.",
 ["inputs"],
 "All Unicode strings: Arabic letters with every combination of neighbours, marks, digits, Latin text, mixed directions and lines.",
 "Tests check about ten fixed words; letters times neighbour contexts are not covered and the lookup iterates over a map.",
 ["arabic_helper.go", "arabic_alphabet.go"],
 [("contextual form selection", "arabic_helper.go"), ("letter form table", "arabic_alphabet.go")],
 ["string returned by ToArabic"])

prop("C22", "Malformed fonts and images are rejected with an error, never a crash",
 "Giving arbitrary, truncated or corrupted bytes as a font, image or mask returns an error or succeeds, but never panics, ends the process, hangs or allocates memory out of proportion to the input, and neither does drawing with and outputting whatever was accepted. After a rejected input the document is still usable and its output is the same as if the rejected call had not been made.",
 ["inputs", "histories", "fault_sequences"],
 "All byte strings given as fonts and images, in particular mutations of valid files in every header field, table and chunk, and readers that fail.",
 "Tests use only valid sample files.",
 ["fontmaker/core/ttfparser.go", "fontmaker/core/kern_table.go", "subset_font_obj.go", "pdf_dictionary_obj.go", "image_obj_parse.go", "image_obj.go", "image_holder.go", "gopdf.go"],
 [("font table parsing", "fontmaker/core/ttfparser.go"), ("PNG chunk parsing", "image_obj_parse.go parsePng")],
 ["error results, panics, allocation volume, bytes of the output after a rejected input"])

prop("C23", "Imported PDF pages keep their content, size and resources",
 "Importing pages from an existing PDF (by path, bytes or stream) adds exactly the source's pages in order, or the one requested, and each drawn template shows the source page's own content stream with all the objects it depends on, unchanged, scaled and placed in exactly the requested rectangle. Page counts and page box sizes reported for the source are the source's own, and importing does not disturb what the document already contains or what is drawn later.",
 ["inputs", "histories"],
 "All well-formed unencrypted source documents written in one revision within the importer's supported syntax (flat and nested page trees, inherited boxes and rotation, several pages, shared, nested and cyclic resources, cross-reference tables and streams, object streams), all sequences of imports and drawing, all placements.",
 "Tests import one sample file and check for absence of errors.",
 ["gopdf.go", "cache_content_imported_object.go", "imported_obj.go", "procset_obj.go"],
 [("import driver", "gopdf.go ImportPage, ImportPageStream, ImportPagesFromSource, UseImportedTemplate, ImportObjects, ImportTemplates"), ("object renumbering (vendored importer)", "github.com/phpdave11/gofpdi")],
 ["form XObjects, resources and placement matrices in the parsed output", "GetPageSizes, GetStreamPageSizes, GetNumberOfPages"])

prop("C24", "Documents are independent of each other, also when built concurrently",
 "Building documents concurrently or interleaved, including documents that share a font container, gives each of them exactly the bytes it gets when built alone, without data races. A font taken from a container behaves exactly like the same font loaded directly into the document, whatever other documents have already drawn with it, and asking for a font the container lacks is an error.",
 ["schedules", "histories", "inputs"],
 "All interleavings and concurrent schedules of building and outputting several documents with shared font containers and pooled buffers.",
 "Tests build documents one after another; sharing through the container and the buffer pool only shows under interleaving.",
 ["font_container.go", "buffer_pool.go", "gopdf.go", "subset_font_obj.go"],
 [("font copying out of the container", "font_container.go"), ("buffer pool", "buffer_pool.go")],
 ["bytes of each document compared with a solo build", "race detector"])

prop("C25", "Cursor, margins and automatic page breaks follow their documented rules",
 "The current position reads back what was set, a line break returns to the left margin and moves down by its height, a new page puts the position at the left and top margins, and the margins read back what was set. The calls that move to a new vertical position for an element of a given height start a new page, with the position at the top margin, exactly when the element, placed at the current position (or, for the variant without offset, at the requested one), would cross the bottom margin of the current page, and otherwise stay on the page at the requested position. Calls that draw nothing at the current position leave it alone.",
 ["histories", "configurations"],
 "All sequences of position, margin, line-break, text, page and page-breaking calls in all units and page sizes.",
 "Tests use points and the default page size with one margin set.",
 ["gopdf.go", "margin.go", "current.go"],
 [("page-break decisions", "gopdf.go SetNewY, SetNewYIfNoOffset, SetNewXY"), ("cursor state", "gopdf.go SetX, SetY, SetXY, Br, resetCurrXY; margin.go")],
 ["GetX, GetY, Margins, GetNumberOfPages after every call"])

prop("C26", "The font parser reports what the font file says",
 "Reading a TrueType font through the library's parser (from data, a reader or a file) gives the numbers the file has: the table directory, glyph count, units per em, bounding box, italic angle, underline and height metrics, the advance width of every glyph, the glyph of every character (basic and supplementary planes), the location of every glyph and, when kerning is asked for, every kerning pair. The font's data is kept as given and not modified.",
 ["inputs", "configurations"],
 "All TrueType fonts with a Unicode character map, with short and long offsets, fewer metrics than glyphs, segment arrays and deltas, any table order, and all three ways of reading them.",
 "Tests parse one or two font files; a wrong field for fonts with another layout only shows on such fonts.",
 ["fontmaker/core/ttfparser.go", "fontmaker/core/ttfparser_kern.go", "fontmaker/core/ttfparser_cmap_other_format.go", "fontmaker/core/table_directory_entry.go"],
 [("table parsers", "fontmaker/core/ttfparser.go ParseHead, ParseHhea, ParseMaxp, ParseHmtx, ParseCmap, ParseOS2, ParsePost, ParseLoca"), ("kerning", "ttfparser_kern.go Parsekern")],
 ["accessors of core.TTFParser compared with an independent reader"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
