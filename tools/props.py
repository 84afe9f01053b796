#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every generated file is a structurally sound PDF",
  "Whatever sequence of supported calls built a document, the written file parses strictly: the cross-reference table gives the exact byte offset of every object and of itself, stream lengths and the trailer are right, and every indirect reference resolves to an existing object of the expected kind. Every page's content stream is well formed: only known operators with the right operands, text blocks and save/restore pairs balanced whenever the caller's own pairs are, and every font, image, colour space and graphics-state name it uses is defined in that page's resources.",
  ["histories", "programs"], "all sequences of API calls with valid arguments, mixing every feature (text, shapes, images, masks, transparency, tables, links, outlines, imports, protection, metadata, several pages)",
  "Tests write files and never parse them back; soundness is a property of the whole call history because object numbers, offsets and resource names are handed out incrementally by every feature.",
  ["gopdf.go", "procset_obj.go", "content_obj.go", "page_obj.go", "pages_obj.go", "catalog_obj.go"],
  [("object table with sequential ids and counting writer", "gopdf.go: addObj, compilePdf, xref, countingWriter"), ("shared resource dictionary", "procset_obj.go: write"), ("per-object serialisers", "every *_obj.go: write")],
  ["bytes returned by the output calls, read by an independent strict PDF parser"],
  [("pdfObjs", "the document's objects, index+1 is the object number", "gopdf.go: GoPdf")])

p("C02", "Pages appear once, in order, with their own size and content",
  "The finished document contains exactly the pages that were added, in the order they were added, each once, each with the media box (and trim box) asked for it or the document default. Everything drawn appears on the page that was current when it was drawn, and on no other, in drawing order, including content drawn from header and footer callbacks and content drawn after going back to an earlier page.",
  ["histories"], "all histories of adding pages (default, custom size, custom boxes), drawing, returning to earlier pages by number, and header/footer callbacks",
  "Tests add one or a few pages with one size; attribution of content to pages depends on the whole history of page additions, switches and empty pages.",
  ["gopdf.go", "pages_obj.go", "page_obj.go", "page_option.go", "content_obj.go"],
  [("page and content association while preparing output", "gopdf.go: prepare, getContent, SetPage, AddPageWithOption"), ("page boxes", "page_obj.go: write; pages_obj.go: write")],
  ["page tree and per-page display list of the written file; reported number of pages"])

p("C03", "Output is repeatable, route independent and does not disturb the document",
  "All ways of obtaining the file (byte slice, writer, deprecated writer, reader in any chunk sizes, file on disk) deliver the same bytes for the same document, and producing output twice delivers the same document twice. Producing output in the middle of building a document does not change what the finished document contains, and the reported byte count equals the bytes delivered.",
  ["histories"], "all documents and all interleavings of building calls with any number of output calls by any route, with reads in arbitrary chunk sizes",
  "Every test produces output once, at the end, by one route; repeat production is a multi-step history.",
  ["gopdf.go", "pages_obj.go", "page_obj.go", "cache_content_imported_object.go", "buffer_pool.go"],
  [("compile on demand into a writer or the internal buffer", "gopdf.go: compilePdf, prepare, Read, GetBytesPdfReturnErr, WriteTo, WritePdf, Close")],
  ["bytes from each output call; parsed documents before and after interim output"],
  [("Kids, PageCount, Contents, encryptionObjID", "accumulated while preparing output", "gopdf.go: prepare")])

p("C04", "I/O failures are reported, never swallowed",
  "If the destination writer or file fails or accepts only part of the data at any byte of the output, the output call returns an error and reports how many bytes were really accepted; it never reports success for a truncated document. If a font or image source fails while being read, the call that reads it returns an error.",
  ["fault_sequences", "crash_points"], "every byte position at which the writer can start failing (error, short write, error with partial write), for every kind of object in the document, and every position of a reader fault for fonts and images",
  "No test uses a failing writer or reader; correctness must hold for each of the thousands of write positions.",
  ["gopdf.go", "content_obj.go", "image_obj.go", "font and dictionary object writers", "image_holder.go"],
  [("error propagation through the counting writer and object serialisers", "gopdf.go: compilePdf, countingWriter, xref"), ("reader error propagation", "image_holder.go: newImageBuffByReader; fontmaker/core/ttfparser.go: ParseByReader")],
  ["error and count returned by the output calls compared with what the fault-injecting writer accepted"])

p("C05", "Independent documents can be built concurrently without interference",
  "Building different documents in different goroutines at the same time, including documents that share one font container, the same font data, the same image bytes and the package's internal pools, is free of data races and yields for each document exactly the bytes it yields when built alone. Building the same document again in the same process, or in a new process, yields the same bytes.",
  ["schedules", "histories"], "all interleavings of goroutines each building its own document from shared read-only inputs; all repetitions of one build",
  "Tests build one document at a time, never under the race detector, and never compare two builds.",
  ["buffer_pool.go", "font_container.go", "subset_font_obj.go", "fontmaker/core/ttfparser.go", "ext_g_state_obj.go", "procset_obj.go"],
  [("buffer pool", "buffer_pool.go: GetBuffer, PutBuffer"), ("shared parsed fonts", "font_container.go: AddTTFFontFromFontContainer"), ("per-document maps", "current.go; gopdf.go: init")],
  ["race detector reports; byte comparison with serial builds"],
  [("shared font objects", "parsed font tables shared between documents", "font_container.go")])

p("C06", "Text can be read back exactly as written",
  "For every string drawn as text, decoding the glyph codes on the page through the embedded character map gives back the same characters in the same order, with each character the font lacks replaced by the configured substitute and reported once per occurrence to the configured callback. This holds for any number of fonts and styles, any mix of scripts, characters outside the basic plane, characters reused across calls, and fonts whose character map has several segments; characters that share one glyph in the font may decode to any one of them.",
  ["inputs", "histories"], "all strings, all histories of text calls over several fonts, all fonts with segmented or grouped character maps",
  "Tests use a handful of Latin strings with one font and never extract the text.",
  ["subset_font_obj.go", "unicode_map.go", "map_of_character_To_glyph_index.go", "cache_content_text.go", "fontmaker/core/ttfparser_cmap_other_format.go"],
  [("subset character table", "subset_font_obj.go: AddChars, CharIndex, CharCodeToGlyphIndex"), ("ToUnicode map", "unicode_map.go: write"), ("glyph codes in the content stream", "cache_content_text.go: write")],
  ["glyph codes in page content, decoded with the ToUnicode map read from the written file, compared with the strings passed in"])

p("C07", "The embedded font draws the same glyphs as the source font",
  "For every character used, the font program embedded in the file has, at the glyph number used on the page, the same outline as the source font (including all components of composite glyphs, at any nesting depth), and the widths declared in the file equal the source font's advance widths. The embedded program is itself a valid font: table directory, checksums, offsets, glyph location table and metrics agree with the glyph data for any set of characters used and for both short and long location formats, and the font descriptor states the source font's metrics.",
  ["inputs", "configurations"], "all sets of characters and all well-formed TrueType fonts (short and long location tables, composite glyphs nested to any depth, fewer metrics than glyphs, any em size, missing hinting tables)",
  "Tests embed two fonts and never look inside the embedded program; the defect surface is in the interaction of the character set with the font's layout.",
  ["pdf_dictionary_obj.go", "subset_font_obj.go", "cid_font_obj.go", "subfont_descriptor_obj.go", "fontmaker/core/ttfparser.go", "buff.go"],
  [("subset construction", "pdf_dictionary_obj.go: makeFont, makeGlyfAndLocaTable, completeGlyphClosure, AddCompositeGlyphs"), ("width array", "cid_font_obj.go: write"), ("descriptor", "subfont_descriptor_obj.go: write")],
  ["FontFile2, W and FontDescriptor of the written file, read by an independent TrueType reader and compared with the source font"])

p("C08", "Text lands where the cell, alignment and cursor say",
  "Text drawn at the cursor has its baseline start there, and text drawn in a cell is placed by the requested horizontal and vertical alignment (left, centre, right, justified; top, middle, bottom) inside exactly that cell, with borders on exactly the requested sides and the underline and the font, size, spacing and colour in force. Afterwards the cursor has moved as the float mode says: to the right edge, below, or unchanged where documented, so consecutive text calls continue seamlessly; text that continues the text before it with the same settings is kerned at the joint. Vertical placement goes by the font's typographic ascender and descender.",
  ["inputs", "histories"], "all texts, fonts, sizes, character spacings, rectangles, alignment, border and float combinations and cursor histories",
  "Justification tests check one or two helper values; no test checks resulting positions for combinations of options.",
  ["cache_content_text.go", "list_cache_content.go", "content_obj.go", "cell_option.go", "gopdf.go"],
  [("text placement", "cache_content_text.go: calX, calY, write, drawBorder, underline"), ("cursor update", "list_cache_content.go: appendContentText"), ("cell calls", "gopdf.go: Text, Cell, CellWithOption")],
  ["text and path events of the page content; cursor getters"])

p("C09", "Measured text size equals drawn text size",
  "The width reported for a text equals the distance the pen really travels when that text is drawn with the same font, size, character spacing and kerning settings, as computed from the written file; the same amount is what the cursor advances by. Width is additive over concatenation up to kerning at the joint, and kerning, when enabled, shifts exactly the pairs the font's kerning table or the override callback names, by that amount.",
  ["inputs", "configurations"], "all strings, fonts, sizes, spacings, and kerning tables with or without an override",
  "Tests measure two strings; the agreement between two separate code paths (measuring and drawing) must hold for all inputs.",
  ["cache_content_text.go", "content_obj.go", "subset_font_obj.go", "fontmaker/core/ttfparser_kern.go", "gopdf.go"],
  [("measuring", "cache_content_text.go: createContent; gopdf.go: MeasureTextWidth, MeasureCellHeightByText"), ("drawing", "cache_content_text.go: write"), ("kerning lookup", "cache_content_text.go: kern; fontmaker/core/ttfparser_kern.go")],
  ["measured values against pen travel computed from glyph codes, declared widths and adjustments in the written file"])

p("C10", "Line splitting loses nothing, overflows nothing and terminates",
  "Splitting a text into lines for a given width always terminates and returns lines that, concatenated, contain every character of the text exactly once and in order, apart from the newlines and break indicators it breaks at and the separators it inserts. Every line (separator included) fits the width, except where even a single character does not; a newline always starts a new line, in word-wrap mode a line is broken at the break indicator whenever one is available on that line, and no line is broken where the next character (or, at an indicator, the next word) would still have fitted.",
  ["inputs"], "all texts, widths (down to narrower than one character), break modes, indicators and separators",
  "Tests split a few English sentences at comfortable widths.",
  ["gopdf.go", "break_option.go"],
  [("splitting loop", "gopdf.go: SplitTextWithOption, performStrictLineBreak, performIndicatorSensitiveLineBreak, breakIndicatorIndex"), ("options", "break_option.go")],
  ["returned lines, measured independently with the font's advance widths"])

p("C11", "Multi-line cells draw all that fits, and the fit test agrees",
  "A multi-line cell draws the text broken into lines no wider than the cell, one line height apart, dropping no character while there is room and drawing no line below the cell's bottom. The fit test answers yes exactly when the multi-line cell draws the whole text, and the height it reports is the height the drawn lines occupy; a multi-line cell with options draws every line of the split text with the requested alignment.",
  ["inputs"], "all texts, cell sizes, fonts, character spacings and units, with and without newlines and options",
  "Tests call these with one text; agreement between the drawing and the testing loop must hold for every text and rectangle.",
  ["gopdf.go", "cache_content_text.go"],
  [("drawing loop", "gopdf.go: MultiCell, MultiCellWithOption"), ("fit loops", "gopdf.go: IsFitMultiCell, IsFitMultiCellWithNewline")],
  ["text events on the page against the fit test's answer"])

p("C12", "Shapes are drawn exactly where and how requested",
  "Lines, rectangles (from either corner, with rounded corners), ovals, curves and polygons are painted at exactly the requested coordinates, measured from the top left of the page they are drawn on, with the requested stroke or fill style. Clip regions, rotations and saved states apply to exactly the drawing calls between setting and resetting them.",
  ["inputs", "histories"], "all shape parameters, page sizes, styles and nestings of save/restore, rotate/reset and clip",
  "Tests check one clip polygon operator string; geometry on non-default page sizes and nested scopes is not checked.",
  ["content_obj.go", "cache_content_line.go", "cache_content_rectangle.go", "cache_content_oval.go", "cache_contnent_curve.go", "cache_content_polygon.go", "cache_content_clip.go", "cache_content_rotate.go", "gopdf.go"],
  [("coordinate flip and path operators", "cache_content_*.go: write"), ("rounded rectangles", "gopdf.go: Rectangle"), ("scoping", "cache_content_clip.go; cache_content_rotate.go")],
  ["path events (device space) with their clip and transformation state"])

p("C13", "Colours and line styles apply to exactly what follows them",
  "Every shape and text is painted with the stroke colour, fill or text colour (grey, RGB, CMYK or named spot colour), line width and dash pattern most recently requested before it and in force at that point, with the exact component values requested. A new page starts with the default line and fill settings, and text without a text colour of its own (which belongs to the document, not to a saved state) is painted with the fill colour. Changing a setting never affects anything drawn before it, and a setting made inside a saved state ends with it.",
  ["histories"], "all interleavings of colour and line-style settings with text and shapes on one or more pages",
  "Tests draw one item per colour; the effect of a setting on earlier and later items depends on the order of calls.",
  ["gopdf.go", "content_obj.go", "cache_content_text.go", "cache_contact_color_rgb.go", "cache_content_color_cmyk.go", "cache_content_gray.go", "cache_content_line_width.go", "cache_content_line_type.go", "cache_content_custom_line_type.go", "color_space_obj.go"],
  [("state operators in drawing order", "content_obj.go: AppendStreamSet*; cache_content_*"), ("text run merging", "list_cache_content.go: appendContentText; cache_content_text.go: isSame")],
  ["graphics state attached to each paint event"],
  [("txtColorMode, txtColor, grayFill", "current text colour", "current.go")])

p("C14", "Transparency applies exactly where requested",
  "Each line, rectangle, polygon, cell and image (ovals, curves and text drawn at the cursor ignore transparency) is painted with the opacity and blend mode of its own option or else of the document-wide transparency in force when it was drawn, and fully opaque in normal mode otherwise. Different opacities, blend modes and masks never mix, however many are used and in whatever order, and the setting of one item never leaks to the next.",
  ["histories"], "all sequences of setting and clearing transparency and drawing with per-item transparency, over many opacity and blend-mode combinations",
  "Tests use one transparency value; caching of graphics states across the document's history is untested.",
  ["transparency.go", "ext_g_state_obj.go", "gopdf.go", "cache_content_text.go", "cache_content_image.go"],
  [("cached graphics-state objects", "ext_g_state_obj.go: GetCachedExtGState; transparency.go: TransparencyMap"), ("current transparency", "gopdf.go: SetTransparency, getCachedTransparency, saveTransparency")],
  ["alpha, blend mode and soft mask in force at each paint event"])

p("C15", "Units are interchangeable",
  "A document described in millimetres, centimetres, inches, pixels or a custom unit is the same document as the one described in points with all lengths converted: same page boxes, same positions and sizes, same page breaks, same line breaks, same links. Getters return values in the document's unit, so setting a value and reading it back, or feeding a returned value into another call, is lossless up to rounding. Lengths the library chooses itself (default margins, table padding and default borders) are not scaled.",
  ["configurations", "programs"], "all programs, run once per unit",
  "Tests use points or millimetres for single calls; equivalence ranges over all calls and all units.",
  ["config.go", "rect.go", "box.go", "margin.go", "gopdf.go"],
  [("unit conversion at the API boundary", "config.go: unitsToPoints, pointsToUnits; rect.go; box.go"), ("each public method", "gopdf.go")],
  ["display lists and boxes of the files produced in each unit; values returned by getters and measuring calls"])

p("C16", "Embedded images keep every pixel",
  "Every supported image (PNG grey, RGB, palette, with alpha channel or transparent colour, 1 to 8 bits per sample; GIF; JPEG grey, RGB, CMYK; in-memory images) decodes from the written file to the same dimensions, colours and transparency as the source. This holds for every filter, chunk split and size, and whether the image comes from a path, bytes, a reader or memory. 16-bit and interlaced PNG files are refused with an error, and a CMYK JPEG is taken to be an inverted (Adobe) one.",
  ["inputs"], "all well-formed images of the supported kinds",
  "Tests embed seven files and never decode the result.",
  ["image_obj.go", "image_obj_parse.go", "image_holder.go", "smask_obj.go", "device_rgb_obj.go", "gopdf.go"],
  [("PNG re-packing and alpha split", "image_obj_parse.go: parsePng"), ("image dictionaries", "image_obj_parse.go: writeImgProps; image_obj.go: write"), ("palette and soft mask objects", "device_rgb_obj.go; smask_obj.go")],
  ["image XObjects of the written file, decoded independently and compared with an independent decode of the source"])

p("C17", "Images are placed, cropped, flipped, rotated, masked and reused correctly",
  "An image fills exactly the requested rectangle (or its natural size when none is given), shows exactly the requested crop (taken from the image as mirrored), is mirrored and rotated as requested about its centre, and is restricted by exactly the mask given for it (together with which it turns by both their angles). Each use of an image shows that image and not another, the same image used again is stored only once, and using an image with one set of options never changes how another use of it looks.",
  ["inputs", "histories"], "all option combinations and all histories of placing a pool of images, with and without masks, repeatedly and on several pages",
  "Tests place one image per document; reuse, masks and options interact only over a history of calls.",
  ["gopdf.go", "cache_content_image.go", "transparency_xobject_group.go", "smask_obj.go", "image_obj.go"],
  [("image cache", "gopdf.go: imageByHolder, maskHolder, ImgCaches"), ("placement operators", "cache_content_image.go: write"), ("mask groups", "gopdf.go: createTransparencyXObjectGroup")],
  ["image paint events: matrix, clip, soft mask chain and the pixels of the object drawn"])

p("C18", "A protected document opens with its passwords and decrypts to the original",
  "With protection on, the user password and the owner password each open the file under the standard security handler, no other password does, and the permissions stored are exactly those requested. Decrypting every string and stream gives exactly the content of the same document produced without protection.",
  ["inputs", "programs"], "all documents using all features, all passwords (empty, short, longer than 32 bytes, binary) and permission combinations",
  "Tests write a protected file without opening it; each kind of object encrypts itself separately.",
  ["pdf_protection.go", "encryption_obj.go", "content_obj.go", "image_obj.go", "smask_obj.go", "device_rgb_obj.go", "unicode_map.go", "pdf_dictionary_obj.go", "annot_obj.go", "outlines_obj.go", "transparency_xobject_group.go"],
  [("key derivation", "pdf_protection.go: generateEncryptionKey, createOValue, createUValue"), ("per-object encryption", "pdf_protection.go: objectkey, rc4Cip and each object's write")],
  ["the written file, authenticated and decrypted by an independent implementation, compared with the unprotected twin"])

p("C19", "Document information and outlines read back as given",
  "Title, author, subject, creator, producer and creation date read back from the file exactly as set, for any Unicode text, and only fields that were set are present. Outline entries appear exactly once, in order, with their exact titles, pointing at the page (and height) that was current when they were added, and the outline tree's parent, first, last, next and previous links are mutually consistent, also after nesting entries.",
  ["inputs", "histories"], "all Unicode titles, all histories of adding outlines on pages and all nestings of them",
  "Tests add a few ASCII outlines and never read the tree back.",
  ["gopdf.go", "outlines_obj.go", "catalog_obj.go", "pdf_info_obj.go"],
  [("text string encoding", "gopdf.go: encodeUtf8, writeInfo, infodate"), ("outline linking", "outlines_obj.go: AddOutline, AddOutlinesWithPosition, OutlineNodes.Parse")],
  ["Info dictionary and outline tree of the written file"])

p("C20", "Links cover the requested area and reach the requested target",
  "Every external link appears on the page it was added to, covers exactly the requested rectangle on that page, and carries exactly the given address. Every internal link whose anchor is defined, before or after the link, on any page and of any page size, leads to the page and height where that anchor was set, at most a line above it; one whose anchor is never defined leads nowhere.",
  ["inputs", "histories"], "all addresses, rectangles, page sizes and orders of defining anchors and links",
  "Tests add one link; escaping, page sizes and forward references are input- and history-dependent.",
  ["gopdf.go", "annot_obj.go", "page_obj.go", "link_option.go"],
  [("annotation objects", "annot_obj.go: writeExternalLink, writeInternalLink"), ("anchor table", "gopdf.go: SetAnchor, AddInternalLink, AddExternalLink, addLink")],
  ["Annots of each page of the written file"])

p("C21", "Filling placeholders shows the text at the reserved places",
  "Filling a placeholder shows the given text at every place where that placeholder was reserved, with the font, size, spacing and colour in force when it was reserved, aligned left, right or centred within the reserved width, and changes nothing else on any page. Text drawn after a reservation starts after the reserved width, and an unknown placeholder name is an error.",
  ["histories", "inputs"], "all histories of reserving, drawing and filling with any text, alignment, font changes in between and several reservations per name",
  "Tests fill placeholders once with one font and do not look at positions.",
  ["gopdf.go", "content_obj.go", "placeholder.go"],
  [("reservation", "gopdf.go: PlaceHolderText; content_obj.go: appendStreamPlaceHolderText"), ("filling", "gopdf.go: FillInPlaceHoldText")],
  ["text events of the written pages"])

p("C22", "Tables show every cell in its place",
  "A table draws its header row and each added row as a grid whose columns have the requested widths and whose rows have the requested height from the requested origin, shows every cell's text inside its own cell (padded by one distance the library chooses) with the column's alignment and the cell's, row's or table's style, and draws the borders and fills the styles ask for. A cell with its own style differs from the others only by that style.",
  ["inputs"], "all tables: column counts, widths, alignments, row contents, padding-sized texts, and table, header, cell and per-cell styles",
  "Tests draw a few tables and only check that no error is returned.",
  ["table.go"],
  [("layout", "table.go: DrawTable, drawCell, drawBorder")],
  ["path and text events of the page"])

p("C23", "Imported pages show the source page, unchanged and in place",
  "An imported page is embedded with its content and everything it refers to intact and mutually consistent under its new object numbers, is drawn at exactly the requested position and size on the page where it was used, and importing a whole file yields one page per source page in order. Importing several pages or several files, in between other drawing, never confuses one with another.",
  ["histories", "inputs"], "all histories of importing pages from several source files (from path, bytes or stream), using the templates repeatedly and drawing other content in between",
  "Tests import one file and check only the error; renumbering correctness depends on the objects already present.",
  ["gopdf.go", "imported_obj.go", "cache_content_imported_object.go", "procset_obj.go"],
  [("renumbered object import", "gopdf.go: ImportPage, ImportPageStream, ImportPagesFromSource, ImportObjects, ImportTemplates"), ("placement", "gopdf.go: UseImportedTemplate; cache_content_imported_object.go: write")],
  ["form XObjects reached from the page, compared object by object with the source file"])

p("C24", "Corrupt fonts and images are rejected, not crashed on",
  "Giving the library a truncated, corrupted or hostile font or image either works or returns an error: it never panics, never loops without end and never allocates memory out of proportion to the input. After the rejection the document can still be completed.",
  ["inputs"], "all byte strings offered as a font or image, in particular every truncation of valid files and structure-aware corruptions of lengths, counts and offsets",
  "Tests use valid files only.",
  ["fontmaker/core/ttfparser.go", "fontmaker/core/ttfparser_cmap_other_format.go", "fontmaker/core/ttfparser_kern.go", "subset_font_obj.go", "pdf_dictionary_obj.go", "image_obj_parse.go", "image_obj.go"],
  [("table parsing with error returns", "fontmaker/core/ttfparser*.go"), ("image parsing with error returns", "image_obj_parse.go: parsePng, parseImg")],
  ["return or panic of the calls, work and allocation accounted in a supervised child process"])

p("C25", "A failed call changes nothing",
  "A call that returns an error (unknown font, missing page, duplicate colour space, unreadable image or font, invalid option, invalid rectangle and the like) leaves no trace: the document finished afterwards is the same as if the call had never been made, and the cursor, font and settings in force are unchanged.",
  ["histories", "fault_sequences"], "all histories into which failing calls of every kind are inserted at any point",
  "Tests check that an error is returned, never what the failed call left behind.",
  ["gopdf.go", "image_obj.go", "subset_font_obj.go", "table.go", "font_container.go"],
  [("validation before mutation", "gopdf.go: addColorSpace, imageByHolder, ImageByHolderWithOptions, SetFontWithStyle, SetPage, setSubsetFontObject, Rectangle")],
  ["written document with and without the failing calls; cursor getters"])

p("C26", "Caller-owned data is neither modified nor retained",
  "No call modifies the slices, structures, option values or byte buffers the caller passes in, so the same value can be passed again with the same effect. Changing or reusing such a value after the call does not change what has already been drawn.",
  ["histories"], "all calls taking slices, pointers or options, called repeatedly with shared values and with the caller mutating them afterwards",
  "Tests build fresh arguments for every call.",
  ["gopdf.go", "cache_content_custom_line_type.go", "ext_g_state_obj.go", "transparency.go", "pdf_protection.go", "content_obj.go"],
  [("argument copying at the API boundary", "gopdf.go: SetCustomLineType, ImageByHolderWithOptions, Polygon, RectFromUpperLeftWithOpts, SetInfo, AddPageWithOption")],
  ["deep comparison of arguments before and after each call; output with and without later mutation"])

p("C27", "Arabic shaping keeps every letter and picks the right form",
  "Converting Arabic text for display yields each letter in the presentation form its neighbours require (isolated, initial, medial, final, with the mandatory lam-alef joins), leaves non-Arabic runs readable (words and numbers keep their order), and neither loses nor invents letters or marks. The conversion accepts any string without failing.",
  ["inputs"], "all strings of Arabic letters, marks, digits, Latin text and arbitrary runes",
  "Tests convert about a dozen fixed words.",
  ["arabic_helper.go", "arabic_alphabet.go"],
  [("contextual substitution", "arabic_helper.go: ToArabic and helpers"), ("letter table", "arabic_alphabet.go")],
  ["output string compared with an independent shaper derived from the Unicode joining rules and decompositions"])

p("C28", "Cursor, margins and page breaks follow the documented rules",
  "After any sequence of cursor moves, line breaks, margin changes and page additions, the cursor position read back is the one those calls define: margins are 10 points until set, a new page starts at the top-left margin, a line break moves down by the given height and back to the left margin, and header and footer callbacks run exactly once per new page, header first, without disturbing the cursor. The calls that break the page on demand add a page exactly when the given height no longer fits above the bottom margin, and then continue at the top margin of the new page.",
  ["histories"], "all sequences of cursor, margin, line-break, page and on-demand page-break calls, in any unit and page size, with header and footer callbacks",
  "Tests call each of these once.",
  ["gopdf.go", "margin.go", "current.go"],
  [("cursor state", "gopdf.go: SetX, SetY, SetXY, Br, SetNewY, SetNewYIfNoOffset, SetNewXY, AddPageWithOption, resetCurrXY"), ("margins", "margin.go")],
  ["cursor and margin getters, page count, callback log against an executable model"])

p("C29", "Compression only changes the encoding",
  "The compression level chosen for a document changes how content streams are stored and nothing else: for every level, including out-of-range values and changes of level between drawing calls, the decoded document is the same, no compression really stores content uncompressed, and a non-zero level really compresses it.",
  ["configurations", "programs"], "all documents and all compression levels",
  "Tests write at the default level.",
  ["gopdf.go", "content_obj.go"],
  [("level setting", "gopdf.go: SetCompressLevel, SetNoCompression"), ("content writer", "content_obj.go: write")],
  ["decoded objects of the same document at each level"])

p("C30", "Fonts load the same by every route and report the font's true metrics",
  "Loading a font from a path, a reader, a byte slice or a shared font container gives documents that render identically, selecting a family and style always uses the font registered under exactly that family and style, and asking for one that is not registered is an error. The parser's reported metrics, widths, kerning pairs, glyph lookups and names equal those in the font file, for every well-formed font.",
  ["inputs", "histories", "configurations"], "all well-formed fonts, all loading routes, all histories of registering and selecting several families and styles",
  "Tests load one font per route and look at two metrics.",
  ["fontmaker/core/ttfparser.go", "fontmaker/core/ttfparser_kern.go", "fontmaker/core/ttfparser_cmap_other_format.go", "font_container.go", "gopdf.go", "subset_font_obj.go", "strhelper.go", "font_option.go"],
  [("parsing", "fontmaker/core/ttfparser.go: Parse*"), ("registration and selection", "gopdf.go: AddTTFFont*, SetFontWithStyle; font_container.go")],
  ["parser getters against an independent TrueType reader; documents produced by each route"])

p("C31", "Starting again begins an empty document",
  "Calling Start on an object that has been used before, whether its document was finished, written, left half way, protected or had failed calls, begins a new document: every call returns and the finished file contains exactly what they would on a fresh object. Nothing of the earlier documents (pages, fonts, colours, links, information, passwords, placeholders, output left unread) shows in it; the header and footer callbacks stay until they are replaced.",
  ["histories"], "all histories of one to several documents built one after another on one object, ended at any point",
  "Tests start every document on a fresh object.",
  ["gopdf.go", "current.go", "cache_content_text.go"],
  [("start", "gopdf.go: Start, StartWithImporter, start, init")],
  ["returned values and finished documents of the same history on a fresh and on a used object"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
