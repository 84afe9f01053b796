# property -> (technique, level_note[, level]); a property listed here is claimed
GEN="Seed-determined call histories are drawn by a generator, run against the real library in supervised child processes, and judged by an oracle over the observed execution. "
TRUST=" Holds for the executions observed, not for all; trusts the monitors' own PDF reader/interpreter, font and image readers."
T['C01']=("runtime monitoring: random call histories, output observed by an independent strict PDF parser and content-stream checker",
 GEN+"Every produced file (also mid-document) is parsed by a strict independent reader: exact xref offsets, no stray bytes, stream lengths, reference kinds, resource names, operator arity and nesting."+TRUST)

T['C03']=("runtime monitoring: differential observation of output routes (bytes, writer, deprecated writer, chunked readers, file) and of output in mid-document, byte-exact or by canonical document comparison",
 GEN+"Every route's bytes, byte count and error are compared with the others'; histories with outputs inserted at random points are compared with their twin without them."+TRUST)
T['C25']=("runtime monitoring: twin-execution oracle (history with failing calls against the same history without them) plus state probes around every failing call",
 GEN+"27 kinds of failing calls are inserted anywhere; cursor, page count and object count are probed around each, later results and the finished documents of both twins are compared."+TRUST)
T['C26']=("runtime monitoring: sentinel copies of every caller-owned value, deep-compared after each call, and a twin run in which all of them are overwritten or reused after the call",
 GEN+"Slices, structs, option values and buffers handed to the library are snapshotted and compared; scrambling or reusing them after the call must not change the document."+TRUST)
T['C29']=("runtime monitoring: the same history at every compression level and with level changes in between, decoded and compared by meaning; stored form of each content stream inspected",
 GEN+"The decoded document must be the same for every level; level 0 must store content raw and a non-zero level must compress it."+TRUST)

T['C04']=("runtime monitoring with fault injection: failing, short-writing and short-reading writers, readers and holders, every fault position drawn from the fault-free run; outcome and later outputs observed",
 GEN+"A fault must come back as an error from the call (never a panic, never a silently truncated document); after it the same history is observed to finish with the same document as its fault-free twin."+TRUST)
T['C24']=("runtime monitoring: hostile fonts, images and call arguments (structure-aware mutation of real and generated files) run in supervised child processes under CPU and memory limits; finished documents parsed",
 GEN+"Crash, panic, hang, memory blow-up and structurally invalid output are violations; accepted or rejected, the document must go on and finish."+TRUST)
T['C06']=("runtime monitoring: every glyph code shown on the page decoded through the written ToUnicode map and compared with a reference model of the drawn text; missing-glyph callbacks recorded and counted",
 GEN+"Random and real fonts (several character-map formats, astral planes, shared glyphs), every text call, splitting and measuring included."+TRUST)
T['C07']=("runtime monitoring: the font program, width table and descriptor extracted from each written file by an independent font parser and compared glyph by glyph with the source font",
 GEN+"Outlines (composites expanded recursively), metrics, hinting tables, table directory, checksums and locations are compared for every glyph the page uses."+TRUST)
T['C09']=("runtime monitoring: pen travel computed by an independent content-stream interpreter from written widths and adjustments, compared with the measured width, the cursor advance and the source font's kerning table",
 GEN+"Width, additivity, joint kerning and override callbacks are judged within the documented integer rounding of one unit per glyph."+TRUST)
T['C10']=("runtime monitoring: result oracle for every splitting function (character conservation, width bound, newline and break-indicator rules) with termination supervised by CPU limits",
 GEN+"Lines returned are aligned with the text in order by an independent matcher and measured with the monitors' own width model."+TRUST)
T['C15']=("runtime monitoring: twin runs of one history in points and in another unit, every returned length and the finished documents compared numerically; conversion functions and predefined sizes observed directly",
 GEN+"Tables and default margins use lengths the library chooses itself and are outside the claim."+TRUST)
T['C16']=("runtime monitoring: every image of the written file decoded by an independent decoder (filters, predictors, palettes, masks, DCT) and compared pixel by pixel with the source picture",
 GEN+"Sources are built by the monitors' own PNG, GIF and JPEG writers, so that the true picture is known; readers deliver in small pieces."+TRUST)
T['C18']=("runtime monitoring: the written file opened by an independent implementation of the standard security handler with right and wrong passwords, decrypted completely and compared with the twin written without protection",
 GEN+"Permissions, both passwords and every reachable string and stream are compared."+TRUST)
T['C19']=("runtime monitoring: a reference model of the outline tree and the information dictionary run in lock-step with the calls, compared with the tree read back from the file",
 GEN+"Titles are random Unicode; nesting plans are random trees."+TRUST)
T['C20']=("runtime monitoring: every link and anchor call recorded with the page and cursor it was made at, compared with the annotations read back from the file",
 GEN+"Rectangles, addresses (random bytes) and destinations are compared per page and in order."+TRUST)

T['C05']=("Go race detector plus differential monitor: sets of documents that share font containers, font and image data, presets and pools are built alone, then in 3-6 goroutines started together with random yields, then alone again and in a new process; every race report, every return value and every output byte is judged",
 "Interleavings are those the scheduler produced (their number and the switches observed between library calls are in the evidence). "+TRUST)

T['C30']=("runtime monitoring: every accessor, lookup, width and kerning pair of the parser, the font object and the font maker compared with an independent reading of random font files; documents loaded by six routes compared byte for byte; the font program really used after random selections identified by its metrics",
 GEN+"Fonts carry metrics of any sign and size. Registering one family and style twice is outside the claim. "+TRUST)

T['C27']=("runtime monitoring: every conversion of the Arabic shaper compared with an independent reference of the Unicode joining types and presentation forms; letters and marks counted in and out for arbitrary input",
 "One line of text; words and numbers of other scripts keep their order, brackets are not mirrored; letters of the library's alphabet. Input that already is presentation forms is judged for conservation only. "+TRUST)

T['C11']=("runtime monitoring: every line drawn by the multi-line cells read back from the page and judged against the text, the cell, the fit tests' answers and an independent width model",
 GEN+"Many cells are sized so that the text just fits or just does not. A newline-separated text is drawn part by part with MultiCell, which is what the newline fit test speaks about. "+TRUST)

T['C23']=("runtime monitoring: every template shown on a page compared object by object, as a graph isomorphism, with the page of the generated source file it stands for; its four corners, order and page compared with the calls",
 GEN+"Source files: classic or object-stream layout, scattered numbers, shared and circular objects, resources on the page, content cut at operator boundaries; the box asked for exists. Whole files are imported with unturned or half-turned pages only. "+TRUST)

T['C22']=("runtime monitoring: every fill, border line and line of text of a drawn table read back from the page and matched with what the table's, header's, cells' and single cells' styles ask for",
 GEN+"The padding and the default border width are the library's choice: text keeps one distance from the cell's side throughout the table. "+TRUST)

T['C28']=("runtime monitoring: an executable model of the cursor, margins, pages and callbacks run in lock-step with random histories; cursor, margins, page count and callback log read back after every call",
 GEN+"Breaks on demand are asked for exactly at, just above and just below the bottom margin. "+TRUST)

MODEL="An executable drawing model follows the calls one by one (page, graphics state, text state, cursor) and predicts every item; the finished file is read back by an independent interpreter and matched item by item, in order. "
T['C02']=("runtime monitoring: drawing model run in lock-step with random histories of adding pages, going back to earlier ones, breaks on demand and callbacks; pages, boxes and everything on them read back and compared",
 GEN+MODEL+TRUST)
T['C08']=("runtime monitoring: drawing model of text and cells run in lock-step; every glyph, kerning step, underline, border and cursor move compared with what the file and the library report",
 GEN+MODEL+"Horizontal and vertical placement follow the font's typographic metrics; underline position and overhang of borders by half a line width are the library's choice. "+TRUST)
T['C12']=("runtime monitoring: drawing model of shapes, saved states, rotations and clip regions run in lock-step; every path and the clip regions in force compared with the file",
 GEN+MODEL+TRUST)
T['C13']=("runtime monitoring: drawing model of colours, line widths and dashes run in lock-step; the settings in force at every painted item compared with the file",
 GEN+MODEL+"A new page starts with the default settings; the text colour belongs to the document and not to a saved state. "+TRUST)
T['C14']=("runtime monitoring: drawing model of document-wide and own transparency run in lock-step; opacity, blend mode and soft mask in force at every item compared with the file",
 GEN+MODEL+TRUST)
T['C17']=("runtime monitoring: drawing model of image placement run in lock-step; matrix, clip, mask and decoded pixels of every image and mask compared with the file",
 GEN+MODEL+"A crop is taken from the mirrored image; a masked image turns by its own and its mask's angle together. "+TRUST)
T['C21']=("runtime monitoring: drawing model with reserved places run in lock-step; every page compared with the file after the names are filled in",
 GEN+MODEL+TRUST)
T['C31']=("runtime monitoring: twin runs of one history, on a fresh object and on one that built other documents before (finished, half way, protected, importing); returned values, counts and files compared",
 GEN+"Files are compared byte for byte, or as canonical documents where importing or encryption makes bytes vary. "+TRUST)
