NA = []

prop("P01", "Documents that are written read back unchanged",
 "For every sequence of object additions and replacements given to the document writer, in every output layout (cross-reference table, cross-reference stream, object streams), reading the output returns exactly the objects last written under their numbers, with equal values and equal decoded stream data, and the chosen root and info. No other document object appears, writing twice gives the same document, and caller-owned dictionaries and data are not changed.",
 ["histories", "inputs", "configurations"], "all operation sequences up to depth 3 (thorough 4) over 25 operations, a value grammar, all stream payloads of a marker alphabet, all Go values of stream dictionaries nested 2 (thorough 3) deep under 7 kinds of key, all orders of setting version, root and information dictionary, in three layouts",
 "Tests write a handful of fixed documents and look for substrings; they cannot cover the operation orders, values and payloads (keywords in strings and streams, empty data, gaps, re-writes) that shift offsets and indexes.",
 ["core/write/writer.go", "core/parse/get_object.go", "core/parse/object_stream.go", "core/parse/xref_stream.go", "core/parse/incremental.go"],
 [("offset bookkeeping while writing", "core/write/writer.go Write"), ("object stream packing", "core/write/writer.go"), ("cross-reference merge and object lookup", "core/parse")],
 "model_checking", "Every operation sequence within the bound is replayed on the real writer and read back with the real reader and an independent strict oracle; assumes the bound (depth, alphabet) is representative.",
 "exhaustive bounded operation-sequence exploration of the real writer against a map model",
 [("object table", "object number to last written value", "core/write/writer.go PDFWriter.objects")], ["parsed objects", "output bytes"])

prop("P02", "Every file written is structurally valid PDF",
 "Every document the writer outputs is valid: the start offset leads to the cross-reference section, every entry points exactly at its object, entry sizes, subsections, counts, stream lengths and object-stream headers are exact, and every byte belongs to well-formed syntax. This holds for every sequence of writer operations and every layout.",
 ["histories", "inputs", "configurations"], "the same operation-sequence space as the round-trip property, judged by a strict syntax oracle that shares no code with the library",
 "A lenient reader hides invalid output; no test checks offsets, lengths and counts byte by byte, and none varies object counts, sizes and orders.",
 ["core/write/writer.go", "core/write/metadata.go", "core/write/page.go"],
 [("offset bookkeeping while writing", "core/write/writer.go Write"), ("length and filter normalisation", "core/write/writer.go")],
 "model_checking", "Exhaustive within the operation bound; the oracle is an independent strict parser.",
 "exhaustive bounded operation-sequence exploration with a strict independent validity oracle",
 [("offsets", "byte position of every object", "core/write/writer.go")], ["output bytes"])

prop("P03", "Incremental updates: the newest revision decides every object",
 "For every history of incremental updates, mixing cross-reference tables and streams, plain and compressed objects, deletions and re-creations, each object reads as written by the newest revision that touches it, and deleted or never written objects do not exist. Extracting revision k yields exactly the file as it was after revision k, revision counts and boundaries match the history, and standard, byte-perfect and function-level access agree.",
 ["histories", "configurations"], "all update histories of up to 3 (thorough 4) revisions over two objects and of 2 revisions over three objects, five actions per object, two layouts per revision, in two packings",
 "Tests contain two or three hand-made updates; the interplay of table and stream sections, moved, freed and re-used objects over several revisions is a history property.",
 ["core/parse/incremental.go", "core/parse/api.go", "core/parse/get_object.go", "core/parse/object_stream.go", "core/parse/document_parser.go"],
 [("following and merging the chain of sections", "core/parse/incremental.go"), ("revision boundaries", "core/parse/incremental.go")],
 "model_checking", "Model states (maps per revision) are enumerated and every history is replayed against the real reader; files come from an independent generator whose output the strict oracle confirms.",
 "explicit-state enumeration of update histories with replay on the real reader",
 [("merged objects", "object number to newest location", "core/parse/incremental.go mergedObjs/mergedStreams/mergedFree")], ["objects, revisions and boundaries reported by the reader"])

prop("P04", "Byte-perfect mode reproduces the input and delimits every object exactly",
 "Parsing any legal file in byte-perfect mode and asking for its bytes returns the input byte for byte, its revisions end where the file's revisions end, and every raw object is exactly the bytes of that object with its generation, dictionary and stored stream data, even when strings, comments or stream data contain structural keywords. A file that was cut off or has a byte removed or changed is refused, or reproduced byte for byte too.",
 ["inputs", "histories", "configurations", "fault_sequences"], "eight documents in every layout with up to two deviations from the default layout (about 33,000 files), all two-revision update histories, and every cut, removed byte and changed byte (5, thorough 18, values) of four documents",
 "Tests check a few sample files; extents go wrong only for particular combinations of layout, keywords inside data, and revision structure.",
 ["core/parse/document_parser.go", "core/parse/document.go", "core/parse/api.go"],
 [("delimiting objects by syntax", "core/parse/document_parser.go ParseRawObject"), ("splitting revisions", "core/parse/document_parser.go ParsePDFDocument")],
 "model_checking", "Exhaustive over the deviation bound; extents are compared with an independent strict parser.",
 "deviation-bounded exhaustive enumeration of file layouts and histories",
 [("raw objects", "per-revision object extents", "core/parse/document.go")], ["reconstructed bytes", "raw object extents"])

prop("P05", "Stream filters are exact inverses and follow their formats",
 "For every byte string, decoding the encoded form returns the string, and the encoded form is legal in the filter's format; every legal encoded text decodes to what the format defines. Truncated or corrupted compressed data is reported as an error instead of being returned as if complete, unknown filters are rejected, and inputs are not modified.",
 ["inputs"], "all strings of length 0..2, all strings up to length 8 (thorough 10) over per-filter alphabets, all three-run compositions at the length boundaries, all encoded texts up to length 6 (7), every prefix and byte flip of compressed data",
 "Round-trip tests use a few strings; group boundaries, run-length limits, white space and end markers only fail on particular lengths and bytes.",
 ["core/parse/filters.go"],
 [("filter codecs", "core/parse/filters.go")],
 "exploration", "Exhaustive within the stated string spaces, judged by independent strict decoders.",
 "exhaustive enumeration of bounded byte strings against reference decoders", [], ["decoded bytes"])

prop("P06", "What is read does not depend on how the file is laid out",
 "The objects, values, stream data, trailer entries, version and revision count read from a legal file depend only on its content, never on the free choices of the file format: line endings, white space and comments, subsection splits, field widths, predictors, filters, object-stream packing, indirect lengths, padding or trailing data. This holds alike for standard, byte-perfect and function-level access.",
 ["inputs", "configurations"], "eight documents in every layout with up to two (thorough three) deviations from the default out of about 90 choices",
 "Tests only read files in the layouts their authors happened to have; layout choices interact, so pairs of choices matter.",
 ["core/parse/incremental.go", "core/parse/xref_stream.go", "core/parse/object_stream.go", "core/parse/get_object.go", "core/parse/lexical.go", "core/parse/parser.go"],
 [("cross-reference parsing", "core/parse"), ("object scanning", "core/parse/lexical.go")],
 "model_checking", "Exhaustive over the deviation bound; generated files are first confirmed legal by a strict oracle.",
 "deviation-bounded exhaustive enumeration of file layouts with a content model",
 [], ["objects, trailer and revision count reported by the reader"])

prop("P08", "Encryption: right passwords open documents, wrong ones never do",
 "For every document encrypted with the standard security handler (RC4 from 40 to 128 bits, AES-128, identity crypt filters, clear metadata) and every pair of user and owner passwords, opening it with either password returns every string and stream decrypted exactly, and no other password opens it, through every entry point. For every sequence of writer operations on an encrypted document, the output hides every string and stream, opens with the passwords, and decrypts independently to exactly the values written; rebuilding an encrypted document keeps its encryption, its passwords and its content.",
 ["inputs", "configurations", "histories"], "29 security handler configurations x 20 password pairs x file layouts x right and wrong passwords; parameters (file identifier and permission values); every password of up to 2 of 64 characters tried on every configuration; every object number and generation at a byte boundary x data of 0 to 49 bytes; all writer operation sequences up to depth 2 (thorough 3) x 20 set-ups x 4 password pairs x 3 layouts",
 "Tests open one or two fixed encrypted samples; key lengths, padding at the block size, password lengths over 32 bytes, object numbers above a byte and strings in nested or compressed objects are each a separate path.",
 ["core/encrypt/key_derivation.go", "core/encrypt/decrypt.go", "core/encrypt/parser.go", "core/write/writer.go", "core/write/encryption_v5.go", "core/parse/get_object.go", "core/parse/api.go"],
 [("file key derivation and password check", "core/encrypt/key_derivation.go"), ("object keys and ciphers", "core/encrypt/decrypt.go"), ("which strings and streams are encrypted", "core/parse/get_object.go, core/write/writer.go encryptObject")],
 "model_checking", "Exhaustive over the stated configurations; the oracle is an independent implementation of ISO 32000-1 7.6. AES-256 uses the library's own key derivation and is checked for write-then-read consistency only (recorded finding).",
 "exhaustive enumeration of handler configurations, passwords and writer operation sequences against an independent security handler",
 [("encryption info", "version, key, crypt filters", "types.PDFEncryption")], ["objects, errors and extracted text", "output bytes"])

prop("P09", "Corrupted input never crashes, hangs or exhausts memory",
 "For every corruption of a document (cut off anywhere, a byte removed or changed, a number replaced by an extreme value, a token or block repeated, references turned into cycles), every public entry point that takes untrusted bytes (opening, object access, extraction, comparison, manipulation, form and XFA handling, image and font parsing, filters) returns a result or an error: no panic, endless loop, unbounded recursion or memory exhaustion.",
 ["fault_sequences", "inputs"], "every single corruption from the stated alphabet at every position of small documents of every kind (tables, streams, object streams, updates, encryption, forms, XFA, fonts, images), and all cyclic reference graphs over a few objects",
 "Tests feed a few malformed samples; a crash needs one particular byte or number at one particular position.",
 ["core/parse/parser.go", "core/parse/incremental.go", "core/parse/object_stream.go", "core/parse/xref_stream.go", "core/parse/filters.go", "content/extract/extract.go", "forms/acroform/parser.go", "forms/xfa/xfa.go", "core/write/image.go", "resources/font/font.go"],
 [("bounds of offsets, counts and lengths read from the file", "core/parse"), ("recursion over document graphs", "content/extract, forms/acroform, core/manipulate")],
 "fault_enumeration", "Every corruption of the stated kinds is executed against the real entry points in a supervised process (stack, memory and time limits); multiple simultaneous corruptions are outside the bound.",
 "exhaustive single-fault enumeration over the bytes of small documents in a supervised process",
 [], ["panics, exits, time and memory of every entry point"])

prop("P10", "Page operations change exactly what they say",
 "For every document and every sequence of page operations (rotate one or all pages, delete or insert pages, extract, reorder by deletion and insertion), the rebuilt document has exactly the pages, in order, with the rotation and inherited attributes that the sequence of operations defines on a plain list of pages; every other page, attribute and object keeps its value, page tree counts and parents are exact, and operations on pages that do not exist fail without changing anything. This holds for every shape of page tree, every place attributes may stand in, and every file layout.",
 ["histories", "inputs", "configurations"], "all page tree shapes up to 3 leaves and 2 inner nodes (thorough 4 and 3) x attribute placements x file layouts x all operation sequences up to depth 2 (thorough 3)",
 "Tests rotate or delete a page of flat trees; nested nodes, inherited attributes, empty nodes, compressed or re-used objects and sequences of operations are where page lists go wrong.",
 ["core/manipulate/manipulate.go", "core/manipulate/rotation.go", "core/manipulate/deletion.go", "core/manipulate/insertion.go"],
 [("page tree walking and inheritance", "core/manipulate/manipulate.go"), ("count and parent maintenance", "core/manipulate/deletion.go, insertion.go"), ("rebuilding", "core/manipulate/manipulate.go Rebuild")],
 "model_checking", "The model is a list of pages with resolved attributes; every operation sequence within the bound is replayed on the real manipulator and the output is read by the strict oracle and by the library's extraction. Name escapes in structural dictionary keys are outside.",
 "exhaustive exploration of page operation sequences over bounded page trees against a list model",
 [("page tree", "nodes, kids, counts", "core/manipulate PDFManipulator objects")], ["rebuilt bytes", "extracted pages"])

prop("P11", "Extracting, splitting and merging keep every page whole",
 "For every document and selection of pages (extraction by page list, splitting by ranges or by pages per part, merging lists of documents, encrypted ones included), the output pages are the selected pages in order, and everything a page refers to, shares, inherits or links to forms the same object graph with the same values and stream data as in the source. Pages of different source documents never mix, and invalid selections fail.",
 ["inputs", "configurations"], "seven dependency graphs x page tree shapes x attribute placements x layouts x all selections of up to 3 pages, all range splits, all parts per split, and all merges of up to 3 documents",
 "Tests count pages; a lost or crossed reference only shows for shared, cyclic, inherited or text-like dependencies.",
 ["core/manipulate/extraction.go", "core/manipulate/splitting.go", "core/manipulate/merging.go"],
 [("copying dependencies and renumbering references", "core/manipulate"), ("selecting pages", "core/manipulate/splitting.go, extraction.go")],
 "model_checking", "Object graphs of output and source pages are compared up to renumbering by the strict oracle. Document-level entries (Info, names, outlines) are not claimed to survive extraction and merging.",
 "exhaustive enumeration of bounded documents and selections with graph isomorphism against the source",
 [], ["output bytes as object graphs"])

prop("P13", "Texts, fonts and watermarks put on a page show what was given",
 "Every TrueType or OpenType font file, with any character map, metrics, names and table order, is embedded byte for byte under its own name, with the width, Unicode value, slope, height and flags the file gives each character that was added; a file that lacks a table it needs is refused and leaves the document as it was. Any sequence of calls that add characters and put fonts on pages gives each page exactly its fonts, under names that do not clash. Every text of the characters of the fonts' encoding is shown as exactly these characters by every text call, and is read back by extraction, and every watermark is shown once, with its text or image, font, size, colour, opacity, angle and place, and leaves the rest of the page alone.",
 ["inputs", "histories", "configurations"], "all maps of 7 characters to 3 (thorough 4) glyphs in 3 subtable formats and 2 platforms x subsets of the characters; all sorted lists of up to 3 segments (117, thorough 336, each) or 3 (4) groups; all sets of 7 subtables in 3 orders; 600 metrics x 10 styles; 7^3 names x 5 platforms; all sets of missing tables; all sequences of 5 (6) of 9 font calls; all texts up to 3 (4) of 13 characters and every character of the encoding x 4 text calls x 2 fonts; 384 watermarks x 2 page sizes, all pairs with 14 (thorough all) others",
 "Tests need a system font and check that embedding returns no error; a wrong segment rule, a width off by a glyph, a map that skips a character or text that is not in the font's encoding show only for particular fonts and texts.",
 ["resources/font/font.go", "resources/font/pdf.go", "core/write/page.go", "core/write/content.go", "core/write/watermark.go"],
 [("character maps", "resources/font/font.go parseCmap, parseCmapFormat4, parseCmapFormat12"), ("widths and Unicode map", "resources/font/pdf.go createFontDict, createToUnicodeCMapData"), ("text codes", "core/write/content.go encodeText"), ("watermark graphics", "core/write/watermark.go AddWatermark")],
 "model_checking", "The model is the description each font file is generated from, and an interpreter of content streams. Subsetting keeps the whole file (the code says so); characters outside WinAnsiEncoding cannot be shown with the simple fonts written.",
 "exhaustive enumeration of small font files, font call sequences, texts and watermarks against the description they are generated from",
 [("font", "character map, advance widths, metrics, names", "font file tables, font dictionary, descriptor, ToUnicode map"), ("page", "fonts and shown texts", "resources and content stream")], ["font objects of the written file", "interpreted content streams", "extracted text"])

prop("P14", "Extracted text and graphics say what the page shows",
 "For every legal content stream, extraction reports each piece of text once, in order, decoded through the font in force (ToUnicode character maps, Differences, WinAnsi, MacRoman and Standard encodings, in literal and hexadecimal strings), at the position of the text line matrix and with the font, size, spacing and rise in force; each rectangle, line and image with the transformation, colours (RGB, gray, CMYK) and line width in force, state being saved and restored by q and Q. The result does not depend on how the program is spelled or divided over several content streams.",
 ["programs", "inputs"], "all programs up to 4 operators (thorough 5) over the operator alphabets, all deviations of lexical form, all literal strings up to length 4 (5) over tricky bytes, all codes of all encodings, all bfchar/bfrange block compositions up to the stated size",
 "Tests extract a handful of hand-written streams; state that leaks past Q, an escape before a digit or a range boundary shows only for particular programs.",
 ["content/extract/content_stream.go", "content/extract/encoding.go", "content/extract/resources.go", "content/extract/pages.go"],
 [("graphics and text state", "content/extract/content_stream.go"), ("character decoding", "content/extract/encoding.go")],
 "model_checking", "Every program is run by an independent interpreter and by the real extraction. Glyph advance (font metrics), special colour spaces, graphics state dictionaries, text inside form XObjects, MacExpert encoding and glyph names outside the Latin character set (other than uniXXXX) are outside.",
 "exhaustive enumeration of bounded content stream programs against a reference interpreter",
 [("graphics state", "matrix, colours, widths, font, stack", "content/extract parseContentStreamWithDecoders")], ["text elements, graphics and image references of ContentDocument"])

prop("P12", "Metadata, bookmarks and annotations keep every value",
 "For every text (any Unicode characters, any PDF syntax in it), every set of metadata fields and dates, and every tree of bookmarks, what is set through the writer, in any sequence of calls, is in the file in legal form (text strings, outline links and counts, destinations to the right page) and extraction returns exactly it. Extraction returns the same for every legal spelling in other documents: PDFDocEncoding, UTF-16 and UTF-8 strings, literal or hexadecimal, direct or indirect, destinations and go-to actions; and every annotation with its page, type, rectangle, texts, colour, border, link target, state and quadrilaterals.",
 ["inputs", "histories", "configurations"], "all texts up to 2 (thorough 3) characters over 29 tricky characters, all subsets of the fields, all ordered bookmark forests up to 4 (5) nodes with all target assignments, all sequences of 3 (4) setting calls, all spellings of all PDFDocEncoding characters and of pairs (triples) of 25 characters, all pairs (triples) of annotation attribute deviations for 17 types",
 "Tests write one title and two bookmarks; escaping, surrogates, sibling links of deeper trees and indirect attributes each fail only for particular values or shapes.",
 ["core/write/metadata.go", "core/write/bookmarks.go", "content/extract/metadata.go", "content/extract/bookmarks.go", "content/extract/annotations.go", "content/extract/values.go"],
 [("outline links and counts", "core/write/bookmarks.go"), ("text string coding", "core/write/writer.go textString, content/extract/values.go"), ("annotation attributes", "content/extract/annotations.go")],
 "model_checking", "Models: a map of fields and an ordered forest; outputs are read by the strict oracle and by extraction. Bookmark colours and styles, XMP and name-tree destinations are outside; a date that cannot be parsed is replaced by the current time (not claimed).",
 "exhaustive enumeration of texts, field sets, bookmark forests, call sequences and spellings against reference models",
 [("document information", "fields", "Info dictionary"), ("outline", "forest of items", "outline dictionaries")], ["Info dictionary and outline of the output", "extracted metadata, bookmarks and annotations"])

prop("P15", "Images, fonts and page resources are embedded and reported exactly",
 "Every picture added to a document (PNG of any colour type, depth and transparency, JPEG with any frame type and segments) is stored so that a reader sees exactly its pixels and opacity at its size, a JPEG file byte for byte; names of images on a page never clash. For every document, in every layout, encryption and chain of filters, with entries direct, indirect or inherited, extraction reports for each page exactly the images, forms and fonts of its resources with their attributes, and each image object of the pages once, in page order, with its data (a JPEG, JPEG 2000, fax or JBIG2 image in its own format). Extraction to a directory writes exactly these images and a content file that agrees with them.",
 ["inputs", "configurations", "histories"], "31 kinds of PNG x all pictures up to 2x2 pixels (thorough 3x2) over 2..5 colours; 13 JPEG frame types x all sequences of up to 2 (3) of 12 segments x sizes, every prefix; all sequences of 2 (3) images on two pages; all filter chains up to 2 (3) x 5 image formats x 8 predictors x 3 spellings; all assignments of 6 targets to 3 names on a page, with another page (all pairs); all combinations of font type, descriptor, encoding, ToUnicode and indirect entries; all sets of 4 images on two pages extracted to a directory",
 "Tests embed one RGB picture and look for a substring; sample layouts, transparency kinds, odd JPEG segments, indirect attributes and names shared by pages each fail only for particular inputs.",
 ["core/write/image.go", "core/write/page.go", "content/extract/images.go", "content/extract/resources.go", "content/extract/extract.go", "content/extract/directory.go", "core/parse/syntax.go"],
 [("sample conversion and soft masks", "core/write/image.go AddImage"), ("JPEG header", "core/write/image.go parseJPEGHeader"), ("which images a document has", "content/extract/images.go ExtractAllImages"), ("font attributes", "content/extract/resources.go extractFontInfo")],
 "model_checking", "Written images are rendered by an independent reader of samples and soft masks, extracted ones compared with the stored bytes. Resources of form XObjects are not searched; colour spaces are reported, not interpreted.",
 "exhaustive enumeration of bounded pictures, JPEG headers, image placements and resource dictionaries against reference models",
 [("picture", "colour and opacity of every pixel", "image XObject and soft mask"), ("resources", "names to images, forms and fonts of each page", "resource dictionaries")], ["pixels of written images", "extracted images, fonts and XObjects", "files of the output directory"])

prop("P16", "Comparison reports exactly the differences of two documents",
 "Comparing two documents reports every difference of their metadata, page count, page sizes and rotation, texts (string, place, font and size; with word or character granularity string and place only), graphics, image draws (data, place and size), annotations, bookmarks and form field values, under its kind and on its page, and nothing else: what is listed as removed, added, changed or moved is exactly the elements that the two pages do not share. The same content in another layout, encryption or object numbering is identical apart from being encrypted. Tolerances, ignored metadata, dates, producer, case and whitespace, sensitivity and the least change suppress exactly what they name; a moved text or image is listed as such; the summary, the text report and the JSON report agree with the result, and comparing again gives the same.",
 ["inputs", "configurations"], "111 single changes of a rich document, both ways, under 17 option sets; all pairs of changes of different kinds (thorough: all 12,000 pairs, 3 option sets each); one document in 7 layouts x 2 numberings, all pairs, all option sets; all pairs of lists of up to 2 (3) of 6 texts under 24 option sets, 6 graphics, 7 image draws, 5 annotations; all pairs of field values of two fields and form types; all offsets around every tolerance; all changed fractions of texts up to 11 (24) characters; all pairs of outlines of up to 4 (5) bookmarks and all changes of one bookmark; a picture with any one of 32 (all 3,072) bytes changed",
 "Tests compare a few pairs that differ in one text or image; that duplicates are counted, that nothing else is reported, that order, layout and option combinations do not matter needs all small pairs.",
 ["core/compare/compare.go", "core/compare/text_diff.go", "core/compare/myers_diff.go", "core/compare/report.go"],
 [("matching of texts", "core/compare/text_diff.go compareText, myers_diff.go myersDiff"), ("matching of images", "core/compare/compare.go compareImagesWithBinary"), ("form values", "core/compare/compare.go compareForms"), ("reports", "core/compare/report.go")],
 "model_checking", "Texts of the same string nearer to each other than the tolerance (chains) are not explored; fields without a value are not compared by the library.",
 "exhaustive enumeration of pairs of bounded documents and options against the multiset difference of their models",
 [("document", "metadata, pages with elements, bookmarks, field values", "the extracted content of both documents"), ("matching", "which elements correspond", "compareText, compareImagesWithBinary")], ["ComparisonResult", "text report", "JSON report"])

prop("P17", "Form fields read and write every attribute exactly",
 "For every document with a form (any hierarchy of fields, attributes own or inherited, direct or indirect, any spelling of texts and names, encrypted or not), reading reports every terminal field once with its full name, type, value, default, options, flags, maximum length, label, rectangle and page, and nothing that only looks like a field. Every form built through the public API, by any sequence of calls, is legal and reads back as exactly what was set, its appearances show the text asked for in their box, the appearance in force is the one its state selects, and actions say what was asked for. Validation accepts exactly the values that the required flag, length, options, range and pattern of each field allow.",
 ["inputs", "histories", "configurations"], "all field forests up to 4 nodes (thorough 5) x namings x own or inherited attributes, all texts up to 2 (3) characters of 29, all 256 flag states, all spelling choices, 29 encryptions, 1,024 appearance dictionaries, all sequences of 3 (4) building calls per field kind, all values against all limits",
 "Tests build one text field and a check box and look at one flat form; hierarchy, inheritance, decoys, escapes and the order of calls each fail only for particular forms.",
 ["forms/acroform/parser.go", "forms/acroform/extract.go", "forms/acroform/writer.go", "forms/acroform/validation.go", "forms/acroform/appearance.go", "forms/acroform/actions.go", "forms/forms.go"],
 [("field hierarchy and inherited attributes", "forms/acroform/parser.go, extract.go"), ("field dictionaries", "forms/acroform/writer.go"), ("value checks", "forms/acroform/validation.go"), ("appearance streams", "forms/acroform/appearance.go")],
 "model_checking", "Models: a tree of fields with attributes, and the definition of each flag; output is read by the strict oracle and the library. Rich text, stream values and keys with # escapes are outside; built widgets are not attached to pages by the library (a documented limit, not claimed).",
 "exhaustive enumeration of field forests, attribute spellings, building call sequences and values against a field model",
 [("form", "tree of fields with attributes", "AcroForm field dictionaries")], ["AcroForm, FormSchema, field values and validation results", "built bytes"])

prop("P18", "Filling a form sets exactly the named values",
 "For every form document in every file layout (tables, object streams, updates, encrypted), and every sequence of filling calls through any filling interface, the result is a legal document in which exactly the named fields have exactly the given values (check boxes and radio buttons with matching appearance states), as read by the library and by a strict reader; every other field, object and trailer entry keeps its value, text anywhere that only looks like a field is untouched, a name that is not a field changes nothing, and removing the form removes only the form.",
 ["histories", "inputs", "configurations"], "all fields x all values x layouts, all texts up to 2 (3) characters of 29, all subsets of fields, all sequences of 3 (thorough 4) filling calls through all interfaces, single-object replacement of every object by every body",
 "Tests fill one value of a flat, uncompressed form and search the bytes for it; escapes, repeated fills, compressed or updated objects and look-alike text fail only for particular files.",
 ["forms/acroform/fill.go", "forms/acroform/replace.go", "forms/acroform/fill_streams.go", "forms/acroform/integration.go", "forms/acroform/flatten.go", "forms/forms.go", "core/manipulate/manipulate.go"],
 [("finding and rewriting the field objects", "forms/acroform/fill.go, fill_streams.go"), ("formatting values", "forms/acroform/replace.go"), ("button states", "forms/acroform/fill.go")],
 "model_checking", "The model is the document's object graph with the values applied; every object of the output is compared. Appearance streams of text fields are not regenerated by the library (not claimed).",
 "exhaustive exploration of filling call sequences over form documents in all layouts against an object model",
 [("form values", "value and appearance state per field", "field dictionaries of the filled file")], ["all objects of the filled file", "field values as the library reads them"])

prop("P19", "XFA packets and values survive reading, building, updating",
 "Extracting the XFA packets of a document returns every packet with exactly its bytes, in every file layout, encryption, storage of the packets and spelling of the packet list, and no other packet. Building a document from packets and rebuilding one with changed packets gives exactly those packets, with every other object and the encryption unchanged. Setting field values (in the XML, in the document, through the forms interface, repeatedly) changes the value of exactly the named fields to exactly the given text, whatever characters it has, and nothing that only looks like a field; datasets converted to XML and back are the same.",
 ["inputs", "histories", "configurations"], "all sets of the 9 packets x 14 contents; 5 plain layouts and every encryption (referenced and direct) x 6 storages x 7 list spellings x 8 placements; all sets of changed packets; all sequences of 3 of 20 (thorough 30) parts given to the builder; 13 field shapes x all pairs of 10 decoys x 6 documents, all pairs of field shapes; all sequences of 2 (thorough 3) of 6 updates in every layout; all group forests up to 4 (5) nodes x 28 values",
 "Tests read three packets of one plain file and look for substrings in a small XML text; escapes, indirect lists, self-closing or commented fields and encrypted documents fail only for particular inputs.",
 ["forms/xfa/xfa.go", "forms/xfa/xfa_datasets_translator.go", "core/write/xfa_builder.go", "forms/forms.go", "core/parse/syntax.go"],
 [("finding and decoding packets", "forms/xfa/xfa.go ExtractAllXFAStreams"), ("rebuilding", "core/write/xfa_builder.go BuildFromOriginal"), ("updating values", "forms/xfa/xfa.go updateFieldValues"), ("datasets conversion", "forms/xfa/xfa_datasets_translator.go")],
 "model_checking", "The models are the packet map, the document's object graph, and the XML tree read by an independent reader. XFA as one stream, packets added to a document that lacks them and XML that is not well-formed are outside.",
 "exhaustive exploration of XFA documents and update histories against packet, object and XML tree models",
 [("packets", "name to bytes", "streams of the XFA list"), ("datasets", "tree of groups and field values", "datasets packet")], ["extracted packets", "all objects of the written file", "XML nodes of the updated packet"])

prop("P20", "Drawing calls write exactly the operators they name",
 "Every drawing call on a page, with any numbers, names and texts, writes exactly the operators and operands it names (numbers to the four decimals written), and any sequence of calls writes them in order, each separated from its neighbours, whatever was written before. Any interleaving of drawing on several pages, adding resources to them, finishing them in any order and writing the document in between gives each page exactly its own content, resources and size, in the order in which the pages were added to the document, and writing twice gives the same.",
 ["inputs", "histories"], "every drawing call x every combination of 12 numbers (all operands), names and texts; all sequences of 3 (thorough 4) calls; all interleavings of drawing, adding fonts and images, finishing 3 pages and writing, up to depth 5 (6)",
 "Tests look for a few substrings of a content stream; operands swapped, numbers written in a form that is not PDF, operators run together or pages that share state show only for particular values and orders.",
 ["core/write/content.go", "core/write/page.go", "core/write/builder.go"],
 [("operators", "core/write/content.go ContentStream methods"), ("page assembly", "core/write/page.go PageBuilder.Build, SimplePDFBuilder")],
 "model_checking", "The model is the list of operators the calls name; an independent lexer reads the content. Numbers are compared to half a unit of the fourth decimal.",
 "exhaustive enumeration of drawing calls, values, sequences and page interleavings against the operators they name",
 [("page", "operators so far, resources, finished or not", "ContentStream, PageBuilder, SimplePDFBuilder")], ["content stream operators", "page dictionaries of the written file"])

prop("P21", "Extraction reports every page as the document gives it",
 "For every page tree (any shape, empty inner nodes, attributes own or inherited from any level, direct or indirect, null, in any file layout, encrypted or not), extraction reports every page once, in order, with its number, boxes (media, crop, bleed, trim and art, with any corner first), width, height, rotation and the resources in force: every font with its properties and every named image, and nothing of other pages. A page's content is what its streams say in order, however the page's content is divided, stored or referred to.",
 ["inputs", "configurations"], "all page trees up to 4 leaves and 3 inner nodes (thorough 5 and 4) x attribute placements x 5 layouts (and encryption); all boxes and rotations of 20 spellings in combinations; all resource placements; all lists of up to 3 content streams of 9 kinds in every layout",
 "Tests extract one or two flat files; inheritance, null, indirect and reversed boxes, resources at inner nodes and divided contents each fail only for particular trees.",
 ["content/extract/pages.go", "content/extract/resources.go", "content/extract/extract.go", "content/extract/values.go", "core/parse/syntax.go"],
 [("page list and inheritance", "content/extract/pages.go, extract.go withInherited"), ("boxes", "content/extract/pages.go pageBox"), ("resources", "content/extract/resources.go")],
 "model_checking", "The model is the description each document is generated from, and the pages as the strict oracle reads them. Pages without /Type are outside (extraction leaves them out).",
 "exhaustive enumeration of page trees, attributes, resources and contents against the description they are generated from",
 [("page tree", "nodes, attributes, resources", "ContentDocument.Pages")], ["extracted pages", "extracted text"])

prop("P22", "No call changes another's input, result or later calls",
 "Whatever calls were made before, on the same bytes, the same opened document, form or packets and the same arguments, every call (opening, reading objects and streams, decrypting, extracting, comparing, page operations, reading, validating and filling forms, XFA, building, fonts, filters) gives the result it gives as the first call of a process; it leaves its input bytes (and the room behind them), its arguments and all results returned earlier as they are, and giving the same input twice gives the same result. Builders, writers, readers and manipulators used alternately, step by step, each give what they give alone.",
 ["histories", "inputs"], "all ordered pairs (thorough triples) of about 20 calls, followed by the first again, on 12 documents with write-protected input and shared handles; all pairs of 18 four-step sessions x all 70 interleavings",
 "Tests make one call on fresh input; a buffer that is shared, a cache with a key too small, an append into the caller's bytes or a result that depends on map order only show in particular histories.",
 ["core/parse/api.go", "core/parse/get_object.go", "core/parse/filters.go", "core/encrypt/decrypt.go", "core/manipulate/manipulate.go", "core/write/writer.go", "content/extract/extract.go", "content/extract/encoding.go", "forms/forms.go", "forms/acroform/replace.go", "forms/xfa/xfa.go", "resources/font/pdf.go"],
 [("results that could alias input or shared state", "core/parse GetObject, core/encrypt DecryptObject"), ("state of handles", "core/parse PDF, core/manipulate PDFManipulator, forms Form"), ("tables of the packages", "content/extract/encoding.go, core/write/page.go")],
 "model_checking", "The oracle is what the same call gives alone in a fresh process state; its correctness is the subject of the other properties. Random parts of encrypted output are left out by reading it back.",
 "exhaustive exploration of call histories and session interleavings on the real code with write-protected inputs",
 [("process", "inputs, arguments, handles, earlier results", "write-protected memory, retained results")], ["results of every call", "writes to inputs (memory faults)"])

prop("P23", "Documents can be read and changed from several goroutines",
 "Any two calls of the library that run at the same time in different goroutines, on the same bytes, the same opened document, form or packets and the same arguments, make no conflicting memory accesses and give each what it gives alone; this holds also for two builders, writers, fonts or manipulators, one in each goroutine.",
 ["schedules", "inputs"], "all unordered pairs of about 20 calls on 5 (thorough 12) documents with shared handles, and of 18 sessions, in both orders and at once, each pair in two new processes",
 "Tests run one goroutine; a lazily filled cache or a package-level buffer is wrong only when two calls meet.",
 ["core/parse/api.go", "core/parse/get_object.go", "core/parse/filters.go", "core/encrypt/decrypt.go", "core/manipulate/manipulate.go", "core/write/writer.go", "content/extract/extract.go", "content/extract/encoding.go", "forms/forms.go", "forms/xfa/xfa.go", "resources/font/font.go"],
 [("state of shared handles", "core/parse PDF, forms Form"), ("tables of the packages", "content/extract/encoding.go, core/write/page.go, resources/font")],
 "model_checking", "Partial-order argument: two calls without conflicting accesses commute at every step, so all their interleavings give what one gives; the race detector (happens-before) checks that no accesses conflict, the two calls running one after the other in both orders, and at once, without synchronisation it can see. Methods that change one handle (a manipulator, a writer) are not called on the same handle from two goroutines.",
 "partial-order reduction: one schedule per order of every pair of calls under a happens-before race detector",
 [("process", "memory shared by two calls", "the real memory accesses")], ["conflicting accesses", "results of both calls"])

prop("P24", "XFA templates and settings convert to and from XML exactly",
 "Reading an XFA template reports every field once, in document order and at any depth of subforms, with its own name, label, description, type, value, options, required, read-only and hidden marks, page, place, validation and scripts, whatever texts they hold, and nothing of other elements; reading a configuration, locale set, connection set or stylesheet reports every setting. All of this depends only on the XML document and not on how it is spelled (references, CDATA, comments, quotes, prefixes, white space, attribute order). Everything that was read is written as well-formed XML that says the same, reads back as the same value, and is the same text every time.",
 ["inputs", "histories"], "all combinations of field parts, attributes, types, part orders and texts, all forests of subforms, fields and decoys up to 4 nodes, 540 fields x 6 part orders and all lists up to 3 for the plain field list, each setting x each text, all pairs of settings, lists up to 3, each in up to 11 XML spellings",
 "Tests convert one field or one setting; a part that is collected in the wrong element, a setting only one direction knows or an unstable order shows for particular combinations only.",
 ["forms/xfa/xfa_form_translator.go", "forms/xfa/xfa_config_translator.go", "forms/xfa/xfa_locale_translator.go", "forms/xfa/xfa_connection_translator.go", "forms/xfa/xfa_stylesheet_translator.go", "forms/forms.go", "core/parse/xfa_parser.go"],
 [("field list", "core/parse/xfa_parser.go ParseXFAFields"), ("template reader", "forms/xfa/xfa_form_translator.go parseXFAStructure"), ("template writer", "forms/xfa/xfa_form_translator.go FormToXFA"), ("settings", "forms/xfa/xfa_*_translator.go")],
 "model_checking", "The vocabulary of templates and settings is the library's own (label or caption, desc, value, items, validate, event); elements of the full XFA grammar beyond it are ignored. Texts have no white space at their ends.",
 "exhaustive enumeration of templates and settings and of their XML spellings against a tree made from the model",
 [("template", "fields, parts, subforms", "FormSchema"), ("settings", "present settings and texts", "XFAConfig, XFALocaleSet, XFAConnectionSet, XFAStylesheet")], ["values read", "XML written"])
prop("P25", "Failures say what went wrong, and warnings are kept",
 "Every entry point that is given a document tells one kind of failure from another (a wrong password, bytes that are no document, a document without a form, an object that does not exist), no kind is reported where another one or none is true, and errors.Is, IsPDFError, GetErrorCode, IsNotFound, IsEncryptionError and IsValidationError find the kind through every chain of wrapping errors, the outermost deciding, with causes and texts kept. A warning collector gives exactly the warnings added while it was enabled since it was last cleared, in order, by level and by code, and what it handed out does not change. An output or input stream that fails at any byte is reported with its cause, nothing is written after it and writing again gives the same file, and extracting into a directory where something is in the way either fails with the cause or gives a result in which every named file is there and complete, and leaves everything else alone.",
 ["inputs", "histories", "fault_sequences"], "all error trees of 9 wrappings up to depth 2 (23 codes) and 3 (4 codes; thorough 4), all sequences of 5 (thorough 7) collector operations, 28 entry points x 9 encryptions x 4 form kinds x 10 wrong passwords, every object number, every failing byte of an output, 1024 sets of obstacles in a directory",
 "Tests look at one error at a time, straight from its constructor, and at disks that never fail; a kind that is lost in one layer sends a caller down the wrong path (asking for no password, or reporting no form) for particular documents only.",
 ["types/errors.go", "types/warnings.go", "core/parse/api.go", "core/encrypt/decrypt.go", "forms/forms.go", "content/extract/directory.go", "core/write/writer.go", "resources/font/font.go"],
 [("kinds", "types/errors.go"), ("collector", "types/warnings.go"), ("opening", "core/parse/api.go OpenWithOptions"), ("forms", "forms/forms.go Detect, Extract"), ("directory", "content/extract/directory.go ExtractToDirectory")],
 "model_checking", "Writers and readers keep the rules of io.Writer and io.Reader. Obstacles are files for directories, directories for files, dangling links and a device that is always full.",
 "exhaustive enumeration of error trees, operation sequences, entry points with passwords and injected faults against reference models",
 [("error tree", "wrappings, codes", "types.PDFError"), ("collector", "warnings, enabled, results handed out", "types.WarningCollector"), ("fault", "failing byte or path", "io.Writer, file system")], ["errors", "warnings", "bytes and files written"])

prop("P26", "The readers of the file structure agree with the file",
 "For every legal file, layout and history of updates, the byte-perfect document and the functions that read one section, trailer, position or object number state exactly what the bytes there say: every revision's offsets and bytes, each cross-reference entry in file order with its number, generation, place, state and bytes, the trailer's size, references, previous section and identifiers with exactly its bytes, and the newest revision's trailer. The place found for an object number is the place of its current version, and reading at that place by position, by number or from its object stream gives that object, decrypted where the document is; asked for an object that is deleted, was never written, or stands elsewhere, they report that it is not there, whatever strings, streams and comments look like. The input is not changed.",
 ["inputs", "histories", "configurations"], "8 documents x all single deviations from the default layout (about 75) and all pairs for updated documents (thorough: for all documents), all update histories of 2 (thorough 3) revisions of 2 objects in 2 layouts, over 700 (thorough 2880) spellings of trailers, 14 texts that look like structure x 4 places x 4 histories, 128 free lists, 32 encrypted files; every section, entry, position and object number of each",
 "Tests call these functions on one small table file with everything in its usual place; wrong answers need a comment, a string that holds a keyword, a deletion, a move into an object stream or a section of the other kind.",
 ["core/parse/document_parser.go", "core/parse/document.go", "core/parse/parser.go", "core/parse/get_object.go", "core/parse/object_stream.go", "core/parse/xref_stream.go", "core/parse/lexical.go", "core/parse/incremental.go", "core/parse/api.go"],
 [("sections", "core/parse/document_parser.go ParseXRefDataRaw, ParseTrailerDataRaw"), ("locations", "core/parse/get_object.go FindObjectLocation; core/parse/parser.go FindObjectByNumber"), ("objects", "core/parse/get_object.go GetDirectObject; core/parse/object_stream.go GetObjectFromStream"), ("trailer", "core/parse/parser.go ParsePDFTrailer; core/parse/api.go Trailer")],
 "model_checking", "Inputs are legal PDF, checked by the strict oracle; hybrid-reference and linearized files, comments inside references and escaped names of trailer keys are outside the generator.",
 "exhaustive enumeration of generated files in bounded layouts and histories, every reader compared with an independent strict parser",
 [("section", "offset, kind, entries, trailer", "parse.XRefData, parse.TrailerData"), ("object", "number, generation, place", "parse.ObjectLocation, parse.PDFRawObject")], ["offsets", "bytes", "entries", "objects"])

prop("P27", "The command-line tool does what it reports",
 "Given a document with an XFA form that is not encrypted or opens without a password, and a JSON object of values, the command-line tool writes exactly the document that holds these values, with every digit of a whole number, and everything else as it was, to the output path, whatever stood there before and also when that is the input path; with -extract-schema it writes exactly the schema of the form's template. It exits with 0 and reports success if and only if it has written the whole output. In every other case (options or files that are missing, unusable, malformed or cannot be written, a password it does not know, no form, no data) it exits with another code, says why, reports no success and leaves every file that it could not write to as it was.",
 ["inputs", "configurations", "fault_sequences", "histories"], "63 layouts and encryptions x 8 data files x 6 (thorough 60) combinations of output states and options with a second run on the result; 8 (thorough 124) templates per layout; all 128 sets of options; 29 file faults x 12 contexts; every truncation of a data file, 60 (thorough 400) truncations of 3 documents, 12 sizes at which the disk is full",
 "No test starts the program; wrong results need an encrypted document, a document that mentions encryption, a number of more than 15 digits, an existing output file or a fault of the file system at the right moment.",
 ["cmd/pdfer/main.go", "forms/xfa/xfa.go", "forms/xfa/xfa_form_translator.go", "core/encrypt/decrypt.go", "core/write/xfa_builder.go"],
 [("program", "cmd/pdfer/main.go main"), ("schema", "cmd/pdfer/main.go handleExtractSchema"), ("filling", "forms/xfa/xfa.go UpdateXFAInPDF")],
 "fault_enumeration", "The log file is not one of the other files; what remains of an output whose writing fails is not judged; documents are those of P19's generator.",
 "exhaustive enumeration of runs of the real program over bounded documents, options, file states and file faults",
 [("files", "what stands at the input, data, output and log paths", "the scratch directory"), ("result", "exit code, standard output and error", "the process")], ["exit code", "output", "files", "values"])

prop("P28", "Operations on a document compose",
 "After any sequence of operations that each take a document and write a document (rotating, deleting, inserting, extracting, merging and splitting pages, filling a form's fields or its XFA data, replacing an XFA packet, removing the form, just saving), with a password where one is needed, the last document is exactly what the sequence says: every page, field value, packet, bookmark, annotation, metadata entry and other object that no operation was about is as it was, under its number, and the operations in place keep the encryption with both passwords. Each intermediate document is accepted by every other operation and every reader of the library, which report the same pages, values, packets and bookmark targets as an independent strict reader. An operation fails, and writes nothing, exactly when the document it is given lacks what it works on.",
 ["histories", "configurations"], "all sequences of 3 of 16 operations on 12 layouts and encryptions of a document with pages, two kinds of form, bookmarks and metadata (thorough: of 4 operations on 5 of them)",
 "Tests run one operation on a fresh document; what one writes and another must read (numbering, generations, shared objects, encryption, catalog entries) only goes wrong in particular sequences.",
 ["core/manipulate/manipulate.go", "core/manipulate/tree.go", "core/manipulate/merging.go", "core/write/writer.go", "core/write/xfa_builder.go", "forms/acroform/fill_streams.go", "forms/acroform/flatten.go", "forms/xfa/xfa.go", "forms/forms.go"],
 [("saving pages", "core/manipulate/manipulate.go rebuildPDF"), ("page sets", "core/manipulate/tree.go pageCopier"), ("saving packets", "core/write/xfa_builder.go BuildFromOriginal"), ("saving fields", "forms/acroform/fill_streams.go FillFormFieldsWithStreams"), ("removing the form", "forms/acroform/flatten.go FlattenForm")],
 "model_checking", "What page sets do with the form, bookmarks and metadata of a document is not claimed; the operations' own arguments are explored by P10, P11, P18 and P19.",
 "exhaustive enumeration of sequences of the real operations up to a depth, each document compared with a model that executes the same sequence",
 [("document", "objects, pages and protection after each operation", "model of cdoc in mc/props/compose.go, read back by the strict reader")], ["written document", "pages", "values", "packets", "bookmarks", "errors"])
