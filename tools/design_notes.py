CAUGHT = {}
NOTES = {
"P01": dict(oracle="a map from object number to last written value; output read back by pdfer (standard, byte-perfect, function-level) and by the strict oracle.", cost="about 10 s quick."),
"P02": dict(oracle="the strict oracle only.", cost="about 6 s quick."),
"P03": dict(oracle="a list of maps, one per revision.", cost="about 6 s quick (10,000 histories).", limits="hybrid-reference files (/XRefStm) are outside; the raw object accessors of byte-perfect mode still return the last version of a deleted object, which is not asserted."),
"P04": dict(oracle="extents computed by the strict oracle.", cost="about 3 s quick (34,000 files)."),
"P05": dict(oracle="independent decoders and the input string.", cost="2 s quick, 15 s thorough."),
"P06": dict(oracle="the generator's model document.", cost="about 11 s quick (34,000 files)."),
"P08": dict(oracle="an independent implementation of the standard security handler (`mc/gen/crypt.go`, `aes256.go`), used to make input files and to decrypt output through the strict oracle.", cost="about 40 s quick (35,800 cases).", limits="public-key handlers and per-stream Crypt filters are outside. AES-256 as written and read by the library is its own scheme, not that of ISO 32000-2 (recorded finding); it is checked for consistency: what is written reads back with the right passwords only, and nothing stays in clear."),
"P09": dict(oracle="returning at all: the supervisor turns panics, fatal errors, stack overflow (64 MB limit), hangs (60 s per case) and memory exhaustion into violations of the journaled case.", cost="about 95 s quick (159,000 cases).", limits="single faults; the result of a corrupted document is not judged here."),
"P10": dict(oracle="a list of pages (identity, rotation, attributes after inheritance); output read by the strict oracle and by content extraction.", cost="about 57 s quick (114,000 cases).", limits="dictionary keys written with #xx escapes are not recognised by the library when they are structural (for example /Ki#64s) and are outside."),
"P11": dict(oracle="the object graph of the selected source pages, compared up to renumbering.", cost="about 50 s quick.", limits="document-level entries (Info, names, outlines, forms) are dropped by extraction and merging and are not claimed."),
"P13": dict(oracle="the description (map, widths, metrics, names) from which `mc/gen/ttf.go` writes each font file, and an independent interpreter of the content streams (`mc/props/fonts.go`).", cost="about 35 s quick.", limits="whole files are embedded, so no glyph outlines are rewritten; text centring of watermarks is approximate by design and only bounded; characters outside WinAnsiEncoding; the font box is a constant."),
"P14": dict(oracle="an interpreter of the graphics and text state (`mc/props/content.go`) and encoding tables written from ISO 32000-1 Annex D; programs are given both as raw content streams in generated documents and through the page builder.", cost="about 60 s quick (13,800 cases, 83,000 states).", limits="positions are those of the text line matrix: the advance of shown text is not modelled by the library (estimated widths are not claimed); resource names are compared as written (no #xx equivalence)."),
"P12": dict(oracle="a map of fields, an ordered forest and a list of annotation records; the strict oracle decodes text strings by its own PDFDocEncoding table and checks every outline link and count.", cost="about 15 s quick (24,300 cases).", limits="texts without U+001B; bookmark destinations are checked for their page only (the library always writes /XYZ 0 792); dates that do not parse become the current time and ModDate defaults to it (not claimed)."),
"P15": dict(oracle="an own PNG and JPEG writer that knows every pixel, an own renderer of image XObjects with soft masks over the strict oracle, own encoders of filters and predictors.", cost="about 25 s quick (29,500 cases).", limits="colours of 16-bit samples with transparency within one unit of 255; image order within a page is not fixed; two images of one name on different pages share the ID in content.json."),
"P16": dict(oracle="a model of each document; the expected differences are the multiset difference of the two models under the options (`mc/props/compare.go`), independent of how the library pairs elements.", cost="about 60 s quick (5,700 cases, 45,000 comparisons).", limits="chains of near places; which of several equal elements is paired; XFA values in groups; cross-page moves are a removal and an addition."),
"P17": dict(oracle="a tree of fields with attributes (`mc/props/forms.go`), a record of building calls and the definition of the field flags; built files are read by the strict oracle.", cost="about 25 s quick (30,600 cases).", limits="rich text, stream values, widgets' border entries; widgets made by the builder are not put on pages (the code says so); empty required values are not asserted."),
"P18": dict(oracle="the document's object graph with the values applied; texts compared as decoded text strings.", cost="about 20 s quick (4,600 cases).", limits="appearance streams of text fields are not regenerated; flattening removes the form only and keeps the widgets as they are."),
"P19": dict(oracle="packets: the bytes that were stored; rebuilt documents: the object graph with the packets replaced; values: an XML tree from an independent reader (mc/ref/xml.go) to which the same values were applied.", cost="about 25 s quick (38,000 cases).", limits="XFA as one stream and packets added to a document without them are not claimed; of several fields with one name the first is set; datasets values that spell a number or truth value are read as such."),
"P20": dict(oracle="the list of operators the calls name; content is read by an independent lexer (`mc/props/draw.go`).", cost="about 13 s quick, 80 s thorough (19 million calls).", limits="numbers carry four decimals; array elements that are neither text nor number are dropped by ShowTextArray (not claimed)."),
"P21": dict(oracle="the description from which each document is generated, resolved by inheritance in `mc/props/pageread.go`, and the page list of the strict oracle.", cost="about 40 s quick, 490 s thorough (1.1 million documents).", limits="pages without /Type; form XObject resources; font family names keep their subset prefix."),
"P22": dict(oracle="what each call gives alone. Inputs lie in memory that is write-protected (mmap, mprotect) with room behind, so that changing or appending to them faults.", cost="about 10 s quick, 60 s thorough.", limits="two calls (thorough three) of a history; results are compared as values."),
"P23": dict(oracle="the Go race detector and the results of each call alone. The two goroutines are ordered by a flag the detector does not see (`//go:norace`), so that every pair of conflicting accesses is reported whatever the schedule.", cost="about 75 s quick with the build.", limits="synchronisation inside the standard library (pools, type caches) can order accesses by chance in one of the four runs of a pair; two of them begin a new process (one after the other, and at once), so that first uses are seen too."),
"P24": dict(oracle="an XML tree made from the model, spelled by an own writer and, for what the library writes, read by the strict XML reader.", cost="6 s quick.", limits="the library's own vocabulary; texts without outer white space; rule types other than calculate, validate and set value have no XML form."),
"P25": dict(oracle="what was built or done: the list of library errors in a tree, a list of warnings, the password and form of the generated document, the failing byte, the paths that are blocked.", cost="5 s quick, 170 s thorough.", limits="messages are compared only for errors the check builds itself; an unsupported encryption is not told from a wrong password; the message for zero bytes has no kind."),
"P26": dict(oracle="mc/ref's strict parser, which reads each section on its own and gives the place and bytes of every part; for encrypted files the generated plain objects.", cost="about 40 s quick, 220 s thorough.", limits="legal files only (damaged ones: P04, P09); the texts FindObjectLocation falls back on in damaged files are not judged."),
"P27": dict(oracle="the models of P19 (document, data packet as an XML tree) and P24 (schema of a template), compared with the files the program leaves; the directory before and after each run.", cost="about 17 s quick (5200 processes).", limits="a run that is killed while it writes is not examined: the program writes in place and promises nothing about it."),
"P28": dict(oracle="the models of P10/P11 (list of pages, object graph of a selection), P18 (fields) and P19 (packets) applied one after another to one model of the document.", cost="about 40 s quick (52 000 documents), thorough about 6 min.", limits="one document with everything in it; the arguments of the operations are explored by their own properties."),
}
