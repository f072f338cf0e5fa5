From 35dfed014992f6943c54ff6af0660b3f60071777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 01/73] fix: read objects and cross-reference sections by their
 syntax

Keywords inside strings, comments and stream data ended objects early; xref
tables beyond 10000 bytes, xref streams without a filter, with Average/Paeth
predictors or long dictionaries were not read; freed objects and objects that
moved between object streams and the file body kept their old entry.
---
 core/parse/get_object.go    |  45 ++-
 core/parse/incremental.go   | 258 +++++++---------
 core/parse/lexical.go       | 583 ++++++++++++++++++++++++++++++++++++
 core/parse/object_stream.go | 364 ++++------------------
 core/parse/parser.go        |  81 ++---
 core/parse/xref_stream.go   | 191 ++----------
 6 files changed, 836 insertions(+), 686 deletions(-)
 create mode 100644 core/parse/lexical.go

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cd95cd7..cded852 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -24,9 +24,22 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 	// ALWAYS use xref table first - it's the authoritative source
 	// Direct search using bytes.Index is dangerous because "5 0 obj" matches inside "265 0 obj"
 
+	// The merged view of all revisions decides when the xref chain can be read
+	incParser := newIncrementalParser(pdfBytes, verbose)
+	if err := incParser.parse(); err == nil {
+		if entry, ok := incParser.mergedStreams[objNum]; ok {
+			return &ObjectLocation{StreamObjNum: entry.StreamObjNum, IndexInStream: entry.IndexInStream}, nil
+		}
+		if offset, ok := incParser.mergedObjs[objNum]; ok {
+			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+		}
+		if incParser.mergedFree[objNum] {
+			return nil, fmt.Errorf("object %d not found", objNum)
+		}
+	}
+
 	// Parse xref to find object
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
+	startxrefMatch := lastStartXRef(pdfBytes)
 	if startxrefMatch == nil {
 		return nil, fmt.Errorf("startxref not found")
 	}
@@ -147,7 +160,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	if headerMatch == nil {
 		// Header not exactly at offset - try to find it nearby
 		searchArea := pdfBytes[max(0, int(offset)-100):min(len(pdfBytes), int(offset)+100)]
-		pattern := regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum))
+		pattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+(\d+)\s+obj`, objNum))
 		match := pattern.FindIndex(searchArea)
 		if match == nil {
 			if verbose {
@@ -170,7 +183,11 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	}
 
 	// Find endobj
-	endobjPos := bytes.Index(objData, []byte("endobj"))
+	span, scanned := scanObject(pdfBytes, objData)
+	endobjPos := span.EndObj
+	if !scanned {
+		endobjPos = bytes.Index(objData, []byte("endobj"))
+	}
 	if endobjPos == -1 {
 		return nil, fmt.Errorf("endobj not found for object %d", objNum)
 	}
@@ -192,12 +209,24 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 	// Check if this is a stream object
 	streamStart := bytes.Index(content, []byte("stream"))
+	if scanned {
+		streamStart = span.StreamKw
+		if streamStart != -1 {
+			streamStart -= contentStart
+		}
+	}
 	if streamStart != -1 {
 		// This is a stream object
 		// Find "endstream" to get the full stream
 		endstreamPos := bytes.Index(content, []byte("endstream"))
+		if scanned {
+			endstreamPos = span.EndStream - len("endstream") - contentStart
+		}
 		if endstreamPos == -1 {
-			endstreamPos = len(content)
+			endstreamPos = len(content) - len("endstream")
+			if endstreamPos < streamStart+len("stream") {
+				return nil, fmt.Errorf("endstream not found for object %d", objNum)
+			}
 		}
 		content = content[:endstreamPos+len("endstream")]
 
@@ -205,7 +234,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		if encryptInfo != nil {
 			// Get /Length from dictionary for exact stream data size
 			dictPart := content[:streamStart]
-			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
+			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)(?:\s+\d+\s+R\b)?`)
 			lengthMatch := lengthPattern.FindSubmatch(dictPart)
 
 			var streamLength int
@@ -225,7 +254,9 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 			// Use /Length if available, otherwise find endstream
 			var streamData []byte
-			if streamLength > 0 && streamDataStart+streamLength <= len(content) {
+			if scanned {
+				streamData = objData[span.StreamStart:span.StreamEnd]
+			} else if streamLength > 0 && streamDataStart+streamLength <= len(content) {
 				streamData = content[streamDataStart : streamDataStart+streamLength]
 			} else {
 				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 22737ba..acedb17 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -14,6 +14,7 @@ type xrefSection struct {
 	StartXRef int64                     // Byte offset where this xref section starts
 	Objects   map[int]int64             // Object number -> byte offset (Type 1 entries)
 	Streams   map[int]ObjectStreamEntry // Object number -> object stream info (Type 2 entries)
+	Free      map[int]bool              // Object numbers of free entries
 	Prev      int64                     // Offset of previous xref section (from /Prev in trailer)
 	Root      string                    // /Root reference from trailer
 	Info      string                    // /Info reference from trailer
@@ -27,6 +28,7 @@ type incrementalParser struct {
 	sections      []*xrefSection            // Ordered from oldest to newest
 	mergedObjs    map[int]int64             // Final merged object map
 	mergedStreams map[int]ObjectStreamEntry // Final merged object stream entries
+	mergedFree    map[int]bool              // Objects whose newest entry is free
 	verbose       bool
 }
 
@@ -37,6 +39,7 @@ func newIncrementalParser(pdfBytes []byte, verbose bool) *incrementalParser {
 		sections:      make([]*xrefSection, 0),
 		mergedObjs:    make(map[int]int64),
 		mergedStreams: make(map[int]ObjectStreamEntry),
+		mergedFree:    make(map[int]bool),
 		verbose:       verbose,
 	}
 }
@@ -78,6 +81,7 @@ func (p *incrementalParser) getFullXRefResult() *XRefResult {
 	return &XRefResult{
 		Objects:       p.mergedObjs,
 		ObjectStreams: p.mergedStreams,
+		Free:          p.mergedFree,
 	}
 }
 
@@ -108,9 +112,7 @@ func (p *incrementalParser) findLastStartXRef() (int64, error) {
 		searchStart = 0
 	}
 
-	searchSection := pdfStr[searchStart:lastEOF]
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
+	match := lastStartXRef(p.pdfBytes[searchStart:lastEOF])
 
 	if match == nil {
 		return 0, fmt.Errorf("startxref not found before %%EOF")
@@ -191,62 +193,44 @@ func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
 	// Check if this is an xref stream or traditional xref
 	if bytes.HasPrefix(section, []byte("xref")) {
 		// Traditional xref - find trailer and /Prev
-		trailerIdx := bytes.Index(section, []byte("trailer"))
+		_, trailerIdx := scanXRefTable(section)
 		if trailerIdx == -1 {
 			return 0, fmt.Errorf("no trailer found")
 		}
-
-		// Find the end of the trailer dictionary (>>)
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(section[trailerStart:], []byte("<<"))
-		if dictStart == -1 {
-			return 0, fmt.Errorf("trailer dictionary not found")
-		}
-		dictStart += trailerStart
-
-		// Find matching >> for trailer dict
-		depth := 1
-		dictEnd := dictStart + 2
-		for dictEnd < len(section) && depth > 0 {
-			if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-				depth++
-				dictEnd++
-			} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd += 2
-					break
-				}
-				dictEnd++
-			}
-			dictEnd++
-		}
-
-		trailerDict := string(section[dictStart:dictEnd])
-		prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
-		match := prevPattern.FindStringSubmatch(trailerDict)
-		if match == nil {
+		prev, ok := entryInt(dictEntries(trailerDict(section, trailerIdx)), "/Prev")
+		if !ok {
 			return 0, fmt.Errorf("no /Prev in trailer")
 		}
-
-		return strconv.ParseInt(match[1], 10, 64)
+		return int64(prev), nil
 	}
 
 	// Cross-reference stream - /Prev is in the stream dictionary
-	// Find the dictionary end (before "stream" keyword)
-	streamIdx := bytes.Index(section, []byte("stream"))
-	if streamIdx == -1 {
-		streamIdx = min(2000, len(section))
-	}
-
-	dictSection := string(section[:streamIdx])
-	prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
-	match := prevPattern.FindStringSubmatch(dictSection)
-	if match == nil {
+	prev, ok := entryInt(xrefTrailerEntries(section), "/Prev")
+	if !ok {
 		return 0, fmt.Errorf("no /Prev in xref stream")
 	}
+	return int64(prev), nil
+}
 
-	return strconv.ParseInt(match[1], 10, 64)
+// xrefTrailerEntries returns the trailer values of the cross-reference stream at section[0].
+// They are the entries of its dictionary; a "trailer" dictionary that some writers put after
+// the stream supplies those that are missing.
+func xrefTrailerEntries(section []byte) map[string][]byte {
+	section = section[skipSpace(section, 0):]
+	span, ok := scanObject(nil, section)
+	if !ok {
+		return nil
+	}
+	entries := dictEntries(section[skipSpace(section, span.Content):])
+	after := skipSpace(section, span.EndObj+len("endobj"))
+	if bytes.HasPrefix(section[min(after, len(section)):], []byte("trailer")) {
+		for key, value := range dictEntries(trailerDict(section, after)) {
+			if _, ok := entries[key]; !ok {
+				entries[key] = value
+			}
+		}
+	}
+	return entries
 }
 
 // parsexrefSection parses a single xref section at the given offset
@@ -280,105 +264,23 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 		StartXRef: startXRef,
 		Objects:   make(map[int]int64),
 		Streams:   make(map[int]ObjectStreamEntry),
+		Free:      make(map[int]bool),
 	}
 
 	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(10000, len(xrefData))])
 
 	// Parse xref entries
-	lines := regexp.MustCompile(`\r?\n`).Split(xrefStr, -1)
-
-	currentObjNum := 0
-	inSubsection := false
-
-	for i, line := range lines {
-		line = regexp.MustCompile(`^\s+|\s+$`).ReplaceAllString(line, "")
-		if line == "" {
-			continue
-		}
-
-		// First line should be "xref"
-		if i == 0 && line == "xref" {
-			continue
-		}
-
-		// Check for trailer
-		if line == "trailer" || bytes.HasPrefix([]byte(line), []byte("trailer")) {
-			break
-		}
-
-		fields := regexp.MustCompile(`\s+`).Split(line, -1)
-
-		if len(fields) == 2 {
-			// Subsection header: "first_obj_num count"
-			firstObj, err1 := strconv.Atoi(fields[0])
-			_, err2 := strconv.Atoi(fields[1])
-			if err1 == nil && err2 == nil {
-				currentObjNum = firstObj
-				inSubsection = true
-				continue
-			}
-		}
-
-		if inSubsection && len(fields) >= 3 {
-			// Entry: "offset generation flag"
-			offset, err1 := strconv.ParseInt(fields[0], 10, 64)
-			_, err2 := strconv.Atoi(fields[1])
-			flag := fields[2]
-
-			if err1 == nil && err2 == nil && flag == "n" {
-				section.Objects[currentObjNum] = offset
-			}
-			currentObjNum++
+	entries, trailerIdx := scanXRefTable(xrefData)
+	for _, entry := range entries {
+		if entry.InUse {
+			section.Objects[entry.ObjectNum] = entry.Offset
+		} else {
+			section.Free[entry.ObjectNum] = true
 		}
 	}
 
 	// Parse trailer for /Root, /Encrypt, /Prev, /Size
-	trailerIdx := bytes.Index(xrefData, []byte("trailer"))
-	if trailerIdx != -1 {
-		// Find the trailer dictionary bounds
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(xrefData[trailerStart:], []byte("<<"))
-		if dictStart != -1 {
-			dictStart += trailerStart
-
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(xrefData) && depth > 0 {
-				if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '<' && xrefData[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '>' && xrefData[dictEnd+1] == '>' {
-					depth--
-					if depth == 0 {
-						dictEnd += 2
-						break
-					}
-					dictEnd++
-				}
-				dictEnd++
-			}
-
-			trailerDict := string(xrefData[dictStart:dictEnd])
-
-			if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Root = match[1]
-			}
-			if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Info = match[1]
-			}
-			if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Encrypt = match[1]
-			}
-			if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-			}
-			if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Size, _ = strconv.Atoi(match[1])
-			}
-		}
-	}
+	section.readTrailer(dictEntries(trailerDict(xrefData, trailerIdx)))
 
 	if p.verbose {
 		fmt.Printf("Parsed traditional xref at %d: %d objects, Prev=%d\n",
@@ -394,6 +296,7 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 		StartXRef: startXRef,
 		Objects:   make(map[int]int64),
 		Streams:   make(map[int]ObjectStreamEntry),
+		Free:      make(map[int]bool),
 	}
 
 	// Use existing full xref stream parser
@@ -404,26 +307,10 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 
 	section.Objects = result.Objects
 	section.Streams = result.ObjectStreams
+	section.Free = result.Free
 
 	// Extract trailer info from stream dictionary
-	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(2000, len(xrefData))])
-
-	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Root = match[1]
-	}
-	if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Info = match[1]
-	}
-	if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Encrypt = match[1]
-	}
-	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-	}
-	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Size, _ = strconv.Atoi(match[1])
-	}
+	section.readTrailer(xrefTrailerEntries(p.pdfBytes[startXRef:]))
 
 	if p.verbose {
 		fmt.Printf("Parsed xref stream at %d: %d objects, %d in streams, Prev=%d\n",
@@ -433,17 +320,40 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 	return section, nil
 }
 
+// readTrailer takes the values of interest from a trailer dictionary
+func (s *xrefSection) readTrailer(entries map[string][]byte) {
+	s.Root = entryRef(entries, "/Root")
+	s.Info = entryRef(entries, "/Info")
+	s.Encrypt = entryRef(entries, "/Encrypt")
+	if prev, ok := entryInt(entries, "/Prev"); ok {
+		s.Prev = int64(prev)
+	}
+	if size, ok := entryInt(entries, "/Size"); ok {
+		s.Size = size
+	}
+}
+
 // mergeSections merges all xref sections (older entries first, newer override)
 func (p *incrementalParser) mergeSections() {
 	// sections are already ordered oldest to newest
 	for _, section := range p.sections {
+		// Freed objects
+		for objNum := range section.Free {
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedStreams, objNum)
+			p.mergedFree[objNum] = true
+		}
 		// Regular objects
 		for objNum, offset := range section.Objects {
 			p.mergedObjs[objNum] = offset
+			delete(p.mergedStreams, objNum)
+			delete(p.mergedFree, objNum)
 		}
 		// Object stream entries
 		for objNum, entry := range section.Streams {
 			p.mergedStreams[objNum] = entry
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedFree, objNum)
 		}
 	}
 
@@ -471,9 +381,41 @@ func FindAllEOFMarkers(pdfBytes []byte) []int {
 	return offsets
 }
 
+// revisionMarkers returns the offsets of the %%EOF markers that end a revision: those that
+// follow the startxref of a section in the xref chain. Markers elsewhere, such as in an
+// embedded file, do not count. If the chain cannot be followed, all markers are returned.
+func revisionMarkers(pdfBytes []byte) []int {
+	all := FindAllEOFMarkers(pdfBytes)
+	parser := newIncrementalParser(pdfBytes, false)
+	if parser.parse() != nil {
+		return all
+	}
+	chain := map[int64]bool{0: true} // linearized files write 0 for the first section
+	for _, section := range parser.sections {
+		chain[section.StartXRef] = true
+	}
+	var markers []int
+	for _, eof := range all {
+		match := lastStartXRef(pdfBytes[max(0, eof-100):eof])
+		if match == nil {
+			continue
+		}
+		if offset, err := strconv.ParseInt(match[1], 10, 64); err != nil || !chain[offset] {
+			continue
+		}
+		if bytes.HasSuffix(bytes.TrimRight(pdfBytes[:eof], " \t\r\n"), []byte(match[0])) {
+			markers = append(markers, eof)
+		}
+	}
+	if len(markers) == 0 {
+		return all
+	}
+	return markers
+}
+
 // CountRevisions returns the number of revisions in the PDF
 func CountRevisions(pdfBytes []byte) int {
-	return len(FindAllEOFMarkers(pdfBytes))
+	return len(revisionMarkers(pdfBytes))
 }
 
 // parseWithIncrementalUpdates parses a PDF handling incremental updates
@@ -506,7 +448,7 @@ func parseCrossReferenceTableIncremental(pdfBytes []byte, verbose bool) (map[int
 
 // GetRevisionBoundaries returns the byte offsets where each revision ends (%%EOF positions)
 func GetRevisionBoundaries(pdfBytes []byte) []int {
-	offsets := FindAllEOFMarkers(pdfBytes)
+	offsets := append([]int(nil), revisionMarkers(pdfBytes)...)
 	// Each %%EOF is followed by a newline, add 5 + 1 for the boundary
 	for i := range offsets {
 		offsets[i] += 5 // Length of "%%EOF"
diff --git a/core/parse/lexical.go b/core/parse/lexical.go
new file mode 100644
index 0000000..7a0328b
--- /dev/null
+++ b/core/parse/lexical.go
@@ -0,0 +1,583 @@
+package parse
+
+import (
+	"bytes"
+	"compress/flate"
+	"compress/zlib"
+	"fmt"
+	"io"
+	"regexp"
+	"strconv"
+)
+
+// maxNesting bounds how deeply nested containers are followed while scanning.
+const maxNesting = 500
+
+func isSpaceByte(b byte) bool {
+	return b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0
+}
+
+func isDelimiter(b byte) bool {
+	switch b {
+	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
+		return true
+	}
+	return false
+}
+
+// skipSpace skips white space and comments starting at p.
+func skipSpace(b []byte, p int) int {
+	for p < len(b) {
+		if isSpaceByte(b[p]) {
+			p++
+			continue
+		}
+		if b[p] == '%' {
+			for p < len(b) && b[p] != '\n' && b[p] != '\r' {
+				p++
+			}
+			continue
+		}
+		break
+	}
+	return p
+}
+
+// scanToken returns the end of the token, string, array or dictionary that starts at p,
+// or -1 if it is not terminated.
+func scanToken(b []byte, p int) int { return scanTokenDepth(b, p, 0) }
+
+func scanTokenDepth(b []byte, p int, depth int) int {
+	if p >= len(b) || depth > maxNesting {
+		return -1
+	}
+	switch {
+	case b[p] == '(':
+		level := 0
+		for i := p; i < len(b); i++ {
+			switch b[i] {
+			case '\\':
+				i++
+			case '(':
+				level++
+			case ')':
+				level--
+				if level == 0 {
+					return i + 1
+				}
+			}
+		}
+		return -1
+	case b[p] == '<' && p+1 < len(b) && b[p+1] == '<', b[p] == '[':
+		closer := []byte(">>")
+		i := p + 2
+		if b[p] == '[' {
+			closer, i = []byte("]"), p+1
+		}
+		for {
+			i = skipSpace(b, i)
+			if i >= len(b) {
+				return -1
+			}
+			if bytes.HasPrefix(b[i:], closer) {
+				return i + len(closer)
+			}
+			end := scanTokenDepth(b, i, depth+1)
+			if end <= i {
+				return -1
+			}
+			if end-i == 6 && string(b[i:end]) == "endobj" {
+				return -1
+			}
+			i = end
+		}
+	case b[p] == '<':
+		idx := bytes.IndexByte(b[p:], '>')
+		if idx == -1 {
+			return -1
+		}
+		return p + idx + 1
+	case b[p] == '/':
+		p++
+		for p < len(b) && !isSpaceByte(b[p]) && !isDelimiter(b[p]) {
+			p++
+		}
+		return p
+	case isDelimiter(b[p]):
+		return p + 1
+	}
+	for p < len(b) && !isSpaceByte(b[p]) && !isDelimiter(b[p]) {
+		p++
+	}
+	return p
+}
+
+// dictEntries returns the raw values of the top-level keys of the dictionary that starts at b[0].
+func dictEntries(b []byte) map[string][]byte {
+	entries := make(map[string][]byte)
+	if !bytes.HasPrefix(b, []byte("<<")) {
+		return entries
+	}
+	p := 2
+	for {
+		p = skipSpace(b, p)
+		if p >= len(b) || b[p] == '>' {
+			return entries
+		}
+		end := scanToken(b, p)
+		if end == -1 {
+			return entries
+		}
+		if b[p] != '/' {
+			p = end
+			continue
+		}
+		key := string(b[p:end])
+		start := skipSpace(b, end)
+		if start >= len(b) || b[start] == '>' {
+			return entries
+		}
+		valEnd := scanToken(b, start)
+		if valEnd == -1 {
+			return entries
+		}
+		if m := refPattern.FindIndex(b[start:min(len(b), start+40)]); m != nil {
+			valEnd = start + m[1]
+		}
+		entries[key] = b[start:valEnd]
+		p = valEnd
+	}
+}
+
+var (
+	refPattern          = regexp.MustCompile(`^\d+\s+\d+\s+R\b`)
+	objectHeaderPattern = regexp.MustCompile(`^(\d+)\s+(\d+)\s+obj`)
+)
+
+func entryInt(entries map[string][]byte, key string) (int, bool) {
+	v, ok := entries[key]
+	if !ok {
+		return 0, false
+	}
+	n, err := strconv.Atoi(string(v))
+	return n, err == nil
+}
+
+func entryRef(entries map[string][]byte, key string) string {
+	if v, ok := entries[key]; ok && refPattern.Match(v) {
+		return string(v)
+	}
+	return ""
+}
+
+// objectSpan describes where the parts of an indirect object lie within a section.
+type objectSpan struct {
+	Content     int // start of the object's value
+	DictEnd     int // end of the dictionary of a stream object
+	StreamKw    int // offset of the "stream" keyword, -1 if this is not a stream
+	StreamStart int // start of the stream data
+	StreamEnd   int // end of the stream data
+	EndStream   int // offset after "endstream"
+	EndObj      int // offset of "endobj"
+}
+
+// scanObject delimits the indirect object that starts at section[0] ("N G obj ...") by its
+// syntax, so that keywords inside strings, comments and stream data are not taken for the
+// end of the object. whole is the complete file; it is used to resolve an indirect /Length.
+func scanObject(whole, section []byte) (objectSpan, bool) {
+	span := objectSpan{StreamKw: -1}
+	m := objectHeaderPattern.FindIndex(section[:min(64, len(section))])
+	if m == nil {
+		return span, false
+	}
+	p := m[1]
+	for p < len(section) && isSpaceByte(section[p]) {
+		p++
+	}
+	span.Content = p
+	dictStart := -1
+	for {
+		p = skipSpace(section, p)
+		if p >= len(section) {
+			return span, false
+		}
+		end := scanToken(section, p)
+		if end == -1 {
+			return span, false
+		}
+		token := section[p:end]
+		switch {
+		case string(token) == "endobj":
+			span.EndObj = p
+			return span, true
+		case string(token) == "stream" && dictStart >= 0:
+			span.StreamKw = p
+			if !scanStream(whole, section, section[dictStart:span.DictEnd], &span) {
+				return span, false
+			}
+			return span, true
+		case bytes.HasPrefix(token, []byte("<<")):
+			dictStart, span.DictEnd = p, end
+		}
+		p = end
+	}
+}
+
+// scanStream delimits the data of a stream by its /Length when that leads to "endstream",
+// and by searching for "endstream" otherwise.
+func scanStream(whole, section, dict []byte, span *objectSpan) bool {
+	p := span.StreamKw + len("stream")
+	if p < len(section) && section[p] == '\r' {
+		p++
+	}
+	if p < len(section) && section[p] == '\n' {
+		p++
+	}
+	span.StreamStart = p
+	finish := func(dataEnd, kw int) bool {
+		span.StreamEnd = dataEnd
+		span.EndStream = kw + len("endstream")
+		idx := bytes.Index(section[span.EndStream:], []byte("endobj"))
+		if idx == -1 {
+			return false
+		}
+		span.EndObj = span.EndStream + idx
+		return true
+	}
+	tryLength := func(n int) bool {
+		if n < 0 || n > len(section)-p {
+			return false
+		}
+		kw := p + n
+		for kw < len(section) && kw < p+n+2 && (section[kw] == '\r' || section[kw] == '\n') {
+			kw++
+		}
+		return bytes.HasPrefix(section[kw:], []byte("endstream")) && finish(p+n, kw)
+	}
+	if length, ok := dictEntries(dict)["/Length"]; ok {
+		if n, err := strconv.Atoi(string(length)); err == nil {
+			if tryLength(n) {
+				return true
+			}
+		} else if refPattern.Match(length) {
+			f := bytes.Fields(length)
+			pattern := regexp.MustCompile(fmt.Sprintf(`(?:^|\s)%s\s+%s\s+obj\s+(\d+)\s+endobj`, f[0], f[1]))
+			found := pattern.FindAllSubmatch(whole, -1)
+			for i := len(found) - 1; i >= 0; i-- {
+				if n, err := strconv.Atoi(string(found[i][1])); err == nil && tryLength(n) {
+					return true
+				}
+			}
+		}
+	}
+	idx := bytes.Index(section[p:], []byte("endstream"))
+	if idx == -1 {
+		return false
+	}
+	dataEnd := p + idx
+	if dataEnd > p && section[dataEnd-1] == '\n' {
+		dataEnd--
+	}
+	if dataEnd > p && section[dataEnd-1] == '\r' {
+		dataEnd--
+	}
+	return finish(dataEnd, p+idx)
+}
+
+// inflate decompresses zlib data, or raw deflate data if there is no valid zlib wrapper.
+func inflate(data []byte) ([]byte, error) {
+	if r, err := zlib.NewReader(bytes.NewReader(data)); err == nil {
+		out, err := io.ReadAll(r)
+		r.Close()
+		if err == nil {
+			return out, nil
+		}
+	}
+	r := flate.NewReader(bytes.NewReader(data))
+	defer r.Close()
+	return io.ReadAll(r)
+}
+
+// decodeStream applies the filters named in a stream dictionary, including PNG predictors.
+func decodeStream(dict map[string][]byte, data []byte) ([]byte, error) {
+	split := func(key string) [][]byte {
+		v := dict[key]
+		if !bytes.HasPrefix(v, []byte("[")) {
+			if len(v) == 0 {
+				return nil
+			}
+			return [][]byte{v}
+		}
+		var items [][]byte
+		for p := skipSpace(v, 1); p < len(v) && v[p] != ']'; p = skipSpace(v, p) {
+			end := scanToken(v, p)
+			if end == -1 {
+				break
+			}
+			items = append(items, v[p:end])
+			p = end
+		}
+		return items
+	}
+	params := split("/DecodeParms")
+	for i, filter := range split("/Filter") {
+		var err error
+		if name := string(filter); name == "/FlateDecode" || name == "/Fl" {
+			data, err = inflate(data)
+		} else {
+			data, err = DecodeFilter(data, name)
+		}
+		if err != nil {
+			return nil, err
+		}
+		if i < len(params) {
+			parms := dictEntries(params[i])
+			predictor, _ := entryInt(parms, "/Predictor")
+			if predictor >= 10 && predictor <= 15 {
+				columns, ok := entryInt(parms, "/Columns")
+				if !ok {
+					columns = 1
+				}
+				data, err = undoPNGPredictor(data, columns)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+	}
+	return data, nil
+}
+
+// undoPNGPredictor reverses PNG row filters for one byte per column.
+func undoPNGPredictor(data []byte, columns int) ([]byte, error) {
+	if columns <= 0 || columns > len(data) {
+		return nil, fmt.Errorf("invalid predictor columns: %d", columns)
+	}
+	rows := len(data) / (columns + 1)
+	out := make([]byte, 0, rows*columns)
+	prev := make([]byte, columns)
+	for r := 0; r < rows; r++ {
+		row := data[r*(columns+1)+1 : (r+1)*(columns+1)]
+		cur := make([]byte, columns)
+		for i := range cur {
+			var left, upLeft byte
+			if i > 0 {
+				left, upLeft = cur[i-1], prev[i-1]
+			}
+			switch data[r*(columns+1)] {
+			case 1:
+				cur[i] = row[i] + left
+			case 2:
+				cur[i] = row[i] + prev[i]
+			case 3:
+				cur[i] = row[i] + byte((int(left)+int(prev[i]))/2)
+			case 4:
+				cur[i] = row[i] + paeth(left, prev[i], upLeft)
+			default:
+				cur[i] = row[i]
+			}
+		}
+		out = append(out, cur...)
+		prev = cur
+	}
+	return out, nil
+}
+
+func paeth(a, b, c byte) byte {
+	abs := func(n int) int {
+		if n < 0 {
+			return -n
+		}
+		return n
+	}
+	p := int(a) + int(b) - int(c)
+	pa, pb, pc := abs(p-int(a)), abs(p-int(b)), abs(p-int(c))
+	if pa <= pb && pa <= pc {
+		return a
+	}
+	if pb <= pc {
+		return b
+	}
+	return c
+}
+
+// scanXRefTable reads the entries of the cross-reference table at section[0] ("xref ...")
+// and returns them with the offset of the "trailer" keyword (-1 if there is none).
+func scanXRefTable(section []byte) ([]XRefEntry, int) {
+	var entries []XRefEntry
+	p := skipSpace(section, 0)
+	if bytes.HasPrefix(section[p:], []byte("xref")) {
+		p += len("xref")
+	}
+	next := func(at int) (string, int, int) {
+		s := skipSpace(section, at)
+		e := s
+		for e < len(section) && !isSpaceByte(section[e]) && !isDelimiter(section[e]) && e-s < 24 {
+			e++
+		}
+		return string(section[s:e]), s, e
+	}
+	objNum := -1
+	for {
+		first, start, end1 := next(p)
+		if first == "trailer" {
+			return entries, start
+		}
+		a, err := strconv.ParseInt(first, 10, 64)
+		if err != nil {
+			return entries, -1
+		}
+		second, _, end2 := next(end1)
+		b, err := strconv.Atoi(second)
+		if err != nil {
+			return entries, -1
+		}
+		third, _, end3 := next(end2)
+		if third == "n" || third == "f" {
+			if objNum >= 0 {
+				entries = append(entries, XRefEntry{ObjectNum: objNum, Generation: b, Offset: a, InUse: third == "n"})
+				objNum++
+			}
+			p = end3
+			continue
+		}
+		objNum = int(a)
+		p = end2
+	}
+}
+
+// trailerDict returns the dictionary that follows the "trailer" keyword at section[at].
+func trailerDict(section []byte, at int) []byte {
+	if at < 0 || at+len("trailer") > len(section) {
+		return nil
+	}
+	p := skipSpace(section, at+len("trailer"))
+	end := scanToken(section, p)
+	if end == -1 || !bytes.HasPrefix(section[p:], []byte("<<")) {
+		return nil
+	}
+	return section[p:end]
+}
+
+// lastStartXRef returns the last "startxref N" match in b.
+func lastStartXRef(b []byte) []string {
+	idx := bytes.LastIndex(b, []byte("startxref"))
+	for idx >= 0 {
+		if m := startXRefPattern.FindSubmatch(b[idx:min(len(b), idx+64)]); m != nil {
+			return []string{string(m[0]), string(m[1])}
+		}
+		idx = bytes.LastIndex(b[:idx], []byte("startxref"))
+	}
+	return nil
+}
+
+var startXRefPattern = regexp.MustCompile(`^startxref\s+(\d+)`)
+
+// xrefStreamData is the decoded content of a cross-reference stream.
+type xrefStreamData struct {
+	w1, w2, w3   int
+	subsections  []struct{ first, count int }
+	decompressed []byte
+}
+
+// readXRefStream locates, decodes and un-predicts the cross-reference stream at startXRef.
+func readXRefStream(pdfBytes []byte, startXRef int64) (*xrefStreamData, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+	section := pdfBytes[startXRef:]
+	objStart := regexp.MustCompile(`\b\d+\s+\d+\s+obj`).FindIndex(section[:min(500, len(section))])
+	if objStart == nil {
+		// Try searching a bit before startXRef in case of offset issues
+		from := max(0, int(startXRef)-100)
+		objStart = regexp.MustCompile(`\b\d+\s+\d+\s+obj`).FindIndex(pdfBytes[from:min(len(pdfBytes), int(startXRef)+500)])
+		if objStart == nil {
+			return nil, fmt.Errorf("xref stream object not found")
+		}
+		section = pdfBytes[from:]
+	}
+	section = section[objStart[0]:]
+
+	span, ok := scanObject(pdfBytes, section)
+	if !ok || span.StreamKw == -1 {
+		return nil, fmt.Errorf("xref stream not found")
+	}
+	dict := dictEntries(section[skipSpace(section, span.Content):])
+
+	size, ok := entryInt(dict, "/Size")
+	if !ok {
+		return nil, fmt.Errorf("/Size not found in xref stream")
+	}
+	widths := intArray(dict["/W"])
+	if len(widths) != 3 {
+		return nil, fmt.Errorf("/W not found in xref stream")
+	}
+	for _, w := range widths {
+		if w < 0 || w > 8 {
+			return nil, fmt.Errorf("invalid field width in xref stream: %d", w)
+		}
+	}
+	data := &xrefStreamData{w1: widths[0], w2: widths[1], w3: widths[2]}
+	if data.w1+data.w2+data.w3 == 0 {
+		return nil, fmt.Errorf("invalid entry size")
+	}
+
+	if index, ok := dict["/Index"]; ok {
+		pairs := intArray(index)
+		for i := 0; i+1 < len(pairs); i += 2 {
+			if pairs[i] < 0 || pairs[i+1] < 0 {
+				return nil, fmt.Errorf("invalid /Index in xref stream")
+			}
+			data.subsections = append(data.subsections, struct{ first, count int }{pairs[i], pairs[i+1]})
+		}
+	} else {
+		data.subsections = []struct{ first, count int }{{0, size}}
+	}
+
+	var err error
+	data.decompressed, err = decodeStream(dict, section[span.StreamStart:span.StreamEnd])
+	if err != nil {
+		return nil, fmt.Errorf("error decompressing xref stream: %v", err)
+	}
+	return data, nil
+}
+
+// intArray parses an array of integers; it returns nil for anything else.
+func intArray(v []byte) []int {
+	if len(v) < 2 || v[0] != '[' || v[len(v)-1] != ']' {
+		return nil
+	}
+	var out []int
+	for _, f := range bytes.Fields(v[1 : len(v)-1]) {
+		n, err := strconv.Atoi(string(f))
+		if err != nil {
+			return nil
+		}
+		out = append(out, n)
+	}
+	return out
+}
+
+// each calls f for every entry of the stream.
+func (d *xrefStreamData) each(f func(objNum, typ int, field2, field3 int64)) {
+	entrySize := d.w1 + d.w2 + d.w3
+	field := func(b []byte) int64 {
+		v := int64(0)
+		for _, c := range b {
+			v = v<<8 | int64(c)
+		}
+		return v
+	}
+	rest := d.decompressed
+	for _, sub := range d.subsections {
+		for i := 0; i < sub.count && len(rest) >= entrySize; i++ {
+			entry := rest[:entrySize]
+			rest = rest[entrySize:]
+			typ := 1 // the type of every entry when the field has no width
+			if d.w1 > 0 {
+				typ = int(field(entry[:d.w1]))
+			}
+			f(sub.first+i, typ, field(entry[d.w1:d.w1+d.w2]), field(entry[d.w1+d.w2:]))
+		}
+	}
+}
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2eff238..1f4c7f1 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -2,10 +2,7 @@ package parse
 
 import (
 	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
 	"regexp"
 	"strconv"
 	"strings"
@@ -26,6 +23,8 @@ type XRefResult struct {
 	Objects map[int]int64
 	// Objects in object streams (Type 2): objNum -> ObjectStreamEntry
 	ObjectStreams map[int]ObjectStreamEntry
+	// Free entries (Type 0): object numbers
+	Free map[int]bool
 }
 
 // ParseXRefStreamFull parses a PDF cross-reference stream and returns both regular and compressed object info
@@ -33,224 +32,35 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	result := &XRefResult{
 		Objects:       make(map[int]int64),
 		ObjectStreams: make(map[int]ObjectStreamEntry),
+		Free:          make(map[int]bool),
 	}
 
-	// The xref stream object should be at startXRef
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
-	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
-	}
-
-	// Find /Size entry
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
-	if sizeMatch == nil {
-		return nil, fmt.Errorf("/Size not found in xref stream")
-	}
-
-	// Find /W entry (field widths)
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
-	if wMatch == nil {
-		return nil, fmt.Errorf("/W not found in xref stream")
-	}
-
-	w1, _ := strconv.Atoi(wMatch[1])
-	w2, _ := strconv.Atoi(wMatch[2])
-	w3, _ := strconv.Atoi(wMatch[3])
-
-	// Find /Index entry
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
-		}
-	} else {
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
-	}
-
-	// Find and decompress stream content
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
-
-	// Decompress (xref streams are NOT encrypted)
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	xref, err := readXRefStream(pdfBytes, startXRef)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream: %v", err)
-	}
-
-	// Check for predictor (PNG filter)
-	// Look for /DecodeParms with /Predictor
-	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(string(xrefSection[:min(500, len(xrefSection))]))
-
-	if decodeparmsMatch != nil {
-		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
-		columnsPattern := regexp.MustCompile(`/Columns\s+(\d+)`)
-
-		predictorMatch := predictorPattern.FindStringSubmatch(decodeparmsMatch[1])
-		columnsMatch := columnsPattern.FindStringSubmatch(decodeparmsMatch[1])
-
-		if predictorMatch != nil && columnsMatch != nil {
-			predictor, _ := strconv.Atoi(predictorMatch[1])
-			columns, _ := strconv.Atoi(columnsMatch[1])
-
-			if predictor >= 10 && predictor <= 15 {
-				// PNG predictor - apply filter
-				rowSize := columns + 1 // +1 for filter byte
-				numRows := len(decompressed) / rowSize
-
-				decoded := make([]byte, numRows*columns)
-				prevRow := make([]byte, columns)
-
-				for row := 0; row < numRows; row++ {
-					rowStart := row * rowSize
-					if rowStart+rowSize > len(decompressed) {
-						break
-					}
-					filterByte := decompressed[rowStart]
-					rowData := decompressed[rowStart+1 : rowStart+rowSize]
-
-					switch filterByte {
-					case 0: // None
-						copy(decoded[row*columns:], rowData)
-					case 1: // Sub
-						for i := 0; i < columns; i++ {
-							left := byte(0)
-							if i > 0 {
-								left = decoded[row*columns+i-1]
-							}
-							decoded[row*columns+i] = rowData[i] + left
-						}
-					case 2: // Up (most common for Predictor 12)
-						for i := 0; i < columns; i++ {
-							decoded[row*columns+i] = rowData[i] + prevRow[i]
-						}
-					default:
-						copy(decoded[row*columns:], rowData)
-					}
-
-					copy(prevRow, decoded[row*columns:row*columns+columns])
-				}
-
-				decompressed = decoded
-			}
-		}
+		return nil, err
 	}
 
 	// Parse entries
-	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
-		return nil, fmt.Errorf("invalid entry size")
-	}
-
-	entryIndex := 0
-	for _, sub := range subsections {
-		for objNum := sub.first; objNum < sub.first+sub.count; objNum++ {
-			if entryIndex*entrySize+entrySize > len(decompressed) {
-				break
+	xref.each(func(objNum, typeVal int, field2, field3 int64) {
+		switch typeVal {
+		case 0:
+			// Type 0: free object
+			result.Free[objNum] = true
+		case 1:
+			// Type 1: uncompressed, in-use object
+			// field2 = byte offset, field3 = generation
+			if field2 > 0 {
+				result.Objects[objNum] = field2
 			}
-
-			entry := decompressed[entryIndex*entrySize : entryIndex*entrySize+entrySize]
-
-			// Parse type (first w1 bytes)
-			typeVal := 0
-			for i := 0; i < w1 && i < len(entry); i++ {
-				typeVal = typeVal<<8 | int(entry[i])
+		case 2:
+			// Type 2: compressed object in object stream
+			// field2 = object stream number, field3 = index within stream
+			result.ObjectStreams[objNum] = ObjectStreamEntry{
+				StreamObjNum:  int(field2),
+				IndexInStream: int(field3),
 			}
-
-			// Parse field 2 (offset for Type 1, stream object for Type 2)
-			field2 := int64(0)
-			for i := w1; i < w1+w2 && i < len(entry); i++ {
-				field2 = field2<<8 | int64(entry[i])
-			}
-
-			// Parse field 3 (generation for Type 1, index for Type 2)
-			field3 := int64(0)
-			for i := w1 + w2; i < w1+w2+w3 && i < len(entry); i++ {
-				field3 = field3<<8 | int64(entry[i])
-			}
-
-			switch typeVal {
-			case 0:
-				// Type 0: free object - skip
-			case 1:
-				// Type 1: uncompressed, in-use object
-				// field2 = byte offset, field3 = generation
-				if field2 > 0 {
-					result.Objects[objNum] = field2
-				}
-			case 2:
-				// Type 2: compressed object in object stream
-				// field2 = object stream number, field3 = index within stream
-				result.ObjectStreams[objNum] = ObjectStreamEntry{
-					StreamObjNum:  int(field2),
-					IndexInStream: int(field3),
-				}
-			}
-
-			entryIndex++
 		}
-	}
+	})
 
 	if verbose {
 		fmt.Printf("Parsed xref stream: %d direct objects, %d objects in streams\n",
@@ -264,65 +74,30 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
 	// Step 1: Get the object stream itself
-	// First, we need to find the object stream's byte offset
-	// This requires having the xref table for direct objects
-
-	// For now, search for the object stream in the PDF
-	streamPattern := fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum)
-	re := regexp.MustCompile(streamPattern)
-	matches := re.FindIndex(pdfBytes)
-	if matches == nil {
+	loc, err := FindObjectLocation(pdfBytes, streamObjNum, verbose)
+	if err != nil || !loc.IsDirect || loc.ByteOffset < 0 || loc.ByteOffset >= int64(len(pdfBytes)) {
 		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
 
-	streamObjStart := matches[0]
-
 	// Find the object stream's dictionary and stream data
-	objSection := pdfBytes[streamObjStart:]
-
-	// Find dictionary
-	dictStart := bytes.Index(objSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("object stream dictionary not found")
-	}
-
-	// Find dictionary end to get dict content
-	dictEnd := bytes.Index(objSection[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("dictionary end not found")
-	}
-	dictContent := string(objSection[dictStart : dictStart+dictEnd+2])
-
-	// Get /Length from dictionary
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("/Length not found in object stream dictionary")
-	}
-	streamLength, _ := strconv.Atoi(lengthMatch[1])
-
-	// Find stream keyword
-	streamKeyword := bytes.Index(objSection[dictStart:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, fmt.Errorf("stream keyword not found in object stream")
-	}
-	streamKeyword += dictStart
-
-	// Skip "stream" and exactly one EOL marker (per PDF spec)
-	streamDataStart := streamKeyword + 6
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\n' {
-		streamDataStart++
+	objSection := pdfBytes[loc.ByteOffset:]
+	header := objectHeaderPattern.FindSubmatch(objSection[:min(64, len(objSection))])
+	if header == nil || string(header[1]) != strconv.Itoa(streamObjNum) {
+		// Not exactly at the recorded offset - search for it
+		re := regexp.MustCompile(fmt.Sprintf(`\b%d\s+0\s+obj`, streamObjNum))
+		matches := re.FindIndex(pdfBytes)
+		if matches == nil {
+			return nil, fmt.Errorf("object stream %d not found", streamObjNum)
+		}
+		objSection = pdfBytes[matches[0]:]
 	}
 
-	// Use /Length to get exact stream data
-	if streamDataStart+streamLength > len(objSection) {
-		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
+	span, ok := scanObject(pdfBytes, objSection)
+	if !ok || span.StreamKw == -1 {
+		return nil, fmt.Errorf("object stream %d is not a stream", streamObjNum)
 	}
-
-	streamData := objSection[streamDataStart : streamDataStart+streamLength]
+	dict := dictEntries(objSection[skipSpace(objSection, span.Content):])
+	streamData := objSection[span.StreamStart:span.StreamEnd]
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
@@ -333,24 +108,10 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		streamData = decrypted
 	}
 
-	// Decompress stream data (FlateDecode)
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamData))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-	}
-
-	if err != nil || zlibErr != nil {
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-		if err != nil {
-			return nil, fmt.Errorf("failed to decompress object stream: %v", err)
-		}
+	// Decompress stream data
+	decompressed, err := decodeStream(dict, streamData)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress object stream: %v", err)
 	}
 
 	// Parse object stream header
@@ -360,21 +121,16 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	// - Header format: "objnum1 offset1 objnum2 offset2 ..."
 
 	// Find /N and /First from dictionary
-	dictSection := string(objSection[dictStart:streamKeyword])
-
-	nPattern := regexp.MustCompile(`/N\s+(\d+)`)
-	nMatch := nPattern.FindStringSubmatch(dictSection)
-	if nMatch == nil {
+	if _, ok := entryInt(dict, "/N"); !ok {
 		return nil, fmt.Errorf("/N not found in object stream dictionary")
 	}
-	_ = nMatch[1] // Number of objects (for validation if needed)
-
-	firstPattern := regexp.MustCompile(`/First\s+(\d+)`)
-	firstMatch := firstPattern.FindStringSubmatch(dictSection)
-	if firstMatch == nil {
+	firstOffset, ok := entryInt(dict, "/First")
+	if !ok {
 		return nil, fmt.Errorf("/First not found in object stream dictionary")
 	}
-	firstOffset, _ := strconv.Atoi(firstMatch[1])
+	if firstOffset < 0 || firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %d out of range", firstOffset)
+	}
 
 	// Parse header: pairs of "objnum offset"
 	type objEntry struct {
@@ -393,7 +149,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		entries = append(entries, objEntry{objNum: on, offset: off})
 	}
 
-	if indexInStream >= len(entries) {
+	if indexInStream < 0 || indexInStream >= len(entries) {
 		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
 	}
 
@@ -402,9 +158,9 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	if targetEntry.objNum != objNum {
 		// Try to find by object number instead
 		found := false
-		for _, e := range entries {
+		for i, e := range entries {
 			if e.objNum == objNum {
-				targetEntry = e
+				targetEntry, indexInStream = e, i
 				found = true
 				break
 			}
@@ -418,15 +174,25 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	objDataStart := firstOffset + targetEntry.offset
 	var objDataEnd int
 
-	// Find next object's offset or end of stream
-	if indexInStream < len(entries)-1 {
+	if targetEntry.offset < 0 || objDataStart < 0 || objDataStart >= len(decompressed) {
+		return nil, fmt.Errorf("object data offset out of range")
+	}
+
+	// The object ends where its syntax ends, or else at the next object or the end of the stream
+	valueStart := skipSpace(decompressed, objDataStart)
+	if end := scanToken(decompressed, valueStart); end != -1 {
+		if m := refPattern.FindIndex(decompressed[valueStart:min(len(decompressed), valueStart+40)]); m != nil {
+			end = valueStart + m[1]
+		}
+		objDataStart, objDataEnd = valueStart, end
+	} else if indexInStream < len(entries)-1 {
 		nextEntry := entries[indexInStream+1]
 		objDataEnd = firstOffset + nextEntry.offset
 	} else {
 		objDataEnd = len(decompressed)
 	}
 
-	if objDataStart >= len(decompressed) || objDataEnd > len(decompressed) {
+	if objDataEnd < objDataStart || objDataEnd > len(decompressed) {
 		return nil, fmt.Errorf("object data offset out of range")
 	}
 
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 01296fe..afc544c 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -87,8 +87,7 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 	}
 
 	// Find startxref
-	startXRefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startXRefMatch := startXRefPattern.FindStringSubmatch(pdfStr)
+	startXRefMatch := lastStartXRef(pdfBytes)
 	if startXRefMatch != nil {
 		offset, err := strconv.ParseInt(startXRefMatch[1], 10, 64)
 		if err == nil {
@@ -101,9 +100,28 @@ func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 
 // FindObjectByNumber finds a PDF object by its number
 func FindObjectByNumber(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) (int, error) {
-	// First, try direct search (works for unencrypted or if object header is visible)
+	// The cross-reference data of the newest revision decides where it can be read
+	incParser := newIncrementalParser(pdfBytes, verbose)
+	if err := incParser.parse(); err == nil {
+		if offset, ok := incParser.mergedObjs[objNum]; ok && offset >= 0 && offset < int64(len(pdfBytes)) {
+			if span := objectHeaderPattern.FindSubmatch(pdfBytes[offset:min(int(offset)+64, len(pdfBytes))]); span != nil && string(span[1]) == strconv.Itoa(objNum) {
+				return int(offset), nil
+			}
+		}
+	}
+
+	// Then, try direct search (works for unencrypted or if object header is visible)
 	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
 	objIndex := bytes.Index(pdfBytes, objPattern)
+	for objIndex > 0 && pdfBytes[objIndex-1] >= '0' && pdfBytes[objIndex-1] <= '9' {
+		// "5 0 obj" also matches inside "15 0 obj"
+		next := bytes.Index(pdfBytes[objIndex+1:], objPattern)
+		if next == -1 {
+			objIndex = -1
+			break
+		}
+		objIndex += 1 + next
+	}
 	if objIndex != -1 {
 		if verbose {
 			log.Printf("Found object %d at byte position %d (direct search)", objNum, objIndex)
@@ -113,8 +131,7 @@ func FindObjectByNumber(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncry
 
 	// If not found, try parsing cross-reference table (works for encrypted PDFs)
 	// Find startxref directly (works even without trailer keyword)
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
+	startxrefMatch := lastStartXRef(pdfBytes)
 
 	if startxrefMatch != nil {
 		startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
@@ -180,59 +197,23 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 	objMap := make(map[int]int64)
 
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+
 	// Read from startxref position
 	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(10000, len(xrefSection))])
 
 	// Find xref keyword
-	xrefPos := strings.Index(xrefStr, "xref")
+	xrefPos := bytes.Index(xrefSection[:min(10000, len(xrefSection))], []byte("xref"))
 	if xrefPos == -1 {
 		return nil, fmt.Errorf("xref keyword not found")
 	}
 
-	// Parse xref subsections
-	// Format: xref\n0 N\nM K\n... where:
-	// - First line after "xref": "0 N" means starting object 0, N entries
-	// - Subsequent lines: "offset generation f" or "offset generation n"
-	//   where f=free, n=in-use
-	lines := strings.Split(xrefStr[xrefPos:], "\n")
-
-	currentObjNum := 0
-	inSubsection := false
-
-	for i, line := range lines {
-		if i == 0 {
-			continue // Skip "xref" line
-		}
-
-		line = strings.TrimSpace(line)
-		if line == "" {
-			continue
-		}
-
-		fields := strings.Fields(line)
-		if len(fields) == 2 {
-			// Subsection header: "first_obj_num count"
-			firstObj, err1 := strconv.Atoi(fields[0])
-			_, err2 := strconv.Atoi(fields[1])
-			if err1 == nil && err2 == nil {
-				currentObjNum = firstObj
-				inSubsection = true
-				continue
-			}
-		}
-
-		if inSubsection && len(fields) >= 3 {
-			// Entry: "offset generation flag"
-			offset, err1 := strconv.ParseInt(fields[0], 10, 64)
-			_, err2 := strconv.Atoi(fields[1])
-			flag := fields[2]
-
-			if err1 == nil && err2 == nil && flag == "n" {
-				// In-use object
-				objMap[currentObjNum] = offset
-			}
-			currentObjNum++
+	entries, _ := scanXRefTable(xrefSection[xrefPos:])
+	for _, entry := range entries {
+		if entry.InUse {
+			objMap[entry.ObjectNum] = entry.Offset
 		}
 	}
 
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index ced4bbf..6709598 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -1,14 +1,7 @@
 package parse
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -24,177 +17,31 @@ func ParseXRefStream(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo *types.PDFEncryption, verbose bool) (map[int]int64, error) {
 	objMap := make(map[int]int64)
 
-	// The xref stream object should be at startXRef
-	// Find object number - it should be at or near startXRef
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start (usually the first thing)
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		// Try searching a bit before startXRef in case of offset issues
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
-	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
-	}
-
-	// Find /Size entry (total number of objects)
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
-	if sizeMatch == nil {
-		return nil, fmt.Errorf("/Size not found in xref stream")
-	}
-
-	// Find /W entry (field widths: [w1 w2 w3])
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
-	if wMatch == nil {
-		return nil, fmt.Errorf("/W not found in xref stream")
-	}
-
-	w1, _ := strconv.Atoi(wMatch[1]) // Type field width
-	w2, _ := strconv.Atoi(wMatch[2]) // Field 2 width (usually offset)
-	w3, _ := strconv.Atoi(wMatch[3]) // Field 3 width (usually generation)
-
-	// Find /Index entry if present (subsections)
-	// Format: /Index [first1 count1 first2 count2 ...]
-	// /Index defines which object numbers are in this xref stream
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		// Parse index array - this tells us which object numbers are in this stream
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
-		}
-	} else {
-		// Default: single subsection starting at 0, up to /Size
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
-	}
-
-	// Find stream content
-	// Look for "stream" after the dictionary
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	// Find endstream
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	// Extract stream content (raw bytes, don't trim)
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
-
-	// Note: Xref streams are typically NOT encrypted (they're needed to decrypt other objects)
-	// The stream content should be FlateDecode compressed binary data
-	// FlateDecode can be either raw deflate or zlib-wrapped
-
-	// Try zlib decompression first (FlateDecode is usually zlib-wrapped)
-	// If that fails, try raw deflate
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			// zlib read failed, try raw deflate
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		// zlib.NewReader failed (not zlib format), try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	xref, err := readXRefStream(pdfBytes, startXRef)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream (tried zlib and deflate): %v", err)
-	}
-
-	// Parse decompressed stream data
-	// Each entry is w1+w2+w3 bytes
-	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
-		return nil, fmt.Errorf("invalid entry size: w1=%d, w2=%d, w3=%d", w1, w2, w3)
+		return nil, err
 	}
 
-	entryIndex := 0
-
-	for _, sub := range subsections {
-		for objNum := sub.first; objNum < sub.first+sub.count; objNum++ {
-			if entryIndex*entrySize+entrySize > len(decompressed) {
-				break
+	xref.each(func(objNum, typeVal int, offset, _ int64) {
+		if typeVal == 1 {
+			// Type 1: uncompressed, in-use object
+			if offset > 0 {
+				objMap[objNum] = offset
 			}
-
-			entry := decompressed[entryIndex*entrySize : entryIndex*entrySize+entrySize]
-
-			// Parse entry based on type (first w1 bytes)
-			typeVal := 0
-			for i := 0; i < w1 && i < len(entry); i++ {
-				typeVal = typeVal<<8 | int(entry[i])
-			}
-
-			// Calculate offset for all types (field 2)
-			offset := int64(0)
-			for i := w1; i < w1+w2 && i < len(entry); i++ {
-				offset = offset<<8 | int64(entry[i])
+		} else if typeVal == 2 {
+			// Type 2: compressed object (object stream)
+			// Field 2 is object stream number, field 3 is index within stream
+			// For compressed objects, we'd need to parse the object stream
+			// For now, skip - would need object stream parsing
+		} else if typeVal == 0 {
+			// Type 0: free object
+			// However, some PDFs incorrectly mark in-use objects as type 0
+			// If offset looks valid, include it (object 212 is type 0 but has offset 66048)
+			if offset > 100 && offset < int64(len(pdfBytes)) {
+				objMap[objNum] = offset
 			}
-
-			if typeVal == 1 {
-				// Type 1: uncompressed, in-use object
-				if offset > 0 {
-					objMap[objNum] = offset
-				}
-			} else if typeVal == 2 {
-				// Type 2: compressed object (object stream)
-				// Field 2 is object stream number, field 3 is index within stream
-				// For compressed objects, we'd need to parse the object stream
-				// For now, skip - would need object stream parsing
-			} else if typeVal == 0 {
-				// Type 0: free object
-				// However, some PDFs incorrectly mark in-use objects as type 0
-				// If offset looks valid, include it (object 212 is type 0 but has offset 66048)
-				if offset > 100 && offset < int64(len(pdfBytes)) {
-					objMap[objNum] = offset
-				}
-			}
-
-			entryIndex++
 		}
-	}
+	})
 
 	if len(objMap) == 0 {
 		return nil, fmt.Errorf("no objects found in xref stream")
-- 
2.43.0


From 28a08294d9069e74e605cfb403f8fd44380694a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 02/73] fix: byte-perfect mode delimits objects by syntax and
 keeps compressed objects

---
 core/parse/api.go             |  25 ++++++-
 core/parse/document_parser.go | 136 ++++++++++------------------------
 2 files changed, 64 insertions(+), 97 deletions(-)

diff --git a/core/parse/api.go b/core/parse/api.go
index 5e78d64..7ba5f98 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -158,6 +158,29 @@ func (p *PDF) parseBytePerfect() error {
 		}
 	}
 
+	// The merged cross-reference data decides which objects exist and which version is current
+	incParser := newIncrementalParser(p.raw, p.opts.Verbose)
+	if err := incParser.parse(); err == nil {
+		for objNum := range p.xref.Objects {
+			if _, ok := incParser.mergedObjs[objNum]; !ok {
+				delete(p.xref.Objects, objNum)
+			}
+		}
+		for objNum, offset := range incParser.mergedObjs {
+			if ref, ok := p.xref.Objects[objNum]; !ok || ref.Offset != offset {
+				p.xref.Objects[objNum] = &ObjectRef{Number: objNum, Offset: offset}
+			}
+		}
+		for objNum, entry := range incParser.mergedStreams {
+			p.xref.Objects[objNum] = &ObjectRef{
+				Number:       objNum,
+				InStream:     true,
+				StreamObjNum: entry.StreamObjNum,
+				StreamIndex:  entry.IndexInStream,
+			}
+		}
+	}
+
 	// Build trailer info from last revision
 	if len(doc.Revisions) > 0 {
 		lastRev := doc.Revisions[len(doc.Revisions)-1]
@@ -255,7 +278,7 @@ func (p *PDF) RevisionCount() int {
 		return len(p.doc.Revisions)
 	}
 	// For standard parsing, count %%EOF markers
-	return len(FindAllEOFMarkers(p.raw))
+	return CountRevisions(p.raw)
 }
 
 // ObjectCount returns the number of objects in the PDF
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 86c6a30..645197f 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -27,7 +27,7 @@ func ParsePDFDocument(pdfBytes []byte) (*PDFDocument, error) {
 	doc.Header = header
 
 	// Find all revision boundaries (%%EOF markers)
-	eofOffsets := FindAllEOFMarkers(pdfBytes)
+	eofOffsets := revisionMarkers(pdfBytes)
 	if len(eofOffsets) == 0 {
 		return nil, fmt.Errorf("no %%EOF marker found")
 	}
@@ -129,9 +129,7 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 		searchStart = 0
 	}
 
-	searchSection := string(pdfBytes[searchStart:eofOffset])
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
+	match := lastStartXRef(pdfBytes[searchStart:eofOffset])
 	if match == nil {
 		return nil, fmt.Errorf("startxref not found before %%EOF at %d", eofOffset)
 	}
@@ -215,64 +213,14 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 	section := pdfBytes[startXRef:]
 
 	// Find end of xref table (at "trailer" keyword)
-	trailerIdx := bytes.Index(section, []byte("trailer"))
+	entries, trailerIdx := scanXRefTable(section)
 	if trailerIdx == -1 {
 		// No trailer found - look for end of entries
 		trailerIdx = min(10000, len(section))
 	}
 
 	xref.RawBytes = section[:trailerIdx]
-
-	// Parse entries
-	lines := bytes.Split(xref.RawBytes, []byte("\n"))
-
-	currentObjNum := 0
-	inSubsection := false
-
-	for i, line := range lines {
-		line = bytes.TrimSpace(line)
-		if len(line) == 0 {
-			continue
-		}
-
-		// Skip "xref" keyword
-		if i == 0 && bytes.Equal(line, []byte("xref")) {
-			continue
-		}
-
-		// Check for subsection header (two numbers)
-		parts := bytes.Fields(line)
-		if len(parts) == 2 {
-			firstObj, err1 := strconv.Atoi(string(parts[0]))
-			_, err2 := strconv.Atoi(string(parts[1]))
-			if err1 == nil && err2 == nil {
-				currentObjNum = firstObj
-				inSubsection = true
-				continue
-			}
-		}
-
-		// Parse entry (20 bytes: offset generation flag)
-		if inSubsection && len(parts) >= 3 {
-			offset, err1 := strconv.ParseInt(string(parts[0]), 10, 64)
-			gen, err2 := strconv.Atoi(string(parts[1]))
-			flag := string(parts[2])
-
-			if err1 == nil && err2 == nil {
-				entry := XRefEntry{
-					ObjectNum:  currentObjNum,
-					Generation: gen,
-					Offset:     offset,
-					InUse:      flag == "n",
-					RawBytes:   make([]byte, len(line)),
-				}
-				copy(entry.RawBytes, line)
-
-				xref.Entries = append(xref.Entries, entry)
-				currentObjNum++
-			}
-		}
-	}
+	xref.Entries = append(xref.Entries, entries...)
 
 	return xref, nil
 }
@@ -280,9 +228,8 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 // parseXRefStreamRaw parses a cross-reference stream with raw bytes preserved
 func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRefData, error) {
 	// Parse the xref stream object
-	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
 	section := pdfBytes[startXRef:]
-	match := objPattern.FindSubmatch(section[:min(100, len(section))])
+	match := objectHeaderPattern.FindSubmatch(section[:min(100, len(section))])
 
 	if match == nil {
 		return nil, fmt.Errorf("xref stream object header not found")
@@ -315,6 +262,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 		})
 	}
 
+	for objNum := range result.Free {
+		xref.Entries = append(xref.Entries, XRefEntry{ObjectNum: objNum})
+	}
+
 	for objNum, streamEntry := range result.ObjectStreams {
 		xref.Entries = append(xref.Entries, XRefEntry{
 			ObjectNum:      objNum,
@@ -330,8 +281,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref: %d", startXRef)
+	}
 	section := pdfBytes[startXRef:]
-	sectionStr := string(section[:min(5000, len(section))])
 
 	trailer := &TrailerData{}
 
@@ -341,21 +294,7 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 		trailer.Offset = 0 // No separate trailer
 
 		// Extract trailer-equivalent info from stream dictionary
-		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Size, _ = strconv.Atoi(match[1])
-		}
-		if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Root = match[1]
-		}
-		if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Encrypt = match[1]
-		}
-		if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Info = match[1]
-		}
-		if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-		}
+		trailer.readEntries(xrefTrailerEntries(section))
 
 		// Find dictionary boundaries for RawBytes
 		dictStart := bytes.Index(section, []byte("<<"))
@@ -373,14 +312,14 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 				}
 				dictEnd++
 			}
-			trailer.RawBytes = section[dictStart:dictEnd]
+			trailer.RawBytes = section[dictStart:min(dictEnd, len(section))]
 		}
 
 		return trailer, nil
 	}
 
 	// Traditional trailer
-	trailerIdx := bytes.Index(section, []byte("trailer"))
+	_, trailerIdx := scanXRefTable(section)
 	if trailerIdx == -1 {
 		return nil, fmt.Errorf("trailer keyword not found")
 	}
@@ -396,27 +335,18 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 	trailer.RawBytes = section[trailerIdx : trailerIdx+startxrefIdx]
 
 	// Parse trailer values
-	trailerStr := string(trailer.RawBytes)
-
-	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Size, _ = strconv.Atoi(match[1])
-	}
-	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Root = match[1]
-	}
-	if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Encrypt = match[1]
-	}
-	if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Info = match[1]
-	}
-	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-	}
+	trailer.readEntries(dictEntries(trailerDict(section, trailerIdx)))
 
 	return trailer, nil
 }
 
+// readEntries takes the values of interest from a trailer dictionary
+func (t *TrailerData) readEntries(entries map[string][]byte) {
+	var section xrefSection
+	section.readTrailer(entries)
+	t.Size, t.Root, t.Encrypt, t.Info, t.Prev = section.Size, section.Root, section.Encrypt, section.Info, section.Prev
+}
+
 // ParseRawObject parses a PDF object preserving all raw bytes
 func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDFRawObject, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
@@ -435,14 +365,18 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 	expectedHeader := fmt.Sprintf("%d %d obj", objNum, objGen)
 	if !bytes.HasPrefix(section, []byte(expectedHeader)) {
 		// Try to find it nearby
-		headerPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, objGen))
+		headerPattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+%d\s+obj`, objNum, objGen))
 		if !headerPattern.Match(section[:min(50, len(section))]) {
 			return nil, fmt.Errorf("object header not found at offset %d", offset)
 		}
 	}
 
 	// Find endobj
-	endobjIdx := bytes.Index(section, []byte("endobj"))
+	span, scanned := scanObject(pdfBytes, section)
+	endobjIdx := span.EndObj
+	if !scanned {
+		endobjIdx = bytes.Index(section, []byte("endobj"))
+	}
 	if endobjIdx == -1 {
 		return nil, fmt.Errorf("endobj not found for object %d", objNum)
 	}
@@ -455,7 +389,16 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 
 	// Check if this is a stream object
 	streamIdx := bytes.Index(obj.RawBytes, []byte("stream"))
-	if streamIdx != -1 {
+	if scanned {
+		streamIdx = span.StreamKw
+	}
+	if scanned && streamIdx != -1 {
+		obj.IsStream = true
+		obj.DictStart, obj.DictEnd = skipSpace(obj.RawBytes, span.Content), span.DictEnd
+		obj.StreamStart, obj.StreamEnd = span.StreamStart, span.StreamEnd
+		obj.DictRaw = obj.RawBytes[obj.DictStart:obj.DictEnd]
+		obj.StreamRaw = obj.RawBytes[obj.StreamStart:obj.StreamEnd]
+	} else if streamIdx != -1 {
 		obj.IsStream = true
 
 		// Find dictionary (before "stream")
@@ -474,6 +417,7 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 				}
 				dictEnd++
 			}
+			dictEnd = min(dictEnd, len(obj.RawBytes))
 
 			obj.DictStart = dictStart
 			obj.DictEnd = dictEnd
-- 
2.43.0


From 834ad2c75b6323c706e76640f59ee5dd74134b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 03/73] fix: write object streams, empty streams and shared
 stream dictionaries correctly

Offsets in object streams counted the header twice, streams without data became
empty objects, a dictionary shared by two streams was overwritten by the second,
the cross-reference stream dictionary lacked its trailer entries, and writing a
second time left objects of the first run behind.
---
 core/write/object_stream.go | 29 +++++++++--------------------
 core/write/writer.go        | 30 ++++++++++++++++++++++++++++--
 core/write/xref_stream.go   | 15 ++++++++++++++-
 3 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0bbd26..a61b147 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -31,11 +32,17 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		if obj.IsFree {
 			continue
 		}
+		// The encryption dictionary must stay readable without decryption, and stream
+		// objects given as raw content cannot be nested
+		if fmt.Sprintf("%d 0 R", objNum) == w.encryptRef || bytes.HasSuffix(bytes.TrimSpace(obj.Content), []byte("endstream")) {
+			continue
+		}
 		// Only compress non-stream objects (stream objects are already compressed)
 		if obj.Stream == nil && obj.Content != nil {
 			eligibleObjs = append(eligibleObjs, objNum)
 		}
 	}
+	sort.Ints(eligibleObjs)
 
 	if len(eligibleObjs) == 0 {
 		return nil, nil, nil
@@ -73,7 +80,6 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	for i := range objInfos {
 		objInfos[i].offset = currentOffset
 		// Offset is relative to start of object data (after header)
-		// We'll add header length later
 		currentOffset += len(objInfos[i].data) + 1 // +1 for space separator
 	}
 
@@ -87,25 +93,8 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 
 	headerStr := strings.TrimSpace(headerBuilder.String())
 	headerBytes := []byte(headerStr)
-	firstOffset := len(headerBytes)
-
-	// Adjust offsets to be relative to start of data (after header + space)
-	dataStartOffset := firstOffset + 1 // +1 for space after header
-	for i := range objInfos {
-		objInfos[i].offset += dataStartOffset
-	}
-
-	// Rebuild header with corrected offsets
-	headerBuilder.Reset()
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-	headerStr = strings.TrimSpace(headerBuilder.String())
-	headerBytes = []byte(headerStr)
-	firstOffset = len(headerBytes)
+	// Offsets in the header are relative to /First, the start of the data (after header + space)
+	firstOffset := len(headerBytes) + 1
 
 	// Build data section
 	var dataBuilder bytes.Buffer
diff --git a/core/write/writer.go b/core/write/writer.go
index cde6981..564c6ca 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -101,7 +101,8 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 	objNum := w.nextObjNum
 	w.nextObjNum++
 
-	streamData := data
+	dict = copyStreamDict(dict)
+	streamData := append([]byte{}, data...)
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
 		zw := zlib.NewWriter(&buf)
@@ -137,7 +138,8 @@ func (w *PDFWriter) SetObject(objNum int, content []byte) {
 
 // SetStreamObject sets a stream object at a specific number
 func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, compress bool) {
-	streamData := data
+	dict = copyStreamDict(dict)
+	streamData := append([]byte{}, data...)
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
 		zw := zlib.NewWriter(&buf)
@@ -160,6 +162,19 @@ func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, co
 	}
 }
 
+// copyStreamDict returns a copy of a stream dictionary in which the keys the writer sets itself
+// have one spelling. The caller's dictionary may be shared between several streams.
+func copyStreamDict(dict Dictionary) Dictionary {
+	result := make(Dictionary, len(dict)+2)
+	for key, value := range dict {
+		if key == "/Length" || key == "/Filter" {
+			key = key[1:]
+		}
+		result[key] = value
+	}
+	return result
+}
+
 // SetRoot sets the root (catalog) object reference
 func (w *PDFWriter) SetRoot(objNum int) {
 	w.rootRef = fmt.Sprintf("%d 0 R", objNum)
@@ -266,6 +281,17 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	buf.WriteString(fmt.Sprintf("%%PDF-%s\n", w.pdfVersion))
 	buf.Write([]byte{0x25, 0xE2, 0xE3, 0xCF, 0xD3, 0x0A}) // Binary marker
 
+	// Objects added below exist in the output only; writing again must give the same file
+	nextObjNum := w.nextObjNum
+	defer func() {
+		for num := range w.objects {
+			if num >= nextObjNum {
+				delete(w.objects, num)
+			}
+		}
+		w.nextObjNum = nextObjNum
+	}()
+
 	// Create object streams if enabled (before writing objects)
 	// This may add new object stream objects to w.objects
 	objStreamMap, _, err := w.createObjectStreams()
diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index d482a2d..7b4eb7f 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -133,7 +133,7 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	compressedData := compressed.Bytes()
 
 	// Create xref stream dictionary
-	// Note: /Root, /Info, /Encrypt, /ID go in the trailer, not the stream dict
+	// The dictionary also serves as the trailer dictionary
 	xrefStreamDict := Dictionary{
 		"/Type":   "/XRef",
 		"/Size":   totalObjects,
@@ -142,6 +142,19 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 		"/Length": len(compressedData),
 	}
 
+	if w.rootRef != "" {
+		xrefStreamDict["/Root"] = w.rootRef
+	}
+	if w.infoRef != "" {
+		xrefStreamDict["/Info"] = w.infoRef
+	}
+	if w.encryptRef != "" {
+		xrefStreamDict["/Encrypt"] = w.encryptRef
+	}
+	if len(w.fileID) > 0 {
+		xrefStreamDict["/ID"] = []interface{}{w.fileID, w.fileID}
+	}
+
 	// Increment object counter
 	w.nextObjNum++
 
-- 
2.43.0


From 756c76c9f6c48512316fe0d5a3e966aec924f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 04/73] fix: keep all catalog entries when adding outlines and
 emit only well-formed names, strings and nulls

---
 core/write/writer.go | 118 +++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 56 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 564c6ca..654c1f4 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -10,6 +10,7 @@ import (
 	"crypto/rand"
 	"fmt"
 	"io"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -204,64 +205,22 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 		return
 	}
 
-	// Parse catalog dictionary if it's a Dictionary, otherwise parse as string
-	var catalogDict Dictionary
+	// Set /Outlines in the catalog, keeping its other entries
 	if catalogObj.Dict != nil {
-		catalogDict = catalogObj.Dict
-	} else {
-		// Try to parse from Content
-		catalogStr := string(catalogObj.Content)
-		// Simple parsing - find dictionary entries
-		// For now, rebuild the dictionary properly
-		// Extract existing entries and rebuild
-		if strings.Contains(catalogStr, "/Type") && strings.Contains(catalogStr, "/Pages") {
-			// Rebuild with /Outlines
-			catalogDict = Dictionary{
-				"/Type":  "/Catalog",
-				"/Pages": extractDictValueFromString(catalogStr, "/Pages"),
-			}
-			if pagesRef := extractDictValueFromString(catalogStr, "/Pages"); pagesRef != "" {
-				catalogDict["/Pages"] = pagesRef
-			}
-		} else {
-			// Fallback: just add /Outlines to string
-			catalogStr := string(catalogObj.Content)
-			if !strings.Contains(catalogStr, "/Outlines") {
-				lastIdx := strings.LastIndex(catalogStr, ">>")
-				if lastIdx > 0 {
-					catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
-					catalogObj.Content = []byte(catalogStr)
-				}
-			}
-			return
-		}
+		catalogObj.Dict["/Outlines"] = w.outlinesRef
+		catalogObj.Content = w.formatDictionary(catalogObj.Dict)
+		return
+	}
+	catalogStr := string(catalogObj.Content)
+	if m := outlinesEntry.FindStringIndex(catalogStr); m != nil {
+		catalogStr = catalogStr[:m[0]] + catalogStr[m[1]:]
+	}
+	if lastIdx := strings.LastIndex(catalogStr, ">>"); lastIdx > 0 {
+		catalogObj.Content = []byte(catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:])
 	}
-
-	// Add /Outlines to dictionary
-	catalogDict["/Outlines"] = w.outlinesRef
-
-	// Update catalog object
-	catalogObj.Content = w.formatDictionary(catalogDict)
-	catalogObj.Dict = catalogDict
 }
 
-// extractDictValueFromString extracts a dictionary value from a string representation
-func extractDictValueFromString(dictStr, key string) string {
-	// Simple regex-like extraction
-	keyPattern := key + " "
-	idx := strings.Index(dictStr, keyPattern)
-	if idx == -1 {
-		return ""
-	}
-	start := idx + len(keyPattern)
-	// Find the value (could be a reference, array, etc.)
-	// For simplicity, extract until space or >
-	end := start
-	for end < len(dictStr) && dictStr[end] != ' ' && dictStr[end] != '>' && dictStr[end] != '\n' {
-		end++
-	}
-	return dictStr[start:end]
-}
+var outlinesEntry = regexp.MustCompile(`/Outlines\s+\d+\s+\d+\s+R\s*`)
 
 // SetEncryptRef sets the encrypt dictionary object reference
 func (w *PDFWriter) SetEncryptRef(objNum int) {
@@ -461,7 +420,7 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 		if !strings.HasPrefix(key, "/") {
 			key = "/" + key
 		}
-		buf.WriteString(key)
+		buf.WriteString(escapeName(key))
 		buf.WriteString(" ")
 		buf.WriteString(w.formatValue(value))
 		buf.WriteString(" ")
@@ -480,6 +439,10 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return strconv.FormatInt(v, 10)
 	case float64:
 		return strconv.FormatFloat(v, 'f', -1, 64)
+	case nil:
+		return "null"
+	case literalString:
+		return "(" + string(v) + ")"
 	case string:
 		// If it looks like a name or reference, use as-is
 		if strings.HasPrefix(v, "/") || strings.HasSuffix(v, " R") {
@@ -488,7 +451,7 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		// If it's already escaped (contains \( or \)), use as-is
 		// Otherwise, it's a string - format as PDF string
 		// Note: escapePDFString in metadata.go returns escaped content without parentheses
-		return "(" + v + ")"
+		return "(" + escapeUnlessBalanced(v) + ")"
 	case []byte:
 		return "<" + fmt.Sprintf("%X", v) + ">"
 	case []interface{}:
@@ -504,6 +467,49 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 	}
 }
 
+// literalString is the escaped content of a PDF string; unlike a plain string in a Dictionary it
+// is never taken for a name or a reference.
+type literalString string
+
+// escapeUnlessBalanced returns s unchanged if it can stand between parentheses as it is, and
+// escapes it otherwise.
+func escapeUnlessBalanced(s string) string {
+	depth := 0
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '\\':
+			i++
+			if i == len(s) {
+				return escapePDFStringForMetadata(s)
+			}
+		case '(':
+			depth++
+		case ')':
+			if depth--; depth < 0 {
+				return escapePDFStringForMetadata(s)
+			}
+		}
+	}
+	if depth != 0 {
+		return escapePDFStringForMetadata(s)
+	}
+	return s
+}
+
+// escapeName replaces characters that cannot appear in a name by their #xx form.
+func escapeName(name string) string {
+	var b strings.Builder
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if i > 0 && (c <= ' ' || c >= 0x7f || strings.IndexByte("()<>[]{}/%", c) >= 0) {
+			fmt.Fprintf(&b, "#%02X", c)
+			continue
+		}
+		b.WriteByte(c)
+	}
+	return b.String()
+}
+
 // encryptStream encrypts stream data using the PDF's encryption settings
 func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
 	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
-- 
2.43.0


From d7812f7bc6a4cf5a52acdaace205ba0100dbe336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 05/73] fix: keep generation numbers of cross-reference stream
 entries in byte-perfect mode

---
 core/parse/document_parser.go | 45 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 645197f..023c4f8 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -247,34 +247,29 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	xref.StreamObject = obj
 	xref.RawBytes = obj.RawBytes
 
-	// Parse the xref entries from the stream using existing parser
-	result, err := ParseXRefStreamFull(pdfBytes, startXRef, false)
+	// Parse the xref entries from the stream, in file order
+	data, err := readXRefStream(pdfBytes, startXRef)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse xref stream entries: %v", err)
 	}
-
-	// Convert to XRefEntry format
-	for objNum, offset := range result.Objects {
-		xref.Entries = append(xref.Entries, XRefEntry{
-			ObjectNum: objNum,
-			Offset:    offset,
-			InUse:     true,
-		})
-	}
-
-	for objNum := range result.Free {
-		xref.Entries = append(xref.Entries, XRefEntry{ObjectNum: objNum})
-	}
-
-	for objNum, streamEntry := range result.ObjectStreams {
-		xref.Entries = append(xref.Entries, XRefEntry{
-			ObjectNum:      objNum,
-			InUse:          true,
-			InObjectStream: true,
-			StreamObjNum:   streamEntry.StreamObjNum,
-			IndexInStream:  streamEntry.IndexInStream,
-		})
-	}
+	data.each(func(objNum, typ int, field2, field3 int64) {
+		entry := XRefEntry{ObjectNum: objNum}
+		switch typ {
+		case 0:
+			entry.Generation = int(field3)
+		case 1:
+			if field2 <= 0 {
+				return
+			}
+			entry.Offset, entry.Generation, entry.InUse = field2, int(field3), true
+		case 2:
+			entry.InUse, entry.InObjectStream = true, true
+			entry.StreamObjNum, entry.IndexInStream = int(field2), int(field3)
+		default:
+			return
+		}
+		xref.Entries = append(xref.Entries, entry)
+	})
 
 	return xref, nil
 }
-- 
2.43.0


From 6c883def469d9f69d6187b78e37abedfc7e93d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 06/73] fix: resolve an indirect stream length next to a
 comment

---
 core/parse/lexical.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/parse/lexical.go b/core/parse/lexical.go
index 7a0328b..86e9591 100644
--- a/core/parse/lexical.go
+++ b/core/parse/lexical.go
@@ -261,10 +261,15 @@ func scanStream(whole, section, dict []byte, span *objectSpan) bool {
 			}
 		} else if refPattern.Match(length) {
 			f := bytes.Fields(length)
-			pattern := regexp.MustCompile(fmt.Sprintf(`(?:^|\s)%s\s+%s\s+obj\s+(\d+)\s+endobj`, f[0], f[1]))
-			found := pattern.FindAllSubmatch(whole, -1)
+			pattern := regexp.MustCompile(fmt.Sprintf(`(?:^|\s)%s\s+%s\s+obj`, f[0], f[1]))
+			found := pattern.FindAllIndex(whole, -1)
 			for i := len(found) - 1; i >= 0; i-- {
-				if n, err := strconv.Atoi(string(found[i][1])); err == nil && tryLength(n) {
+				start := skipSpace(whole, found[i][1])
+				end := scanToken(whole, start)
+				if end == -1 {
+					continue
+				}
+				if n, err := strconv.Atoi(string(whole[start:end])); err == nil && tryLength(n) {
 					return true
 				}
 			}
-- 
2.43.0


From bc4a0a9532ebc4499d8f6a20347a6a5193dc6b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 07/73] fix: find endobj after a comment that follows a stream

---
 core/parse/lexical.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/parse/lexical.go b/core/parse/lexical.go
index 86e9591..00fb17b 100644
--- a/core/parse/lexical.go
+++ b/core/parse/lexical.go
@@ -237,6 +237,10 @@ func scanStream(whole, section, dict []byte, span *objectSpan) bool {
 	finish := func(dataEnd, kw int) bool {
 		span.StreamEnd = dataEnd
 		span.EndStream = kw + len("endstream")
+		span.EndObj = skipSpace(section, span.EndStream)
+		if bytes.HasPrefix(section[span.EndObj:], []byte("endobj")) {
+			return true
+		}
 		idx := bytes.Index(section[span.EndStream:], []byte("endobj"))
 		if idx == -1 {
 			return false
-- 
2.43.0


From a8332a0f5589c7506f0a7a436ba0baece130d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 08/73] fix: ASCIIHex and ASCII85 decoders skip all white space

---
 core/parse/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/parse/filters.go b/core/parse/filters.go
index 46d3933..62a1d2d 100644
--- a/core/parse/filters.go
+++ b/core/parse/filters.go
@@ -48,7 +48,7 @@ func DecodeASCIIHex(data []byte) ([]byte, error) {
 
 	for _, b := range data {
 		// Skip whitespace
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' {
+		if isSpaceByte(b) {
 			continue
 		}
 
@@ -108,7 +108,7 @@ func DecodeASCII85(data []byte) ([]byte, error) {
 		b := data[i]
 
 		// Skip whitespace
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' {
+		if isSpaceByte(b) {
 			continue
 		}
 
-- 
2.43.0


From cc667bf5edf038466a347f72b6a06b1991c4761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 09/73] fix: ignore object numbers beyond the architectural
 limit and undo predictors of multi-byte pixels

Adds value scanning helpers that the content packages use to read dictionaries by syntax.
---
 core/parse/lexical.go |  30 +++++--
 core/parse/syntax.go  | 189 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 213 insertions(+), 6 deletions(-)
 create mode 100644 core/parse/syntax.go

diff --git a/core/parse/lexical.go b/core/parse/lexical.go
index 00fb17b..5acdb43 100644
--- a/core/parse/lexical.go
+++ b/core/parse/lexical.go
@@ -13,6 +13,10 @@ import (
 // maxNesting bounds how deeply nested containers are followed while scanning.
 const maxNesting = 500
 
+// maxObjectNumber is the largest object number a cross-reference section may assign
+// (the limit on the number of indirect objects in ISO 32000-1 Annex C).
+const maxObjectNumber = 8388607
+
 func isSpaceByte(b byte) bool {
 	return b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0
 }
@@ -347,7 +351,18 @@ func decodeStream(dict map[string][]byte, data []byte) ([]byte, error) {
 				if !ok {
 					columns = 1
 				}
-				data, err = undoPNGPredictor(data, columns)
+				colors, ok := entryInt(parms, "/Colors")
+				if !ok {
+					colors = 1
+				}
+				bits, ok := entryInt(parms, "/BitsPerComponent")
+				if !ok {
+					bits = 8
+				}
+				if columns < 1 || columns > 1<<20 || colors < 1 || colors > 32 || bits < 1 || bits > 16 {
+					return nil, fmt.Errorf("invalid predictor parameters")
+				}
+				data, err = undoPNGPredictor(data, (columns*colors*bits+7)/8, max(1, colors*bits/8))
 				if err != nil {
 					return nil, err
 				}
@@ -357,8 +372,8 @@ func decodeStream(dict map[string][]byte, data []byte) ([]byte, error) {
 	return data, nil
 }
 
-// undoPNGPredictor reverses PNG row filters for one byte per column.
-func undoPNGPredictor(data []byte, columns int) ([]byte, error) {
+// undoPNGPredictor reverses PNG row filters for rows of columns bytes, pixel bytes per pixel.
+func undoPNGPredictor(data []byte, columns, pixel int) ([]byte, error) {
 	if columns <= 0 || columns > len(data) {
 		return nil, fmt.Errorf("invalid predictor columns: %d", columns)
 	}
@@ -370,8 +385,8 @@ func undoPNGPredictor(data []byte, columns int) ([]byte, error) {
 		cur := make([]byte, columns)
 		for i := range cur {
 			var left, upLeft byte
-			if i > 0 {
-				left, upLeft = cur[i-1], prev[i-1]
+			if i >= pixel {
+				left, upLeft = cur[i-pixel], prev[i-pixel]
 			}
 			switch data[r*(columns+1)] {
 			case 1:
@@ -443,7 +458,7 @@ func scanXRefTable(section []byte) ([]XRefEntry, int) {
 		}
 		third, _, end3 := next(end2)
 		if third == "n" || third == "f" {
-			if objNum >= 0 {
+			if objNum >= 0 && objNum <= maxObjectNumber {
 				entries = append(entries, XRefEntry{ObjectNum: objNum, Generation: b, Offset: a, InUse: third == "n"})
 				objNum++
 			}
@@ -586,6 +601,9 @@ func (d *xrefStreamData) each(f func(objNum, typ int, field2, field3 int64)) {
 			if d.w1 > 0 {
 				typ = int(field(entry[:d.w1]))
 			}
+			if sub.first+i > maxObjectNumber {
+				break
+			}
 			f(sub.first+i, typ, field(entry[d.w1:d.w1+d.w2]), field(entry[d.w1+d.w2:]))
 		}
 	}
diff --git a/core/parse/syntax.go b/core/parse/syntax.go
new file mode 100644
index 0000000..cc0e0b3
--- /dev/null
+++ b/core/parse/syntax.go
@@ -0,0 +1,189 @@
+package parse
+
+import (
+	"bytes"
+	"fmt"
+	"strconv"
+)
+
+// ScanToken returns the bounds of the next token of b at or after p, skipping white space and
+// comments: a number, name, operator or string, or a whole array or dictionary. ok is false at
+// the end of b and when the token is not terminated.
+func ScanToken(b []byte, p int) (start, end int, ok bool) {
+	if p < 0 {
+		return 0, 0, false
+	}
+	start = skipSpace(b, p)
+	end = scanToken(b, start)
+	return start, end, end > start
+}
+
+// ScanValue is ScanToken for places where "N G R" is one value.
+func ScanValue(b []byte, p int) (start, end int, ok bool) {
+	start, end, ok = ScanToken(b, p)
+	if ok {
+		if m := refPattern.FindIndex(b[start:min(len(b), start+40)]); m != nil {
+			end = start + m[1]
+		}
+	}
+	return start, end, ok
+}
+
+// DictSpan returns the bounds of the entries of an object's dictionary (what lies between its
+// "<<" and ">>"). The object may still have its "N G obj" header and may be a stream.
+func DictSpan(object []byte) (start, end int, ok bool) {
+	p := 0
+	if m := objectHeaderPattern.FindIndex(object[:min(64, len(object))]); m != nil {
+		p = m[1]
+	}
+	start, end, ok = ScanToken(object, p)
+	if !ok || !bytes.HasPrefix(object[start:], []byte("<<")) {
+		return 0, 0, false
+	}
+	return start + 2, end - 2, true
+}
+
+// DictValueSpan returns the bounds of the value of a dictionary's own key (given with its
+// slash); keys of nested dictionaries and text inside strings do not count. object may be the
+// bare entries of a dictionary.
+func DictValueSpan(object []byte, key string) (start, end int, ok bool) {
+	p, limit, isDict := DictSpan(object)
+	if !isDict {
+		p, limit = 0, len(object)
+		if s := skipSpace(object, 0); s >= limit || object[s] != '/' {
+			return 0, 0, false
+		}
+	}
+	body := object[:limit]
+	for {
+		ks, ke, more := ScanToken(body, p)
+		if !more {
+			return start, end, ok
+		}
+		p = ke
+		if body[ks] != '/' {
+			continue
+		}
+		vs, ve, more := ScanValue(body, ke)
+		if !more {
+			return start, end, ok
+		}
+		if string(body[ks:ke]) == key {
+			start, end, ok = vs, ve, true
+		}
+		p = ve
+	}
+}
+
+// DictValue returns the raw value of a dictionary's own key, nil if it has none.
+func DictValue(object []byte, key string) []byte {
+	start, end, ok := DictValueSpan(object, key)
+	if !ok {
+		return nil
+	}
+	return object[start:end]
+}
+
+// streamParts separates the dictionary and the data of a stream object.
+func streamParts(object []byte) (map[string][]byte, []byte, error) {
+	section := make([]byte, 0, len(object)+20)
+	if !objectHeaderPattern.Match(object[:min(64, len(object))]) {
+		section = append(section, "0 0 obj\n"...)
+	}
+	section = append(append(section, object...), "\nendobj"...)
+	span, ok := scanObject(section, section)
+	if !ok || span.StreamKw == -1 {
+		return nil, nil, fmt.Errorf("not a stream object")
+	}
+	dict := dictEntries(section[skipSpace(section, span.Content):span.DictEnd])
+	return dict, section[span.StreamStart:span.StreamEnd], nil
+}
+
+// StreamContent returns the data of stream object objNum with its filters undone.
+func (p *PDF) StreamContent(objNum int) ([]byte, error) {
+	dict, data, err := p.streamParts(objNum)
+	if err != nil {
+		return nil, err
+	}
+	return decodeStream(dict, data)
+}
+
+// StreamRawContent returns the data of stream object objNum as it is stored (but decrypted).
+func (p *PDF) StreamRawContent(objNum int) ([]byte, error) {
+	_, data, err := p.streamParts(objNum)
+	return data, err
+}
+
+func (p *PDF) streamParts(objNum int) (map[string][]byte, []byte, error) {
+	object, err := p.GetObject(objNum)
+	if err != nil {
+		return nil, nil, err
+	}
+	// An indirect length, filter or filter parameter is replaced by its value
+	for _, key := range []string{"/Length", "/Filter", "/DecodeParms"} {
+		start, end, ok := DictValueSpan(object, key)
+		if !ok || !refPattern.Match(object[start:end]) {
+			continue
+		}
+		target, err := strconv.Atoi(string(bytes.Fields(object[start:end])[0]))
+		if err != nil || target == objNum {
+			continue
+		}
+		value, err := p.GetObject(target)
+		if err != nil {
+			continue
+		}
+		resolved := append([]byte{}, object[:start]...)
+		resolved = append(append(resolved, ' '), bytes.TrimSpace(value)...)
+		object = append(append(resolved, ' '), object[end:]...)
+	}
+	return streamParts(object)
+}
+
+// ObjectContent returns the value of an object without the "N G obj" and "endobj" around it.
+func ObjectContent(object []byte) []byte {
+	m := objectHeaderPattern.FindIndex(object[:min(64, len(object))])
+	if m == nil {
+		return object
+	}
+	content := bytes.TrimRight(object[m[1]:], " \t\r\n\f\x00")
+	content = bytes.TrimSuffix(content, []byte("endobj"))
+	return bytes.Trim(content, " \t\r\n\f\x00")
+}
+
+// ReplaceReferences returns object with every indirect reference outside strings, comments and
+// stream data replaced by what replace returns for its object number.
+func ReplaceReferences(object []byte, replace func(objNum int) string) []byte {
+	limit := len(object)
+	if _, end, ok := DictSpan(object); ok {
+		limit = end + 2
+	}
+	body := object[:limit]
+	var out []byte
+	copied, p := 0, 0
+	for {
+		p = skipSpace(body, p)
+		if p >= limit {
+			return append(out, object[copied:]...)
+		}
+		if m := refPattern.FindIndex(body[p:min(limit, p+40)]); m != nil {
+			objNum, _ := strconv.Atoi(string(bytes.Fields(body[p : p+m[1]])[0]))
+			out = append(append(out, object[copied:p]...), replace(objNum)...)
+			p += m[1]
+			copied = p
+			continue
+		}
+		switch {
+		case body[p] == '[' || body[p] == ']' || body[p] == '{' || body[p] == '}':
+			p++
+		case bytes.HasPrefix(body[p:], []byte("<<")) || bytes.HasPrefix(body[p:], []byte(">>")):
+			p += 2
+		default:
+			end := scanToken(body, p)
+			if end <= p {
+				return append(out, object[copied:]...)
+			}
+			p = end
+		}
+	}
+}
-- 
2.43.0


From 6b557c8ba189bf6dee5b63a2cd679df2d768c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 10/73] fix: page manipulation follows the page tree

Nested page trees, inherited attributes, ancestor counts, parents of inserted pages and the
objects extracted or merged pages depend on are handled; cyclic trees end.
---
 core/manipulate/deletion.go   | 206 ++++++----------------------------
 core/manipulate/extraction.go |  34 ++----
 core/manipulate/insertion.go  | 116 ++++++-------------
 core/manipulate/manipulate.go | 123 ++------------------
 core/manipulate/merging.go    | 153 +++----------------------
 core/manipulate/rotation.go   | 105 ++++++-----------
 core/manipulate/tree.go       | 171 ++++++++++++++++++++++++++++
 7 files changed, 314 insertions(+), 594 deletions(-)
 create mode 100644 core/manipulate/tree.go

diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b807e63..a35d65a 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -2,97 +2,33 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
+	"sort"
 	"strconv"
 )
 
 // DeletePage deletes a specific page from the PDF
 // pageNumber is 1-based (first page is 1)
 func (m *PDFManipulator) DeletePage(pageNumber int) error {
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	// Find the page and the Pages object that contains it
+	leaves, err := m.pageLeaves()
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
-
-	// Find the parent Pages object that contains this page
-	parentPagesObjNum, err := m.findParentPagesObject(pageObjNum)
+	leaf, err := m.getPageLeaf(pageNumber)
 	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
-	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
-	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
-	}
-
-	// Parse kids array and remove the page reference
-	// Kids array format: "[5 0 R 6 0 R ]" or "[5 0 R 6 0 R]"
-	kidsRefs := parseObjectRefArray(kidsStr)
-	if len(kidsRefs) == 0 {
-		return fmt.Errorf("Kids array is empty or could not be parsed: %s", kidsStr)
-	}
-
-	newKidsRefs := make([]string, 0, len(kidsRefs)-1)
-
-	// Match page reference by object number (ignore whitespace)
-	pageRefPattern := fmt.Sprintf(`%d\s+\d+\s+R`, pageObjNum)
-	pageRefRegex := regexp.MustCompile(pageRefPattern)
-
-	found := false
-	for _, kidRef := range kidsRefs {
-		// Check if this reference matches the page we want to delete
-		if pageRefRegex.MatchString(kidRef) {
-			found = true
-			// Skip this reference (don't add to newKidsRefs)
-		} else {
-			newKidsRefs = append(newKidsRefs, kidRef)
-		}
-	}
-
-	if !found {
-		return fmt.Errorf("page %d (object %d) not found in Kids array. Kids: %v, KidsStr: %s", pageNumber, pageObjNum, kidsRefs, kidsStr)
-	}
-
-	// Rebuild Kids array string with proper formatting (matching writer format: "[5 0 R 6 0 R ]")
-	// Note: No space before opening bracket to match original format
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
+		return fmt.Errorf("failed to get page object: %w", err)
 	}
-	newKidsStr += " ]"
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	if newCount < 1 {
+	if len(leaves) == 1 {
 		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
 
-	// Update Count using direct regex replacement to ensure it works
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
-
-	// Also need to update /Count in all ancestor Pages objects
-	err = m.updatePageCounts(parentPagesObjNum, -1)
-	if err != nil {
-		if m.verbose {
-			fmt.Printf("Warning: failed to update page counts: %v\n", err)
-		}
+	// Update /Kids of the parent, and /Count of the parent and all its ancestors
+	pageObjNum := leaf.objNum
+	parentPagesObjNum := leaf.ancestors[len(leaf.ancestors)-1]
+	kids := m.kids(m.objects[parentPagesObjNum])
+	newKids := append(append([]int{}, kids[:leaf.kidIndex]...), kids[leaf.kidIndex+1:]...)
+	if err := m.setKids(leaf.ancestors, newKids, -1); err != nil {
+		return fmt.Errorf("failed to update page tree: %w", err)
 	}
 
 	if m.verbose {
@@ -103,105 +39,39 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 }
 
 // DeletePages deletes multiple pages from the PDF
-// pageNumbers is 1-based and should be sorted in descending order to avoid index shifts
+// pageNumbers is 1-based and refers to the pages as they are before the call, in any order
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
-	// Sort in descending order to avoid index shifts
-	// (delete from end to beginning)
-	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := m.DeletePage(pageNumbers[i]); err != nil {
-			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
-		}
-	}
-	return nil
-}
-
-// findParentPagesObject finds the Pages object that contains the given page object
-func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
-	// Get all Pages objects (intermediate nodes in page tree)
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Recursively search for the parent
-	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum)
-}
-
-// findParentPagesObjectRecursive recursively searches for the parent Pages object
-func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int) (int, error) {
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+	leaves, err := m.pageLeaves()
 	if err != nil {
-		return 0, err
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) - shouldn't happen, but check anyway
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		return 0, fmt.Errorf("reached /Page object, expected /Pages")
-	}
-
-	// Get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return 0, fmt.Errorf("no /Kids array found")
-	}
-
-	// Check if target page is in this Pages object's Kids
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
+	// Sort in descending order to avoid index shifts
+	// (delete from end to beginning)
+	descending := append([]int{}, pageNumbers...)
+	sort.Sort(sort.Reverse(sort.IntSlice(descending)))
+	unique := descending[:0]
+	for i, pageNumber := range descending {
+		if pageNumber < 1 || pageNumber > len(leaves) {
+			return fmt.Errorf("failed to delete page %d: page number out of range (1-%d)", pageNumber, len(leaves))
 		}
-
-		if kidObjNum == targetPageObjNum {
-			// Found it! This Pages object is the parent
-			return pagesObjNum, nil
+		if i == 0 || pageNumber != unique[len(unique)-1] {
+			unique = append(unique, pageNumber)
 		}
+	}
+	if len(unique) > 0 && len(unique) == len(leaves) {
+		return fmt.Errorf("cannot delete pages: would result in 0 pages")
+	}
 
-		// Check if this kid is a /Pages node - recurse
-		kidObj, err := m.pdf.GetObject(kidObjNum)
-		if err != nil {
-			continue
-		}
-		kidStr := string(kidObj)
-		kidType := extractDictValue(kidStr, "/Type")
-		if kidType == "/Pages" {
-			// Recurse into this Pages node
-			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum)
-			if err == nil {
-				return parent, nil
-			}
+	for _, pageNumber := range unique {
+		if err := m.DeletePage(pageNumber); err != nil {
+			return fmt.Errorf("failed to delete page %d: %w", pageNumber, err)
 		}
 	}
-
-	return 0, fmt.Errorf("page object %d not found in page tree", targetPageObjNum)
+	return nil
 }
 
-// updatePageCounts updates the /Count field in the given Pages object and all ancestors
+// updatePageCounts updates the /Count field in the given Pages object
 func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
 	// Update this Pages object's count
 	pagesObj, ok := m.objects[pagesObjNum]
@@ -210,7 +80,7 @@ func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
 	}
 
 	pagesStr := string(pagesObj)
-	countStr := extractDictValue(pagesStr, "/Count")
+	countStr := m.dictValue(pagesObj, "/Count")
 	currentCount := 0
 	if countStr != "" {
 		var err error
@@ -228,9 +98,5 @@ func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
 	updatedPagesStr := setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount))
 	m.objects[pagesObjNum] = []byte(updatedPagesStr)
 
-	// Note: Updating parent Pages objects' /Count would require
-	// finding the parent of this Pages object in the tree.
-	// For now, we only update the immediate Pages object.
-	// This is sufficient for most cases where pages are direct children.
 	return nil
 }
diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 9e73024..34f3847 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -19,16 +19,16 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 		return nil, fmt.Errorf("failed to create manipulator: %w", err)
 	}
 
-	// Get all page object numbers
-	allPageObjNums, err := manipulator.getAllPageObjectNumbers()
+	// Get all pages
+	leaves, err := manipulator.pageLeaves()
 	if err != nil {
 		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page numbers
 	for _, pageNum := range pageNumbers {
-		if pageNum < 1 || pageNum > len(allPageObjNums) {
-			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPageObjNums))
+		if pageNum < 1 || pageNum > len(leaves) {
+			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(leaves))
 		}
 	}
 
@@ -38,26 +38,16 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 	pageObjNums := make([]int, 0, len(pageNumbers))
 
 	// Copy page objects and their dependencies
+	copier := newPageCopier(manipulator, writer, leaves)
 	for _, pageNum := range pageNumbers {
-		pageObjNum := allPageObjNums[pageNum-1]
-
-		// Get page object
-		pageObj, ok := manipulator.objects[pageObjNum]
-		if !ok {
-			return nil, fmt.Errorf("page object %d not found", pageObjNum)
+		newObjNum := writer.AddObject([]byte("null"))
+		pageObjNums = append(pageObjNums, newObjNum)
+		if pageObjNum := leaves[pageNum-1].objNum; copier.copied[pageObjNum] == 0 {
+			copier.copied[pageObjNum] = newObjNum
 		}
-
-		// Copy page object to new PDF
-		writer.SetObject(pageObjNum, pageObj)
-		pageObjNums = append(pageObjNums, pageObjNum)
-
-		// Update page's Parent reference to point to new Pages object
-		pageStr := string(pageObj)
-		updatedPageStr := setDictValue(pageStr, "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
-		writer.SetObject(pageObjNum, []byte(updatedPageStr))
-
-		// TODO: Copy page dependencies (content streams, resources, fonts, images, etc.)
-		// For now, we'll copy the page object as-is and hope dependencies are included
+	}
+	for i, pageNum := range pageNumbers {
+		copier.page(leaves[pageNum-1], pageObjNums[i], pagesObjNum)
 	}
 
 	// Build Kids array
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index df62efc..633effc 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -2,81 +2,59 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // InsertPage inserts a page at a specific position
 // pageNumber is 1-based (first page is 1, 0 means insert at end)
 // The page to insert must be from another PDF (use ExtractPages first)
 func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent []byte) error {
-	// Get all page object numbers
-	pageObjNums, err := m.getAllPageObjectNumbers()
+	// Get all pages
+	leaves, err := m.pageLeaves()
 	if err != nil {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page number
-	if pageNumber < 0 || pageNumber > len(pageObjNums)+1 {
-		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pageObjNums)+1)
-	}
-
-	// Find the parent Pages object
-	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
-	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
+	if pageNumber < 0 || pageNumber > len(leaves)+1 {
+		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(leaves)+1)
 	}
 
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
-	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-
-	// Insert the new page reference at the specified position
-	newKidsRefs := make([]string, 0, len(kidsRefs)+1)
-	if pageNumber == 0 || pageNumber > len(kidsRefs) {
+	// Find the parent Pages object and the position among its kids
+	var path []int
+	insertIdx := 0
+	if pageNumber == 0 || pageNumber > len(leaves) {
 		// Insert at end
-		newKidsRefs = append(newKidsRefs, kidsRefs...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
+		rootPagesObjNum, err := m.findParentPagesObjectForInsertion()
+		if err != nil {
+			return fmt.Errorf("failed to find parent Pages object: %w", err)
+		}
+		rootPagesObj, err := m.getObject(rootPagesObjNum)
+		if err != nil {
+			return fmt.Errorf("parent Pages object %d not found", rootPagesObjNum)
+		}
+		path = []int{rootPagesObjNum}
+		insertIdx = len(m.kids(rootPagesObj))
 	} else {
-		// Insert at specific position (1-based, convert to 0-based)
-		insertIdx := pageNumber - 1
-		newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-		newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
+		// Insert in front of the page that has this number now
+		path = leaves[pageNumber-1].ancestors
+		insertIdx = leaves[pageNumber-1].kidIndex
 	}
+	parentPagesObjNum := path[len(path)-1]
 
-	// Rebuild Kids array string
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
-		}
-		newKidsStr += ref
-	}
-	newKidsStr += " ]"
+	kids := m.kids(m.objects[parentPagesObjNum])
+	newKids := append(append([]int{}, kids[:insertIdx]...), pageObjNum)
+	newKids = append(newKids, kids[insertIdx:]...)
 
 	// Add the page object to our objects map
-	m.objects[pageObjNum] = pageContent
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
+	pageStr := setDictValue(string(parse.ObjectContent(pageContent)), "/Parent", fmt.Sprintf("%d 0 R", parentPagesObjNum))
+	m.objects[pageObjNum] = []byte(pageStr)
 
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
+	// Update /Kids of the parent, and /Count of the parent and all its ancestors
+	if err := m.setKids(path, newKids, 1); err != nil {
+		return fmt.Errorf("failed to update page tree: %w", err)
+	}
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
@@ -87,31 +65,5 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 
 // findParentPagesObjectForInsertion finds the root Pages object for insertion
 func (m *PDFManipulator) findParentPagesObjectForInsertion() (int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return pagesObjNum, nil
+	return m.rootPagesObjectNumber()
 }
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index e84543f..2a830e4 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -2,7 +2,6 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -42,7 +41,7 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		objects[objNum] = obj
+		objects[objNum] = parse.ObjectContent(obj)
 	}
 
 	return &PDFManipulator{
@@ -113,125 +112,23 @@ func parseObjectRef(ref string) (int, error) {
 	return objNum, nil
 }
 
-// extractDictValue extracts a value from a PDF dictionary string
+// extractDictValue extracts the raw value of one of a dictionary's own keys
 func extractDictValue(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
-
-	// Check if the value after the key starts with '[' (array)
-	valueStart := keyIdx + len(key)
-	// Skip whitespace
-	for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-		valueStart++
-	}
-
-	if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-		// Array value - find matching closing bracket
-		arrayStart := valueStart
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(dictStr); i++ {
-			if dictStr[i] == '[' {
-				depth++
-			} else if dictStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i + 1
-					break
-				}
-			}
-		}
-		if arrayEnd > arrayStart {
-			return dictStr[arrayStart:arrayEnd]
-		}
-	}
-
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
-	return ""
+	return string(parse.DictValue([]byte(dictStr), key))
 }
 
-// setDictValue sets or updates a value in a PDF dictionary string
+// setDictValue sets or updates the value of one of a dictionary's own keys
 func setDictValue(dictStr, key, value string) string {
-	// Check if key already exists
-	existingValue := extractDictValue(dictStr, key)
-	if existingValue != "" {
-		// Replace existing value
-		// Try to match and replace with space (e.g., "/Count 3" -> "/Count 2")
-		// Use word boundary or whitespace to ensure we match the full value
-		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllString(dictStr, key+" "+value)
-			// Verify the replacement worked
-			newValue := extractDictValue(replaced, key)
-			if newValue == value {
-				return replaced
-			}
-		}
-		// Try without space
-		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
-		}
-		// Try array value - need to handle brackets properly
-		keyIdx := strings.Index(dictStr, key)
-		if keyIdx != -1 {
-			valueStart := keyIdx + len(key)
-			// Skip whitespace
-			for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-				valueStart++
-			}
-			if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-				// Find matching closing bracket
-				arrayStart := valueStart
-				depth := 0
-				arrayEnd := arrayStart
-				for i := arrayStart; i < len(dictStr); i++ {
-					if dictStr[i] == '[' {
-						depth++
-					} else if dictStr[i] == ']' {
-						depth--
-						if depth == 0 {
-							arrayEnd = i + 1
-							break
-						}
-					}
-				}
-				if arrayEnd > arrayStart {
-					// Replace the array - preserve original spacing (no space after key if original had none)
-					// Check if there was a space after the key in the original
-					originalValueStart := keyIdx + len(key)
-					hadSpace := originalValueStart < len(dictStr) && (dictStr[originalValueStart] == ' ' || dictStr[originalValueStart] == '\t' || dictStr[originalValueStart] == '\n' || dictStr[originalValueStart] == '\r')
-					if hadSpace {
-						return dictStr[:keyIdx] + key + " " + value + " " + dictStr[arrayEnd:]
-					} else {
-						// No space in original, don't add one
-						return dictStr[:keyIdx] + key + value + " " + dictStr[arrayEnd:]
-					}
-				}
-			}
-		}
+	// Replace existing value
+	if start, end, ok := parse.DictValueSpan([]byte(dictStr), key); ok {
+		return dictStr[:start] + " " + value + dictStr[end:]
 	}
 
 	// Add new key-value pair before closing >>
-	lastIdx := strings.LastIndex(dictStr, ">>")
-	if lastIdx == -1 {
+	_, end, ok := parse.DictSpan([]byte(dictStr))
+	if !ok {
 		return dictStr
 	}
 	// Insert before the closing >>, but preserve any existing spacing
-	return dictStr[:lastIdx] + key + " " + value + " " + dictStr[lastIdx:]
+	return dictStr[:end] + key + " " + value + " " + dictStr[end:]
 }
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index b1fc310..5394c6b 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -2,9 +2,7 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -17,7 +15,7 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 
 	writer := write.NewPDFWriter()
 	var allPageObjNums []int
-	nextObjNum := 1
+	pagesObjNum := writer.AddObject([]byte("null")) // Placeholder, will update later
 
 	// Process each PDF
 	for pdfIdx, pdfBytes := range pdfBytesList {
@@ -26,56 +24,33 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 			password = passwords[pdfIdx]
 		}
 
-		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-			Password: password,
-			Verbose:  verbose,
-		})
+		source, err := NewPDFManipulator(pdfBytes, password, verbose)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Get all page object numbers from this PDF
-		pageObjNums, err := getAllPageObjectNumbersFromPDF(pdf)
+		// Get all pages of this PDF
+		leaves, err := source.pageLeaves()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Copy all objects from this PDF to the merged PDF
-		// Need to remap object numbers to avoid conflicts
-		objNumMap := make(map[int]int) // old objNum -> new objNum
-
-		for _, objNum := range pdf.Objects() {
-			obj, err := pdf.GetObject(objNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get object %d from PDF %d: %v\n", objNum, pdfIdx+1, err)
-				}
-				continue
-			}
-
-			newObjNum := nextObjNum
-			nextObjNum++
-			objNumMap[objNum] = newObjNum
-
-			// Update object references in the content
-			updatedObj := updateObjectReferences(obj, objNumMap, pdfIdx == 0)
-
-			writer.SetObject(newObjNum, updatedObj)
-
-			// If this is a page object, add it to our pages list
-			for _, pageObjNum := range pageObjNums {
-				if objNum == pageObjNum {
-					allPageObjNums = append(allPageObjNums, newObjNum)
-					break
-				}
+		// Copy the pages and what they refer to under new object numbers
+		copier := newPageCopier(source, writer, leaves)
+		first := len(allPageObjNums)
+		for _, leaf := range leaves {
+			newObjNum := writer.AddObject([]byte("null"))
+			allPageObjNums = append(allPageObjNums, newObjNum)
+			if copier.copied[leaf.objNum] == 0 {
+				copier.copied[leaf.objNum] = newObjNum
 			}
 		}
+		for i, leaf := range leaves {
+			copier.page(leaf, allPageObjNums[first+i], pagesObjNum)
+		}
 	}
 
 	// Create Pages object with all pages
-	pagesObjNum := nextObjNum
-	nextObjNum++
-
 	kids := "["
 	for i, pageNum := range allPageObjNums {
 		if i > 0 {
@@ -89,105 +64,9 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 	writer.SetObject(pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
-	catalogObjNum := nextObjNum
 	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)
-	writer.SetObject(catalogObjNum, []byte(catalogDict))
+	catalogObjNum := writer.AddObject([]byte(catalogDict))
 	writer.SetRoot(catalogObjNum)
 
 	return writer.Bytes()
 }
-
-// getAllPageObjectNumbersFromPDF gets all page object numbers from a parsed PDF
-func getAllPageObjectNumbersFromPDF(pdf *parse.PDF) ([]int, error) {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum)
-}
-
-// extractPageObjectNumbersFromPDF recursively extracts page object numbers
-func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums, nil
-}
-
-// updateObjectReferences updates object references in a PDF object string
-// objNumMap maps old object numbers to new object numbers
-func updateObjectReferences(obj []byte, objNumMap map[int]int, isFirstPDF bool) []byte {
-	objStr := string(obj)
-
-	// Find all object references (pattern: "5 0 R")
-	refPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-
-	updatedStr := refPattern.ReplaceAllStringFunc(objStr, func(match string) string {
-		// Extract object number
-		var objNum, genNum int
-		fmt.Sscanf(match, "%d %d R", &objNum, &genNum)
-
-		// Check if we need to remap this reference
-		if newObjNum, ok := objNumMap[objNum]; ok {
-			return fmt.Sprintf("%d 0 R", newObjNum)
-		}
-
-		// For first PDF, keep original references (they're already in the map)
-		// For subsequent PDFs, references to objects not in the map should be updated
-		// For now, return as-is (this is a simplified version)
-		return match
-	})
-
-	return []byte(updatedStr)
-}
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index c411a5e..58cdf51 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -14,22 +14,16 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 		return fmt.Errorf("rotation angle must be 90, 180, or 270 degrees, got %d", angle)
 	}
 
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	// Get page object
+	leaf, err := m.getPageLeaf(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
+	pageObjNum := leaf.objNum
+	pageStr := string(m.objects[pageObjNum])
 
-	// Get page object
-	pageObj, ok := m.objects[pageObjNum]
-	if !ok {
-		return fmt.Errorf("page object %d not found", pageObjNum)
-	}
-
-	pageStr := string(pageObj)
-
-	// Get current rotation
-	currentRotStr := extractDictValue(pageStr, "/Rotate")
+	// Get current rotation, which the page may inherit
+	currentRotStr := m.inherited(leaf, "/Rotate")
 	currentRot := 0
 	if currentRotStr != "" {
 		var parseErr error
@@ -74,92 +68,63 @@ func (m *PDFManipulator) RotateAllPages(angle int) error {
 	return nil
 }
 
-// getPageObjectNumber gets the object number for a given page (1-based)
-func (m *PDFManipulator) getPageObjectNumber(pageNumber int) (int, error) {
-	pageObjNums, err := m.getAllPageObjectNumbers()
+// getPageLeaf finds a given page (1-based)
+func (m *PDFManipulator) getPageLeaf(pageNumber int) (pageLeaf, error) {
+	leaves, err := m.pageLeaves()
 	if err != nil {
-		return 0, err
+		return pageLeaf{}, err
 	}
 
-	if pageNumber < 1 || pageNumber > len(pageObjNums) {
-		return 0, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pageObjNums))
+	if pageNumber < 1 || pageNumber > len(leaves) {
+		return pageLeaf{}, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(leaves))
 	}
 
-	return pageObjNums[pageNumber-1], nil
+	return leaves[pageNumber-1], nil
 }
 
-// getAllPageObjectNumbers recursively gets all page object numbers from the pages tree
+// getAllPageObjectNumbers gets all page object numbers from the pages tree
 func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
+	leaves, err := m.pageLeaves()
+	if err != nil {
+		return nil, err
+	}
+
+	pageObjNums := make([]int, 0, len(leaves))
+	for _, leaf := range leaves {
+		pageObjNums = append(pageObjNums, leaf.objNum)
+	}
+	return pageObjNums, nil
+}
+
+// rootPagesObjectNumber finds the root of the page tree
+func (m *PDFManipulator) rootPagesObjectNumber() (int, error) {
 	trailer := m.pdf.Trailer()
 	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
+		return 0, fmt.Errorf("no root reference found")
 	}
 
 	rootObjNum, err := parseObjectRef(trailer.RootRef)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
+		return 0, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
+	catalogObj, err := m.getObject(rootObjNum)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
+		return 0, fmt.Errorf("failed to get catalog: %w", err)
 	}
 
 	catalogStr := string(catalogObj)
 	pagesRef := extractDictValue(catalogStr, "/Pages")
 	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
+		return 0, fmt.Errorf("no /Pages reference in catalog")
 	}
 
 	pagesObjNum, err := parseObjectRef(pagesRef)
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
+		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
 	}
 
-	return m.extractPageObjectNumbers(pagesObjNum)
-}
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages, err := m.extractPageObjectNumbers(kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums, nil
+	return pagesObjNum, nil
 }
 
 // parseObjectRefArray parses an array of object references like "[5 0 R 6 0 R]"
diff --git a/core/manipulate/tree.go b/core/manipulate/tree.go
new file mode 100644
index 0000000..ecefbaf
--- /dev/null
+++ b/core/manipulate/tree.go
@@ -0,0 +1,171 @@
+package manipulate
+
+import (
+	"fmt"
+	"regexp"
+	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+)
+
+// inheritablePageKeys are the page attributes a page takes from its ancestors in the page tree.
+var inheritablePageKeys = []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"}
+
+// pageLeaf is a page as the page tree lists it
+type pageLeaf struct {
+	objNum    int
+	ancestors []int // page tree nodes from the root to the page's parent
+	kidIndex  int   // position among the parent's kids
+}
+
+// getObject returns the current content of an object
+func (m *PDFManipulator) getObject(objNum int) ([]byte, error) {
+	obj, ok := m.objects[objNum]
+	if !ok {
+		return nil, fmt.Errorf("object %d not found", objNum)
+	}
+	return obj, nil
+}
+
+// dictValue returns the raw value of a dictionary's own key, following an indirect reference
+// unless it leads to a dictionary
+func (m *PDFManipulator) dictValue(obj []byte, key string) string {
+	value := strings.TrimSpace(extractDictValue(string(obj), key))
+	if refPattern.MatchString(value) {
+		if objNum, err := parseObjectRef(value); err == nil {
+			if target, ok := m.objects[objNum]; ok && !strings.HasPrefix(string(target), "<<") {
+				return strings.TrimSpace(string(target))
+			}
+		}
+	}
+	return value
+}
+
+var refPattern = regexp.MustCompile(`^\d+\s+\d+\s+R$`)
+
+// kids returns the object numbers in a page tree node's /Kids
+func (m *PDFManipulator) kids(node []byte) []int {
+	var nums []int
+	for _, ref := range parseObjectRefArray(m.dictValue(node, "/Kids")) {
+		if num, err := parseObjectRef(ref); err == nil {
+			nums = append(nums, num)
+		}
+	}
+	return nums
+}
+
+// pageLeaves lists the pages of the current page tree in order
+func (m *PDFManipulator) pageLeaves() ([]pageLeaf, error) {
+	rootObjNum, err := m.rootPagesObjectNumber()
+	if err != nil {
+		return nil, err
+	}
+	var leaves []pageLeaf
+	seen := make(map[int]bool)
+	var walk func(objNum int, ancestors []int, kidIndex int)
+	walk = func(objNum int, ancestors []int, kidIndex int) {
+		obj, err := m.getObject(objNum)
+		if err != nil {
+			return
+		}
+		if m.dictValue(obj, "/Type") == "/Page" || extractDictValue(string(obj), "/Kids") == "" {
+			if len(ancestors) > 0 && m.dictValue(obj, "/Type") != "/Pages" {
+				leaves = append(leaves, pageLeaf{objNum, ancestors, kidIndex})
+			}
+			return
+		}
+		if seen[objNum] {
+			return
+		}
+		seen[objNum] = true
+		path := append(append([]int{}, ancestors...), objNum)
+		for i, kid := range m.kids(obj) {
+			walk(kid, path, i)
+		}
+	}
+	walk(rootObjNum, nil, 0)
+	return leaves, nil
+}
+
+// inherited returns the value of an inheritable attribute of a page, "" if it has none
+func (m *PDFManipulator) inherited(leaf pageLeaf, key string) string {
+	chain := append(append([]int{}, leaf.ancestors...), leaf.objNum)
+	for i := len(chain) - 1; i >= 0; i-- {
+		if value := m.dictValue(m.objects[chain[i]], key); value != "" && value != "null" {
+			return value
+		}
+	}
+	return ""
+}
+
+// setKids replaces a page tree node's kids and adjusts the counts of the node and its ancestors
+func (m *PDFManipulator) setKids(path []int, kids []int, delta int) error {
+	refs := make([]string, len(kids))
+	for i, kid := range kids {
+		refs[i] = fmt.Sprintf("%d 0 R", kid)
+	}
+	node := path[len(path)-1]
+	obj, err := m.getObject(node)
+	if err != nil {
+		return err
+	}
+	m.objects[node] = []byte(setDictValue(string(obj), "/Kids", "["+strings.Join(refs, " ")+"]"))
+	for _, objNum := range path {
+		if err := m.updatePageCounts(objNum, delta); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// pageCopier copies objects of one document into another document under new numbers
+type pageCopier struct {
+	source *PDFManipulator
+	target objectTarget
+	copied map[int]int  // source object number -> target object number
+	skip   map[int]bool // page tree nodes and pages: references to them that are not copied become null
+}
+
+type objectTarget interface {
+	AddObject(content []byte) int
+	SetObject(objNum int, content []byte)
+}
+
+func newPageCopier(source *PDFManipulator, target objectTarget, leaves []pageLeaf) *pageCopier {
+	c := &pageCopier{source: source, target: target, copied: map[int]int{}, skip: map[int]bool{}}
+	for _, leaf := range leaves {
+		c.skip[leaf.objNum] = true
+		for _, node := range leaf.ancestors {
+			c.skip[node] = true
+		}
+	}
+	return c
+}
+
+// reference copies an object and what it refers to, and returns a reference to the copy
+func (c *pageCopier) reference(objNum int) string {
+	if num, ok := c.copied[objNum]; ok {
+		return fmt.Sprintf("%d 0 R", num)
+	}
+	obj, ok := c.source.objects[objNum]
+	if !ok || c.skip[objNum] {
+		return "null"
+	}
+	num := c.target.AddObject([]byte("null"))
+	c.copied[objNum] = num
+	c.target.SetObject(num, parse.ReplaceReferences(obj, c.reference))
+	return fmt.Sprintf("%d 0 R", num)
+}
+
+// page writes the copy of a page to target object num: inherited attributes become the page's own
+func (c *pageCopier) page(leaf pageLeaf, num, parent int) {
+	obj := string(c.source.objects[leaf.objNum])
+	for _, key := range inheritablePageKeys {
+		if value := c.source.inherited(leaf, key); value != "" {
+			obj = setDictValue(obj, key, value)
+		}
+	}
+	obj = setDictValue(obj, "/Parent", "null")
+	obj = string(parse.ReplaceReferences([]byte(obj), c.reference))
+	c.target.SetObject(num, []byte(setDictValue(obj, "/Parent", fmt.Sprintf("%d 0 R", parent))))
+}
-- 
2.43.0


From eea160493e3dc9e8dd3420292a08c4498a3209bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 11/73] fix: content extraction reads dictionaries, strings and
 content streams by syntax

---
 content/extract/annotations.go    |  77 +++----
 content/extract/bookmarks.go      |  42 ++--
 content/extract/content_stream.go | 166 +++++++++++++--
 content/extract/encoding.go       | 101 ++++++---
 content/extract/extract.go        |  42 ++--
 content/extract/images.go         | 173 ++++++----------
 content/extract/metadata.go       | 135 ++++++------
 content/extract/pages.go          | 185 +++++------------
 content/extract/resources.go      | 330 +++++-------------------------
 content/extract/values.go         | 171 ++++++++++++++++
 10 files changed, 698 insertions(+), 724 deletions(-)
 create mode 100644 content/extract/values.go

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e8d6a65..e6b97ba 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -59,7 +59,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Subtype (annotation type)
-	subtype := extractDictValue(annotStr, "/Subtype")
+	subtype := resolveValue(extractDictValue(annotStr, "/Subtype"), pdf)
 	if subtype == "" {
 		// Not a valid annotation
 		return nil
@@ -87,7 +87,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type = types.AnnotationTypeLine
 	case "/Polygon":
 		annotation.Type = types.AnnotationTypePolygon
-	case "/Polyline":
+	case "/PolyLine", "/Polyline":
 		annotation.Type = types.AnnotationTypePolyline
 	case "/Ink":
 		annotation.Type = types.AnnotationTypeInk
@@ -105,7 +105,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Rect (bounding rectangle)
-	rect := extractArrayValue(annotStr, "/Rect")
+	rect := extractArray(annotStr, "/Rect", pdf)
 	if len(rect) >= 4 {
 		annotation.Rect = &types.Rectangle{
 			LowerX: rect[0],
@@ -116,26 +116,25 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Contents (annotation text/contents)
-	contents := extractDictValue(annotStr, "/Contents")
+	contents := resolveValue(extractDictValue(annotStr, "/Contents"), pdf)
 	if contents != "" {
-		// Unescape PDF string
-		annotation.Contents = unescapePDFString(contents)
+		annotation.Contents = textString(contents)
 	}
 
 	// Extract Title
-	title := extractDictValue(annotStr, "/T")
+	title := resolveValue(extractDictValue(annotStr, "/T"), pdf)
 	if title != "" {
-		annotation.Title = unescapePDFString(title)
+		annotation.Title = textString(title)
 	}
 
 	// Extract Subject
-	subject := extractDictValue(annotStr, "/Subj")
+	subject := resolveValue(extractDictValue(annotStr, "/Subj"), pdf)
 	if subject != "" {
-		annotation.Subject = unescapePDFString(subject)
+		annotation.Subject = textString(subject)
 	}
 
 	// Extract Color
-	color := extractArrayValue(annotStr, "/C")
+	color := extractArray(annotStr, "/C", pdf)
 	if len(color) >= 3 {
 		annotation.Color = &types.Color{
 			Space: types.ColorSpaceRGB,
@@ -145,56 +144,44 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		}
 		if len(color) >= 4 {
 			// CMYK
-			annotation.Color.Space = types.ColorSpaceCMYK
+			annotation.Color = &types.Color{Space: types.ColorSpaceCMYK}
 			annotation.Color.C = color[0]
 			annotation.Color.M = color[1]
 			annotation.Color.Y = color[2]
 			annotation.Color.K = color[3]
 		}
+	} else if len(color) == 1 {
+		annotation.Color = &types.Color{Space: types.ColorSpaceGray, R: color[0]}
 	}
 
 	// Extract Border
-	borderWidthStr := extractDictValue(annotStr, "/Border")
-	if borderWidthStr != "" {
-		// Border can be [width] or [width dashArray dashPhase]
-		borderArray := extractArrayValue(annotStr, "/Border")
-		if len(borderArray) > 0 {
-			annotation.Border = &types.Border{
-				Width: borderArray[0],
-			}
-			if len(borderArray) > 2 {
-				annotation.Border.Dash = borderArray[1 : len(borderArray)-1]
-			}
+	// Border is [hCornerRadius vCornerRadius width] or [hCornerRadius vCornerRadius width dashArray]
+	borderValues := arrayValues(resolveValue(extractDictValue(annotStr, "/Border"), pdf))
+	if borderArray := extractArray(annotStr, "/Border", pdf); len(borderArray) >= 3 && len(borderValues) >= 3 {
+		annotation.Border = &types.Border{
+			Width: borderArray[2],
+		}
+		if len(borderValues) > 3 {
+			annotation.Border.Dash = numbers(resolveValue(borderValues[3], pdf), pdf)
 		}
 	}
 
 	// Link-specific: Extract URI or Destination
 	if annotation.Type == types.AnnotationTypeLink {
-		// Check for URI
-		uriRef := extractDictValue(annotStr, "/URI")
-		if uriRef != "" {
-			// URI might be a string or a reference to a URI object
-			if strings.HasPrefix(uriRef, "(") {
-				// It's a string
-				annotation.URI = unescapePDFString(uriRef[1 : len(uriRef)-1])
-			} else {
-				// It's a reference - get the URI object
-				uriObjNum, err := parseObjectRef(uriRef)
-				if err == nil {
-					uriObj, err := pdf.GetObject(uriObjNum)
-					if err == nil {
-						uriStr := string(uriObj)
-						uriValue := extractDictValue(uriStr, "/URI")
-						if uriValue != "" {
-							annotation.URI = unescapePDFString(uriValue[1 : len(uriValue)-1])
-						}
-					}
-				}
+		// The URI is in the annotation's action
+		uri := resolveValue(extractDictValue(annotStr, "/URI"), pdf)
+		if action := resolveValue(extractDictValue(annotStr, "/A"), pdf); action != "" {
+			if value := extractDictValue(action, "/URI"); value != "" {
+				uri = resolveValue(value, pdf)
 			}
 		}
+		if strings.HasPrefix(uri, "<<") {
+			uri = resolveValue(extractDictValue(uri, "/URI"), pdf)
+		}
+		annotation.URI = textString(uri)
 
 		// Check for Destination (named destination or array)
-		dest := extractDictValue(annotStr, "/Dest")
+		dest := destination(extractDictValue(annotStr, "/Dest"), pdf)
 		if dest != "" {
 			annotation.Destination = dest
 		}
@@ -220,7 +207,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type == types.AnnotationTypeUnderline ||
 		annotation.Type == types.AnnotationTypeStrikeout ||
 		annotation.Type == types.AnnotationTypeSquiggly {
-		quadPoints := extractArrayValue(annotStr, "/QuadPoints")
+		quadPoints := extractArray(annotStr, "/QuadPoints", pdf)
 		if len(quadPoints) >= 8 {
 			// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
 			// For simplicity, extract first quad
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ade6f82..20770a6 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -46,7 +46,7 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 	}
 
 	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, verbose)
+	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, map[int]bool{}, verbose)
 	if err != nil {
 		return []types.Bookmark{}, nil
 	}
@@ -55,7 +55,7 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 }
 
 // extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]types.Bookmark, error) {
+func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, seen map[int]bool, verbose bool) ([]types.Bookmark, error) {
 	var bookmarks []types.Bookmark
 
 	itemObjNum, err := parseObjectRef(itemRef)
@@ -63,6 +63,12 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 		return bookmarks, err
 	}
 
+	// An item that was already visited would make the outline infinite
+	if seen[itemObjNum] {
+		return bookmarks, nil
+	}
+	seen[itemObjNum] = true
+
 	itemObj, err := pdf.GetObject(itemObjNum)
 	if err != nil {
 		return bookmarks, err
@@ -71,28 +77,16 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	itemStr := string(itemObj)
 
 	// Extract title
-	title := extractDictValue(itemStr, "/Title")
-	if title != "" {
-		title = unescapePDFString(title)
-	}
+	title := textString(resolveValue(extractDictValue(itemStr, "/Title"), pdf))
 
 	// Extract destination or action
-	dest := extractDictValue(itemStr, "/Dest")
+	dest := destination(extractDictValue(itemStr, "/Dest"), pdf)
 	uri := ""
 	if dest == "" {
 		// Check for action with URI
-		actionRef := extractDictValue(itemStr, "/A")
-		if actionRef != "" {
-			actionObjNum, err := parseObjectRef(actionRef)
-			if err == nil {
-				actionObj, err := pdf.GetObject(actionObjNum)
-				if err == nil {
-					uri = extractDictValue(string(actionObj), "/URI")
-					if uri != "" {
-						uri = unescapePDFString(uri)
-					}
-				}
-			}
+		action := resolveValue(extractDictValue(itemStr, "/A"), pdf)
+		if action != "" {
+			uri = textString(resolveValue(extractDictValue(action, "/URI"), pdf))
 		}
 	}
 
@@ -106,7 +100,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	// Extract children (First/Next chain)
 	firstRef := extractDictValue(itemStr, "/First")
 	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, verbose)
+		children, err := extractBookmarksRecursive(pdf, firstRef, seen, verbose)
 		if err == nil {
 			bookmark.Children = children
 		}
@@ -117,7 +111,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	// Get next sibling
 	nextRef := extractDictValue(itemStr, "/Next")
 	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, verbose)
+		siblings, err := extractBookmarksRecursive(pdf, nextRef, seen, verbose)
 		if err == nil {
 			bookmarks = append(bookmarks, siblings...)
 		}
@@ -125,3 +119,9 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 
 	return bookmarks, nil
 }
+
+// destination returns a destination: the text of a named destination given as a string, any
+// other destination as it is
+func destination(value string, pdf *parse.PDF) string {
+	return textString(resolveValue(value, pdf))
+}
diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index f3d7817..e0ddfae 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -21,6 +21,10 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 	var graphics []types.Graphic
 	var imageRefs []types.ImageRef
 
+	// Stacks of the graphics and text parameters for q/Q operators
+	var stateStack []graphicsState
+	var textStack []textState
+
 	// Parse text state
 	textState := &textState{
 		fontName:    "",
@@ -46,8 +50,8 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 	currentMatrix := [6]float64{1, 0, 0, 1, 0, 0}
 	matrixStack := [][6]float64{} // Stack for q/Q operators
 
-	// Split content stream into tokens
-	lines := strings.Split(contentStr, "\n")
+	// Split content stream into operations
+	lines := contentOperations(contentStr)
 	for _, line := range lines {
 		line = strings.TrimSpace(line)
 		if line == "" {
@@ -57,6 +61,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		// Parse text operators
 		if strings.HasPrefix(line, "BT") {
 			textState.inText = true
+			textState.setLineMatrix([6]float64{1, 0, 0, 1, 0, 0})
 			continue
 		}
 		if strings.HasPrefix(line, "ET") {
@@ -68,13 +73,37 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+Td`).FindStringSubmatch(line); match != nil {
 			if tx, err := strconv.ParseFloat(match[1], 64); err == nil {
 				if ty, err := strconv.ParseFloat(match[2], 64); err == nil {
-					textState.x += tx
-					textState.y += ty
+					textState.moveLine(tx, ty)
 				}
 			}
 			continue
 		}
 
+		// Next line with an offset that also sets the leading
+		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+TD`).FindStringSubmatch(line); match != nil {
+			if tx, err := strconv.ParseFloat(match[1], 64); err == nil {
+				if ty, err := strconv.ParseFloat(match[2], 64); err == nil {
+					textState.leading = -ty
+					textState.moveLine(tx, ty)
+				}
+			}
+			continue
+		}
+
+		// Leading
+		if match := regexp.MustCompile(`^([\d\.\-]+)\s+TL`).FindStringSubmatch(line); match != nil {
+			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
+				textState.leading = val
+			}
+			continue
+		}
+
+		// Next line
+		if line == "T*" {
+			textState.moveLine(0, -textState.leading)
+			continue
+		}
+
 		// Text matrix
 		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+Tm`).FindStringSubmatch(line); match != nil {
 			matrix := [6]float64{}
@@ -83,14 +112,12 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 					matrix[i-1] = val
 				}
 			}
-			textState.textMatrix = matrix
-			textState.x = matrix[4]
-			textState.y = matrix[5]
+			textState.setLineMatrix(matrix)
 			continue
 		}
 
 		// Font and size
-		if match := regexp.MustCompile(`^([/\w]+)\s+([\d\.\-]+)\s+Tf`).FindStringSubmatch(line); match != nil {
+		if match := regexp.MustCompile(`^(/\S*)\s+([\d\.\-]+)\s+Tf`).FindStringSubmatch(line); match != nil {
 			textState.fontName = match[1]
 			if size, err := strconv.ParseFloat(match[2], 64); err == nil {
 				textState.fontSize = size
@@ -127,7 +154,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		}
 
 		// Show text (Tj operator) - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+Tj`).FindStringSubmatch(line); match != nil {
+		if match := regexp.MustCompile(`(?s)^\((.*)\)\s+Tj$`).FindStringSubmatch(line); match != nil {
 			// Literal string
 			rawText := unescapePDFString(match[1])
 			text := decodeTextWithFont(rawText, textState.decoder, false)
@@ -144,25 +171,39 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		}
 
 		// Show text next line (') - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+'`).FindStringSubmatch(line); match != nil {
+		if strings.HasSuffix(line, " '") {
+			textState.moveLine(0, -textState.leading)
+		}
+		if match := regexp.MustCompile(`(?s)^\((.*)\)\s+'$`).FindStringSubmatch(line); match != nil {
 			rawText := unescapePDFString(match[1])
 			text := decodeTextWithFont(rawText, textState.decoder, false)
 			textElement := createTextElement(text, textState)
 			textElements = append(textElements, textElement)
-			// Move to next line (simplified - would need leading)
-			textState.y -= textState.fontSize * 1.2
 			continue
 		}
 		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+'`).FindStringSubmatch(line); match != nil {
 			text := decodeTextWithFont(match[1], textState.decoder, true)
 			textElement := createTextElement(text, textState)
 			textElements = append(textElements, textElement)
-			textState.y -= textState.fontSize * 1.2
+			continue
+		}
+
+		// Set spacing, move to next line and show text (")
+		if match := regexp.MustCompile(`(?s)^([\d\.\-]+)\s+([\d\.\-]+)\s+([(<].*)\s+"$`).FindStringSubmatch(line); match != nil {
+			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
+				textState.wordSpacing = val
+			}
+			if val, err := strconv.ParseFloat(match[2], 64); err == nil {
+				textState.charSpacing = val
+			}
+			textState.moveLine(0, -textState.leading)
+			text := parseTextArrayWithDecoder(match[3], textState.decoder)
+			textElements = append(textElements, createTextElement(text, textState))
 			continue
 		}
 
 		// Show text array (TJ operator)
-		if match := regexp.MustCompile(`^\[([^\]]+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
+		if match := regexp.MustCompile(`(?s)^\[(.*)\]\s+TJ$`).FindStringSubmatch(line); match != nil {
 			text := parseTextArrayWithDecoder(match[1], textState.decoder)
 			textElement := createTextElement(text, textState)
 			textElements = append(textElements, textElement)
@@ -231,6 +272,8 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		// Save graphics state (q operator) - push current matrix to stack
 		if strings.TrimSpace(line) == "q" {
 			matrixStack = append(matrixStack, currentMatrix)
+			stateStack = append(stateStack, *graphicsState)
+			textStack = append(textStack, *textState)
 			continue
 		}
 
@@ -239,6 +282,10 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 			if len(matrixStack) > 0 {
 				currentMatrix = matrixStack[len(matrixStack)-1]
 				matrixStack = matrixStack[:len(matrixStack)-1]
+				*graphicsState = stateStack[len(stateStack)-1]
+				stateStack = stateStack[:len(stateStack)-1]
+				textState.restore(textStack[len(textStack)-1])
+				textStack = textStack[:len(textStack)-1]
 			}
 			continue
 		}
@@ -253,10 +300,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 				}
 			}
 			// Multiply with current matrix (concatenate transformations)
-			// For simplicity, we'll just replace (assuming q/Q handles stacking)
-			// In full implementation, should multiply: newMatrix = currentMatrix * matrix
-			// For now, replace since DrawImageAt uses q/cm/Do/Q pattern
-			currentMatrix = matrix
+			currentMatrix = multiplyMatrix(matrix, currentMatrix)
 			continue
 		}
 
@@ -294,7 +338,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 
 		// Draw image (Do operator)
 		// Extract position and size from current transformation matrix
-		if match := regexp.MustCompile(`^([/\w]+)\s+Do`).FindStringSubmatch(line); match != nil {
+		if match := regexp.MustCompile(`^(/\S*)\s+Do`).FindStringSubmatch(line); match != nil {
 			// Transformation matrix [a b c d e f] where:
 			// - a, d are scale factors (width, height)
 			// - e, f are translation (x, y position)
@@ -328,6 +372,55 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 	return textElements, graphics, imageRefs
 }
 
+// contentOperations splits a content stream into its operations: one string per operator, with
+// its operands before it, separated by single spaces. Inline images are left out.
+func contentOperations(contentStr string) []string {
+	content := []byte(contentStr)
+	var operations, operands []string
+	for p := 0; p < len(content); {
+		start, end, ok := parse.ScanToken(content, p)
+		if !ok {
+			if start >= len(content) {
+				break
+			}
+			p = start + 1 // a stray delimiter
+			continue
+		}
+		token := string(content[start:end])
+		p = end
+		if !isOperator(token) {
+			if token[0] == '+' {
+				token = token[1:]
+			}
+			operands = append(operands, token)
+			continue
+		}
+		if token == "ID" {
+			// The data of an inline image goes up to "EI" on its own
+			end := inlineImageEnd.FindIndex(content[p:])
+			if end == nil {
+				break
+			}
+			p += end[1]
+			token = "EI"
+		}
+		operations = append(operations, strings.Join(append(operands, token), " "))
+		operands = nil
+	}
+	return operations
+}
+
+var inlineImageEnd = regexp.MustCompile(`[\s\x00]EI(?:[\s\x00]|$)`)
+
+// isOperator tells whether a token of a content stream is an operator, not an operand
+func isOperator(token string) bool {
+	switch token[0] {
+	case '(', '<', '[', '/', '+', '-', '.', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+		return false
+	}
+	return token != "true" && token != "false" && token != "null"
+}
+
 // textState tracks the current text rendering state
 type textState struct {
 	fontName    string
@@ -338,6 +431,7 @@ type textState struct {
 	wordSpacing float64
 	textRise    float64
 	textMatrix  [6]float64
+	leading     float64
 	inText      bool
 	decoder     *FontDecoder // Current font decoder for text extraction
 }
@@ -349,6 +443,36 @@ type graphicsState struct {
 	strokeColor *types.Color
 }
 
+// setLineMatrix sets the text matrix and the text line matrix
+func (s *textState) setLineMatrix(matrix [6]float64) {
+	s.textMatrix = matrix
+	s.x = matrix[4]
+	s.y = matrix[5]
+}
+
+// moveLine moves to the start of a line, offset from the start of the current line
+func (s *textState) moveLine(tx, ty float64) {
+	s.setLineMatrix(multiplyMatrix([6]float64{1, 0, 0, 1, tx, ty}, s.textMatrix))
+}
+
+// restore brings back the text parameters that are part of a saved graphics state
+func (s *textState) restore(saved textState) {
+	saved.x, saved.y, saved.textMatrix, saved.inText = s.x, s.y, s.textMatrix, s.inText
+	*s = saved
+}
+
+// multiplyMatrix returns the transformation that applies a and then b
+func multiplyMatrix(a, b [6]float64) [6]float64 {
+	return [6]float64{
+		a[0]*b[0] + a[1]*b[2],
+		a[0]*b[1] + a[1]*b[3],
+		a[2]*b[0] + a[3]*b[2],
+		a[2]*b[1] + a[3]*b[3],
+		a[4]*b[0] + a[5]*b[2] + b[4],
+		a[4]*b[1] + a[5]*b[3] + b[5],
+	}
+}
+
 // createTextElement creates a TextElement from text and current text state
 func createTextElement(text string, state *textState) types.TextElement {
 	// Calculate approximate width (simplified - would need font metrics)
@@ -464,9 +588,7 @@ func decodeTextWithFont(rawText string, decoder *FontDecoder, isHex bool) string
 
 // decodeHexToLatin1 decodes a hex string to Latin-1 text (fallback when no font decoder)
 func decodeHexToLatin1(hexStr string) string {
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
+	hexStr = strings.Join(strings.Fields(hexStr), "")
 
 	// Pad if odd length
 	if len(hexStr)%2 != 0 {
diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index eebbb54..0f4d46d 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -4,6 +4,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 )
 
 // FontDecoder decodes character codes to Unicode for a specific font
@@ -11,6 +12,9 @@ type FontDecoder struct {
 	// ToUnicode mapping from character codes to Unicode (highest priority)
 	toUnicode map[int]rune
 
+	// ToUnicode mappings of one character code to several characters (ligatures)
+	toUnicodeText map[int]string
+
 	// Base encoding (WinAnsiEncoding, MacRomanEncoding, etc.)
 	baseEncoding map[int]rune
 
@@ -19,15 +23,19 @@ type FontDecoder struct {
 
 	// Font name for debugging
 	fontName string
+
+	// twoByte is set for composite fonts, whose character codes take two bytes
+	twoByte bool
 }
 
 // NewFontDecoder creates a new font decoder
 func NewFontDecoder(fontName string) *FontDecoder {
 	return &FontDecoder{
-		toUnicode:    make(map[int]rune),
-		baseEncoding: make(map[int]rune),
-		differences:  make(map[int]rune),
-		fontName:     fontName,
+		toUnicode:     make(map[int]rune),
+		toUnicodeText: make(map[int]string),
+		baseEncoding:  make(map[int]rune),
+		differences:   make(map[int]rune),
+		fontName:      fontName,
 	}
 }
 
@@ -65,10 +73,26 @@ func (fd *FontDecoder) SetToUnicode(code int, unicode rune) {
 func (fd *FontDecoder) Decode(data []byte) string {
 	var result strings.Builder
 
+	if fd.is2Byte() {
+		for i := 0; i < len(data); i += 2 {
+			code := int(data[i])
+			if i+1 < len(data) {
+				code = code<<8 | int(data[i+1])
+			}
+			result.WriteString(fd.lookupText(code))
+		}
+		return result.String()
+	}
+
 	for _, b := range data {
 		code := int(b)
 		var char rune
 
+		if text, ok := fd.toUnicodeText[code]; ok {
+			result.WriteString(text)
+			continue
+		}
+
 		// Priority: ToUnicode > Differences > BaseEncoding > Identity
 		if unicode, ok := fd.toUnicode[code]; ok {
 			char = unicode
@@ -92,9 +116,7 @@ func (fd *FontDecoder) DecodeHex(hexStr string) string {
 	// Remove < and > if present
 	hexStr = strings.TrimPrefix(hexStr, "<")
 	hexStr = strings.TrimSuffix(hexStr, ">")
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
+	hexStr = strings.Join(strings.Fields(hexStr), "")
 
 	// Pad with 0 if odd length
 	if len(hexStr)%2 != 0 {
@@ -105,7 +127,7 @@ func (fd *FontDecoder) DecodeHex(hexStr string) string {
 
 	// Check if this is a 2-byte encoding (common for CID fonts)
 	// Heuristic: if we have ToUnicode entries for codes > 255, use 2-byte decoding
-	is2Byte := fd.has2ByteMapping()
+	is2Byte := fd.is2Byte()
 
 	if is2Byte && len(hexStr) >= 4 {
 		// 2-byte character codes
@@ -113,19 +135,19 @@ func (fd *FontDecoder) DecodeHex(hexStr string) string {
 			if i+4 > len(hexStr) {
 				// Remaining single byte
 				if val, err := strconv.ParseInt(hexStr[i:], 16, 32); err == nil {
-					result.WriteRune(fd.lookupCode(int(val)))
+					result.WriteString(fd.lookupText(int(val)))
 				}
 				break
 			}
 			if val, err := strconv.ParseInt(hexStr[i:i+4], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
+				result.WriteString(fd.lookupText(int(val)))
 			}
 		}
 	} else {
 		// 1-byte character codes
 		for i := 0; i < len(hexStr); i += 2 {
 			if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
+				result.WriteString(fd.lookupText(int(val)))
 			}
 		}
 	}
@@ -133,6 +155,11 @@ func (fd *FontDecoder) DecodeHex(hexStr string) string {
 	return result.String()
 }
 
+// is2Byte tells whether character codes take two bytes
+func (fd *FontDecoder) is2Byte() bool {
+	return fd.twoByte || fd.has2ByteMapping()
+}
+
 // has2ByteMapping checks if the font has 2-byte ToUnicode mappings
 func (fd *FontDecoder) has2ByteMapping() bool {
 	for code := range fd.toUnicode {
@@ -143,6 +170,14 @@ func (fd *FontDecoder) has2ByteMapping() bool {
 	return false
 }
 
+// lookupText looks up the text of a character code
+func (fd *FontDecoder) lookupText(code int) string {
+	if text, ok := fd.toUnicodeText[code]; ok {
+		return text
+	}
+	return string(fd.lookupCode(code))
+}
+
 // lookupCode looks up a character code in all encoding tables
 func (fd *FontDecoder) lookupCode(code int) rune {
 	if unicode, ok := fd.toUnicode[code]; ok {
@@ -195,13 +230,7 @@ func (fd *FontDecoder) parseBfcharBlock(block string) {
 		// Destination can be multi-byte Unicode
 		dstHex := match[2]
 		unicodeRunes := hexToUnicodeRunes(dstHex)
-		if len(unicodeRunes) == 1 {
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
-		} else if len(unicodeRunes) > 1 {
-			// For ligatures/sequences, store the first rune
-			// TODO: Handle multi-rune mappings properly
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
-		}
+		fd.setToUnicodeText(int(srcCode), unicodeRunes)
 	}
 }
 
@@ -210,21 +239,24 @@ func (fd *FontDecoder) parseBfrangeBlock(block string) {
 	// Match range definitions: <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [array]
 	// Simple range: <0020> <007E> <0020>
 	simpleRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	simpleMatches := simpleRangePattern.FindAllStringSubmatch(block, -1)
+	arrayRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*\[([^\]]*)\]`)
+	simpleMatches := simpleRangePattern.FindAllStringSubmatch(arrayRangePattern.ReplaceAllString(block, ";"), -1)
 	for _, match := range simpleMatches {
 		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
 		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		dstStart, err3 := strconv.ParseInt(match[3], 16, 32)
-		if err1 != nil || err2 != nil || err3 != nil {
+		dstStart := hexToUnicodeRunes(match[3])
+		if err1 != nil || err2 != nil || len(dstStart) == 0 {
 			continue
 		}
-		for i := srcLo; i <= srcHi; i++ {
-			fd.toUnicode[int(i)] = rune(dstStart + (i - srcLo))
+		for i := srcLo; i <= srcHi && i <= 0xFFFF; i++ {
+			// Only the last character changes along the range
+			dst := append([]rune{}, dstStart...)
+			dst[len(dst)-1] += rune(i - srcLo)
+			fd.setToUnicodeText(int(i), dst)
 		}
 	}
 
 	// Array range: <srcLo> <srcHi> [<dst1> <dst2> ...]
-	arrayRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*\[([^\]]+)\]`)
 	arrayMatches := arrayRangePattern.FindAllStringSubmatch(block, -1)
 	for _, match := range arrayMatches {
 		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
@@ -241,13 +273,22 @@ func (fd *FontDecoder) parseBfrangeBlock(block string) {
 				break
 			}
 			unicodeRunes := hexToUnicodeRunes(elem[1])
-			if len(unicodeRunes) > 0 {
-				fd.toUnicode[code] = unicodeRunes[0]
-			}
+			fd.setToUnicodeText(code, unicodeRunes)
 		}
 	}
 }
 
+// setToUnicodeText maps a character code to one or more characters
+func (fd *FontDecoder) setToUnicodeText(code int, text []rune) {
+	if len(text) > 0 {
+		fd.toUnicode[code] = text[0]
+	}
+	if len(text) > 1 {
+		// Ligatures/sequences
+		fd.toUnicodeText[code] = string(text)
+	}
+}
+
 // hexToUnicodeRunes converts a hex string to Unicode runes
 // Each pair of hex digits represents a byte in UTF-16BE
 func hexToUnicodeRunes(hex string) []rune {
@@ -266,15 +307,17 @@ func hexToUnicodeRunes(hex string) []rune {
 		}
 	} else if len(hex) > 4 {
 		// Multi-character or surrogate pair
+		var units []uint16
 		for i := 0; i < len(hex); i += 4 {
 			end := i + 4
 			if end > len(hex) {
 				end = len(hex)
 			}
 			if val, err := strconv.ParseInt(hex[i:end], 16, 32); err == nil {
-				runes = append(runes, rune(val))
+				units = append(units, uint16(val))
 			}
 		}
+		runes = utf16.Decode(units)
 	}
 
 	return runes
@@ -289,7 +332,7 @@ func (fd *FontDecoder) ParseDifferencesArray(diffStr string) {
 	diffStr = strings.TrimSuffix(diffStr, "]")
 
 	// Parse tokens
-	tokens := strings.Fields(diffStr)
+	tokens := strings.Fields(strings.ReplaceAll(diffStr, "/", " /"))
 	currentCode := 0
 
 	for _, token := range tokens {
diff --git a/content/extract/extract.go b/content/extract/extract.go
index 581cb88..eb71e08 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -6,6 +6,7 @@ package extract
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -50,6 +51,9 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 		return nil, fmt.Errorf("failed to extract pages: %w", err)
 	}
 	doc.Pages = pages
+	if doc.Metadata != nil {
+		doc.Metadata.PageCount = len(pages)
+	}
 
 	// Extract bookmarks/outlines
 	bookmarks, err := ExtractBookmarks(pdfBytes, pdf, verbose)
@@ -72,34 +76,34 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	doc.Annotations = allAnnotations
 
 	// Extract images (collect unique images from all pages)
-	imageMap := make(map[string]types.Image)
+	imageSeen := make(map[string]bool)
 	for _, page := range doc.Pages {
 		if page.Resources != nil && page.Resources.Images != nil {
-			for id, img := range page.Resources.Images {
-				if _, exists := imageMap[id]; !exists {
-					imageMap[id] = img
+			for _, id := range sortedKeys(page.Resources.Images) {
+				img := page.Resources.Images[id]
+				key := fmt.Sprintf("%+v", img)
+				if !imageSeen[key] {
+					imageSeen[key] = true
+					doc.Images = append(doc.Images, img)
 				}
 			}
 		}
 	}
-	for _, img := range imageMap {
-		doc.Images = append(doc.Images, img)
-	}
 
 	// Extract fonts (collect unique fonts from all pages)
-	fontMap := make(map[string]types.FontInfo)
+	fontSeen := make(map[string]bool)
 	for _, page := range doc.Pages {
 		if page.Resources != nil && page.Resources.Fonts != nil {
-			for id, font := range page.Resources.Fonts {
-				if _, exists := fontMap[id]; !exists {
-					fontMap[id] = font
+			for _, id := range sortedKeys(page.Resources.Fonts) {
+				font := page.Resources.Fonts[id]
+				key := fmt.Sprintf("%+v", font)
+				if !fontSeen[key] {
+					fontSeen[key] = true
+					doc.Fonts = append(doc.Fonts, font)
 				}
 			}
 		}
 	}
-	for _, font := range fontMap {
-		doc.Fonts = append(doc.Fonts, font)
-	}
 
 	return doc, nil
 }
@@ -119,3 +123,13 @@ func ExtractContentToJSON(pdfBytes []byte, password []byte, verbose bool) (strin
 
 	return string(jsonBytes), nil
 }
+
+// sortedKeys returns the keys of a map in order
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
diff --git a/content/extract/images.go b/content/extract/images.go
index 31336e6..33f1670 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -1,10 +1,8 @@
 package extract
 
 import (
-	"bytes"
 	"encoding/base64"
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -19,16 +17,15 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 		return nil, fmt.Errorf("failed to get image object %d: %w", imageObjNum, err)
 	}
 
-	imageObjBytes := imageObj
-	imageStr := string(imageObjBytes)
+	imageStr := string(imageObj)
 	image := &types.Image{
 		ID:       fmt.Sprintf("/Im%d", imageObjNum),
 		Metadata: make(map[string]interface{}),
 	}
 
 	// Extract Width and Height
-	widthStr := extractDictValue(imageStr, "/Width")
-	heightStr := extractDictValue(imageStr, "/Height")
+	widthStr := resolveValue(extractDictValue(imageStr, "/Width"), pdf)
+	heightStr := resolveValue(extractDictValue(imageStr, "/Height"), pdf)
 	if widthStr != "" {
 		if w, err := strconv.Atoi(widthStr); err == nil {
 			image.Width = w
@@ -41,13 +38,13 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 	}
 
 	// Extract ColorSpace
-	colorSpace := extractDictValue(imageStr, "/ColorSpace")
+	colorSpace := resolveValue(extractDictValue(imageStr, "/ColorSpace"), pdf)
 	if colorSpace != "" {
 		image.ColorSpace = colorSpace
 	}
 
 	// Extract BitsPerComponent
-	bitsPerCompStr := extractDictValue(imageStr, "/BitsPerComponent")
+	bitsPerCompStr := resolveValue(extractDictValue(imageStr, "/BitsPerComponent"), pdf)
 	if bitsPerCompStr != "" {
 		if b, err := strconv.Atoi(bitsPerCompStr); err == nil {
 			image.BitsPerComponent = b
@@ -55,7 +52,7 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 	}
 
 	// Extract Filter to determine format and decompression method
-	filter := extractDictValue(imageStr, "/Filter")
+	filter := resolveValue(extractDictValue(imageStr, "/Filter"), pdf)
 	if filter != "" {
 		image.Filter = filter
 		// Determine format from filter
@@ -72,65 +69,18 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 		}
 	}
 
-	// Extract stream data - handle binary data properly
-	streamIdx := bytes.Index(imageObjBytes, []byte("stream"))
-	if streamIdx != -1 {
-		// Get /Length from dictionary for exact stream size
-		dictPart := imageObjBytes[:streamIdx]
-		lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-		lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-		var streamLength int
-		if lengthMatch != nil {
-			streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-		}
-
-		// Find actual stream data (after "stream\r\n" or "stream\n")
-		streamDataStart := streamIdx + 6 // len("stream")
-		// Skip exactly one EOL per PDF spec
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
-
-		// Use /Length if available, otherwise find endstream
-		var streamData []byte
-		if streamLength > 0 && streamDataStart+streamLength <= len(imageObjBytes) {
-			streamData = imageObjBytes[streamDataStart : streamDataStart+streamLength]
-		} else {
-			endstreamIdx := bytes.Index(imageObjBytes[streamDataStart:], []byte("endstream"))
-			if endstreamIdx != -1 {
-				streamData = imageObjBytes[streamDataStart : streamDataStart+endstreamIdx]
-			}
+	// Extract stream data with its filters undone; JPEG data stays as it is
+	streamData, err := pdf.StreamContent(imageObjNum)
+	if err != nil {
+		// Unsupported or damaged encoding - use raw data
+		if verbose {
+			fmt.Printf("Warning: failed to decode image %d: %v\n", imageObjNum, err)
 		}
-
+		streamData, err = pdf.StreamRawContent(imageObjNum)
+	}
+	if err == nil {
 		if len(streamData) > 0 {
-			// Decompress if needed
-			if filter != "" {
-				if strings.Contains(filter, "FlateDecode") {
-					// Decompress FlateDecode
-					decompressed, err := parse.DecodeFlateDecode(streamData)
-					if err == nil {
-						image.Data = decompressed
-					} else {
-						if verbose {
-							fmt.Printf("Warning: failed to decompress FlateDecode image: %v\n", err)
-						}
-						image.Data = streamData
-					}
-				} else if strings.Contains(filter, "DCTDecode") {
-					// DCTDecode (JPEG) - data is already JPEG, no decompression needed
-					image.Data = streamData
-				} else {
-					// Other filters - use raw data
-					image.Data = streamData
-				}
-			} else {
-				// No filter - use raw data
-				image.Data = streamData
-			}
+			image.Data = streamData
 
 			// Set base64 encoded version for JSON serialization
 			if len(image.Data) > 0 {
@@ -160,8 +110,13 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	}
 
 	allImages := make([]types.Image, 0)
-	imageMap := make(map[string]bool)      // Track unique images by ID
-	imageObjNumMap := make(map[string]int) // Map image name to object number
+	imageMap := make(map[string]bool) // Track unique images by ID
+	type namedObject struct {
+		name   string
+		objNum int
+	}
+	var imageObjects []namedObject    // Unique images in page order
+	seenObjNums := make(map[int]bool) // Track unique images by object number
 
 	// Collect image object numbers by re-parsing Resources from pages
 	// We need to get the actual page object numbers to extract Resources
@@ -191,52 +146,36 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 		return []types.Image{}, fmt.Errorf("failed to parse Pages reference: %w", err)
 	}
 
-	// Recursively find all page objects
-	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, verbose)
+	// Find all pages with their resources
+	pageDicts := extractPageDicts(pdf, pagesObjNum, nil, map[int]bool{}, verbose)
 
 	// For each page, extract Resources and get image object numbers
-	for i, pageObjNum := range pageObjNums {
+	for i, pageStr := range pageDicts {
 		if i >= len(doc.Pages) {
 			break
 		}
 
-		pageObj, err := pdf.GetObject(pageObjNum)
-		if err != nil {
-			continue
-		}
-
-		pageStr := string(pageObj)
-		// Extract Resources
-		resourcesRef := extractDictValue(pageStr, "/Resources")
-		var resourcesStr string
-		if resourcesRef != "" {
-			resourcesObjNum, err := parseObjectRef(resourcesRef)
-			if err == nil {
-				resourcesObj, err := pdf.GetObject(resourcesObjNum)
-				if err == nil {
-					resourcesStr = string(resourcesObj)
-				}
-			}
-		} else {
-			// Inline Resources
-			resourcesStr = extractInlineDict(pageStr, "/Resources")
-		}
-
+		resourcesStr := resolveValue(extractDictValue(pageStr, "/Resources"), pdf)
 		if resourcesStr != "" {
 			// Extract XObject object numbers
-			_, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
-			for name, objNum := range objNums {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					imageObjNumMap[name] = objNum
-					imageMap[imageID] = true
+			xobjects, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
+			for _, entry := range dictEntries(resolveValue(extractDictValue(resourcesStr, "/XObject"), pdf)) {
+				name, objNum := entry.name, objNums[entry.name]
+				if xobjects[name].Subtype != "/Image" {
+					continue
+				}
+				imageMap["/"+name] = true
+				if !seenObjNums[objNum] {
+					seenObjNums[objNum] = true
+					imageObjects = append(imageObjects, namedObject{name, objNum})
 				}
 			}
 		}
 	}
 
 	// Extract full image data with binary for each unique image
-	for name, objNum := range imageObjNumMap {
+	for _, object := range imageObjects {
+		name, objNum := object.name, object.objNum
 		image, err := extractImageData(objNum, pdf, verbose)
 		if err != nil {
 			if verbose {
@@ -252,6 +191,7 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 				}
 			}
 		} else {
+			image.ID = "/" + name // the name pages refer to it by
 			allImages = append(allImages, *image)
 		}
 	}
@@ -272,29 +212,36 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	return allImages, nil
 }
 
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []int {
-	var pageObjNums []int
+// extractPageDicts recursively extracts the page dictionaries from the pages tree, with the
+// attributes they inherit
+func extractPageDicts(pdf *parse.PDF, pagesObjNum int, inherited map[string]string, seen map[int]bool, verbose bool) []string {
+	var pageDicts []string
 
 	pagesObj, err := pdf.GetObject(pagesObjNum)
 	if err != nil {
-		return pageObjNums
+		return pageDicts
 	}
 
-	pagesStr := string(pagesObj)
+	pagesStr := withInherited(string(pagesObj), inherited)
 
 	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
+	pageType := resolveValue(extractDictValue(pagesStr, "/Type"), pdf)
 	if pageType == "/Page" {
 		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums
+		pageDicts = append(pageDicts, pagesStr)
+		return pageDicts
+	}
+
+	// A node that was already visited would make the tree infinite
+	if seen[pagesObjNum] {
+		return pageDicts
 	}
+	seen[pagesObjNum] = true
 
 	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
+	kidsStr := resolveValue(extractDictValue(pagesStr, "/Kids"), pdf)
 	if kidsStr == "" {
-		return pageObjNums
+		return pageDicts
 	}
 
 	// Parse kids array
@@ -305,9 +252,9 @@ func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []i
 			continue
 		}
 		// Recurse
-		childPages := extractPageObjectNumbers(pdf, kidObjNum, verbose)
-		pageObjNums = append(pageObjNums, childPages...)
+		childPages := extractPageDicts(pdf, kidObjNum, inheritableAttributes(pagesStr), seen, verbose)
+		pageDicts = append(pageDicts, childPages...)
 	}
 
-	return pageObjNums
+	return pageDicts
 }
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c9fea03..aa8ec95 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -2,7 +2,6 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 	"time"
@@ -28,7 +27,8 @@ func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.Docu
 		if err == nil {
 			infoObj, err := pdf.GetObject(infoObjNum)
 			if err == nil {
-				parseInfoDict(string(infoObj), metadata, verbose)
+				resolve := func(value string) string { return resolveValue(value, pdf) }
+				parseInfoDict(string(infoObj), metadata, resolve, verbose)
 			}
 		}
 	}
@@ -55,68 +55,33 @@ func parseObjectRef(ref string) (int, error) {
 }
 
 // parseInfoDict parses a PDF Info dictionary
-func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose bool) {
-	// Extract common fields
-	patterns := map[string]*regexp.Regexp{
-		"title":         regexp.MustCompile(`/Title\s*\(([^)]*)\)`),
-		"author":        regexp.MustCompile(`/Author\s*\(([^)]*)\)`),
-		"subject":       regexp.MustCompile(`/Subject\s*\(([^)]*)\)`),
-		"keywords":      regexp.MustCompile(`/Keywords\s*\(([^)]*)\)`),
-		"creator":       regexp.MustCompile(`/Creator\s*\(([^)]*)\)`),
-		"producer":      regexp.MustCompile(`/Producer\s*\(([^)]*)\)`),
-		"creation_date": regexp.MustCompile(`/CreationDate\s*\(([^)]*)\)`),
-		"mod_date":      regexp.MustCompile(`/ModDate\s*\(([^)]*)\)`),
-	}
-
+func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, resolve func(string) string, verbose bool) {
 	fieldMap := map[string]*string{
-		"title":         &metadata.Title,
-		"author":        &metadata.Author,
-		"subject":       &metadata.Subject,
-		"keywords":      &metadata.Keywords,
-		"creator":       &metadata.Creator,
-		"producer":      &metadata.Producer,
-		"creation_date": &metadata.CreationDate,
-		"mod_date":      &metadata.ModDate,
+		"Title":        &metadata.Title,
+		"Author":       &metadata.Author,
+		"Subject":      &metadata.Subject,
+		"Keywords":     &metadata.Keywords,
+		"Creator":      &metadata.Creator,
+		"Producer":     &metadata.Producer,
+		"CreationDate": &metadata.CreationDate,
+		"ModDate":      &metadata.ModDate,
 	}
 
-	for key, pattern := range patterns {
-		match := pattern.FindStringSubmatch(infoStr)
-		if len(match) > 1 {
-			value := unescapePDFString(match[1])
-			if fieldPtr, ok := fieldMap[key]; ok {
-				*fieldPtr = value
-			}
+	for _, entry := range dictEntries(infoStr) {
+		value := resolve(entry.value)
+		if _, isString := stringBytes(value); !isString {
+			continue
+		}
+		if fieldPtr, ok := fieldMap[entry.name]; ok {
+			*fieldPtr = textString(value)
+			continue
 		}
-	}
-
-	// Extract custom fields (any field that's not a standard field)
-	// Pattern: /FieldName (value)
-	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(([^)]*)\)`)
-	standardFields := map[string]bool{
-		"Title":        true,
-		"Author":       true,
-		"Subject":      true,
-		"Keywords":     true,
-		"Creator":      true,
-		"Producer":     true,
-		"CreationDate": true,
-		"ModDate":      true,
-	}
 
-	allMatches := customPattern.FindAllStringSubmatch(infoStr, -1)
-	for _, match := range allMatches {
-		if len(match) >= 3 {
-			fieldName := match[1]
-			fieldValue := unescapePDFString(match[2])
-
-			// Skip if it's a standard field (already extracted)
-			if !standardFields[fieldName] {
-				if metadata.Custom == nil {
-					metadata.Custom = make(map[string]string)
-				}
-				metadata.Custom[fieldName] = fieldValue
-			}
+		// Custom fields (any field that's not a standard field)
+		if metadata.Custom == nil {
+			metadata.Custom = make(map[string]string)
 		}
+		metadata.Custom[decodeName(entry.name)] = textString(value)
 	}
 }
 
@@ -128,14 +93,52 @@ func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata,
 
 // unescapePDFString unescapes a PDF string literal
 func unescapePDFString(s string) string {
-	// Handle basic PDF string escaping
-	s = strings.ReplaceAll(s, "\\n", "\n")
-	s = strings.ReplaceAll(s, "\\r", "\r")
-	s = strings.ReplaceAll(s, "\\t", "\t")
-	s = strings.ReplaceAll(s, "\\(", "(")
-	s = strings.ReplaceAll(s, "\\)", ")")
-	s = strings.ReplaceAll(s, "\\\\", "\\")
-	return s
+	var out strings.Builder
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if c == '\r' {
+			// An end-of-line marker in a string stands for a line feed
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+			c = '\n'
+		}
+		if c != '\\' || i+1 >= len(s) {
+			out.WriteByte(c)
+			continue
+		}
+		i++
+		switch c = s[i]; {
+		case c == 'n':
+			out.WriteByte('\n')
+		case c == 'r':
+			out.WriteByte('\r')
+		case c == 't':
+			out.WriteByte('\t')
+		case c == 'b':
+			out.WriteByte('\b')
+		case c == 'f':
+			out.WriteByte('\f')
+		case c >= '0' && c <= '7':
+			// Octal character code of one to three digits
+			code := 0
+			for n := 0; n < 3 && i < len(s) && s[i] >= '0' && s[i] <= '7'; n++ {
+				code = code*8 + int(s[i]-'0')
+				i++
+			}
+			i--
+			out.WriteByte(byte(code))
+		case c == '\r':
+			// A backslash at the end of a line continues the string on the next line
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+		case c == '\n':
+		default:
+			out.WriteByte(c)
+		}
+	}
+	return out.String()
 }
 
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 7523801..ebd66f5 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -53,7 +53,7 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 	}
 
 	// Extract pages from pages tree
-	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, verbose)
+	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, nil, map[int]bool{}, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to extract pages from tree: %w", err)
 	}
@@ -61,13 +61,16 @@ func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page,
 	// Update page numbers
 	for i := range pages {
 		pages[i].PageNumber = i + 1
+		for j := range pages[i].Annotations {
+			pages[i].Annotations[j].PageNumber = i + 1
+		}
 	}
 
 	return pages, nil
 }
 
 // extractPagesFromTree recursively extracts pages from a pages tree
-func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verbose bool) ([]types.Page, error) {
+func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, inherited map[string]string, seen map[int]bool, verbose bool) ([]types.Page, error) {
 	var result []types.Page
 
 	pagesObj, err := pdf.GetObject(pagesObjNum)
@@ -75,25 +78,15 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 		return nil, fmt.Errorf("failed to get pages object %d: %w", pagesObjNum, err)
 	}
 
-	pagesStr := string(pagesObj)
+	pagesStr := withInherited(string(pagesObj), inherited)
 	if verbose {
 		fmt.Printf("Pages object %d: %s\n", pagesObjNum, pagesStr)
 	}
 
 	// Check if this is a page or a pages node
-	// Look for /Type/Page or /Type/Pages in the dictionary
-	// Need to check for exact match, not substring (e.g., /Type/Page should not match /Type/Pages)
-	pageType := ""
-	if strings.Contains(pagesStr, "/Type/Pages") || strings.Contains(pagesStr, "/Type /Pages") {
-		pageType = "/Pages"
-	} else if strings.Contains(pagesStr, "/Type/Page") || strings.Contains(pagesStr, "/Type /Page") {
-		// Make sure it's not /Type/Pages
-		if !strings.Contains(pagesStr, "/Type/Pages") && !strings.Contains(pagesStr, "/Type /Pages") {
-			pageType = "/Page"
-		}
-	}
+	pageType := resolveValue(extractDictValue(pagesStr, "/Type"), pdf)
 	if verbose {
-		fmt.Printf("Type: %s (from string check)\n", pageType)
+		fmt.Printf("Type: %s (from /Type)\n", pageType)
 	}
 	if pageType == "/Page" {
 		// This is a page object
@@ -107,8 +100,14 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 		return []types.Page{page}, nil
 	}
 
+	// A node that was already visited would make the tree infinite
+	if seen[pagesObjNum] {
+		return result, nil
+	}
+	seen[pagesObjNum] = true
+
 	// This is a pages node - get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
+	kidsStr := resolveValue(extractDictValue(pagesStr, "/Kids"), pdf)
 	if verbose {
 		fmt.Printf("Kids string: %s\n", kidsStr)
 	}
@@ -135,7 +134,7 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verb
 		}
 
 		// Recursively extract from child
-		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, verbose)
+		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, inheritableAttributes(pagesStr), seen, verbose)
 		if err != nil {
 			if verbose {
 				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
@@ -160,7 +159,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract media box
-	mediaBox := extractArrayValue(pageStr, "/MediaBox")
+	mediaBox := extractArray(pageStr, "/MediaBox", pdf)
 	if len(mediaBox) >= 4 {
 		page.MediaBox = &types.Rectangle{
 			LowerX: mediaBox[0],
@@ -173,7 +172,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract crop box
-	cropBox := extractArrayValue(pageStr, "/CropBox")
+	cropBox := extractArray(pageStr, "/CropBox", pdf)
 	if len(cropBox) >= 4 {
 		page.CropBox = &types.Rectangle{
 			LowerX: cropBox[0],
@@ -184,7 +183,7 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract rotation
-	rotationStr := extractDictValue(pageStr, "/Rotate")
+	rotationStr := resolveValue(extractDictValue(pageStr, "/Rotate"), pdf)
 	if rotationStr != "" {
 		if rot, err := strconv.Atoi(rotationStr); err == nil {
 			page.Rotation = rot
@@ -192,25 +191,10 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract resources FIRST (needed for font decoders for text extraction)
-	var resourcesStr string
-	resourcesRef := extractDictValue(pageStr, "/Resources")
-	if resourcesRef != "" {
-		// Resources is a reference to another object
-		resourcesObjNum, err := parseObjectRef(resourcesRef)
-		if err == nil {
-			resourcesObj, err := pdf.GetObject(resourcesObjNum)
-			if err == nil {
-				resourcesStr = string(resourcesObj)
-				page.Resources = extractResources(resourcesStr, pdf, verbose)
-			}
-		}
-	} else {
-		// Resources might be inline - extract the Resources dictionary from page string
-		resourcesDictStr := extractInlineDict(pageStr, "/Resources")
-		if resourcesDictStr != "" {
-			resourcesStr = resourcesDictStr
-			page.Resources = extractResources(resourcesStr, pdf, verbose)
-		}
+	// Resources may be inline or a reference to another object
+	resourcesStr := resolveValue(extractDictValue(pageStr, "/Resources"), pdf)
+	if resourcesStr != "" {
+		page.Resources = extractResources(resourcesStr, pdf, verbose)
 	}
 
 	// Extract font decoders for text extraction
@@ -222,15 +206,14 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	// Extract content streams
 	contents := extractDictValue(pageStr, "/Contents")
 	if contents != "" {
-		// Contents can be a single reference or an array
-		// Decompress and parse content stream
-		contentRefs := parseObjectRefArray(contents)
-		if len(contentRefs) == 0 {
-			// Try as single reference
-			contentRefs = []string{contents}
+		// Contents can be a single reference or an array, which may itself be indirect
+		contentRefs := []string{contents}
+		if array := resolveValue(contents, pdf); strings.HasPrefix(array, "[") {
+			contentRefs = parseObjectRefArray(array)
 		}
 
-		// Extract text and graphics from content streams
+		// The streams of a page are one content stream, split anywhere between two tokens
+		var content strings.Builder
 		for _, contentRef := range contentRefs {
 			contentObjNum, err := parseObjectRef(contentRef)
 			if err != nil {
@@ -240,67 +223,19 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 				continue
 			}
 
-			contentObj, err := pdf.GetObject(contentObjNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get content object %d: %v\n", contentObjNum, err)
-				}
-				continue
-			}
-
-			// Parse content stream
-			// Content streams are usually stored as stream objects with FlateDecode
-			// We need to get the actual stream data, not the object wrapper
-			contentStr := string(contentObj)
-
-			// Check if this is a stream object and extract/decompress the stream data
-			if strings.Contains(contentStr, "stream") {
-				streamIdx := strings.Index(contentStr, "stream")
-				if streamIdx != -1 {
-					// Check for FlateDecode filter
-					isCompressed := strings.Contains(contentStr, "/FlateDecode")
-
-					// Extract stream data
-					dataStart := streamIdx + 6 // Skip "stream"
-					// Skip EOL after "stream"
-					if dataStart < len(contentStr) && (contentStr[dataStart] == '\r' || contentStr[dataStart] == '\n') {
-						dataStart++
-					}
-					if dataStart < len(contentStr) && contentStr[dataStart] == '\n' {
-						dataStart++
-					}
-
-					endstreamIdx := strings.Index(contentStr[dataStart:], "endstream")
-					if endstreamIdx != -1 {
-						streamData := []byte(contentStr[dataStart : dataStart+endstreamIdx])
-
-						// Decompress if needed using parse package
-						if isCompressed {
-							// Use parse.DecodeFlateDecode which handles both zlib and raw deflate
-							decompressed, err := parse.DecodeFlateDecode(streamData)
-							if err == nil {
-								contentStr = string(decompressed)
-							} else {
-								// Fallback to raw if decompression fails
-								contentStr = string(streamData)
-							}
-						} else {
-							contentStr = string(streamData)
-						}
-					}
-				}
-			}
-
-			textElements, graphics, images := parseContentStreamWithDecoders(contentStr, pdf, pageObjNum, fontDecoders, verbose)
-			page.Text = append(page.Text, textElements...)
-			page.Graphics = append(page.Graphics, graphics...)
-			page.Images = append(page.Images, images...)
+			content.WriteString(extractStreamData(contentObjNum, pdf, verbose))
+			content.WriteString("\n")
 		}
+
+		// Extract text and graphics from the content stream
+		textElements, graphics, images := parseContentStreamWithDecoders(content.String(), pdf, pageObjNum, fontDecoders, verbose)
+		page.Text = append(page.Text, textElements...)
+		page.Graphics = append(page.Graphics, graphics...)
+		page.Images = append(page.Images, images...)
 	}
 
 	// Extract annotations
-	// extractDictValue already handles arrays and returns them as "[...]" strings
-	annotsRef := extractDictValue(pageStr, "/Annots")
+	annotsRef := resolveValue(extractDictValue(pageStr, "/Annots"), pdf)
 	if annotsRef != "" {
 		annotations := extractAnnotations(annotsRef, pdf, pageObjNum, verbose)
 		page.Annotations = annotations
@@ -311,45 +246,21 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 
 // Helper functions for parsing PDF dictionaries and arrays
 
+// extractDictValue returns the value of one of a dictionary's own keys, "" if it has none
 func extractDictValue(dictStr, key string) string {
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	// This handles PDF dictionaries where values immediately follow keys
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
-	// Try to match array value (e.g., "/Kids[4 0 R ]")
-	arrayPattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[([^\]]+)\]`)
-	arrayMatch := arrayPattern.FindStringSubmatch(dictStr)
-	if len(arrayMatch) > 1 {
-		return "[" + arrayMatch[1] + "]"
-	}
-
-	return ""
+	return string(parse.DictValue([]byte(dictStr), key))
 }
 
-func extractArrayValue(dictStr, key string) []float64 {
-	// Find the array after the key (e.g., "/MediaBox [0 0 612 792]")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[\s*([^\]]+)\]`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if match == nil || len(match) < 2 {
-		return nil
-	}
+// extractArray returns the numbers of an array value, resolving references
+func extractArray(dictStr, key string, pdf *parse.PDF) []float64 {
+	return numbers(resolveValue(extractDictValue(dictStr, key), pdf), pdf)
+}
 
-	// Parse numbers from array
-	parts := strings.Fields(match[1])
+// numbers returns the numbers of an array
+func numbers(array string, pdf *parse.PDF) []float64 {
 	var values []float64
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
+	for _, part := range arrayValues(array) {
+		if val, err := strconv.ParseFloat(resolveValue(part, pdf), 64); err == nil {
 			values = append(values, val)
 		}
 	}
diff --git a/content/extract/resources.go b/content/extract/resources.go
index ae9a6dc..614917f 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -2,7 +2,6 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -57,68 +56,19 @@ func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[str
 		fmt.Printf("Extracting fonts from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
 	}
 
-	// Find /Font dictionary - handle both << >> and inline formats
-	// Pattern: /Font<<...>> or /Font <<...>>
-	// First try simple pattern
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			// Find the << after /Font
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				// Find matching >>
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources\n")
-		}
-		return fonts
-	}
-
-	fontDictStr := fontMatch[1]
-	if verbose {
-		fmt.Printf("Found Font dictionary: %s\n", fontDictStr)
-	}
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
+	fontDictStr := resolveValue(extractDictValue(resourcesStr, "/Font"), pdf)
+	fontEntries := dictEntries(fontDictStr)
 
 	if verbose {
 		fmt.Printf("Found %d font entries\n", len(fontEntries))
 	}
 
 	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		fontName := entry.name
+		fontObjNum, err := parseObjectRef(entry.value)
+		if err != nil {
+			continue
+		}
 
 		fontInfo := extractFontInfo(fontObjNum, pdf, verbose)
 		if fontInfo != nil {
@@ -195,6 +145,10 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 
 	// Extract FontDescriptor for more info
 	fontDescriptorRef := extractDictValue(fontStr, "/FontDescriptor")
+	if descendants := arrayValues(resolveValue(extractDictValue(fontStr, "/DescendantFonts"), pdf)); len(descendants) > 0 {
+		// The descriptor of a Type0 font is its descendant's
+		fontDescriptorRef = extractDictValue(resolveValue(descendants[0], pdf), "/FontDescriptor")
+	}
 	if fontDescriptorRef != "" {
 		descObjNum, err := parseObjectRef(fontDescriptorRef)
 		if err == nil {
@@ -208,7 +162,7 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 				// Extract font family name if available
 				fontFamily := extractDictValue(descStr, "/FontFamily")
 				if fontFamily != "" {
-					fontInfo.Family = fontFamily
+					fontInfo.Family = textString(resolveValue(fontFamily, pdf))
 				}
 			}
 		}
@@ -221,28 +175,15 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.XObject {
 	xobjects := make(map[string]types.XObject)
 
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 == nil {
-			return xobjects
-		}
-		xobjMatch = xobjMatch2
-	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
+	xobjDictStr := resolveValue(extractDictValue(resourcesStr, "/XObject"), pdf)
+	xobjEntries := dictEntries(xobjDictStr)
 
 	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		xobjName := entry.name
+		xobjObjNum, err := parseObjectRef(entry.value)
+		if err != nil {
+			continue
+		}
 
 		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
 		if xobj != nil {
@@ -259,29 +200,15 @@ func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose
 	xobjects := make(map[string]types.XObject)
 	objNums := make(map[string]int) // image name -> object number
 
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 != nil {
-			xobjMatch = xobjMatch2
-		} else {
-			return xobjects, objNums
-		}
-	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
+	xobjDictStr := resolveValue(extractDictValue(resourcesStr, "/XObject"), pdf)
+	xobjEntries := dictEntries(xobjDictStr)
 
 	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		xobjName := entry.name
+		xobjObjNum, err := parseObjectRef(entry.value)
+		if err != nil {
+			continue
+		}
 		objNums[xobjName] = xobjObjNum
 
 		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
@@ -350,57 +277,14 @@ func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 		fmt.Printf("Extracting font decoders from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
 	}
 
-	// Find /Font dictionary - handle both << >> and inline formats
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
-	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources for decoder extraction\n")
-		}
-		return decoders
-	}
-
-	fontDictStr := fontMatch[1]
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
+	fontEntries := dictEntries(resolveValue(extractDictValue(resourcesStr, "/Font"), pdf))
 
 	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
+		fontName := entry.name
+		fontObjNum, err := parseObjectRef(entry.value)
+		if err != nil {
+			continue
+		}
 
 		decoder := extractFontDecoder(fontObjNum, fontName, pdf, verbose)
 		if decoder != nil {
@@ -424,33 +308,22 @@ func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose
 	fontStr := string(fontObj)
 	decoder := NewFontDecoder(fontName)
 
-	// Extract and set base encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		// Check if encoding is a name (e.g., /WinAnsiEncoding) or a reference
-		if strings.HasPrefix(encoding, "/") {
-			decoder.SetBaseEncoding(encoding)
-		} else {
-			// Encoding might be a reference to an encoding dictionary
-			encodingObjNum, err := parseObjectRef(encoding)
-			if err == nil {
-				encodingObj, err := pdf.GetObject(encodingObjNum)
-				if err == nil {
-					encodingStr := string(encodingObj)
-
-					// Extract BaseEncoding from encoding dictionary
-					baseEnc := extractDictValue(encodingStr, "/BaseEncoding")
-					if baseEnc != "" {
-						decoder.SetBaseEncoding(baseEnc)
-					}
-
-					// Extract Differences array
-					diffsStr := extractDifferencesArray(encodingStr)
-					if diffsStr != "" {
-						decoder.ParseDifferencesArray(diffsStr)
-					}
-				}
-			}
+	// Extract and set base encoding: a name or a dictionary, inline or referenced
+	encoding := resolveValue(extractDictValue(fontStr, "/Encoding"), pdf)
+	if strings.HasPrefix(encoding, "/") {
+		decoder.SetBaseEncoding(encoding)
+	} else if encoding != "" {
+		// Extract BaseEncoding from encoding dictionary
+		baseEnc := resolveValue(extractDictValue(encoding, "/BaseEncoding"), pdf)
+		if baseEnc == "" {
+			baseEnc = "StandardEncoding"
+		}
+		decoder.SetBaseEncoding(baseEnc)
+
+		// Extract Differences array
+		diffsStr := resolveValue(extractDictValue(encoding, "/Differences"), pdf)
+		if diffsStr != "" {
+			decoder.ParseDifferencesArray(diffsStr)
 		}
 	} else {
 		// Check for implicit encoding based on font type
@@ -466,12 +339,6 @@ func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose
 		}
 	}
 
-	// Handle Differences array in inline encoding
-	diffsStr := extractDifferencesArray(fontStr)
-	if diffsStr != "" {
-		decoder.ParseDifferencesArray(diffsStr)
-	}
-
 	// Extract ToUnicode CMap (highest priority for text decoding)
 	toUnicodeRef := extractDictValue(fontStr, "/ToUnicode")
 	if toUnicodeRef != "" {
@@ -487,115 +354,24 @@ func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose
 		}
 	}
 
-	// For Type0 (CID) fonts, extract the descendant font's encoding
-	subtype := extractDictValue(fontStr, "/Subtype")
-	if subtype == "/Type0" {
-		descendantFontsRef := extractDictValue(fontStr, "/DescendantFonts")
-		if descendantFontsRef != "" {
-			// Parse array of references
-			refs := parseObjectRefArray(descendantFontsRef)
-			if len(refs) > 0 {
-				descFontObjNum, err := parseObjectRef(refs[0])
-				if err == nil {
-					descFontObj, err := pdf.GetObject(descFontObjNum)
-					if err == nil {
-						// Check for CIDToGIDMap, which might give us Unicode mappings
-						descFontStr := string(descFontObj)
-						if verbose {
-							fmt.Printf("Type0 descendant font: %s\n", descFontStr[:min(200, len(descFontStr))])
-						}
-					}
-				}
-			}
-		}
+	// Type0 (CID) fonts use 2-byte codes
+	if extractDictValue(fontStr, "/Subtype") == "/Type0" {
+		decoder.twoByte = true
 	}
 
 	return decoder
 }
 
-// extractDifferencesArray extracts the Differences array from an encoding dictionary or font
-func extractDifferencesArray(str string) string {
-	// Find /Differences array
-	diffIdx := strings.Index(str, "/Differences")
-	if diffIdx == -1 {
-		return ""
-	}
-
-	// Find the opening bracket
-	bracketStart := strings.Index(str[diffIdx:], "[")
-	if bracketStart == -1 {
-		return ""
-	}
-	bracketStart += diffIdx
-
-	// Find matching closing bracket
-	depth := 1
-	bracketEnd := bracketStart + 1
-	for bracketEnd < len(str) && depth > 0 {
-		if str[bracketEnd] == '[' {
-			depth++
-		} else if str[bracketEnd] == ']' {
-			depth--
-		}
-		bracketEnd++
-	}
-
-	if depth == 0 {
-		return str[bracketStart:bracketEnd]
-	}
-	return ""
-}
-
 // extractStreamData extracts and decompresses stream data from a stream object
 func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
-	obj, err := pdf.GetObject(objNum)
+	data, err := pdf.StreamContent(objNum)
 	if err != nil {
 		if verbose {
 			fmt.Printf("Warning: failed to get stream object %d: %v\n", objNum, err)
 		}
 		return ""
 	}
-
-	objStr := string(obj)
-
-	// Check if this is a stream object
-	streamIdx := strings.Index(objStr, "stream")
-	if streamIdx == -1 {
-		return ""
-	}
-
-	// Check for FlateDecode filter
-	isCompressed := strings.Contains(objStr, "/FlateDecode")
-
-	// Extract stream data
-	dataStart := streamIdx + 6 // Skip "stream"
-	// Skip EOL after "stream"
-	if dataStart < len(objStr) && (objStr[dataStart] == '\r' || objStr[dataStart] == '\n') {
-		dataStart++
-	}
-	if dataStart < len(objStr) && objStr[dataStart] == '\n' {
-		dataStart++
-	}
-
-	endstreamIdx := strings.Index(objStr[dataStart:], "endstream")
-	if endstreamIdx == -1 {
-		return ""
-	}
-
-	streamData := []byte(objStr[dataStart : dataStart+endstreamIdx])
-
-	// Decompress if needed
-	if isCompressed {
-		decompressed, err := parse.DecodeFlateDecode(streamData)
-		if err == nil {
-			return string(decompressed)
-		}
-		if verbose {
-			fmt.Printf("Warning: failed to decompress stream %d: %v\n", objNum, err)
-		}
-	}
-
-	return string(streamData)
+	return string(data)
 }
 
 // isStandard14Font checks if a font is one of the standard 14 PDF fonts
diff --git a/content/extract/values.go b/content/extract/values.go
new file mode 100644
index 0000000..d02e45a
--- /dev/null
+++ b/content/extract/values.go
@@ -0,0 +1,171 @@
+package extract
+
+import (
+	"bytes"
+	"regexp"
+	"strconv"
+	"strings"
+	"unicode/utf16"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+)
+
+var referencePattern = regexp.MustCompile(`^\d+\s+\d+\s+R$`)
+
+// resolveValue follows an indirect reference to the value it stands for, "" for a null value;
+// any other value is returned as it is
+func resolveValue(value string, pdf *parse.PDF) string {
+	for depth := 0; depth < 10 && referencePattern.MatchString(value); depth++ {
+		objNum, err := parseObjectRef(value)
+		if err != nil {
+			return ""
+		}
+		obj, err := pdf.GetObject(objNum)
+		if err != nil {
+			return ""
+		}
+		value = strings.TrimSpace(string(parse.ObjectContent(obj)))
+	}
+	if value == "null" || referencePattern.MatchString(value) {
+		return ""
+	}
+	return value
+}
+
+// dictEntry is an entry of a dictionary: its name (without the slash) and its raw value
+type dictEntry struct {
+	name  string
+	value string
+}
+
+// dictEntries lists the entries of a dictionary in order
+func dictEntries(dictStr string) []dictEntry {
+	dict := []byte(dictStr)
+	p, limit, ok := parse.DictSpan(dict)
+	if !ok {
+		return nil
+	}
+	dict = dict[:limit]
+	var entries []dictEntry
+	for {
+		ks, ke, ok := parse.ScanToken(dict, p)
+		if !ok {
+			return entries
+		}
+		p = ke
+		if dict[ks] != '/' {
+			continue
+		}
+		vs, ve, ok := parse.ScanValue(dict, ke)
+		if !ok {
+			return entries
+		}
+		entries = append(entries, dictEntry{string(dict[ks+1 : ke]), string(dict[vs:ve])})
+		p = ve
+	}
+}
+
+// arrayValues lists the values of an array
+func arrayValues(arrStr string) []string {
+	arr := []byte(strings.TrimSpace(arrStr))
+	if len(arr) < 2 || arr[0] != '[' || arr[len(arr)-1] != ']' {
+		return nil
+	}
+	arr = arr[1 : len(arr)-1]
+	var values []string
+	for p := 0; ; {
+		start, end, ok := parse.ScanValue(arr, p)
+		if !ok {
+			return values
+		}
+		values = append(values, string(arr[start:end]))
+		p = end
+	}
+}
+
+// stringBytes returns the bytes a literal or hexadecimal string stands for
+func stringBytes(value string) (string, bool) {
+	value = strings.TrimSpace(value)
+	if len(value) >= 2 && value[0] == '(' && value[len(value)-1] == ')' {
+		return unescapePDFString(value[1 : len(value)-1]), true
+	}
+	if len(value) >= 2 && value[0] == '<' && value[1] != '<' && value[len(value)-1] == '>' {
+		digits := bytes.Map(func(r rune) rune {
+			if strings.ContainsRune("0123456789abcdefABCDEF", r) {
+				return r
+			}
+			return -1
+		}, []byte(value))
+		if len(digits)%2 != 0 {
+			digits = append(digits, '0')
+		}
+		var out strings.Builder
+		for i := 0; i < len(digits); i += 2 {
+			b, _ := strconv.ParseUint(string(digits[i:i+2]), 16, 8)
+			out.WriteByte(byte(b))
+		}
+		return out.String(), true
+	}
+	return "", false
+}
+
+// textString returns the text of a string value; a value that is not a string is returned as it is
+func textString(value string) string {
+	s, ok := stringBytes(value)
+	if !ok {
+		return value
+	}
+	if strings.HasPrefix(s, "\xFE\xFF") {
+		units := make([]uint16, 0, len(s)/2)
+		for i := 2; i+1 < len(s); i += 2 {
+			units = append(units, uint16(s[i])<<8|uint16(s[i+1]))
+		}
+		return string(utf16.Decode(units))
+	}
+	return strings.TrimPrefix(s, "\xEF\xBB\xBF")
+}
+
+// inheritedPageAttributes are the page attributes a page takes from its ancestors
+var inheritedPageAttributes = []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"}
+
+// withInherited adds to a page tree node's dictionary the inheritable attributes it lacks
+func withInherited(nodeStr string, inherited map[string]string) string {
+	_, end, ok := parse.DictSpan([]byte(nodeStr))
+	if !ok {
+		return nodeStr
+	}
+	var added strings.Builder
+	for _, key := range inheritedPageAttributes {
+		if value := inherited[key]; value != "" && extractDictValue(nodeStr, key) == "" {
+			added.WriteString(" " + key + " " + value)
+		}
+	}
+	return nodeStr[:end] + added.String() + nodeStr[end:]
+}
+
+// inheritableAttributes returns the inheritable attributes of a page tree node
+func inheritableAttributes(nodeStr string) map[string]string {
+	attributes := make(map[string]string)
+	for _, key := range inheritedPageAttributes {
+		if value := extractDictValue(nodeStr, key); value != "" && value != "null" {
+			attributes[key] = value
+		}
+	}
+	return attributes
+}
+
+// decodeName undoes the #xx escapes of a name
+func decodeName(name string) string {
+	var out strings.Builder
+	for i := 0; i < len(name); i++ {
+		if name[i] == '#' && i+2 < len(name) {
+			if b, err := strconv.ParseUint(name[i+1:i+3], 16, 8); err == nil {
+				out.WriteByte(byte(b))
+				i += 2
+				continue
+			}
+		}
+		out.WriteByte(name[i])
+	}
+	return out.String()
+}
-- 
2.43.0


From b7180b8250f29dee0a68fefa684743959735272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 12/73] fix: stop at cyclic field hierarchies

---
 forms/acroform/parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 6d764ae..c194273 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -129,11 +129,12 @@ func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encrypt
 	fieldRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
 	fieldRefs := fieldRefPattern.FindAllStringSubmatch(fieldsStr, -1)
 
+	seen := make(map[int]bool)
 	for _, ref := range fieldRefs {
 		objNum, _ := strconv.Atoi(ref[1])
 		genNum, _ := strconv.Atoi(ref[2])
 
-		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, verbose)
+		field, err := parseField(pdfBytes, objNum, genNum, seen, encryptInfo, verbose)
 		if err != nil {
 			if verbose {
 				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
@@ -148,7 +149,13 @@ func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encrypt
 }
 
 // parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
+func parseField(pdfBytes []byte, objNum, genNum int, seen map[int]bool, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
+	// A field that was already visited would make the hierarchy infinite
+	if seen[objNum] {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "field occurs twice in the field hierarchy")
+	}
+	seen[objNum] = true
+
 	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
 	if err != nil {
 		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
@@ -224,7 +231,7 @@ func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncry
 			kidObjNum, _ := strconv.Atoi(ref[1])
 			kidGenNum, _ := strconv.Atoi(ref[2])
 
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, verbose)
+			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, seen, encryptInfo, verbose)
 			if err != nil {
 				if verbose {
 					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-- 
2.43.0


From 8a652db6bc020d2e1262ef4d18928120af0f5a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 13/73] fix: XFA streams are read and replaced through the
 cross-reference tables

---
 core/parse/lexical.go                |  8 +--
 core/parse/syntax.go                 | 33 +++++++++++
 core/write/xfa_builder.go            | 85 +++++++++++++++++++---------
 forms/xfa/xfa.go                     | 60 ++++++++++++++++++--
 forms/xfa/xfa_datasets_translator.go | 28 ++++++---
 forms/xfa/xfa_utils.go               |  3 +-
 6 files changed, 173 insertions(+), 44 deletions(-)

diff --git a/core/parse/lexical.go b/core/parse/lexical.go
index 5acdb43..583ae1c 100644
--- a/core/parse/lexical.go
+++ b/core/parse/lexical.go
@@ -13,9 +13,9 @@ import (
 // maxNesting bounds how deeply nested containers are followed while scanning.
 const maxNesting = 500
 
-// maxObjectNumber is the largest object number a cross-reference section may assign
+// MaxObjectNumber is the largest object number a cross-reference section may assign
 // (the limit on the number of indirect objects in ISO 32000-1 Annex C).
-const maxObjectNumber = 8388607
+const MaxObjectNumber = 8388607
 
 func isSpaceByte(b byte) bool {
 	return b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0
@@ -458,7 +458,7 @@ func scanXRefTable(section []byte) ([]XRefEntry, int) {
 		}
 		third, _, end3 := next(end2)
 		if third == "n" || third == "f" {
-			if objNum >= 0 && objNum <= maxObjectNumber {
+			if objNum >= 0 && objNum <= MaxObjectNumber {
 				entries = append(entries, XRefEntry{ObjectNum: objNum, Generation: b, Offset: a, InUse: third == "n"})
 				objNum++
 			}
@@ -601,7 +601,7 @@ func (d *xrefStreamData) each(f func(objNum, typ int, field2, field3 int64)) {
 			if d.w1 > 0 {
 				typ = int(field(entry[:d.w1]))
 			}
-			if sub.first+i > maxObjectNumber {
+			if sub.first+i > MaxObjectNumber {
 				break
 			}
 			f(sub.first+i, typ, field(entry[d.w1:d.w1+d.w2]), field(entry[d.w1+d.w2:]))
diff --git a/core/parse/syntax.go b/core/parse/syntax.go
index cc0e0b3..4647b40 100644
--- a/core/parse/syntax.go
+++ b/core/parse/syntax.go
@@ -187,3 +187,36 @@ func ReplaceReferences(object []byte, replace func(objNum int) string) []byte {
 		}
 	}
 }
+
+// CatalogValue returns the value that a path of keys leads to from the document catalog,
+// following indirect references; nil if there is none.
+func (p *PDF) CatalogValue(path ...string) []byte {
+	if p.trailer == nil {
+		return nil
+	}
+	value := p.resolve([]byte(p.trailer.RootRef))
+	for _, key := range path {
+		value = p.resolve(DictValue(value, key))
+	}
+	return value
+}
+
+// resolve returns the value an indirect reference leads to; other values are returned as they are.
+func (p *PDF) resolve(value []byte) []byte {
+	for depth := 0; depth < 10; depth++ {
+		m := refPattern.FindIndex(value)
+		if m == nil || m[1] != len(value) {
+			return value
+		}
+		objNum, err := strconv.Atoi(string(bytes.Fields(value)[0]))
+		if err != nil {
+			return nil
+		}
+		object, err := p.GetObject(objNum)
+		if err != nil {
+			return nil
+		}
+		value = bytes.TrimSpace(ObjectContent(object))
+	}
+	return nil
+}
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index c61467d..24057ec 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -7,7 +7,6 @@ import (
 	"log"
 	"regexp"
 	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -100,6 +99,12 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 
 	// Find trailer info
 	rootObjNum, infoObjNum, encryptObjNum, fileID := parseTrailerInfo(originalPDF)
+	if pdf, err := parse.Open(originalPDF); err == nil && pdf.Trailer() != nil {
+		// The trailer of the latest revision
+		rootObjNum, infoObjNum = 0, 0
+		fmt.Sscan(pdf.Trailer().RootRef, &rootObjNum)
+		fmt.Sscan(pdf.Trailer().InfoRef, &infoObjNum)
+	}
 
 	if b.verbose {
 		log.Printf("Trailer: Root=%d, Info=%d, Encrypt=%d", rootObjNum, infoObjNum, encryptObjNum)
@@ -128,6 +133,7 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 				if obj.Dict == nil {
 					obj.Dict = make(Dictionary)
 				}
+				delete(obj.Dict, "DecodeParms")
 				obj.Dict["Filter"] = "/FlateDecode"
 				obj.Dict["Length"] = len(obj.Stream)
 
@@ -166,6 +172,28 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[int]*PDFObject, error) {
 	objects := make(map[int]*PDFObject)
 
+	if pdf, err := parse.Open(pdfBytes); err == nil && encryptInfo == nil && !pdf.IsEncrypted() {
+		for _, objNum := range pdf.Objects() {
+			object, err := pdf.GetObject(objNum)
+			if err != nil {
+				if verbose {
+					log.Printf("Warning: failed to get object %d: %v", objNum, err)
+				}
+				continue
+			}
+			if t := string(parse.DictValue(object, "/Type")); t == "/XRef" || t == "/ObjStm" {
+				continue // file structure: the writer makes its own
+			}
+			obj := &PDFObject{Number: objNum, Content: parse.ObjectContent(object)}
+			if data, err := pdf.StreamRawContent(objNum); err == nil {
+				obj.Stream = append([]byte{}, data...)
+				obj.Dict = parseDictionary(object)
+			}
+			objects[objNum] = obj
+		}
+		return objects, nil
+	}
+
 	// First, parse direct objects (those with "N G obj" pattern)
 	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
 	matches := objPattern.FindAllSubmatchIndex(pdfBytes, -1)
@@ -176,6 +204,9 @@ func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose
 
 		objNum, _ := strconv.Atoi(objNumStr)
 		genNum, _ := strconv.Atoi(genNumStr)
+		if objNum > parse.MaxObjectNumber {
+			continue
+		}
 
 		// Find endobj
 		objStart := match[1] // After "obj"
@@ -293,42 +324,36 @@ func findStartXRef(pdfBytes []byte) int64 {
 func parseDictionary(data []byte) Dictionary {
 	dict := make(Dictionary)
 
-	// Simple parsing - extract key-value pairs
-	s := string(data)
-
-	// Remove << and >>
-	s = strings.TrimPrefix(strings.TrimSpace(s), "<<")
-	s = strings.TrimSuffix(strings.TrimSpace(s), ">>")
-
-	// Find /Key Value pairs
-	keyPattern := regexp.MustCompile(`/(\w+)\s*`)
-	matches := keyPattern.FindAllStringSubmatchIndex(s, -1)
-
-	for i, match := range matches {
-		key := s[match[2]:match[3]]
-
-		// Value is from end of key to start of next key (or end)
-		valueStart := match[1]
-		var valueEnd int
-		if i+1 < len(matches) {
-			valueEnd = matches[i+1][0]
-		} else {
-			valueEnd = len(s)
+	// The values are kept as they are written
+	p, end, ok := parse.DictSpan(data)
+	if !ok {
+		return dict
+	}
+	data = data[:end]
+	for {
+		keyStart, keyEnd, ok := parse.ScanToken(data, p)
+		if !ok || data[keyStart] != '/' {
+			return dict
 		}
-
-		value := strings.TrimSpace(s[valueStart:valueEnd])
+		start, end, ok := parse.ScanValue(data, keyEnd)
+		if !ok {
+			return dict
+		}
+		key, value := string(data[keyStart+1:keyEnd]), string(data[start:end])
+		p = end
 
 		// Parse value type
 		if num, err := strconv.Atoi(value); err == nil {
 			dict[key] = num
 		} else {
-			dict[key] = value
+			dict[key] = rawValue(value)
 		}
 	}
-
-	return dict
 }
 
+// rawValue is a value that is written as it is
+type rawValue string
+
 // parseTrailerInfo extracts trailer references
 func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID []byte) {
 	pdfStr := string(pdfBytes)
@@ -364,6 +389,12 @@ func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID
 func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]int, error) {
 	result := make(map[string]int)
 
+	if pdf, err := parse.Open(pdfBytes); err == nil && encryptInfo == nil && pdf.Trailer() != nil {
+		if xfa := pdf.CatalogValue("/AcroForm", "/XFA"); xfa != nil {
+			return parseXFAArrayContent(string(xfa))
+		}
+	}
+
 	// First find AcroForm reference
 	pdfStr := string(pdfBytes)
 	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+\d+\s+R`)
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index dc62dfc..3221690 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/flate"
 	"compress/zlib"
+	"encoding/xml"
 	"fmt"
 	"io"
 	"log"
@@ -130,7 +131,17 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 	var acroFormObjNum int
 	var err error
 
-	if acroFormMatch != nil {
+	// An unencrypted document is read through its cross-reference tables
+	var pdf *parse.PDF
+	if encryptInfo == nil {
+		if opened, openErr := parse.Open(pdfBytes); openErr == nil {
+			pdf = opened
+		}
+	}
+
+	if pdf != nil {
+		acroFormObjNum = 0
+	} else if acroFormMatch != nil {
 		// AcroForm is an indirect reference
 		acroFormObjNum, err = strconv.Atoi(pdfStr[acroFormMatch[2]:acroFormMatch[3]])
 		if err != nil {
@@ -153,7 +164,12 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 
 	// Find and decrypt AcroForm object to get XFA array using PyPDF approach
 	var xfaArrayContent string
-	if acroFormObjNum > 0 {
+	if pdf != nil {
+		xfaArrayContent = string(pdf.CatalogValue("/AcroForm", "/XFA"))
+		if xfaArrayContent == "" {
+			return nil, fmt.Errorf("XFA entry not found")
+		}
+	} else if acroFormObjNum > 0 {
 		// Use new GetObject function that handles both direct objects and object streams
 		// This is the equivalent of PyPDF's get_object() method
 		decryptedContent, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
@@ -248,7 +264,12 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 		}
 
 		// Extract stream data from the object
-		streamData, err := extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
+		var streamData []byte
+		if pdf != nil {
+			streamData, err = pdf.StreamContent(objNum)
+		} else {
+			streamData, err = extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
+		}
 		if err != nil {
 			if verbose {
 				log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
@@ -423,6 +444,21 @@ func BuildPDFFromXFAStreams(streams *XFAStreams, verbose bool) ([]byte, error) {
 		})
 	}
 
+	if streams.Signature != nil && len(streams.Signature.Data) > 0 {
+		xfaStreams = append(xfaStreams, write.XFAStreamData{
+			Name:     "signature",
+			Data:     streams.Signature.Data,
+			Compress: true,
+		})
+	}
+	if streams.SourceSet != nil && len(streams.SourceSet.Data) > 0 {
+		xfaStreams = append(xfaStreams, write.XFAStreamData{
+			Name:     "sourceSet",
+			Data:     streams.SourceSet.Data,
+			Compress: true,
+		})
+	}
+
 	builder := write.NewXFABuilder(verbose)
 	return builder.BuildFromXFA(xfaStreams)
 }
@@ -456,6 +492,11 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		return nil, fmt.Errorf("error updating XFA values: %v", err)
 	}
 
+	if pdf, openErr := parse.Open(pdfBytes); openErr == nil && encryptInfo == nil && !pdf.IsEncrypted() {
+		// Rebuild the document with the new stream
+		return write.NewXFABuilder(verbose).BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, nil)
+	}
+
 	// Re-compress if it was compressed
 	updatedStream := []byte(updatedXML)
 	if wasCompressed {
@@ -514,7 +555,7 @@ func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool)
 
 	for fieldName, newValue := range formData {
 		// Find field in XFA XML
-		fieldPattern := fmt.Sprintf(`<field name="%s"`, fieldName)
+		fieldPattern := fmt.Sprintf(`<field name="%s"`, escapeXML(fieldName))
 		fieldIndex := strings.Index(resultXML, fieldPattern)
 
 		if fieldIndex == -1 {
@@ -536,7 +577,7 @@ func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool)
 		valueStart := strings.Index(fieldSection, "<value>")
 		valueEnd := strings.Index(fieldSection, "</value>")
 
-		valueStr := fmt.Sprintf("%v", newValue)
+		valueStr := escapeXML(fmt.Sprintf("%v", newValue))
 
 		if valueStart != -1 && valueEnd != -1 {
 			// Replace existing value
@@ -557,3 +598,12 @@ func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool)
 
 	return resultXML, nil
 }
+
+// escapeXML escapes text for use in XML element content and attribute values
+func escapeXML(text string) string {
+	var buf bytes.Buffer
+	if err := xml.EscapeText(&buf, []byte(text)); err != nil {
+		return text
+	}
+	return buf.String()
+}
diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 473a443..740f5d5 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -123,7 +125,7 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 						datasets.Groups = append(datasets.Groups, *currentGroup)
 						currentGroup = nil
 					}
-					inGroup = false
+					inGroup = currentGroup != nil
 				}
 			}
 
@@ -148,20 +150,20 @@ func parseFieldValue(value string) interface{} {
 	}
 
 	// Try boolean
-	if value == "true" || value == "1" {
+	if value == "true" {
 		return true
 	}
-	if value == "false" || value == "0" {
+	if value == "false" {
 		return false
 	}
 
 	// Try integer
-	if intVal, err := strconv.Atoi(value); err == nil {
+	if intVal, err := strconv.Atoi(value); err == nil && formatFieldValue(intVal) == value {
 		return intVal
 	}
 
 	// Try float
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	if floatVal, err := strconv.ParseFloat(value, 64); err == nil && formatFieldValue(floatVal) == value && !math.IsInf(floatVal, 0) && !math.IsNaN(floatVal) {
 		return floatVal
 	}
 
@@ -186,7 +188,8 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	}
 
 	// Encode top-level fields
-	for name, value := range datasets.Fields {
+	for _, name := range sortedFieldNames(datasets.Fields) {
+		value := datasets.Fields[name]
 		if err := encodeField(enc, name, value); err != nil {
 			return "", fmt.Errorf("failed to encode field %s: %v", name, err)
 		}
@@ -259,7 +262,8 @@ func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
 	}
 
 	// Encode fields in group
-	for name, value := range group.Fields {
+	for _, name := range sortedFieldNames(group.Fields) {
+		value := group.Fields[name]
 		if err := encodeField(enc, name, value); err != nil {
 			return err
 		}
@@ -279,6 +283,16 @@ func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
 	return nil
 }
 
+// sortedFieldNames returns the names of fields in order, so that output does not depend on map order
+func sortedFieldNames(fields map[string]interface{}) []string {
+	names := make([]string, 0, len(fields))
+	for name := range fields {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // formatFieldValue formats a value as a string for XML
 func formatFieldValue(value interface{}) string {
 	if value == nil {
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 3881dcc..5f3dd16 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -909,7 +909,8 @@ func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, ver
 	beforeLength := pdfBytes[:lengthStart]
 	betweenLengthAndStream := pdfBytes[lengthEnd:streamStart]
 
-	result := append(beforeLength, []byte(newLength)...)
+	result := append([]byte{}, beforeLength...) // the caller's bytes stay as they are
+	result = append(result, []byte(newLength)...)
 	result = append(result, betweenLengthAndStream...)
 	result = append(result, newStream...)
 	result = append(result, afterStream...)
-- 
2.43.0


From 0b794901f40c6108989d9925772f1fd39b963fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 14/73] fix: encryption follows the standard security handler,
 strings are encrypted and decrypted

Encryption dictionaries are read by syntax from the newest trailer, passwords
are padded with the standard padding string, the owner key of revisions 3 and 4
uses 20 RC4 passes, owner passwords of AES-256 documents are verified, RC4
documents are written encrypted, and rewriting an encrypted document keeps its
file identifier. Malformed key lengths are rejected instead of panicking.
---
 core/encrypt/decrypt.go         | 262 ++++++++++++++++----------
 core/encrypt/key_derivation.go  | 174 ++++++++----------
 core/encrypt/parser.go          | 316 ++++++++++----------------------
 core/internal/lex/lex.go        | 298 ++++++++++++++++++++++++++++++
 core/manipulate/manipulate.go   |   8 +-
 core/parse/api.go               |  72 +++++++-
 core/parse/get_object.go        |  71 ++-----
 core/parse/incremental.go       |   3 +
 core/parse/lexical.go           | 139 +-------------
 core/parse/syntax.go            |  11 ++
 core/write/encryption_helper.go |   1 +
 core/write/writer.go            | 134 +++++---------
 core/write/xfa_builder.go       |  15 +-
 forms/xfa/xfa.go                |  12 +-
 types/types.go                  |   3 +
 15 files changed, 813 insertions(+), 706 deletions(-)
 create mode 100644 core/internal/lex/lex.go

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index cbb5758..514b57e 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -5,9 +5,11 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/md5"
+	"crypto/rand"
 	"crypto/rc4"
 	"log"
 
+	"github.com/benedoc-inc/pdfer/core/internal/lex"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -28,6 +30,23 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 	// Extract file ID from PDF trailer (needed for key derivation and U value computation)
 	fileID := ExtractFileID(pdfBytes, verbose)
 
+	if err := Authenticate(password, encrypt, fileID, verbose); err != nil {
+		return nil, nil, err
+	}
+
+	// Decrypt PDF objects
+	decryptedPDF, err := DecryptPDFObjects(pdfBytes, encrypt, verbose)
+	if err != nil {
+		return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error decrypting PDF objects", err)
+	}
+
+	return decryptedPDF, encrypt, nil
+}
+
+// Authenticate verifies a user or owner password and sets the encryption key it gives access to
+func Authenticate(password []byte, encrypt *types.PDFEncryption, fileID []byte, verbose bool) error {
+	var err error
+
 	// For V5/R5/R6, we need to unwrap the encryption key from /UE
 	var encryptKey []byte
 
@@ -35,7 +54,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		// V5: Derive password key, verify U value, then unwrap actual encryption key from /UE
 		passwordKey, err := DeriveEncryptionKey(password, encrypt, fileID, verbose)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error deriving password key", err)
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error deriving password key", err)
 		}
 
 		if verbose {
@@ -45,7 +64,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		// Step 1: Verify U value to confirm password is correct
 		uMatch, err := VerifyUValueV5(password, passwordKey, encrypt, fileID, verbose)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error verifying U value", err)
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error verifying U value", err)
 		}
 
 		if !uMatch {
@@ -54,17 +73,14 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 				log.Printf("User password U value verification failed, trying owner password...")
 			}
 			ownerPasswordKey, err2 := DeriveOwnerKeyV5(password, encrypt, fileID, verbose)
-			if err2 == nil {
-				// For owner password, we need to verify differently
-				// Owner password verification involves unwrapping /OE and checking if it works
+			if err2 == nil && verifyOValueV5(password, ownerPasswordKey, encrypt) {
 				ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
 				if err2 == nil {
-					// If unwrapping succeeded, owner password is correct
 					// The unwrapped owner key is the user encryption key
 					encryptKey = ownerKey
 					encrypt.EncryptKey = encryptKey
 					if verbose {
-						log.Printf("Owner password verified via /OE unwrapping")
+						log.Printf("Owner password verified")
 						log.Printf("Unwrapped encryption key (length: %d)", len(encryptKey))
 					}
 					uMatch = true
@@ -73,14 +89,14 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		}
 
 		if !uMatch {
-			return nil, nil, types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
+			return types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
 		}
 
 		// Step 2: Unwrap the actual encryption key from /UE (only if user password was used)
 		if encryptKey == nil {
 			unwrappedKey, err := UnwrapUserKeyV5(passwordKey, encrypt, verbose)
 			if err != nil {
-				return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error unwrapping encryption key from /UE", err)
+				return types.WrapError(types.ErrCodeDecryptionFailed, "error unwrapping encryption key from /UE", err)
 			}
 
 			encryptKey = unwrappedKey
@@ -97,7 +113,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		// V1-V4: Standard key derivation
 		encryptKey, err = DeriveEncryptionKey(password, encrypt, fileID, verbose)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error deriving encryption key", err)
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error deriving encryption key", err)
 		}
 
 		encrypt.EncryptKey = encryptKey
@@ -109,7 +125,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		// Verify password by checking U value
 		uValue, err := ComputeUValue(encryptKey, encrypt, fileID, verbose)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error computing U value", err)
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error computing U value", err)
 		}
 
 		// Compare with stored U value
@@ -162,7 +178,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		}
 
 		if !uMatch {
-			return nil, nil, types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
+			return types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
 		}
 	}
 
@@ -170,13 +186,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		log.Printf("Password verified successfully")
 	}
 
-	// Decrypt PDF objects
-	decryptedPDF, err := DecryptPDFObjects(pdfBytes, encrypt, verbose)
-	if err != nil {
-		return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error decrypting PDF objects", err)
-	}
-
-	return decryptedPDF, encrypt, nil
+	return nil
 }
 
 // DecryptPDFObjects decrypts all encrypted objects in the PDF
@@ -195,110 +205,172 @@ func DecryptPDFObjects(pdfBytes []byte, encrypt *types.PDFEncryption, verbose bo
 	return pdfBytes, nil
 }
 
-// DecryptObject decrypts a single PDF object or stream
+// DecryptObject decrypts a single string or stream
 // Algorithm 1 from ISO 32000-1:2008
-// Implementation copied EXACTLY from PyPDF's _make_crypt_filter (lines 914-935) and CryptAES.decrypt (lines 73-88)
 func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
-	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
-		// Not encrypted
+	if encrypt == nil {
 		return objBytes, nil
 	}
+	return decryptData(objBytes, objNum, genNum, encrypt, encrypt.StreamMethod)
+}
 
-	// PyPDF line 914: pack1 = struct.pack("<i", idnum)[:3]
-	// struct.pack("<i", idnum) packs as little-endian int32 (4 bytes)
-	// [:3] takes first 3 bytes (low-order bytes)
-	pack1 := make([]byte, 3)
-	pack1[0] = byte(objNum & 0xff)
-	pack1[1] = byte((objNum >> 8) & 0xff)
-	pack1[2] = byte((objNum >> 16) & 0xff)
-
-	// PyPDF line 915: pack2 = struct.pack("<i", generation)[:2]
-	pack2 := make([]byte, 2)
-	pack2[0] = byte(genNum & 0xff)
-	pack2[1] = byte((genNum >> 8) & 0xff)
-
-	// PyPDF line 919: n = 5 if self.V == 1 else self.Length // 8
-	n := 5
-	if encrypt.V > 1 {
-		n = encrypt.KeyLength // KeyLength is already in bytes (converted from bits in parser)
+// DecryptStrings decrypts the strings in an object that is not in an object stream
+func DecryptStrings(obj []byte, objNum, genNum int, encrypt *types.PDFEncryption) []byte {
+	if encrypt == nil || len(encrypt.EncryptKey) == 0 || objNum == encrypt.DictObjNum {
+		return obj
 	}
+	return lex.MapStrings(obj, func(value []byte) ([]byte, bool) {
+		decrypted, err := decryptData(value, objNum, genNum, encrypt, encrypt.StringMethod)
+		return decrypted, err == nil
+	}, lex.FormatString)
+}
 
-	// PyPDF line 918: key = self._key
-	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
-	keyData := make([]byte, n+5)
-	copy(keyData, encrypt.EncryptKey[:n]) // CRITICAL: Use only first n bytes!
-	copy(keyData[n:], pack1)
-	copy(keyData[n+3:], pack2)
-
-	// PyPDF line 921: key_hash = hashlib.md5(key_data)
-	keyHash := md5.New()
-	keyHash.Write(keyData)
-
-	// Decrypt based on encryption algorithm
-	if encrypt.V == 1 || encrypt.V == 2 {
-		// RC4 encryption
-		// PyPDF line 922: rc4_key = key_hash.digest()[: min(n + 5, 16)]
-		rc4KeyHash := keyHash.Sum(nil)
-		rc4Key := rc4KeyHash[:min(n+5, 16)]
-
-		cipher, err := rc4.NewCipher(rc4Key)
+// EncryptObject encrypts a single string or stream, the inverse of DecryptObject
+func EncryptObject(data []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	if encrypt == nil {
+		return data, nil
+	}
+	return encryptData(data, objNum, genNum, encrypt, encrypt.StreamMethod)
+}
+
+// EncryptStrings encrypts the strings in an object, the inverse of DecryptStrings
+func EncryptStrings(obj []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	if encrypt == nil || len(encrypt.EncryptKey) == 0 || objNum == encrypt.DictObjNum {
+		return obj, nil
+	}
+	var failed error
+	result := lex.MapStrings(obj, func(value []byte) ([]byte, bool) {
+		encrypted, err := encryptData(value, objNum, genNum, encrypt, encrypt.StringMethod)
 		if err != nil {
-			return nil, err
-		}
-		decrypted := make([]byte, len(objBytes))
-		cipher.XORKeyStream(decrypted, objBytes)
-		return decrypted, nil
-	} else if encrypt.V == 4 || encrypt.V == 5 {
-		// AES encryption (AES-128 or AES-256)
-		// PyPDF line 925: key_hash.update(b"sAlT")
-		// PyPDF line 926: aes128_key = key_hash.digest()[: min(n + 5, 16)]
-		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
-		aesKeyHash := keyHash.Sum(nil)
-		aesKeyLen := min(n+5, 16)
-		aesKey := aesKeyHash[:aesKeyLen]
-
-		// PyPDF CryptAES.decrypt (lines 73-88):
-		// Line 74: iv = data[:16]
-		// Line 75: data = data[16:]
-		if len(objBytes) < 16 {
-			return objBytes, types.NewPDFErrorf(types.ErrCodeStreamError, "AES: buffer length < 16 (%d)", len(objBytes)).WithContext("length", len(objBytes))
+			failed = err
 		}
+		return encrypted, err == nil
+	}, lex.FormatHexString)
+	return result, failed
+}
+
+// method returns the method for an encryption dictionary whose crypt filter has the given one
+func method(encrypt *types.PDFEncryption, filterMethod string) string {
+	switch {
+	case encrypt.V == 1 || encrypt.V == 2:
+		return "V2"
+	case filterMethod != "":
+		return filterMethod
+	case encrypt.V == 4 || encrypt.V == 5:
+		return "AESV2"
+	}
+	return "None"
+}
+
+// objectKey derives the key for an object's strings and stream (Algorithm 1)
+func objectKey(objNum, genNum int, encrypt *types.PDFEncryption, aesKey bool) ([]byte, error) {
+	n := encrypt.KeyLength // KeyLength is in bytes
+	if encrypt.V == 1 || n == 0 {
+		n = 5
+	}
+	if n < 0 || n > len(encrypt.EncryptKey) {
+		return nil, types.NewPDFErrorf(types.ErrCodeDecryptionFailed, "encryption key has %d bytes, need %d", len(encrypt.EncryptKey), n)
+	}
+	hash := md5.New()
+	hash.Write(encrypt.EncryptKey[:n])
+	hash.Write([]byte{byte(objNum), byte(objNum >> 8), byte(objNum >> 16), byte(genNum), byte(genNum >> 8)})
+	if aesKey {
+		hash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
+	}
+	return hash.Sum(nil)[:min(n+5, 16)], nil
+}
 
-		iv := objBytes[:16]
-		data := objBytes[16:]
+func decryptData(data []byte, objNum, genNum int, encrypt *types.PDFEncryption, filterMethod string) ([]byte, error) {
+	if len(encrypt.EncryptKey) == 0 {
+		// Not encrypted
+		return data, nil
+	}
 
-		// Line 77-78: if not data: return data
+	switch method(encrypt, filterMethod) {
+	case "V2":
+		return cryptRC4(data, objNum, genNum, encrypt)
+	case "AESV2":
+		aesKey, err := objectKey(objNum, genNum, encrypt, true)
+		if err != nil {
+			return nil, err
+		}
+
+		// The initialization vector comes first
+		if len(data) < 16 {
+			return data, types.NewPDFErrorf(types.ErrCodeStreamError, "AES: buffer length < 16 (%d)", len(data)).WithContext("length", len(data))
+		}
+		iv := data[:16]
+		data = data[16:]
 		if len(data) == 0 {
 			return data, nil
 		}
-
-		// Line 81-83: if len(data) % 16 != 0: pad it (robustness check)
 		if len(data)%16 != 0 {
 			return data, types.NewPDFErrorf(types.ErrCodeStreamError, "AES buffer length not multiple of 16 (%d)", len(data)).WithContext("length", len(data))
 		}
 
-		// Line 85-87: cipher = Cipher(self.alg, CBC(iv)); decryptor = cipher.decryptor(); d = decryptor.update(data) + decryptor.finalize()
 		block, err := aes.NewCipher(aesKey)
 		if err != nil {
 			return nil, err
 		}
-
-		mode := cipher.NewCBCDecrypter(block, iv)
 		decrypted := make([]byte, len(data))
-		mode.CryptBlocks(decrypted, data)
+		cipher.NewCBCDecrypter(block, iv).CryptBlocks(decrypted, data)
 
-		// Line 88: return d[: -d[-1]]  (remove PKCS#7 padding)
-		if len(decrypted) == 0 {
-			return decrypted, nil
+		// Remove PKCS#7 padding
+		paddingLen := int(decrypted[len(decrypted)-1])
+		if paddingLen == 0 || paddingLen > 16 {
+			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d", paddingLen).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
 		}
+		return decrypted[:len(decrypted)-paddingLen], nil
+	}
 
-		paddingLen := int(decrypted[len(decrypted)-1])
-		if paddingLen > len(decrypted) {
-			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d > %d", paddingLen, len(decrypted)).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
+	return data, nil
+}
+
+func encryptData(data []byte, objNum, genNum int, encrypt *types.PDFEncryption, filterMethod string) ([]byte, error) {
+	if len(encrypt.EncryptKey) == 0 {
+		return data, nil
+	}
+
+	switch method(encrypt, filterMethod) {
+	case "V2":
+		return cryptRC4(data, objNum, genNum, encrypt)
+	case "AESV2":
+		aesKey, err := objectKey(objNum, genNum, encrypt, true)
+		if err != nil {
+			return nil, err
+		}
+		block, err := aes.NewCipher(aesKey)
+		if err != nil {
+			return nil, err
 		}
 
-		return decrypted[:len(decrypted)-paddingLen], nil
+		// Random IV, then the data with PKCS#7 padding
+		padLen := 16 - (len(data) % 16)
+		result := make([]byte, 16+len(data)+padLen)
+		if _, err := rand.Read(result[:16]); err != nil {
+			return nil, err
+		}
+		n := 16 + copy(result[16:], data)
+		for i := n; i < len(result); i++ {
+			result[i] = byte(padLen)
+		}
+		cipher.NewCBCEncrypter(block, result[:16]).CryptBlocks(result[16:], result[16:])
+		return result, nil
 	}
 
-	return objBytes, nil
+	return data, nil
+}
+
+func cryptRC4(data []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	key, err := objectKey(objNum, genNum, encrypt, false)
+	if err != nil {
+		return nil, err
+	}
+	cipher, err := rc4.NewCipher(key)
+	if err != nil {
+		return nil, err
+	}
+	result := make([]byte, len(data))
+	cipher.XORKeyStream(result, data)
+	return result, nil
 }
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bbbb6cb..2e4dc53 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -13,9 +13,26 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/internal/lex"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// passwordPadding completes passwords to 32 bytes (ISO 32000-1 Algorithm 2)
+var passwordPadding = []byte{
+	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
+	0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
+	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
+	0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
+}
+
+// padPassword pads or truncates a password to 32 bytes
+func padPassword(password []byte) []byte {
+	padded := make([]byte, 32)
+	n := copy(padded, password)
+	copy(padded[n:], passwordPadding)
+	return padded
+}
+
 // DeriveEncryptionKey derives the encryption key from password
 // Based on PDF encryption algorithm (ISO 32000) - Algorithm 2 (V1-V4) or 7.6.4.3.3 (V5+)
 func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID []byte, verbose bool) ([]byte, error) {
@@ -23,31 +40,13 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
-	// Pad or truncate password to 32 bytes
-	// According to PDF spec Algorithm 2:
-	// - If password is shorter than 32 bytes, pad by appending bytes from the password cyclically
-	// - For empty password, the padding string itself is used
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedPassword := make([]byte, 32)
-	if len(password) == 0 {
-		// Empty password: use padding string directly
-		copy(paddedPassword, paddingString)
-	} else {
-		copy(paddedPassword, password)
-		if len(password) < 32 {
-			// Pad with password bytes cyclically
-			for i := len(password); i < 32; i++ {
-				paddedPassword[i] = password[i%len(password)]
-			}
-		}
+	if encrypt.KeyLength < 0 || encrypt.KeyLength > maxKeyLength(encrypt.R) {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
 	}
 
+	// Pad or truncate password to 32 bytes
+	paddedPassword := padPassword(password)
+
 	// Step 1: Compute hash of padded password + O + P (as 32-bit int, little-endian) + ID[0]
 	hash := md5.New()
 	hash.Write(paddedPassword)
@@ -71,8 +70,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		}
 	}
 
-	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
-	if !encrypt.EncryptMetadata {
+	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF (revision 4)
+	if encrypt.R >= 4 && !encrypt.EncryptMetadata {
 		metadataBytes := []byte{0xFF, 0xFF, 0xFF, 0xFF}
 		hash.Write(metadataBytes)
 		if verbose {
@@ -201,27 +200,13 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
-	// Pad owner password to 32 bytes
-	paddingString := []byte{
-		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
-		0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
-		0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80,
-		0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
-	}
-
-	paddedOwnerPassword := make([]byte, 32)
-	if len(ownerPassword) > 0 {
-		copy(paddedOwnerPassword, ownerPassword)
-		if len(ownerPassword) < 32 {
-			for i := len(ownerPassword); i < 32; i++ {
-				paddedOwnerPassword[i] = ownerPassword[i%len(ownerPassword)]
-			}
-		}
-	} else {
-		// Empty password - use padding string
-		copy(paddedOwnerPassword, paddingString)
+	if encrypt.KeyLength < 0 || encrypt.KeyLength > maxKeyLength(encrypt.R) {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
 	}
 
+	// Pad owner password to 32 bytes
+	paddedOwnerPassword := padPassword(ownerPassword)
+
 	// MD5 hash of padded owner password
 	hash := md5.New()
 	hash.Write(paddedOwnerPassword)
@@ -231,7 +216,7 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
-			hash.Write(ownerHash[:encrypt.KeyLength])
+			hash.Write(ownerHash)
 			ownerHash = hash.Sum(nil)
 		}
 	}
@@ -251,12 +236,19 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 		}
 		cipher.XORKeyStream(decryptedO, encrypt.O)
 	} else {
-		// Revision 3+: decrypt O with RC4, then use it to derive user key
-		cipher, err := rc4.NewCipher(ownerHash)
-		if err != nil {
-			return nil, err
+		// Revision 3+: O was encrypted 20 times, with the key XORed with 0 to 19
+		copy(decryptedO, encrypt.O)
+		for i := 19; i >= 0; i-- {
+			key := make([]byte, len(ownerHash))
+			for j := range ownerHash {
+				key[j] = ownerHash[j] ^ byte(i)
+			}
+			cipher, err := rc4.NewCipher(key)
+			if err != nil {
+				return nil, err
+			}
+			cipher.XORKeyStream(decryptedO, decryptedO)
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O[:min(32, len(encrypt.O))])
 	}
 
 	// Now derive user key from decrypted O (which is the user password hash)
@@ -273,62 +265,28 @@ func DeriveUserKeyFromOwner(ownerKey []byte, encrypt *types.PDFEncryption, verbo
 	return ownerKey, nil
 }
 
+var fileIDPattern = regexp.MustCompile(`/ID\s*\[`)
+
 // ExtractFileID extracts the file ID from PDF trailer
 // Returns the first element of the ID array (ID[0])
 // File ID can be in hex format: <7FB157EB...> or binary: (binary data)
 func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
-	pdfStr := string(pdfBytes)
-
-	// Find /ID in trailer - format: /ID [ <hex1> <hex2> ] or /ID [ (binary1) (binary2) ]
-	// Try hex format first: /ID[<hex><hex>] or /ID [<hex><hex>]
-	hexIDPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	hexMatch := hexIDPattern.FindStringSubmatch(pdfStr)
-	if hexMatch != nil {
-		// Decode hex string
-		hexStr := hexMatch[1]
-		fileID := parseHexString(hexStr)
-		if len(fileID) > 0 {
-			if verbose {
-				log.Printf("Extracted file ID[0] (hex): %d bytes, hex: %x", len(fileID), fileID)
-			}
-			return fileID
+	// Find /ID in the trailer: the last one in the file that holds a string
+	matches := fileIDPattern.FindAllIndex(pdfBytes, -1)
+	for i := len(matches) - 1; i >= 0; i-- {
+		at := lex.SkipSpace(pdfBytes, matches[i][1])
+		end := lex.ScanToken(pdfBytes, at)
+		if end == -1 {
+			continue
 		}
-	}
-
-	// Try alternative pattern without space: /ID[<hex>
-	hexIDPattern2 := regexp.MustCompile(`/ID\[<([0-9A-Fa-f]+)>`)
-	hexMatch2 := hexIDPattern2.FindStringSubmatch(pdfStr)
-	if hexMatch2 != nil {
-		hexStr := hexMatch2[1]
-		fileID := parseHexString(hexStr)
-		if len(fileID) > 0 {
+		if fileID, ok := lex.StringValue(pdfBytes[at:end]); ok && len(fileID) > 0 {
 			if verbose {
-				log.Printf("Extracted file ID[0] (hex, alt pattern): %d bytes, hex: %x", len(fileID), fileID)
+				log.Printf("Extracted file ID[0]: %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
 			}
 			return fileID
 		}
 	}
 
-	// Try binary format: /ID [ (binary1) (binary2) ]
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*\(`)
-	match := idPattern.FindStringIndex(pdfStr)
-	if match != nil {
-		// Find the first binary string in parentheses
-		idStart := match[1] - 1 // Position of '('
-		parenStart := bytes.Index(pdfBytes[idStart:], []byte("("))
-		if parenStart != -1 {
-			parenStart += idStart + 1
-			parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-			if parenEnd != -1 {
-				fileID := pdfBytes[parenStart : parenStart+parenEnd]
-				if verbose {
-					log.Printf("Extracted file ID[0] (binary): %d bytes, hex: %x", len(fileID), fileID[:min(16, len(fileID))])
-				}
-				return fileID
-			}
-		}
-	}
-
 	if verbose {
 		log.Printf("No file ID found in trailer")
 	}
@@ -437,7 +395,7 @@ func UnwrapUserKeyV5(passwordKey []byte, encrypt *types.PDFEncryption, verbose b
 	}
 
 	paddingLen := int(decrypted[len(decrypted)-1])
-	if paddingLen > len(decrypted) || paddingLen > 16 {
+	if paddingLen == 0 || paddingLen > len(decrypted) || paddingLen > 16 {
 		return nil, fmt.Errorf("invalid padding length: %d", paddingLen)
 	}
 
@@ -484,7 +442,7 @@ func UnwrapOwnerKeyV5(ownerPasswordKey []byte, encrypt *types.PDFEncryption, ver
 	}
 
 	paddingLen := int(decrypted[len(decrypted)-1])
-	if paddingLen > len(decrypted) || paddingLen > 16 {
+	if paddingLen == 0 || paddingLen > len(decrypted) || paddingLen > 16 {
 		return nil, fmt.Errorf("invalid padding length: %d", paddingLen)
 	}
 
@@ -597,3 +555,25 @@ func VerifyUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncry
 
 	return match, nil
 }
+
+// verifyOValueV5 verifies an owner password against the stored O value: a validation salt (8
+// bytes), the encrypted hash (32 bytes) of password, salt and U value, and a key salt (8 bytes)
+func verifyOValueV5(ownerPassword, ownerPasswordKey []byte, encrypt *types.PDFEncryption) bool {
+	if len(encrypt.O) < 48 || len(ownerPasswordKey) < 16 {
+		return false
+	}
+	hash := sha256.New()
+	hash.Write(ownerPassword)
+	hash.Write(encrypt.O[:8])
+	hash.Write(encrypt.U)
+	hashed := hash.Sum(nil)
+
+	block, err := aes.NewCipher(ownerPasswordKey[:16])
+	if err != nil {
+		return false
+	}
+	encrypted := make([]byte, 32)
+	block.Encrypt(encrypted[:16], hashed[:16])
+	block.Encrypt(encrypted[16:], hashed[16:])
+	return bytes.Equal(encrypted, encrypt.O[8:40])
+}
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 648ec59..69fce42 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -6,128 +6,82 @@ import (
 	"log"
 	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/internal/lex"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+var encryptPattern = regexp.MustCompile(`/Encrypt\s*(?:(\d+)\s+(\d+)\s+R\b|<<)`)
+
 // ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
 func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find /Encrypt reference in trailer
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
-	encryptMatch := encryptPattern.FindStringSubmatchIndex(pdfStr)
-
-	var encryptObjNum int
-	var err error
-
-	if encryptMatch == nil {
+	// Find /Encrypt in the trailer: the last one in the file
+	matches := encryptPattern.FindAllSubmatchIndex(pdfBytes, -1)
+	if len(matches) == 0 {
 		return nil, fmt.Errorf("/Encrypt dictionary not found")
 	}
+	match := matches[len(matches)-1]
+	if match[2] == -1 {
+		return ParseEncryptionDict(pdfBytes[match[1]-2:], 0, verbose)
+	}
 
-	encryptObjNum, err = strconv.Atoi(pdfStr[encryptMatch[2]:encryptMatch[3]])
+	encryptObjNum, err := strconv.Atoi(string(pdfBytes[match[2]:match[3]]))
 	if err != nil {
 		return nil, fmt.Errorf("invalid Encrypt object number: %v", err)
 	}
-
 	if verbose {
 		log.Printf("Found /Encrypt dictionary: object %d", encryptObjNum)
 	}
 
 	// Find the Encrypt object
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", encryptObjNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex == -1 {
+	objPattern := regexp.MustCompile(fmt.Sprintf(`(?:^|[^0-9])%d\s+%s\s+obj`, encryptObjNum, pdfBytes[match[4]:match[5]]))
+	obj := objPattern.FindIndex(pdfBytes)
+	if obj == nil {
 		return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
 	}
+	return ParseEncryptionDict(pdfBytes[obj[1]:], encryptObjNum, verbose)
+}
 
-	// Find dictionary content - need to handle nested dictionaries
-	dictStart := bytes.Index(pdfBytes[objIndex:], []byte("<<"))
-	if dictStart == -1 {
+// ParseEncryptionDict parses the encryption dictionary dict starts with. objNum is the number of
+// the object that holds it, 0 if it is a direct object.
+func ParseEncryptionDict(dict []byte, objNum int, verbose bool) (*types.PDFEncryption, error) {
+	dict = dict[lex.SkipSpace(dict, 0):]
+	if !bytes.HasPrefix(dict, []byte("<<")) {
 		return nil, fmt.Errorf("Encrypt dictionary start not found")
 	}
-	dictStart += objIndex
-
-	// Find matching >> (handle nested dictionaries)
-	depth := 0
-	dictEnd := dictStart
-	for i := dictStart; i < len(pdfBytes) && i < dictStart+2000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				dictEnd = i + 2
-				break
-			}
-			i++ // Skip second '>'
-		}
-	}
-
-	if dictEnd == dictStart {
+	end := lex.ScanToken(dict, 0)
+	if end == -1 {
 		return nil, fmt.Errorf("Encrypt dictionary end not found")
 	}
-
-	dictContent := pdfStr[dictStart:dictEnd]
-
 	if verbose {
-		log.Printf("Encrypt dictionary content (first 200 chars): %s", dictContent[:min(200, len(dictContent))])
+		log.Printf("Encrypt dictionary content (first 200 chars): %s", dict[:min(200, end)])
 	}
-
-	encrypt := &types.PDFEncryption{}
-
-	// Parse /Filter
-	filterPattern := regexp.MustCompile(`/Filter\s+/(\w+)`)
-	if match := filterPattern.FindStringSubmatch(dictContent); match != nil {
-		encrypt.Filter = match[1]
+	entries := lex.DictEntries(dict)
+	number := func(key string) int {
+		n, _ := strconv.Atoi(string(entries[key]))
+		return n
 	}
-
-	// Parse /V (encryption version) - must be at top level, not in nested dicts
-	vPattern := regexp.MustCompile(`/V\s+(\d+)`)
-	matches := vPattern.FindAllStringSubmatch(dictContent, -1)
-	// Take the first match that's not inside a nested dictionary structure
-	for _, match := range matches {
-		// Check if it's at top level (simple heuristic: not immediately after /CF or /StdCF)
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// If we see /CF or /StdCF before this, it's nested - skip
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.V, _ = strconv.Atoi(match[1])
-			break
+	str := func(key string) []byte {
+		value, ok := lex.StringValue(entries[key])
+		if ok && verbose {
+			log.Printf("Extracted %s value: %d bytes", key[1:], len(value))
 		}
+		return value
 	}
 
-	// Parse /R (revision) - must be at top level
-	rPattern := regexp.MustCompile(`/R\s+(\d+)`)
-	matches = rPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.R, _ = strconv.Atoi(match[1])
-			break
-		}
+	encrypt := &types.PDFEncryption{
+		Filter:          nameValue(entries["/Filter"]),
+		V:               number("/V"),
+		R:               number("/R"),
+		O:               str("/O"),
+		U:               str("/U"),
+		EncryptMetadata: string(entries["/EncryptMetadata"]) != "false",
+		DictObjNum:      objNum,
 	}
 
-	// Parse /Length (key length in bits) - look for top-level /Length
-	// Note: There may be nested /Length in /CF dictionaries, we want the top-level one
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	matches = lengthPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// Top-level /Length should not be inside /CF
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") {
-			keyBits, _ := strconv.Atoi(match[1])
-			if keyBits > 0 {
-				encrypt.KeyLength = keyBits / 8
-				break
-			}
-		}
+	// Parse /Length (key length in bits)
+	if keyBits := number("/Length"); keyBits > 0 {
+		encrypt.KeyLength = keyBits / 8
 	}
 
 	// Set defaults if not found
@@ -137,153 +91,71 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	if encrypt.R == 0 {
 		encrypt.R = 4 // Default revision
 	}
+	if encrypt.V == 1 {
+		encrypt.KeyLength = 5 // always 40 bits
+	}
 	if encrypt.KeyLength == 0 {
-		// Default key length based on revision
-		if encrypt.R == 2 {
-			encrypt.KeyLength = 5 // 40 bits
-		} else if encrypt.R >= 5 {
+		// Default key length
+		if encrypt.R >= 5 {
 			encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
+		} else if encrypt.V < 4 {
+			encrypt.KeyLength = 5 // 40 bits
 		} else {
 			encrypt.KeyLength = 16 // 128 bits for AES-128 (V4/R4)
 		}
 	}
-
-	// Parse /O (owner password hash) - binary data in parentheses or hex string
-	// Try hex format first: /O <hex>
-	oHexPattern := regexp.MustCompile(`/O\s*<([0-9A-Fa-f]+)>`)
-	oHexMatch := oHexPattern.FindStringSubmatch(dictContent)
-	if oHexMatch != nil {
-		hexStr := oHexMatch[1]
-		encrypt.O = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted O value (hex): %d bytes", len(encrypt.O))
-		}
-	} else {
-		// Try binary format: /O (binary)
-		oPattern := regexp.MustCompile(`/O\s*\(`)
-		oMatch := oPattern.FindStringIndex(dictContent)
-		if oMatch != nil {
-			oStartInDict := dictStart + oMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[oStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += oStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.O = make([]byte, parenEnd)
-					copy(encrypt.O, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted O value (binary): %d bytes", len(encrypt.O))
-					}
-				}
-			}
-		}
+	if limit := maxKeyLength(encrypt.R); encrypt.KeyLength > limit {
+		return nil, fmt.Errorf("key length of %d bytes exceeds %d for revision %d", encrypt.KeyLength, limit, encrypt.R)
 	}
 
-	// Parse /U (user password hash) - binary data in parentheses or hex string
-	// Try hex format first: /U <hex>
-	uHexPattern := regexp.MustCompile(`/U\s*<([0-9A-Fa-f]+)>`)
-	uHexMatch := uHexPattern.FindStringSubmatch(dictContent)
-	if uHexMatch != nil {
-		hexStr := uHexMatch[1]
-		encrypt.U = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted U value (hex): %d bytes", len(encrypt.U))
-		}
-	} else {
-		// Try binary format: /U (binary)
-		uPattern := regexp.MustCompile(`/U\s*\(`)
-		uMatch := uPattern.FindStringIndex(dictContent)
-		if uMatch != nil {
-			uStartInDict := dictStart + uMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[uStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += uStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.U = make([]byte, parenEnd)
-					copy(encrypt.U, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted U value (binary): %d bytes", len(encrypt.U))
-					}
-				}
-			}
-		}
+	// Parse /P (permissions): a 32-bit integer, which some writers store unsigned
+	if p, err := strconv.ParseInt(string(entries["/P"]), 10, 64); err == nil {
+		encrypt.P = int32(p)
 	}
 
-	// Parse /P (permissions)
-	pPattern := regexp.MustCompile(`/P\s+(-?\d+)`)
-	if match := pPattern.FindStringSubmatch(dictContent); match != nil {
-		pVal, _ := strconv.ParseInt(match[1], 10, 32)
-		encrypt.P = int32(pVal)
+	// Crypt filters (V4)
+	if encrypt.V == 4 {
+		encrypt.StreamMethod = cryptFilterMethod(entries, "/StmF")
+		encrypt.StringMethod = cryptFilterMethod(entries, "/StrF")
 	}
 
-	// Parse /EncryptMetadata
-	if strings.Contains(dictContent, "/EncryptMetadata false") {
-		encrypt.EncryptMetadata = false
-	} else {
-		encrypt.EncryptMetadata = true
+	// Parse /UE and /OE (encrypted encryption keys) - V5+ only
+	if encrypt.R >= 5 {
+		encrypt.UE = str("/UE")
+		encrypt.OE = str("/OE")
 	}
 
-	// Parse /UE (encrypted user encryption key) - V5+ only
-	// Format: /UE <hex> or /UE (binary)
-	if encrypt.R >= 5 {
-		ueHexPattern := regexp.MustCompile(`/UE\s*<([0-9A-Fa-f]+)>`)
-		ueHexMatch := ueHexPattern.FindStringSubmatch(dictContent)
-		if ueHexMatch != nil {
-			hexStr := ueHexMatch[1]
-			encrypt.UE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted UE value (hex): %d bytes", len(encrypt.UE))
-			}
-		} else {
-			uePattern := regexp.MustCompile(`/UE\s*\(`)
-			ueMatch := uePattern.FindStringIndex(dictContent)
-			if ueMatch != nil {
-				ueStartInDict := dictStart + ueMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[ueStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += ueStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.UE = make([]byte, parenEnd)
-						copy(encrypt.UE, pdfBytes[parenStart:parenStart+parenEnd])
-						if verbose {
-							log.Printf("Extracted UE value (binary): %d bytes", len(encrypt.UE))
-						}
-					}
-				}
-			}
-		}
+	return encrypt, nil
+}
 
-		// Parse /OE (encrypted owner encryption key) - V5+ only
-		oeHexPattern := regexp.MustCompile(`/OE\s*<([0-9A-Fa-f]+)>`)
-		oeHexMatch := oeHexPattern.FindStringSubmatch(dictContent)
-		if oeHexMatch != nil {
-			hexStr := oeHexMatch[1]
-			encrypt.OE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted OE value (hex): %d bytes", len(encrypt.OE))
-			}
-		} else {
-			oePattern := regexp.MustCompile(`/OE\s*\(`)
-			oeMatch := oePattern.FindStringIndex(dictContent)
-			if oeMatch != nil {
-				oeStartInDict := dictStart + oeMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[oeStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += oeStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[oeStartInDict:oeStartInDict+parenEnd])
-						if verbose {
-							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
-						}
-					}
-				}
-			}
-		}
+// maxKeyLength is the length in bytes of the longest key a revision can have
+func maxKeyLength(r int) int {
+	if r >= 5 {
+		return 32
 	}
+	return 16
+}
 
-	return encrypt, nil
+func nameValue(token []byte) string {
+	if len(token) > 0 && token[0] == '/' {
+		return string(token[1:])
+	}
+	return ""
+}
+
+// cryptFilterMethod returns the method of the crypt filter an entry (/StmF or /StrF) names.
+// Dictionaries without crypt filters use AES.
+func cryptFilterMethod(entries map[string][]byte, key string) string {
+	filters, ok := entries["/CF"]
+	if !ok {
+		return "AESV2"
+	}
+	name, ok := entries[key]
+	if !ok || string(name) == "/Identity" {
+		return "None"
+	}
+	if method := nameValue(lex.DictEntries(lex.DictEntries(filters)[string(name)])["/CFM"]); method != "" {
+		return method
+	}
+	return "None"
 }
diff --git a/core/internal/lex/lex.go b/core/internal/lex/lex.go
new file mode 100644
index 0000000..3be3ed8
--- /dev/null
+++ b/core/internal/lex/lex.go
@@ -0,0 +1,298 @@
+// Package lex holds the lexical conventions of PDF syntax shared by the core packages.
+package lex
+
+import (
+	"bytes"
+	"fmt"
+	"regexp"
+)
+
+// maxNesting bounds how deeply nested containers are followed while scanning.
+const maxNesting = 500
+
+// RefPattern matches an indirect reference at the start of a value.
+var RefPattern = regexp.MustCompile(`^\d+\s+\d+\s+R\b`)
+
+// IsSpace tells white-space characters.
+func IsSpace(b byte) bool {
+	return b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0
+}
+
+// IsDelimiter tells delimiter characters.
+func IsDelimiter(b byte) bool {
+	switch b {
+	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
+		return true
+	}
+	return false
+}
+
+// SkipSpace skips white space and comments starting at p.
+func SkipSpace(b []byte, p int) int {
+	for p < len(b) {
+		if IsSpace(b[p]) {
+			p++
+			continue
+		}
+		if b[p] == '%' {
+			for p < len(b) && b[p] != '\n' && b[p] != '\r' {
+				p++
+			}
+			continue
+		}
+		break
+	}
+	return p
+}
+
+// ScanToken returns the end of the token, string, array or dictionary that starts at p,
+// or -1 if it is not terminated.
+func ScanToken(b []byte, p int) int { return scanTokenDepth(b, p, 0) }
+
+func scanTokenDepth(b []byte, p int, depth int) int {
+	if p >= len(b) || depth > maxNesting {
+		return -1
+	}
+	switch {
+	case b[p] == '(':
+		level := 0
+		for i := p; i < len(b); i++ {
+			switch b[i] {
+			case '\\':
+				i++
+			case '(':
+				level++
+			case ')':
+				level--
+				if level == 0 {
+					return i + 1
+				}
+			}
+		}
+		return -1
+	case b[p] == '<' && p+1 < len(b) && b[p+1] == '<', b[p] == '[':
+		closer := []byte(">>")
+		i := p + 2
+		if b[p] == '[' {
+			closer, i = []byte("]"), p+1
+		}
+		for {
+			i = SkipSpace(b, i)
+			if i >= len(b) {
+				return -1
+			}
+			if bytes.HasPrefix(b[i:], closer) {
+				return i + len(closer)
+			}
+			end := scanTokenDepth(b, i, depth+1)
+			if end <= i {
+				return -1
+			}
+			if end-i == 6 && string(b[i:end]) == "endobj" {
+				return -1
+			}
+			i = end
+		}
+	case b[p] == '<':
+		idx := bytes.IndexByte(b[p:], '>')
+		if idx == -1 {
+			return -1
+		}
+		return p + idx + 1
+	case b[p] == '/':
+		p++
+		for p < len(b) && !IsSpace(b[p]) && !IsDelimiter(b[p]) {
+			p++
+		}
+		return p
+	case IsDelimiter(b[p]):
+		return p + 1
+	}
+	for p < len(b) && !IsSpace(b[p]) && !IsDelimiter(b[p]) {
+		p++
+	}
+	return p
+}
+
+// DictEntries returns the raw values of the top-level keys of the dictionary that starts at b[0].
+func DictEntries(b []byte) map[string][]byte {
+	entries := make(map[string][]byte)
+	if !bytes.HasPrefix(b, []byte("<<")) {
+		return entries
+	}
+	p := 2
+	for {
+		p = SkipSpace(b, p)
+		if p >= len(b) || b[p] == '>' {
+			return entries
+		}
+		end := ScanToken(b, p)
+		if end == -1 {
+			return entries
+		}
+		if b[p] != '/' {
+			p = end
+			continue
+		}
+		key := string(b[p:end])
+		start := SkipSpace(b, end)
+		if start >= len(b) || b[start] == '>' {
+			return entries
+		}
+		valEnd := ScanToken(b, start)
+		if valEnd == -1 {
+			return entries
+		}
+		if m := RefPattern.FindIndex(b[start:min(len(b), start+40)]); m != nil {
+			valEnd = start + m[1]
+		}
+		entries[key] = b[start:valEnd]
+		p = valEnd
+	}
+}
+
+// StringValue returns the bytes of a literal or hexadecimal string token.
+func StringValue(token []byte) ([]byte, bool) {
+	switch {
+	case len(token) >= 2 && token[0] == '(' && token[len(token)-1] == ')':
+		return literalValue(token[1 : len(token)-1]), true
+	case len(token) >= 2 && token[0] == '<' && token[1] != '<' && token[len(token)-1] == '>':
+		return hexValue(token[1 : len(token)-1]), true
+	}
+	return nil, false
+}
+
+func literalValue(s []byte) []byte {
+	out := make([]byte, 0, len(s))
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if c == '\r' { // an end of line reads as a line feed
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+			out = append(out, '\n')
+			continue
+		}
+		if c != '\\' {
+			out = append(out, c)
+			continue
+		}
+		i++
+		if i >= len(s) {
+			break
+		}
+		switch c = s[i]; c {
+		case 'n':
+			out = append(out, '\n')
+		case 'r':
+			out = append(out, '\r')
+		case 't':
+			out = append(out, '\t')
+		case 'b':
+			out = append(out, '\b')
+		case 'f':
+			out = append(out, '\f')
+		case '\n':
+		case '\r':
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			v := 0
+			j := i
+			for ; j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7'; j++ {
+				v = v*8 + int(s[j]-'0')
+			}
+			i = j - 1
+			out = append(out, byte(v))
+		default:
+			out = append(out, c)
+		}
+	}
+	return out
+}
+
+func hexValue(s []byte) []byte {
+	out := make([]byte, 0, len(s)/2+1)
+	half := -1
+	for _, c := range s {
+		var v int
+		switch {
+		case c >= '0' && c <= '9':
+			v = int(c - '0')
+		case c >= 'a' && c <= 'f':
+			v = int(c-'a') + 10
+		case c >= 'A' && c <= 'F':
+			v = int(c-'A') + 10
+		default:
+			continue
+		}
+		if half < 0 {
+			half = v
+			continue
+		}
+		out = append(out, byte(half<<4|v))
+		half = -1
+	}
+	if half >= 0 {
+		out = append(out, byte(half<<4))
+	}
+	return out
+}
+
+// FormatString writes bytes as a literal string.
+func FormatString(s []byte) []byte {
+	var buf bytes.Buffer
+	buf.WriteByte('(')
+	for _, c := range s {
+		switch c {
+		case '(', ')', '\\':
+			buf.WriteByte('\\')
+			buf.WriteByte(c)
+		case '\r':
+			buf.WriteString(`\r`)
+		case '\n':
+			buf.WriteString(`\n`)
+		default:
+			buf.WriteByte(c)
+		}
+	}
+	buf.WriteByte(')')
+	return buf.Bytes()
+}
+
+// FormatHexString writes bytes as a hexadecimal string.
+func FormatHexString(s []byte) []byte {
+	return []byte(fmt.Sprintf("<%X>", s))
+}
+
+// MapStrings replaces every string in a piece of PDF syntax, however deeply nested, by what f
+// returns for its bytes, written with format. Everything else stays as it is; a string for
+// which f returns false stays as well.
+func MapStrings(b []byte, f func([]byte) ([]byte, bool), format func([]byte) []byte) []byte {
+	var out []byte
+	last := 0
+	for p := SkipSpace(b, 0); p < len(b); p = SkipSpace(b, p) {
+		switch {
+		case bytes.HasPrefix(b[p:], []byte("<<")), bytes.HasPrefix(b[p:], []byte(">>")):
+			p += 2
+			continue
+		case b[p] == '[' || b[p] == ']':
+			p++
+			continue
+		}
+		end := ScanToken(b, p)
+		if end <= p {
+			break
+		}
+		if value, ok := StringValue(b[p:end]); ok {
+			if mapped, ok := f(value); ok {
+				out = append(out, b[last:p]...)
+				out = append(out, format(mapped)...)
+				last = end
+			}
+		}
+		p = end
+	}
+	return append(out, b[last:]...)
+}
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 2a830e4..58c6ea4 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -41,6 +41,9 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
+		if t := string(parse.DictValue(obj, "/Type")); t == "/XRef" || t == "/ObjStm" {
+			continue // file structure: the writer makes its own
+		}
 		objects[objNum] = parse.ObjectContent(obj)
 	}
 
@@ -84,7 +87,7 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 			m.writer.SetInfo(infoObjNum)
 		}
 	}
-	if trailer.EncryptRef != "" {
+	if m.pdf.IsEncrypted() && trailer.EncryptRef != "" {
 		encryptObjNum, err := parseObjectRef(trailer.EncryptRef)
 		if err == nil {
 			m.writer.SetEncryptRef(encryptObjNum)
@@ -93,7 +96,8 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 
 	// Set encryption if present
 	if m.pdf.IsEncrypted() {
-		m.writer.SetEncryption(m.pdf.Encryption(), nil) // fileID will be regenerated
+		// The encryption key depends on the file identifier
+		m.writer.SetEncryption(m.pdf.Encryption(), m.pdf.FileID())
 	}
 
 	return m.writer.Bytes()
diff --git a/core/parse/api.go b/core/parse/api.go
index 7ba5f98..87cfb51 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -28,7 +28,10 @@
 package parse
 
 import (
+	"bytes"
+	"fmt"
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/internal/lex"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -38,6 +41,7 @@ type ParseOptions struct {
 	Verbose     bool                    // Enable verbose logging
 	BytePerfect bool                    // Preserve exact bytes for reconstruction
 	Warnings    *types.WarningCollector // Optional warning collector for non-fatal issues
+	Encryption  *types.PDFEncryption    // Encryption info from an earlier authentication, instead of a password
 }
 
 // PDF represents a parsed PDF document.
@@ -47,6 +51,7 @@ type PDF struct {
 	doc        *PDFDocument         // Populated when BytePerfect is true
 	xref       *XRef                // Unified cross-reference data
 	encryption *types.PDFEncryption // Encryption info (nil if unencrypted)
+	fileID     []byte               // First file identifier (of encrypted documents)
 	trailer    *TrailerInfo         // Parsed trailer information
 	opts       ParseOptions
 }
@@ -116,25 +121,71 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 
 // handleEncryption checks for encryption and validates password
 func (p *PDF) handleEncryption() error {
-	// Try to parse encryption dictionary
-	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
-	if err != nil {
-		// No encryption or parse error - assume unencrypted
-		return nil
+	// The trailer of the newest revision decides whether the document is encrypted
+	enc, fileID, found := p.findEncryption()
+	if !found {
+		var err error
+		if enc, err = encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose); err != nil {
+			// No encryption or parse error - assume unencrypted
+			return nil
+		}
+		fileID = encrypt.ExtractFileID(p.raw, p.opts.Verbose)
 	}
 
 	if enc != nil {
 		// PDF is encrypted - validate password
-		_, validatedEnc, err := encrypt.DecryptPDF(p.raw, p.opts.Password, p.opts.Verbose)
-		if err != nil {
+		if p.opts.Encryption != nil && len(p.opts.Encryption.EncryptKey) > 0 {
+			enc = p.opts.Encryption
+		} else if err := encrypt.Authenticate(p.opts.Password, enc, fileID, p.opts.Verbose); err != nil {
 			return types.WrapError(types.ErrCodeWrongPassword, "decryption failed (wrong password?)", err)
 		}
-		p.encryption = validatedEnc
+		p.encryption, p.fileID = enc, fileID
 	}
 
 	return nil
 }
 
+// findEncryption reads the encryption dictionary and the file identifier the newest trailer
+// names. found is false if the cross-reference sections cannot be read.
+func (p *PDF) findEncryption() (enc *types.PDFEncryption, fileID []byte, found bool) {
+	incParser := newIncrementalParser(p.raw, false)
+	if err := incParser.parse(); err != nil || len(incParser.sections) == 0 {
+		return nil, nil, false
+	}
+	section := incParser.sections[len(incParser.sections)-1]
+	if section.Root == "" {
+		return nil, nil, false
+	}
+	if section.encrypt == nil {
+		return nil, nil, true
+	}
+
+	dict, objNum := section.encrypt, 0
+	if section.Encrypt != "" {
+		fmt.Sscan(section.Encrypt, &objNum)
+		offset, ok := incParser.mergedObjs[objNum]
+		if !ok || offset < 0 || offset >= int64(len(p.raw)) {
+			return nil, nil, false
+		}
+		object := p.raw[offset:]
+		header := objectHeaderPattern.FindIndex(object[:min(64, len(object))])
+		if header == nil {
+			return nil, nil, false
+		}
+		dict = object[header[1]:]
+	}
+	enc, err := encrypt.ParseEncryptionDict(dict, objNum, p.opts.Verbose)
+	if err != nil {
+		return nil, nil, false
+	}
+	if bytes.HasPrefix(section.fileID, []byte("[")) {
+		if start, end, ok := ScanToken(section.fileID, 1); ok {
+			fileID, _ = lex.StringValue(section.fileID[start:end])
+		}
+	}
+	return enc, fileID, true
+}
+
 // parseBytePerfect parses preserving all raw bytes
 func (p *PDF) parseBytePerfect() error {
 	doc, err := ParsePDFDocument(p.raw)
@@ -345,6 +396,11 @@ func (p *PDF) IsEncrypted() bool {
 	return p.encryption != nil
 }
 
+// FileID returns the first file identifier of an encrypted document
+func (p *PDF) FileID() []byte {
+	return p.fileID
+}
+
 // Encryption returns encryption info (nil if unencrypted)
 func (p *PDF) Encryption() *types.PDFEncryption {
 	return p.encryption
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cded852..f5d1bd1 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -232,18 +232,8 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
-			// Get /Length from dictionary for exact stream data size
 			dictPart := content[:streamStart]
-			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)(?:\s+\d+\s+R\b)?`)
-			lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-			var streamLength int
-			if lengthMatch != nil {
-				streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-			}
-
-			// Find actual stream data (after "stream\r\n" or "stream\n")
-			streamDataStart := streamStart + 6
+			streamDataStart := streamStart + len("stream")
 			// Skip exactly one EOL per PDF spec
 			if streamDataStart < len(content) && content[streamDataStart] == '\r' {
 				streamDataStart++
@@ -251,56 +241,31 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			if streamDataStart < len(content) && content[streamDataStart] == '\n' {
 				streamDataStart++
 			}
-
-			// Use /Length if available, otherwise find endstream
-			var streamData []byte
+			streamData := content[min(streamDataStart, endstreamPos):endstreamPos]
 			if scanned {
 				streamData = objData[span.StreamStart:span.StreamEnd]
-			} else if streamLength > 0 && streamDataStart+streamLength <= len(content) {
-				streamData = content[streamDataStart : streamDataStart+streamLength]
-			} else {
-				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
-				if streamDataEnd == -1 {
-					streamDataEnd = len(content) - streamDataStart
-				}
-				streamData = content[streamDataStart : streamDataStart+streamDataEnd]
-			}
-
-			if verbose {
-				log.Printf("Decrypting stream: %d bytes (from /Length %d), objNum=%d, genNum=%d", len(streamData), streamLength, objNum, genNum)
 			}
-			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
-			if err == nil {
-				if verbose {
-					log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
-				}
-				// Update /Length in the dictionary to reflect decrypted size
-				newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-				dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
-
-				// Reconstruct content with updated dictionary and decrypted stream
-				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
-				newContent = append(newContent, dictPart...)
-				newContent = append(newContent, []byte("stream\n")...)
-				newContent = append(newContent, decryptedStream...)
-				newContent = append(newContent, []byte("\nendstream")...)
-				content = newContent
 
-				if verbose {
-					log.Printf("Reconstructed content: %d bytes, new dict: %s", len(content), string(dictPart[:min(100, len(dictPart))]))
+			// Cross-reference streams are not encrypted, nor is the metadata of some documents
+			typ := string(DictValue(dictPart, "/Type"))
+			if typ != "/XRef" && (typ != "/Metadata" || encryptInfo.EncryptMetadata) {
+				decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
+				if err == nil {
+					// Update /Length in the dictionary to reflect decrypted size
+					dictPart = encrypt.DecryptStrings(dictPart, objNum, genNum, encryptInfo)
+					if start, end, ok := DictValueSpan(dictPart, "/Length"); ok {
+						newLength := []byte(fmt.Sprintf(" %d", len(decryptedStream)))
+						dictPart = bytes.Join([][]byte{dictPart[:start], dictPart[end:]}, newLength)
+					}
+					content = bytes.Join([][]byte{dictPart, []byte("stream\n"), decryptedStream, []byte("\nendstream")}, nil)
+				} else if verbose {
+					log.Printf("Decryption failed: %v", err)
 				}
-			} else if verbose {
-				log.Printf("Decryption failed: %v", err)
 			}
 		}
 	} else if encryptInfo != nil {
-		// Not a stream - decrypt string values in dictionary
-		// For now, just decrypt the entire content (simplified approach)
-		// TODO: Parse dictionary properly and decrypt only string values
-		decrypted, err := encrypt.DecryptObject(content, objNum, genNum, encryptInfo)
-		if err == nil {
-			content = decrypted
-		}
+		// Not a stream - decrypt the strings
+		content = encrypt.DecryptStrings(content, objNum, genNum, encryptInfo)
 	}
 
 	// Reconstruct full object
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index acedb17..90f0046 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -19,6 +19,8 @@ type xrefSection struct {
 	Root      string                    // /Root reference from trailer
 	Info      string                    // /Info reference from trailer
 	Encrypt   string                    // /Encrypt reference from trailer
+	encrypt   []byte                    // value of /Encrypt in the trailer: a reference or a dictionary
+	fileID    []byte                    // value of /ID in the trailer
 	Size      int                       // /Size from trailer
 }
 
@@ -325,6 +327,7 @@ func (s *xrefSection) readTrailer(entries map[string][]byte) {
 	s.Root = entryRef(entries, "/Root")
 	s.Info = entryRef(entries, "/Info")
 	s.Encrypt = entryRef(entries, "/Encrypt")
+	s.encrypt, s.fileID = entries["/Encrypt"], entries["/ID"]
 	if prev, ok := entryInt(entries, "/Prev"); ok {
 		s.Prev = int64(prev)
 	}
diff --git a/core/parse/lexical.go b/core/parse/lexical.go
index 583ae1c..b589059 100644
--- a/core/parse/lexical.go
+++ b/core/parse/lexical.go
@@ -8,153 +8,30 @@ import (
 	"io"
 	"regexp"
 	"strconv"
-)
 
-// maxNesting bounds how deeply nested containers are followed while scanning.
-const maxNesting = 500
+	"github.com/benedoc-inc/pdfer/core/internal/lex"
+)
 
 // MaxObjectNumber is the largest object number a cross-reference section may assign
 // (the limit on the number of indirect objects in ISO 32000-1 Annex C).
 const MaxObjectNumber = 8388607
 
-func isSpaceByte(b byte) bool {
-	return b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0
-}
+func isSpaceByte(b byte) bool { return lex.IsSpace(b) }
 
-func isDelimiter(b byte) bool {
-	switch b {
-	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
-		return true
-	}
-	return false
-}
+func isDelimiter(b byte) bool { return lex.IsDelimiter(b) }
 
 // skipSpace skips white space and comments starting at p.
-func skipSpace(b []byte, p int) int {
-	for p < len(b) {
-		if isSpaceByte(b[p]) {
-			p++
-			continue
-		}
-		if b[p] == '%' {
-			for p < len(b) && b[p] != '\n' && b[p] != '\r' {
-				p++
-			}
-			continue
-		}
-		break
-	}
-	return p
-}
+func skipSpace(b []byte, p int) int { return lex.SkipSpace(b, p) }
 
 // scanToken returns the end of the token, string, array or dictionary that starts at p,
 // or -1 if it is not terminated.
-func scanToken(b []byte, p int) int { return scanTokenDepth(b, p, 0) }
-
-func scanTokenDepth(b []byte, p int, depth int) int {
-	if p >= len(b) || depth > maxNesting {
-		return -1
-	}
-	switch {
-	case b[p] == '(':
-		level := 0
-		for i := p; i < len(b); i++ {
-			switch b[i] {
-			case '\\':
-				i++
-			case '(':
-				level++
-			case ')':
-				level--
-				if level == 0 {
-					return i + 1
-				}
-			}
-		}
-		return -1
-	case b[p] == '<' && p+1 < len(b) && b[p+1] == '<', b[p] == '[':
-		closer := []byte(">>")
-		i := p + 2
-		if b[p] == '[' {
-			closer, i = []byte("]"), p+1
-		}
-		for {
-			i = skipSpace(b, i)
-			if i >= len(b) {
-				return -1
-			}
-			if bytes.HasPrefix(b[i:], closer) {
-				return i + len(closer)
-			}
-			end := scanTokenDepth(b, i, depth+1)
-			if end <= i {
-				return -1
-			}
-			if end-i == 6 && string(b[i:end]) == "endobj" {
-				return -1
-			}
-			i = end
-		}
-	case b[p] == '<':
-		idx := bytes.IndexByte(b[p:], '>')
-		if idx == -1 {
-			return -1
-		}
-		return p + idx + 1
-	case b[p] == '/':
-		p++
-		for p < len(b) && !isSpaceByte(b[p]) && !isDelimiter(b[p]) {
-			p++
-		}
-		return p
-	case isDelimiter(b[p]):
-		return p + 1
-	}
-	for p < len(b) && !isSpaceByte(b[p]) && !isDelimiter(b[p]) {
-		p++
-	}
-	return p
-}
+func scanToken(b []byte, p int) int { return lex.ScanToken(b, p) }
 
 // dictEntries returns the raw values of the top-level keys of the dictionary that starts at b[0].
-func dictEntries(b []byte) map[string][]byte {
-	entries := make(map[string][]byte)
-	if !bytes.HasPrefix(b, []byte("<<")) {
-		return entries
-	}
-	p := 2
-	for {
-		p = skipSpace(b, p)
-		if p >= len(b) || b[p] == '>' {
-			return entries
-		}
-		end := scanToken(b, p)
-		if end == -1 {
-			return entries
-		}
-		if b[p] != '/' {
-			p = end
-			continue
-		}
-		key := string(b[p:end])
-		start := skipSpace(b, end)
-		if start >= len(b) || b[start] == '>' {
-			return entries
-		}
-		valEnd := scanToken(b, start)
-		if valEnd == -1 {
-			return entries
-		}
-		if m := refPattern.FindIndex(b[start:min(len(b), start+40)]); m != nil {
-			valEnd = start + m[1]
-		}
-		entries[key] = b[start:valEnd]
-		p = valEnd
-	}
-}
+func dictEntries(b []byte) map[string][]byte { return lex.DictEntries(b) }
 
 var (
-	refPattern          = regexp.MustCompile(`^\d+\s+\d+\s+R\b`)
+	refPattern          = lex.RefPattern
 	objectHeaderPattern = regexp.MustCompile(`^(\d+)\s+(\d+)\s+obj`)
 )
 
diff --git a/core/parse/syntax.go b/core/parse/syntax.go
index 4647b40..3bbe08a 100644
--- a/core/parse/syntax.go
+++ b/core/parse/syntax.go
@@ -220,3 +220,14 @@ func (p *PDF) resolve(value []byte) []byte {
 	}
 	return nil
 }
+
+// SplitStream splits the content of a stream object (without its "N G obj" header) into its
+// dictionary and its data. ok is false if it is not a stream object.
+func SplitStream(content []byte) (dict, data []byte, ok bool) {
+	object := bytes.Join([][]byte{[]byte("1 0 obj\n"), content, []byte("\nendobj")}, nil)
+	span, scanned := scanObject(object, object)
+	if !scanned || span.StreamKw == -1 {
+		return nil, nil, false
+	}
+	return object[span.Content:span.DictEnd], object[span.StreamStart:span.StreamEnd], true
+}
diff --git a/core/write/encryption_helper.go b/core/write/encryption_helper.go
index 87016ec..cefb20b 100644
--- a/core/write/encryption_helper.go
+++ b/core/write/encryption_helper.go
@@ -27,6 +27,7 @@ func (w *PDFWriter) SetupEncryptionWithPasswords(userPassword, ownerPassword []b
 	// Create encryption dictionary object
 	encryptDict := CreateEncryptionDictionary(encrypt)
 	encryptObjNum := w.AddObject(encryptDict)
+	encrypt.DictObjNum = encryptObjNum
 	w.SetEncryptRef(encryptObjNum)
 	w.SetEncryption(encrypt, w.fileID)
 
diff --git a/core/write/writer.go b/core/write/writer.go
index 654c1f4..771733f 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -4,10 +4,6 @@ package write
 import (
 	"bytes"
 	"compress/zlib"
-	"crypto/aes"
-	"crypto/cipher"
-	"crypto/md5"
-	"crypto/rand"
 	"fmt"
 	"io"
 	"regexp"
@@ -15,6 +11,8 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -287,33 +285,15 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		buf.WriteString(fmt.Sprintf("%d %d obj\n", objNum, obj.Generation))
 
 		// Write content
+		content, streamData, err := w.encryptObject(obj, objNum)
+		if err != nil {
+			return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
+		}
+		buf.Write(content)
 		if obj.Stream != nil {
-			// Stream object
-			content := w.formatDictionary(obj.Dict)
-
-			// Encrypt stream if needed
-			streamData := obj.Stream
-			if w.encryptInfo != nil {
-				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
-				if err == nil {
-					streamData = encrypted
-					// Update length in dictionary
-					obj.Dict["Length"] = len(streamData)
-					content = w.formatDictionary(obj.Dict)
-				}
-			}
-
-			buf.Write(content)
 			buf.WriteString("\nstream\n")
 			buf.Write(streamData)
 			buf.WriteString("\nendstream")
-		} else if obj.Content != nil {
-			// Encrypt content if needed (for non-stream objects like strings in dicts)
-			content := obj.Content
-			// Note: For non-stream objects, encryption is more complex
-			// (need to encrypt individual strings, not the whole object)
-			// For simplicity, we skip encryption of non-stream content here
-			buf.Write(content)
 		}
 
 		buf.WriteString("\nendobj\n")
@@ -510,71 +490,51 @@ func escapeName(name string) string {
 	return b.String()
 }
 
-// encryptStream encrypts stream data using the PDF's encryption settings
-func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
-	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
-		return data, nil
-	}
-
-	// Derive object-specific key (same as decrypt)
-	pack1 := []byte{byte(objNum & 0xff), byte((objNum >> 8) & 0xff), byte((objNum >> 16) & 0xff)}
-	pack2 := []byte{byte(genNum & 0xff), byte((genNum >> 8) & 0xff)}
-
-	n := w.encryptInfo.KeyLength
-	if n == 0 {
-		n = 5
-	}
-
-	keyData := make([]byte, n+5)
-	copy(keyData, w.encryptInfo.EncryptKey[:n])
-	copy(keyData[n:], pack1)
-	copy(keyData[n+3:], pack2)
-
-	keyHash := md5.New()
-	keyHash.Write(keyData)
-
-	// AES encryption
-	if w.encryptInfo.V == 4 || w.encryptInfo.V == 5 {
-		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
-		aesKeyHash := keyHash.Sum(nil)
-		aesKeyLen := min(n+5, 16)
-		aesKey := aesKeyHash[:aesKeyLen]
-
-		// Generate random IV
-		iv := make([]byte, 16)
-		if _, err := rand.Read(iv); err != nil {
-			return nil, err
-		}
-
-		// Pad data to multiple of 16 (PKCS#7)
-		padLen := 16 - (len(data) % 16)
-		padded := make([]byte, len(data)+padLen)
-		copy(padded, data)
-		for i := len(data); i < len(padded); i++ {
-			padded[i] = byte(padLen)
-		}
+// encryptObject returns what to write for an object: its content or stream dictionary, and its
+// stream data. Strings and stream data are encrypted if the document is.
+func (w *PDFWriter) encryptObject(obj *PDFObject, objNum int) (content, streamData []byte, err error) {
+	encrypted := w.encryptInfo != nil && len(w.encryptInfo.EncryptKey) > 0 &&
+		fmt.Sprintf("%d 0 R", objNum) != w.encryptRef
 
-		// Encrypt
-		block, err := aes.NewCipher(aesKey)
-		if err != nil {
-			return nil, err
+	if obj.Stream == nil {
+		if !encrypted {
+			return obj.Content, nil, nil
 		}
+		content, err = w.encryptContent(obj.Content, objNum, obj.Generation)
+		return content, nil, err
+	}
 
-		encrypted := make([]byte, len(padded))
-		mode := cipher.NewCBCEncrypter(block, iv)
-		mode.CryptBlocks(encrypted, padded)
-
-		// Prepend IV
-		result := make([]byte, 16+len(encrypted))
-		copy(result[:16], iv)
-		copy(result[16:], encrypted)
-
-		return result, nil
+	if !encrypted {
+		return w.formatDictionary(obj.Dict), obj.Stream, nil
 	}
+	streamData, err = encrypt.EncryptObject(obj.Stream, objNum, obj.Generation, w.encryptInfo)
+	if err != nil {
+		return nil, nil, err
+	}
+	dict := copyStreamDict(obj.Dict)
+	dict["Length"] = len(streamData)
+	content, err = encrypt.EncryptStrings(w.formatDictionary(dict), objNum, obj.Generation, w.encryptInfo)
+	return content, streamData, err
+}
 
-	// RC4 encryption (V1, V2)
-	// Not implemented for now
-	return data, nil
+// encryptContent encrypts the strings of an object given as raw content, and its stream data if
+// it is a complete stream object
+func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte, error) {
+	dict, data, isStream := parse.SplitStream(content)
+	if !isStream {
+		return encrypt.EncryptStrings(content, objNum, genNum, w.encryptInfo)
+	}
+	encrypted, err := encrypt.EncryptObject(data, objNum, genNum, w.encryptInfo)
+	if err != nil {
+		return nil, err
+	}
+	if start, end, ok := parse.DictValueSpan(dict, "/Length"); ok {
+		dict = bytes.Join([][]byte{dict[:start], dict[end:]}, []byte(fmt.Sprintf(" %d", len(encrypted))))
+	}
+	if dict, err = encrypt.EncryptStrings(dict, objNum, genNum, w.encryptInfo); err != nil {
+		return nil, err
+	}
+	return bytes.Join([][]byte{dict, []byte("\nstream\n"), encrypted, []byte("\nendstream")}, nil), nil
 }
 
 // Bytes returns the complete PDF as a byte slice
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 24057ec..292bcd6 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -99,11 +99,13 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 
 	// Find trailer info
 	rootObjNum, infoObjNum, encryptObjNum, fileID := parseTrailerInfo(originalPDF)
-	if pdf, err := parse.Open(originalPDF); err == nil && pdf.Trailer() != nil {
+	if pdf, err := openOriginal(originalPDF, encryptInfo); err == nil && pdf.Trailer() != nil {
 		// The trailer of the latest revision
-		rootObjNum, infoObjNum = 0, 0
+		rootObjNum, infoObjNum, encryptObjNum = 0, 0, 0
 		fmt.Sscan(pdf.Trailer().RootRef, &rootObjNum)
 		fmt.Sscan(pdf.Trailer().InfoRef, &infoObjNum)
+		fmt.Sscan(pdf.Trailer().EncryptRef, &encryptObjNum)
+		fileID = pdf.FileID()
 	}
 
 	if b.verbose {
@@ -168,11 +170,16 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 	return b.writer.Bytes()
 }
 
+// openOriginal opens a document whose password has been verified if it has one
+func openOriginal(pdfBytes []byte, encryptInfo *types.PDFEncryption) (*parse.PDF, error) {
+	return parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo})
+}
+
 // parseAllObjects parses all objects from a PDF including those in object streams
 func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[int]*PDFObject, error) {
 	objects := make(map[int]*PDFObject)
 
-	if pdf, err := parse.Open(pdfBytes); err == nil && encryptInfo == nil && !pdf.IsEncrypted() {
+	if pdf, err := openOriginal(pdfBytes, encryptInfo); err == nil {
 		for _, objNum := range pdf.Objects() {
 			object, err := pdf.GetObject(objNum)
 			if err != nil {
@@ -389,7 +396,7 @@ func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID
 func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]int, error) {
 	result := make(map[string]int)
 
-	if pdf, err := parse.Open(pdfBytes); err == nil && encryptInfo == nil && pdf.Trailer() != nil {
+	if pdf, err := openOriginal(pdfBytes, encryptInfo); err == nil && pdf.Trailer() != nil {
 		if xfa := pdf.CatalogValue("/AcroForm", "/XFA"); xfa != nil {
 			return parseXFAArrayContent(string(xfa))
 		}
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 3221690..462572b 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -131,12 +131,10 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 	var acroFormObjNum int
 	var err error
 
-	// An unencrypted document is read through its cross-reference tables
+	// A document is read through its cross-reference tables
 	var pdf *parse.PDF
-	if encryptInfo == nil {
-		if opened, openErr := parse.Open(pdfBytes); openErr == nil {
-			pdf = opened
-		}
+	if opened, openErr := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo}); openErr == nil {
+		pdf = opened
 	}
 
 	if pdf != nil {
@@ -492,9 +490,9 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		return nil, fmt.Errorf("error updating XFA values: %v", err)
 	}
 
-	if pdf, openErr := parse.Open(pdfBytes); openErr == nil && encryptInfo == nil && !pdf.IsEncrypted() {
+	if _, openErr := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo}); openErr == nil {
 		// Rebuild the document with the new stream
-		return write.NewXFABuilder(verbose).BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, nil)
+		return write.NewXFABuilder(verbose).BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, encryptInfo)
 	}
 
 	// Re-compress if it was compressed
diff --git a/types/types.go b/types/types.go
index 433b90f..51ff38a 100644
--- a/types/types.go
+++ b/types/types.go
@@ -16,6 +16,9 @@ type PDFEncryption struct {
 	P               int32  // Permissions
 	EncryptMetadata bool
 	EncryptKey      []byte // Master encryption key
+	StreamMethod    string // Method of the crypt filter for streams (V4): "V2", "AESV2" or "None"
+	StringMethod    string // Method of the crypt filter for strings (V4)
+	DictObjNum      int    // Object number of the encryption dictionary, 0 if it is a direct object
 }
 
 // FormData represents the data to fill into the form
-- 
2.43.0


From 84c135b4030731c6f8fd10ad787444f760aec742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 15/73] fix: embedded fonts use character codes for widths and
 Unicode mapping, check table bounds

---
 resources/font/font.go | 110 +++++++++++++------
 resources/font/pdf.go  | 243 +++++++++++++++++++++++++----------------
 2 files changed, 224 insertions(+), 129 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 29d0dae..2682b1d 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -8,6 +8,8 @@ import (
 	"io"
 	"sort"
 	"unicode"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // Font represents an embedded font with subsetting support
@@ -99,7 +101,7 @@ func ParseTTF(data []byte) (*TTF, error) {
 		tableOffset := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 		length := binary.BigEndian.Uint32(data[offset+12 : offset+16])
 
-		if int(tableOffset)+int(length) > len(data) {
+		if uint64(tableOffset)+uint64(length) > uint64(len(data)) {
 			return nil, fmt.Errorf("table %s extends beyond font data", tag)
 		}
 
@@ -108,7 +110,7 @@ func ParseTTF(data []byte) (*TTF, error) {
 			Checksum: checksum,
 			Offset:   tableOffset,
 			Length:   length,
-			Data:     data[tableOffset : tableOffset+length],
+			Data:     data[tableOffset : uint64(tableOffset)+uint64(length)],
 		}
 
 		offset += 16
@@ -205,21 +207,17 @@ func (ttf *TTF) parseName() error {
 
 		// We're interested in Unicode names (platform 3 or 0)
 		if (platformID == 3 || platformID == 0) && int(stringOffset)+int(startOffset)+int(length) <= len(name.Data) {
-			nameData := name.Data[stringOffset+startOffset : stringOffset+startOffset+length]
+			start := int(stringOffset) + int(startOffset)
+			nameData := name.Data[start : start+int(length)]
 
+			// Both platforms store UTF-16BE
 			var nameStr string
-			if platformID == 3 {
-				// UTF-16BE
-				if len(nameData)%2 == 0 {
-					runes := make([]rune, 0, len(nameData)/2)
-					for j := 0; j < len(nameData); j += 2 {
-						runes = append(runes, rune(binary.BigEndian.Uint16(nameData[j:j+2])))
-					}
-					nameStr = string(runes)
+			if len(nameData)%2 == 0 {
+				units := make([]uint16, 0, len(nameData)/2)
+				for j := 0; j < len(nameData); j += 2 {
+					units = append(units, binary.BigEndian.Uint16(nameData[j:j+2]))
 				}
-			} else {
-				// ASCII
-				nameStr = string(nameData)
+				nameStr = string(utf16.Decode(units))
 			}
 
 			switch nameID {
@@ -268,10 +266,10 @@ func (ttf *TTF) parsePost() error {
 	ttf.UnderlineThickness = int16(binary.BigEndian.Uint16(post.Data[10:12]))
 	ttf.IsFixedPitch = binary.BigEndian.Uint32(post.Data[12:16]) != 0
 
-	// Try to get CapHeight and XHeight from OS/2 table if available
-	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 88 {
-		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[68:70]))
-		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[70:72]))
+	// sxHeight and sCapHeight are there from version 2 of the OS/2 table
+	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 90 && binary.BigEndian.Uint16(os2.Data[0:2]) >= 2 {
+		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[86:88]))
+		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[88:90]))
 	}
 
 	return nil
@@ -404,10 +402,10 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 	}
 
 	// Parse the subtable
-	subtableData := data[bestOffset:]
-	if len(subtableData) < 2 {
+	if uint64(bestOffset)+2 > uint64(len(data)) {
 		return nil, fmt.Errorf("cmap subtable too short")
 	}
+	subtableData := data[bestOffset:]
 
 	format := binary.BigEndian.Uint16(subtableData[0:2])
 
@@ -444,7 +442,11 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 	startCodeOffset := endCodeOffset + 2 + int(segCount)*2
 	idDeltaOffset := startCodeOffset + int(segCount)*2
 	idRangeOffsetOffset := idDeltaOffset + int(segCount)*2
+	if idRangeOffsetOffset+int(segCount)*2 > len(data) {
+		return nil, fmt.Errorf("cmap format 4 segments extend beyond the table")
+	}
 
+	next := 0 // a code belongs to the first segment that ends at or after it
 	for i := 0; i < int(segCount); i++ {
 		startCode := binary.BigEndian.Uint16(data[startCodeOffset+i*2 : startCodeOffset+i*2+2])
 		endCode := binary.BigEndian.Uint16(data[endCodeOffset+i*2 : endCodeOffset+i*2+2])
@@ -455,7 +457,16 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 			break // Last segment
 		}
 
-		for code := startCode; code <= endCode && code != 0xFFFF; code++ {
+		first := int(startCode)
+		if first < next {
+			first = next
+		}
+		if next <= int(endCode) {
+			next = int(endCode) + 1
+		}
+
+		for c := first; c <= int(endCode) && c != 0xFFFF; c++ {
+			code := uint16(c)
 			var glyphID uint16
 
 			if idRangeOffset == 0 {
@@ -488,12 +499,13 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 	length := binary.BigEndian.Uint32(data[4:8])
 	numGroups := binary.BigEndian.Uint32(data[12:16])
 
-	if len(data) < int(length) {
+	if uint64(len(data)) < uint64(length) {
 		return nil, fmt.Errorf("cmap format 12 length mismatch")
 	}
 
 	offset := 16
-	for i := 0; i < int(numGroups); i++ {
+	next := uint32(0) // groups are sorted and do not overlap
+	for i := uint32(0); i < numGroups; i++ {
 		if offset+12 > len(data) {
 			break
 		}
@@ -502,9 +514,24 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 		endCharCode := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 		startGlyphID := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 
-		for code := startCharCode; code <= endCharCode; code++ {
-			glyphID := uint16(startGlyphID + (code - startCharCode))
-			glyphMap[rune(code)] = glyphID
+		if endCharCode > utf8.MaxRune {
+			endCharCode = utf8.MaxRune
+		}
+		first := startCharCode
+		if first < next {
+			first = next
+		}
+		for code := first; code <= endCharCode; code++ {
+			glyphID := uint64(startGlyphID) + uint64(code-startCharCode)
+			if glyphID > 0xFFFF {
+				break
+			}
+			if glyphID != 0 {
+				glyphMap[rune(code)] = uint16(glyphID)
+			}
+		}
+		if endCharCode >= next {
+			next = endCharCode + 1
 		}
 
 		offset += 12
@@ -534,24 +561,39 @@ func (f *Font) GetWidths() ([]int, error) {
 		return nil, err
 	}
 
-	// Parse hmtx table for widths
-	hmtx, ok := ttf.Tables["hmtx"]
-	if !ok {
+	if _, ok := ttf.Tables["hmtx"]; !ok {
 		return nil, fmt.Errorf("missing hmtx table")
 	}
 
 	widths := make([]int, len(glyphs))
 	for i, gid := range glyphs {
-		if int(gid)*4+2 <= len(hmtx.Data) {
-			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[gid*4 : gid*4+2]))
-		} else {
-			widths[i] = int(ttf.UnitsPerEm) // Default width
-		}
+		widths[i] = ttf.advance(gid)
 	}
 
 	return widths, nil
 }
 
+// advance returns the advance width of a glyph in font units
+func (ttf *TTF) advance(gid uint16) int {
+	metrics := 0
+	if hhea, ok := ttf.Tables["hhea"]; ok && len(hhea.Data) >= 36 {
+		metrics = int(binary.BigEndian.Uint16(hhea.Data[34:36]))
+	}
+	hmtx, ok := ttf.Tables["hmtx"]
+	if !ok {
+		return int(ttf.UnitsPerEm)
+	}
+	// The last long metric holds for all glyphs after it
+	i := int(gid)
+	if metrics > 0 && i >= metrics {
+		i = metrics - 1
+	}
+	if i*4+2 > len(hmtx.Data) {
+		return int(ttf.UnitsPerEm) // Default width
+	}
+	return int(binary.BigEndian.Uint16(hmtx.Data[i*4 : i*4+2]))
+}
+
 // Read reads font data from a reader
 func Read(r io.Reader) ([]byte, error) {
 	var buf bytes.Buffer
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 038a41d..5bf88a3 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -4,9 +4,8 @@ package font
 import (
 	"bytes"
 	"crypto/md5"
-	"encoding/hex"
 	"fmt"
-	"sort"
+	"unicode/utf16"
 )
 
 // FontObjects represents the PDF objects needed for an embedded font
@@ -27,23 +26,29 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 		return nil, fmt.Errorf("failed to parse font: %w", err)
 	}
 
-	// Generate subset prefix from font name hash
+	fontName := ttf.FontName
+	if fontName == "" {
+		fontName = f.Name
+	}
+
+	// Generate subset prefix (six uppercase letters) from font name hash
 	if f.FontID == "" {
-		hash := md5.Sum([]byte(ttf.FontName))
-		f.FontID = hex.EncodeToString(hash[:6])
+		hash := md5.Sum([]byte(fontName))
+		id := make([]byte, 6)
+		for i := range id {
+			id[i] = 'A' + hash[i]%26
+		}
+		f.FontID = string(id)
 	}
 	subsetPrefix := f.FontID + "+"
+	baseFont := subsetPrefix + fontName
 
-	// Get subset glyphs
-	glyphs, err := f.GetSubsetGlyphs()
-	if err != nil {
-		return nil, fmt.Errorf("failed to get subset glyphs: %w", err)
+	if _, ok := ttf.Tables["hmtx"]; !ok {
+		return nil, fmt.Errorf("failed to get widths: missing hmtx table")
 	}
-
-	// Get widths
-	widths, err := f.GetWidths()
+	codes, err := f.encodedCodes(ttf)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get widths: %w", err)
+		return nil, fmt.Errorf("failed to get subset glyphs: %w", err)
 	}
 
 	// Create font file stream (subset font)
@@ -60,24 +65,24 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	fontFileNum := writer.AddStreamObject(fontFileDict, fontFileData, true)
 
 	// Create FontDescriptor (references fontFileNum)
-	fontDescriptor := f.createFontDescriptor(ttf, fontFileNum)
+	fontDescriptor := f.createFontDescriptor(ttf, baseFont, fontFileNum)
 	fontDescriptorNum := writer.AddObject(fontDescriptor)
 
 	// Create ToUnicode CMap (as stream object)
-	toUnicodeData := f.createToUnicodeCMapData(glyphs)
+	toUnicodeData := createToUnicodeCMapData(codes)
 	toUnicodeDict := map[string]interface{}{
 		"/Type":     "/CMap",
 		"/CMapName": "/Adobe-Identity-UCS",
 		"/CIDSystemInfo": map[string]interface{}{
-			"/Registry":   "(Adobe)",
-			"/Ordering":   "(UCS)",
+			"/Registry":   "Adobe",
+			"/Ordering":   "UCS",
 			"/Supplement": 0,
 		},
 	}
 	toUnicodeNum := writer.AddStreamObject(toUnicodeDict, toUnicodeData, false) // Don't compress CMap
 
 	// Create Font dictionary (references fontDescriptorNum and toUnicodeNum)
-	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, glyphs, widths, subsetPrefix)
+	fontDict := createFontDict(ttf, baseFont, fontDescriptorNum, toUnicodeNum, codes)
 	fontDictNum := writer.AddObject(fontDict)
 
 	// Generate resource name
@@ -100,19 +105,90 @@ type PDFWriter interface {
 	NextObjectNumber() int
 }
 
+// winAnsiHigh holds the characters of the codes 0x80 to 0x9F of WinAnsiEncoding
+var winAnsiHigh = [32]rune{
+	0x20AC, 0x2022, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021,
+	0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x2022, 0x017D, 0x2022,
+	0x2022, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014,
+	0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x2022, 0x017E, 0x0178,
+}
+
+// winAnsiRune returns the character of a code of WinAnsiEncoding
+func winAnsiRune(code int) rune {
+	switch {
+	case code < 0x20:
+		return 0
+	case code == 0x7F:
+		return 0x2022
+	case code >= 0x80 && code <= 0x9F:
+		return winAnsiHigh[code-0x80]
+	}
+	return rune(code)
+}
+
+// encodedChar is one character code of the font
+type encodedChar struct {
+	code  int
+	char  rune
+	glyph uint16
+}
+
+// encodedCodes returns the codes of the characters in the subset, in ascending order
+func (f *Font) encodedCodes(ttf *TTF) ([]encodedChar, error) {
+	cmap, ok := ttf.Tables["cmap"]
+	if !ok {
+		return nil, fmt.Errorf("missing cmap table")
+	}
+	glyphMap, err := parseCmap(cmap.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse cmap: %w", err)
+	}
+	subset := make(map[rune]bool, len(f.Subset))
+	for _, r := range f.Subset {
+		subset[r] = true
+	}
+	var codes []encodedChar
+	for code := 0; code < 256; code++ {
+		if r := winAnsiRune(code); r != 0 && subset[r] {
+			codes = append(codes, encodedChar{code, r, glyphMap[r]})
+		}
+	}
+	return codes, nil
+}
+
+// scale converts font units to the thousandths of an em that PDF uses
+func (ttf *TTF) scale(v int) int {
+	if ttf.UnitsPerEm == 0 {
+		return v
+	}
+	n, d := v*1000, int(ttf.UnitsPerEm)
+	if n < 0 {
+		return -((-n + d/2) / d)
+	}
+	return (n + d/2) / d
+}
+
 // createFontDict creates the Font dictionary
-func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, glyphs []uint16, widths []int, subsetPrefix string) []byte {
+func createFontDict(ttf *TTF, baseFont string, fontDescriptorNum, toUnicodeNum int, codes []encodedChar) []byte {
 	var buf bytes.Buffer
 
-	// Base font name with subset prefix
-	baseFontName := subsetPrefix + ttf.FontName
+	// Widths are indexed by character code
+	first, last := 0, 0
+	if len(codes) > 0 {
+		first, last = codes[0].code, codes[len(codes)-1].code
+	}
+	widths := make([]int, last-first+1)
+	for _, c := range codes {
+		widths[c.code-first] = ttf.scale(ttf.advance(c.glyph))
+	}
 
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /Font\n")
 	buf.WriteString("/Subtype /TrueType\n")
-	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFontName)))
-	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", 0))
-	buf.WriteString(fmt.Sprintf("/LastChar %d\n", len(glyphs)-1))
+	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFont)))
+	buf.WriteString("/Encoding /WinAnsiEncoding\n")
+	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", first))
+	buf.WriteString(fmt.Sprintf("/LastChar %d\n", last))
 
 	// Width array
 	buf.WriteString("/Widths [")
@@ -136,20 +212,20 @@ func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, gly
 }
 
 // createFontDescriptor creates the FontDescriptor dictionary
-func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
+func (f *Font) createFontDescriptor(ttf *TTF, baseFont string, fontFileNum int) []byte {
 	var buf bytes.Buffer
 
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /FontDescriptor\n")
-	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(ttf.FontName)))
-	buf.WriteString(fmt.Sprintf("/FontFamily (%s)\n", escapeString(ttf.FamilyName)))
+	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(baseFont)))
+	buf.WriteString("/FontFamily " + textString(ttf.FamilyName) + "\n")
 	buf.WriteString(fmt.Sprintf("/Flags %d\n", f.getFontFlags(ttf)))
 	buf.WriteString(fmt.Sprintf("/FontBBox [%d %d %d %d]\n",
-		-100, -100, int(ttf.UnitsPerEm)+100, int(ttf.UnitsPerEm)+100)) // Simplified bbox
+		-100, -100, 1100, 1100)) // Simplified bbox
 	buf.WriteString(fmt.Sprintf("/ItalicAngle %.4f\n", ttf.ItalicAngle))
-	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.Ascent))
-	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.Descent))
-	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.CapHeight))
+	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.scale(int(ttf.Ascent))))
+	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.scale(int(ttf.Descent))))
+	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.scale(int(ttf.CapHeight))))
 	buf.WriteString(fmt.Sprintf("/StemV %d\n", 80)) // Default stem width
 	buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
 	buf.WriteString(">>")
@@ -158,29 +234,7 @@ func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
 }
 
 // createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
-func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
-	// Get glyph to Unicode mapping
-	ttf, err := ParseTTF(f.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	cmap, ok := ttf.Tables["cmap"]
-	if !ok {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	glyphMap, err := parseCmap(cmap.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	// Create reverse mapping: glyph ID -> Unicode
-	glyphToUnicode := make(map[uint16][]rune)
-	for unicode, gid := range glyphMap {
-		glyphToUnicode[gid] = append(glyphToUnicode[gid], unicode)
-	}
-
+func createToUnicodeCMapData(codes []encodedChar) []byte {
 	// Build CMap content
 	var buf bytes.Buffer
 	buf.WriteString("/CIDInit /ProcSet findresource begin\n")
@@ -198,22 +252,18 @@ func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
 	buf.WriteString("<00> <FF>\n")
 	buf.WriteString("endcodespacerange\n")
 
-	// Write bfchar entries (glyph -> Unicode)
-	sort.Slice(glyphs, func(i, j int) bool {
-		return glyphs[i] < glyphs[j]
-	})
-
-	buf.WriteString(fmt.Sprintf("%d beginbfchar\n", len(glyphs)))
-	for _, gid := range glyphs {
-		unicodes := glyphToUnicode[gid]
-		if len(unicodes) > 0 {
-			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", gid, unicodes[0]))
-		} else {
-			// Map to space if no Unicode found
-			buf.WriteString(fmt.Sprintf("<%02X> <0020>\n", gid))
+	// Write bfchar entries (character code -> Unicode), at most 100 to a section
+	for i := 0; i < len(codes); i += 100 {
+		section := codes[i:]
+		if len(section) > 100 {
+			section = section[:100]
+		}
+		buf.WriteString(fmt.Sprintf("%d beginbfchar\n", len(section)))
+		for _, c := range section {
+			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", c.code, c.char))
 		}
+		buf.WriteString("endbfchar\n")
 	}
-	buf.WriteString("endbfchar\n")
 
 	buf.WriteString("endcmap\n")
 	buf.WriteString("CMapName currentdict /CMap defineresource pop\n")
@@ -252,42 +302,45 @@ func (f *Font) getFontFlags(ttf *TTF) int {
 // escapeName escapes a PDF name
 func escapeName(s string) string {
 	var buf bytes.Buffer
-	for _, r := range s {
-		if r == ' ' || r == '#' || r == '/' || r == '(' || r == ')' || r == '<' || r == '>' || r == '[' || r == ']' || r == '{' || r == '}' || r == '%' {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else if r > 127 {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if c == 0 {
+			continue // not possible in a name
+		}
+		if c <= ' ' || c >= 127 || bytes.IndexByte([]byte("#/()<>[]{}%"), c) >= 0 {
+			buf.WriteString(fmt.Sprintf("#%02X", c))
 		} else {
-			buf.WriteRune(r)
+			buf.WriteByte(c)
 		}
 	}
 	return buf.String()
 }
 
-// escapeString escapes a PDF string
-func escapeString(s string) string {
+// textString formats a PDF text string
+func textString(s string) string {
+	ascii := true
+	for _, r := range s {
+		if r < ' ' || r > '~' {
+			ascii = false
+			break
+		}
+	}
 	var buf bytes.Buffer
+	if !ascii {
+		buf.WriteString("<FEFF")
+		for _, u := range utf16.Encode([]rune(s)) {
+			buf.WriteString(fmt.Sprintf("%04X", u))
+		}
+		buf.WriteString(">")
+		return buf.String()
+	}
+	buf.WriteString("(")
 	for _, r := range s {
-		switch r {
-		case '\\':
-			buf.WriteString("\\\\")
-		case '(':
-			buf.WriteString("\\(")
-		case ')':
-			buf.WriteString("\\)")
-		case '\n':
-			buf.WriteString("\\n")
-		case '\r':
-			buf.WriteString("\\r")
-		case '\t':
-			buf.WriteString("\\t")
-		default:
-			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				buf.WriteRune(r)
-			}
+		if r == '\\' || r == '(' || r == ')' {
+			buf.WriteByte('\\')
 		}
+		buf.WriteRune(r)
 	}
+	buf.WriteString(")")
 	return buf.String()
 }
-- 
2.43.0


From a55acaceedc0fbbbe7aaf782fe5b504a870adfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 16/73] fix: JPEG header bounds and fill bytes, colours of
 translucent pixels

---
 core/write/image.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/write/image.go b/core/write/image.go
index c4f5b58..23c11e4 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -51,7 +51,7 @@ func (w *PDFWriter) AddJPEGImage(jpegData []byte, name string) (*ImageInfo, erro
 		Number:     objNum,
 		Generation: 0,
 		Dict:       dict,
-		Stream:     jpegData,
+		Stream:     append([]byte{}, jpegData...),
 	}
 
 	return &ImageInfo{
@@ -90,6 +90,10 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 	switch img.(type) {
 	case *image.NRGBA, *image.RGBA:
 		hasAlpha = true
+	default:
+		if opaque, ok := img.(interface{ Opaque() bool }); ok {
+			hasAlpha = !opaque.Opaque()
+		}
 	}
 
 	// Convert to RGB or Gray
@@ -108,11 +112,12 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 		rawData = make([]byte, width*height*3)
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
-				r, g, b, _ := img.At(x+bounds.Min.X, y+bounds.Min.Y).RGBA()
+				// The soft mask applies alpha, so the colors must not be premultiplied by it
+				pixel := color.NRGBAModel.Convert(img.At(x+bounds.Min.X, y+bounds.Min.Y)).(color.NRGBA)
 				idx := (y*width + x) * 3
-				rawData[idx] = uint8(r >> 8)
-				rawData[idx+1] = uint8(g >> 8)
-				rawData[idx+2] = uint8(b >> 8)
+				rawData[idx] = pixel.R
+				rawData[idx+1] = pixel.G
+				rawData[idx+2] = pixel.B
 			}
 		}
 	}
@@ -180,15 +185,21 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		marker := data[pos+1]
 		pos += 2
 
-		// Skip padding
+		// Skip fill bytes
 		if marker == 0xFF {
+			pos--
+			continue
+		}
+
+		// These markers have no segment
+		if marker == 0x00 || marker == 0x01 || marker >= 0xD0 && marker <= 0xD9 {
 			continue
 		}
 
 		// SOF0-SOF15 (except SOF4, SOF8, SOF12 which are not frame markers)
 		// We're interested in SOF0 (baseline), SOF1, SOF2 (progressive)
 		if marker >= 0xC0 && marker <= 0xC3 {
-			if pos+7 > len(data) {
+			if pos+8 > len(data) {
 				return 0, 0, "", fmt.Errorf("truncated SOF segment")
 			}
 
-- 
2.43.0


From 118ae2911d95475ec2a7b3b35320a17189888a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 17/73] fix: text strings, bookmarks, page resources and
 watermarks are written as valid values

---
 core/write/bookmarks.go   | 23 ++++++++----
 core/write/content.go     |  5 ++-
 core/write/metadata.go    | 33 +++++++----------
 core/write/page.go        | 77 +++++++++++++++++++++++++++------------
 core/write/watermark.go   | 51 ++++++++++++++++----------
 core/write/writer.go      | 29 +++++++++++++++
 core/write/xfa_builder.go |  3 --
 7 files changed, 146 insertions(+), 75 deletions(-)

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 12b3067..392d768 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -17,7 +17,9 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 	}
 
 	// Create outline items recursively
-	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, 0)
+	outlinesObjNum := w.nextObjNum
+	w.nextObjNum++ // Reserve it: the top-level items refer to it
+	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, outlinesObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to create outline items: %w", err)
 	}
@@ -30,7 +32,7 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		"/Count": count,
 	}
 
-	outlinesObjNum := w.AddObject(w.formatDictionary(outlinesDict))
+	w.SetObject(outlinesObjNum, w.formatDictionary(outlinesDict))
 
 	// Store outlines reference for catalog update
 	w.outlinesRef = fmt.Sprintf("%d 0 R", outlinesObjNum)
@@ -50,17 +52,22 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 	for i, bookmark := range bookmarks {
 		// Create destination string
-		dest := ""
+		var dest interface{}
 		if bookmark.PageNumber > 0 {
 			pageObjNum, ok := pageObjNums[bookmark.PageNumber]
 			if ok {
 				// Create destination array: [pageObjNum /XYZ left top zoom]
 				// Default: top of page, fit to page width
-				dest = fmt.Sprintf("[%d 0 R /XYZ 0 792 null]", pageObjNum)
+				dest = rawValue(fmt.Sprintf("[%d 0 R /XYZ 0 792 null]", pageObjNum))
 			}
 		} else if bookmark.Destination != "" {
 			// Use provided destination string (should be in format like "[pageObjNum /XYZ ...]")
-			dest = bookmark.Destination
+			// or the name of a destination
+			if strings.ContainsAny(bookmark.Destination[:1], "[(</") || strings.HasSuffix(bookmark.Destination, " R") {
+				dest = rawValue(bookmark.Destination)
+			} else {
+				dest = literalString(escapePDFString(bookmark.Destination))
+			}
 		}
 
 		// Create action for URI if provided
@@ -69,7 +76,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 			actionDict := Dictionary{
 				"/Type": "/Action",
 				"/S":    "/URI",
-				"/URI":  fmt.Sprintf("(%s)", escapePDFString(bookmark.URI)),
+				"/URI":  literalString(escapePDFString(bookmark.URI)),
 			}
 			actionObjNum := w.AddObject(w.formatDictionary(actionDict))
 			actionRef = fmt.Sprintf("%d 0 R", actionObjNum)
@@ -93,10 +100,10 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": fmt.Sprintf("(%s)", escapePDFString(bookmark.Title)),
+			"/Title": textString(bookmark.Title),
 		}
 
-		if dest != "" {
+		if dest != nil {
 			itemDict["/Dest"] = dest
 		}
 		if actionRef != "" {
diff --git a/core/write/content.go b/core/write/content.go
index 7c7d829..365afcf 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -324,7 +324,8 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
-	for _, c := range s {
+	for i := 0; i < len(s); i++ {
+		c := s[i]
 		switch c {
 		case '(':
 			result.WriteString("\\(")
@@ -339,7 +340,7 @@ func escapePDFString(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			result.WriteRune(c)
+			result.WriteByte(c)
 		}
 	}
 	return result.String()
diff --git a/core/write/metadata.go b/core/write/metadata.go
index 5d40597..2489e24 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -19,33 +19,33 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = escapePDFStringForMetadata(metadata.Title)
+		dict["/Title"] = textString(metadata.Title)
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = escapePDFStringForMetadata(metadata.Author)
+		dict["/Author"] = textString(metadata.Author)
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = escapePDFStringForMetadata(metadata.Subject)
+		dict["/Subject"] = textString(metadata.Subject)
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = escapePDFStringForMetadata(metadata.Keywords)
+		dict["/Keywords"] = textString(metadata.Keywords)
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = escapePDFStringForMetadata(metadata.Creator)
+		dict["/Creator"] = textString(metadata.Creator)
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = escapePDFStringForMetadata(metadata.Producer)
+		dict["/Producer"] = textString(metadata.Producer)
 	}
 	if metadata.CreationDate != "" {
-		dict["/CreationDate"] = formatPDFDate(metadata.CreationDate)
+		dict["/CreationDate"] = literalString(formatPDFDate(metadata.CreationDate))
 	}
 	if metadata.ModDate != "" {
-		dict["/ModDate"] = formatPDFDate(metadata.ModDate)
+		dict["/ModDate"] = literalString(formatPDFDate(metadata.ModDate))
 	}
 
 	// If no dates provided, set current time as ModDate
 	if metadata.ModDate == "" {
-		dict["/ModDate"] = formatPDFDate(time.Now().Format(time.RFC3339))
+		dict["/ModDate"] = literalString(formatPDFDate(time.Now().Format(time.RFC3339)))
 	}
 
 	// Add custom fields
@@ -55,7 +55,7 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 			if !strings.HasPrefix(key, "/") {
 				key = "/" + key
 			}
-			dict[key] = escapePDFStringForMetadata(value)
+			dict[key] = textString(value)
 		}
 	}
 
@@ -162,16 +162,11 @@ func formatPDFDate(dateStr string) string {
 
 	// Get timezone offset
 	_, offset := t.Zone()
-	offsetHours := offset / 3600
-	offsetMins := (offset % 3600) / 60
-
-	// Format timezone
-	var tzStr string
-	if offsetHours >= 0 {
-		tzStr = fmt.Sprintf("+%02d'%02d", offsetHours, offsetMins)
-	} else {
-		tzStr = fmt.Sprintf("-%02d'%02d", -offsetHours, -offsetMins)
+	sign := "+"
+	if offset < 0 {
+		sign, offset = "-", -offset
 	}
+	tzStr := fmt.Sprintf("%s%02d'%02d", sign, offset/3600, offset%3600/60)
 
 	pdfDate := fmt.Sprintf("D:%04d%02d%02d%02d%02d%02d%s",
 		year, month, day, hour, min, sec, tzStr)
diff --git a/core/write/page.go b/core/write/page.go
index b1e192d..14b2a33 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -3,6 +3,8 @@ package write
 
 import (
 	"fmt"
+	"sort"
+	"strconv"
 
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
@@ -32,6 +34,8 @@ type PageBuilder struct {
 	content     *ContentStream
 	pageObjNum  int
 	pagesObjNum int
+
+	standardFonts map[string]string // standard font -> font name
 }
 
 // NewPageBuilder creates a new page builder
@@ -42,6 +46,8 @@ func (w *PDFWriter) NewPageBuilder(size PageSize) *PageBuilder {
 		fonts:   make(map[string]int),
 		images:  make(map[string]int),
 		content: NewContentStream(),
+
+		standardFonts: make(map[string]string),
 	}
 }
 
@@ -54,33 +60,42 @@ func (pb *PageBuilder) Content() *ContentStream {
 // Returns the resource name to use (e.g., "/F1")
 func (pb *PageBuilder) AddStandardFont(fontName string) string {
 	// Check if already added
-	for name, _ := range pb.fonts {
-		if name == fontName {
-			return "/" + name
-		}
+	if name, ok := pb.standardFonts[fontName]; ok {
+		return "/" + name
 	}
 
 	// Create font dictionary
-	resourceName := fmt.Sprintf("F%d", len(pb.fonts)+1)
-	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
+	resourceName := unusedName(pb.fonts, "F")
+	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont%s>>", escapeName("/"+fontName))
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
+	pb.standardFonts[fontName] = resourceName
 
 	return "/" + resourceName
 }
 
+// unusedName returns the first name of the form prefix1, prefix2, ... that no resource has
+func unusedName(resources map[string]int, prefix string) string {
+	for i := len(resources) + 1; ; i++ {
+		name := fmt.Sprintf("%s%d", prefix, i)
+		if _, used := resources[name]; !used {
+			return name
+		}
+	}
+}
+
 // AddImage adds an image and returns the resource name
 func (pb *PageBuilder) AddImage(info *ImageInfo) string {
 	resourceName := info.Name
-	if resourceName == "" {
-		resourceName = fmt.Sprintf("Im%d", len(pb.images)+1)
-	}
 	// Remove leading / if present
 	if len(resourceName) > 0 && resourceName[0] == '/' {
 		resourceName = resourceName[1:]
 	}
+	if objNum, used := pb.images[resourceName]; resourceName == "" || used && objNum != info.ObjectNum {
+		resourceName = unusedName(pb.images, "Im")
+	}
 	pb.images[resourceName] = info.ObjectNum
-	return "/" + resourceName
+	return escapeName("/" + resourceName)
 }
 
 // AddEmbeddedFont adds an embedded TrueType/OpenType font and returns the resource name
@@ -101,6 +116,9 @@ func (pb *PageBuilder) AddEmbeddedFont(f *font.Font) (string, error) {
 	if len(resourceName) > 0 && resourceName[0] == '/' {
 		resourceName = resourceName[1:]
 	}
+	if _, used := pb.fonts[resourceName]; used || resourceName == "" {
+		resourceName = unusedName(pb.fonts, "F")
+	}
 	pb.fonts[resourceName] = fontObjs.FontDictNum
 
 	return "/" + resourceName, nil
@@ -136,32 +154,39 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 
 	// Add fonts
 	if len(pb.fonts) > 0 {
-		resources += "/Font<<"
-		for name, objNum := range pb.fonts {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
-		}
-		resources += ">>"
+		resources += "/Font" + resourceDict(pb.fonts)
 	}
 
 	// Add images as XObjects
 	if len(pb.images) > 0 {
-		resources += "/XObject<<"
-		for name, objNum := range pb.images {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
-		}
-		resources += ">>"
+		resources += "/XObject" + resourceDict(pb.images)
 	}
 
 	resources += ">>"
 
 	// Create page object
-	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %.0f %.0f]/Contents %d 0 R/Resources%s>>`,
-		pagesObjNum, pb.size.Width, pb.size.Height, contentObjNum, resources)
+	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %s %s]/Contents %d 0 R/Resources%s>>`,
+		pagesObjNum, strconv.FormatFloat(pb.size.Width, 'f', -1, 64), strconv.FormatFloat(pb.size.Height, 'f', -1, 64),
+		contentObjNum, resources)
 	pb.pageObjNum = pb.writer.AddObject([]byte(pageDict))
 
 	return pb.pageObjNum
 }
 
+// resourceDict formats a resource subdictionary, in the order of the names
+func resourceDict(resources map[string]int) string {
+	names := make([]string, 0, len(resources))
+	for name := range resources {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	dict := "<<"
+	for _, name := range names {
+		dict += fmt.Sprintf("%s %d 0 R", escapeName("/"+name), resources[name])
+	}
+	return dict + ">>"
+}
+
 // SimplePDFBuilder provides a high-level API for creating simple PDFs
 type SimplePDFBuilder struct {
 	writer        *PDFWriter
@@ -210,11 +235,17 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	kids += "]"
 
 	// Create/update Pages object
+	if b.pagesObjNum == 0 {
+		b.pagesObjNum = b.writer.nextObjNum
+		b.writer.nextObjNum++
+	}
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
-	b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
+	if b.catalogObjNum == 0 {
+		b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
+	}
 	b.writer.SetRoot(b.catalogObjNum)
 
 	return b.writer.Bytes()
diff --git a/core/write/watermark.go b/core/write/watermark.go
index 9718a13..24032ab 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -3,6 +3,7 @@ package write
 import (
 	"fmt"
 	"math"
+	"strings"
 )
 
 // WatermarkOptions configures watermark appearance
@@ -37,8 +38,27 @@ func DefaultWatermarkOptions() *WatermarkOptions {
 // AddWatermark adds a watermark to a page
 // Options can be nil to use defaults
 func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
+	defaults := DefaultWatermarkOptions()
 	if options == nil {
-		options = DefaultWatermarkOptions()
+		options = defaults
+	}
+	fontName, fontSize, color := options.FontName, options.FontSize, options.Color
+	if fontName == "" {
+		fontName = defaults.FontName
+	}
+	if fontSize == 0 {
+		fontSize = defaults.FontSize
+	}
+	if color == nil {
+		color = defaults.Color
+	}
+	imageName := strings.TrimPrefix(options.ImageName, "/")
+	if imageName != "" {
+		if _, exists := pb.images[imageName]; !exists {
+			return fmt.Errorf("image %q not found in page resources", options.ImageName)
+		}
+	} else if options.Text == "" {
+		return fmt.Errorf("watermark text cannot be empty")
 	}
 
 	// Save graphics state
@@ -51,12 +71,12 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		// Full ExtGState support would require adding it to resources
 		opacity := options.Opacity
 		pb.content.SetFillColorRGB(
-			options.Color.R*opacity,
-			options.Color.G*opacity,
-			options.Color.B*opacity,
+			color.R*opacity,
+			color.G*opacity,
+			color.B*opacity,
 		)
 	} else {
-		pb.content.SetFillColorRGB(options.Color.R, options.Color.G, options.Color.B)
+		pb.content.SetFillColorRGB(color.R, color.G, color.B)
 	}
 
 	// Calculate center if not specified
@@ -80,40 +100,31 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		)
 	}
 
-	if options.ImageName != "" {
+	if imageName != "" {
 		// Image watermark
-		// Add image to resources if not already added
-		if _, exists := pb.images[options.ImageName]; !exists {
-			return fmt.Errorf("image %q not found in page resources", options.ImageName)
-		}
-
 		// Draw image centered using Do operator
 		// Scale and position the image
 		// For simplicity, scale to reasonable size and center
 		// Image will be drawn at current position (0,0 after translate/rotate)
 		pb.content.Translate(-pb.size.Width/4, -pb.size.Height/4) // Center the image
 		pb.content.Scale(pb.size.Width/2, pb.size.Height/2)
-		pb.content.DrawImage(options.ImageName)
+		pb.content.DrawImage(escapeName("/" + imageName))
 	} else {
 		// Text watermark
-		if options.Text == "" {
-			return fmt.Errorf("watermark text cannot be empty")
-		}
-
 		// Add font if not already added
-		fontName := pb.AddStandardFont(options.FontName)
+		fontName = pb.AddStandardFont(fontName)
 
 		// Begin text
 		pb.content.BeginText()
 
 		// Set font and size
-		pb.content.SetFont(fontName, options.FontSize)
+		pb.content.SetFont(fontName, fontSize)
 
 		// Calculate text position (center the text)
 		// For simplicity, approximate text width (could be improved)
-		textWidth := float64(len(options.Text)) * options.FontSize * 0.6
+		textWidth := float64(len(options.Text)) * fontSize * 0.6
 		textX := -textWidth / 2
-		textY := -options.FontSize / 2
+		textY := -fontSize / 2
 
 		pb.content.SetTextPosition(textX, textY)
 
diff --git a/core/write/writer.go b/core/write/writer.go
index 771733f..4ffe1a6 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -10,6 +10,8 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
@@ -421,6 +423,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return strconv.FormatFloat(v, 'f', -1, 64)
 	case nil:
 		return "null"
+	case rawValue:
+		return string(v)
 	case literalString:
 		return "(" + string(v) + ")"
 	case string:
@@ -442,6 +446,8 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return "[" + strings.Join(items, " ") + "]"
 	case Dictionary:
 		return string(w.formatDictionary(v))
+	case map[string]interface{}:
+		return string(w.formatDictionary(Dictionary(v)))
 	default:
 		return fmt.Sprintf("%v", v)
 	}
@@ -451,6 +457,29 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 // is never taken for a name or a reference.
 type literalString string
 
+// rawValue is a PDF value that is written as it is.
+type rawValue string
+
+// textString returns the value of a PDF text string. ASCII text is a literal string, other text is
+// UTF-16BE with a byte order mark.
+func textString(s string) interface{} {
+	ascii := true
+	for i := 0; i < len(s); i++ {
+		if s[i] >= 0x80 {
+			ascii = false
+			break
+		}
+	}
+	if ascii || !utf8.ValidString(s) {
+		return literalString(escapePDFString(s))
+	}
+	text := []byte{0xFE, 0xFF}
+	for _, unit := range utf16.Encode([]rune(s)) {
+		text = append(text, byte(unit>>8), byte(unit))
+	}
+	return text
+}
+
 // escapeUnlessBalanced returns s unchanged if it can stand between parentheses as it is, and
 // escapes it otherwise.
 func escapeUnlessBalanced(s string) string {
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 292bcd6..fb2d5f0 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -358,9 +358,6 @@ func parseDictionary(data []byte) Dictionary {
 	}
 }
 
-// rawValue is a value that is written as it is
-type rawValue string
-
 // parseTrailerInfo extracts trailer references
 func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID []byte) {
 	pdfStr := string(pdfBytes)
-- 
2.43.0


From 410a37cb96f62d50bb5dea72b69c242f79240168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 18/73] fix: rebuilt documents keep a direct encryption
 dictionary and clear metadata

---
 core/manipulate/manipulate.go |  3 +++
 core/parse/api.go             | 25 +++++++++++++++++--------
 core/write/writer.go          | 15 ++++++++++++---
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 58c6ea4..2732608 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -96,6 +96,9 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 
 	// Set encryption if present
 	if m.pdf.IsEncrypted() {
+		if dict := m.pdf.DirectEncryptDict(); dict != nil {
+			m.writer.SetEncryptRef(m.writer.AddObject(dict))
+		}
 		// The encryption key depends on the file identifier
 		m.writer.SetEncryption(m.pdf.Encryption(), m.pdf.FileID())
 	}
diff --git a/core/parse/api.go b/core/parse/api.go
index 87cfb51..3bc2ad4 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -47,13 +47,14 @@ type ParseOptions struct {
 // PDF represents a parsed PDF document.
 // This is the main entry point for working with PDF files.
 type PDF struct {
-	raw        []byte
-	doc        *PDFDocument         // Populated when BytePerfect is true
-	xref       *XRef                // Unified cross-reference data
-	encryption *types.PDFEncryption // Encryption info (nil if unencrypted)
-	fileID     []byte               // First file identifier (of encrypted documents)
-	trailer    *TrailerInfo         // Parsed trailer information
-	opts       ParseOptions
+	raw         []byte
+	doc         *PDFDocument         // Populated when BytePerfect is true
+	xref        *XRef                // Unified cross-reference data
+	encryptDict []byte               // Encryption dictionary if direct in the trailer
+	encryption  *types.PDFEncryption // Encryption info (nil if unencrypted)
+	fileID      []byte               // First file identifier (of encrypted documents)
+	trailer     *TrailerInfo         // Parsed trailer information
+	opts        ParseOptions
 }
 
 // XRef represents consolidated cross-reference data for all objects in the PDF.
@@ -161,7 +162,9 @@ func (p *PDF) findEncryption() (enc *types.PDFEncryption, fileID []byte, found b
 	}
 
 	dict, objNum := section.encrypt, 0
-	if section.Encrypt != "" {
+	if section.Encrypt == "" {
+		p.encryptDict = dict
+	} else {
 		fmt.Sscan(section.Encrypt, &objNum)
 		offset, ok := incParser.mergedObjs[objNum]
 		if !ok || offset < 0 || offset >= int64(len(p.raw)) {
@@ -391,6 +394,12 @@ func (p *PDF) Trailer() *TrailerInfo {
 	return p.trailer
 }
 
+// DirectEncryptDict returns the encryption dictionary if it is a direct object of the trailer,
+// where TrailerInfo.EncryptRef is empty
+func (p *PDF) DirectEncryptDict() []byte {
+	return p.encryptDict
+}
+
 // IsEncrypted returns true if the PDF is encrypted
 func (p *PDF) IsEncrypted() bool {
 	return p.encryption != nil
diff --git a/core/write/writer.go b/core/write/writer.go
index 4ffe1a6..07424c1 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -536,11 +536,11 @@ func (w *PDFWriter) encryptObject(obj *PDFObject, objNum int) (content, streamDa
 	if !encrypted {
 		return w.formatDictionary(obj.Dict), obj.Stream, nil
 	}
-	streamData, err = encrypt.EncryptObject(obj.Stream, objNum, obj.Generation, w.encryptInfo)
+	dict := copyStreamDict(obj.Dict)
+	streamData, err = w.encryptStream(w.formatDictionary(dict), obj.Stream, objNum, obj.Generation)
 	if err != nil {
 		return nil, nil, err
 	}
-	dict := copyStreamDict(obj.Dict)
 	dict["Length"] = len(streamData)
 	content, err = encrypt.EncryptStrings(w.formatDictionary(dict), objNum, obj.Generation, w.encryptInfo)
 	return content, streamData, err
@@ -553,7 +553,7 @@ func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte,
 	if !isStream {
 		return encrypt.EncryptStrings(content, objNum, genNum, w.encryptInfo)
 	}
-	encrypted, err := encrypt.EncryptObject(data, objNum, genNum, w.encryptInfo)
+	encrypted, err := w.encryptStream(dict, data, objNum, genNum)
 	if err != nil {
 		return nil, err
 	}
@@ -566,6 +566,15 @@ func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte,
 	return bytes.Join([][]byte{dict, []byte("\nstream\n"), encrypted, []byte("\nendstream")}, nil), nil
 }
 
+// encryptStream encrypts the data of a stream with the given dictionary. Metadata streams stay in
+// clear if the encryption dictionary says so.
+func (w *PDFWriter) encryptStream(dict, data []byte, objNum, genNum int) ([]byte, error) {
+	if !w.encryptInfo.EncryptMetadata && string(parse.DictValue(dict, "/Type")) == "/Metadata" {
+		return data, nil
+	}
+	return encrypt.EncryptObject(data, objNum, genNum, w.encryptInfo)
+}
+
 // Bytes returns the complete PDF as a byte slice
 func (w *PDFWriter) Bytes() ([]byte, error) {
 	var buf bytes.Buffer
-- 
2.43.0


From 36a46cff842510c1dcf9230ff574807454d405b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 19/73] fix: page manipulation reads kids next to comments and
 drops generation numbers

---
 core/manipulate/manipulate.go |  5 ++++-
 core/manipulate/rotation.go   | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 2732608..59c3391 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -44,7 +44,10 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 		if t := string(parse.DictValue(obj, "/Type")); t == "/XRef" || t == "/ObjStm" {
 			continue // file structure: the writer makes its own
 		}
-		objects[objNum] = parse.ObjectContent(obj)
+		// The writer writes every object with generation 0
+		objects[objNum] = parse.ReplaceReferences(parse.ObjectContent(obj), func(num int) string {
+			return fmt.Sprintf("%d 0 R", num)
+		})
 	}
 
 	return &PDFManipulator{
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index 58cdf51..fd9094b 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -2,9 +2,10 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // RotatePage rotates a specific page by the given angle (90, 180, or 270 degrees)
@@ -132,17 +133,19 @@ func parseObjectRefArray(arrStr string) []string {
 	// Remove brackets if present
 	arrStr = strings.TrimSpace(arrStr)
 	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
+	arr := []byte(strings.TrimSuffix(arrStr, "]"))
 
+	// Split into values and keep the references
 	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
+	for p := 0; ; {
+		start, end, ok := parse.ScanValue(arr, p)
+		if !ok {
+			break
+		}
+		if value := string(arr[start:end]); refPattern.MatchString(value) {
+			refs = append(refs, value)
 		}
+		p = end
 	}
 
 	return refs
-- 
2.43.0


From 266df393b78eeb3c2ff7ef25811630df69697b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 20/73] fix: splitting accepts any number of pages per part

---
 core/manipulate/splitting.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/manipulate/splitting.go b/core/manipulate/splitting.go
index dea34ef..06086bc 100644
--- a/core/manipulate/splitting.go
+++ b/core/manipulate/splitting.go
@@ -87,6 +87,11 @@ func SplitPDFByPageCount(pdfBytes []byte, pagesPerPDF int, password []byte, verb
 		return nil, fmt.Errorf("PDF has no pages")
 	}
 
+	// Larger parts than the document are its whole
+	if pagesPerPDF > totalPages {
+		pagesPerPDF = totalPages
+	}
+
 	// Create ranges
 	var ranges []PageRange
 	for start := 1; start <= totalPages; start += pagesPerPDF {
-- 
2.43.0


From 51818a8bd6825b34cf0645cfcb46d44571a01dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 21/73] fix: character maps and differences with comments or
 white space in strings are read

---
 content/extract/encoding.go | 42 ++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index 0f4d46d..8d0f4b7 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -5,6 +5,8 @@ import (
 	"strconv"
 	"strings"
 	"unicode/utf16"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // FontDecoder decodes character codes to Unicode for a specific font
@@ -200,6 +202,8 @@ func (fd *FontDecoder) lookupCode(code int) rune {
 
 // ParseToUnicodeCMap parses a ToUnicode CMap stream and populates the decoder
 func (fd *FontDecoder) ParseToUnicodeCMap(cmapData string) {
+	cmapData = strings.Join(cmapTokens(cmapData), " ")
+
 	// Parse beginbfchar...endbfchar sections (single character mappings)
 	// Format: <srcCode> <dstUnicode>
 	bfcharPattern := regexp.MustCompile(`beginbfchar\s*([\s\S]*?)\s*endbfchar`)
@@ -217,6 +221,32 @@ func (fd *FontDecoder) ParseToUnicodeCMap(cmapData string) {
 	}
 }
 
+// cmapTokens splits a CMap into its tokens, without comments and white space in hex strings
+func cmapTokens(cmapData string) []string {
+	data := []byte(cmapData)
+	var tokens []string
+	for p := 0; p < len(data); {
+		start, end, ok := parse.ScanToken(data, p)
+		if !ok {
+			if start >= len(data) {
+				break
+			}
+			p = start + 1 // a stray delimiter
+			continue
+		}
+		token := string(data[start:end])
+		p = end
+		switch {
+		case token[0] == '<' && !strings.HasPrefix(token, "<<"):
+			token = strings.Join(strings.Fields(token), "")
+		case token[0] == '[' && len(token) > 1:
+			token = "[" + strings.Join(cmapTokens(token[1:len(token)-1]), " ") + "]"
+		}
+		tokens = append(tokens, token)
+	}
+	return tokens
+}
+
 // parseBfcharBlock parses a bfchar block
 func (fd *FontDecoder) parseBfcharBlock(block string) {
 	// Match pairs of hex values: <srcCode> <dstUnicode>
@@ -326,16 +356,12 @@ func hexToUnicodeRunes(hex string) []rune {
 // ParseDifferencesArray parses a PDF Differences array
 // Format: [ code1 /name1 /name2 code2 /name3 ... ]
 func (fd *FontDecoder) ParseDifferencesArray(diffStr string) {
-	// Remove brackets
-	diffStr = strings.TrimSpace(diffStr)
-	diffStr = strings.TrimPrefix(diffStr, "[")
-	diffStr = strings.TrimSuffix(diffStr, "]")
-
-	// Parse tokens
-	tokens := strings.Fields(strings.ReplaceAll(diffStr, "/", " /"))
+	if diffStr = strings.TrimSpace(diffStr); !strings.HasPrefix(diffStr, "[") {
+		diffStr = "[" + diffStr + "]"
+	}
 	currentCode := 0
 
-	for _, token := range tokens {
+	for _, token := range arrayValues(diffStr) {
 		if strings.HasPrefix(token, "/") {
 			// Glyph name
 			glyphName := strings.TrimPrefix(token, "/")
-- 
2.43.0


From 664941aa8742a2e155900b8f3ac4ff1171cfc886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 22/73] fix: extraction reports gray and CMYK colours and
 normalised rectangles

---
 content/extract/annotations.go    |  7 +------
 content/extract/content_stream.go | 34 +++++++++++++++++++++++++------
 content/extract/pages.go          | 18 ++++------------
 content/extract/values.go         | 12 +++++++++++
 4 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e6b97ba..42d72eb 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -107,12 +107,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	// Extract Rect (bounding rectangle)
 	rect := extractArray(annotStr, "/Rect", pdf)
 	if len(rect) >= 4 {
-		annotation.Rect = &types.Rectangle{
-			LowerX: rect[0],
-			LowerY: rect[1],
-			UpperX: rect[2],
-			UpperY: rect[3],
-		}
+		annotation.Rect = normalizedRectangle(rect[0], rect[1], rect[2], rect[3])
 	}
 
 	// Extract Contents (annotation text/contents)
diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index e0ddfae..d36a9bf 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -222,12 +222,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 								FillColor:   graphicsState.fillColor,
 								StrokeColor: graphicsState.strokeColor,
 								LineWidth:   graphicsState.lineWidth,
-								BoundingBox: &types.Rectangle{
-									LowerX: x,
-									LowerY: y,
-									UpperX: x + w,
-									UpperY: y + h,
-								},
+								BoundingBox: normalizedRectangle(x, y, x+w, y+h),
 							}
 							graphics = append(graphics, graphic)
 						}
@@ -336,6 +331,24 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 			continue
 		}
 
+		// Set gray or CMYK color (g, G, k and K operators)
+		if match := regexp.MustCompile(`^([\d\.\-]+) ([gG])$`).FindStringSubmatch(line); match != nil {
+			if gray, err := strconv.ParseFloat(match[1], 64); err == nil {
+				graphicsState.setColor(match[2] == "G", &types.Color{Space: types.ColorSpaceGray, R: gray})
+			}
+			continue
+		}
+		if match := regexp.MustCompile(`^([\d\.\-]+) ([\d\.\-]+) ([\d\.\-]+) ([\d\.\-]+) ([kK])$`).FindStringSubmatch(line); match != nil {
+			var cmyk [4]float64
+			for i := range cmyk {
+				if val, err := strconv.ParseFloat(match[i+1], 64); err == nil {
+					cmyk[i] = val
+				}
+			}
+			graphicsState.setColor(match[5] == "K", &types.Color{Space: types.ColorSpaceCMYK, C: cmyk[0], M: cmyk[1], Y: cmyk[2], K: cmyk[3]})
+			continue
+		}
+
 		// Draw image (Do operator)
 		// Extract position and size from current transformation matrix
 		if match := regexp.MustCompile(`^(/\S*)\s+Do`).FindStringSubmatch(line); match != nil {
@@ -443,6 +456,15 @@ type graphicsState struct {
 	strokeColor *types.Color
 }
 
+// setColor sets the stroke or the fill color
+func (s *graphicsState) setColor(stroke bool, color *types.Color) {
+	if stroke {
+		s.strokeColor = color
+	} else {
+		s.fillColor = color
+	}
+}
+
 // setLineMatrix sets the text matrix and the text line matrix
 func (s *textState) setLineMatrix(matrix [6]float64) {
 	s.textMatrix = matrix
diff --git a/content/extract/pages.go b/content/extract/pages.go
index ebd66f5..fa0771e 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -161,25 +161,15 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	// Extract media box
 	mediaBox := extractArray(pageStr, "/MediaBox", pdf)
 	if len(mediaBox) >= 4 {
-		page.MediaBox = &types.Rectangle{
-			LowerX: mediaBox[0],
-			LowerY: mediaBox[1],
-			UpperX: mediaBox[2],
-			UpperY: mediaBox[3],
-		}
-		page.Width = mediaBox[2] - mediaBox[0]
-		page.Height = mediaBox[3] - mediaBox[1]
+		page.MediaBox = normalizedRectangle(mediaBox[0], mediaBox[1], mediaBox[2], mediaBox[3])
+		page.Width = page.MediaBox.UpperX - page.MediaBox.LowerX
+		page.Height = page.MediaBox.UpperY - page.MediaBox.LowerY
 	}
 
 	// Extract crop box
 	cropBox := extractArray(pageStr, "/CropBox", pdf)
 	if len(cropBox) >= 4 {
-		page.CropBox = &types.Rectangle{
-			LowerX: cropBox[0],
-			LowerY: cropBox[1],
-			UpperX: cropBox[2],
-			UpperY: cropBox[3],
-		}
+		page.CropBox = normalizedRectangle(cropBox[0], cropBox[1], cropBox[2], cropBox[3])
 	}
 
 	// Extract rotation
diff --git a/content/extract/values.go b/content/extract/values.go
index d02e45a..0fc9698 100644
--- a/content/extract/values.go
+++ b/content/extract/values.go
@@ -2,12 +2,14 @@ package extract
 
 import (
 	"bytes"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
 	"unicode/utf16"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 var referencePattern = regexp.MustCompile(`^\d+\s+\d+\s+R$`)
@@ -169,3 +171,13 @@ func decodeName(name string) string {
 	}
 	return out.String()
 }
+
+// normalizedRectangle returns the rectangle with two opposite corners
+func normalizedRectangle(x1, y1, x2, y2 float64) *types.Rectangle {
+	return &types.Rectangle{
+		LowerX: math.Min(x1, x2),
+		LowerY: math.Min(y1, y2),
+		UpperX: math.Max(x1, x2),
+		UpperY: math.Max(y1, y2),
+	}
+}
-- 
2.43.0


From c164eb5e317fd58c9a014f194264e14bbe4cd956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 23/73] fix: text strings without a byte order mark are
 PDFDocEncoding

---
 content/extract/values.go | 27 ++++++++++++++++++++++++++-
 core/write/writer.go      |  3 ++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/content/extract/values.go b/content/extract/values.go
index 0fc9698..ba6444c 100644
--- a/content/extract/values.go
+++ b/content/extract/values.go
@@ -124,7 +124,32 @@ func textString(value string) string {
 		}
 		return string(utf16.Decode(units))
 	}
-	return strings.TrimPrefix(s, "\xEF\xBB\xBF")
+	if strings.HasPrefix(s, "\xEF\xBB\xBF") {
+		return s[3:]
+	}
+	text := make([]rune, 0, len(s))
+	for _, b := range []byte(s) {
+		r, ok := pdfDocEncoding[b]
+		if !ok {
+			r = rune(b)
+		}
+		text = append(text, r)
+	}
+	return string(text)
+}
+
+// pdfDocEncoding lists the codes of PDFDocEncoding that differ from Latin-1
+var pdfDocEncoding = map[byte]rune{
+	0x18: '\u02D8', 0x19: '\u02C7', 0x1A: '\u02C6', 0x1B: '\u02D9',
+	0x1C: '\u02DD', 0x1D: '\u02DB', 0x1E: '\u02DA', 0x1F: '\u02DC',
+	0x80: '\u2022', 0x81: '\u2020', 0x82: '\u2021', 0x83: '\u2026',
+	0x84: '\u2014', 0x85: '\u2013', 0x86: '\u0192', 0x87: '\u2044',
+	0x88: '\u2039', 0x89: '\u203A', 0x8A: '\u2212', 0x8B: '\u2030',
+	0x8C: '\u201E', 0x8D: '\u201C', 0x8E: '\u201D', 0x8F: '\u2018',
+	0x90: '\u2019', 0x91: '\u201A', 0x92: '\u2122', 0x93: '\uFB01',
+	0x94: '\uFB02', 0x95: '\u0141', 0x96: '\u0152', 0x97: '\u0160',
+	0x98: '\u0178', 0x99: '\u017D', 0x9A: '\u0131', 0x9B: '\u0142',
+	0x9C: '\u0153', 0x9D: '\u0161', 0x9E: '\u017E', 0xA0: '\u20AC',
 }
 
 // inheritedPageAttributes are the page attributes a page takes from its ancestors
diff --git a/core/write/writer.go b/core/write/writer.go
index 07424c1..585af75 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -465,7 +465,8 @@ type rawValue string
 func textString(s string) interface{} {
 	ascii := true
 	for i := 0; i < len(s); i++ {
-		if s[i] >= 0x80 {
+		// PDFDocEncoding gives other meanings to most control characters
+		if s[i] >= 0x7F || s[i] < ' ' && !strings.ContainsRune("\t\n\r", rune(s[i])) {
 			ascii = false
 			break
 		}
-- 
2.43.0


From be2572409f8939af8dbd69b83ba92f9c4cfddc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 24/73] fix: bookmarks have page numbers and go-to actions lead
 to their destinations

---
 content/extract/annotations.go | 21 ++++-------
 content/extract/bookmarks.go   | 65 +++++++++++++++++++++++++++-------
 2 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index 42d72eb..df494a7 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -163,22 +163,13 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 
 	// Link-specific: Extract URI or Destination
 	if annotation.Type == types.AnnotationTypeLink {
-		// The URI is in the annotation's action
-		uri := resolveValue(extractDictValue(annotStr, "/URI"), pdf)
-		if action := resolveValue(extractDictValue(annotStr, "/A"), pdf); action != "" {
-			if value := extractDictValue(action, "/URI"); value != "" {
-				uri = resolveValue(value, pdf)
+		annotation.Destination, annotation.URI = target(annotStr, pdf)
+		if uri := resolveValue(extractDictValue(annotStr, "/URI"), pdf); uri != "" && annotation.URI == "" {
+			// A URI that is not in an action
+			if strings.HasPrefix(uri, "<<") {
+				uri = resolveValue(extractDictValue(uri, "/URI"), pdf)
 			}
-		}
-		if strings.HasPrefix(uri, "<<") {
-			uri = resolveValue(extractDictValue(uri, "/URI"), pdf)
-		}
-		annotation.URI = textString(uri)
-
-		// Check for Destination (named destination or array)
-		dest := destination(extractDictValue(annotStr, "/Dest"), pdf)
-		if dest != "" {
-			annotation.Destination = dest
+			annotation.URI = textString(uri)
 		}
 	}
 
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index 20770a6..9b1c5c2 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -45,8 +45,18 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 		return []types.Bookmark{}, nil
 	}
 
+	// Pages are numbered in the order of the page tree
+	pageNumbers := make(map[int]int)
+	if pagesObjNum, err := parseObjectRef(extractDictValue(string(catalogObj), "/Pages")); err == nil {
+		for i, pageObjNum := range pageObjectNumbers(pdf, pagesObjNum, map[int]bool{}) {
+			if pageNumbers[pageObjNum] == 0 {
+				pageNumbers[pageObjNum] = i + 1
+			}
+		}
+	}
+
 	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, map[int]bool{}, verbose)
+	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, pageNumbers, map[int]bool{}, verbose)
 	if err != nil {
 		return []types.Bookmark{}, nil
 	}
@@ -55,7 +65,7 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 }
 
 // extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, seen map[int]bool, verbose bool) ([]types.Bookmark, error) {
+func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, pageNumbers map[int]int, seen map[int]bool, verbose bool) ([]types.Bookmark, error) {
 	var bookmarks []types.Bookmark
 
 	itemObjNum, err := parseObjectRef(itemRef)
@@ -80,15 +90,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, seen map[int]bool
 	title := textString(resolveValue(extractDictValue(itemStr, "/Title"), pdf))
 
 	// Extract destination or action
-	dest := destination(extractDictValue(itemStr, "/Dest"), pdf)
-	uri := ""
-	if dest == "" {
-		// Check for action with URI
-		action := resolveValue(extractDictValue(itemStr, "/A"), pdf)
-		if action != "" {
-			uri = textString(resolveValue(extractDictValue(action, "/URI"), pdf))
-		}
-	}
+	dest, uri := target(itemStr, pdf)
 
 	bookmark := types.Bookmark{
 		Title:       title,
@@ -96,11 +98,16 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, seen map[int]bool
 		URI:         uri,
 		Children:    []types.Bookmark{},
 	}
+	if values := arrayValues(dest); len(values) > 0 && referencePattern.MatchString(values[0]) {
+		if pageObjNum, err := parseObjectRef(values[0]); err == nil {
+			bookmark.PageNumber = pageNumbers[pageObjNum]
+		}
+	}
 
 	// Extract children (First/Next chain)
 	firstRef := extractDictValue(itemStr, "/First")
 	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, seen, verbose)
+		children, err := extractBookmarksRecursive(pdf, firstRef, pageNumbers, seen, verbose)
 		if err == nil {
 			bookmark.Children = children
 		}
@@ -111,7 +118,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, seen map[int]bool
 	// Get next sibling
 	nextRef := extractDictValue(itemStr, "/Next")
 	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, seen, verbose)
+		siblings, err := extractBookmarksRecursive(pdf, nextRef, pageNumbers, seen, verbose)
 		if err == nil {
 			bookmarks = append(bookmarks, siblings...)
 		}
@@ -125,3 +132,35 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, seen map[int]bool
 func destination(value string, pdf *parse.PDF) string {
 	return textString(resolveValue(value, pdf))
 }
+
+// target returns what an outline item or a link leads to: a destination, its own or that of its
+// go-to action, or a URI
+func target(dictStr string, pdf *parse.PDF) (dest, uri string) {
+	if dest = destination(extractDictValue(dictStr, "/Dest"), pdf); dest != "" {
+		return dest, ""
+	}
+	action := resolveValue(extractDictValue(dictStr, "/A"), pdf)
+	if resolveValue(extractDictValue(action, "/S"), pdf) == "/GoTo" {
+		return destination(extractDictValue(action, "/D"), pdf), ""
+	}
+	return "", textString(resolveValue(extractDictValue(action, "/URI"), pdf))
+}
+
+// pageObjectNumbers lists the object numbers of the pages below a page tree node
+func pageObjectNumbers(pdf *parse.PDF, nodeObjNum int, seen map[int]bool) []int {
+	node, err := pdf.GetObject(nodeObjNum)
+	if err != nil || seen[nodeObjNum] {
+		return nil
+	}
+	if resolveValue(extractDictValue(string(node), "/Type"), pdf) == "/Page" {
+		return []int{nodeObjNum}
+	}
+	seen[nodeObjNum] = true
+	var pages []int
+	for _, kidRef := range parseObjectRefArray(resolveValue(extractDictValue(string(node), "/Kids"), pdf)) {
+		if kidObjNum, err := parseObjectRef(kidRef); err == nil {
+			pages = append(pages, pageObjectNumbers(pdf, kidObjNum, seen)...)
+		}
+	}
+	return pages
+}
-- 
2.43.0


From beeb00361f2d7e9c427beaf79f397812cb986988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 25/73] fix: direct annotations, annotation arrays with
 comments and all quadrilaterals are read

---
 content/extract/annotations.go | 64 +++++++++++++---------------------
 content/extract/pages.go       | 19 ++++------
 2 files changed, 32 insertions(+), 51 deletions(-)

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index df494a7..6347cf7 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -2,6 +2,7 @@ package extract
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
@@ -12,48 +13,37 @@ import (
 func extractAnnotations(annotsStr string, pdf *parse.PDF, pageNum int, verbose bool) []types.Annotation {
 	var annotations []types.Annotation
 
-	// Parse annotations array (e.g., "[5 0 R 6 0 R]")
-	annotRefs := parseObjectRefArray(annotsStr)
-	if len(annotRefs) == 0 {
-		// Try as single reference
-		if annotRefs = []string{annotsStr}; len(annotsStr) > 0 {
-			// Already set
-		} else {
-			return annotations
-		}
+	// Parse annotations array (e.g., "[5 0 R 6 0 R]"), or a single annotation
+	values := arrayValues(annotsStr)
+	if !strings.HasPrefix(annotsStr, "[") {
+		values = []string{annotsStr}
 	}
-
-	for _, annotRef := range annotRefs {
-		annotObjNum, err := parseObjectRef(annotRef)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to parse annotation reference %s: %v\n", annotRef, err)
+	for _, value := range values {
+		id := ""
+		if referencePattern.MatchString(value) {
+			annotObjNum, err := parseObjectRef(value)
+			if err != nil {
+				continue
 			}
-			continue
+			id = strconv.Itoa(annotObjNum)
 		}
 
-		annot := extractAnnotation(annotObjNum, pdf, pageNum, verbose)
+		annot := extractAnnotation(id, resolveValue(value, pdf), pdf, pageNum)
 		if annot != nil {
 			annotations = append(annotations, *annot)
+		} else if verbose {
+			fmt.Printf("Warning: failed to extract annotation %s\n", value)
 		}
 	}
 
 	return annotations
 }
 
-// extractAnnotation extracts a single annotation object
-func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose bool) *types.Annotation {
-	annotObj, err := pdf.GetObject(annotObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get annotation object %d: %v\n", annotObjNum, err)
-		}
-		return nil
-	}
-
-	annotStr := string(annotObj)
+// extractAnnotation extracts a single annotation from its dictionary; id is its object number,
+// "" if it is not an indirect object
+func extractAnnotation(id, annotStr string, pdf *parse.PDF, pageNum int) *types.Annotation {
 	annotation := &types.Annotation{
-		ID:         fmt.Sprintf("%d", annotObjNum),
+		ID:         id,
 		PageNumber: pageNum,
 		Properties: make(map[string]interface{}),
 	}
@@ -176,13 +166,13 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	// Text annotation-specific
 	if annotation.Type == types.AnnotationTypeText {
 		// Extract Open (is annotation open/popup visible)
-		openStr := extractDictValue(annotStr, "/Open")
+		openStr := resolveValue(extractDictValue(annotStr, "/Open"), pdf)
 		if openStr == "true" {
 			annotation.Open = true
 		}
 
 		// Extract Icon
-		icon := extractDictValue(annotStr, "/Name")
+		icon := resolveValue(extractDictValue(annotStr, "/Name"), pdf)
 		if icon != "" {
 			annotation.Icon = icon
 		}
@@ -194,14 +184,10 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type == types.AnnotationTypeStrikeout ||
 		annotation.Type == types.AnnotationTypeSquiggly {
 		quadPoints := extractArray(annotStr, "/QuadPoints", pdf)
-		if len(quadPoints) >= 8 {
-			// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
-			// For simplicity, extract first quad
-			annotation.QuadPoints = []types.Point{
-				{X: quadPoints[0], Y: quadPoints[1]},
-				{X: quadPoints[2], Y: quadPoints[3]},
-				{X: quadPoints[4], Y: quadPoints[5]},
-				{X: quadPoints[6], Y: quadPoints[7]},
+		// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
+		for i := 0; i+8 <= len(quadPoints); i += 8 {
+			for j := i; j < i+8; j += 2 {
+				annotation.QuadPoints = append(annotation.QuadPoints, types.Point{X: quadPoints[j], Y: quadPoints[j+1]})
 			}
 		}
 	}
diff --git a/content/extract/pages.go b/content/extract/pages.go
index fa0771e..0ebb7ce 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -2,7 +2,6 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -258,22 +257,18 @@ func numbers(array string, pdf *parse.PDF) []float64 {
 }
 
 func parseObjectRefArray(arrStr string) []string {
-	// Remove brackets if present
+	// Add the brackets if they are missing
 	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
+	if !strings.HasPrefix(arrStr, "[") {
+		arrStr = "[" + arrStr + "]"
+	}
 
 	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
+	for _, value := range arrayValues(arrStr) {
+		if referencePattern.MatchString(value) {
+			refs = append(refs, value)
 		}
 	}
-
 	return refs
 }
 
-- 
2.43.0


From b9a94876a3f7ce0468bd48a9efc3ee11b3dd4f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 26/73] fix: a document builder keeps the catalog its caller
 has made

---
 core/write/page.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 14b2a33..46cc46a 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -242,11 +242,11 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
-	// Create Catalog
-	if b.catalogObjNum == 0 {
+	// Create Catalog, unless the caller has made one
+	if b.writer.rootRef == "" {
 		b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
+		b.writer.SetRoot(b.catalogObjNum)
 	}
-	b.writer.SetRoot(b.catalogObjNum)
 
 	return b.writer.Bytes()
 }
@@ -266,6 +266,10 @@ func (b *SimplePDFBuilder) SetBookmarks(bookmarks []types.Bookmark) error {
 
 // PagesObjNum returns the pages object number
 func (b *SimplePDFBuilder) PagesObjNum() int {
+	if b.pagesObjNum == 0 {
+		b.pagesObjNum = b.writer.nextObjNum
+		b.writer.nextObjNum++
+	}
 	return b.pagesObjNum
 }
 
-- 
2.43.0


From d51ff12c0e17948c7e1ab3e903087df3106de909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 27/73] fix: form fields are read from the document structure
 with their inherited attributes

---
 content/extract/values.go     |  77 +------
 core/manipulate/manipulate.go |  16 ++
 core/parse/syntax.go          |  26 ++-
 core/parse/text.go            |  78 +++++++
 core/write/writer.go          |  10 +
 forms/acroform/extract.go     |  62 +++--
 forms/acroform/parser.go      | 419 +++++++++++++++++++++-------------
 forms/acroform/validation.go  |  99 ++++----
 8 files changed, 471 insertions(+), 316 deletions(-)
 create mode 100644 core/parse/text.go

diff --git a/content/extract/values.go b/content/extract/values.go
index ba6444c..4113725 100644
--- a/content/extract/values.go
+++ b/content/extract/values.go
@@ -1,12 +1,10 @@
 package extract
 
 import (
-	"bytes"
 	"math"
 	"regexp"
 	"strconv"
 	"strings"
-	"unicode/utf16"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -69,87 +67,26 @@ func dictEntries(dictStr string) []dictEntry {
 
 // arrayValues lists the values of an array
 func arrayValues(arrStr string) []string {
-	arr := []byte(strings.TrimSpace(arrStr))
-	if len(arr) < 2 || arr[0] != '[' || arr[len(arr)-1] != ']' {
-		return nil
-	}
-	arr = arr[1 : len(arr)-1]
 	var values []string
-	for p := 0; ; {
-		start, end, ok := parse.ScanValue(arr, p)
-		if !ok {
-			return values
-		}
-		values = append(values, string(arr[start:end]))
-		p = end
+	for _, value := range parse.ArrayValues([]byte(arrStr)) {
+		values = append(values, string(value))
 	}
+	return values
 }
 
 // stringBytes returns the bytes a literal or hexadecimal string stands for
 func stringBytes(value string) (string, bool) {
-	value = strings.TrimSpace(value)
-	if len(value) >= 2 && value[0] == '(' && value[len(value)-1] == ')' {
-		return unescapePDFString(value[1 : len(value)-1]), true
-	}
-	if len(value) >= 2 && value[0] == '<' && value[1] != '<' && value[len(value)-1] == '>' {
-		digits := bytes.Map(func(r rune) rune {
-			if strings.ContainsRune("0123456789abcdefABCDEF", r) {
-				return r
-			}
-			return -1
-		}, []byte(value))
-		if len(digits)%2 != 0 {
-			digits = append(digits, '0')
-		}
-		var out strings.Builder
-		for i := 0; i < len(digits); i += 2 {
-			b, _ := strconv.ParseUint(string(digits[i:i+2]), 16, 8)
-			out.WriteByte(byte(b))
-		}
-		return out.String(), true
-	}
-	return "", false
+	s, ok := parse.StringBytes([]byte(value))
+	return string(s), ok
 }
 
 // textString returns the text of a string value; a value that is not a string is returned as it is
 func textString(value string) string {
-	s, ok := stringBytes(value)
+	text, ok := parse.TextString([]byte(value))
 	if !ok {
 		return value
 	}
-	if strings.HasPrefix(s, "\xFE\xFF") {
-		units := make([]uint16, 0, len(s)/2)
-		for i := 2; i+1 < len(s); i += 2 {
-			units = append(units, uint16(s[i])<<8|uint16(s[i+1]))
-		}
-		return string(utf16.Decode(units))
-	}
-	if strings.HasPrefix(s, "\xEF\xBB\xBF") {
-		return s[3:]
-	}
-	text := make([]rune, 0, len(s))
-	for _, b := range []byte(s) {
-		r, ok := pdfDocEncoding[b]
-		if !ok {
-			r = rune(b)
-		}
-		text = append(text, r)
-	}
-	return string(text)
-}
-
-// pdfDocEncoding lists the codes of PDFDocEncoding that differ from Latin-1
-var pdfDocEncoding = map[byte]rune{
-	0x18: '\u02D8', 0x19: '\u02C7', 0x1A: '\u02C6', 0x1B: '\u02D9',
-	0x1C: '\u02DD', 0x1D: '\u02DB', 0x1E: '\u02DA', 0x1F: '\u02DC',
-	0x80: '\u2022', 0x81: '\u2020', 0x82: '\u2021', 0x83: '\u2026',
-	0x84: '\u2014', 0x85: '\u2013', 0x86: '\u0192', 0x87: '\u2044',
-	0x88: '\u2039', 0x89: '\u203A', 0x8A: '\u2212', 0x8B: '\u2030',
-	0x8C: '\u201E', 0x8D: '\u201C', 0x8E: '\u201D', 0x8F: '\u2018',
-	0x90: '\u2019', 0x91: '\u201A', 0x92: '\u2122', 0x93: '\uFB01',
-	0x94: '\uFB02', 0x95: '\u0141', 0x96: '\u0152', 0x97: '\u0160',
-	0x98: '\u0178', 0x99: '\u017D', 0x9A: '\u0131', 0x9B: '\u0142',
-	0x9C: '\u0153', 0x9D: '\u0161', 0x9E: '\u017E', 0xA0: '\u20AC',
+	return text
 }
 
 // inheritedPageAttributes are the page attributes a page takes from its ancestors
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 59c3391..309e8a6 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -27,7 +27,11 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
+	return NewManipulatorFor(pdf, pdfBytes, verbose)
+}
 
+// NewManipulatorFor creates a new PDF manipulator from a PDF that is already open
+func NewManipulatorFor(pdf *parse.PDF, pdfBytes []byte, verbose bool) (*PDFManipulator, error) {
 	// Create a new writer for rebuilding
 	writer := write.NewPDFWriter()
 
@@ -59,6 +63,18 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 	}, nil
 }
 
+// Object returns the current content of an object, nil if there is no such object
+func (m *PDFManipulator) Object(objNum int) []byte {
+	return m.objects[objNum]
+}
+
+// SetObject replaces the content of an object
+func (m *PDFManipulator) SetObject(objNum int, content []byte) {
+	m.objects[objNum] = parse.ReplaceReferences(content, func(num int) string {
+		return fmt.Sprintf("%d 0 R", num)
+	})
+}
+
 // Rebuild rebuilds the PDF with modified objects and returns the new PDF bytes
 func (m *PDFManipulator) Rebuild() ([]byte, error) {
 	return m.rebuildPDF()
diff --git a/core/parse/syntax.go b/core/parse/syntax.go
index 3bbe08a..34bb56c 100644
--- a/core/parse/syntax.go
+++ b/core/parse/syntax.go
@@ -84,6 +84,24 @@ func DictValue(object []byte, key string) []byte {
 	return object[start:end]
 }
 
+// ArrayValues lists the raw values of an array.
+func ArrayValues(array []byte) [][]byte {
+	array = bytes.TrimSpace(array)
+	if len(array) < 2 || array[0] != '[' || array[len(array)-1] != ']' {
+		return nil
+	}
+	array = array[1 : len(array)-1]
+	var values [][]byte
+	for p := 0; ; {
+		start, end, ok := ScanValue(array, p)
+		if !ok {
+			return values
+		}
+		values = append(values, array[start:end])
+		p = end
+	}
+}
+
 // streamParts separates the dictionary and the data of a stream object.
 func streamParts(object []byte) (map[string][]byte, []byte, error) {
 	section := make([]byte, 0, len(object)+20)
@@ -194,15 +212,15 @@ func (p *PDF) CatalogValue(path ...string) []byte {
 	if p.trailer == nil {
 		return nil
 	}
-	value := p.resolve([]byte(p.trailer.RootRef))
+	value := p.Resolve([]byte(p.trailer.RootRef))
 	for _, key := range path {
-		value = p.resolve(DictValue(value, key))
+		value = p.Resolve(DictValue(value, key))
 	}
 	return value
 }
 
-// resolve returns the value an indirect reference leads to; other values are returned as they are.
-func (p *PDF) resolve(value []byte) []byte {
+// Resolve returns the value an indirect reference leads to; other values are returned as they are.
+func (p *PDF) Resolve(value []byte) []byte {
 	for depth := 0; depth < 10; depth++ {
 		m := refPattern.FindIndex(value)
 		if m == nil || m[1] != len(value) {
diff --git a/core/parse/text.go b/core/parse/text.go
new file mode 100644
index 0000000..6ed60d5
--- /dev/null
+++ b/core/parse/text.go
@@ -0,0 +1,78 @@
+package parse
+
+import (
+	"bytes"
+	"strconv"
+	"strings"
+	"unicode/utf16"
+
+	"github.com/benedoc-inc/pdfer/core/internal/lex"
+)
+
+// StringBytes returns the bytes a literal or hexadecimal string stands for. ok is false if value
+// is not a string.
+func StringBytes(value []byte) (s []byte, ok bool) {
+	return lex.StringValue(bytes.TrimSpace(value))
+}
+
+// TextString returns the text of a text string. ok is false if value is not a string.
+func TextString(value []byte) (text string, ok bool) {
+	s, ok := StringBytes(value)
+	if !ok {
+		return "", false
+	}
+	if bytes.HasPrefix(s, []byte("\xFE\xFF")) {
+		units := make([]uint16, 0, len(s)/2)
+		for i := 2; i+1 < len(s); i += 2 {
+			units = append(units, uint16(s[i])<<8|uint16(s[i+1]))
+		}
+		return string(utf16.Decode(units)), true
+	}
+	if bytes.HasPrefix(s, []byte("\xEF\xBB\xBF")) {
+		return string(s[3:]), true
+	}
+	runes := make([]rune, 0, len(s))
+	for _, b := range s {
+		r, ok := pdfDocEncoding[b]
+		if !ok {
+			r = rune(b)
+		}
+		runes = append(runes, r)
+	}
+	return string(runes), true
+}
+
+// NameValue returns the text of a name without its slash and with its #xx escapes undone. ok is
+// false if value is not a name.
+func NameValue(value []byte) (name string, ok bool) {
+	value = bytes.TrimSpace(value)
+	if len(value) == 0 || value[0] != '/' {
+		return "", false
+	}
+	var out strings.Builder
+	for i := 1; i < len(value); i++ {
+		if value[i] == '#' && i+2 < len(value) {
+			if b, err := strconv.ParseUint(string(value[i+1:i+3]), 16, 8); err == nil {
+				out.WriteByte(byte(b))
+				i += 2
+				continue
+			}
+		}
+		out.WriteByte(value[i])
+	}
+	return out.String(), true
+}
+
+// pdfDocEncoding lists the codes of PDFDocEncoding that differ from Latin-1
+var pdfDocEncoding = map[byte]rune{
+	0x18: '\u02D8', 0x19: '\u02C7', 0x1A: '\u02C6', 0x1B: '\u02D9',
+	0x1C: '\u02DD', 0x1D: '\u02DB', 0x1E: '\u02DA', 0x1F: '\u02DC',
+	0x80: '\u2022', 0x81: '\u2020', 0x82: '\u2021', 0x83: '\u2026',
+	0x84: '\u2014', 0x85: '\u2013', 0x86: '\u0192', 0x87: '\u2044',
+	0x88: '\u2039', 0x89: '\u203A', 0x8A: '\u2212', 0x8B: '\u2030',
+	0x8C: '\u201E', 0x8D: '\u201C', 0x8E: '\u201D', 0x8F: '\u2018',
+	0x90: '\u2019', 0x91: '\u201A', 0x92: '\u2122', 0x93: '\uFB01',
+	0x94: '\uFB02', 0x95: '\u0141', 0x96: '\u0152', 0x97: '\u0160',
+	0x98: '\u0178', 0x99: '\u017D', 0x9A: '\u0131', 0x9B: '\u0142',
+	0x9C: '\u0153', 0x9D: '\u0161', 0x9E: '\u017E', 0xA0: '\u20AC',
+}
diff --git a/core/write/writer.go b/core/write/writer.go
index 585af75..6951398 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -481,6 +481,16 @@ func textString(s string) interface{} {
 	return text
 }
 
+// TextString returns the PDF string for a text, as it stands in a dictionary.
+func TextString(s string) string {
+	return new(PDFWriter).formatValue(textString(s))
+}
+
+// Name returns the PDF name for a name without a slash, as it stands in a dictionary.
+func Name(s string) string {
+	return escapeName("/" + s)
+}
+
 // escapeUnlessBalanced returns s unchanged if it can stand between parentheses as it is, and
 // escapes it otherwise.
 func escapeUnlessBalanced(s string) string {
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 4107412..aff5e96 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -2,28 +2,25 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractAcroForm extracts AcroForm structure from a PDF
 // This is the main entry point for AcroForm extraction
 func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*AcroForm, error) {
-	// Handle encryption
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		var err error
-		_, encryptInfo, err = encrypt.DecryptPDF(pdfBytes, password, verbose)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt PDF: %w", err)
-		}
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
 	// Parse AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
@@ -45,20 +42,15 @@ func ExtractFormSchema(pdfBytes []byte, password []byte, verbose bool) (*types.F
 func (af *AcroForm) GetFieldValues() map[string]interface{} {
 	values := make(map[string]interface{})
 
-	for _, field := range af.Fields {
+	af.walk(func(field *Field) {
+		if field.isWidget() {
+			return
+		}
 		fieldName := field.GetFullName()
 		if fieldName != "" && field.V != nil {
 			values[fieldName] = field.V
 		}
-
-		// Also get values from child fields
-		for _, kid := range field.Kids {
-			kidName := kid.GetFullName()
-			if kidName != "" && kid.V != nil {
-				values[kidName] = kid.V
-			}
-		}
-	}
+	})
 
 	return values
 }
@@ -67,6 +59,9 @@ func (af *AcroForm) GetFieldValues() map[string]interface{} {
 func (f *Field) GetFullName() string {
 	if f.Parent != nil {
 		parentName := f.Parent.GetFullName()
+		if f.T == "" {
+			return parentName // a widget has no name of its own
+		}
 		if parentName != "" {
 			return parentName + "." + f.T
 		}
@@ -74,19 +69,22 @@ func (f *Field) GetFullName() string {
 	return f.T
 }
 
-// FindFieldByName finds a field by its name
+// FindFieldByName finds a field by its full name or, if there is none, by its partial name
 func (af *AcroForm) FindFieldByName(name string) *Field {
-	for _, field := range af.Fields {
-		if field.GetFullName() == name || field.T == name {
-			return field
+	var found, partial *Field
+	af.walk(func(field *Field) {
+		if field.isWidget() {
+			return
 		}
-
-		// Search in kids
-		for _, kid := range field.Kids {
-			if kid.GetFullName() == name || kid.T == name {
-				return kid
-			}
+		if found == nil && field.GetFullName() == name {
+			found = field
+		}
+		if partial == nil && field.T == name {
+			partial = field
 		}
+	})
+	if found == nil {
+		return partial
 	}
-	return nil
+	return found
 }
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index c194273..1822dea 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -3,14 +3,24 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+// Button field flags; a button that is neither is a checkbox
+const (
+	flagRadio      = 1 << 15
+	flagPushbutton = 1 << 16
+)
+
+// Choice field flags
+const (
+	flagCombo = 1 << 17
+	flagEdit  = 1 << 18
+)
+
 // AcroForm represents an AcroForm dictionary structure
 type AcroForm struct {
 	Fields          []*Field
@@ -43,50 +53,35 @@ type Field struct {
 	Page       int                    // Page number (0-indexed)
 }
 
+// ChoiceOption is an option of a choice field whose displayed text differs from its value
+type ChoiceOption struct {
+	Value   string // Export value
+	Display string // Text shown to the user
+}
+
+// String returns the export value
+func (o ChoiceOption) String() string {
+	return o.Value
+}
+
 // ParseAcroForm extracts AcroForm structure from a PDF
 func ParseAcroForm(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	// Find AcroForm reference in catalog
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: []byte(""),
-		Verbose:  verbose,
+		Password:   []byte(""),
+		Verbose:    verbose,
+		Encryption: encryptInfo,
 	})
 	if err != nil {
 		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
 	}
-
-	// Search for /AcroForm in the PDF
-	// We'll parse directly from bytes for now
-	_ = pdf // May use later for better catalog access
-	return parseAcroFormFromBytes(pdfBytes, encryptInfo, verbose)
+	return parseAcroForm(pdf, verbose)
 }
 
-// parseAcroFormFromBytes finds and parses AcroForm by searching PDF bytes
-func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		if acroFormInlinePattern.FindStringIndex(pdfStr) == nil {
-			return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
-		}
-		// Inline AcroForm - would need more complex parsing
-		return nil, types.NewPDFError(types.ErrCodeUnsupportedPDF, "inline AcroForm not yet supported")
-	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidObject, "invalid AcroForm object number", err)
-	}
-
-	// Get AcroForm object
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapErrorf(types.ErrCodeObjectNotFound, err, "failed to get AcroForm object %d", acroFormObjNum)
+// parseAcroForm reads the AcroForm the document catalog refers to
+func parseAcroForm(pdf *parse.PDF, verbose bool) (*AcroForm, error) {
+	dict := pdf.CatalogValue("/AcroForm")
+	if _, _, ok := parse.DictSpan(dict); !ok {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
 	}
 
 	acroForm := &AcroForm{
@@ -94,7 +89,7 @@ func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, v
 	}
 
 	// Parse AcroForm dictionary
-	if err := parseAcroFormDict(acroFormData, acroForm, pdfBytes, encryptInfo, verbose); err != nil {
+	if err := parseAcroFormDict(dict, acroForm, pdf, verbose); err != nil {
 		return nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse AcroForm dictionary", err)
 	}
 
@@ -102,42 +97,32 @@ func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, v
 }
 
 // parseAcroFormDict parses the AcroForm dictionary
-func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) error {
-	dataStr := string(data)
-
+func parseAcroFormDict(dict []byte, acroForm *AcroForm, pdf *parse.PDF, verbose bool) error {
 	// Check for XFA (hybrid form)
-	if strings.Contains(dataStr, "/XFA") {
+	if xfa := dictValue(pdf, dict, "/XFA"); xfa != nil {
 		acroForm.XFA = true
 		if verbose {
 			fmt.Println("Found XFA in AcroForm (hybrid form)")
 		}
 	}
+	acroForm.NeedAppearances = string(dictValue(pdf, dict, "/NeedAppearances")) == "true"
 
 	// Find Fields array
-	fieldsPattern := regexp.MustCompile(`/Fields\s*\[([^\]]*)\]`)
-	fieldsMatch := fieldsPattern.FindStringSubmatch(dataStr)
-	if fieldsMatch == nil {
+	fields := dictValue(pdf, dict, "/Fields")
+	if len(fields) == 0 || fields[0] != '[' {
 		return types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
 	}
-
-	fieldsStr := fieldsMatch[1]
 	if verbose {
-		fmt.Printf("Found Fields array: %s\n", fieldsStr)
+		fmt.Printf("Found Fields array: %s\n", fields)
 	}
 
-	// Extract field references
-	fieldRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-	fieldRefs := fieldRefPattern.FindAllStringSubmatch(fieldsStr, -1)
-
+	pages := annotationPages(pdf)
 	seen := make(map[int]bool)
-	for _, ref := range fieldRefs {
-		objNum, _ := strconv.Atoi(ref[1])
-		genNum, _ := strconv.Atoi(ref[2])
-
-		field, err := parseField(pdfBytes, objNum, genNum, seen, encryptInfo, verbose)
+	for _, ref := range parse.ArrayValues(fields) {
+		field, err := parseField(pdf, ref, nil, pages, seen, verbose)
 		if err != nil {
 			if verbose {
-				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
+				fmt.Printf("Warning: Failed to parse field %s: %v\n", ref, err)
 			}
 			continue
 		}
@@ -145,152 +130,261 @@ func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encrypt
 		acroForm.Fields = append(acroForm.Fields, field)
 	}
 
+	acroForm.walk(func(field *Field) {
+		if field.FT == "Sig" && field.isTerminal() {
+			acroForm.SignatureFields = append(acroForm.SignatureFields, field.ObjectNum)
+		}
+	})
+
 	return nil
 }
 
-// parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, seen map[int]bool, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
+// parseField parses the field an indirect reference leads to
+func parseField(pdf *parse.PDF, ref []byte, parent *Field, pages map[int]int, seen map[int]bool, verbose bool) (*Field, error) {
+	var objNum, genNum int
+	if _, err := fmt.Sscanf(string(ref), "%d %d R", &objNum, &genNum); err != nil {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "field is not an indirect object")
+	}
+
 	// A field that was already visited would make the hierarchy infinite
 	if seen[objNum] {
 		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "field occurs twice in the field hierarchy")
 	}
 	seen[objNum] = true
 
-	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
+	dict := pdf.Resolve(ref)
+	if _, _, ok := parse.DictSpan(dict); !ok {
+		return nil, types.NewPDFErrorf(types.ErrCodeFieldNotFound, "failed to get field object %d", objNum)
 	}
 
 	field := &Field{
 		ObjectNum:  objNum,
 		Generation: genNum,
+		Parent:     parent,
 		Kids:       make([]*Field, 0),
 	}
 
-	dataStr := string(fieldData)
+	// Attributes a field takes from its ancestors
+	if parent != nil {
+		field.FT = parent.FT
+		field.Ff = parent.Ff
+		field.V = parent.V
+		field.DV = parent.DV
+		field.DA = parent.DA
+		field.Q = parent.Q
+		field.MaxLen = parent.MaxLen
+		field.Opt = parent.Opt
+	}
 
 	// Extract field type (FT)
-	if ftMatch := regexp.MustCompile(`/FT\s*/(\w+)`).FindStringSubmatch(dataStr); ftMatch != nil {
-		field.FT = ftMatch[1]
+	if ft, ok := parse.NameValue(dictValue(pdf, dict, "/FT")); ok {
+		field.FT = ft
 	}
 
-	// Extract field name (T)
-	if tMatch := regexp.MustCompile(`/T\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	} else if tMatch := regexp.MustCompile(`/T\s*/(\w+)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	}
-
-	// Extract alternate name (TU)
-	if tuMatch := regexp.MustCompile(`/TU\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tuMatch != nil {
-		field.TU = tuMatch[1]
-	}
+	// Extract field names (T, TU, TM)
+	field.T = textValue(dictValue(pdf, dict, "/T"))
+	field.TU = textValue(dictValue(pdf, dict, "/TU"))
+	field.TM = textValue(dictValue(pdf, dict, "/TM"))
 
 	// Extract field flags (Ff)
-	if ffMatch := regexp.MustCompile(`/Ff\s+(\d+)`).FindStringSubmatch(dataStr); ffMatch != nil {
-		field.Ff, _ = strconv.Atoi(ffMatch[1])
+	if ff, err := strconv.Atoi(string(dictValue(pdf, dict, "/Ff"))); err == nil {
+		field.Ff = ff
 	}
 
-	// Extract value (V)
-	if vMatch := regexp.MustCompile(`/V\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*/(\w+)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); vMatch != nil {
-		// Array value (for choice fields)
-		field.V = parseArray(vMatch[1])
+	// Extract value (V) and default value (DV)
+	if v := fieldValue(pdf, dictValue(pdf, dict, "/V")); v != nil {
+		field.V = v
+	}
+	if dv := fieldValue(pdf, dictValue(pdf, dict, "/DV")); dv != nil {
+		field.DV = dv
 	}
 
-	// Extract default value (DV)
-	if dvMatch := regexp.MustCompile(`/DV\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); dvMatch != nil {
-		field.DV = dvMatch[1]
+	// Extract default appearance (DA) and quadding (Q)
+	if da := dictValue(pdf, dict, "/DA"); da != nil {
+		field.DA = textValue(da)
+	}
+	if q, err := strconv.Atoi(string(dictValue(pdf, dict, "/Q"))); err == nil {
+		field.Q = q
 	}
 
 	// Extract maximum length (MaxLen)
-	if maxLenMatch := regexp.MustCompile(`/MaxLen\s+(\d+)`).FindStringSubmatch(dataStr); maxLenMatch != nil {
-		field.MaxLen, _ = strconv.Atoi(maxLenMatch[1])
+	if maxLen, err := strconv.Atoi(string(dictValue(pdf, dict, "/MaxLen"))); err == nil {
+		field.MaxLen = maxLen
 	}
 
-	// Extract options (Opt) - for choice fields
-	if optMatch := regexp.MustCompile(`/Opt\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); optMatch != nil {
-		field.Opt = parseOptions(optMatch[1])
+	// Extract options (Opt), top index (TI) and selected indices (I) - for choice fields
+	if opt := dictValue(pdf, dict, "/Opt"); opt != nil {
+		field.Opt = parseOptions(pdf, opt)
+	}
+	if ti, err := strconv.Atoi(string(dictValue(pdf, dict, "/TI"))); err == nil {
+		field.TI = ti
+	}
+	if i := dictValue(pdf, dict, "/I"); i != nil {
+		for _, item := range parse.ArrayValues(i) {
+			if index, err := strconv.Atoi(string(pdf.Resolve(item))); err == nil {
+				field.I = append(field.I, index)
+			}
+		}
 	}
 
 	// Extract rectangle (Rect) - field position
-	if rectMatch := regexp.MustCompile(`/Rect\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); rectMatch != nil {
-		field.Rect = parseRect(rectMatch[1])
+	field.Rect = parseRect(pdf, dictValue(pdf, dict, "/Rect"))
+	if page, ok := pages[objNum]; ok {
+		field.Page = page
 	}
 
 	// Extract kids (child fields)
-	if kidsMatch := regexp.MustCompile(`/Kids\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); kidsMatch != nil {
-		kidsStr := kidsMatch[1]
-		kidRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-		kidRefs := kidRefPattern.FindAllStringSubmatch(kidsStr, -1)
-
-		for _, ref := range kidRefs {
-			kidObjNum, _ := strconv.Atoi(ref[1])
-			kidGenNum, _ := strconv.Atoi(ref[2])
-
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, seen, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-				}
-				continue
+	for _, kid := range parse.ArrayValues(dictValue(pdf, dict, "/Kids")) {
+		kidField, err := parseField(pdf, kid, field, pages, seen, verbose)
+		if err != nil {
+			if verbose {
+				fmt.Printf("Warning: Failed to parse kid field %s: %v\n", kid, err)
 			}
-			kidField.Parent = field
-			field.Kids = append(field.Kids, kidField)
+			continue
 		}
+		field.Kids = append(field.Kids, kidField)
+	}
+	if _, ok := pages[objNum]; !ok && len(field.Kids) > 0 {
+		field.Page = field.Kids[0].Page
 	}
 
 	return field, nil
 }
 
-// parseArray parses a PDF array string
-func parseArray(arrStr string) []interface{} {
-	items := make([]interface{}, 0)
-	// Simple parsing - split by spaces and handle strings
-	parts := strings.Fields(arrStr)
-	for _, part := range parts {
-		if strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
-			items = append(items, part[1:len(part)-1])
-		} else {
-			items = append(items, part)
+// dictValue returns the value of a dictionary's own key, following an indirect reference; nil if
+// there is none
+func dictValue(pdf *parse.PDF, dict []byte, key string) []byte {
+	value := pdf.Resolve(parse.DictValue(dict, key))
+	if string(value) == "null" {
+		return nil
+	}
+	return value
+}
+
+// textValue returns the text of a string or a name, "" for anything else
+func textValue(value []byte) string {
+	if text, ok := parse.TextString(value); ok {
+		return text
+	}
+	text, _ := parse.NameValue(value)
+	return text
+}
+
+// fieldValue returns the value of a field: a string for a text string or a name, a list for an
+// array, and nil for a missing value or one that is neither
+func fieldValue(pdf *parse.PDF, value []byte) interface{} {
+	if text, ok := parse.TextString(value); ok {
+		return text
+	}
+	if name, ok := parse.NameValue(value); ok {
+		return name
+	}
+	if len(value) > 0 && value[0] == '[' {
+		// Array value (for choice fields)
+		items := make([]interface{}, 0)
+		for _, item := range parse.ArrayValues(value) {
+			items = append(items, textValue(pdf.Resolve(item)))
 		}
+		return items
 	}
-	return items
+	return nil
 }
 
 // parseOptions parses choice field options
-func parseOptions(optStr string) []interface{} {
-	// Options can be array of strings or array of [value, display] pairs
+func parseOptions(pdf *parse.PDF, array []byte) []interface{} {
+	// Options can be strings or [value, display] pairs
 	options := make([]interface{}, 0)
-
-	// Try to parse as array of strings first
-	if strings.Contains(optStr, "(") {
-		// Extract string values
-		strPattern := regexp.MustCompile(`\(([^)]*)\)`)
-		matches := strPattern.FindAllStringSubmatch(optStr, -1)
-		for _, match := range matches {
-			options = append(options, match[1])
+	for _, item := range parse.ArrayValues(array) {
+		item = pdf.Resolve(item)
+		if pair := parse.ArrayValues(item); len(pair) == 2 {
+			options = append(options, ChoiceOption{
+				Value:   textValue(pdf.Resolve(pair[0])),
+				Display: textValue(pdf.Resolve(pair[1])),
+			})
+			continue
 		}
+		options = append(options, textValue(item))
 	}
-
 	return options
 }
 
 // parseRect parses a rectangle array [llx lly urx ury]
-func parseRect(rectStr string) []float64 {
-	parts := strings.Fields(rectStr)
+func parseRect(pdf *parse.PDF, array []byte) []float64 {
+	if array == nil {
+		return nil
+	}
 	rect := make([]float64, 0, 4)
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
+	for _, item := range parse.ArrayValues(array) {
+		if val, err := strconv.ParseFloat(string(pdf.Resolve(item)), 64); err == nil {
 			rect = append(rect, val)
 		}
 	}
+	if len(rect) == 4 {
+		if rect[0] > rect[2] {
+			rect[0], rect[2] = rect[2], rect[0]
+		}
+		if rect[1] > rect[3] {
+			rect[1], rect[3] = rect[3], rect[1]
+		}
+	}
 	return rect
 }
 
+// annotationPages returns the page index of every annotation that is an indirect object
+func annotationPages(pdf *parse.PDF) map[int]int {
+	pages := make(map[int]int)
+	seen := make(map[string]bool)
+	count := 0
+	var walk func(node []byte)
+	walk = func(node []byte) {
+		if kids := dictValue(pdf, node, "/Kids"); kids != nil {
+			for _, kid := range parse.ArrayValues(kids) {
+				if !seen[string(kid)] {
+					seen[string(kid)] = true
+					walk(pdf.Resolve(kid))
+				}
+			}
+			return
+		}
+		for _, annot := range parse.ArrayValues(dictValue(pdf, node, "/Annots")) {
+			var objNum, genNum int
+			if _, err := fmt.Sscanf(string(annot), "%d %d R", &objNum, &genNum); err == nil {
+				pages[objNum] = count
+			}
+		}
+		count++
+	}
+	walk(pdf.CatalogValue("/Pages"))
+	return pages
+}
+
+// walk calls visit for every field of the form, parents before their kids
+func (af *AcroForm) walk(visit func(*Field)) {
+	var each func(fields []*Field)
+	each = func(fields []*Field) {
+		for _, field := range fields {
+			visit(field)
+			each(field.Kids)
+		}
+	}
+	each(af.Fields)
+}
+
+// isWidget reports whether the field is only a widget annotation of its parent
+func (f *Field) isWidget() bool {
+	return f.Parent != nil && f.T == "" && len(f.Kids) == 0
+}
+
+// isTerminal reports whether the field has a value of its own: it has no child fields
+func (f *Field) isTerminal() bool {
+	for _, kid := range f.Kids {
+		if !kid.isWidget() {
+			return false
+		}
+	}
+	return !f.isWidget()
+}
+
 // ToFormSchema converts AcroForm to FormSchema
 func (af *AcroForm) ToFormSchema() *types.FormSchema {
 	schema := &types.FormSchema{
@@ -301,12 +395,15 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 		Rules:     make([]types.Rule, 0),
 	}
 
-	for _, field := range af.Fields {
+	af.walk(func(field *Field) {
+		if !field.isTerminal() {
+			return
+		}
 		question := field.ToQuestion()
 		if question != nil {
 			schema.Questions = append(schema.Questions, *question)
 		}
-	}
+	})
 
 	return schema
 }
@@ -315,7 +412,7 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 func (f *Field) ToQuestion() *types.Question {
 	question := &types.Question{
 		ID:         fmt.Sprintf("field_%d", f.ObjectNum),
-		Name:       f.T,
+		Name:       f.GetFullName(),
 		Label:      f.TU,
 		Type:       mapFieldTypeWithFlags(f.FT, f.Ff),
 		Required:   (f.Ff & 0x2) != 0, // Required flag
@@ -338,9 +435,13 @@ func (f *Field) ToQuestion() *types.Question {
 		question.Options = make([]types.Option, 0, len(f.Opt))
 		for i, opt := range f.Opt {
 			optStr := fmt.Sprintf("%v", opt)
+			label := optStr
+			if choice, ok := opt.(ChoiceOption); ok {
+				label = choice.Display
+			}
 			question.Options = append(question.Options, types.Option{
 				Value: optStr,
-				Label: optStr,
+				Label: label,
 			})
 			// Check if this option is selected
 			if f.I != nil {
@@ -361,12 +462,16 @@ func (f *Field) ToQuestion() *types.Question {
 	}
 
 	// Add position properties
-	if len(f.Rect) >= 4 {
-		question.Properties["rect"] = f.Rect
-		question.Properties["x"] = f.Rect[0]
-		question.Properties["y"] = f.Rect[1]
-		question.Properties["width"] = f.Rect[2] - f.Rect[0]
-		question.Properties["height"] = f.Rect[3] - f.Rect[1]
+	rect := f.Rect
+	if len(rect) < 4 && len(f.Kids) > 0 {
+		rect = f.Kids[0].Rect
+	}
+	if len(rect) >= 4 {
+		question.Properties["rect"] = rect
+		question.Properties["x"] = rect[0]
+		question.Properties["y"] = rect[1]
+		question.Properties["width"] = rect[2] - rect[0]
+		question.Properties["height"] = rect[3] - rect[1]
 	}
 
 	question.Properties["page"] = f.Page
@@ -398,18 +503,16 @@ func mapFieldTypeWithFlags(ft string, flags int) types.ResponseType {
 	case "Tx":
 		return types.ResponseTypeText
 	case "Btn":
-		// Checkbox flag is 0x8000 (bit 15)
-		if (flags & 0x8000) != 0 {
-			return types.ResponseTypeCheckbox
-		}
-		// Radio button flag is 0x10000 (bit 16)
-		if (flags & 0x10000) != 0 {
+		if (flags & flagRadio) != 0 {
 			return types.ResponseTypeRadio
 		}
-		return types.ResponseTypeButton
+		if (flags & flagPushbutton) != 0 {
+			return types.ResponseTypeButton
+		}
+		return types.ResponseTypeCheckbox
 	case "Ch":
 		// Combo box flag is 0x20000 (bit 17)
-		if (flags & 0x20000) != 0 {
+		if (flags & flagCombo) != 0 {
 			return types.ResponseTypeSelect // Dropdown
 		}
 		return types.ResponseTypeSelect // List box
diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index d984078..6d826dc 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -62,11 +63,11 @@ func ValidateField(field *Field, value interface{}) error {
 func validateTextField(field *Field, value interface{}) error {
 	valueStr, ok := value.(string)
 	if !ok {
-		valueStr = fmt.Sprintf("%v", value)
+		valueStr = formatFieldValue(value, field.FT)
 	}
 
 	// Check max length
-	if field.MaxLen > 0 && len(valueStr) > field.MaxLen {
+	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
 			Message:   fmt.Sprintf("value exceeds maximum length of %d", field.MaxLen),
@@ -86,18 +87,10 @@ func validateTextField(field *Field, value interface{}) error {
 
 // validateButtonField validates a button field (checkbox/radio/button)
 func validateButtonField(field *Field, value interface{}) error {
-	// Checkbox validation
-	if (field.Ff & 0x8000) != 0 { // Checkbox flag
-		// Checkbox values are typically "Yes", "On", "Off", or appearance state names
-		valueStr := fmt.Sprintf("%v", value)
-		if valueStr != "Yes" && valueStr != "On" && valueStr != "Off" && valueStr != "No" {
-			// Allow custom appearance state names
-			return nil
-		}
-	}
+	// Checkbox values are typically "Yes", "On", "Off", or appearance state names
 
 	// Radio button validation
-	if (field.Ff & 0x10000) != 0 { // Radio button flag
+	if (field.Ff & flagRadio) != 0 {
 		// Radio buttons should match one of the option values
 		if len(field.Opt) > 0 {
 			valueStr := fmt.Sprintf("%v", value)
@@ -127,23 +120,40 @@ func validateChoiceField(field *Field, value interface{}) error {
 		return nil // No options to validate against
 	}
 
-	valueStr := fmt.Sprintf("%v", value)
+	if (field.Ff&flagCombo) != 0 && (field.Ff&flagEdit) != 0 {
+		return nil // The user may enter any text
+	}
 
-	// Check if value is in options
-	found := false
-	for _, opt := range field.Opt {
-		optStr := fmt.Sprintf("%v", opt)
-		if optStr == valueStr {
-			found = true
-			break
+	// Check if value is in options, or all values if there are several
+	values := []interface{}{value}
+	switch v := value.(type) {
+	case nil:
+		return nil // Nothing is selected
+	case []interface{}:
+		values = v
+	case []string:
+		values = values[:0]
+		for _, item := range v {
+			values = append(values, item)
 		}
 	}
+	for _, item := range values {
+		valueStr := fmt.Sprintf("%v", item)
+		found := false
+		for _, opt := range field.Opt {
+			optStr := fmt.Sprintf("%v", opt)
+			if optStr == valueStr {
+				found = true
+				break
+			}
+		}
 
-	if !found {
-		return &ValidationError{
-			FieldName: field.GetFullName(),
-			Message:   "value is not in the list of valid options",
-			Value:     value,
+		if !found {
+			return &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "value is not in the list of valid options",
+				Value:     value,
+			}
 		}
 	}
 
@@ -171,12 +181,14 @@ func validateSignatureField(field *Field, value interface{}) error {
 func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	var errors []error
 
+	provided := make(map[*Field]bool)
 	for fieldName, value := range formData {
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			errors = append(errors, fmt.Errorf("field '%s' not found in form", fieldName))
 			continue
 		}
+		provided[field] = true
 
 		if err := ValidateField(field, value); err != nil {
 			errors = append(errors, err)
@@ -184,32 +196,15 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	}
 
 	// Check for missing required fields
-	for _, field := range acroForm.Fields {
-		if (field.Ff & 0x2) != 0 { // Required flag
-			fieldName := field.GetFullName()
-			if _, found := formData[fieldName]; !found {
-				errors = append(errors, &ValidationError{
-					FieldName: fieldName,
-					Message:   "required field is missing",
-					Value:     nil,
-				})
-			}
-		}
-
-		// Check child fields too
-		for _, kid := range field.Kids {
-			if (kid.Ff & 0x2) != 0 {
-				kidName := kid.GetFullName()
-				if _, found := formData[kidName]; !found {
-					errors = append(errors, &ValidationError{
-						FieldName: kidName,
-						Message:   "required field is missing",
-						Value:     nil,
-					})
-				}
-			}
+	acroForm.walk(func(field *Field) {
+		if (field.Ff&0x2) != 0 && field.isTerminal() && !provided[field] { // Required flag
+			errors = append(errors, &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "required field is missing",
+				Value:     nil,
+			})
 		}
-	}
+	})
 
 	return errors
 }
@@ -233,7 +228,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check min length
-	if question.Validation.MinLength != nil && len(valueStr) < *question.Validation.MinLength {
+	if question.Validation.MinLength != nil && utf8.RuneCountInString(valueStr) < *question.Validation.MinLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too short (minimum %d characters)", *question.Validation.MinLength),
@@ -242,7 +237,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check max length
-	if question.Validation.MaxLength != nil && len(valueStr) > *question.Validation.MaxLength {
+	if question.Validation.MaxLength != nil && utf8.RuneCountInString(valueStr) > *question.Validation.MaxLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too long (maximum %d characters)", *question.Validation.MaxLength),
-- 
2.43.0


From a66352e87137d78e3bbd46893ae21e21856a99bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 28/73] fix: filling a form sets exactly the named fields in
 every file layout

---
 forms/acroform/fill_streams.go   | 161 ++-----------------
 forms/acroform/flatten.go        |  99 ++++++------
 forms/acroform/replace.go        | 217 +++++++++++++++----------
 forms/acroform/stream_finder.go  |  51 ------
 forms/acroform/stream_rebuild.go | 264 ++-----------------------------
 forms/acroform/writer.go         | 105 +++---------
 6 files changed, 243 insertions(+), 654 deletions(-)
 delete mode 100644 forms/acroform/stream_finder.go

diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 154e026..f8d9c25 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -2,11 +2,10 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
-	"regexp"
-	"strings"
+	"sort"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -26,29 +25,25 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	if acroForm == nil {
-		return nil, fmt.Errorf("AcroForm is nil")
+	m, err := manipulate.NewManipulatorFor(pdf, pdfBytes, verbose)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read PDF: %w", err)
 	}
 
-	// Get object locations from parser
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Track updates per stream
-	streamUpdates := make(map[int][]StreamObjectUpdate)
+	fieldNames := make([]string, 0, len(formData))
+	for fieldName := range formData {
+		fieldNames = append(fieldNames, fieldName)
+	}
+	sort.Strings(fieldNames)
 
-	for fieldName, value := range formData {
+	for _, fieldName := range fieldNames {
+		value := formData[fieldName]
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			if verbose {
@@ -57,141 +52,17 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 			continue
 		}
 
-		// Check if field is in an object stream by accessing xref
-		// We need to get the object reference from the parser's internal xref
-		// For now, try to get the object and check if it's accessible
-		objData, objErr := pdf.GetObject(field.ObjectNum)
-		if objErr != nil {
+		if err := setFieldValue(pdf, m, field, value); err != nil {
 			if verbose {
-				fmt.Printf("Warning: Cannot access object %d: %v, trying direct replacement\n", field.ObjectNum, objErr)
-			}
-			// Try direct replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil && verbose {
-				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
+				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, err)
 			}
 			continue
 		}
 
-		// Check if object appears to be from a stream (no "obj" header)
-		checkLen := 50
-		if len(objData) < checkLen {
-			checkLen = len(objData)
-		}
-		isInStream := !bytes.Contains(objData[:checkLen], []byte(fmt.Sprintf("%d 0 obj", field.ObjectNum)))
-
-		if isInStream {
-			// Field is in an object stream - prepare update
-			updatedContent, err := updateFieldContent(objData, field, value)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to update field content: %v\n", err)
-				}
-				continue
-			}
-
-			// Find which stream contains this object
-			streamObjNum := findStreamForObject(pdfBytes, field.ObjectNum, encryptInfo, verbose)
-			if streamObjNum > 0 {
-				// Get stream index from xref
-				startXRef := findStartXRef(pdfBytes)
-				var streamIndex int
-				if startXRef >= 0 {
-					xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-					if err == nil {
-						if entry, ok := xrefResult.ObjectStreams[field.ObjectNum]; ok {
-							streamIndex = entry.IndexInStream
-						}
-					}
-				}
-
-				// Add to stream updates
-				streamUpdates[streamObjNum] = append(streamUpdates[streamObjNum], StreamObjectUpdate{
-					ObjNum:     field.ObjectNum,
-					Index:      streamIndex,
-					NewContent: updatedContent,
-				})
-
-				if verbose {
-					fmt.Printf("Prepared update for field '%s' (obj %d) in stream %d at index %d\n",
-						fieldName, field.ObjectNum, streamObjNum, streamIndex)
-				}
-			} else {
-				if verbose {
-					fmt.Printf("Warning: Could not find stream for object %d, using direct replacement\n", field.ObjectNum)
-				}
-				// Fall back to direct replacement
-				var fillErr error
-				result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr != nil && verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-			}
-		} else {
-			// Direct object - use simple replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-				continue
-			}
-		}
-
 		if verbose {
 			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, value)
 		}
 	}
 
-	// Rebuild object streams that were modified
-	for streamObjNum, updates := range streamUpdates {
-		if verbose {
-			fmt.Printf("Rebuilding object stream %d with %d updates\n", streamObjNum, len(updates))
-		}
-
-		var rebuildErr error
-		result, rebuildErr = RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
-		if rebuildErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
-			}
-			// Continue with other streams
-			continue
-		}
-
-		if verbose {
-			fmt.Printf("Successfully rebuilt object stream %d\n", streamObjNum)
-		}
-	}
-
-	if len(result) == 0 {
-		return nil, fmt.Errorf("result PDF is empty after filling")
-	}
-
-	return result, nil
-}
-
-// updateFieldContent updates field content with new value
-func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]byte, error) {
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
-		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
-	}
-
-	return []byte(newFieldStr), nil
+	return m.Rebuild()
 }
diff --git a/forms/acroform/flatten.go b/forms/acroform/flatten.go
index c0dbde9..ad14087 100644
--- a/forms/acroform/flatten.go
+++ b/forms/acroform/flatten.go
@@ -4,11 +4,10 @@ package acroform
 import (
 	"fmt"
 	"regexp"
-	"strconv"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
-	"github.com/benedoc-inc/pdfer/core/write"
 )
 
 // FlattenForm converts form fields to static content (removes interactivity)
@@ -23,21 +22,12 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	// Create new PDF writer
-	w := write.NewPDFWriter()
-	w.SetVersion(pdf.Version())
-
 	// For each field, we need to:
 	// 1. Get the field's appearance stream (if it exists)
 	// 2. Add it to the page content
@@ -53,20 +43,46 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 		fmt.Printf("Flattening %d form fields\n", len(acroForm.Fields))
 	}
 
-	// For now, return a copy with AcroForm reference removed from catalog
+	// For now, return a copy with the AcroForm removed from the catalog
 	// Full implementation would require page-level annotation removal
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Remove AcroForm reference from catalog (simplified)
-	catalogPattern := regexp.MustCompile(`/AcroForm\s+\d+\s+\d+\s+R`)
-	result = catalogPattern.ReplaceAll(result, []byte(""))
+	m, err := manipulate.NewManipulatorFor(pdf, pdfBytes, verbose)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read PDF: %w", err)
+	}
+	var catalogNum int
+	if _, err := fmt.Sscanf(pdf.Trailer().RootRef, "%d", &catalogNum); err != nil {
+		return nil, fmt.Errorf("document catalog not found")
+	}
+	m.SetObject(catalogNum, removeDictKey(m.Object(catalogNum), "/AcroForm"))
 
 	if verbose {
 		fmt.Println("Form flattened (AcroForm reference removed)")
 	}
 
-	return result, nil
+	return m.Rebuild()
+}
+
+// removeDictKey removes one of a dictionary's own keys
+func removeDictKey(object []byte, key string) []byte {
+	p, end, ok := parse.DictSpan(object)
+	if !ok {
+		return object
+	}
+	out := append([]byte{}, object[:p]...)
+	for {
+		ks, ke, ok := parse.ScanToken(object[:end], p)
+		if !ok {
+			return append(out, object[p:]...)
+		}
+		_, ve, ok := parse.ScanValue(object[:end], ke)
+		if !ok {
+			return append(out, object[p:]...)
+		}
+		if string(object[ks:ke]) != key {
+			out = append(out, object[p:ve]...)
+		}
+		p = ve
+	}
 }
 
 // FlattenField converts a single field to static content
@@ -100,43 +116,36 @@ func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryptio
 
 // GetFieldAppearance gets the appearance stream for a field
 func GetFieldAppearance(field *Field, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Verbose:    verbose,
+		Encryption: encryptInfo,
+	})
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	fieldStr := string(fieldData)
+	dict := pdf.Resolve([]byte(fmt.Sprintf("%d %d R", field.ObjectNum, field.Generation)))
 
 	// Find /AP dictionary
-	apPattern := regexp.MustCompile(`/AP\s*<<([^>]*)>>`)
-	apMatch := apPattern.FindStringSubmatch(fieldStr)
-	if apMatch == nil {
+	appearances := dictValue(pdf, dict, "/AP")
+	if appearances == nil {
 		return nil, fmt.Errorf("no appearance stream found for field")
 	}
 
-	// Find /N (normal appearance) stream reference
-	nPattern := regexp.MustCompile(`/N\s+(\d+)\s+(\d+)\s+R`)
-	nMatch := nPattern.FindStringSubmatch(apMatch[1])
-	if nMatch == nil {
+	// Find /N (normal appearance): a stream, or one stream for every state
+	appearance := parse.DictValue(appearances, "/N")
+	if _, _, ok := parse.SplitStream(pdf.Resolve(appearance)); !ok {
+		state := string(dictValue(pdf, dict, "/AS"))
+		appearance = parse.DictValue(pdf.Resolve(appearance), state)
+	}
+	var appearanceObjNum int
+	if _, err := fmt.Sscanf(string(appearance), "%d", &appearanceObjNum); err != nil {
 		return nil, fmt.Errorf("no normal appearance stream found")
 	}
 
-	appearanceObjNum, _ := strconv.Atoi(nMatch[1])
-	_ = nMatch[2] // Generation number (usually 0)
-
 	// Get appearance stream
-	appearanceData, err := parse.GetObject(pdfBytes, appearanceObjNum, encryptInfo, false)
+	content, err := pdf.StreamContent(appearanceObjNum)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get appearance stream: %w", err)
 	}
-
-	// Extract stream data (if it's a stream object)
-	streamPattern := regexp.MustCompile(`stream\s*\n(.*?)\nendstream`)
-	streamMatch := streamPattern.FindStringSubmatch(string(appearanceData))
-	if streamMatch != nil {
-		return []byte(streamMatch[1]), nil
-	}
-
-	return appearanceData, nil
+	return content, nil
 }
diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 136ce0f..78b382b 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -3,93 +3,174 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/manipulate"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ReplaceFieldObject replaces a field object in a PDF
 func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the object
-	objPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum))
-	objMatch := objPattern.FindStringIndex(pdfStr)
-	if objMatch == nil {
+	_, m, err := openForUpdate(pdfBytes, encryptInfo, verbose)
+	if err != nil {
+		return nil, err
+	}
+	old := m.Object(objNum)
+	if old == nil {
 		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
 	}
+	m.SetObject(objNum, newContent)
 
-	objStart := objMatch[0]
-	objHeaderEnd := objStart + objMatch[1] - objMatch[0]
-
-	// Find endobj - search from after the header
-	searchStart := objHeaderEnd
-	endObjPattern := regexp.MustCompile(`endobj`)
-	endObjMatches := endObjPattern.FindAllStringIndex(pdfStr[searchStart:], -1)
-	if len(endObjMatches) == 0 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	if verbose {
+		fmt.Printf("Replaced object %d %d: %d bytes -> %d bytes\n", objNum, genNum, len(old), len(newContent))
 	}
 
-	// Find the first endobj after our object start
-	endObjPos := searchStart + endObjMatches[0][1]
-
-	// Reconstruct: before object + header + new content + endobj + after object
-	before := pdfBytes[:objHeaderEnd]
-	after := pdfBytes[endObjPos:]
-
-	result := make([]byte, 0, len(before)+len(newContent)+len(after)+20)
-	result = append(result, before...)
-	result = append(result, []byte("\n")...)
-	result = append(result, newContent...)
-	result = append(result, []byte("\nendobj\n")...)
-	result = append(result, after...)
+	return m.Rebuild()
+}
 
-	if verbose {
-		oldSize := endObjPos - objHeaderEnd
-		fmt.Printf("Replaced object %d %d: %d bytes -> %d bytes\n", objNum, genNum, oldSize, len(newContent))
+// openForUpdate opens a PDF to replace objects of it
+func openForUpdate(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*parse.PDF, *manipulate.PDFManipulator, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Verbose:    verbose,
+		Encryption: encryptInfo,
+	})
+	if err != nil {
+		return nil, nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	return result, nil
+	m, err := manipulate.NewManipulatorFor(pdf, pdfBytes, verbose)
+	if err != nil {
+		return nil, nil, err
+	}
+	return pdf, m, nil
 }
 
 // FillFieldValue fills a field with a value by replacing the object
 func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get current field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	pdf, m, err := openForUpdate(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, err
+	}
+	if err := setFieldValue(pdf, m, field, value); err != nil {
+		return nil, err
+	}
+	return m.Rebuild()
+}
+
+// setFieldValue sets the value of a field and, for a button, the appearance of its widgets
+func setFieldValue(pdf *parse.PDF, m *manipulate.PDFManipulator, field *Field, value interface{}) error {
+	content := m.Object(field.ObjectNum)
+	if _, _, ok := parse.DictSpan(content); !ok {
+		return fmt.Errorf("field dictionary not found")
+	}
+	if field.FT != "Btn" {
+		m.SetObject(field.ObjectNum, setDictValue(content, "/V", formatFieldToken(value, field.FT)))
+		return nil
 	}
 
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
+	// The value of a button is the appearance state of its widgets
+	widgets := []*Field{field}
+	for _, kid := range field.Kids {
+		if kid.isWidget() {
+			widgets = append(widgets, kid)
+		}
+	}
+	state := formatFieldValue(value, field.FT)
+	if on, ok := value.(bool); ok && on {
+		for _, widget := range widgets {
+			if states := onStates(pdf, m.Object(widget.ObjectNum)); len(states) > 0 {
+				state = states[0]
+				break
+			}
+		}
+	}
+	m.SetObject(field.ObjectNum, setDictValue(content, "/V", write.Name(state)))
+	for _, widget := range widgets {
+		object := m.Object(widget.ObjectNum)
+		states := onStates(pdf, object)
+		if len(states) == 0 {
+			continue
+		}
+		shown := "Off"
+		for _, s := range states {
+			if s == state {
+				shown = state
+			}
+		}
+		m.SetObject(widget.ObjectNum, setDictValue(object, "/AS", write.Name(shown)))
+	}
+	return nil
+}
 
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
+// onStates lists the appearance states of a button's widget other than Off
+func onStates(pdf *parse.PDF, widget []byte) []string {
+	appearances := dictValue(pdf, dictValue(pdf, widget, "/AP"), "/N")
+	if _, _, ok := parse.SplitStream(appearances); ok {
+		return nil // a single appearance
+	}
+	p, end, ok := parse.DictSpan(appearances)
+	if !ok {
+		return nil
+	}
+	var states []string
+	for {
+		ks, ke, ok := parse.ScanToken(appearances[:end], p)
+		if !ok {
+			return states
+		}
+		_, ve, ok := parse.ScanValue(appearances[:end], ke)
+		if !ok {
+			return states
+		}
+		if name, ok := parse.NameValue(appearances[ks:ke]); ok && name != "Off" {
+			states = append(states, name)
+		}
+		p = ve
+	}
+}
 
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		// Replace existing value
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		// Add new /V entry before the closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
+// setDictValue sets or adds the value of one of a dictionary's own keys
+func setDictValue(object []byte, key, value string) []byte {
+	start, end, ok := parse.DictValueSpan(object, key)
+	if !ok {
+		if _, start, ok = parse.DictSpan(object); !ok {
+			return object
 		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+		end = start
+		value = key + " " + value + " "
 	}
+	return []byte(string(object[:start]) + " " + value + string(object[end:]))
+}
 
-	// Replace the object
-	return ReplaceFieldObject(pdfBytes, field.ObjectNum, field.Generation, []byte(newFieldStr), encryptInfo, verbose)
+// formatFieldToken formats a field value as it stands in a field dictionary
+func formatFieldToken(value interface{}, fieldType string) string {
+	var items []string
+	switch v := value.(type) {
+	case []string:
+		for _, item := range v {
+			items = append(items, write.TextString(item))
+		}
+	case []interface{}:
+		for _, item := range v {
+			items = append(items, write.TextString(formatFieldValue(item, fieldType)))
+		}
+	default:
+		text := formatFieldValue(value, fieldType)
+		if fieldType == "Btn" {
+			return write.Name(text)
+		}
+		return write.TextString(text)
+	}
+	return "[" + strings.Join(items, " ") + "]"
 }
 
 // formatFieldValue formats a value for PDF based on field type
 func formatFieldValue(value interface{}, fieldType string) string {
 	switch v := value.(type) {
+	case nil:
+		return ""
 	case string:
 		return v
 	case int:
@@ -110,34 +191,6 @@ func formatFieldValue(value interface{}, fieldType string) string {
 	}
 }
 
-// escapeFieldValue escapes special characters in field values
-func escapeFieldValue(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // FillFormFields fills multiple fields in a PDF
 // This function attempts to handle both direct objects and object streams
 func FillFormFields(pdfBytes []byte, formData types.FormData, password []byte, verbose bool) ([]byte, error) {
diff --git a/forms/acroform/stream_finder.go b/forms/acroform/stream_finder.go
deleted file mode 100644
index 3736498..0000000
--- a/forms/acroform/stream_finder.go
+++ /dev/null
@@ -1,51 +0,0 @@
-// Package acroform provides utilities to find object streams
-package acroform
-
-import (
-	"regexp"
-	"strconv"
-
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// findStreamForObject finds which object stream contains a given object
-func findStreamForObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) int {
-	// Parse xref to find object stream info
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef < 0 {
-		return 0
-	}
-
-	xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-	if err != nil {
-		return 0
-	}
-
-	// Check if object is in a stream
-	if entry, ok := xrefResult.ObjectStreams[objNum]; ok {
-		return entry.StreamObjNum
-	}
-
-	return 0
-}
-
-// findStartXRef finds the startxref position
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end
-	searchLen := 1024
-	if len(pdfBytes) < searchLen {
-		searchLen = len(pdfBytes)
-	}
-
-	tail := pdfBytes[len(pdfBytes)-searchLen:]
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(string(match[1]), 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index c07a6c8..0f976fc 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -2,14 +2,8 @@
 package acroform
 
 import (
-	"bytes"
-	"compress/zlib"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -23,260 +17,28 @@ type StreamObjectUpdate struct {
 
 // RebuildObjectStream rebuilds an object stream with updated objects
 func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObjectUpdate, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get the object stream
-	streamObjData, err := parse.GetObject(pdfBytes, streamObjNum, encryptInfo, false)
+	pdf, m, err := openForUpdate(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get object stream %d: %w", streamObjNum, err)
-	}
-
-	// Find the object stream in the PDF
-	pdfStr := string(pdfBytes)
-	streamPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum))
-	streamMatch := streamPattern.FindStringIndex(pdfStr)
-	if streamMatch == nil {
-		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
-	}
-
-	streamStart := streamMatch[0]
-
-	// Parse the object stream to extract all objects
-	streamDict, streamData, err := parseObjectStream(streamObjData, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse object stream: %w", err)
-	}
-
-	// Create update map
-	updateMap := make(map[int]*StreamObjectUpdate)
-	for i := range updates {
-		updateMap[updates[i].ObjNum] = &updates[i]
-	}
-
-	// Rebuild stream with updates
-	newStreamData, newHeader, err := rebuildStreamContent(streamDict, streamData, updateMap, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to rebuild stream content: %w", err)
-	}
-
-	// Compress the new stream
-	var compressed bytes.Buffer
-	zw := zlib.NewWriter(&compressed)
-	zw.Write(newStreamData)
-	zw.Close()
-
-	// Update /First to point to new header length
-	newFirst := len(newHeader)
-	streamDict["/First"] = newFirst
-	streamDict["/Length"] = len(compressed.Bytes())
-
-	// Rebuild object stream dictionary
-	newDictStr := formatStreamDict(streamDict)
-
-	// Find stream boundaries in PDF
-	dictEnd := bytes.Index(pdfBytes[streamStart:], []byte("stream"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	dictEnd += streamStart
-
-	// Find endstream
-	endstreamPos := bytes.Index(pdfBytes[dictEnd:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-	streamEnd := dictEnd + endstreamPos + 9
-
-	// Reconstruct PDF
-	before := pdfBytes[:streamStart]
-	after := pdfBytes[streamEnd:]
-
-	result := make([]byte, 0, len(before)+len(newDictStr)+len(compressed.Bytes())+len(after)+50)
-	result = append(result, before...)
-	result = append(result, []byte(fmt.Sprintf("%d 0 obj\n", streamObjNum))...)
-	result = append(result, []byte(newDictStr)...)
-	result = append(result, []byte("\nstream\n")...)
-	result = append(result, compressed.Bytes()...)
-	result = append(result, []byte("\nendstream\nendobj\n")...)
-	result = append(result, after...)
-
-	if verbose {
-		fmt.Printf("Rebuilt object stream %d: %d objects, %d bytes compressed\n", streamObjNum, streamDict["/N"], len(compressed.Bytes()))
-	}
-
-	return result, nil
-}
-
-// parseObjectStream parses an object stream to extract dictionary and decompressed data
-func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]interface{}, []byte, error) {
-	// Find dictionary
-	dictStart := bytes.Index(streamObjData, []byte("<<"))
-	if dictStart == -1 {
-		return nil, nil, fmt.Errorf("dictionary not found")
-	}
-
-	dictEnd := bytes.Index(streamObjData[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, nil, fmt.Errorf("dictionary end not found")
-	}
-	dictEnd += dictStart + 2
-
-	dictStr := string(streamObjData[dictStart:dictEnd])
-	dict := parseStreamDict(dictStr)
-
-	// Find stream data
-	streamKeyword := bytes.Index(streamObjData[dictEnd:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, nil, fmt.Errorf("stream keyword not found")
-	}
-
-	streamDataStart := dictEnd + streamKeyword + 6
-	// Skip EOL
-	if streamDataStart < len(streamObjData) && (streamObjData[streamDataStart] == '\r' || streamObjData[streamDataStart] == '\n') {
-		streamDataStart++
-	}
-	if streamDataStart < len(streamObjData) && streamObjData[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Get stream length
-	length, ok := dict["/Length"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/Length not found or invalid")
-	}
-
-	streamData := streamObjData[streamDataStart : streamDataStart+length]
-
-	// Decrypt if needed
-	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, 0, 0, encryptInfo)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to decrypt stream: %w", err)
-		}
-		streamData = decrypted
+		return nil, err
 	}
-
-	// Decompress
-	var decompressed bytes.Buffer
-	zr, err := zlib.NewReader(bytes.NewReader(streamData))
+	streamObj, err := pdf.GetObject(streamObjNum)
 	if err != nil {
-		return nil, nil, fmt.Errorf("failed to create zlib reader: %w", err)
-	}
-	decompressed.ReadFrom(zr)
-	zr.Close()
-
-	return dict, decompressed.Bytes(), nil
-}
-
-// parseStreamDict parses a stream dictionary string
-func parseStreamDict(dictStr string) map[string]interface{} {
-	dict := make(map[string]interface{})
-
-	// Extract /N
-	if nMatch := regexp.MustCompile(`/N\s+(\d+)`).FindStringSubmatch(dictStr); nMatch != nil {
-		if n, err := strconv.Atoi(nMatch[1]); err == nil {
-			dict["/N"] = n
-		}
-	}
-
-	// Extract /First
-	if firstMatch := regexp.MustCompile(`/First\s+(\d+)`).FindStringSubmatch(dictStr); firstMatch != nil {
-		if first, err := strconv.Atoi(firstMatch[1]); err == nil {
-			dict["/First"] = first
-		}
-	}
-
-	// Extract /Length
-	if lenMatch := regexp.MustCompile(`/Length\s+(\d+)`).FindStringSubmatch(dictStr); lenMatch != nil {
-		if length, err := strconv.Atoi(lenMatch[1]); err == nil {
-			dict["/Length"] = length
-		}
-	}
-
-	return dict
-}
-
-// rebuildStreamContent rebuilds stream content with updated objects
-func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte, updates map[int]*StreamObjectUpdate, verbose bool) ([]byte, []byte, error) {
-	n, ok := streamDict["/N"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/N not found in stream dict")
-	}
-
-	first, ok := streamDict["/First"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/First not found in stream dict")
-	}
-
-	// Parse header
-	headerData := streamData[:first]
-	headerStr := string(headerData)
-	fields := strings.Fields(headerStr)
-
-	type objEntry struct {
-		objNum int
-		offset int
+		return nil, fmt.Errorf("failed to get object stream %d: %w", streamObjNum, err)
 	}
-	entries := make([]objEntry, 0, n)
-
-	for i := 0; i < len(fields)-1 && len(entries) < n; i += 2 {
-		on, _ := strconv.Atoi(fields[i])
-		off, _ := strconv.Atoi(fields[i+1])
-		entries = append(entries, objEntry{objNum: on, offset: off})
+	if string(parse.DictValue(streamObj, "/Type")) != "/ObjStm" {
+		return nil, fmt.Errorf("object %d is not an object stream", streamObjNum)
 	}
 
-	// Extract all objects
-	objects := make(map[int][]byte)
-	for i, entry := range entries {
-		objStart := first + entry.offset
-		var objEnd int
-		if i < len(entries)-1 {
-			objEnd = first + entries[i+1].offset
-		} else {
-			objEnd = len(streamData)
+	for _, update := range updates {
+		if m.Object(update.ObjNum) == nil {
+			return nil, fmt.Errorf("object %d not found", update.ObjNum)
 		}
-
-		objData := streamData[objStart:objEnd]
-		objData = bytes.TrimRight(objData, " \t\r\n")
-		objects[entry.objNum] = objData
-	}
-
-	// Apply updates
-	for objNum, update := range updates {
-		objects[objNum] = update.NewContent
-	}
-
-	// Rebuild stream
-	var newStream bytes.Buffer
-	var newHeader bytes.Buffer
-
-	offset := 0
-	for _, entry := range entries {
-		objData := objects[entry.objNum]
-		newHeader.WriteString(fmt.Sprintf("%d %d ", entry.objNum, offset))
-		newStream.Write(objData)
-		newStream.WriteByte('\n')
-		offset += len(objData) + 1
-	}
-
-	return newStream.Bytes(), newHeader.Bytes(), nil
-}
-
-// formatStreamDict formats a stream dictionary
-func formatStreamDict(dict map[string]interface{}) string {
-	var buf strings.Builder
-	buf.WriteString("<<")
-
-	if n, ok := dict["/N"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /N %d", n))
+		m.SetObject(update.ObjNum, update.NewContent)
 	}
 
-	if first, ok := dict["/First"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /First %d", first))
-	}
-
-	if length, ok := dict["/Length"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /Length %d", length))
+	if verbose {
+		fmt.Printf("Updated %d objects of object stream %d\n", len(updates), streamObjNum)
 	}
 
-	buf.WriteString(" >>")
-	return buf.String()
+	return m.Rebuild()
 }
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index b19b7cf..4770121 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -6,6 +6,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -54,11 +55,10 @@ func (fb *FieldBuilder) AddTextField(name string, rect []float64, page int) *Fie
 // AddCheckbox adds a checkbox field
 func (fb *FieldBuilder) AddCheckbox(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name:  name,
-		Type:  "Btn",
-		Rect:  rect,
-		Page:  page,
-		Flags: 0x8000, // Checkbox flag
+		Name: name,
+		Type: "Btn",
+		Rect: rect,
+		Page: page,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -71,7 +71,7 @@ func (fb *FieldBuilder) AddRadioButton(name string, rect []float64, page int) *F
 		Type:  "Btn",
 		Rect:  rect,
 		Page:  page,
-		Flags: 0x10000, // Radio button flag
+		Flags: flagRadio,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -93,10 +93,11 @@ func (fb *FieldBuilder) AddChoiceField(name string, rect []float64, page int, op
 // AddButton adds a push button
 func (fb *FieldBuilder) AddButton(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name: name,
-		Type: "Btn",
-		Rect: rect,
-		Page: page,
+		Name:  name,
+		Type:  "Btn",
+		Rect:  rect,
+		Page:  page,
+		Flags: flagPushbutton,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -166,20 +167,21 @@ func (fb *FieldBuilder) Build() (int, error) {
 // createFieldObject creates a PDF field object
 func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	var dict strings.Builder
-	dict.WriteString("<<")
+	dict.WriteString("<< /Type /Annot /Subtype /Widget")
 
 	// Field type
 	dict.WriteString(fmt.Sprintf(" /FT /%s", field.Type))
 
 	// Field name
 	if field.Name != "" {
-		dict.WriteString(fmt.Sprintf(" /T (%s)", escapeFieldName(field.Name)))
+		dict.WriteString(" /T " + write.TextString(field.Name))
 	}
 
 	// Rectangle
 	if len(field.Rect) >= 4 {
-		dict.WriteString(fmt.Sprintf(" /Rect [%.2f %.2f %.2f %.2f]",
-			field.Rect[0], field.Rect[1], field.Rect[2], field.Rect[3]))
+		dict.WriteString(fmt.Sprintf(" /Rect [%s %s %s %s]",
+			formatNumber(field.Rect[0]), formatNumber(field.Rect[1]),
+			formatNumber(field.Rect[2]), formatNumber(field.Rect[3])))
 	}
 
 	// Flags
@@ -189,14 +191,12 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 
 	// Value
 	if field.Value != nil {
-		valueStr := formatFieldValueForWriter(field.Value, field.Type)
-		dict.WriteString(fmt.Sprintf(" /V (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(" /V " + formatFieldToken(field.Value, field.Type))
 	}
 
 	// Default value
 	if field.DefaultValue != nil {
-		valueStr := formatFieldValueForWriter(field.DefaultValue, field.Type)
-		dict.WriteString(fmt.Sprintf(" /DV (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(" /DV " + formatFieldToken(field.DefaultValue, field.Type))
 	}
 
 	// Maximum length
@@ -211,7 +211,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 			if i > 0 {
 				dict.WriteString(" ")
 			}
-			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValue(opt)))
+			dict.WriteString(write.TextString(opt))
 		}
 		dict.WriteString("]")
 	}
@@ -224,59 +224,9 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	return fb.writer.AddObject([]byte(dict.String()))
 }
 
-// formatFieldValueForWriter formats a value for PDF writing
-func formatFieldValueForWriter(value interface{}, fieldType string) string {
-	switch v := value.(type) {
-	case string:
-		return v
-	case int:
-		return strconv.Itoa(v)
-	case float64:
-		return strconv.FormatFloat(v, 'f', -1, 64)
-	case bool:
-		if fieldType == "Btn" {
-			if v {
-				return "Yes"
-			}
-			return "Off"
-		}
-		return strconv.FormatBool(v)
-	default:
-		return fmt.Sprintf("%v", v)
-	}
-}
-
-// escapeFieldName escapes special characters in field names
-func escapeFieldName(s string) string {
-	return escapeFieldValueForWriter(s)
-}
-
-// escapeFieldValueForWriter escapes special characters in field values
-func escapeFieldValueForWriter(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
+// formatNumber formats a number with all its digits
+func formatNumber(v float64) string {
+	return strconv.FormatFloat(v, 'f', -1, 64)
 }
 
 // AddAcroFormToCatalog adds AcroForm reference to catalog
@@ -288,16 +238,11 @@ func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error
 	}
 
 	// Add AcroForm reference
-	catalogStr := string(catalogData)
-	if !strings.Contains(catalogStr, "/AcroForm") {
-		// Find the closing >>
-		dictEnd := strings.LastIndex(catalogStr, ">>")
-		if dictEnd == -1 {
+	if parse.DictValue(catalogData, "/AcroForm") == nil {
+		if _, _, ok := parse.DictSpan(catalogData); !ok {
 			return fmt.Errorf("invalid catalog dictionary")
 		}
-		newEntry := fmt.Sprintf(" /AcroForm %d 0 R", acroFormNum)
-		catalogStr = catalogStr[:dictEnd] + newEntry + catalogStr[dictEnd:]
-		w.SetObject(catalogNum, []byte(catalogStr))
+		w.SetObject(catalogNum, setDictValue(catalogData, "/AcroForm", fmt.Sprintf("%d 0 R", acroFormNum)))
 	}
 
 	return nil
-- 
2.43.0


From eb5c5b4012c6f1bd3de9726cc96551f1cffdf812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 29/73] fix: field appearances and actions carry what was asked
 for

---
 forms/acroform/actions.go    | 95 ++++++++----------------------------
 forms/acroform/appearance.go | 70 ++++++++++++++++----------
 2 files changed, 63 insertions(+), 102 deletions(-)

diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index ed89333..0d7e1ae 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -3,9 +3,8 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -37,15 +36,17 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
+	if _, _, ok := parse.DictSpan(fieldData); !ok {
+		return fmt.Errorf("field dictionary not found")
+	}
 
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", write.TextString(action.URI))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", write.TextString(action.JavaScript))
 	case ActionTypeGoTo:
 		if action.Destination != "" {
 			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D %s >>", action.Destination)
@@ -63,30 +64,8 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("unsupported action type: %s", action.Type)
 	}
 
-	// Add /AA (additional actions) or /A (action) to field
-	// /A is for the main action, /AA is for event-specific actions
-	actionEntry := fmt.Sprintf("/A %s", actionDict)
-
-	// Check if /A or /AA already exists
-	if strings.Contains(fieldStr, "/A ") || strings.Contains(fieldStr, "/AA ") {
-		// Replace existing action (simplified - would need better parsing)
-		// For now, just add /A
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	} else {
-		// Add action before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	}
-
-	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	// Add /A (the main action) to the field; /AA is for event-specific actions
+	w.SetObject(fieldObjNum, setDictValue(fieldData, "/A", actionDict))
 	return nil
 }
 
@@ -98,15 +77,17 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
+	if _, _, ok := parse.DictSpan(fieldData); !ok {
+		return fmt.Errorf("field dictionary not found")
+	}
 
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", write.TextString(action.URI))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", write.TextString(action.JavaScript))
 	default:
 		return fmt.Errorf("unsupported action type for mouse event: %s", action.Type)
 	}
@@ -125,52 +106,14 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 		return fmt.Errorf("unsupported event: %s", event)
 	}
 
-	// Add to /AA dictionary
-	aaEntry := fmt.Sprintf("/AA << /%s %s >>", actionKey, actionDict)
-
-	// Check if /AA exists
-	if strings.Contains(fieldStr, "/AA ") {
-		// Update existing /AA (simplified)
-		aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
-		fieldStr = aaPattern.ReplaceAllString(fieldStr, aaEntry)
-	} else {
-		// Add /AA before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + aaEntry + " " + fieldStr[dictEnd:]
+	// Add to /AA dictionary, keeping the actions of other events
+	aa := parse.DictValue(fieldData, "/AA")
+	if _, _, ok := parse.DictSpan(aa); !ok {
+		aa = []byte("<< >>")
 	}
+	aa = setDictValue(aa, "/"+actionKey, actionDict)
 
 	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	w.SetObject(fieldObjNum, setDictValue(fieldData, "/AA", string(aa)))
 	return nil
 }
-
-// escapeActionString escapes strings for action dictionaries
-func escapeActionString(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 66cf7f4..8826c5e 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -3,9 +3,10 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strings"
+	"unicode/utf8"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -79,7 +80,7 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 
 	// Set up text
 	content.WriteString("BT\n") // Begin text
-	content.WriteString(fmt.Sprintf("/%s %.2f Tf\n", fontName, fontSize))
+	content.WriteString(fmt.Sprintf("%s %.2f Tf\n", write.Name(fontName), fontSize))
 	content.WriteString("0 0 0 rg\n") // Black text
 
 	// Position text (bottom-left of field)
@@ -101,7 +102,7 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
 		"/Resources": write.Dictionary{
 			"/Font": write.Dictionary{
-				fontName: fmt.Sprintf("%d 0 R", 0), // Font reference (would need actual font)
+				write.Name(fontName): fmt.Sprintf("%d 0 R", ab.addHelvetica()),
 			},
 		},
 	}
@@ -129,12 +130,12 @@ func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height,
 
 	// Draw text (centered)
 	content.WriteString("BT\n") // Begin text
-	content.WriteString("/Helvetica 12 Tf\n")
+	content.WriteString(fmt.Sprintf("/Helvetica %.2f Tf\n", fontSize))
 	content.WriteString("0 0 0 rg\n") // Black text
 
 	// Center text
-	textX := (width - float64(len(label))*6) / 2 // Rough centering
-	textY := (height - 12) / 2
+	textX := (width - float64(utf8.RuneCountInString(label))*fontSize/2) / 2 // Rough centering
+	textY := (height - fontSize) / 2
 	content.WriteString(fmt.Sprintf("%.2f %.2f Td\n", textX, textY))
 	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapeAppearanceText(label)))
 	content.WriteString("ET\n") // End text
@@ -147,12 +148,22 @@ func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height,
 		"/Subtype": "/Form",
 		"/BBox":    []interface{}{0, 0, width, height},
 		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
+		"/Resources": write.Dictionary{
+			"/Font": write.Dictionary{
+				"/Helvetica": fmt.Sprintf("%d 0 R", ab.addHelvetica()),
+			},
+		},
 	}
 
 	appearanceNum := ab.writer.AddStreamObject(appearanceDict, []byte(content.String()), true)
 	return appearanceNum, nil
 }
 
+// addHelvetica adds the font of text and button appearances
+func (ab *AppearanceBuilder) addHelvetica() int {
+	return ab.writer.AddObject([]byte("<</Type/Font/Subtype/Type1/BaseFont/Helvetica/Encoding/WinAnsiEncoding>>"))
+}
+
 // escapeAppearanceText escapes text for appearance streams
 func escapeAppearanceText(s string) string {
 	var result strings.Builder
@@ -171,10 +182,15 @@ func escapeAppearanceText(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
+			switch code, ok := winAnsiCode[r]; {
+			case ok:
+				result.WriteString(fmt.Sprintf("\\%03o", code))
+			case r < 0x7F:
 				result.WriteRune(r)
+			case r >= 0xA0 && r <= 0xFF:
+				result.WriteString(fmt.Sprintf("\\%03o", r))
+			default:
+				result.WriteByte('?') // not a character of the font's encoding
 			}
 		}
 	}
@@ -189,26 +205,28 @@ func AddAppearanceToField(fieldObjNum, appearanceNum int, w *write.PDFWriter) er
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
-	// Add or update /AP dictionary
-	apEntry := fmt.Sprintf("/AP << /N %d 0 R >>", appearanceNum)
+	if _, _, ok := parse.DictSpan(fieldData); !ok {
+		return fmt.Errorf("field dictionary not found")
+	}
 
-	// Check if /AP already exists
-	if strings.Contains(fieldStr, "/AP") {
-		// Replace existing /AP
-		apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-		fieldStr = apPattern.ReplaceAllString(fieldStr, apEntry)
-	} else {
-		// Add /AP before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + apEntry + " " + fieldStr[dictEnd:]
+	// Add or update the normal appearance
+	ap := parse.DictValue(fieldData, "/AP")
+	if _, _, ok := parse.DictSpan(ap); !ok {
+		ap = []byte("<< >>")
 	}
+	ap = setDictValue(ap, "/N", fmt.Sprintf("%d 0 R", appearanceNum))
 
 	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	w.SetObject(fieldObjNum, setDictValue(fieldData, "/AP", string(ap)))
 	return nil
 }
+
+// winAnsiCode has the codes of WinAnsiEncoding that differ from Latin-1
+var winAnsiCode = map[rune]byte{
+	'\u20AC': 0x80, '\u201A': 0x82, '\u0192': 0x83, '\u201E': 0x84, '\u2026': 0x85,
+	'\u2020': 0x86, '\u2021': 0x87, '\u02C6': 0x88, '\u2030': 0x89, '\u0160': 0x8A,
+	'\u2039': 0x8B, '\u0152': 0x8C, '\u017D': 0x8E, '\u2018': 0x91, '\u2019': 0x92,
+	'\u201C': 0x93, '\u201D': 0x94, '\u2022': 0x95, '\u2013': 0x96, '\u2014': 0x97,
+	'\u02DC': 0x98, '\u2122': 0x99, '\u0161': 0x9A, '\u203A': 0x9B, '\u0153': 0x9C,
+	'\u017E': 0x9E, '\u0178': 0x9F,
+}
-- 
2.43.0


From 7cb7c1a63ddd43fe05c4d69ffe474a38cc0f886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 30/73] fix: updating XFA values changes exactly the named
 fields

---
 forms/xfa/xfa.go | 177 +++++++++++++++++++++++++++++++----------------
 1 file changed, 119 insertions(+), 58 deletions(-)

diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 462572b..683927a 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -519,82 +519,143 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 
 // UpdateXFAValues updates field values in XFA XML
 func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	// Find data section
-	dataStart := strings.Index(xfaXML, "<data")
-	if dataStart == -1 {
-		// If no data section, update individual fields
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Find end of data section
-	dataEnd := strings.LastIndex(xfaXML, "</data>")
-	if dataEnd == -1 {
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Extract data section
-	dataSection := xfaXML[dataStart : dataEnd+7]
-
-	// Update field values in data section
-	updatedData, err := UpdateXFAFieldValues(dataSection, formData, verbose)
-	if err != nil {
-		return "", err
+	// Only the fields of the data section are values, if there is one
+	decoder := newRawDecoder(xfaXML)
+	for {
+		token, err := decoder.RawToken()
+		if err != nil {
+			break
+		}
+		if start, ok := token.(xml.StartElement); ok && start.Name.Local == "data" {
+			return updateFieldValues(xfaXML, formData, true, verbose)
+		}
 	}
-
-	// Replace data section in full XML
-	result := xfaXML[:dataStart] + updatedData + xfaXML[dataEnd+7:]
-
-	return result, nil
+	return updateFieldValues(xfaXML, formData, false, verbose)
 }
 
 // UpdateXFAFieldValues updates individual field values in XFA XML
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	resultXML := xfaXML
+	return updateFieldValues(xfaXML, formData, false, verbose)
+}
 
-	for fieldName, newValue := range formData {
-		// Find field in XFA XML
-		fieldPattern := fmt.Sprintf(`<field name="%s"`, escapeXML(fieldName))
-		fieldIndex := strings.Index(resultXML, fieldPattern)
+// newRawDecoder reads the tokens of XFA XML at the offsets they are written at
+func newRawDecoder(xfaXML string) *xml.Decoder {
+	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
+	decoder.Strict = false
+	decoder.CharsetReader = func(label string, input io.Reader) (io.Reader, error) { return input, nil }
+	return decoder
+}
 
-		if fieldIndex == -1 {
-			if verbose {
-				log.Printf("Warning: Field '%s' not found in XFA XML", fieldName)
+// updateFieldValues replaces the content of the value element of the first field with each name,
+// and leaves everything else in the XML as it is written
+func updateFieldValues(xfaXML string, formData types.FormData, insideData bool, verbose bool) (string, error) {
+	type element struct {
+		name       string
+		field      string // name of the field to update
+		hasValue   bool   // the value of the field has been seen
+		isValue    bool   // this is the value of a field to update
+		start, end int    // extent of the start tag
+	}
+	var open []element
+	var result strings.Builder
+	copied, dataDepth := 0, 0
+	updated := make(map[string]bool)
+	replace := func(from, to int, text string) {
+		result.WriteString(xfaXML[copied:from])
+		result.WriteString(text)
+		copied = to
+	}
+	valueText := func(name string) string {
+		return escapeXML(formatFieldValue(formData[name]))
+	}
+	inValue := func() bool {
+		for _, e := range open {
+			if e.isValue {
+				return true
 			}
-			continue
 		}
+		return false
+	}
+	// an empty element is written as one tag
+	openTag := func(e element) bool {
+		return !strings.HasSuffix(xfaXML[e.start:e.end], "/>")
+	}
 
-		// Find the value element for this field
-		fieldEnd := strings.Index(resultXML[fieldIndex:], "</field>")
-		if fieldEnd == -1 {
-			continue
+	decoder := newRawDecoder(xfaXML)
+	for {
+		tokenStart := int(decoder.InputOffset())
+		token, err := decoder.RawToken()
+		if err == io.EOF {
+			break
 		}
+		if err != nil {
+			return "", fmt.Errorf("invalid XFA XML: %v", err)
+		}
+		tokenEnd := int(decoder.InputOffset())
 
-		fieldSection := resultXML[fieldIndex : fieldIndex+fieldEnd]
-
-		// Check if value element exists
-		valueStart := strings.Index(fieldSection, "<value>")
-		valueEnd := strings.Index(fieldSection, "</value>")
-
-		valueStr := escapeXML(fmt.Sprintf("%v", newValue))
+		switch se := token.(type) {
+		case xml.StartElement:
+			e := element{name: se.Name.Local, start: tokenStart, end: tokenEnd}
+			if e.name == "data" {
+				dataDepth++
+			}
+			if e.name == "field" && (dataDepth > 0 || !insideData) && !inValue() {
+				for _, attr := range se.Attr {
+					if _, wanted := formData[attr.Value]; wanted && attr.Name.Local == "name" && !updated[attr.Value] {
+						e.field = attr.Value
+						updated[e.field] = true
+					}
+				}
+			}
+			if n := len(open); n > 0 && e.name == "value" && open[n-1].field != "" && !open[n-1].hasValue {
+				open[n-1].hasValue = true
+				e.isValue = true
+			}
+			open = append(open, e)
 
-		if valueStart != -1 && valueEnd != -1 {
-			// Replace existing value
-			beforeValue := resultXML[:fieldIndex+valueStart+7]
-			afterValue := resultXML[fieldIndex+valueEnd:]
-			resultXML = beforeValue + valueStr + afterValue
-		} else {
-			// Insert new value element before </field>
-			beforeFieldEnd := resultXML[:fieldIndex+fieldEnd]
-			afterFieldEnd := resultXML[fieldIndex+fieldEnd:]
-			resultXML = beforeFieldEnd + "<value>" + valueStr + "</value>" + afterFieldEnd
+		case xml.EndElement:
+			n := len(open) - 1
+			for n >= 0 && open[n].name != se.Name.Local {
+				n--
+			}
+			if n < 0 {
+				continue // the end of nothing
+			}
+			e := open[n]
+			open = open[:n]
+			switch {
+			case e.name == "data":
+				dataDepth--
+			case e.isValue && openTag(e):
+				replace(e.end, tokenStart, valueText(open[n-1].field))
+			case e.isValue:
+				replace(e.start, e.end, expandTag(xfaXML[e.start:e.end], valueText(open[n-1].field)))
+			case e.field != "" && !e.hasValue && openTag(e):
+				replace(tokenStart, tokenStart, "<value>"+valueText(e.field)+"</value>")
+			case e.field != "" && !e.hasValue:
+				replace(e.start, e.end, expandTag(xfaXML[e.start:e.end], "<value>"+valueText(e.field)+"</value>"))
+			}
 		}
+	}
 
-		if verbose {
-			log.Printf("Updated field '%s' = '%s'", fieldName, valueStr)
+	if verbose {
+		for name := range formData {
+			if updated[name] {
+				log.Printf("Updated field '%s' = '%s'", name, valueText(name))
+			} else {
+				log.Printf("Warning: Field '%s' not found in XFA XML", name)
+			}
 		}
 	}
+	result.WriteString(xfaXML[copied:])
+	return result.String(), nil
+}
 
-	return resultXML, nil
+// expandTag writes an empty element with content
+func expandTag(emptyTag, content string) string {
+	tag := strings.TrimRight(strings.TrimSuffix(emptyTag, "/>"), " \t\r\n")
+	name := strings.FieldsFunc(tag[1:], func(r rune) bool { return r == ' ' || r == '\t' || r == '\r' || r == '\n' })[0]
+	return tag + ">" + content + "</" + name + ">"
 }
 
 // escapeXML escapes text for use in XML element content and attribute values
-- 
2.43.0


From c08fbe748791b53d7e247655e3f660222b871511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 31/73] fix: XFA packets are read and rebuilt with their exact
 names, data, references and encryption

---
 core/parse/syntax.go      |  18 ++++++
 core/write/xfa_builder.go |  17 +++++-
 forms/xfa/xfa.go          | 119 +++++++++++++++++++++++---------------
 3 files changed, 104 insertions(+), 50 deletions(-)

diff --git a/core/parse/syntax.go b/core/parse/syntax.go
index 34bb56c..8f4e835 100644
--- a/core/parse/syntax.go
+++ b/core/parse/syntax.go
@@ -206,6 +206,24 @@ func ReplaceReferences(object []byte, replace func(objNum int) string) []byte {
 	}
 }
 
+// NamedReferences lists the strings of an array that are followed by an indirect reference, and
+// the object numbers of these references. This is the form of a list of XFA packets.
+func (p *PDF) NamedReferences(array []byte) (names []string, objNums []int) {
+	values := ArrayValues(array)
+	for i := 0; i+1 < len(values); i += 2 {
+		name, ok := StringBytes(p.Resolve(values[i]))
+		if m := refPattern.FindIndex(values[i+1]); !ok || m == nil || m[1] != len(values[i+1]) {
+			continue
+		}
+		objNum, err := strconv.Atoi(string(bytes.Fields(values[i+1])[0]))
+		if err != nil {
+			continue
+		}
+		names, objNums = append(names, string(name)), append(objNums, objNum)
+	}
+	return names, objNums
+}
+
 // CatalogValue returns the value that a path of keys leads to from the document catalog,
 // following indirect references; nil if there is none.
 func (p *PDF) CatalogValue(path ...string) []byte {
diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index fb2d5f0..505b500 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -55,7 +55,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		b.xfaStreams[stream.Name] = objNum
 
 		// Add to XFA array: (name) objNum 0 R
-		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", stream.Name, objNum))
+		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", literalString(stream.Name), objNum))
 
 		if b.verbose {
 			log.Printf("Added XFA stream '%s': object %d, %d bytes", stream.Name, objNum, len(stream.Data))
@@ -99,6 +99,7 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 
 	// Find trailer info
 	rootObjNum, infoObjNum, encryptObjNum, fileID := parseTrailerInfo(originalPDF)
+	var encryptDict []byte
 	if pdf, err := openOriginal(originalPDF, encryptInfo); err == nil && pdf.Trailer() != nil {
 		// The trailer of the latest revision
 		rootObjNum, infoObjNum, encryptObjNum = 0, 0, 0
@@ -106,6 +107,7 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 		fmt.Sscan(pdf.Trailer().InfoRef, &infoObjNum)
 		fmt.Sscan(pdf.Trailer().EncryptRef, &encryptObjNum)
 		fileID = pdf.FileID()
+		encryptInfo, encryptDict = pdf.Encryption(), pdf.DirectEncryptDict()
 	}
 
 	if b.verbose {
@@ -162,6 +164,9 @@ func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[st
 	if infoObjNum > 0 {
 		b.writer.SetInfo(infoObjNum)
 	}
+	if encryptObjNum == 0 && encryptDict != nil {
+		encryptObjNum = b.writer.AddObject(encryptDict)
+	}
 	if encryptObjNum > 0 && encryptInfo != nil {
 		b.writer.SetEncryptRef(encryptObjNum)
 		b.writer.SetEncryption(encryptInfo, fileID)
@@ -191,6 +196,10 @@ func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose
 			if t := string(parse.DictValue(object, "/Type")); t == "/XRef" || t == "/ObjStm" {
 				continue // file structure: the writer makes its own
 			}
+			// Every object is written with generation 0
+			object = parse.ReplaceReferences(object, func(num int) string {
+				return fmt.Sprintf("%d 0 R", num)
+			})
 			obj := &PDFObject{Number: objNum, Content: parse.ObjectContent(object)}
 			if data, err := pdf.StreamRawContent(objNum); err == nil {
 				obj.Stream = append([]byte{}, data...)
@@ -395,7 +404,11 @@ func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose
 
 	if pdf, err := openOriginal(pdfBytes, encryptInfo); err == nil && pdf.Trailer() != nil {
 		if xfa := pdf.CatalogValue("/AcroForm", "/XFA"); xfa != nil {
-			return parseXFAArrayContent(string(xfa))
+			names, objNums := pdf.NamedReferences(xfa)
+			for i, name := range names {
+				result[name] = objNums[i]
+			}
+			return result, nil
 		}
 	}
 
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index 683927a..8606362 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -221,67 +221,86 @@ func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, ver
 	}
 
 	// Parse XFA array: format is (name) N M R (name) N M R ...
-	// Pattern: (name) followed by object number, generation, and R
-	// Note: whitespace between ) and object number is optional
-	streamPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+(\d+)\s+R`)
-	matches := streamPattern.FindAllStringSubmatch(xfaArrayContent, -1)
+	var names []string
+	var objNums []int
+	if pdf != nil {
+		names, objNums = pdf.NamedReferences([]byte(xfaArrayContent))
+	} else {
+		// Pattern: (name) followed by object number, generation, and R
+		// Note: whitespace between ) and object number is optional
+		streamPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+(\d+)\s+R`)
+		for _, match := range streamPattern.FindAllStringSubmatch(xfaArrayContent, -1) {
+			objNum, err := strconv.Atoi(match[2])
+			if err != nil {
+				if verbose {
+					log.Printf("Invalid stream object number for %s: %s", match[1], match[2])
+				}
+				continue
+			}
+			names, objNums = append(names, match[1]), append(objNums, objNum)
+		}
+	}
 
-	if len(matches) == 0 {
+	if len(names) == 0 {
 		return nil, fmt.Errorf("no stream references found in XFA array")
 	}
 
 	if verbose {
-		log.Printf("Found %d stream references in XFA array", len(matches))
+		log.Printf("Found %d stream references in XFA array", len(names))
 	}
 
 	// Extract each stream
-	for _, match := range matches {
-		streamName := match[1]
-		objNum, err := strconv.Atoi(match[2])
-		if err != nil {
-			if verbose {
-				log.Printf("Invalid stream object number for %s: %s", streamName, match[2])
-			}
-			continue
-		}
+	for i, streamName := range names {
+		objNum := objNums[i]
 
-		// Use GetObject which properly handles both direct objects and objects in streams
-		objData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to get object %d for stream %s: %v, trying fallback", objNum, streamName, err)
-			}
-			// Fallback to old method
-			objData, _, err = extractStreamFromPDF(pdfBytes, objNum, encryptInfo, verbose)
+		var decompressed []byte
+		var wasCompressed bool
+		if pdf != nil {
+			// The filters of the stream say how its data is stored
+			decompressed, err = pdf.StreamContent(objNum)
 			if err != nil {
 				if verbose {
-					log.Printf("Fallback also failed for %s (object %d): %v", streamName, objNum, err)
+					log.Printf("Failed to read stream %s (object %d): %v", streamName, objNum, err)
 				}
 				continue
 			}
-		}
-
-		// Extract stream data from the object
-		var streamData []byte
-		if pdf != nil {
-			streamData, err = pdf.StreamContent(objNum)
+			object, _ := pdf.GetObject(objNum)
+			filter := pdf.Resolve(parse.DictValue(object, "/Filter"))
+			wasCompressed = bytes.HasPrefix(filter, []byte("/")) || len(parse.ArrayValues(filter)) > 0
 		} else {
-			streamData, err = extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
-		}
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
+			// Use GetObject which properly handles both direct objects and objects in streams
+			objData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
+			if err != nil {
+				if verbose {
+					log.Printf("Failed to get object %d for stream %s: %v, trying fallback", objNum, streamName, err)
+				}
+				// Fallback to old method
+				objData, _, err = extractStreamFromPDF(pdfBytes, objNum, encryptInfo, verbose)
+				if err != nil {
+					if verbose {
+						log.Printf("Fallback also failed for %s (object %d): %v", streamName, objNum, err)
+					}
+					continue
+				}
 			}
-			continue
-		}
 
-		// Decompress if needed
-		decompressed, wasCompressed, err := DecompressStream(streamData)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to decompress stream %s: %v", streamName, err)
+			// Extract stream data from the object
+			streamData, err := extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
+			if err != nil {
+				if verbose {
+					log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
+				}
+				continue
+			}
+
+			// Decompress if needed
+			decompressed, wasCompressed, err = DecompressStream(streamData)
+			if err != nil {
+				if verbose {
+					log.Printf("Failed to decompress stream %s: %v", streamName, err)
+				}
+				decompressed = streamData // Use as-is if decompression fails
 			}
-			decompressed = streamData // Use as-is if decompression fails
 		}
 
 		streamInfo := &XFAStreamInfo{
@@ -474,6 +493,15 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		log.Printf("Stream size: %d bytes", len(datasetsStream))
 	}
 
+	if _, openErr := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo}); openErr == nil {
+		updatedXML, err := UpdateXFAValues(string(datasetsStream), formData, verbose)
+		if err != nil {
+			return nil, fmt.Errorf("error updating XFA values: %v", err)
+		}
+		// Rebuild the document with the new stream
+		return write.NewXFABuilder(verbose).BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, encryptInfo)
+	}
+
 	// Decompress if needed and parse XML
 	xfaXML, wasCompressed, err := DecompressStream(datasetsStream)
 	if err != nil {
@@ -490,11 +518,6 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		return nil, fmt.Errorf("error updating XFA values: %v", err)
 	}
 
-	if _, openErr := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo}); openErr == nil {
-		// Rebuild the document with the new stream
-		return write.NewXFABuilder(verbose).BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, encryptInfo)
-	}
-
 	// Re-compress if it was compressed
 	updatedStream := []byte(updatedXML)
 	if wasCompressed {
-- 
2.43.0


From 95acfde681d3ddc8a0ec10b03b3ce59553e03cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 32/73] fix: the forms interface opens encrypted XFA documents

---
 forms/forms.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/forms/forms.go b/forms/forms.go
index bd30a45..09f0fc2 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -3,6 +3,7 @@
 package forms
 
 import (
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/acroform"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
@@ -79,18 +80,20 @@ func (w *XFAFormWrapper) Schema() *types.FormSchema {
 }
 
 func (w *XFAFormWrapper) Fill(pdfBytes []byte, data types.FormData, password []byte, verbose bool) ([]byte, error) {
-	// Get encryption info if needed
-	var encryptInfo *types.PDFEncryption
-	if len(password) > 0 || len(w.password) > 0 {
-		pwd := password
-		if len(pwd) == 0 {
-			pwd = w.password
-		}
-		// Parse encryption if PDF is encrypted
-		// For now, use the XFA update function
-		return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
+	if len(password) == 0 {
+		password = w.password
+	}
+	return xfa.UpdateXFAInPDF(pdfBytes, data, encryption(pdfBytes, password), verbose)
+}
+
+// encryption returns the verified encryption of a document, nil if it has none or the password
+// does not open it
+func encryption(pdfBytes, password []byte) *types.PDFEncryption {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password})
+	if err != nil {
+		return nil
 	}
-	return xfa.UpdateXFAInPDF(pdfBytes, data, nil, verbose)
+	return pdf.Encryption()
 }
 
 func (w *XFAFormWrapper) Validate(data types.FormData) []error {
@@ -115,7 +118,7 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryption(pdfBytes, password), verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		return FormTypeXFA, nil
 	}
@@ -137,7 +140,7 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryption(pdfBytes, password), verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		// Parse XFA form
 		formSchema, err := xfa.ParseXFAForm(string(streams.Template.Data), verbose)
@@ -169,7 +172,7 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 // ExtractXFA extracts XFA form data (type-specific)
 // Returns the FormSchema and Datasets separately
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryption(pdfBytes, password), verbose)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 9f6312ed0e7d8a3706c6200a08e3443078fb3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 33/73] fix: indirect stream lengths and filters are read from
 plain objects

---
 core/parse/syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/parse/syntax.go b/core/parse/syntax.go
index 8f4e835..2309d08 100644
--- a/core/parse/syntax.go
+++ b/core/parse/syntax.go
@@ -152,7 +152,7 @@ func (p *PDF) streamParts(objNum int) (map[string][]byte, []byte, error) {
 			continue
 		}
 		resolved := append([]byte{}, object[:start]...)
-		resolved = append(append(resolved, ' '), bytes.TrimSpace(value)...)
+		resolved = append(append(resolved, ' '), ObjectContent(value)...)
 		object = append(append(resolved, ' '), object[end:]...)
 	}
 	return streamParts(object)
-- 
2.43.0


From b94147ba194aed54d3c5bc19970040b25490da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 34/73] fix: JPEG files with any frame type can be embedded

---
 core/write/image.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/write/image.go b/core/write/image.go
index 23c11e4..f61026f 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -197,8 +197,7 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		}
 
 		// SOF0-SOF15 (except SOF4, SOF8, SOF12 which are not frame markers)
-		// We're interested in SOF0 (baseline), SOF1, SOF2 (progressive)
-		if marker >= 0xC0 && marker <= 0xC3 {
+		if marker >= 0xC0 && marker <= 0xCF && marker != 0xC4 && marker != 0xC8 && marker != 0xCC {
 			if pos+8 > len(data) {
 				return 0, 0, "", fmt.Errorf("truncated SOF segment")
 			}
-- 
2.43.0


From fa58d6ed982817bc7510b9f39f83b47bf8caaf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 35/73] fix: TIFF predictors and references within filter
 entries are honoured; image data keeps only its image format

---
 core/parse/lexical.go | 32 +++++++++++++++++++++++-
 core/parse/syntax.go  | 57 +++++++++++++++++++++++++++++++++++++++----
 2 files changed, 83 insertions(+), 6 deletions(-)

diff --git a/core/parse/lexical.go b/core/parse/lexical.go
index b589059..4e18f81 100644
--- a/core/parse/lexical.go
+++ b/core/parse/lexical.go
@@ -223,7 +223,7 @@ func decodeStream(dict map[string][]byte, data []byte) ([]byte, error) {
 		if i < len(params) {
 			parms := dictEntries(params[i])
 			predictor, _ := entryInt(parms, "/Predictor")
-			if predictor >= 10 && predictor <= 15 {
+			if predictor == 2 || predictor >= 10 && predictor <= 15 {
 				columns, ok := entryInt(parms, "/Columns")
 				if !ok {
 					columns = 1
@@ -239,6 +239,10 @@ func decodeStream(dict map[string][]byte, data []byte) ([]byte, error) {
 				if columns < 1 || columns > 1<<20 || colors < 1 || colors > 32 || bits < 1 || bits > 16 {
 					return nil, fmt.Errorf("invalid predictor parameters")
 				}
+				if predictor == 2 {
+					data = undoTIFFPredictor(data, columns, colors, bits)
+					continue
+				}
 				data, err = undoPNGPredictor(data, (columns*colors*bits+7)/8, max(1, colors*bits/8))
 				if err != nil {
 					return nil, err
@@ -284,6 +288,32 @@ func undoPNGPredictor(data []byte, columns, pixel int) ([]byte, error) {
 	return out, nil
 }
 
+// undoTIFFPredictor reverses horizontal differencing of rows of columns pixels.
+func undoTIFFPredictor(data []byte, columns, colors, bits int) []byte {
+	rowLength := (columns*colors*bits + 7) / 8
+	out := append([]byte{}, data...)
+	for start := 0; start < len(out); start += rowLength {
+		row := out[start:min(len(out), start+rowLength)]
+		left := make([]uint, colors) // the samples of the pixel to the left
+		for i := 0; i < columns*colors && (i+1)*bits <= len(row)*8; i++ {
+			var value uint
+			for b := i * bits; b < (i+1)*bits; b++ {
+				value = value<<1 | uint(row[b/8]>>(7-b%8)&1)
+			}
+			value = (value + left[i%colors]) & (1<<bits - 1)
+			left[i%colors] = value
+			for b := 0; b < bits; b++ {
+				at, mask := i*bits+b, byte(1)<<(7-(i*bits+b)%8)
+				row[at/8] &^= mask
+				if value>>(bits-1-b)&1 == 1 {
+					row[at/8] |= mask
+				}
+			}
+		}
+	}
+	return out
+}
+
 func paeth(a, b, c byte) byte {
 	abs := func(n int) int {
 		if n < 0 {
diff --git a/core/parse/syntax.go b/core/parse/syntax.go
index 2309d08..ef216a2 100644
--- a/core/parse/syntax.go
+++ b/core/parse/syntax.go
@@ -126,6 +126,27 @@ func (p *PDF) StreamContent(objNum int) ([]byte, error) {
 	return decodeStream(dict, data)
 }
 
+// StreamImageData returns the data of image stream objNum with its filters undone, except a final
+// image format (DCTDecode, JPXDecode, CCITTFaxDecode or JBIG2Decode).
+func (p *PDF) StreamImageData(objNum int) ([]byte, error) {
+	dict, data, err := p.streamParts(objNum)
+	if err != nil {
+		return nil, err
+	}
+	filters := [][]byte{dict["/Filter"]}
+	if bytes.HasPrefix(dict["/Filter"], []byte("[")) {
+		filters = ArrayValues(dict["/Filter"])
+	}
+	if len(filters) > 0 {
+		switch string(filters[len(filters)-1]) {
+		case "/DCTDecode", "/JPXDecode", "/CCITTFaxDecode", "/JBIG2Decode":
+			filters = filters[:len(filters)-1]
+			dict["/Filter"] = []byte("[" + string(bytes.Join(filters, []byte(" "))) + "]")
+		}
+	}
+	return decodeStream(dict, data)
+}
+
 // StreamRawContent returns the data of stream object objNum as it is stored (but decrypted).
 func (p *PDF) StreamRawContent(objNum int) ([]byte, error) {
 	_, data, err := p.streamParts(objNum)
@@ -137,6 +158,16 @@ func (p *PDF) streamParts(objNum int) (map[string][]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	resolve := func(target int) ([]byte, bool) {
+		if target == objNum {
+			return nil, false
+		}
+		value, err := p.GetObject(target)
+		if err != nil {
+			return nil, false
+		}
+		return ObjectContent(value), true
+	}
 	// An indirect length, filter or filter parameter is replaced by its value
 	for _, key := range []string{"/Length", "/Filter", "/DecodeParms"} {
 		start, end, ok := DictValueSpan(object, key)
@@ -144,18 +175,34 @@ func (p *PDF) streamParts(objNum int) (map[string][]byte, []byte, error) {
 			continue
 		}
 		target, err := strconv.Atoi(string(bytes.Fields(object[start:end])[0]))
-		if err != nil || target == objNum {
+		if err != nil {
 			continue
 		}
-		value, err := p.GetObject(target)
-		if err != nil {
+		value, ok := resolve(target)
+		if !ok {
 			continue
 		}
 		resolved := append([]byte{}, object[:start]...)
-		resolved = append(append(resolved, ' '), ObjectContent(value)...)
+		resolved = append(append(resolved, ' '), value...)
 		object = append(append(resolved, ' '), object[end:]...)
 	}
-	return streamParts(object)
+	dict, data, err := streamParts(object)
+	if err != nil {
+		return nil, nil, err
+	}
+	// and so are the references within them
+	for _, key := range []string{"/Filter", "/DecodeParms"} {
+		if dict[key] != nil {
+			dict[key] = ReplaceReferences(dict[key], func(target int) string {
+				value, ok := resolve(target)
+				if !ok {
+					return "null"
+				}
+				return string(value)
+			})
+		}
+	}
+	return dict, data, nil
 }
 
 // ObjectContent returns the value of an object without the "N G obj" and "endobj" around it.
-- 
2.43.0


From d285c1ce3114babeea0d69822a7ce3922cde61ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 36/73] fix: extracted directories tell whether the document
 has a form

---
 content/extract/directory.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/content/extract/directory.go b/content/extract/directory.go
index b35130a..5d3aaae 100644
--- a/content/extract/directory.go
+++ b/content/extract/directory.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -223,6 +224,8 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		extractedContent.Pages = append(extractedContent.Pages, extractedPage)
 	}
 
+	hasForms := hasFormFields(pdfBytes, password)
+
 	// Determine if this is a scanned PDF (images but no text)
 	isScannedPDF := hasImages && !hasText && len(doc.Pages) > 0
 
@@ -233,7 +236,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		ImageCount:    len(allImages),
 		HasText:       hasText,
 		HasImages:     hasImages,
-		HasForms:      false, // TODO: Detect forms
+		HasForms:      hasForms,
 		HasBookmarks:  len(doc.Bookmarks) > 0,
 		IsScannedPDF:  isScannedPDF,
 	}
@@ -256,7 +259,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		ImageFiles:    imageFiles,
 		HasText:       hasText,
 		HasImages:     hasImages,
-		HasForms:      false,
+		HasForms:      hasForms,
 		IsScannedPDF:  isScannedPDF,
 		PageCount:     len(doc.Pages),
 		TextCharCount: totalTextChars,
@@ -266,6 +269,17 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 	return output, nil
 }
 
+// hasFormFields tells whether a PDF has an interactive form with fields or XFA
+func hasFormFields(pdfBytes []byte, password []byte) bool {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password})
+	if err != nil {
+		return false
+	}
+	acroForm := string(pdf.CatalogValue("/AcroForm"))
+	return len(arrayValues(resolveValue(extractDictValue(acroForm, "/Fields"), pdf))) > 0 ||
+		resolveValue(extractDictValue(acroForm, "/XFA"), pdf) != ""
+}
+
 // ExtractToDirectoryFromFile extracts a PDF file to a directory
 func ExtractToDirectoryFromFile(pdfPath string, password []byte, outputDir string, verbose bool) (*DirectoryOutput, error) {
 	pdfBytes, err := os.ReadFile(pdfPath)
-- 
2.43.0


From 7f9b5bed4346e3b983f1ef9fad421ef906f15619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 37/73] fix: images and fonts of page resources are reported
 from their entries, each image object once

---
 content/extract/content_stream.go |   4 +-
 content/extract/images.go         | 190 ++++++------------------------
 content/extract/resources.go      | 137 +++++++--------------
 core/compare/compare.go           |   7 +-
 types/content_types.go            |   3 +-
 5 files changed, 94 insertions(+), 247 deletions(-)

diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index d36a9bf..4895932 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -118,7 +118,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 
 		// Font and size
 		if match := regexp.MustCompile(`^(/\S*)\s+([\d\.\-]+)\s+Tf`).FindStringSubmatch(line); match != nil {
-			textState.fontName = match[1]
+			textState.fontName = decodeName(match[1])
 			if size, err := strconv.ParseFloat(match[2], 64); err == nil {
 				textState.fontSize = size
 			}
@@ -370,7 +370,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 			}
 
 			imageRef := types.ImageRef{
-				ImageID:   match[1],
+				ImageID:   decodeName(match[1]),
 				X:         x,
 				Y:         y,
 				Width:     width,
diff --git a/content/extract/images.go b/content/extract/images.go
index 33f1670..800c50f 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -19,8 +19,9 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 
 	imageStr := string(imageObj)
 	image := &types.Image{
-		ID:       fmt.Sprintf("/Im%d", imageObjNum),
-		Metadata: make(map[string]interface{}),
+		ID:           fmt.Sprintf("/Im%d", imageObjNum),
+		ObjectNumber: imageObjNum,
+		Metadata:     make(map[string]interface{}),
 	}
 
 	// Extract Width and Height
@@ -55,22 +56,28 @@ func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Ima
 	filter := resolveValue(extractDictValue(imageStr, "/Filter"), pdf)
 	if filter != "" {
 		image.Filter = filter
-		// Determine format from filter
-		if filter == "/DCTDecode" || strings.Contains(filter, "DCTDecode") {
-			image.Format = "jpeg"
-		} else if filter == "/FlateDecode" || strings.Contains(filter, "FlateDecode") {
-			image.Format = "png" // Could be PNG or other FlateDecode image
-		} else if filter == "/CCITTFaxDecode" || strings.Contains(filter, "CCITTFaxDecode") {
-			image.Format = "tiff"
-		} else if filter == "/JPXDecode" || strings.Contains(filter, "JPXDecode") {
-			image.Format = "jpeg2000"
-		} else {
-			image.Format = "unknown"
+		// Determine format from the last filter
+		filters := arrayValues(filter)
+		if strings.HasPrefix(filter, "/") {
+			filters = []string{filter}
+		}
+		image.Format = "unknown"
+		if len(filters) > 0 {
+			switch resolveValue(filters[len(filters)-1], pdf) {
+			case "/DCTDecode":
+				image.Format = "jpeg"
+			case "/FlateDecode":
+				image.Format = "png" // Could be PNG or other FlateDecode image
+			case "/CCITTFaxDecode":
+				image.Format = "tiff"
+			case "/JPXDecode":
+				image.Format = "jpeg2000"
+			}
 		}
 	}
 
-	// Extract stream data with its filters undone; JPEG data stays as it is
-	streamData, err := pdf.StreamContent(imageObjNum)
+	// Extract stream data with its filters undone; JPEG data (and the like) stays as it is
+	streamData, err := pdf.StreamImageData(imageObjNum)
 	if err != nil {
 		// Unsupported or damaged encoding - use raw data
 		if verbose {
@@ -110,151 +117,32 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	}
 
 	allImages := make([]types.Image, 0)
-	imageMap := make(map[string]bool) // Track unique images by ID
-	type namedObject struct {
-		name   string
-		objNum int
-	}
-	var imageObjects []namedObject    // Unique images in page order
 	seenObjNums := make(map[int]bool) // Track unique images by object number
 
-	// Collect image object numbers by re-parsing Resources from pages
-	// We need to get the actual page object numbers to extract Resources
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return []types.Image{}, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return []types.Image{}, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Find all pages with their resources
-	pageDicts := extractPageDicts(pdf, pagesObjNum, nil, map[int]bool{}, verbose)
-
-	// For each page, extract Resources and get image object numbers
-	for i, pageStr := range pageDicts {
-		if i >= len(doc.Pages) {
-			break
+	// Extract full image data with binary for each unique image, in page order
+	for _, page := range doc.Pages {
+		if page.Resources == nil {
+			continue
 		}
-
-		resourcesStr := resolveValue(extractDictValue(pageStr, "/Resources"), pdf)
-		if resourcesStr != "" {
-			// Extract XObject object numbers
-			xobjects, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
-			for _, entry := range dictEntries(resolveValue(extractDictValue(resourcesStr, "/XObject"), pdf)) {
-				name, objNum := entry.name, objNums[entry.name]
-				if xobjects[name].Subtype != "/Image" {
-					continue
-				}
-				imageMap["/"+name] = true
-				if !seenObjNums[objNum] {
-					seenObjNums[objNum] = true
-					imageObjects = append(imageObjects, namedObject{name, objNum})
-				}
+		for _, name := range sortedKeys(page.Resources.Images) {
+			metadata := page.Resources.Images[name]
+			if seenObjNums[metadata.ObjectNumber] {
+				continue
 			}
-		}
-	}
-
-	// Extract full image data with binary for each unique image
-	for _, object := range imageObjects {
-		name, objNum := object.name, object.objNum
-		image, err := extractImageData(objNum, pdf, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
-			}
-			// Fall back to metadata-only image from Resources
-			for _, page := range doc.Pages {
-				if page.Resources != nil {
-					if img, ok := page.Resources.Images[name]; ok {
-						allImages = append(allImages, img)
-						break
-					}
+			seenObjNums[metadata.ObjectNumber] = true
+			image, err := extractImageData(metadata.ObjectNumber, pdf, verbose)
+			if err != nil {
+				if verbose {
+					fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, metadata.ObjectNumber, err)
 				}
+				// Fall back to metadata-only image from Resources
+				allImages = append(allImages, metadata)
+				continue
 			}
-		} else {
-			image.ID = "/" + name // the name pages refer to it by
+			image.ID = metadata.ID // the name pages refer to it by
 			allImages = append(allImages, *image)
 		}
 	}
 
-	// Also add any images we found but couldn't get object numbers for (metadata only)
-	for _, page := range doc.Pages {
-		if page.Resources != nil {
-			for name, image := range page.Resources.Images {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					allImages = append(allImages, image)
-					imageMap[imageID] = true
-				}
-			}
-		}
-	}
-
 	return allImages, nil
 }
-
-// extractPageDicts recursively extracts the page dictionaries from the pages tree, with the
-// attributes they inherit
-func extractPageDicts(pdf *parse.PDF, pagesObjNum int, inherited map[string]string, seen map[int]bool, verbose bool) []string {
-	var pageDicts []string
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return pageDicts
-	}
-
-	pagesStr := withInherited(string(pagesObj), inherited)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := resolveValue(extractDictValue(pagesStr, "/Type"), pdf)
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageDicts = append(pageDicts, pagesStr)
-		return pageDicts
-	}
-
-	// A node that was already visited would make the tree infinite
-	if seen[pagesObjNum] {
-		return pageDicts
-	}
-	seen[pagesObjNum] = true
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := resolveValue(extractDictValue(pagesStr, "/Kids"), pdf)
-	if kidsStr == "" {
-		return pageDicts
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages := extractPageDicts(pdf, kidObjNum, inheritableAttributes(pagesStr), seen, verbose)
-		pageDicts = append(pageDicts, childPages...)
-	}
-
-	return pageDicts
-}
diff --git a/content/extract/resources.go b/content/extract/resources.go
index 614917f..35c1a33 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -27,7 +27,7 @@ func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.
 	}
 
 	// Extract XObjects (images and forms)
-	xobjectsDict := extractXObjectsDict(resourcesStr, pdf, verbose)
+	xobjectsDict, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
 	if xobjectsDict != nil {
 		resources.XObjects = xobjectsDict
 		// Also populate Images from XObjects (for metadata)
@@ -35,10 +35,11 @@ func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.
 		for name, xobj := range xobjectsDict {
 			if xobj.Subtype == "/Image" {
 				image := types.Image{
-					ID:     "/" + name,
-					Width:  int(xobj.Width),
-					Height: int(xobj.Height),
-					Format: "unknown", // Will be determined when extracting actual image data
+					ID:           "/" + name,
+					ObjectNumber: objNums[name],
+					Width:        int(xobj.Width),
+					Height:       int(xobj.Height),
+					Format:       "unknown", // Will be determined when extracting actual image data
 				}
 				resources.Images[name] = image
 			}
@@ -64,13 +65,8 @@ func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[str
 	}
 
 	for _, entry := range fontEntries {
-		fontName := entry.name
-		fontObjNum, err := parseObjectRef(entry.value)
-		if err != nil {
-			continue
-		}
-
-		fontInfo := extractFontInfo(fontObjNum, pdf, verbose)
+		fontName := decodeName(entry.name)
+		fontInfo := extractFontInfo(entry.value, pdf, verbose)
 		if fontInfo != nil {
 			fontInfo.ID = "/" + fontName
 			fonts[fontName] = *fontInfo
@@ -80,26 +76,24 @@ func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[str
 	return fonts
 }
 
-// extractFontInfo extracts information from a font dictionary object
-func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontInfo {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
+// extractFontInfo extracts information from a font dictionary, inline or referenced
+func extractFontInfo(font string, pdf *parse.PDF, verbose bool) *types.FontInfo {
+	fontStr := resolveValue(font, pdf)
+	if !strings.HasPrefix(fontStr, "<<") {
 		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
+			fmt.Printf("Warning: failed to get font %s\n", font)
 		}
 		return nil
 	}
-
-	fontStr := string(fontObj)
 	fontInfo := &types.FontInfo{
 		Embedded: false,
 	}
 
 	// Extract Subtype (Type1, TrueType, Type0, etc.)
 	// Try both /Subtype and Subtype (with and without leading /)
-	subtype := extractDictValue(fontStr, "/Subtype")
+	subtype := resolveValue(extractDictValue(fontStr, "/Subtype"), pdf)
 	if subtype == "" {
-		subtype = extractDictValue(fontStr, "Subtype")
+		subtype = resolveValue(extractDictValue(fontStr, "Subtype"), pdf)
 	}
 	if subtype != "" {
 		fontInfo.Subtype = subtype
@@ -112,9 +106,9 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 	}
 
 	// Extract BaseFont
-	baseFont := extractDictValue(fontStr, "/BaseFont")
+	baseFont := decodeName(resolveValue(extractDictValue(fontStr, "/BaseFont"), pdf))
 	if baseFont == "" {
-		baseFont = extractDictValue(fontStr, "BaseFont")
+		baseFont = decodeName(resolveValue(extractDictValue(fontStr, "BaseFont"), pdf))
 	}
 	if baseFont != "" {
 		fontInfo.Name = baseFont
@@ -128,71 +122,37 @@ func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontIn
 	}
 
 	// Extract Encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
+	encoding := resolveValue(extractDictValue(fontStr, "/Encoding"), pdf)
 	if encoding != "" {
 		fontInfo.Encoding = encoding
 	}
 
-	// Check if font is embedded (has FontDescriptor with FontFile, FontFile2, or FontFile3)
-	if strings.Contains(fontStr, "/FontFile") || strings.Contains(fontStr, "/FontFile2") || strings.Contains(fontStr, "/FontFile3") {
-		fontInfo.Embedded = true
-	}
-
 	// Check for ToUnicode CMap
-	if strings.Contains(fontStr, "/ToUnicode") {
+	if resolveValue(extractDictValue(fontStr, "/ToUnicode"), pdf) != "" {
 		fontInfo.ToUnicode = true
 	}
 
 	// Extract FontDescriptor for more info
-	fontDescriptorRef := extractDictValue(fontStr, "/FontDescriptor")
+	fontDescriptor := extractDictValue(fontStr, "/FontDescriptor")
 	if descendants := arrayValues(resolveValue(extractDictValue(fontStr, "/DescendantFonts"), pdf)); len(descendants) > 0 {
 		// The descriptor of a Type0 font is its descendant's
-		fontDescriptorRef = extractDictValue(resolveValue(descendants[0], pdf), "/FontDescriptor")
+		fontDescriptor = extractDictValue(resolveValue(descendants[0], pdf), "/FontDescriptor")
 	}
-	if fontDescriptorRef != "" {
-		descObjNum, err := parseObjectRef(fontDescriptorRef)
-		if err == nil {
-			descObj, err := pdf.GetObject(descObjNum)
-			if err == nil {
-				descStr := string(descObj)
-				// Check for embedded font files in descriptor
-				if strings.Contains(descStr, "/FontFile") || strings.Contains(descStr, "/FontFile2") || strings.Contains(descStr, "/FontFile3") {
-					fontInfo.Embedded = true
-				}
-				// Extract font family name if available
-				fontFamily := extractDictValue(descStr, "/FontFamily")
-				if fontFamily != "" {
-					fontInfo.Family = textString(resolveValue(fontFamily, pdf))
-				}
+	if descStr := resolveValue(fontDescriptor, pdf); descStr != "" {
+		// The font is embedded if its descriptor has a FontFile, FontFile2, or FontFile3
+		for _, key := range []string{"/FontFile", "/FontFile2", "/FontFile3"} {
+			if resolveValue(extractDictValue(descStr, key), pdf) != "" {
+				fontInfo.Embedded = true
 			}
 		}
-	}
-
-	return fontInfo
-}
-
-// extractXObjectsDict extracts XObject information from /Resources/XObject dictionary
-func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.XObject {
-	xobjects := make(map[string]types.XObject)
-
-	xobjDictStr := resolveValue(extractDictValue(resourcesStr, "/XObject"), pdf)
-	xobjEntries := dictEntries(xobjDictStr)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry.name
-		xobjObjNum, err := parseObjectRef(entry.value)
-		if err != nil {
-			continue
-		}
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
+		// Extract font family name if available
+		fontFamily := resolveValue(extractDictValue(descStr, "/FontFamily"), pdf)
+		if fontFamily != "" {
+			fontInfo.Family = textString(fontFamily)
 		}
 	}
 
-	return xobjects
+	return fontInfo
 }
 
 // extractXObjectsDictWithObjNums extracts XObject information with object numbers
@@ -204,7 +164,7 @@ func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose
 	xobjEntries := dictEntries(xobjDictStr)
 
 	for _, entry := range xobjEntries {
-		xobjName := entry.name
+		xobjName := decodeName(entry.name)
 		xobjObjNum, err := parseObjectRef(entry.value)
 		if err != nil {
 			continue
@@ -237,7 +197,7 @@ func extractXObjectInfo(xobjObjNum int, pdf *parse.PDF, verbose bool) *types.XOb
 	}
 
 	// Extract Subtype
-	subtype := extractDictValue(xobjStr, "/Subtype")
+	subtype := resolveValue(extractDictValue(xobjStr, "/Subtype"), pdf)
 	if subtype == "" {
 		return nil
 	}
@@ -246,8 +206,8 @@ func extractXObjectInfo(xobjObjNum int, pdf *parse.PDF, verbose bool) *types.XOb
 	// For Image XObjects, extract dimensions
 	if subtype == "/Image" {
 		// Extract Width and Height
-		widthStr := extractDictValue(xobjStr, "/Width")
-		heightStr := extractDictValue(xobjStr, "/Height")
+		widthStr := resolveValue(extractDictValue(xobjStr, "/Width"), pdf)
+		heightStr := resolveValue(extractDictValue(xobjStr, "/Height"), pdf)
 		if widthStr != "" {
 			if w, err := strconv.ParseFloat(widthStr, 64); err == nil {
 				xobject.Width = w
@@ -280,13 +240,8 @@ func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 	fontEntries := dictEntries(resolveValue(extractDictValue(resourcesStr, "/Font"), pdf))
 
 	for _, entry := range fontEntries {
-		fontName := entry.name
-		fontObjNum, err := parseObjectRef(entry.value)
-		if err != nil {
-			continue
-		}
-
-		decoder := extractFontDecoder(fontObjNum, fontName, pdf, verbose)
+		fontName := decodeName(entry.name)
+		decoder := extractFontDecoder(entry.value, fontName, pdf, verbose)
 		if decoder != nil {
 			decoders["/"+fontName] = decoder
 		}
@@ -295,17 +250,15 @@ func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[
 	return decoders
 }
 
-// extractFontDecoder creates a FontDecoder for a font object
-func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
+// extractFontDecoder creates a FontDecoder for a font dictionary, inline or referenced
+func extractFontDecoder(font string, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
+	fontStr := resolveValue(font, pdf)
+	if !strings.HasPrefix(fontStr, "<<") {
 		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
+			fmt.Printf("Warning: failed to get font %s\n", font)
 		}
 		return nil
 	}
-
-	fontStr := string(fontObj)
 	decoder := NewFontDecoder(fontName)
 
 	// Extract and set base encoding: a name or a dictionary, inline or referenced
@@ -327,8 +280,8 @@ func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose
 		}
 	} else {
 		// Check for implicit encoding based on font type
-		subtype := extractDictValue(fontStr, "/Subtype")
-		baseFont := extractDictValue(fontStr, "/BaseFont")
+		subtype := resolveValue(extractDictValue(fontStr, "/Subtype"), pdf)
+		baseFont := decodeName(resolveValue(extractDictValue(fontStr, "/BaseFont"), pdf))
 
 		// Standard 14 fonts use StandardEncoding by default
 		if isStandard14Font(baseFont) {
@@ -355,7 +308,7 @@ func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose
 	}
 
 	// Type0 (CID) fonts use 2-byte codes
-	if extractDictValue(fontStr, "/Subtype") == "/Type0" {
+	if resolveValue(extractDictValue(fontStr, "/Subtype"), pdf) == "/Type0" {
 		decoder.twoByte = true
 	}
 
diff --git a/core/compare/compare.go b/core/compare/compare.go
index cff114e..f23b4a2 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -746,7 +746,12 @@ func getImageWithBinary(imageID string, pdfBytes []byte, metadataImg *types.Imag
 		return nil, err
 	}
 
-	// Find image by ID
+	// Find image by its object (pages may use one name for different images), or else by ID
+	for _, img := range allImages {
+		if metadataImg != nil && metadataImg.ObjectNumber != 0 && img.ObjectNumber == metadataImg.ObjectNumber {
+			return &img, nil
+		}
+	}
 	for _, img := range allImages {
 		if img.ID == imageID {
 			return &img, nil
diff --git a/types/content_types.go b/types/content_types.go
index 1346a26..bb89050 100644
--- a/types/content_types.go
+++ b/types/content_types.go
@@ -157,7 +157,8 @@ const (
 
 // Image represents an embedded image
 type Image struct {
-	ID               string                 `json:"id"`          // Resource name (e.g., "/Im1")
+	ID               string                 `json:"id"` // Resource name (e.g., "/Im1")
+	ObjectNumber     int                    `json:"object_number,omitempty"`
 	Width            int                    `json:"width"`       // Width in pixels
 	Height           int                    `json:"height"`      // Height in pixels
 	Format           string                 `json:"format"`      // "jpeg", "png", "tiff", etc.
-- 
2.43.0


From c602c65b105ffd2dafb52e10bdf2a205d2525c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 38/73] fix: graphics and annotations are compared one by one,
 with their looks and contents

---
 core/compare/compare.go | 115 ++++++++++++++++++++++------------------
 1 file changed, 64 insertions(+), 51 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index f23b4a2..1f46b2b 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -462,7 +462,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare graphics
-	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics)
+	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics, opts.GraphicTolerance)
 	if graphicDiff != nil && (len(graphicDiff.Added) > 0 || len(graphicDiff.Removed) > 0) {
 		diff.GraphicDiff = graphicDiff
 		diff.Differences = append(diff.Differences, Difference{
@@ -543,33 +543,22 @@ func abs(x float64) float64 {
 	return x
 }
 
-// compareGraphics compares graphics between two pages
-func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
+// compareGraphics compares graphics between two pages. Each graphic matches one graphic of the
+// other page: one of the same look at the same place, within the tolerance.
+func compareGraphics(g1, g2 []types.Graphic, tolerance float64) *GraphicDiff {
 	diff := &GraphicDiff{
 		Added:   []types.Graphic{},
 		Removed: []types.Graphic{},
 	}
 
-	// Simple comparison: compare by type and approximate position
-	// More sophisticated matching could use shape matching
-	g1Map := make(map[string]types.Graphic)
-	for _, g := range g1 {
-		key := graphicKey(g)
-		g1Map[key] = g
+	added, removed := unmatched(len(g1), len(g2), func(i1, i2 int) bool {
+		return graphicsMatch(g1[i1], g2[i2], tolerance)
+	})
+	for _, i2 := range added {
+		diff.Added = append(diff.Added, g2[i2])
 	}
-
-	for _, g := range g2 {
-		key := graphicKey(g)
-		if _, exists := g1Map[key]; !exists {
-			diff.Added = append(diff.Added, g)
-		} else {
-			delete(g1Map, key)
-		}
-	}
-
-	// Remaining in g1Map are removed
-	for _, g := range g1Map {
-		diff.Removed = append(diff.Removed, g)
+	for _, i1 := range removed {
+		diff.Removed = append(diff.Removed, g1[i1])
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -579,13 +568,46 @@ func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
 	return diff
 }
 
-// graphicKey generates a key for a graphic element for comparison
-func graphicKey(g types.Graphic) string {
-	// Use type and bounding box for key
-	if g.BoundingBox != nil {
-		return fmt.Sprintf("%s:%.1f:%.1f:%.1f:%.1f", g.Type, g.BoundingBox.LowerX, g.BoundingBox.LowerY, g.BoundingBox.UpperX, g.BoundingBox.UpperY)
+// unmatched matches n1 old elements with n2 new ones, each with the first one left that it
+// equals, and returns the indices of the new and of the old ones without a match
+func unmatched(n1, n2 int, equal func(i1, i2 int) bool) (added, removed []int) {
+	matched := make([]bool, n1)
+	for i2 := 0; i2 < n2; i2++ {
+		found := false
+		for i1 := 0; i1 < n1 && !found; i1++ {
+			if !matched[i1] && equal(i1, i2) {
+				matched[i1] = true
+				found = true
+			}
+		}
+		if !found {
+			added = append(added, i2)
+		}
+	}
+	for i1 := range matched {
+		if !matched[i1] {
+			removed = append(removed, i1)
+		}
 	}
-	return fmt.Sprintf("%s", g.Type)
+	return added, removed
+}
+
+// graphicsMatch tells whether two graphics look the same and are at the same place
+func graphicsMatch(g1, g2 types.Graphic, tolerance float64) bool {
+	if !rectanglesMatch(g1.BoundingBox, g2.BoundingBox, tolerance) {
+		return false
+	}
+	g1.BoundingBox, g2.BoundingBox = nil, nil
+	return reflect.DeepEqual(g1, g2)
+}
+
+// rectanglesMatch tells whether two rectangles are the same within the tolerance
+func rectanglesMatch(r1, r2 *types.Rectangle, tolerance float64) bool {
+	if r1 == nil || r2 == nil {
+		return r1 == r2
+	}
+	return positionsMatch(r1.LowerX, r1.LowerY, r2.LowerX, r2.LowerY, tolerance) &&
+		positionsMatch(r1.UpperX, r1.UpperY, r2.UpperX, r2.UpperY, tolerance)
 }
 
 // compareImagesWithBinary compares images between two pages, including binary data
@@ -802,25 +824,14 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 		Removed: []types.Annotation{},
 	}
 
-	// Compare by type and position
-	a1Map := make(map[string]types.Annotation)
-	for _, a := range a1 {
-		key := annotationKey(a)
-		a1Map[key] = a
+	added, removed := unmatched(len(a1), len(a2), func(i1, i2 int) bool {
+		return annotationsMatch(a1[i1], a2[i2])
+	})
+	for _, i2 := range added {
+		diff.Added = append(diff.Added, a2[i2])
 	}
-
-	for _, a := range a2 {
-		key := annotationKey(a)
-		if _, exists := a1Map[key]; !exists {
-			diff.Added = append(diff.Added, a)
-		} else {
-			delete(a1Map, key)
-		}
-	}
-
-	// Remaining in a1Map are removed
-	for _, a := range a1Map {
-		diff.Removed = append(diff.Removed, a)
+	for _, i1 := range removed {
+		diff.Removed = append(diff.Removed, a1[i1])
 	}
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
@@ -830,12 +841,14 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 	return diff
 }
 
-// annotationKey generates a key for an annotation for comparison
-func annotationKey(a types.Annotation) string {
-	if a.Rect != nil {
-		return fmt.Sprintf("%s:%.1f:%.1f:%.1f:%.1f", a.Type, a.Rect.LowerX, a.Rect.LowerY, a.Rect.UpperX, a.Rect.UpperY)
+// annotationsMatch tells whether two annotations are the same, apart from their object numbers
+func annotationsMatch(a1, a2 types.Annotation) bool {
+	if !rectanglesMatch(a1.Rect, a2.Rect, 0.1) {
+		return false
 	}
-	return fmt.Sprintf("%s", a.Type)
+	a1.ID, a2.ID = "", ""
+	a1.Rect, a2.Rect = nil, nil
+	return reflect.DeepEqual(a1, a2)
 }
 
 // compareBookmarks compares bookmarks between two documents
-- 
2.43.0


From 05d5b7614b3c8f23d7e33b1a69feccfa9de99531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 39/73] fix: text comparison honours its options: exact
 positions, ignored case and whitespace, least change

---
 core/compare/compare.go   |  2 +-
 core/compare/text_diff.go | 73 +++++++++++++++++----------------------
 2 files changed, 32 insertions(+), 43 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 1f46b2b..eb67cfc 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -532,7 +532,7 @@ func textElementsEqual(t1, t2 types.TextElement) bool {
 
 // positionsMatch checks if two positions match within tolerance
 func positionsMatch(x1, y1, x2, y2, tolerance float64) bool {
-	return abs(x1-x2) < tolerance && abs(y1-y2) < tolerance
+	return abs(x1-x2) <= tolerance && abs(y1-y2) <= tolerance
 }
 
 // abs returns absolute value
diff --git a/core/compare/text_diff.go b/core/compare/text_diff.go
index 6444153..bfa11b1 100644
--- a/core/compare/text_diff.go
+++ b/core/compare/text_diff.go
@@ -1,6 +1,8 @@
 package compare
 
 import (
+	"strings"
+
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -35,7 +37,7 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if t1.Text == t2.Text && positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) {
+			if sameText(t1, t2, opts) && positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) {
 				if t1.FontName == t2.FontName && abs(t1.FontSize-t2.FontSize) < 0.1 {
 					text1Matched[i1] = true
 					text2Matched[i2] = true
@@ -54,7 +56,7 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && t1.Text != t2.Text {
+			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && !sameText(t1, t2, opts) {
 				diff.Modified = append(diff.Modified, TextModification{Old: t1, New: t2})
 				text1Matched[i1] = true
 				text2Matched[i2] = true
@@ -229,27 +231,19 @@ func myersDiffText(text1, text2 []types.TextElement, opts CompareOptions) *TextD
 	return diff
 }
 
+// sameText tells whether two elements have the same text, as far as the options ask for
+func sameText(t1, t2 types.TextElement, opts CompareOptions) bool {
+	return normalizeTextForComparison(t1.Text, opts) == normalizeTextForComparison(t2.Text, opts)
+}
+
 // normalizeTextForComparison normalizes text based on comparison options
 func normalizeTextForComparison(text string, opts CompareOptions) string {
 	normalized := text
 	if opts.IgnoreCase {
-		normalized = ""
-		for _, r := range text {
-			if r >= 'A' && r <= 'Z' {
-				normalized += string(r + 32) // to lowercase
-			} else {
-				normalized += string(r)
-			}
-		}
+		normalized = strings.ToLower(strings.ToUpper(normalized))
 	}
 	if opts.IgnoreWhitespace {
-		result := ""
-		for _, r := range normalized {
-			if r != ' ' && r != '\t' && r != '\n' && r != '\r' {
-				result += string(r)
-			}
-		}
-		normalized = result
+		normalized = strings.Join(strings.Fields(normalized), "")
 	}
 	return normalized
 }
@@ -392,33 +386,27 @@ func applySensitivityFilter(diff *TextDiff, opts CompareOptions) *TextDiff {
 		return nil
 	}
 
-	switch opts.DiffSensitivity {
-	case SensitivityRelaxed:
-		// Only keep significant changes (more than threshold)
-		filtered := &TextDiff{
-			Added:    []types.TextElement{},
-			Removed:  []types.TextElement{},
-			Modified: []TextModification{},
+	significant := func(mod TextModification) bool {
+		oldNorm := normalizeTextForComparison(mod.Old.Text, opts)
+		newNorm := normalizeTextForComparison(mod.New.Text, opts)
+		changeRatio := calculateChangeRatio(oldNorm, newNorm)
+		if opts.DiffSensitivity == SensitivityRelaxed && changeRatio <= 0.1 {
+			return false // Relaxed: only keep changes of more than 10%
 		}
-		for _, mod := range diff.Modified {
-			// Only keep if change is significant (e.g., >10% different)
-			oldNorm := normalizeTextForComparison(mod.Old.Text, opts)
-			newNorm := normalizeTextForComparison(mod.New.Text, opts)
-			changeRatio := calculateChangeRatio(oldNorm, newNorm)
-			if changeRatio > 0.1 { // More than 10% change
-				filtered.Modified = append(filtered.Modified, mod)
-			}
+		return changeRatio >= opts.MinChangeThreshold
+	}
+
+	filtered := &TextDiff{
+		Added:    diff.Added,
+		Removed:  diff.Removed,
+		Modified: []TextModification{},
+	}
+	for _, mod := range diff.Modified {
+		if significant(mod) {
+			filtered.Modified = append(filtered.Modified, mod)
 		}
-		filtered.Added = diff.Added
-		filtered.Removed = diff.Removed
-		return filtered
-	case SensitivityStrict:
-		// Keep all changes
-		return diff
-	default: // SensitivityNormal
-		// Keep all changes (could add filtering for very minor changes)
-		return diff
 	}
+	return filtered
 }
 
 // Helper functions
@@ -453,7 +441,8 @@ func wordsEqual(words1, words2 []string) bool {
 	return true
 }
 
-func calculateChangeRatio(text1, text2 string) float64 {
+func calculateChangeRatio(old, new string) float64 {
+	text1, text2 := []rune(old), []rune(new)
 	if len(text1) == 0 && len(text2) == 0 {
 		return 0.0
 	}
-- 
2.43.0


From 996ec46164e1243a2e3c526abfbbaf3972ba1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 40/73] fix: images are compared by data, place and size, also
 in encrypted documents, and extracted once

---
 core/compare/compare.go | 123 ++++++++++++++++++++++++++--------------
 1 file changed, 82 insertions(+), 41 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index eb67cfc..31793c5 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -242,7 +242,9 @@ func ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes []byte, password1, password2 []
 	}
 
 	// Compare pages
-	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, pdf1Bytes, pdf2Bytes)
+	images1 := &documentImages{pdfBytes: pdf1Bytes, password: password1}
+	images2 := &documentImages{pdfBytes: pdf2Bytes, password: password2}
+	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, images1, images2)
 	if len(pageDiffs) > 0 {
 		result.PageDiffs = pageDiffs
 		result.Summary.PagesChanged = true
@@ -372,7 +374,7 @@ func compareStructure(doc1, doc2 *types.ContentDocument) *StructureDifference {
 }
 
 // comparePages compares pages between two documents
-func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) []PageDifference {
+func comparePages(pages1, pages2 []types.Page, opts CompareOptions, images1, images2 *documentImages) []PageDifference {
 	var diffs []PageDifference
 
 	// Compare up to the minimum page count
@@ -382,7 +384,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 	}
 
 	for i := 0; i < minPages; i++ {
-		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, pdf1Bytes, pdf2Bytes)
+		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, images1, images2)
 		if pageDiff != nil && (len(pageDiff.Differences) > 0 || pageDiff.TextDiff != nil || pageDiff.GraphicDiff != nil || pageDiff.ImageDiff != nil || pageDiff.AnnotationDiff != nil) {
 			diffs = append(diffs, *pageDiff)
 		}
@@ -419,7 +421,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 }
 
 // compareSinglePage compares a single page between two documents
-func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) *PageDifference {
+func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, images1, images2 *documentImages) *PageDifference {
 	diff := &PageDifference{
 		PageNumber:  pageNum,
 		Differences: []Difference{},
@@ -474,7 +476,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare images (with binary data comparison)
-	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, page1.Resources, page2.Resources, pdf1Bytes, pdf2Bytes)
+	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, page1.Resources, page2.Resources, images1, images2)
 	if imageDiff != nil && (len(imageDiff.Added) > 0 || len(imageDiff.Removed) > 0 || len(imageDiff.Modified) > 0 || len(imageDiff.Moved) > 0) {
 		diff.ImageDiff = imageDiff
 		desc := fmt.Sprintf("Images changed: %d added, %d removed, %d modified", len(imageDiff.Added), len(imageDiff.Removed), len(imageDiff.Modified))
@@ -611,7 +613,7 @@ func rectanglesMatch(r1, r2 *types.Rectangle, tolerance float64) bool {
 }
 
 // compareImagesWithBinary compares images between two pages, including binary data
-func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2 *types.PageResources, pdf1Bytes, pdf2Bytes []byte) *ImageDiff {
+func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2 *types.PageResources, doc1Images, doc2Images *documentImages) *ImageDiff {
 	diff := &ImageDiff{
 		Added:    []types.ImageRef{},
 		Removed:  []types.ImageRef{},
@@ -626,9 +628,10 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	// Extract images from PDF1
 	if resources1 != nil {
 		for name, img := range resources1.Images {
+			img := img // its address is kept
 			imageID := "/" + name
 			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf1Bytes, &img)
+			fullImg, err := getImageWithBinary(imageID, doc1Images, &img)
 			if err == nil {
 				images1Map[imageID] = fullImg
 			} else {
@@ -641,9 +644,10 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	// Extract images from PDF2
 	if resources2 != nil {
 		for name, img := range resources2.Images {
+			img := img // its address is kept
 			imageID := "/" + name
 			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf2Bytes, &img)
+			fullImg, err := getImageWithBinary(imageID, doc2Images, &img)
 			if err == nil {
 				images2Map[imageID] = fullImg
 			} else {
@@ -657,44 +661,51 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	img1Matched := make(map[int]bool)
 	img2Matched := make(map[int]bool)
 
-	// First pass: exact matches (same ID, position, and binary data)
+	// First pass: exact matches (same position and binary data; the names do not matter)
+	for i1, imgRef1 := range img1 {
+		for i2, imgRef2 := range img2 {
+			if img2Matched[i2] || !samePlacement(imgRef1, imgRef2) {
+				continue
+			}
+			img1Data := images1Map[imgRef1.ImageID]
+			img2Data := images2Map[imgRef2.ImageID]
+			if img1Data == nil || img2Data == nil {
+				// Can't compare binary (missing data) - treat as match for now
+				if imgRef1.ImageID != imgRef2.ImageID {
+					continue
+				}
+			} else if !imagesEqual(img1Data, img2Data) {
+				continue
+			}
+			img1Matched[i1] = true
+			img2Matched[i2] = true
+			break
+		}
+	}
+
+	// Same ID and position but different binary - mark as modified
 	for i1, imgRef1 := range img1 {
 		if img1Matched[i1] {
 			continue
 		}
 		for i2, imgRef2 := range img2 {
-			if img2Matched[i2] {
+			if img2Matched[i2] || imgRef1.ImageID != imgRef2.ImageID || !samePlacement(imgRef1, imgRef2) {
 				continue
 			}
-			if imgRef1.ImageID == imgRef2.ImageID && positionsMatch(imgRef1.X, imgRef1.Y, imgRef2.X, imgRef2.Y, 1.0) {
-				// Same ID and position - check binary data
-				img1Data := images1Map[imgRef1.ImageID]
-				img2Data := images2Map[imgRef2.ImageID]
-				if img1Data != nil && img2Data != nil {
-					if imagesEqual(img1Data, img2Data) {
-						// Exact match including binary
-						img1Matched[i1] = true
-						img2Matched[i2] = true
-						break
-					} else {
-						// Same ID/position but different binary - mark as modified
-						diff.Modified = append(diff.Modified, ImageModification{
-							Old:      imgRef1,
-							New:      imgRef2,
-							OldImage: img1Data,
-							NewImage: img2Data,
-						})
-						img1Matched[i1] = true
-						img2Matched[i2] = true
-						break
-					}
-				} else {
-					// Can't compare binary (missing data) - treat as match for now
-					img1Matched[i1] = true
-					img2Matched[i2] = true
-					break
-				}
+			img1Data := images1Map[imgRef1.ImageID]
+			img2Data := images2Map[imgRef2.ImageID]
+			if img1Data == nil || img2Data == nil {
+				continue
 			}
+			diff.Modified = append(diff.Modified, ImageModification{
+				Old:      imgRef1,
+				New:      imgRef2,
+				OldImage: img1Data,
+				NewImage: img2Data,
+			})
+			img1Matched[i1] = true
+			img2Matched[i2] = true
+			break
 		}
 	}
 
@@ -755,15 +766,45 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	return diff
 }
 
+// documentImages are the images of a document, extracted when they are first needed
+type documentImages struct {
+	pdfBytes, password []byte
+	extracted          bool
+	images             []types.Image
+	err                error
+}
+
+func (d *documentImages) all() ([]types.Image, error) {
+	if !d.extracted {
+		d.extracted = true
+		d.images, d.err = extract.ExtractAllImages(d.pdfBytes, d.password, false)
+	}
+	return d.images, d.err
+}
+
+// samePlacement tells whether two images are drawn at the same place, in the same size
+func samePlacement(r1, r2 types.ImageRef) bool {
+	const tolerance = 1.0
+	if !positionsMatch(r1.X, r1.Y, r2.X, r2.Y, tolerance) || !positionsMatch(r1.Width, r1.Height, r2.Width, r2.Height, tolerance) {
+		return false
+	}
+	for i := range r1.Transform {
+		if abs(r1.Transform[i]-r2.Transform[i]) > tolerance {
+			return false
+		}
+	}
+	return true
+}
+
 // getImageWithBinary extracts full image data with binary from PDF
-func getImageWithBinary(imageID string, pdfBytes []byte, metadataImg *types.Image) (*types.Image, error) {
+func getImageWithBinary(imageID string, doc *documentImages, metadataImg *types.Image) (*types.Image, error) {
 	// If metadata image already has data, use it
 	if metadataImg != nil && len(metadataImg.Data) > 0 {
 		return metadataImg, nil
 	}
 
 	// Otherwise, extract all images and find the one we need
-	allImages, err := extract.ExtractAllImages(pdfBytes, nil, false)
+	allImages, err := doc.all()
 	if err != nil {
 		return nil, err
 	}
@@ -797,7 +838,7 @@ func imagesEqual(img1, img2 *types.Image) bool {
 	if img1.Width != img2.Width || img1.Height != img2.Height {
 		return false
 	}
-	if img1.Format != img2.Format {
+	if img1.Format != img2.Format || img1.BitsPerComponent != img2.BitsPerComponent {
 		return false
 	}
 	if img1.ColorSpace != img2.ColorSpace {
-- 
2.43.0


From 9387b767b321192f56ae08c459f3e7f38c3d1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 41/73] fix: comparisons name form fields in order, list custom
 metadata and bookmarks in reports, and do not depend on page objects

---
 core/compare/compare.go | 84 ++++++++++++++++++++++++++++++++++++-----
 core/compare/report.go  | 43 ++++++++++++++++++---
 2 files changed, 112 insertions(+), 15 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 31793c5..3c0007d 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"regexp"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/content/extract"
 	"github.com/benedoc-inc/pdfer/forms"
@@ -69,6 +71,8 @@ type MetadataDifference struct {
 	PDFVersion   *FieldDiff `json:"pdf_version,omitempty"`
 	PageCount    *FieldDiff `json:"page_count,omitempty"`
 	Encrypted    *FieldDiff `json:"encrypted,omitempty"`
+
+	Custom map[string]*FieldDiff `json:"custom,omitempty"` // Other entries, by key
 }
 
 // FieldDiff represents a difference in a single field
@@ -204,7 +208,9 @@ func DefaultCompareOptions() CompareOptions {
 
 // ComparePDFs compares two PDFs and returns a detailed comparison result
 func ComparePDFs(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) (*ComparisonResult, error) {
-	return ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes, password1, password2, DefaultCompareOptions())
+	opts := DefaultCompareOptions()
+	opts.Verbose = verbose
+	return ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes, password1, password2, opts)
 }
 
 // ComparePDFsWithOptions compares two PDFs with custom options
@@ -259,6 +265,7 @@ func ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes []byte, password1, password2 []
 	if bookmarkDiff != nil {
 		result.Differences = append(result.Differences, *bookmarkDiff)
 		result.Summary.TotalDifferences++
+		result.Summary.ContentChanged = true
 	}
 
 	// Compare forms
@@ -331,6 +338,27 @@ func compareMetadata(m1, m2 *types.DocumentMetadata, opts CompareOptions) *Metad
 			hasDiff = true
 		}
 	}
+	for _, custom := range []map[string]string{m1.Custom, m2.Custom} {
+		for key := range custom {
+			old, inOld := m1.Custom[key]
+			new, inNew := m2.Custom[key]
+			if old == new && inOld == inNew {
+				continue
+			}
+			fieldDiff := &FieldDiff{}
+			if inOld {
+				fieldDiff.OldValue = old
+			}
+			if inNew {
+				fieldDiff.NewValue = new
+			}
+			if diff.Custom == nil {
+				diff.Custom = make(map[string]*FieldDiff)
+			}
+			diff.Custom[key] = fieldDiff
+			hasDiff = true
+		}
+	}
 	if m1.PDFVersion != m2.PDFVersion {
 		diff.PDFVersion = &FieldDiff{OldValue: m1.PDFVersion, NewValue: m2.PDFVersion}
 		hasDiff = true
@@ -905,7 +933,7 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	}
 
 	// Simple comparison - could be more sophisticated
-	if !reflect.DeepEqual(b1, b2) {
+	if !reflect.DeepEqual(withoutPageObjects(b1), withoutPageObjects(b2)) {
 		return &Difference{
 			Type:        DifferenceTypeBookmark,
 			Category:    "modified",
@@ -916,6 +944,22 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	return nil
 }
 
+// withoutPageObjects leaves the objects of their pages out of the destinations of bookmarks that
+// have page numbers
+func withoutPageObjects(bookmarks []types.Bookmark) []types.Bookmark {
+	out := make([]types.Bookmark, len(bookmarks))
+	for i, bookmark := range bookmarks {
+		if bookmark.PageNumber != 0 {
+			bookmark.Destination = pageReference.ReplaceAllString(bookmark.Destination, "[")
+		}
+		bookmark.Children = withoutPageObjects(bookmark.Children)
+		out[i] = bookmark
+	}
+	return out
+}
+
+var pageReference = regexp.MustCompile(`^\[\s*\d+\s+\d+\s+R\s*`)
+
 // compareForms compares form fields between two PDFs
 func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) *FormDiff {
 	diff := &FormDiff{
@@ -937,7 +981,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 != nil && err2 == nil {
 		// PDF1 has no form, PDF2 has form - all fields in PDF2 are "added"
 		values2 := form2.GetValues()
-		for name, value := range values2 {
+		for _, name := range sortedNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -949,7 +994,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	if err1 == nil && err2 != nil {
 		// PDF1 has form, PDF2 has no form - all fields in PDF1 are "removed"
 		values1 := form1.GetValues()
-		for name, value := range values1 {
+		for _, name := range sortedNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
@@ -967,13 +1013,15 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 		// If form types differ, treat all fields as changed
 		values1 := form1.GetValues()
 		values2 := form2.GetValues()
-		for name, value := range values1 {
+		for _, name := range sortedNames(values1) {
+			value := values1[name]
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
 				OldValue:  value,
 			})
 		}
-		for name, value := range values2 {
+		for _, name := range sortedNames(values2) {
+			value := values2[name]
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
 				NewValue:  value,
@@ -988,7 +1036,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 
 	// Find added, removed, and modified fields
 	// Fields in PDF2 but not in PDF1
-	for name, value := range values2 {
+	for _, name := range sortedNames(values2) {
+		value := values2[name]
 		if _, exists := values1[name]; !exists {
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
@@ -998,7 +1047,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in PDF1 but not in PDF2
-	for name, value := range values1 {
+	for _, name := range sortedNames(values1) {
+		value := values1[name]
 		if _, exists := values2[name]; !exists {
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
@@ -1008,7 +1058,8 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	}
 
 	// Fields in both - check if values changed
-	for name, value1 := range values1 {
+	for _, name := range sortedNames(values1) {
+		value1 := values1[name]
 		if value2, exists := values2[name]; exists {
 			if !valuesEqual(value1, value2) {
 				diff.Modified = append(diff.Modified, FormFieldChange{
@@ -1028,6 +1079,16 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	return diff
 }
 
+// sortedNames lists the names of form fields in a fixed order
+func sortedNames(values map[string]interface{}) []string {
+	names := make([]string, 0, len(values))
+	for name := range values {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // valuesEqual compares two form field values for equality
 func valuesEqual(v1, v2 interface{}) bool {
 	if v1 == nil && v2 == nil {
@@ -1037,6 +1098,11 @@ func valuesEqual(v1, v2 interface{}) bool {
 		return false
 	}
 
+	// Lists are equal if their elements are
+	if reflect.TypeOf(v1).Kind() == reflect.Slice || reflect.TypeOf(v2).Kind() == reflect.Slice {
+		return reflect.DeepEqual(v1, v2)
+	}
+
 	// Convert to strings for comparison (handles different types)
 	str1 := fmt.Sprintf("%v", v1)
 	str2 := fmt.Sprintf("%v", v2)
diff --git a/core/compare/report.go b/core/compare/report.go
index 6c2e948..44da162 100644
--- a/core/compare/report.go
+++ b/core/compare/report.go
@@ -3,6 +3,7 @@ package compare
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -25,14 +26,26 @@ func GenerateReport(result *ComparisonResult) string {
 	if result.MetadataDiff != nil {
 		report.WriteString("Metadata Differences:\n")
 		report.WriteString(strings.Repeat("-", 30) + "\n")
-		if result.MetadataDiff.Title != nil {
-			report.WriteString(fmt.Sprintf("  Title: %v -> %v\n", result.MetadataDiff.Title.OldValue, result.MetadataDiff.Title.NewValue))
+		m := result.MetadataDiff
+		for _, field := range []struct {
+			name string
+			diff *FieldDiff
+		}{
+			{"Title", m.Title}, {"Author", m.Author}, {"Subject", m.Subject}, {"Keywords", m.Keywords},
+			{"Creator", m.Creator}, {"Producer", m.Producer}, {"Creation Date", m.CreationDate}, {"Modification Date", m.ModDate},
+			{"PDF Version", m.PDFVersion}, {"Page Count", m.PageCount}, {"Encrypted", m.Encrypted},
+		} {
+			if field.diff != nil {
+				report.WriteString(fmt.Sprintf("  %s: %v -> %v\n", field.name, field.diff.OldValue, field.diff.NewValue))
+			}
 		}
-		if result.MetadataDiff.Author != nil {
-			report.WriteString(fmt.Sprintf("  Author: %v -> %v\n", result.MetadataDiff.Author.OldValue, result.MetadataDiff.Author.NewValue))
+		keys := make([]string, 0, len(m.Custom))
+		for key := range m.Custom {
+			keys = append(keys, key)
 		}
-		if result.MetadataDiff.PageCount != nil {
-			report.WriteString(fmt.Sprintf("  Page Count: %v -> %v\n", result.MetadataDiff.PageCount.OldValue, result.MetadataDiff.PageCount.NewValue))
+		sort.Strings(keys)
+		for _, key := range keys {
+			report.WriteString(fmt.Sprintf("  %s: %v -> %v\n", key, m.Custom[key].OldValue, m.Custom[key].NewValue))
 		}
 		report.WriteString("\n")
 	}
@@ -87,6 +100,15 @@ func GenerateReport(result *ComparisonResult) string {
 				}
 			}
 
+			if pd.ImageDiff != nil {
+				if len(pd.ImageDiff.Modified) > 0 {
+					report.WriteString(fmt.Sprintf("  Images Modified: %d elements\n", len(pd.ImageDiff.Modified)))
+				}
+				if len(pd.ImageDiff.Moved) > 0 {
+					report.WriteString(fmt.Sprintf("  Images Moved: %d elements\n", len(pd.ImageDiff.Moved)))
+				}
+			}
+
 			// Annotation differences
 			if pd.AnnotationDiff != nil {
 				if len(pd.AnnotationDiff.Added) > 0 {
@@ -105,6 +127,15 @@ func GenerateReport(result *ComparisonResult) string {
 		report.WriteString("\n")
 	}
 
+	// Bookmark differences
+	for _, d := range result.Differences {
+		if d.Type == DifferenceTypeBookmark {
+			report.WriteString("Bookmark Differences:\n")
+			report.WriteString(strings.Repeat("-", 30) + "\n")
+			report.WriteString(fmt.Sprintf("  %s\n\n", d.Description))
+		}
+	}
+
 	// Form differences
 	if result.FormDiff != nil {
 		report.WriteString("Form Differences:\n")
-- 
2.43.0


From c531480b41134f6e9a0673c31b6dd60289f86f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 42/73] fix: text shown on pages is written in the encoding of
 its fonts

ShowText, ShowTextNextLine and ShowTextArray copied the UTF-8 bytes of the text
into the content stream, so every character outside ASCII was shown as two or
three others. Standard fonts now declare WinAnsiEncoding, as embedded ones do,
and the text is written in it.
---
 core/write/content.go | 22 +++++++++++++++++++---
 core/write/page.go    |  6 +++++-
 resources/font/pdf.go | 14 ++++++++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/core/write/content.go b/core/write/content.go
index 365afcf..ee01328 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -4,6 +4,8 @@ package write
 import (
 	"bytes"
 	"fmt"
+
+	"github.com/benedoc-inc/pdfer/resources/font"
 )
 
 // ContentStream builds PDF page content streams
@@ -173,13 +175,13 @@ func (cs *ContentStream) SetTextMatrix(a, b, c, d, e, f float64) *ContentStream
 
 // ShowText displays a string (Tj operator)
 func (cs *ContentStream) ShowText(text string) *ContentStream {
-	cs.buf.WriteString(fmt.Sprintf("(%s) Tj\n", escapePDFString(text)))
+	cs.buf.WriteString(fmt.Sprintf("(%s) Tj\n", escapePDFString(encodeText(text))))
 	return cs
 }
 
 // ShowTextNextLine moves to next line and shows text (' operator)
 func (cs *ContentStream) ShowTextNextLine(text string) *ContentStream {
-	cs.buf.WriteString(fmt.Sprintf("(%s) '\n", escapePDFString(text)))
+	cs.buf.WriteString(fmt.Sprintf("(%s) '\n", escapePDFString(encodeText(text))))
 	return cs
 }
 
@@ -194,7 +196,7 @@ func (cs *ContentStream) ShowTextArray(elements []interface{}) *ContentStream {
 		}
 		switch v := elem.(type) {
 		case string:
-			cs.buf.WriteString(fmt.Sprintf("(%s)", escapePDFString(v)))
+			cs.buf.WriteString(fmt.Sprintf("(%s)", escapePDFString(encodeText(v))))
 		case int:
 			cs.buf.WriteString(fmt.Sprintf("%d", v))
 		case float64:
@@ -321,6 +323,20 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 	return cs
 }
 
+// encodeText writes text in WinAnsiEncoding, the encoding of the fonts added to pages
+// Text that has other characters, or is not UTF-8, is left as it is
+func encodeText(text string) string {
+	codes := make([]byte, 0, len(text))
+	for _, r := range text {
+		code, ok := font.WinAnsiCode(r)
+		if !ok {
+			return text
+		}
+		codes = append(codes, code)
+	}
+	return string(codes)
+}
+
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
diff --git a/core/write/page.go b/core/write/page.go
index 46cc46a..6699005 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -66,7 +66,11 @@ func (pb *PageBuilder) AddStandardFont(fontName string) string {
 
 	// Create font dictionary
 	resourceName := unusedName(pb.fonts, "F")
-	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont%s>>", escapeName("/"+fontName))
+	encoding := "/Encoding/WinAnsiEncoding"
+	if fontName == "Symbol" || fontName == "ZapfDingbats" {
+		encoding = "" // these have their own
+	}
+	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont%s%s>>", escapeName("/"+fontName), encoding)
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
 	pb.standardFonts[fontName] = resourceName
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 5bf88a3..fda2682 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -126,6 +126,20 @@ func winAnsiRune(code int) rune {
 	return rune(code)
 }
 
+// WinAnsiCode returns the code of a character in WinAnsiEncoding
+// Control characters have their own value
+func WinAnsiCode(r rune) (byte, bool) {
+	if r >= 0 && r < 0x80 || r >= 0xA0 && r <= 0xFF {
+		return byte(r), true
+	}
+	for i, c := range winAnsiHigh {
+		if code := 0x80 + i; c == r && (r != 0x2022 || code == 0x95) {
+			return byte(code), true
+		}
+	}
+	return 0, false
+}
+
 // encodedChar is one character code of the font
 type encodedChar struct {
 	code  int
-- 
2.43.0


From b9ead54c0dad7ccc4c859deeada5994a4a80c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 43/73] fix: OpenType fonts with CFF outlines are embedded as
 such

They were written as TrueType font programs (FontFile2), which no reader can
use: a font file that starts with OTTO goes into a FontFile3 stream of subtype
OpenType, and its font dictionary is of type Type1.
---
 resources/font/pdf.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index fda2682..782f1f8 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -62,6 +62,12 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 		"/Length1": len(fontFileData),
 		"/Length":  len(fontFileData),
 	}
+	if ttf.isCFF() {
+		fontFileDict = map[string]interface{}{
+			"/Subtype": "/OpenType",
+			"/Length":  len(fontFileData),
+		}
+	}
 	fontFileNum := writer.AddStreamObject(fontFileDict, fontFileData, true)
 
 	// Create FontDescriptor (references fontFileNum)
@@ -170,6 +176,11 @@ func (f *Font) encodedCodes(ttf *TTF) ([]encodedChar, error) {
 	return codes, nil
 }
 
+// isCFF reports whether the font is an OpenType font with Type 1 (CFF) outlines
+func (ttf *TTF) isCFF() bool {
+	return bytes.HasPrefix(ttf.Data, []byte("OTTO"))
+}
+
 // scale converts font units to the thousandths of an em that PDF uses
 func (ttf *TTF) scale(v int) int {
 	if ttf.UnitsPerEm == 0 {
@@ -198,7 +209,11 @@ func createFontDict(ttf *TTF, baseFont string, fontDescriptorNum, toUnicodeNum i
 
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /Font\n")
-	buf.WriteString("/Subtype /TrueType\n")
+	if ttf.isCFF() {
+		buf.WriteString("/Subtype /Type1\n")
+	} else {
+		buf.WriteString("/Subtype /TrueType\n")
+	}
 	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFont)))
 	buf.WriteString("/Encoding /WinAnsiEncoding\n")
 	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", first))
@@ -241,7 +256,11 @@ func (f *Font) createFontDescriptor(ttf *TTF, baseFont string, fontFileNum int)
 	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.scale(int(ttf.Descent))))
 	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.scale(int(ttf.CapHeight))))
 	buf.WriteString(fmt.Sprintf("/StemV %d\n", 80)) // Default stem width
-	buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	if ttf.isCFF() {
+		buf.WriteString(fmt.Sprintf("/FontFile3 %d 0 R\n", fontFileNum))
+	} else {
+		buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	}
 	buf.WriteString(">>")
 
 	return buf.Bytes()
-- 
2.43.0


From 373301a2ae57b22eb4c14b67befb8833e8b3d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:51 +0000
Subject: [PATCH 44/73] fix: watermarks are transparent instead of darker

The opacity scaled the colour, so a faint watermark came out nearly black, and
images were not affected. It is set in a graphics state of the page; an opacity
that is not given is the documented default.
---
 core/write/page.go      | 22 ++++++++++++++++++++++
 core/write/watermark.go | 23 +++++++++--------------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index 6699005..fc12eb9 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -36,6 +36,7 @@ type PageBuilder struct {
 	pagesObjNum int
 
 	standardFonts map[string]string // standard font -> font name
+	opacities     []float64         // of the graphics states GS1, GS2, ...
 }
 
 // NewPageBuilder creates a new page builder
@@ -88,6 +89,17 @@ func unusedName(resources map[string]int, prefix string) string {
 	}
 }
 
+// opacityState returns the name of the graphics state that sets an opacity
+func (pb *PageBuilder) opacityState(opacity float64) string {
+	for i, o := range pb.opacities {
+		if o == opacity {
+			return fmt.Sprintf("/GS%d", i+1)
+		}
+	}
+	pb.opacities = append(pb.opacities, opacity)
+	return fmt.Sprintf("/GS%d", len(pb.opacities))
+}
+
 // AddImage adds an image and returns the resource name
 func (pb *PageBuilder) AddImage(info *ImageInfo) string {
 	resourceName := info.Name
@@ -166,6 +178,16 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 		resources += "/XObject" + resourceDict(pb.images)
 	}
 
+	// Add graphics states
+	if len(pb.opacities) > 0 {
+		resources += "/ExtGState<<"
+		for i, opacity := range pb.opacities {
+			value := strconv.FormatFloat(opacity, 'f', -1, 64)
+			resources += fmt.Sprintf("/GS%d<</Type/ExtGState/CA %s/ca %s>>", i+1, value, value)
+		}
+		resources += ">>"
+	}
+
 	resources += ">>"
 
 	// Create page object
diff --git a/core/write/watermark.go b/core/write/watermark.go
index 24032ab..e7b07fa 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"strings"
+	"unicode/utf8"
 )
 
 // WatermarkOptions configures watermark appearance
@@ -42,7 +43,7 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 	if options == nil {
 		options = defaults
 	}
-	fontName, fontSize, color := options.FontName, options.FontSize, options.Color
+	fontName, fontSize, color, opacity := options.FontName, options.FontSize, options.Color, options.Opacity
 	if fontName == "" {
 		fontName = defaults.FontName
 	}
@@ -52,6 +53,9 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 	if color == nil {
 		color = defaults.Color
 	}
+	if opacity == 0 {
+		opacity = defaults.Opacity
+	}
 	imageName := strings.TrimPrefix(options.ImageName, "/")
 	if imageName != "" {
 		if _, exists := pb.images[imageName]; !exists {
@@ -65,19 +69,10 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 	pb.content.SaveState()
 
 	// Set opacity using ExtGState (if opacity < 1.0)
-	if options.Opacity < 1.0 {
-		// For simplicity, we'll use the gs operator with an ExtGState
-		// For now, just set color with reduced opacity by adjusting RGB
-		// Full ExtGState support would require adding it to resources
-		opacity := options.Opacity
-		pb.content.SetFillColorRGB(
-			color.R*opacity,
-			color.G*opacity,
-			color.B*opacity,
-		)
-	} else {
-		pb.content.SetFillColorRGB(color.R, color.G, color.B)
+	if opacity < 1.0 {
+		pb.content.Raw(pb.opacityState(opacity) + " gs")
 	}
+	pb.content.SetFillColorRGB(color.R, color.G, color.B)
 
 	// Calculate center if not specified
 	centerX := options.X
@@ -122,7 +117,7 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 
 		// Calculate text position (center the text)
 		// For simplicity, approximate text width (could be improved)
-		textWidth := float64(len(options.Text)) * fontSize * 0.6
+		textWidth := float64(utf8.RuneCountInString(options.Text)) * fontSize * 0.6
 		textX := -textWidth / 2
 		textY := -fontSize / 2
 
-- 
2.43.0


From a83829415db63657278a8b13ba3644517c4bc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 45/73] fix: names compare by their characters, not by how
 these are written

---
 core/parse/syntax.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/parse/syntax.go b/core/parse/syntax.go
index ef216a2..25674c1 100644
--- a/core/parse/syntax.go
+++ b/core/parse/syntax.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // ScanToken returns the bounds of the next token of b at or after p, skipping white space and
@@ -68,13 +69,26 @@ func DictValueSpan(object []byte, key string) (start, end int, ok bool) {
 		if !more {
 			return start, end, ok
 		}
-		if string(body[ks:ke]) == key {
+		if sameName(body[ks:ke], key) {
 			start, end, ok = vs, ve, true
 		}
 		p = ve
 	}
 }
 
+// sameName reports whether two names are the same, however their characters are written.
+func sameName(token []byte, key string) bool {
+	if string(token) == key {
+		return true
+	}
+	if bytes.IndexByte(token, '#') < 0 && strings.IndexByte(key, '#') < 0 {
+		return false
+	}
+	a, okA := NameValue(token)
+	b, okB := NameValue([]byte(key))
+	return okA && okB && a == b
+}
+
 // DictValue returns the raw value of a dictionary's own key, nil if it has none.
 func DictValue(object []byte, key string) []byte {
 	start, end, ok := DictValueSpan(object, key)
-- 
2.43.0


From fff8e96ac2b28e4fbc54a82a79f28e685446655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 46/73] fix: page extraction reports bleed, trim and art boxes,
 and rotations as 0 to 270

---
 content/extract/pages.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/content/extract/pages.go b/content/extract/pages.go
index 0ebb7ce..a1e2010 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -158,24 +158,23 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	}
 
 	// Extract media box
-	mediaBox := extractArray(pageStr, "/MediaBox", pdf)
-	if len(mediaBox) >= 4 {
-		page.MediaBox = normalizedRectangle(mediaBox[0], mediaBox[1], mediaBox[2], mediaBox[3])
+	page.MediaBox = pageBox(pageStr, "/MediaBox", pdf)
+	if page.MediaBox != nil {
 		page.Width = page.MediaBox.UpperX - page.MediaBox.LowerX
 		page.Height = page.MediaBox.UpperY - page.MediaBox.LowerY
 	}
 
-	// Extract crop box
-	cropBox := extractArray(pageStr, "/CropBox", pdf)
-	if len(cropBox) >= 4 {
-		page.CropBox = normalizedRectangle(cropBox[0], cropBox[1], cropBox[2], cropBox[3])
-	}
+	// Extract the other boxes
+	page.CropBox = pageBox(pageStr, "/CropBox", pdf)
+	page.BleedBox = pageBox(pageStr, "/BleedBox", pdf)
+	page.TrimBox = pageBox(pageStr, "/TrimBox", pdf)
+	page.ArtBox = pageBox(pageStr, "/ArtBox", pdf)
 
 	// Extract rotation
 	rotationStr := resolveValue(extractDictValue(pageStr, "/Rotate"), pdf)
 	if rotationStr != "" {
 		if rot, err := strconv.Atoi(rotationStr); err == nil {
-			page.Rotation = rot
+			page.Rotation = (rot%360 + 360) % 360
 		}
 	}
 
@@ -233,6 +232,15 @@ func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string
 	return page, nil
 }
 
+// pageBox returns one of the boxes of a page, nil if it has none
+func pageBox(pageStr, key string, pdf *parse.PDF) *types.Rectangle {
+	box := extractArray(pageStr, key, pdf)
+	if len(box) < 4 {
+		return nil
+	}
+	return normalizedRectangle(box[0], box[1], box[2], box[3])
+}
+
 // Helper functions for parsing PDF dictionaries and arrays
 
 // extractDictValue returns the value of one of a dictionary's own keys, "" if it has none
-- 
2.43.0


From 4bacf8b3014dba684e3ee9f66189c648518b0377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:06 +0000
Subject: [PATCH 47/73] fix: a null page attribute does not hide the inherited
 one

---
 content/extract/pages.go  | 4 ++--
 content/extract/values.go | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content/extract/pages.go b/content/extract/pages.go
index a1e2010..8e3c716 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -77,7 +77,7 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, inhe
 		return nil, fmt.Errorf("failed to get pages object %d: %w", pagesObjNum, err)
 	}
 
-	pagesStr := withInherited(string(pagesObj), inherited)
+	pagesStr := withInherited(string(pagesObj), inherited, pdf)
 	if verbose {
 		fmt.Printf("Pages object %d: %s\n", pagesObjNum, pagesStr)
 	}
@@ -133,7 +133,7 @@ func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, inhe
 		}
 
 		// Recursively extract from child
-		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, inheritableAttributes(pagesStr), seen, verbose)
+		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, inheritableAttributes(pagesStr, pdf), seen, verbose)
 		if err != nil {
 			if verbose {
 				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
diff --git a/content/extract/values.go b/content/extract/values.go
index 4113725..7213dc4 100644
--- a/content/extract/values.go
+++ b/content/extract/values.go
@@ -93,14 +93,14 @@ func textString(value string) string {
 var inheritedPageAttributes = []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"}
 
 // withInherited adds to a page tree node's dictionary the inheritable attributes it lacks
-func withInherited(nodeStr string, inherited map[string]string) string {
+func withInherited(nodeStr string, inherited map[string]string, pdf *parse.PDF) string {
 	_, end, ok := parse.DictSpan([]byte(nodeStr))
 	if !ok {
 		return nodeStr
 	}
 	var added strings.Builder
 	for _, key := range inheritedPageAttributes {
-		if value := inherited[key]; value != "" && extractDictValue(nodeStr, key) == "" {
+		if value := inherited[key]; value != "" && resolveValue(extractDictValue(nodeStr, key), pdf) == "" {
 			added.WriteString(" " + key + " " + value)
 		}
 	}
@@ -108,10 +108,10 @@ func withInherited(nodeStr string, inherited map[string]string) string {
 }
 
 // inheritableAttributes returns the inheritable attributes of a page tree node
-func inheritableAttributes(nodeStr string) map[string]string {
+func inheritableAttributes(nodeStr string, pdf *parse.PDF) map[string]string {
 	attributes := make(map[string]string)
 	for _, key := range inheritedPageAttributes {
-		if value := extractDictValue(nodeStr, key); value != "" && value != "null" {
+		if value := extractDictValue(nodeStr, key); resolveValue(value, pdf) != "" {
 			attributes[key] = value
 		}
 	}
-- 
2.43.0


From 8d48a0a93b21a1f8f55a09eae30ecdd8aeda59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:14 +0000
Subject: [PATCH 48/73] fix: validation errors come in a fixed order

---
 forms/acroform/validation.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index 6d826dc..608a5a3 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -4,6 +4,7 @@ package acroform
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 	"unicode/utf8"
 
@@ -177,12 +178,23 @@ func validateSignatureField(field *Field, value interface{}) error {
 	return nil
 }
 
+// sortedNames returns the names in form data in a fixed order
+func sortedNames(formData types.FormData) []string {
+	names := make([]string, 0, len(formData))
+	for name := range formData {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // ValidateFormData validates all fields in form data against the AcroForm
 func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	var errors []error
 
 	provided := make(map[*Field]bool)
-	for fieldName, value := range formData {
+	for _, fieldName := range sortedNames(formData) {
+		value := formData[fieldName]
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			errors = append(errors, fmt.Errorf("field '%s' not found in form", fieldName))
@@ -300,7 +312,8 @@ func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []err
 	}
 
 	// Validate provided values
-	for fieldName, value := range formData {
+	for _, fieldName := range sortedNames(formData) {
+		value := formData[fieldName]
 		question, found := questionsByName[fieldName]
 		if !found {
 			errors = append(errors, fmt.Errorf("field '%s' not found in schema", fieldName))
-- 
2.43.0


From d90e3728220052cda4587bc076dff29338cb2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 49/73] fix: XFA styles keep negative numbers and are written
 in a fixed order

---
 forms/xfa/xfa_stylesheet_translator.go | 44 ++++++++++++++++----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index fcc2517..8d0b9c7 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -382,7 +383,8 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	}
 
 	// Encode other properties
-	for key, value := range style.Properties {
+	for _, key := range sortedKeys(style.Properties) {
+		value := style.Properties[key]
 		if key != "font" && key != "border" && key != "margin" && key != "padding" && key != "position" && key != "size" {
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
@@ -404,13 +406,23 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	return nil
 }
 
+// sortedKeys returns the keys of a map in a fixed order
+func sortedKeys(m map[string]interface{}) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 	fontStart := xml.StartElement{Name: xml.Name{Local: "font"}}
 	attrs := []xml.Attr{}
 	if font.Family != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "family"}, Value: font.Family})
 	}
-	if font.Size > 0 {
+	if font.Size != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "size"}, Value: strconv.FormatFloat(font.Size, 'f', -1, 64)})
 	}
 	if font.Weight != "" {
@@ -440,7 +452,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	borderStart := xml.StartElement{Name: xml.Name{Local: "border"}}
 	attrs := []xml.Attr{}
-	if border.Width > 0 {
+	if border.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(border.Width, 'f', -1, 64)})
 	}
 	if border.Style != "" {
@@ -449,7 +461,7 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	if border.Color != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "color"}, Value: border.Color})
 	}
-	if border.Radius > 0 {
+	if border.Radius != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "radius"}, Value: strconv.FormatFloat(border.Radius, 'f', -1, 64)})
 	}
 	borderStart.Attr = attrs
@@ -467,16 +479,16 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 	marginStart := xml.StartElement{Name: xml.Name{Local: "margin"}}
 	attrs := []xml.Attr{}
-	if margin.Top > 0 {
+	if margin.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(margin.Top, 'f', -1, 64)})
 	}
-	if margin.Right > 0 {
+	if margin.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(margin.Right, 'f', -1, 64)})
 	}
-	if margin.Bottom > 0 {
+	if margin.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(margin.Bottom, 'f', -1, 64)})
 	}
-	if margin.Left > 0 {
+	if margin.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(margin.Left, 'f', -1, 64)})
 	}
 	marginStart.Attr = attrs
@@ -494,16 +506,16 @@ func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 	paddingStart := xml.StartElement{Name: xml.Name{Local: "padding"}}
 	attrs := []xml.Attr{}
-	if padding.Top > 0 {
+	if padding.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(padding.Top, 'f', -1, 64)})
 	}
-	if padding.Right > 0 {
+	if padding.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(padding.Right, 'f', -1, 64)})
 	}
-	if padding.Bottom > 0 {
+	if padding.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(padding.Bottom, 'f', -1, 64)})
 	}
-	if padding.Left > 0 {
+	if padding.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(padding.Left, 'f', -1, 64)})
 	}
 	paddingStart.Attr = attrs
@@ -521,10 +533,10 @@ func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 	positionStart := xml.StartElement{Name: xml.Name{Local: "position"}}
 	attrs := []xml.Attr{}
-	if position.X > 0 {
+	if position.X != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "x"}, Value: strconv.FormatFloat(position.X, 'f', -1, 64)})
 	}
-	if position.Y > 0 {
+	if position.Y != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "y"}, Value: strconv.FormatFloat(position.Y, 'f', -1, 64)})
 	}
 	positionStart.Attr = attrs
@@ -542,10 +554,10 @@ func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 func encodeSize(enc *xml.Encoder, size *types.XFASize) error {
 	sizeStart := xml.StartElement{Name: xml.Name{Local: "size"}}
 	attrs := []xml.Attr{}
-	if size.Width > 0 {
+	if size.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(size.Width, 'f', -1, 64)})
 	}
-	if size.Height > 0 {
+	if size.Height != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "height"}, Value: strconv.FormatFloat(size.Height, 'f', -1, 64)})
 	}
 	sizeStart.Attr = attrs
-- 
2.43.0


From 3f53151136276edf679f41ad670717de73489e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:56 +0000
Subject: [PATCH 50/73] fix: XFA locales keep every holiday and precision

---
 forms/xfa/xfa_locale_translator.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/forms/xfa/xfa_locale_translator.go b/forms/xfa/xfa_locale_translator.go
index d90a3f7..f5e5a34 100644
--- a/forms/xfa/xfa_locale_translator.go
+++ b/forms/xfa/xfa_locale_translator.go
@@ -145,11 +145,7 @@ func ParseXFALocaleSet(xfaLocaleSetXML string, verbose bool) (*types.XFALocaleSe
 			}
 
 		case xml.CharData:
-			if currentSection == "calendar" && strings.Contains(string(se), "holiday") {
-				// Holiday content
-			} else {
-				currentValue.WriteString(string(se))
-			}
+			currentValue.WriteString(string(se))
 		}
 	}
 
@@ -392,7 +388,7 @@ func encodeCurrency(enc *xml.Encoder, currency *types.XFACurrency) error {
 	if currency.Name != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "name"}, Value: currency.Name})
 	}
-	if currency.Precision > 0 {
+	if currency.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(currency.Precision)})
 	}
 	currencyStart.Attr = attrs
@@ -464,7 +460,7 @@ func encodeNumberPattern(enc *xml.Encoder, pattern *types.XFANumberPattern) erro
 	if pattern.Decimal != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "decimal"}, Value: pattern.Decimal})
 	}
-	if pattern.Precision > 0 {
+	if pattern.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(pattern.Precision)})
 	}
 	patternStart.Attr = attrs
-- 
2.43.0


From e43f88ffa8221a9bebf5c45934615b477c422d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:58 +0000
Subject: [PATCH 51/73] fix: properties of XFA data descriptions stay where
 they are, in a fixed order

---
 forms/xfa/xfa_connection_translator.go | 97 ++------------------------
 1 file changed, 7 insertions(+), 90 deletions(-)

diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 4d2bea0..8103716 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -77,38 +77,6 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 						}
 					}
 				}
-			case "uri", "url":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "wsdl":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "operation":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "soapAction":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "user":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "password":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "dsn":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "query":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
 			default:
 				if currentConnection != nil {
 					currentValue.Reset()
@@ -129,62 +97,6 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 				currentConnection = nil
 			case "dataDescription":
 				inDataDescription = false
-			case "uri", "url":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["uri"] = value
-					}
-				}
-			case "wsdl":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["wsdl"] = value
-					}
-				}
-			case "operation":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["operation"] = value
-					}
-				}
-			case "soapAction":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["soapAction"] = value
-					}
-				}
-			case "user":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["user"] = value
-					}
-				}
-			case "password":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["password"] = value
-					}
-				}
-			case "dsn":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["dsn"] = value
-					}
-				}
-			case "query":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["query"] = value
-					}
-				}
 			default:
 				if inDataDescription && currentConnection != nil && currentConnection.DataDescription != nil {
 					value := strings.TrimSpace(currentValue.String())
@@ -193,6 +105,9 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 					}
 				} else if currentConnection != nil {
 					value := strings.TrimSpace(currentValue.String())
+					if localName == "url" {
+						localName = "uri"
+					}
 					if value != "" {
 						currentConnection.Properties[localName] = value
 					}
@@ -276,7 +191,8 @@ func encodeConnection(enc *xml.Encoder, connection types.XFAConnection) error {
 
 	// Encode properties
 	if connection.Properties != nil {
-		for key, value := range connection.Properties {
+		for _, key := range sortedKeys(connection.Properties) {
+			value := connection.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
@@ -317,7 +233,8 @@ func encodeDataDescription(enc *xml.Encoder, desc *types.XFADataDescription) err
 
 	// Encode properties
 	if desc.Properties != nil {
-		for key, value := range desc.Properties {
+		for _, key := range sortedKeys(desc.Properties) {
+			value := desc.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return err
-- 
2.43.0


From ec8bc7ea988e32576b95d66006dc9e51c7036287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:00 +0000
Subject: [PATCH 52/73] fix: every XFA configuration setting is read and
 written

---
 forms/xfa/xfa_config_translator.go | 221 ++++++++++++++++++++++++++++-
 1 file changed, 217 insertions(+), 4 deletions(-)

diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 955022a..9c9a578 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -57,6 +58,7 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Validate == nil {
 					config.Validate = &types.XFAConfigValidate{}
 				}
+				parseValidateAttributes(se, config.Validate)
 			case "submit":
 				currentSection = "submit"
 				if config.Submit == nil {
@@ -82,21 +84,30 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Common == nil {
 					config.Common = &types.XFAConfigCommon{}
 				}
+				parseCommonAttributes(se, config.Common)
 			case "output":
 				currentSection = "output"
 				if config.Output == nil {
 					config.Output = &types.XFAConfigOutput{}
 				}
+				parseOutputAttributes(se, config.Output)
 			case "script":
 				if currentSection == "present" {
 					if config.Present.Script == nil {
 						config.Present.Script = &types.XFAConfigScript{}
 					}
+					parseScriptAttributes(se, config.Present.Script)
 				} else {
 					if config.Script == nil {
 						config.Script = &types.XFAConfigScript{}
 					}
+					parseScriptAttributes(se, config.Script)
 				}
+			case "trace":
+				if config.Trace == nil {
+					config.Trace = &types.XFAConfigTrace{}
+				}
+				parseTraceAttributes(se, config.Trace)
 			case "pdf":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.PDF == nil {
@@ -109,12 +120,14 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					if config.Present.XDP == nil {
 						config.Present.XDP = &types.XFAConfigXDP{}
 					}
+					parseXDPAttributes(se, config.Present.XDP)
 				}
 			case "print":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.Print == nil {
 						config.Present.Print = &types.XFAConfigPrint{}
 					}
+					parsePrintAttributes(se, config.Present.Print)
 				}
 			case "interactive":
 				if currentSection == "present" && config.Present != nil {
@@ -134,9 +147,10 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 			switch localName {
 			case "present", "validate", "submit", "destination", "acrobat", "common", "output":
 				currentSection = ""
+				currentValue.Reset()
 			default:
 				value := strings.TrimSpace(currentValue.String())
-				if value != "" && currentSection != "" {
+				if value != "" && localName != "config" {
 					// Store property
 					if config.Properties == nil {
 						config.Properties = make(map[string]interface{})
@@ -257,6 +271,83 @@ func parseInteractiveAttributes(se xml.StartElement, interactive *types.XFAConfi
 	}
 }
 
+func parseValidateAttributes(se xml.StartElement, validate *types.XFAConfigValidate) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "scriptTest":
+			validate.ScriptTest = attr.Value
+		case "nullTest":
+			validate.NullTest = attr.Value
+		case "formatTest":
+			validate.FormatTest = attr.Value
+		}
+	}
+}
+
+func parseCommonAttributes(se xml.StartElement, common *types.XFAConfigCommon) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "dataPrefix":
+			common.DataPrefix = attr.Value
+		case "timeStamp":
+			common.TimeStamp = attr.Value
+		}
+	}
+}
+
+func parseOutputAttributes(se xml.StartElement, output *types.XFAConfigOutput) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "format":
+			output.Format = attr.Value
+		case "destination":
+			output.Destination = attr.Value
+		}
+	}
+}
+
+func parseScriptAttributes(se xml.StartElement, script *types.XFAConfigScript) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "contentType":
+			script.ContentType = attr.Value
+		case "runAt":
+			script.RunAt = attr.Value
+		}
+	}
+}
+
+func parseTraceAttributes(se xml.StartElement, trace *types.XFAConfigTrace) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "enabled":
+			trace.Enabled = parseBool(attr.Value)
+		case "level":
+			trace.Level = attr.Value
+		}
+	}
+}
+
+func parseXDPAttributes(se xml.StartElement, xdp *types.XFAConfigXDP) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "version":
+			xdp.Version = attr.Value
+		}
+	}
+}
+
+func parsePrintAttributes(se xml.StartElement, print *types.XFAConfigPrint) {
+	for _, attr := range se.Attr {
+		switch attr.Name.Local {
+		case "printerName":
+			print.PrinterName = attr.Value
+		case "printerCap":
+			print.PrinterCap = attr.Value
+		}
+	}
+}
+
 // ConfigToXFA converts XFAConfig to XFA XML
 func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 	if verbose {
@@ -322,9 +413,24 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 		}
 	}
 
+	// Encode script section
+	if config.Script != nil {
+		if err := encodeConfigScript(enc, config.Script); err != nil {
+			return "", fmt.Errorf("failed to encode script: %v", err)
+		}
+	}
+
+	// Encode trace section
+	if config.Trace != nil {
+		if err := encodeConfigTrace(enc, config.Trace); err != nil {
+			return "", fmt.Errorf("failed to encode trace: %v", err)
+		}
+	}
+
 	// Encode additional properties
 	if config.Properties != nil {
-		for key, value := range config.Properties {
+		for _, key := range sortedKeys(config.Properties) {
+			value := config.Properties[key]
 			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
 			if err := enc.EncodeToken(elemStart); err != nil {
 				return "", err
@@ -376,6 +482,24 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 		}
 	}
 
+	if present.XDP != nil {
+		if err := encodeConfigXDP(enc, present.XDP); err != nil {
+			return err
+		}
+	}
+
+	if present.Print != nil {
+		if err := encodeConfigPrint(enc, present.Print); err != nil {
+			return err
+		}
+	}
+
+	if present.Script != nil {
+		if err := encodeConfigScript(enc, present.Script); err != nil {
+			return err
+		}
+	}
+
 	if present.Interactive != nil {
 		if err := encodeConfigInteractive(enc, present.Interactive); err != nil {
 			return err
@@ -425,10 +549,91 @@ func encodeConfigPDF(enc *xml.Encoder, pdf *types.XFAConfigPDF) error {
 	return nil
 }
 
+func encodeConfigXDP(enc *xml.Encoder, xdp *types.XFAConfigXDP) error {
+	xdpStart := xml.StartElement{Name: xml.Name{Local: "xdp"}}
+	attrs := []xml.Attr{}
+	if xdp.Version != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "version"}, Value: xdp.Version})
+	}
+	xdpStart.Attr = attrs
+
+	if err := enc.EncodeToken(xdpStart); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(xdpStart.End()); err != nil {
+		return err
+	}
+
+	return nil
+}
+
+func encodeConfigPrint(enc *xml.Encoder, print *types.XFAConfigPrint) error {
+	printStart := xml.StartElement{Name: xml.Name{Local: "print"}}
+	attrs := []xml.Attr{}
+	if print.PrinterName != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "printerName"}, Value: print.PrinterName})
+	}
+	if print.PrinterCap != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "printerCap"}, Value: print.PrinterCap})
+	}
+	printStart.Attr = attrs
+
+	if err := enc.EncodeToken(printStart); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(printStart.End()); err != nil {
+		return err
+	}
+
+	return nil
+}
+
+func encodeConfigScript(enc *xml.Encoder, script *types.XFAConfigScript) error {
+	scriptStart := xml.StartElement{Name: xml.Name{Local: "script"}}
+	attrs := []xml.Attr{}
+	if script.ContentType != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "contentType"}, Value: script.ContentType})
+	}
+	if script.RunAt != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "runAt"}, Value: script.RunAt})
+	}
+	scriptStart.Attr = attrs
+
+	if err := enc.EncodeToken(scriptStart); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(scriptStart.End()); err != nil {
+		return err
+	}
+
+	return nil
+}
+
+func encodeConfigTrace(enc *xml.Encoder, trace *types.XFAConfigTrace) error {
+	traceStart := xml.StartElement{Name: xml.Name{Local: "trace"}}
+	attrs := []xml.Attr{}
+	if trace.Enabled {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "enabled"}, Value: "1"})
+	}
+	if trace.Level != "" {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "level"}, Value: trace.Level})
+	}
+	traceStart.Attr = attrs
+
+	if err := enc.EncodeToken(traceStart); err != nil {
+		return err
+	}
+	if err := enc.EncodeToken(traceStart.End()); err != nil {
+		return err
+	}
+
+	return nil
+}
+
 func encodeConfigInteractive(enc *xml.Encoder, interactive *types.XFAConfigInteractive) error {
 	interactiveStart := xml.StartElement{Name: xml.Name{Local: "interactive"}}
 	attrs := []xml.Attr{}
-	if interactive.CurrentPage > 0 {
+	if interactive.CurrentPage != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "currentPage"}, Value: strconv.Itoa(interactive.CurrentPage)})
 	}
 	if interactive.Zoom != "" {
@@ -494,6 +699,14 @@ func encodeConfigSubmit(enc *xml.Encoder, submit *types.XFAConfigSubmit) error {
 	if submit.TextEncoding != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "textEncoding"}, Value: submit.TextEncoding})
 	}
+	names := make([]string, 0, len(submit.Properties))
+	for name := range submit.Properties {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: name}, Value: submit.Properties[name]})
+	}
 	submitStart.Attr = attrs
 
 	if err := enc.EncodeToken(submitStart); err != nil {
@@ -533,7 +746,7 @@ func encodeConfigAcrobat(enc *xml.Encoder, acrobat *types.XFAConfigAcrobat) erro
 	if acrobat.AutoSave {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSave"}, Value: "1"})
 	}
-	if acrobat.AutoSaveTime > 0 {
+	if acrobat.AutoSaveTime != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSaveTime"}, Value: strconv.Itoa(acrobat.AutoSaveTime)})
 	}
 	if acrobat.FormType != "" {
-- 
2.43.0


From 4fe6b4e8109918388e4a2ff7f328de61a6f79c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:02 +0000
Subject: [PATCH 53/73] fix: options, scripts, patterns and nested fields of
 XFA templates are read and written

---
 forms/xfa/xfa_form_translator.go | 147 ++++++++++++++++++++-----------
 1 file changed, 96 insertions(+), 51 deletions(-)

diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 10499b5..287fb8f 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -93,15 +93,29 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 		return "", fmt.Errorf("failed to encode template start: %v", err)
 	}
 
+	// Rules belong to the fields they come from, in order
+	fieldRules := make([][]types.Rule, len(formSchema.Questions))
+	var otherRules []types.Rule
+	next := 0
+	for _, rule := range formSchema.Rules {
+		index := questionIndex(formSchema.Questions, rule.Source, next)
+		if index < 0 {
+			otherRules = append(otherRules, rule)
+			continue
+		}
+		fieldRules[index] = append(fieldRules[index], rule)
+		next = index
+	}
+
 	// Convert questions to fields
-	for _, question := range formSchema.Questions {
-		if err := encodeQuestionAsField(enc, question); err != nil {
+	for i, question := range formSchema.Questions {
+		if err := encodeQuestionAsField(enc, question, fieldRules[i]); err != nil {
 			return "", fmt.Errorf("failed to encode question %s: %v", question.ID, err)
 		}
 	}
 
-	// Convert rules to events/scripts
-	for _, rule := range formSchema.Rules {
+	// Convert other rules to events/scripts
+	for _, rule := range otherRules {
 		if err := encodeRuleAsEvent(enc, rule); err != nil {
 			if verbose {
 				log.Printf("Warning: Failed to encode rule %s: %v", rule.ID, err)
@@ -126,8 +140,24 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 	return result, nil
 }
 
-// encodeQuestionAsField encodes a Question as an XFA field element
-func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
+// questionIndex finds the question a rule comes from, at index from or after it if possible
+func questionIndex(questions []types.Question, source string, from int) int {
+	for i := range questions {
+		index := (from + i) % len(questions)
+		if questions[index].Name == source {
+			return index
+		}
+	}
+	for i := range questions {
+		if questions[i].ID == source {
+			return i
+		}
+	}
+	return -1
+}
+
+// encodeQuestionAsField encodes a Question and its rules as an XFA field element
+func encodeQuestionAsField(enc *xml.Encoder, question types.Question, rules []types.Rule) error {
 	fieldStart := xml.StartElement{
 		Name: xml.Name{Local: "field"},
 		Attr: []xml.Attr{
@@ -168,9 +198,10 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 	}
 
 	// Add layout properties
+	pageNumber := question.PageNumber
 	if question.Properties != nil {
-		for key, val := range question.Properties {
-			if key == "x" || key == "y" || key == "w" || key == "h" {
+		for _, key := range []string{"x", "y", "w", "h"} {
+			if val, ok := question.Properties[key]; ok {
 				fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
 					Name:  xml.Name{Local: key},
 					Value: fmt.Sprintf("%v", val),
@@ -178,12 +209,15 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 			}
 		}
 		if pageNum, ok := question.Properties["page_number"].(int); ok && pageNum > 0 {
-			fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
-				Name:  xml.Name{Local: "page"},
-				Value: strconv.Itoa(pageNum),
-			})
+			pageNumber = pageNum
 		}
 	}
+	if pageNumber != 0 {
+		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "page"},
+			Value: strconv.Itoa(pageNumber),
+		})
+	}
 
 	if err := enc.EncodeToken(fieldStart); err != nil {
 		return err
@@ -262,6 +296,13 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 		}
 	}
 
+	// Add rules
+	for _, rule := range rules {
+		if err := encodeRuleAsEvent(enc, rule); err != nil {
+			return err
+		}
+	}
+
 	// End field
 	if err := enc.EncodeToken(fieldStart.End()); err != nil {
 		return err
@@ -478,17 +519,20 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 	decoder.Strict = false // Allow malformed XML
 
 	var currentField *XFAFieldData
-	var currentSubform *XFASubformData
+	var openSubforms []*XFASubformData
 	var currentValue strings.Builder
 	var currentLabel strings.Builder
 	var currentDescription strings.Builder
+	var currentText strings.Builder // of options, scripts and patterns
 	var inField bool
-	var inSubform bool
 	var inValue bool
 	var inLabel bool
 	var inDescription bool
 	var inItems bool // For choice options
-	var fieldIndex int
+	var inOption bool
+	var inEvent bool
+	var inScript bool
+	var inPattern bool
 
 	for {
 		token, err := decoder.Token()
@@ -518,18 +562,17 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					}
 				}
 			case "subform":
-				inSubform = true
-				currentSubform = &XFASubformData{
+				subform := &XFASubformData{
 					Fields: make([]XFAFieldData, 0),
 				}
 				for _, attr := range se.Attr {
 					if attr.Name.Local == "name" {
-						currentSubform.Name = attr.Value
+						subform.Name = attr.Value
 					}
 				}
+				openSubforms = append(openSubforms, subform)
 			case "field":
 				inField = true
-				fieldIndex++
 				currentField = &XFAFieldData{
 					Properties: make(map[string]interface{}),
 					Options:    make([]XFAOption, 0),
@@ -567,11 +610,11 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					}
 				}
 			case "value":
-				if inField {
+				if inField && !inLabel {
 					inValue = true
 					currentValue.Reset()
 				}
-			case "label":
+			case "label", "caption":
 				if inField {
 					inLabel = true
 					currentLabel.Reset()
@@ -588,10 +631,12 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "text":
 				// Option text in items
 				if inItems && inField {
-					currentValue.Reset()
+					inOption = true
+					currentText.Reset()
 				}
 			case "event":
 				if inField {
+					inEvent = true
 					event := XFAEvent{}
 					for _, attr := range se.Attr {
 						switch attr.Name.Local {
@@ -604,9 +649,10 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					currentField.Events = append(currentField.Events, event)
 				}
 			case "script":
-				if inField && len(currentField.Events) > 0 {
+				if inField && inEvent {
 					// Script content will be in CharData
-					currentValue.Reset()
+					inScript = true
+					currentText.Reset()
 				}
 			case "validate":
 				if inField {
@@ -624,7 +670,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				}
 			case "pattern":
 				if inField && currentField.Validation != nil {
-					currentValue.Reset()
+					inPattern = true
+					currentText.Reset()
 				}
 			case "bind":
 				if inField {
@@ -647,12 +694,6 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "field":
 				if currentField != nil {
 					// Finalize field
-					if currentValue.Len() > 0 {
-						currentField.Value = strings.TrimSpace(currentValue.String())
-						if currentField.Default == "" {
-							currentField.Default = currentField.Value
-						}
-					}
 					if currentLabel.Len() > 0 {
 						currentField.Label = strings.TrimSpace(currentLabel.String())
 					}
@@ -660,11 +701,11 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 						currentField.Description = strings.TrimSpace(currentDescription.String())
 					}
 
-					if inSubform && currentSubform != nil {
-						currentSubform.Fields = append(currentSubform.Fields, *currentField)
-					} else {
-						structure.Fields = append(structure.Fields, *currentField)
+					// The fields of subforms are among all fields, in document order
+					if n := len(openSubforms); n > 0 {
+						openSubforms[n-1].Fields = append(openSubforms[n-1].Fields, *currentField)
 					}
+					structure.Fields = append(structure.Fields, *currentField)
 				}
 				inField = false
 				currentField = nil
@@ -672,15 +713,12 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				currentLabel.Reset()
 				currentDescription.Reset()
 			case "subform":
-				if currentSubform != nil {
-					structure.Subforms = append(structure.Subforms, *currentSubform)
-					// Also add subform fields to top-level fields
-					structure.Fields = append(structure.Fields, currentSubform.Fields...)
+				if n := len(openSubforms); n > 0 {
+					structure.Subforms = append(structure.Subforms, *openSubforms[n-1])
+					openSubforms = openSubforms[:n-1]
 				}
-				inSubform = false
-				currentSubform = nil
 			case "value":
-				if inField && currentField != nil {
+				if inValue && currentField != nil {
 					val := strings.TrimSpace(currentValue.String())
 					if val != "" {
 						currentField.Value = val
@@ -690,7 +728,7 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					}
 				}
 				inValue = false
-			case "label":
+			case "label", "caption":
 				if inField && currentField != nil {
 					currentField.Label = strings.TrimSpace(currentLabel.String())
 				}
@@ -706,26 +744,33 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				if inItems && inField && currentField != nil {
 					// This is an option value
 					option := XFAOption{
-						Value: strings.TrimSpace(currentValue.String()),
-						Label: strings.TrimSpace(currentValue.String()),
+						Value: strings.TrimSpace(currentText.String()),
+						Label: strings.TrimSpace(currentText.String()),
 					}
 					currentField.Options = append(currentField.Options, option)
 				}
+				inOption = false
+			case "event":
+				inEvent = false
 			case "script":
-				if inField && len(currentField.Events) > 0 {
+				if inScript && inField {
 					// Add script to last event
 					lastEvent := &currentField.Events[len(currentField.Events)-1]
-					lastEvent.Script = strings.TrimSpace(currentValue.String())
+					lastEvent.Script = strings.TrimSpace(currentText.String())
 				}
+				inScript = false
 			case "pattern":
-				if inField && currentField.Validation != nil {
-					currentField.Validation.Pattern = strings.TrimSpace(currentValue.String())
+				if inPattern && inField {
+					currentField.Validation.Pattern = strings.TrimSpace(currentText.String())
 				}
+				inPattern = false
 			}
 
 		case xml.CharData:
 			data := string(se)
-			if inValue && inField {
+			if (inOption || inScript || inPattern) && inField {
+				currentText.WriteString(data)
+			} else if inValue && inField {
 				currentValue.WriteString(data)
 			} else if inLabel && inField {
 				currentLabel.WriteString(data)
@@ -799,7 +844,7 @@ func mapXFATypeToResponseTypeEnum(xfaType string) types.ResponseType {
 		return types.ResponseTypeRadio
 	case "checkbox", "checkbutton":
 		return types.ResponseTypeCheckbox
-	case "select", "choice", "dropdown", "listbox":
+	case "select", "choice", "choicelist", "dropdown", "listbox":
 		return types.ResponseTypeSelect
 	case "numeric", "decimal", "integer", "float":
 		return types.ResponseTypeNumber
-- 
2.43.0


From 01f243aa3c595d33131d7f2e441b8fa0e6b7b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:36 +0000
Subject: [PATCH 54/73] fix: the scripts of a rule's actions are written on
 lines of their own

---
 forms/xfa/xfa_form_translator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 287fb8f..4ce4ed1 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -395,6 +395,9 @@ func encodeRuleAsEvent(enc *xml.Encoder, rule types.Rule) error {
 
 		var scriptBuf strings.Builder
 		for _, action := range rule.Actions {
+			if scriptBuf.Len() > 0 && (action.Script != "" || action.Expression != "") {
+				scriptBuf.WriteString("\n")
+			}
 			if action.Script != "" {
 				scriptBuf.WriteString(action.Script)
 			} else if action.Expression != "" {
-- 
2.43.0


From 3f4d75c537a0f857c1e93b96ca8267993d60e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:26 +0000
Subject: [PATCH 55/73] fix: the kind of an error is found through the errors
 that wrap it

---
 types/errors.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/types/errors.go b/types/errors.go
index ca28617..8e78525 100644
--- a/types/errors.go
+++ b/types/errors.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -154,17 +155,18 @@ var (
 	ErrIOError = &PDFError{Code: ErrCodeIOError}
 )
 
-// IsPDFError checks if an error is a PDFError and returns it
+// IsPDFError checks if an error is or wraps a PDFError and returns it (the outermost one)
 func IsPDFError(err error) (*PDFError, bool) {
-	if pdfErr, ok := err.(*PDFError); ok {
+	var pdfErr *PDFError
+	if errors.As(err, &pdfErr) {
 		return pdfErr, true
 	}
 	return nil, false
 }
 
-// GetErrorCode extracts the error code from an error if it's a PDFError
+// GetErrorCode extracts the error code from an error if it is or wraps a PDFError
 func GetErrorCode(err error) (PDFErrorCode, bool) {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code, true
 	}
 	return "", false
@@ -172,7 +174,7 @@ func GetErrorCode(err error) (PDFErrorCode, bool) {
 
 // IsNotFound checks if the error is an object not found error
 func IsNotFound(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code == ErrCodeObjectNotFound || pdfErr.Code == ErrCodeFieldNotFound
 	}
 	return false
@@ -180,7 +182,7 @@ func IsNotFound(err error) bool {
 
 // IsEncryptionError checks if the error is related to encryption
 func IsEncryptionError(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		switch pdfErr.Code {
 		case ErrCodeEncrypted, ErrCodeDecryptionFailed, ErrCodeWrongPassword, ErrCodeUnsupportedCrypto:
 			return true
@@ -191,7 +193,7 @@ func IsEncryptionError(err error) bool {
 
 // IsValidationError checks if the error is a validation error
 func IsValidationError(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code == ErrCodeValidationError || pdfErr.Code == ErrCodeInvalidValue
 	}
 	return false
-- 
2.43.0


From 9accda35088304f4421845307b5166a9867e4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:26 +0000
Subject: [PATCH 56/73] fix: warnings handed out do not change when the
 collector is cleared

---
 types/warnings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/warnings.go b/types/warnings.go
index 59f8557..825d133 100644
--- a/types/warnings.go
+++ b/types/warnings.go
@@ -109,7 +109,7 @@ func (wc *WarningCollector) AddWarningWithCode(level WarningLevel, code, message
 
 // Warnings returns all collected warnings
 func (wc *WarningCollector) Warnings() []*Warning {
-	return wc.warnings
+	return append(make([]*Warning, 0, len(wc.warnings)), wc.warnings...)
 }
 
 // Count returns the number of warnings collected
@@ -124,7 +124,7 @@ func (wc *WarningCollector) HasWarnings() bool {
 
 // Clear clears all warnings
 func (wc *WarningCollector) Clear() {
-	wc.warnings = wc.warnings[:0]
+	wc.warnings = make([]*Warning, 0)
 }
 
 // FilterByLevel returns warnings filtered by level
-- 
2.43.0


From 1c5fc94d12d9f3e68331e112ee96964c3c804bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:44 +0000
Subject: [PATCH 57/73] fix: forms of a document that cannot be opened are not
 reported as missing

---
 forms/forms.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/forms/forms.go b/forms/forms.go
index 09f0fc2..4d8b721 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -109,6 +109,13 @@ func (w *XFAFormWrapper) GetValues() map[string]interface{} {
 	return make(map[string]interface{})
 }
 
+// unreadable says why a PDF cannot be read at all: a document that cannot be opened, for
+// example with a wrong password, is not one without forms
+func unreadable(pdfBytes, password []byte) error {
+	_, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password})
+	return err
+}
+
 // Detect detects the form type in a PDF
 func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	// Try AcroForm first
@@ -123,6 +130,9 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 		return FormTypeXFA, nil
 	}
 
+	if err := unreadable(pdfBytes, password); err != nil {
+		return FormTypeUnknown, err
+	}
 	return FormTypeUnknown, types.NewPDFError(types.ErrCodeNoForms, "no forms detected in PDF")
 }
 
@@ -161,6 +171,9 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 		}, nil
 	}
 
+	if err := unreadable(pdfBytes, password); err != nil {
+		return nil, err
+	}
 	return nil, types.NewPDFError(types.ErrCodeNoForms, "no forms found in PDF")
 }
 
@@ -174,6 +187,9 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
 	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryption(pdfBytes, password), verbose)
 	if err != nil {
+		if openErr := unreadable(pdfBytes, password); openErr != nil {
+			err = openErr
+		}
 		return nil, nil, err
 	}
 
-- 
2.43.0


From 63615aafb4662b72e85a098155c8f83d239f25b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 58/73] fix: read a cross-reference section as the kind that
 stands at its offset

---
 core/parse/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/parse/parser.go b/core/parse/parser.go
index afc544c..3f4d9d7 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -180,11 +180,16 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 
 	// Read from startxref position to determine type
 	xrefSection := pdfBytes[startXRef:]
+	xrefSection = xrefSection[skipSpace(xrefSection, 0):]
 	xrefStr := string(xrefSection[:min(5000, len(xrefSection))])
 
+	if bytes.HasPrefix(xrefSection, []byte("xref")) {
+		return ParseTraditionalXRefTable(pdfBytes, startXRef)
+	}
+
 	// Check if it's a cross-reference stream (PDF 1.5+)
-	// Cross-reference streams have /Type/XRef and /W[widths]
-	if strings.Contains(xrefStr, "/Type/XRef") || strings.Contains(xrefStr, "/W[") {
+	// Cross-reference streams are objects that have /Type/XRef and /W[widths]
+	if objectHeaderPattern.MatchString(xrefStr) || strings.Contains(xrefStr, "/Type/XRef") || strings.Contains(xrefStr, "/W[") {
 		// Cross-reference stream - need to find the stream object and decompress it
 		return ParseXRefStreamWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
 	}
-- 
2.43.0


From cd15070c1bc6fadda5c35058bdfc437778f51c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:08 +0000
Subject: [PATCH 59/73] fix: ParsePDFTrailer reports the trailer of the newest
 revision

---
 core/parse/incremental.go |  2 ++
 core/parse/parser.go      | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 90f0046..795ef7f 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -31,6 +31,7 @@ type incrementalParser struct {
 	mergedObjs    map[int]int64             // Final merged object map
 	mergedStreams map[int]ObjectStreamEntry // Final merged object stream entries
 	mergedFree    map[int]bool              // Objects whose newest entry is free
+	skipped       bool                      // A section of the chain could not be parsed
 	verbose       bool
 }
 
@@ -169,6 +170,7 @@ func (p *incrementalParser) parseXRefChain(startXRef int64) error {
 	for _, offset := range offsets {
 		section, err := p.parsexrefSection(offset)
 		if err != nil {
+			p.skipped = true
 			if p.verbose {
 				fmt.Printf("Warning: failed to parse xref at offset %d: %v\n", offset, err)
 			}
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 3f4d9d7..bd86648 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -13,6 +13,22 @@ import (
 
 // ParsePDFTrailer parses the PDF trailer to find object references
 func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
+	// The newest section of the xref chain has the trailer where the chain can be read
+	incParser := newIncrementalParser(pdfBytes, false)
+	if err := incParser.parse(); err == nil && !incParser.skipped {
+		newest := incParser.sections[len(incParser.sections)-1]
+		trailer := &PDFTrailer{StartXRef: newest.StartXRef}
+		for _, entry := range []struct {
+			key, ref string
+			target   *string
+		}{{"/Root ", newest.Root, &trailer.RootRef}, {"/Info ", newest.Info, &trailer.InfoRef}, {"/Encrypt ", newest.Encrypt, &trailer.EncryptRef}} {
+			if entry.ref != "" {
+				*entry.target = entry.key + entry.ref
+			}
+		}
+		return trailer, nil
+	}
+
 	pdfStr := string(pdfBytes)
 
 	// Find trailer - search from the end (trailer is usually near EOF)
-- 
2.43.0


From ead630d57df9d27ecf291f564824f2754f6c1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:23 +0000
Subject: [PATCH 60/73] fix: trailer bytes end where the trailer's dictionary
 ends

---
 core/parse/document_parser.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 023c4f8..9b5a059 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -293,7 +293,9 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 
 		// Find dictionary boundaries for RawBytes
 		dictStart := bytes.Index(section, []byte("<<"))
-		if dictStart != -1 {
+		if span, ok := scanObject(nil, section); ok && span.DictEnd > 0 {
+			trailer.RawBytes = section[skipSpace(section, span.Content):span.DictEnd]
+		} else if dictStart != -1 {
 			// Find matching >>
 			depth := 1
 			dictEnd := dictStart + 2
@@ -321,16 +323,21 @@ func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*Trai
 
 	trailer.Offset = startXRef + int64(trailerIdx)
 
-	// Find end of trailer (at startxref keyword)
-	startxrefIdx := bytes.Index(section[trailerIdx:], []byte("startxref"))
-	if startxrefIdx == -1 {
-		startxrefIdx = len(section) - trailerIdx
+	// Find end of trailer (at the startxref keyword that follows its dictionary)
+	dict := trailerDict(section, trailerIdx)
+	dictEnd := trailerIdx
+	if dict != nil {
+		dictEnd = skipSpace(section, trailerIdx+len("trailer")) + len(dict)
+	}
+	trailerEnd := len(section)
+	if idx := bytes.Index(section[dictEnd:], []byte("startxref")); idx != -1 {
+		trailerEnd = dictEnd + idx
 	}
 
-	trailer.RawBytes = section[trailerIdx : trailerIdx+startxrefIdx]
+	trailer.RawBytes = section[trailerIdx:trailerEnd]
 
 	// Parse trailer values
-	trailer.readEntries(dictEntries(trailerDict(section, trailerIdx)))
+	trailer.readEntries(dictEntries(dict))
 
 	return trailer, nil
 }
-- 
2.43.0


From 4759816b0d61bbd280d37bd91342402ac0413663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:45 +0000
Subject: [PATCH 61/73] fix: report the file identifiers of a trailer

---
 core/parse/api.go             | 2 ++
 core/parse/document.go        | 1 +
 core/parse/document_parser.go | 6 ++++++
 3 files changed, 9 insertions(+)

diff --git a/core/parse/api.go b/core/parse/api.go
index 3bc2ad4..ffb7b95 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -244,6 +244,7 @@ func (p *PDF) parseBytePerfect() error {
 				RootRef:    lastRev.Trailer.Root,
 				InfoRef:    lastRev.Trailer.Info,
 				EncryptRef: lastRev.Trailer.Encrypt,
+				IDArray:    append([]byte(nil), lastRev.Trailer.idArray...),
 			}
 		}
 	}
@@ -306,6 +307,7 @@ func (p *PDF) parseStandard() error {
 			RootRef:    lastSection.Root,
 			InfoRef:    lastSection.Info,
 			EncryptRef: lastSection.Encrypt,
+			IDArray:    append([]byte(nil), lastSection.fileID...),
 		}
 		p.xref.Size = lastSection.Size
 	}
diff --git a/core/parse/document.go b/core/parse/document.go
index 636014b..08b1cae 100644
--- a/core/parse/document.go
+++ b/core/parse/document.go
@@ -97,6 +97,7 @@ type TrailerData struct {
 	Info    string   // /Info reference (if present)
 	Prev    int64    // /Prev value (offset of previous xref, 0 if none)
 	ID      [][]byte // /ID array (two byte strings)
+	idArray []byte   // /ID array as written
 }
 
 // Bytes returns the complete PDF bytes for reconstruction
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 9b5a059..5c97ede 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -347,6 +347,12 @@ func (t *TrailerData) readEntries(entries map[string][]byte) {
 	var section xrefSection
 	section.readTrailer(entries)
 	t.Size, t.Root, t.Encrypt, t.Info, t.Prev = section.Size, section.Root, section.Encrypt, section.Info, section.Prev
+	t.idArray = section.fileID
+	for _, value := range ArrayValues(section.fileID) {
+		if id, ok := StringBytes(value); ok {
+			t.ID = append(t.ID, id)
+		}
+	}
 }
 
 // ParseRawObject parses a PDF object preserving all raw bytes
-- 
2.43.0


From 36d7d441340fdd70664b29a53515553240ffc0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:48 +0000
Subject: [PATCH 62/73] fix: keep the bytes of cross-reference table entries

---
 core/parse/lexical.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/parse/lexical.go b/core/parse/lexical.go
index 4e18f81..193cb94 100644
--- a/core/parse/lexical.go
+++ b/core/parse/lexical.go
@@ -366,7 +366,11 @@ func scanXRefTable(section []byte) ([]XRefEntry, int) {
 		third, _, end3 := next(end2)
 		if third == "n" || third == "f" {
 			if objNum >= 0 && objNum <= MaxObjectNumber {
-				entries = append(entries, XRefEntry{ObjectNum: objNum, Generation: b, Offset: a, InUse: third == "n"})
+				eol := end3
+				for eol < len(section) && eol < start+20 && isSpaceByte(section[eol]) {
+					eol++
+				}
+				entries = append(entries, XRefEntry{ObjectNum: objNum, Generation: b, Offset: a, InUse: third == "n", RawBytes: section[start:eol]})
 				objNum++
 			}
 			p = end3
-- 
2.43.0


From 4fe23842d04025562ddf8bc6275b67590cd7d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:51 +0000
Subject: [PATCH 63/73] fix: ParseRawObject does not return another object's
 bytes

---
 core/parse/document_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 5c97ede..d8f2874 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -372,8 +372,8 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 	// Verify object header
 	expectedHeader := fmt.Sprintf("%d %d obj", objNum, objGen)
 	if !bytes.HasPrefix(section, []byte(expectedHeader)) {
-		// Try to find it nearby
-		headerPattern := regexp.MustCompile(fmt.Sprintf(`\b%d\s+%d\s+obj`, objNum, objGen))
+		// It may be spaced differently, or stand a little later
+		headerPattern := regexp.MustCompile(fmt.Sprintf(`^\s*%d\s+%d\s+obj`, objNum, objGen))
 		if !headerPattern.Match(section[:min(50, len(section))]) {
 			return nil, fmt.Errorf("object header not found at offset %d", offset)
 		}
-- 
2.43.0


From a67b44f1167fd9ad1777e9f07282c33086589b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 64/73] fix: references of a trailer read the same however they
 are spaced

---
 core/parse/lexical.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/parse/lexical.go b/core/parse/lexical.go
index 193cb94..a7515a4 100644
--- a/core/parse/lexical.go
+++ b/core/parse/lexical.go
@@ -46,7 +46,7 @@ func entryInt(entries map[string][]byte, key string) (int, bool) {
 
 func entryRef(entries map[string][]byte, key string) string {
 	if v, ok := entries[key]; ok && refPattern.Match(v) {
-		return string(v)
+		return string(bytes.Join(bytes.Fields(v), []byte(" ")))
 	}
 	return ""
 }
-- 
2.43.0


From fedd4c5e564569d20596ed63730fc0b6ee56aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:11 +0000
Subject: [PATCH 65/73] fix: objects that a complete xref chain does not list
 are not found in other text

---
 core/parse/get_object.go  | 2 +-
 core/parse/incremental.go | 6 ++++++
 core/parse/parser.go      | 4 +++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index f5d1bd1..b8db5cd 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -33,7 +33,7 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 		if offset, ok := incParser.mergedObjs[objNum]; ok {
 			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
 		}
-		if incParser.mergedFree[objNum] {
+		if incParser.mergedFree[objNum] || incParser.complete() {
 			return nil, fmt.Errorf("object %d not found", objNum)
 		}
 	}
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 795ef7f..ed64d21 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -69,6 +69,12 @@ func (p *incrementalParser) parse() error {
 	return nil
 }
 
+// complete tells whether the whole xref chain was read, so that an object it does not list
+// does not exist
+func (p *incrementalParser) complete() bool {
+	return !p.skipped && len(p.sections) > 0 && p.sections[len(p.sections)-1].Root != ""
+}
+
 // getObjectMap returns the merged object map
 func (p *incrementalParser) getObjectMap() map[int]int64 {
 	return p.mergedObjs
diff --git a/core/parse/parser.go b/core/parse/parser.go
index bd86648..cc81d81 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -15,7 +15,7 @@ import (
 func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
 	// The newest section of the xref chain has the trailer where the chain can be read
 	incParser := newIncrementalParser(pdfBytes, false)
-	if err := incParser.parse(); err == nil && !incParser.skipped {
+	if err := incParser.parse(); err == nil && incParser.complete() {
 		newest := incParser.sections[len(incParser.sections)-1]
 		trailer := &PDFTrailer{StartXRef: newest.StartXRef}
 		for _, entry := range []struct {
@@ -123,6 +123,8 @@ func FindObjectByNumber(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncry
 			if span := objectHeaderPattern.FindSubmatch(pdfBytes[offset:min(int(offset)+64, len(pdfBytes))]); span != nil && string(span[1]) == strconv.Itoa(objNum) {
 				return int(offset), nil
 			}
+		} else if _, inStream := incParser.mergedStreams[objNum]; inStream || incParser.mergedFree[objNum] || !ok && incParser.complete() {
+			return -1, fmt.Errorf("object %d not found", objNum)
 		}
 	}
 
-- 
2.43.0


From 534aaa0c39152e14fd2a78e599152c0acb6db658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:31 +0000
Subject: [PATCH 66/73] fix: the next free object number is not taken for an
 offset

---
 core/parse/xref_stream.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index 6709598..58f4c8d 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -2,6 +2,7 @@ package parse
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -36,8 +37,13 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 		} else if typeVal == 0 {
 			// Type 0: free object
 			// However, some PDFs incorrectly mark in-use objects as type 0
-			// If offset looks valid, include it (object 212 is type 0 but has offset 66048)
-			if offset > 100 && offset < int64(len(pdfBytes)) {
+			// If the object is there, include it (object 212 is type 0 but has offset 66048);
+			// otherwise the field is the number of the next free object
+			if offset <= 100 || offset >= int64(len(pdfBytes)) {
+				return
+			}
+			header := objectHeaderPattern.FindSubmatch(pdfBytes[offset:min(int(offset)+64, len(pdfBytes))])
+			if header != nil && string(header[1]) == strconv.Itoa(objNum) {
 				objMap[objNum] = offset
 			}
 		}
-- 
2.43.0


From 33e28189e7d9ff07df93a73dcf60f9def4403164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:31 +0000
Subject: [PATCH 67/73] fix: the command line tool takes a document that only
 mentions /Encrypt as unencrypted

---
 cmd/pdfer/main.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index 3af6443..601becf 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -9,6 +9,7 @@ import (
 	"os"
 
 	encrypt "github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -124,7 +125,7 @@ func main() {
 
 	// Check if PDF is encrypted and decrypt if needed
 	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
+	if isEncrypted(pdfBytes) {
 		if *verbose {
 			log.Printf("PDF is encrypted, attempting to decrypt...")
 		}
@@ -201,6 +202,15 @@ func main() {
 	fmt.Printf("Fields filled: %d\n", len(formData))
 }
 
+// isEncrypted tells whether a PDF is encrypted: a document that can be opened without a password
+// says so itself, one that cannot is if it mentions encryption
+func isEncrypted(pdfBytes []byte) bool {
+	if pdf, err := parse.Open(pdfBytes); err == nil {
+		return pdf.IsEncrypted()
+	}
+	return bytes.Contains(pdfBytes, []byte("/Encrypt"))
+}
+
 // handleExtractSchema extracts questionnaire schema from PDF and writes it as JSON
 func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 	// Read PDF file
@@ -211,7 +221,7 @@ func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 
 	// Check if PDF is encrypted and decrypt if needed
 	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
+	if isEncrypted(pdfBytes) {
 		if verbose {
 			log.Printf("PDF is encrypted, attempting to decrypt...")
 		}
-- 
2.43.0


From a2b850a181a02220b7950909acfc989fa8453061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:52 +0000
Subject: [PATCH 68/73] fix: the command line tool fills whole numbers with all
 their digits

---
 cmd/pdfer/main.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index 601becf..a5cd7b0 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"strings"
 
 	encrypt "github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
@@ -107,8 +108,7 @@ func main() {
 		log.Fatalf("Error reading data file: %v", err)
 	}
 
-	var formData types.FormData
-	err = json.Unmarshal(dataBytes, &formData)
+	formData, err := parseFormData(dataBytes)
 	if err != nil {
 		log.Fatalf("Error parsing JSON: %v", err)
 	}
@@ -202,6 +202,25 @@ func main() {
 	fmt.Printf("Fields filled: %d\n", len(formData))
 }
 
+// parseFormData reads the field values from JSON. Whole numbers keep all of their digits.
+func parseFormData(data []byte) (types.FormData, error) {
+	var formData, exact types.FormData
+	if err := json.Unmarshal(data, &formData); err != nil {
+		return nil, err
+	}
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode(&exact); err != nil {
+		return nil, err
+	}
+	for name, value := range exact {
+		if n, ok := value.(json.Number); ok && !strings.ContainsAny(n.String(), ".eE") {
+			formData[name] = n.String()
+		}
+	}
+	return formData, nil
+}
+
 // isEncrypted tells whether a PDF is encrypted: a document that can be opened without a password
 // says so itself, one that cannot is if it mentions encryption
 func isEncrypted(pdfBytes []byte) bool {
-- 
2.43.0


From c7be55dcd29319e6ce22a5902ddae739bfc03293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 69/73] fix: the command line tool takes the schema of an XFA
 form from its template

---
 cmd/pdfer/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index a5cd7b0..119b28a 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -278,11 +278,19 @@ func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 		}
 	}
 
-	// Extract XFA data from PDF
-	xfaData, _, err := xfa.FindXFADatasetsStream(pdfBytes, encryptInfo, verbose)
+	// Extract the XFA form from PDF: the template describes the fields, the datasets hold values
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		log.Fatalf("Error finding XFA datasets stream: %v", err)
+		log.Fatalf("Error finding XFA streams: %v", err)
 	}
+	form := streams.Template
+	if form == nil {
+		form = streams.Datasets
+	}
+	if form == nil {
+		log.Fatal("Error: no form found in XFA")
+	}
+	xfaData := form.Data
 
 	// Decompress XFA XML
 	xfaXML, _, err := xfa.DecompressStream(xfaData)
-- 
2.43.0


From aaef5ff55d8877fd029f49e25a05a26d9ee0a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:34 +0000
Subject: [PATCH 70/73] fix: names of XFA packets are escaped in the packet
 list

A packet name with a backslash or an unbalanced parenthesis was written as it is, which gave
another name or an unreadable AcroForm dictionary.
---
 core/write/xfa_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index 505b500..e4fe693 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -55,7 +55,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		b.xfaStreams[stream.Name] = objNum
 
 		// Add to XFA array: (name) objNum 0 R
-		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", literalString(stream.Name), objNum))
+		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", escapePDFString(stream.Name), objNum))
 
 		if b.verbose {
 			log.Printf("Added XFA stream '%s': object %d, %d bytes", stream.Name, objNum, len(stream.Data))
-- 
2.43.0


From 51cd48556ca936bd91181c7cc4622bc295d7bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:54 +0000
Subject: [PATCH 71/73] fix: XFA of an encrypted document read with a wrong
 password is an error

---
 forms/forms.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/forms/forms.go b/forms/forms.go
index 4d8b721..7b42f07 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -185,9 +185,15 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 // ExtractXFA extracts XFA form data (type-specific)
 // Returns the FormSchema and Datasets separately
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
+	// Packets that cannot be decrypted are not a form without data
+	openErr := unreadable(pdfBytes, password)
+	if types.IsEncryptionError(openErr) {
+		return nil, nil, openErr
+	}
+
 	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryption(pdfBytes, password), verbose)
 	if err != nil {
-		if openErr := unreadable(pdfBytes, password); openErr != nil {
+		if openErr != nil {
 			err = openErr
 		}
 		return nil, nil, err
-- 
2.43.0


From a2f486c5aabf6fa014d9a907032db4a0afa7c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:02 +0000
Subject: [PATCH 72/73] fix: streams given as raw content with comments or NUL
 after them were put into object streams

---
 core/write/object_stream.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index a61b147..c05b9c6 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // objectStreamGroup represents a group of objects to be stored in an object stream
@@ -34,7 +36,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		}
 		// The encryption dictionary must stay readable without decryption, and stream
 		// objects given as raw content cannot be nested
-		if fmt.Sprintf("%d 0 R", objNum) == w.encryptRef || bytes.HasSuffix(bytes.TrimSpace(obj.Content), []byte("endstream")) {
+		if _, _, isStream := parse.SplitStream(obj.Content); isStream || fmt.Sprintf("%d 0 R", objNum) == w.encryptRef {
 			continue
 		}
 		// Only compress non-stream objects (stream objects are already compressed)
-- 
2.43.0


From 45f7dec8548f4502424fb283cb53b6306125356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:21 +0000
Subject: [PATCH 73/73] fix: the list of XFA fields leaves out prefixed fields
 and takes captions' values and names in pieces

---
 core/parse/xfa_parser.go | 54 +++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/core/parse/xfa_parser.go b/core/parse/xfa_parser.go
index 3f25766..a5ccf97 100644
--- a/core/parse/xfa_parser.go
+++ b/core/parse/xfa_parser.go
@@ -16,16 +16,6 @@ func ParseXFAFields(xfaXML string, verbose bool) ([]types.FormField, error) {
 	var fields []types.FormField
 	fieldIndex := 1
 
-	// Count fields
-	fieldCount := strings.Count(xfaXML, "<field")
-	if verbose {
-		log.Printf("Found %d <field> tags in XFA XML", fieldCount)
-	}
-
-	if fieldCount == 0 {
-		return fields, nil
-	}
-
 	// Use XML decoder with error recovery
 	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
 	decoder.Strict = false // Allow malformed XML
@@ -39,6 +29,7 @@ func ParseXFAFields(xfaXML string, verbose bool) ([]types.FormField, error) {
 	var inValue bool
 	var inName bool
 	var inLabel bool
+	var open []string // the elements around the current token
 
 	for {
 		token, err := decoder.Token()
@@ -84,15 +75,25 @@ func ParseXFAFields(xfaXML string, verbose bool) ([]types.FormField, error) {
 						currentField.Properties[attr.Name.Local] = attr.Value
 					}
 				}
-			} else if se.Name.Local == "value" && inField {
-				inValue = true
-				currentValue = ""
-			} else if se.Name.Local == "name" && inField {
-				inName = true
-			} else if se.Name.Local == "label" && inField {
-				inLabel = true
+			} else if len(open) > 0 && open[len(open)-1] == "field" && inField {
+				// Only the field's own parts count, not those of its caption or items
+				switch se.Name.Local {
+				case "value":
+					inValue = true
+					currentValue = ""
+				case "name":
+					inName = true
+					currentName = ""
+				case "label":
+					inLabel = true
+				}
 			}
+			open = append(open, se.Name.Local)
 		case xml.EndElement:
+			if len(open) > 0 {
+				open = open[:len(open)-1]
+			}
+			ownPart := len(open) > 0 && open[len(open)-1] == "field"
 			if se.Name.Local == "field" {
 				if currentField != nil {
 					// Finalize field
@@ -134,26 +135,27 @@ func ParseXFAFields(xfaXML string, verbose bool) ([]types.FormField, error) {
 				currentValue = ""
 				currentRequired = ""
 				currentLabel = ""
-			} else if se.Name.Local == "value" {
+			} else if se.Name.Local == "value" && ownPart {
 				inValue = false
 				if currentField != nil && currentValue != "" {
 					currentField.DefaultValue = strings.TrimSpace(currentValue)
 				}
-			} else if se.Name.Local == "name" {
+			} else if se.Name.Local == "name" && ownPart {
 				inName = false
-			} else if se.Name.Local == "label" {
+				currentName = strings.TrimSpace(currentName)
+				if currentField != nil && currentName != "" {
+					currentField.Name = currentName
+					currentField.FullName = currentName
+					currentField.ID = sanitizeFieldID(currentName)
+				}
+			} else if se.Name.Local == "label" && ownPart {
 				inLabel = false
 			}
 		case xml.CharData:
 			if inValue && inField {
 				currentValue += string(se)
 			} else if inName && currentField != nil {
-				currentName = strings.TrimSpace(string(se))
-				if currentName != "" {
-					currentField.Name = currentName
-					currentField.FullName = currentName
-					currentField.ID = sanitizeFieldID(currentName)
-				}
+				currentName += string(se)
 			} else if inLabel && inField {
 				currentLabel += string(se)
 			}
-- 
2.43.0

