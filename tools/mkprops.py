"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, obs=None, hook=None):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": obs or [], "hook_needed": hook}})
NOTEST = "No test of the suite runs this stage: the 61 stable tests exercise helper functions with a few hand-made values, and the property quantifies over every document."
p("C01", "Words are composed of the glyphs of a page completely and by the documented rule",
  "After word detection, the words of a page, taken in order, contain exactly the page's glyphs that are not merged diacritical marks, each once and in extraction order. A glyph starts a new word exactly if its rotation or writing mode differs from the word being composed, or it overlaps that word vertically by less than half (larger of the two overlap ratios), or the horizontal gap to it (measured in either order of the two) exceeds 0.15 times the largest font size in the word so far. Each word's text is the concatenation of its glyphs' texts (with merged marks), its box is the union of the glyph boxes, its font name and size are most frequent ones among its glyphs, its rank is its position on the page, and each glyph refers back to its word.",
  ["inputs"], "all pages: every sequence of glyphs with any position, size, font, rotation and writing mode", NOTEST,
  ["src/WordsDetection.cpp", "src/utils/WordsDetectionUtils.cpp"],
  [("start-of-word decision", "WordsDetection::startsWord"), ("creation of words", "WordsDetectionUtils createWord")],
  ["PdfPage::words after WordsDetection::process"])
p("C02", "Diacritical marks are merged with the right base glyph and none is lost",
  "Merging diacritical marks assigns each mark (a glyph with exactly one code point that is, or whose combining equivalent is, in the ranges U+02B0..U+02FF or U+0300..U+036F) to whichever of the preceding glyph (or, if that one was merged before, the base it was merged into) and the following glyph (unless that is itself a mark) overlaps it horizontally by the larger ratio, the following one on a tie, and to none if neither overlaps. The text with marks of a base is the Unicode composition (NFC) of its code points and the combining equivalents of all marks merged into it in order, its box is extended by the marks' boxes, and everything else about all glyphs stays. No mark is merged into a glyph that is itself merged, so no accent vanishes from the output.",
  ["inputs"], "all pages: every sequence of glyphs, with marks before, after, between and next to each other", NOTEST,
  ["src/DiacriticalMarksMerging.cpp"],
  [("scan over the characters", "DiacriticalMarksMerging::process"), ("merge", "DiacriticalMarksMerging::merge"), ("combining equivalents", "Config.h")],
  ["PdfCharacter::isDiacriticMarkOfBaseChar, textWithDiacriticMark after the stage"])
p("C03", "Limits of display math operators are attached to exactly one base word",
  "A word with a display operator glyph (summation, product, integral, circled times, or a glyph named like one) or with the text sup or lim is a base; the words directly before it (nearest first) and then those directly after it become its parts, in this order, as long as they overlap it horizontally by at least one half, are set in a font smaller by more than 1 pt, and are no part of another base already; the first word that fails ends the search in that direction. Every part knows its one base, every base lists exactly its parts, and nothing else is marked.",
  ["inputs"], "all pages: every sequence of words", NOTEST,
  ["src/WordsDetection.cpp"], [("recognition of stacked symbols", "WordsDetection::processStackedMathSymbols")],
  ["PdfWord::isPartOfStackedMathSymbol, isBaseOfStackedMathSymbol"])
p("C04", "Document statistics are the exact most frequent values and averages",
  "The glyph statistics are the most frequent font size and font and the average glyph width and height over all glyphs of all pages; the word statistics are the most frequent height, horizontal gap (between consecutive words of a page overlapping vertically by at least half) and vertical gap (between consecutive words not overlapping vertically), over words of at least the usual font size minus 1 pt (with the preceding word within 1 pt of it and of the same rotation and writing mode); the line statistics are the most frequent distance, rounded to tenths and not below 0, between the base line of a line and the mean line of the next line in a segment with same rotation and writing mode, overall and per font size of the lower line (for pairs with sizes within 1 pt). Any most frequent value may be chosen on a tie; where there is nothing to count, the values stay as they are.",
  ["inputs"], "all documents, including empty ones and ones with empty pages", NOTEST,
  ["src/GlyphsStatisticsCalculation.cpp", "src/WordsStatisticsCalculation.cpp", "src/TextLinesStatisticsCalculation.cpp", "src/utils/Counter.cpp", "src/utils/Counter.h"],
  [("counting", "*StatisticsCalculation::process"), ("most frequent", "DoubleCounter::mostFreq / StringCounter::mostFreq")],
  ["PdfDocument statistics fields"])
p("C05", "Page segmentation splits every page into segments without losing elements",
  "The segments of a page partition the page's words, figures, graphics and shapes, each segment's box is the union of its elements' boxes, and segments, ranks and links are consistent. The segments are the result of recursively cutting the page first at all accepted vertical gaps of at least twice the usual word distance (at most one element may be cut through), then at all accepted horizontal gaps of at least 2 pt, until no gap is accepted. A cut is accepted and rejected by the documented rules (elements cut through only near the page margins and on pages with at least 500 elements, no small gaps, no gap in a contiguous word sequence, no slim columns; horizontal cuts only where the part between two of them can be cut vertically).",
  ["inputs", "configurations"], "all pages: every set of elements with pairwise different edges", NOTEST,
  ["src/PageSegmentation.cpp", "src/utils/XYCut.cpp", "src/utils/PageSegmentationUtils.cpp"],
  [("recursive XY-cut", "utils/XYCut.cpp xyCut/xCut/yCut"), ("choice of cuts", "PageSegmentation::chooseXCuts, chooseYCuts"), ("segments", "PageSegmentationUtils::createPageSegment")],
  ["PdfPage::segments, blockDetectionCuts"])
p("C06", "Text lines contain every word of a segment exactly once, in reading direction",
  "The lines of a segment contain every word of the segment exactly once; words of one rotation with the same baseline edge form a line, the parts of a stacked math symbol are on the line of their base, and lines (in top-to-bottom order of the rotated page) are merged with their predecessor as long as they overlap vertically by at least 0.4 if they are closer than three average glyph widths and by at least 0.8 otherwise, until nothing changes. The words of a line are its own words that are no parts of a stacked symbol together with the (nested) parts of these, ordered by their start in reading direction, the lines are ordered by the bottoms of their boxes, and the line's text joins the texts of its words with single blanks. The line's box is the union of the word boxes, its font name, size and largest size, base line and base box (glyphs only, without sub/superscripts) come from its words and glyphs, and each word refers back to its line.",
  ["inputs"], "all segments: every set of words with any positions, sizes and rotations", NOTEST,
  ["src/TextLinesDetection.cpp", "src/utils/TextLinesDetectionUtils.cpp"],
  [("clustering and merging", "TextLinesDetection::process, mergeOverlappingTextLines"), ("properties", "computeTextLineProperties")],
  ["PdfPageSegment::lines"])
p("C07", "Line neighbourhood, margins and indentation hierarchy are consistent",
  "Previous and next line link the lines of a segment in order. The right edge of a segment's trim box is the most frequent right edge of its lines (rounded to whole points) if at least half of the lines have it, and all other edges are those of the segment. The hierarchy of the lines of a page is that of a scan from top to bottom with a stack of candidate lines: a line more than 10 pt below (or above) the line before it, both of same rotation and writing mode, empties the stack; candidates that start further right by more than one average glyph width are removed from its top; if then the top starts at the same position (within one average glyph width) the line is its next sibling, takes over its parent and replaces it, and if it starts further left it is the parent of the line, which is put on top; a line whose bottom is not below that of the top is left out. Sibling links are mutual.",
  ["inputs"], "all pages: every sequence of lines with any indentation and distance", NOTEST,
  ["src/TextLinesDetection.cpp", "src/utils/TextLinesDetectionUtils.cpp"],
  [("hierarchy", "TextLinesDetectionUtils::computeTextLineHierarchy")], ["PdfTextLine::parentLine, prevSiblingLine, nextSiblingLine, prevLine, nextLine"])
p("C08", "Sub- and superscripts are exactly the small glyphs off the base line",
  "After script detection a glyph is a superscript exactly if its font is smaller than the document's most frequent font size by more than 0.9 pt and its base line lies more than 0.1 pt above that of its line, a subscript exactly if it is that small and its base line lies more than 0.1 pt below, and never both. The base box of a line is the box of its glyphs that are neither.",
  ["inputs"], "all lines: every combination of glyph sizes and base lines", NOTEST,
  ["src/SubSuperScriptsDetection.cpp"], [("decision", "SubSuperScriptsDetection::process")], ["PdfCharacter::isSubscript/isSuperscript, PdfTextLine::baseBBox*"])
p("C09", "Text blocks split the lines of each segment by the documented rules",
  "The text blocks of a segment, taken in order, contain exactly the segment's lines, each once and in order, and the blocks of a page are those of its segments in order. The lines are first divided into preliminary blocks: a line starts one if it is the first of its segment, or if, in this order of precedence, it does not lie on the same figure as the line before it and differs from it in rotation or writing mode, or in both its usual and its largest font size by more than 1 pt, or lies below it by more than the expected line distance (that of its font size, or the overall one if that is larger) plus a tenth of it but at least 1 pt, or by more than half a usual word height more than that line lies below the one before. Within a preliminary block that is centered, only items start blocks. Otherwise the first rule that applies decides: the first line of an item or footnote starts a block; the continuation of an item starts one after a line with room for its first word, or if it is indented differently from the continuation before it; a line after an item starts one if that line had room, and continues it if the sentence goes on in lower case; emphasised lines of one font continue; lines of a block with hanging indentation are compared with it; then far indented lines, indented lines and lines after a line with room for their first word start blocks; and everything else continues the block.",
  ["inputs"], "all segments: every sequence of lines", NOTEST,
  ["src/TextBlocksDetection.cpp", "src/utils/TextBlocksDetectionUtils.cpp"],
  [("start of a block", "TextBlocksDetection::startsBlock")], ["PdfPageSegment::blocks, PdfTextBlock::lines"])
p("C10", "Text block attributes follow from their lines",
  "A block's box is the union of its lines' boxes, its text joins the line texts with single blanks, its font name and size are most frequent ones among the glyphs of its lines, its trim box is its box cut off at the trim box of its segment, the margins of its lines are their distances from it (but from the right edge of the trim box before it for two-line blocks that are not centred in the segment, if that lies further right), its lines are centered if each overlaps the next nearly completely with equal offsets on both sides and at least one, but not all but six, offset exceeds two average glyph widths, its hanging indent is the most frequent large left margin of its lines if the documented counts of indented, unindented and lowercase lines say so, it is emphasised if its font is larger than the most frequent one by more than 1 pt, or as large and bolder by more than 100 or italic, or if it is written in capital letters, the blocks of a page are linked in order and ranked, and each line refers back to its block.",
  ["inputs"], "all blocks", NOTEST, ["src/utils/TextBlocksDetectionUtils.cpp", "src/TextBlocksDetection.cpp"],
  [("creation of a block", "TextBlocksDetectionUtils::createTextBlock, computeIsTextLinesCentered, computeHangingIndent, computeIsEmphasized")], ["PdfTextBlock fields"])
p("C11", "Reading order is a permutation of the blocks given by the XY-cut tree",
  "Reading order detection keeps exactly the text blocks of every page (each once, boxes and text untouched) and orders them by recursively cutting the set of blocks, figures and shapes of the page: first vertically next to rotated or vertically written blocks and to vertical figures or shapes through the vertical middle of the page that are higher than ten average glyph heights, horizontally where the role title, author-info or marginal begins or ends and next to horizontal ones through the horizontal middle of the page wider than ten average glyph widths, and then alternately at all vertical gaps and at those horizontal gaps above, below and between which the rest can be divided vertically (the last such gap from the top, the first from the bottom, and between them each gap with the furthest partner); elements that cannot be divided are in top-to-bottom order.",
  ["inputs"], "all pages: every set of blocks, figures and shapes with pairwise different edges", NOTEST,
  ["src/ReadingOrderDetection.cpp", "src/utils/XYCut.cpp"], [("cuts", "ReadingOrderDetection::choosePrimaryXCuts, choosePrimaryYCuts, chooseXCuts, chooseYCuts")], ["PdfPage::blocks"])
p("C12", "Dehyphenation joins exactly the words split at line ends",
  "A word is merged with the first word of the next line of the document (across blocks and pages, in reading order) exactly if it is the last word of its line, its text has more than one character and ends with a hyphen. The merged text is the first part without its hyphen followed by the second part; if the second part is itself split again, the same merged word is continued. Both parts refer to the same merged word, lines without words are skipped, and no other word is touched.",
  ["inputs"], "all documents: every sequence of blocks, lines and words", NOTEST,
  ["src/WordsDehyphenation.cpp"], [("pairing", "WordsDehyphenation::process")], ["PdfWord::isFirstPartOfHyphenatedWord, isSecondPartOfHyphenatedWord"])
p("C13", "The text formats print every word of the document exactly once and in order",
  "The plain text output consists of the texts of the blocks in page and block order, separated by blank lines, each block being its words in line and word order joined by single blanks, with the two parts of a dehyphenated word printed once as the merged word (at the place of the first part). The extended text output prints the same words, prefixed by the block's role in brackets, marks emphasised blocks and page ends with control characters.",
  ["inputs", "configurations"], "all documents, all role filters and switches", NOTEST,
  ["src/serializers/PlainTextSerializer.cpp", "src/serializers/PlainTextExtendedSerializer.cpp"],
  [("serialization", "PlainTextSerializer::serializeToStream, PlainTextExtendedSerializer::serializeToStream")], ["output stream"])
p("C14", "The JSONL output is valid and complete for every document",
  "Every line of the JSONL output is one valid JSON object; together they describe exactly the requested kinds of objects of the document (pages, glyphs, figures, shapes, words, text blocks), each once and in document order, with the identity, geometry, text and attributes of the object, whatever characters the texts and names contain.",
  ["inputs", "configurations"], "all documents, all sets of requested kinds, all texts and font names", NOTEST,
  ["src/serializers/JsonlSerializer.cpp"], [("serialization", "JsonlSerializer::serializeToStream")], ["output stream"])
p("C15", "Filters by role remove exactly the elements of other roles",
  "With a set of roles given, the text formats and the JSONL format output exactly the blocks with one of these roles (and the words and glyphs belonging to them), in the same order and form as without the filter; with an empty set they output everything. A word that is split over two blocks belongs to the block of its first part.",
  ["configurations", "inputs"], "all sets of roles, all documents", NOTEST,
  ["src/serializers/PlainTextSerializer.cpp", "src/serializers/PlainTextExtendedSerializer.cpp", "src/serializers/JsonlSerializer.cpp"], [("filters", "serializeToStream")], ["output stream"])
p("C16", "Every block gets the role the model rates highest, from correct features",
  "Semantic role prediction assigns to the i-th block (in page and block order) the role with the highest score in the i-th row of the model's output (the smallest number on a tie, role 0 if no score is positive). The text features are the byte pair encoding of the block's text: every word plus the delimiter symbol is split into characters, and repeatedly the first adjacent pair (by first occurrence) whose concatenation is in the vocabulary is merged at all its non-overlapping occurrences from left to right, unknown tokens become the unknown symbol, and the list is padded or cut to 100 entries. The character classes are taken from the code points of the text, and the layout features of a block are the documented 15 values in order.",
  ["inputs"], "all documents, vocabularies and model outputs", "The suite tests the encoder on a few words and never runs the prediction.",
  ["src/SemanticRolesPrediction.cpp", "src/utils/BytePairEncoder.cpp", "src/utils/TextUtils.cpp"],
  [("argmax", "SemanticRolesPrediction::predict"), ("encoding", "BytePairEncoder::encodeWord"), ("layout features", "SemanticRolesPrediction::createLayoutInputTensor")], ["PdfTextBlock::role", "the tensors passed to the model"])
p("C17", "The glyphs extracted from a PDF are those its content streams show",
  "For every page, the extracted glyphs are exactly the glyphs shown by its content streams (following the text, graphics state and transformation operators) that are no white space, in stream order, with the right code points, text, name, font, font size, color and opacity (of strokes), rotation, writing mode, position (in points from the upper left corner of the page, rounded to tenths) and base line. The fonts used are listed once per name with their normalized name (without prefix, in lower case), base name, weight, style and type as the file describes them. (Text is not mirrored.)",
  ["inputs"], "all content streams over the text and graphics state operators", "No test of the stable suite parses a PDF.",
  ["src/PdfParsing.cpp"], [("text output device", "PdfParsing::TextOutputDev::drawChar, beginString, updateFont")], ["PdfPage::characters after PdfParsing::process"])
p("C18", "Figures, shapes and graphics are routed to the page or figure they belong to",
  "Every glyph, painted shape and image is stored with the page if the clip box at that point equals the page's, and otherwise with the figure of exactly that clip box, which exists once per clip box and page. A shape has the box of the points of its path that lie inside the clip box by more than 0.1 pt (a path that is filled and stroked gives two shapes), an image the box of its visible part; those without any are dropped, a figure has the box of its contents, and ranks number all of them in extraction order.",
  ["inputs"], "all content streams over the path, clip and image operators", "No test of the stable suite parses a PDF.",
  ["src/PdfParsing.cpp"], [("routing", "PdfParsing stroke, fill, drawGraphic, drawChar"), ("clip boxes", "isClippedBox")], ["PdfPage::figures, shapes, graphics"])
p("C19", "The pipeline runs its stages in order, respects its switches and is deterministic",
  "Processing a PDF equals running the stages in their fixed order, each exactly once and only if it is not disabled, and the result depends only on the file and the configuration: processing it again, or other files before it in the same process, gives the same result. Afterwards the text lines of a page are those of its blocks, in order. An unreadable file runs only the first step and gives its error code.",
  ["configurations", "histories", "inputs"], "all combinations of stage switches, all sequences of files", "The tests never run the whole pipeline.",
  ["src/PdfToTextPlusPlus.cpp"], [("stage order", "PdfToTextPlusPlus::process")], ["timings and final document of process()"])
p("C20", "No visible text is lost, duplicated or invented between PDF and output",
  "With the default configuration, the plain text output for a PDF contains the text of every non-white-space glyph outside figures exactly once (marks as part of their base), and nothing else but blanks, line ends and removed hyphens at line ends.",
  ["inputs"], "all PDFs", "No end-to-end test is part of the stable suite.",
  ["src/PdfToTextPlusPlus.cpp", "src/serializers/PlainTextSerializer.cpp"], [("composition of all stages", "PdfToTextPlusPlus::process")], ["standard output of the program"])
p("C21", "The text is written to the requested target and nowhere else",
  "The output goes to standard output for the target '-', and otherwise to exactly the file with the given path, whose missing parent directories are created, whatever characters the path contains; an existing file is replaced. If the target cannot be written, an error is reported and no file is changed (missing parents of a file with a refused name may have been created).",
  ["inputs", "configurations"], "all target paths", "No test calls the serializers.",
  ["src/serializers/Serializer.cpp"], [("target handling", "Serializer::serialize")], ["file system"])
p("C22", "Command line options take effect as documented",
  "Every documented option of the program has exactly its documented effect on the output (format, kinds of objects, role filter, disabled stages), independent of the order of the options, and invalid values or missing arguments end the program with an error and no output (or, if the line also asks for them, with the help or version text).",
  ["configurations"], "all combinations of options", "No test runs the program.",
  ["src/pdftotext++.cpp", "src/Validators.cpp"], [("options", "main")], ["exit code, standard output"])
p("C23", "Base counters, bounded queues and geometric predicates keep their contracts for all arguments",
  "Counters count every added value exactly and report a most frequent one and its frequency; the bounded priority queue holds at most its capacity, a push to a full queue first removes its top, and it yields its elements from the top in order; the numeric comparisons (with tolerances), overlaps, gaps, ratios, rounding functions and the text utilities (splitting, joining, stripping, wrapping, shortening, escaping) return what their documentation says for every argument and rotation.",
  ["inputs", "histories"], "all sequences of operations and all arguments", "The unit tests use a few values each.",
  ["src/utils/Counter.cpp", "src/utils/Counter.h", "src/utils/FixedCapacityPriorityQueue.h", "src/utils/MathUtils.cpp", "src/utils/PdfElementsUtils.cpp", "src/utils/MathUtils.h"],
  [("containers and predicates", "utils/*")], ["return values"])
p("C24", "Type 1 glyph boxes follow the glyph programs",
  "For an embedded Type 1 font (with the conventional names RD, ND, NP, in binary, hexadecimal or PFB form, with any number of leading random bytes), the font information gives for every glyph the box of all points of its outline program: the side bearing point and the points moved to, drawn to and of curves, following hints, division, subroutines (nested up to ten levels), flex and hint replacement, in whatever order and nesting. Operators that find too few operands, unknown subroutines and accents (seac) contribute nothing. Font matrix, weight and italic angle are those of the clear part. An upright glyph that reaches more than 0.1 pt above or below the box of the font gets the box of its outline instead, with its bottom as base line. Damaged programs never crash the program.",
  ["programs", "inputs"], "all Type 1 charstring programs", "One unit-tested font at most.",
  ["src/utils/PdfFontInfoParser.cpp"], [("interpreter", "PdfFontInfoParser")], ["PdfFontInfo::glyphBoundingBoxes"])
p("C25", "Log messages appear exactly if level and page filter allow it",
  "A logger prints a message exactly if its level is at least the logger's level and the message's page is not filtered out, prints nothing else, and never changes the result of the stages, whatever log level and page filter are configured.",
  ["configurations", "histories"], "all levels, page filters and message sequences", "One logger configuration per test.",
  ["src/utils/Log.cpp", "src/utils/Log.h"], [("filter", "Logger")], ["standard output of the log"])
p("C26", "The visualization shows exactly the detected elements, where they are",
  "With a visualization path, a copy of the PDF file is written to it, with the same pages, contents and annotations, and one annotation added for everything of the chosen kinds (and for nothing else) on its page: a square around each character, figure, shape, graphic, word, text line, text block (red, with the name of its semantic role) and page segment (with red squares around its preliminary text blocks); for the reading order the squares and roles of the text blocks, a line from each block's midpoint to the next, and the running numbers in circles (if there are several blocks); and a line with an id for each considered cut (gray unless chosen), with a running number at the start of the chosen ones. Every annotation is where the element is displayed, however the page is rotated and wherever its media box starts; boxes thinner than a point are widened by one.",
  ["inputs", "configurations"], "all PDF files and choices of kinds", "No test runs the visualization.",
  ["src/PdfDocumentVisualization.cpp", "src/pdftotext++.cpp"], [("boxes", "drawBoundingBox"), ("reading order", "drawReadingOrder"), ("cuts", "drawCuts")], ["annotations of the written PDF file"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
