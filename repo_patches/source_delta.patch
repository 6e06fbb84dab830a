From a0df8f6e6454aa033ce401aa6766ed579884d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 01/32] fix: keep all diacritic marks when marks are adjacent
 to each other

A mark could be merged into another mark, which then lost its text, and a
second mark on the same base character replaced the first one.
---
 src/DiacriticalMarksMerging.cpp | 47 ++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index a1ff54c..ea2db42 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -10,6 +10,7 @@
 #include <utf8proc.h>
 
 #include <cassert>  // assert
+#include <unordered_map>
 #include <vector>
 
 #include "./DiacriticalMarksMerging.h"
@@ -19,6 +20,7 @@
 #include "./utils/PdfElementsUtils.h"
 
 using std::endl;
+using std::unordered_map;
 using std::vector;
 
 using ppp::config::DiacriticalMarksMergingConfig;
@@ -65,6 +67,25 @@ void DiacriticalMarksMerging::process() const {
     return;
   }
 
+  // A character is a diacritic mark when it consists of exactly one unicode and when this unicode
+  // (or its combining equivalent, see combiningMap) falls into one of the categories:
+  //   - "Spacing Modifier Letters" (that is: into the range 02B0 - 02FF),
+  //   - "Combining Diacritic Marks" (that is: into the range 0300 - 036F)
+  auto isMark = [this](const PdfCharacter* ch) {
+    if (ch->unicodes.size() != 1) {
+      return false;
+    }
+    unsigned int unicode = ch->unicodes[0];
+    if (_config->combiningMap.count(unicode) > 0) {
+      unicode = _config->combiningMap.at(unicode);
+    }
+    return unicode >= 0x02B0 && unicode <= 0x036f;
+  };
+
+  // The base characters of the marks merged so far, and the marks merged into a base character.
+  unordered_map<const PdfCharacter*, PdfCharacter*> baseChars;
+  unordered_map<const PdfCharacter*, vector<Unicode>> mergedMarks;
+
   // Iterate through the characters of each page. For each character, check if it represents a
   // diacritical mark. If so, compute the horizontal overlap with the respective previous and next
   // character. Merge the diacritic mark with the character yielding the larger horizontal overlap.
@@ -78,6 +99,15 @@ void DiacriticalMarksMerging::process() const {
       PdfCharacter* currChar = page->characters[i];
       PdfCharacter* nextChar = i < page->characters.size() - 1 ? page->characters[i + 1] : nullptr;
 
+      // Never consider a mark to be a base character: If the previous character was merged with
+      // its base character, consider this base character. Ignore the next character if it's a mark.
+      if (prevChar && baseChars.count(prevChar) > 0) {
+        prevChar = baseChars.at(prevChar);
+      }
+      if (nextChar && isMark(nextChar)) {
+        nextChar = nullptr;
+      }
+
       _log->debug(p) << "=======================================" << endl;
       _log->debug(p) << BOLD << "char: \"" << currChar->text << "\"" << OFF << endl;
       _log->debug(p) << " • char.leftX:  " << currChar->pos->leftX << endl;
@@ -105,16 +135,7 @@ void DiacriticalMarksMerging::process() const {
         unicode = _config->combiningMap.at(unicode);
       }
 
-      // The character is a diacritic mark when its unicode falls into one of the categories:
-      //   - "Spacing Modifier Letters" (that is: into the range 02B0 - 02FF),
-      //   - "Combining Diacritic Marks" (that is: into the range 0300 - 036F)
-      bool isDiacriticMark = false;
-      if (unicode >= 0x02B0 && unicode <= 0x02FF) {
-        isDiacriticMark = true;
-      }
-      if (unicode >= 0x0300 && unicode <= 0x036f) {
-        isDiacriticMark = true;
-      }
+      bool isDiacriticMark = isMark(currChar);
       _log->debug(p) << " • char.isDiacriticMark: " << isDiacriticMark << endl;
 
       // Skip the character if it does not represent a diacritic mark.
@@ -176,12 +197,14 @@ void DiacriticalMarksMerging::process() const {
       }
       mark->isDiacriticMarkOfBaseChar = base;
       base->isBaseCharOfDiacriticMark = mark;
+      baseChars[mark] = base;
+      mergedMarks[base].push_back(unicode);
 
-      // Compute the text with the base character and the diacritic mark merged to a single
+      // Compute the text with the base character and its diacritic marks merged to a single
       // character, using the utf8proc library.
       vector<Unicode> unicodesMerged;
       for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
-      unicodesMerged.push_back(unicode);
+      for (const auto& u : mergedMarks[base]) { unicodesMerged.push_back(u); }
 
       vector<uint8_t> bytesMerged;
       char buf[8];
-- 
2.43.0


From edeed90f0fd73a1af58290e99a59670070aca61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 02/32] fix: bounding boxes of elements with negative
 coordinates

The initial value for the maximum was the smallest positive double, so
glyphs left of or above the visible area (that is: with negative
coordinates) led to wrong right and lower coordinates, and
DoubleCounter::max() threw if no key was positive.
---
 src/ReadingOrderDetection.cpp          | 4 ++--
 src/TextLinesDetection.cpp             | 2 ++
 src/Types.h                            | 4 ++--
 src/WordsDetection.cpp                 | 8 ++++----
 src/utils/Counter.cpp                  | 2 +-
 src/utils/PageSegmentationUtils.cpp    | 4 ++++
 src/utils/TextBlocksDetectionUtils.cpp | 2 ++
 src/utils/WordsDetectionUtils.cpp      | 2 ++
 src/utils/XYCut.cpp                    | 4 ++--
 9 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index a46bef1..685d4ab 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -108,8 +108,8 @@ void ReadingOrderDetection::detectReadingOrder() {
     // Compute the coordinates of the bounding box around the page elements.
     _pageElementsMinX = numeric_limits<double>::max();
     _pageElementsMinY = numeric_limits<double>::max();
-    _pageElementsMaxX = numeric_limits<double>::min();
-    _pageElementsMaxY = numeric_limits<double>::min();
+    _pageElementsMaxX = numeric_limits<double>::lowest();
+    _pageElementsMaxY = numeric_limits<double>::lowest();
     for (const auto* element : pageElements) {
       _pageElementsMinX = minimum(_pageElementsMinX, element->pos->leftX);
       _pageElementsMinY = minimum(_pageElementsMinY, element->pos->upperY);
diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 8e56ad5..010284e 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -414,6 +414,8 @@ void TextLinesDetection::computeTextLineProperties(PdfTextLine* line) const {
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   DoubleCounter baseCounter;
+  line->pos->rightX = numeric_limits<double>::lowest();
+  line->pos->lowerY = numeric_limits<double>::lowest();
   for (size_t i = 0; i < line->words.size(); i++) {
     PdfWord* word = line->words[i];
 
diff --git a/src/Types.h b/src/Types.h
index 078e739..3b22b70 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -664,8 +664,8 @@ class PdfTextLine : public PdfTextElement {
   // text line that are *not* subscripted or superscripted.
   double baseBBoxLeftX = numeric_limits<double>::max();
   double baseBBoxUpperY = numeric_limits<double>::max();
-  double baseBBoxRightX = numeric_limits<double>::min();
-  double baseBBoxLowerY = numeric_limits<double>::min();
+  double baseBBoxRightX = numeric_limits<double>::lowest();
+  double baseBBoxLowerY = numeric_limits<double>::lowest();
 
   // The maximum font size among the characters in this text line.
   double maxFontSize = 0.0;
diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index d6e5084..bc4a964 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -82,8 +82,8 @@ void WordsDetection::detectWords(PdfPage* page) {
   _activeWord.pos->pageNum = page->pageNum;
   _activeWord.pos->leftX = numeric_limits<double>::max();
   _activeWord.pos->upperY = numeric_limits<double>::max();
-  _activeWord.pos->rightX = numeric_limits<double>::min();
-  _activeWord.pos->lowerY = numeric_limits<double>::min();
+  _activeWord.pos->rightX = numeric_limits<double>::lowest();
+  _activeWord.pos->lowerY = numeric_limits<double>::lowest();
   _activeWord.pos->rotation = 0;
   _activeWord.pos->wMode = 0;
   _activeWord.fontSize = 0;
@@ -138,8 +138,8 @@ void WordsDetection::detectWords(PdfPage* page) {
       _activeWord.characters.clear();
       _activeWord.pos->leftX = numeric_limits<double>::max();
       _activeWord.pos->upperY = numeric_limits<double>::max();
-      _activeWord.pos->rightX = numeric_limits<double>::min();
-      _activeWord.pos->lowerY = numeric_limits<double>::min();
+      _activeWord.pos->rightX = numeric_limits<double>::lowest();
+      _activeWord.pos->lowerY = numeric_limits<double>::lowest();
       _activeWord.pos->rotation = 0;
       _activeWord.pos->wMode = 0;
       _activeWord.fontSize = 0;
diff --git a/src/utils/Counter.cpp b/src/utils/Counter.cpp
index 29e0e1d..fc0edbb 100755
--- a/src/utils/Counter.cpp
+++ b/src/utils/Counter.cpp
@@ -56,7 +56,7 @@ pair<double, unsigned int> DoubleCounter::mostFreqAndCount() const {
 
 // _________________________________________________________________________________________________
 double DoubleCounter::max() const {
-  double max = numeric_limits<double>::min();
+  double max = numeric_limits<double>::lowest();
   bool entryFound = false;
 
   for (auto it = begin(); it != end(); it++) {
diff --git a/src/utils/PageSegmentationUtils.cpp b/src/utils/PageSegmentationUtils.cpp
index 27b07eb..3eec9e5 100755
--- a/src/utils/PageSegmentationUtils.cpp
+++ b/src/utils/PageSegmentationUtils.cpp
@@ -47,6 +47,10 @@ PdfPageSegment* PageSegmentationUtils::createPageSegment(
   segment->pos->pageNum = !elements.empty() ? elements[0]->pos->pageNum : -1;
 
   // Compute and set the coordinates of the bounding box.
+  if (!elements.empty()) {
+    segment->pos->rightX = numeric_limits<double>::lowest();
+    segment->pos->lowerY = numeric_limits<double>::lowest();
+  }
   for (const auto* element : elements) {
     segment->pos->leftX = minimum(segment->pos->leftX, element->pos->leftX);
     segment->pos->upperY = minimum(segment->pos->upperY, element->pos->upperY);
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0d7d15a..8a0f3dd 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -702,6 +702,8 @@ void TextBlocksDetectionUtils::createTextBlock(const vector<PdfTextLine*>& lines
   // Compute the bounding box and the trim box and count the different font names and font sizes.
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
+  block->pos->rightX = numeric_limits<double>::lowest();
+  block->pos->lowerY = numeric_limits<double>::lowest();
   for (size_t i = 0; i < lines.size(); i++) {
     PdfTextLine* prevLine = i > 0 ? lines[i-1] : nullptr;
     PdfTextLine* currLine = lines[i];
diff --git a/src/utils/WordsDetectionUtils.cpp b/src/utils/WordsDetectionUtils.cpp
index f62a499..21444b0 100755
--- a/src/utils/WordsDetectionUtils.cpp
+++ b/src/utils/WordsDetectionUtils.cpp
@@ -56,6 +56,8 @@ PdfWord* WordsDetectionUtils::createWord(const vector<PdfCharacter*>& characters
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   string text;
+  word->pos->rightX = numeric_limits<double>::lowest();
+  word->pos->lowerY = numeric_limits<double>::lowest();
   for (auto* ch : characters) {
     // Update the x,y-coordinates of the bounding box.
     word->pos->leftX = minimum(word->pos->leftX, ch->pos->leftX);
diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 0306b63..161dbde 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -111,7 +111,7 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
 
   // Compute minY and maxY among the elements, needed for computing the y-coordinates of the cuts.
   double elementsMinY = numeric_limits<double>::max();
-  double elementsMaxY = numeric_limits<double>::min();
+  double elementsMaxY = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinY = minimum(elementsMinY, element->pos->upperY);
     elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
@@ -242,7 +242,7 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
 
   // Compute minY and maxY among the elements, needed for computing the x-coordinates of the cuts.
   double elementsMinX = numeric_limits<double>::max();
-  double elementsMaxX = numeric_limits<double>::min();
+  double elementsMaxX = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinX = minimum(elementsMinX, element->pos->leftX);
     elementsMaxX = maximum(elementsMaxX, element->pos->rightX);
-- 
2.43.0


From c01b923588aadb7c6511b187c0a70c817dcf2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 03/32] fix: no lost or duplicated words in stacked math
 symbols

A word could become part of two stacked math symbols (and was then added to
two text lines), and the parts of a nested stacked math symbol got lost.
---
 src/TextLinesDetection.cpp | 11 ++++++++---
 src/WordsDetection.cpp     | 14 ++++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 010284e..357728c 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -151,9 +151,14 @@ void TextLinesDetection::process() {
 
         // If the word is the base word of a stacked math symbol, add each word that is part
         // of the same stacked math symbol to the same cluster.
-        for (auto* w : word->isBaseOfStackedMathSymbol) {
-          _log->debug(p) << "adding \"" << w->text << "\" (part of stacked math symbol)" << endl;
-          clusters[rotation][lowerY].push_back(w);
+        // Such a word can be the base word of another (nested) stacked math symbol.
+        vector<PdfWord*> parts = word->isBaseOfStackedMathSymbol;
+        for (size_t j = 0; j < parts.size(); j++) {
+          PdfWord* part = parts[j];
+          _log->debug(p) << "adding \"" << part->text << "\" (part of stacked math symbol)" << endl;
+          clusters[rotation][lowerY].push_back(part);
+          parts.insert(parts.end(), part->isBaseOfStackedMathSymbol.begin(),
+              part->isBaseOfStackedMathSymbol.end());
         }
       }
 
diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index bc4a964..b19edc0 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -345,6 +345,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The previous word can't be a part of more than one stacked math symbol.
+      if (prevWord->isPartOfStackedMathSymbol) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(is already part of another one)." << OFF << endl;
+        break;
+      }
+
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
       word->isBaseOfStackedMathSymbol.push_back(prevWord);
       prevWord->isPartOfStackedMathSymbol = word;
@@ -387,6 +394,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The next word can't be a part of more than one stacked math symbol.
+      if (nextWord->isPartOfStackedMathSymbol) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(is already part of another one)." << OFF << endl;
+        break;
+      }
+
       word->isBaseOfStackedMathSymbol.push_back(nextWord);
       nextWord->isPartOfStackedMathSymbol = word;
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
-- 
2.43.0


From acb859f54e56c243374016ef1034a7972f5c0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 04/32] fix: ignore shapes without any visible point

Such a shape got the bounding box [DBL_MAX, DBL_MAX, DBL_MIN, DBL_MIN], which
for example made the page segmentation reject the cut between two columns.
---
 src/PdfParsing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index a2d8cd5..804b0c7 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -642,6 +642,11 @@ void PdfParsing::stroke(GfxState* state) {
     }
   }
 
+  // Ignore the path if none of its points is visible (there is no bounding box then).
+  if (leftX > rightX || upperY > lowerY) {
+    return;
+  }
+
   // Store the information about the path in form of a `PdfShape`.
   PdfShape* shape = new PdfShape();
   shape->id = createRandomString(_config.idLength, "shape-");
-- 
2.43.0


From dd25e63920a2362005946a34ff0254f428abc7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 05/32] fix: do not truncate absolute offsets and distances to
 whole points

---
 src/TextBlocksDetection.cpp            | 2 ++
 src/utils/TextBlocksDetectionUtils.cpp | 2 ++
 src/utils/TextLinesDetectionUtils.cpp  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/TextBlocksDetection.cpp b/src/TextBlocksDetection.cpp
index 50e40ce..e8768aa 100755
--- a/src/TextBlocksDetection.cpp
+++ b/src/TextBlocksDetection.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // abs
 #include <string>
 #include <utility>  // std::pair
 #include <vector>
@@ -21,6 +22,7 @@
 #include "./utils/TextUtils.h"
 #include "./utils/Trool.h"
 
+using std::abs;
 using std::endl;
 using std::string;
 using std::vector;
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 8a0f3dd..31bc3fd 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // abs
 #include <regex>
 #include <string>
 #include <unordered_set>
@@ -20,6 +21,7 @@
 #include "./TextUtils.h"
 #include "../Types.h"
 
+using std::abs;
 using std::pair;
 using std::regex_search;
 using std::smatch;
diff --git a/src/utils/TextLinesDetectionUtils.cpp b/src/utils/TextLinesDetectionUtils.cpp
index af16c98..34ebe0a 100755
--- a/src/utils/TextLinesDetectionUtils.cpp
+++ b/src/utils/TextLinesDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // abs
 #include <stack>
 #include <tuple>
 #include <utility>  // std::pair
@@ -17,6 +18,7 @@
 #include "./TextLinesDetectionUtils.h"
 #include "../Types.h"
 
+using std::abs;
 using std::make_tuple;
 using std::pair;
 using std::stack;
-- 
2.43.0


From 582ab4fd5a2646977ffaeb779a56f1cbba204354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 06/32] fix: compute the gaps between rotated elements from
 their actual sides

---
 src/utils/PdfElementsUtils.cpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/utils/PdfElementsUtils.cpp b/src/utils/PdfElementsUtils.cpp
index 8ae53df..d0a82e0 100755
--- a/src/utils/PdfElementsUtils.cpp
+++ b/src/utils/PdfElementsUtils.cpp
@@ -50,16 +50,7 @@ double computeHorizontalGap(const PdfElement* elem1, const PdfElement* elem2) {
     right = elem1;
   }
 
-  // Compute the horizontal gap between the elements, under consideration of the rotation.
-  switch (left->pos->rotation) {
-    case 0:
-    case 1:
-    default:
-      return right->pos->leftX - left->pos->rightX;
-    case 2:
-    case 3:
-      return left->pos->rightX - right->pos->leftX;
-  }
+  return right->pos->leftX - left->pos->rightX;
 }
 
 // _________________________________________________________________________________________________
@@ -78,16 +69,7 @@ double computeVerticalGap(const PdfElement* elem1, const PdfElement* elem2) {
     lower = elem1;
   }
 
-  // Compute the vertical gap between the elements, under consideration of the rotation.
-  switch (upper->pos->rotation) {
-    case 0:
-    case 1:
-    default:
-      return lower->pos->upperY - upper->pos->lowerY;
-    case 2:
-    case 3:
-      return upper->pos->lowerY - lower->pos->upperY;
-  }
+  return lower->pos->upperY - upper->pos->lowerY;
 }
 
 // _________________________________________________________________________________________________
-- 
2.43.0


From 472af1737e1f7159130c7cc77ea9a77604e8d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 07/32] fix: normalize the boxes of upside-down characters

---
 src/PdfParsing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 804b0c7..08a791f 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -404,9 +404,9 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
         base = x0;
         break;
       case 2:
-        posLeftX = x0;
+        posLeftX = x0 + (x1 - x0);
         posUpperY = y0 + descent;
-        posRightX = x0 + (x1 - x0);
+        posRightX = x0;
         posLowerY = y0 + ascent;
         base = y0;
         break;
-- 
2.43.0


From f5665ec0be9b0addcb26db23c9db856289ad0f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 08/32] fix: consider all previous elements an x-cut may
 overlap

---
 src/utils/XYCut.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 161dbde..734d1a9 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -183,8 +183,10 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
       overlappingElements.push_back(prevElement);
     }
 
-    // Add the element to the queue if its rightX is larger than the smallest rightX in the queue.
-    if (larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
+    // Add the element to the queue if the queue is not full yet, or if its rightX is larger than the
+    // smallest rightX in the queue.
+    if (elementsLargestRightXQueue.size() < static_cast<size_t>(qSize)
+        || larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
       elementsLargestRightXQueue.push(element);
     }
   }
-- 
2.43.0


From 4e54556da1af0ff7e4f0538039c35fd163f9931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 09/32] fix: continue hyphenated words that extend over more
 than two lines

---
 src/WordsDehyphenation.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/WordsDehyphenation.cpp b/src/WordsDehyphenation.cpp
index c7a7a82..778620b 100755
--- a/src/WordsDehyphenation.cpp
+++ b/src/WordsDehyphenation.cpp
@@ -38,6 +38,7 @@ void WordsDehyphenation::process() const {
   assert(_doc);
 
   PdfTextLine* prevLine = nullptr;
+  PdfWord* prevMergedWord = nullptr;
   for (const auto* page : _doc->pages) {
     for (const auto* block : page->blocks) {
       for (auto* line : block->lines) {
@@ -60,10 +61,19 @@ void WordsDehyphenation::process() const {
             string currLineFirstWordText = currLineFirstWord->text;
 
             if (isHyphenated) {
-              PdfWord* mergedWord = new PdfWord();
-              mergedWord->doc = _doc;
-              mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              // If the last word of the previous line is already the second part of a hyphenated
+              // word (because it is the only word of its line), continue the latter.
+              PdfWord* mergedWord = prevMergedWord;
+              if (mergedWord && prevLineLastWord->isSecondPartOfHyphenatedWord == mergedWord) {
+                mergedWord->text.pop_back();
+              } else {
+                mergedWord = new PdfWord();
+                mergedWord->doc = _doc;
+                mergedWord->text =
+                    prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              }
               mergedWord->text += currLineFirstWordText;
+              prevMergedWord = mergedWord;
 
               prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
               currLineFirstWord->isSecondPartOfHyphenatedWord = mergedWord;
-- 
2.43.0


From 762a448557944fea091b3e6f6bed170b651c58f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 10/32] fix: escape the font names in the JSONL output

---
 src/serializers/JsonlSerializer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index f5431c3..1faf5bd 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -135,7 +135,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
               << "\"maxY\": " << c->pos->lowerY << ", "
               << "\"wMode\": " << c->pos->wMode << ", "
               << "\"rotation\": " << c->pos->rotation << ", "
-              << "\"font\": \"" << c->fontName << "\", "
+              << "\"font\": \"" << escapeJson(c->fontName) << "\", "
               << "\"fontSize\": " << c->fontSize << ", "
               << "\"weight\": " << fontInfo->weight << ", "
               << "\"italic\": " << (fontInfo->isItalic ? "true" : "false") << ", "
@@ -224,7 +224,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
             << "\"minY\": " << word->pos->upperY << ", "
             << "\"maxX\": " << word->pos->rightX << ", "
             << "\"maxY\": " << word->pos->lowerY << ", "
-            << "\"font\": \"" << word->fontName << "\", "
+            << "\"font\": \"" << escapeJson(word->fontName) << "\", "
             << "\"fontSize\": " << word->fontSize << ", "
             << "\"text\": \"" << escapeJson(word->text) << "\", "
             << "\"block\": \"" << block->id << "\", "
@@ -258,7 +258,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
         << "\"minY\": " << block->pos->upperY << ", "
         << "\"maxX\": " << block->pos->rightX << ", "
         << "\"maxY\": " << block->pos->lowerY << ", "
-        << "\"font\": \"" << block->fontName << "\", "
+        << "\"font\": \"" << escapeJson(block->fontName) << "\", "
         << "\"fontSize\": " << block->fontSize << ", "
         << "\"text\": \"" << escapeJson(block->text) << "\", "
         << "\"role\": \"" << getSemanticRoleName(block->role) << "\", "
-- 
2.43.0


From 018cba749b39a033dd9ad52b622ad8ec955cf7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 11/32] fix: let --no-dehyphenation disable the dehyphenation

---
 src/pdftotext++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 90fe394..21a4224 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -665,7 +665,7 @@ int main(int argc, char* argv[]) {
   conf.semanticRolesPrediction.logPageFilter = logPageFilter;
   conf.semanticRolesPrediction.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
   // Configure words dehyphenation.
-  conf.wordsDehyphenation.disabled = skipWordsDehyphenation;
+  conf.wordsDehyphenation.disabled = skipWordsDehyphenation || noDehyphenation;
   conf.wordsDehyphenation.logLevel = debugWordsDehyphenation ? DEBUG : logLevel;
   conf.wordsDehyphenation.logPageFilter = logPageFilter;
 
-- 
2.43.0


From ad95f2ee5d16803a11b8125ca74b72c93e7e6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 12/32] fix: character classes of wide characters in the layout
 features

---
 src/SemanticRolesPrediction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 43ed1f9..c9816a5 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -286,7 +286,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           numUppercasedChars += 1;
         }
 
-        if (static_cast<unsigned char>(wBlockText[i]) > 127) {
+        if (wBlockText[i] > 127) {
           numNonAsciiChars += 1;
         }
 
@@ -339,7 +339,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           // Convert the block text to a wstring, to correctly handle umlauts etc.
           wstring wWordText = stringConverter.from_bytes(word->text);
 
-          if (wWordText.length() > 0 && isupper(wWordText[0])) {
+          if (wWordText.length() > 0 && iswupper(wWordText[0])) {
             numUppercasedWords += 1;
           }
           numWords++;
-- 
2.43.0


From a7841e8863d1989447a9db86842013427e48a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 13/32] fix: initialize the semantic role of text blocks

---
 src/Types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Types.h b/src/Types.h
index 3b22b70..4b67890 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -756,7 +756,7 @@ class PdfTextBlock : public PdfTextElement {
   const PdfPageSegment* segment = nullptr;
 
   // The semantic role of this text block.
-  SemanticRole role;
+  SemanticRole role = SemanticRole::PARAGRAPH;
 
   // A boolean flag indicating whether or not the text lines in this text block are centered.
   bool isLinesCentered = false;
-- 
2.43.0


From 531e2bf2cd0ae60ee8ead074108fc6459becbfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 14/32] fix: an empty set of roles or units selects all of them

---
 src/serializers/JsonlSerializer.cpp           | 19 ++++++++++++-------
 .../PlainTextExtendedSerializer.cpp           |  4 ++--
 src/serializers/PlainTextSerializer.cpp       |  4 ++--
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index 1faf5bd..6ef1731 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -54,7 +54,12 @@ void JsonlSerializer::serializeToStream(const PdfDocument* doc,
     const unordered_set<SemanticRole>& roles, const unordered_set<PdfElementType>& units,
     ostream& out) const {
 
-  for (PdfElementType unit : units) {
+  // If no units are given, output all units.
+  const unordered_set<PdfElementType> allUnits = { PdfElementType::PAGES,
+    PdfElementType::CHARACTERS, PdfElementType::WORDS, PdfElementType::TEXT_BLOCKS,
+    PdfElementType::FIGURES, PdfElementType::SHAPES };
+
+  for (PdfElementType unit : units.empty() ? allUnits : units) {
     switch (unit) {
       case PdfElementType::PAGES:
         serializePages(doc, roles, out);
@@ -104,8 +109,8 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
 
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
-      // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      // Skip the block if its role is not included in 'roles' (an empty set includes all roles).
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
@@ -208,8 +213,8 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
 
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
-      // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      // Skip the block if its role is not included in 'roles' (an empty set includes all roles).
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
@@ -244,8 +249,8 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
 
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
-      // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      // Skip the block if its role is not included in 'roles' (an empty set includes all roles).
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
diff --git a/src/serializers/PlainTextExtendedSerializer.cpp b/src/serializers/PlainTextExtendedSerializer.cpp
index 9d9df11..56a67f1 100755
--- a/src/serializers/PlainTextExtendedSerializer.cpp
+++ b/src/serializers/PlainTextExtendedSerializer.cpp
@@ -49,8 +49,8 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
   PdfTextBlock* prevBlock = nullptr;
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
-      // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      // Skip the block if its role is not included in 'roles' (an empty set includes all roles).
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
diff --git a/src/serializers/PlainTextSerializer.cpp b/src/serializers/PlainTextSerializer.cpp
index 6e18e75..4163e69 100755
--- a/src/serializers/PlainTextSerializer.cpp
+++ b/src/serializers/PlainTextSerializer.cpp
@@ -43,8 +43,8 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
   PdfTextBlock* prevBlock = nullptr;
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
-      // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      // Skip the block if its role is not included in 'roles' (an empty set includes all roles).
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
-- 
2.43.0


From 67638d30b7cbf73ba9144339847ea7e0fcf69df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 15/32] fix: create the directories of the target file without
 a shell

---
 src/serializers/Serializer.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 69bd201..4824d32 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -6,9 +6,11 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <system_error>
 #include <unordered_set>
 
 #include "./Serializer.h"
@@ -17,6 +19,10 @@
 using std::cerr;
 using std::cout;
 using std::endl;
+using std::error_code;
+using std::filesystem::create_directories;
+using std::filesystem::is_directory;
+using std::filesystem::path;
 using std::ofstream;
 using std::string;
 using std::unordered_set;
@@ -42,16 +48,16 @@ void Serializer::serialize(
   }
 
   // Compute the path to the parent directory of the target file.
-  string parentDirPath = ".";
-  size_t posLastSlash = targetFilePath.find_last_of("/");
-  if (posLastSlash != string::npos) {
-    parentDirPath = targetFilePath.substr(0, posLastSlash);
-  }
+  path parentDirPath = path(targetFilePath).parent_path();
 
   // Try to create all intermediate directories if the parent directory does not exist.
-  if (system(("mkdir -p " + parentDirPath).c_str())) {
-    cerr << "Could not create directory '" << parentDirPath << "'." << endl;
-    return;
+  error_code error;
+  if (!parentDirPath.empty() && !is_directory(parentDirPath, error)) {
+    create_directories(parentDirPath, error);
+    if (error) {
+      cerr << "Could not create directory '" << parentDirPath.string() << "'." << endl;
+      return;
+    }
   }
 
   ofstream outFile(targetFilePath);
-- 
2.43.0


From e8af02d1a8b17e7355b2eedec72fd0ab1e623f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 16/32] fix: report errors on writing the target file

---
 src/serializers/Serializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 4824d32..ab77e63 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -68,6 +68,9 @@ void Serializer::serialize(
 
   serializeToStream(doc, roles, types, outFile);
   outFile.close();
+  if (outFile.fail()) {
+    cerr << "Could not write file '" << targetFilePath << "'." << endl;
+  }
 }
 
 }  // namespace ppp::serialization
-- 
2.43.0


From b5856637b93c27bbb27f3b2d50e780bfa8d81f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 17/32] fix: let --skip-semantic-roles-prediction take effect

---
 src/ReadingOrderDetection.cpp | 5 ++++-
 src/ReadingOrderDetection.h   | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index 685d4ab..a8107d6 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -53,6 +53,7 @@ ReadingOrderDetection::ReadingOrderDetection(
     const SemanticRolesPredictionConfig* config2) {
   _doc = doc;
   _config = config;
+  _config2 = config2;
   _semanticRolesPrediction = new SemanticRolesPrediction(config2);
 }
 
@@ -69,7 +70,9 @@ void ReadingOrderDetection::process() {
 
 // _________________________________________________________________________________________________
 void ReadingOrderDetection::detectSemanticRoles() {
-  _semanticRolesPrediction->predict(_doc);
+  if (!_config2->disabled) {
+    _semanticRolesPrediction->predict(_doc);
+  }
 }
 
 // _________________________________________________________________________________________________
diff --git a/src/ReadingOrderDetection.h b/src/ReadingOrderDetection.h
index a139d84..99a227e 100755
--- a/src/ReadingOrderDetection.h
+++ b/src/ReadingOrderDetection.h
@@ -174,6 +174,8 @@ class ReadingOrderDetection {
   PdfDocument* _doc;
   // The configuration to use.
   const ReadingOrderDetectionConfig* _config;
+  // The configuration of the prediction of the semantic roles.
+  const SemanticRolesPredictionConfig* _config2;
 
   double _minXCutGapWidth = 0;
   double _minYCutGapHeight = 0;
-- 
2.43.0


From 9a49c01341b3a707c8a97a3a8c28f4052c6bd5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 18/32] fix: decode the hexadecimal form of embedded Type 1
 fonts

The decoded bytes were written to every second position of a buffer that is
half as long as the hexadecimal digits, digits in upper case and line breaks
were not considered, and the length in the header of a PFB segment could exceed
the length of the buffer.
---
 src/utils/PdfFontInfoParser.cpp | 49 ++++++++++++++-------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 46cbeac..c5f85a6 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -332,55 +332,48 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   }
 
-  int numBytes = isPfb ? length : length / 2;
-  char* bytes = new char[numBytes];
-  int b = 0;
+  string bytes;
   int c;
 
   if (isPfb) {
     if (start[0] == 0x80 && start[1] == 2) {
-      length = start[2] | (start[3] << 8) | (strObj->streamGetChar() << 16) |
-          (strObj->streamGetChar() << 24);
+      length = start[2] | (start[3] << 8);
+      length |= (strObj->streamGetChar() & 0xff) << 16;
+      length |= (strObj->streamGetChar() & 0xff) << 24;
     } else {
       for (int i = 0; i < 4; i++) {
-        char c1 = _hexToChar[(start[i] >> 4) & 0x0f];
-        char c2 = _hexToChar[start[i] & 0x0f];
-        bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-        b++;
+        bytes.push_back(start[i]);
       }
     }
 
-    for (int i = b; i < length; i++) {
+    for (int i = bytes.size(); i < length; i++) {
       if ((c = strObj->streamGetChar()) == EOF) {
         break;
       }
-      char c1 = _hexToChar[(c >> 4) & 0x0f];
-      char c2 = _hexToChar[c & 0x0f];
-      bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(c);
     }
   } else {
-    for (int i = 0; i < 4; i += 2) {
-      bytes[i] = 16 * _charToHex[start[i]] + _charToHex[start[i+1]];
-      b++;
-    }
-    for (int i = 4; i < length; i += 2) {
-      char c1;
-      if ((c1 = strObj->streamGetChar()) == EOF) {
+    // Translate each two hexadecimal digits to one byte; ignore all other characters (the digits
+    // are typically broken into lines).
+    int numDigits = 0;
+    int digit = 0;
+    for (int i = 0; i < length; i++) {
+      if ((c = i < 4 ? start[i] : strObj->streamGetChar()) == EOF) {
         break;
       }
-      char c2;
-      if ((c2 = strObj->streamGetChar()) == EOF) {
-        break;
+      const auto& hex = _charToHex.find(tolower(c));
+      if (hex == _charToHex.end()) {
+        continue;
+      }
+      if (++numDigits % 2 == 0) {
+        bytes.push_back(16 * digit + hex->second);
       }
-      bytes[i] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      digit = hex->second;
     }
   }
 
   string decrypted;
-  decrypt(bytes, b, 55665, 4, &decrypted);
-  delete[] bytes;
+  decrypt(bytes.data(), bytes.size(), 55665, 4, &decrypted);
 
   // Parse the "/lenIV" part.
   int lenIV = 4;
-- 
2.43.0


From 15f11c03349f9d8a48abfbf6a86014015e5a29c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 19/32] fix: keep damaged Type 1 font programs from crashing
 the program

Font matrices with more than six numbers, lengths beyond the end of the font
program, truncated numbers, divisions by zero, calls of other subroutines
without arguments and recursive subroutines led to undefined behaviour,
uncaught exceptions or an endless recursion.
---
 src/utils/PdfFontInfoParser.cpp | 42 ++++++++++++++++++++-------------
 src/utils/PdfFontInfoParser.h   |  2 +-
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index c5f85a6..9fbaa6a 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -12,6 +12,8 @@
 #include <poppler/XRef.h>
 
 #include <cassert>  // assert
+#include <cstdint>  // int64_t
+#include <cstdlib>  // atoi, strtoul
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
@@ -32,7 +34,6 @@ using std::regex;
 using std::shared_ptr;
 using std::smatch;
 using std::sregex_iterator;
-using std::stoi;
 using std::string;
 using std::stringstream;
 using std::unordered_map;
@@ -272,7 +273,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
             istringstream lineSS(line.substr(lSquarePos, rSquarePos - lSquarePos));
             double d;
             int k = 0;
-            while (lineSS >> d) {
+            while (k < 6 && lineSS >> d) {
               fontInfo->fontMatrix[k++] = d;
             }
           }
@@ -382,7 +383,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     lenIVStart += 7;
     size_t lenIVEnd = decrypted.find(" ", lenIVStart);
     if (lenIVEnd != string::npos) {
-      lenIV = stoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart));
+      lenIV = atoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart).c_str());
     }
   }
 
@@ -408,13 +409,13 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   unordered_map<int, string> subrsMap;
   for (sregex_iterator i = dupBegin; i != dupEnd; i++) {
     smatch match = *i;
-    int index = stoi(match.str(1));
-    int nnumBytes = stoi(match.str(2));
+    int index = atoi(match.str(1).c_str());
+    size_t nnumBytes = strtoul(match.str(2).c_str(), nullptr, 10);
 
     string dupstring = subrs.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedDupString;
-    decrypt(dupstring.c_str(), nnumBytes, 4330, lenIV, &decryptedDupString);
+    decrypt(dupstring.c_str(), dupstring.size(), 4330, lenIV, &decryptedDupString);
 
     subrsMap[index] = decryptedDupString;
   }
@@ -441,12 +442,12 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   for (sregex_iterator i = words_begin; i != words_end; ++i) {
     smatch match = *i;
     string charName = match.str(1);
-    int nnumBytes = stoi(match.str(2));
+    size_t nnumBytes = strtoul(match.str(2).c_str(), nullptr, 10);
 
     string charstring = charstrings.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedCharString;
-    decrypt(charstring.c_str(), nnumBytes, 4330, lenIV, &decryptedCharString);
+    decrypt(charstring.c_str(), charstring.size(), 4330, lenIV, &decryptedCharString);
 
     int leftX = numeric_limits<int>::max();
     int upperY = numeric_limits<int>::max();
@@ -466,7 +467,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 void Type1FontFileParser::parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY,
-    vector<int>* args, vector<int>* interpreterStack) const {
+    vector<int>* args, vector<int>* interpreterStack, int depth) const {
 
   for (size_t t = 0; t < charString.size(); t++) {
     unsigned char byte = charString[t] & 0xff;
@@ -579,16 +580,20 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int index = args->back();
             args->pop_back();
 
-            if (!subrs.count(index)) {
+            // Ignore subroutines that are nested too deeply (the Type 1 font format allows 10 levels).
+            if (!subrs.count(index) || depth >= 10) {
               break;
             }
 
             parseCharString(subrs.at(index), subrs, curX, curY, leftX, upperY, rightX, lowerY, args,
-                interpreterStack);
+                interpreterStack, depth + 1);
           }
           break;
         case 12:  // escape
           {
+            if (t + 1 >= charString.size()) {
+              break;
+            }
             unsigned char byte2 = charString[++t] & 0xff;
 
             switch (byte2) {
@@ -641,13 +646,13 @@ void Type1FontFileParser::parseCharString(const string& charString,
                 }
                 break;
               case 12:  // num1 num2 div
-                if (args->size() >= 2) {
+                if (args->size() >= 2 && args->back() != 0) {
                   int num2 = args->back();
                   args->pop_back();
                   int num1 = args->back();
                   args->pop_back();
 
-                  int result = num1 / num2;  // TODO(korzen): float
+                  int result = static_cast<int64_t>(num1) / num2;  // TODO(korzen): float
 
                   args->push_back(result);
                 }
@@ -663,7 +668,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   interpreterStack->clear();
                   switch (othersubr) {
                     case 0:
-                      {
+                      if (args->size() >= 3) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
@@ -677,15 +682,15 @@ void Type1FontFileParser::parseCharString(const string& charString,
                     case 1:
                       break;
                     case 3:
-                      {
+                      if (args->size() >= 1) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
-                        break;
                       }
+                      break;
                     default:
                       {
-                        for (int i = 0; i < numArgs; i++) {
+                        for (int i = 0; i < numArgs && !args->empty(); i++) {
                           int n1 = args->back();
                           args->pop_back();
                           interpreterStack->push_back(n1);
@@ -822,6 +827,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
     } else {
       if (byte <= 246) {
         args->push_back(byte - 139);
+      } else if (t + (byte == 255 ? 4 : 1) >= charString.size()) {
+        // The number is truncated.
+        break;
       } else if (byte >= 247 && byte <= 250) {
         unsigned char bbyte = charString[++t] & 0xff;
         args->push_back((byte - 247) * 256 + bbyte + 108);
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 33971db..321c9e7 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -114,7 +114,7 @@ class Type1FontFileParser {
   void parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY, vector<int>* args,
-    vector<int>* interpreterStack) const;
+    vector<int>* interpreterStack, int depth = 0) const;
 
   /** TODO(korzen) */
   void decrypt(const char* bytes, int numBytes, int r, int n, string* resultStr) const;
-- 
2.43.0


From 39b49389b5eabd81f21b5edc90c60269e5b4d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 20/32] fix: identify fonts without a name by their id

Fonts without a name (Type 3 fonts) were identified by their address. The name
of such a font differed between two runs on the same file, and a font allocated
at the address of a font of a previous page got the information of that font.
---
 src/PdfParsing.cpp              | 8 ++++----
 src/utils/PdfFontInfoParser.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 08a791f..2811372 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -134,10 +134,10 @@ void PdfParsing::updateFont(GfxState* state) {
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. In this case, use the pointer address of the font instead.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. In this case, use the id of the font instead.
+  stringstream gfxFontId;
+  gfxFontId << "font-" << gfxFont->getID()->num << "-" << gfxFont->getID()->gen;
+  string fontName = gfxFontId.str();
   const optional<string> gooFontName = gfxFont->getName();
   if (gooFontName) {
     fontName = move(*gooFontName);
diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 9fbaa6a..8e3cb60 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -62,10 +62,10 @@ PdfFontInfo* PdfFontInfoParser::parse(
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. So use the pointer address of the font as default font name.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. So use the id of the font as default font name.
+  stringstream gfxFontId;
+  gfxFontId << "font-" << gfxFont->getID()->num << "-" << gfxFont->getID()->gen;
+  string fontName = gfxFontId.str();
 
   // If the font provide a font name, take this.
   const std::optional<string> gooFontName = gfxFont->getName();
-- 
2.43.0


From 244b27b7bf307d7c2f5ac35a197c2867ebecf463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 21/32] fix: determine the rotation of small text in Type 3
 fonts

The entries of the text matrix were compared with a tolerance of 0.0001, which
is larger than the entries themselves for Type 3 fonts with a small font
matrix, so that small text in such a font was considered to be rotated.
---
 src/PdfParsing.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 2811372..dc7d486 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -268,10 +268,12 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     m[2] = m2[2];
     m[3] = m2[3];
   }
-  if (larger(fabs(m[0] * m[3]), fabs(m[1] * m[2]))) {
-    ch->pos->rotation = (larger(m[0], 0) || smaller(m[3], 0)) ? 0 : 2;
+  // NOTE: Don't use a tolerance here, since the values can be arbitrarily small (for example, for
+  // text in a Type 3 font with a small font size).
+  if (fabs(m[0] * m[3]) > fabs(m[1] * m[2])) {
+    ch->pos->rotation = (m[0] > 0 || m[3] < 0) ? 0 : 2;
   } else {
-    ch->pos->rotation = (larger(m[2], 0)) ? 1 : 3;
+    ch->pos->rotation = (m[2] > 0) ? 1 : 3;
   }
   // In vertical writing mode, the lines are effectively rotated by 90 degrees.
   if (gfxFont && gfxFont->getWMode()) {
-- 
2.43.0


From 62c58ebbe0771868234c4330349c222b00c39889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 22/32] fix: translate the font weights of Poppler

Poppler's weights are the enumerators 1 to 9, and not the documented values 100
to 900, so that every font with an explicit weight was lighter than all others.
---
 src/utils/PdfFontInfoParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 8e3cb60..cdfe537 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -133,7 +133,7 @@ PdfFontInfo* PdfFontInfoParser::parse(
   //     attribute). It can also contain the full name of the font (which is an extended version of
   //     the above font name) which can contain the word "Bold". This is checked in a later step,
   //     on reading the embedded font file.
-  fontInfo->weight = gfxFont->getWeight() > 0 ? gfxFont->getWeight() : fontInfo->weight;
+  fontInfo->weight = gfxFont->getWeight() > 0 ? 100 * gfxFont->getWeight() : fontInfo->weight;
   fontInfo->weight = (fontFlags & fontBold) ? 700 : fontInfo->weight;
   fontInfo->weight = fontNameLower.find("bold") != string::npos ? 700 : fontInfo->weight;
   fontInfo->weight = fontNameLower.find("black") != string::npos ? 800 : fontInfo->weight;
-- 
2.43.0


From 13ee882226b54bd637333b306188496b80a1d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 23/32] fix: consider the paths filled with the even-odd rule

Paths painted with the operators f*, B* and b* were filled without notice of
the program; f* left no shape at all.
---
 src/PdfParsing.cpp | 6 ++++++
 src/PdfParsing.h   | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index dc7d486..b044256 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -738,6 +738,12 @@ void PdfParsing::stroke(GfxState* state) {
   _log->debug(_p) << " • figure.clipLowerY: " << figure->clipLowerY << endl;
 }
 
+// _________________________________________________________________________________________________
+void PdfParsing::eoFill(GfxState* state) {
+  // Handle the event exactly like a "fill path" event.
+  fill(state);
+}
+
 // _________________________________________________________________________________________________
 void PdfParsing::fill(GfxState* state) {
   stroke(state);
diff --git a/src/PdfParsing.h b/src/PdfParsing.h
index 2f6a0e8..c874383 100755
--- a/src/PdfParsing.h
+++ b/src/PdfParsing.h
@@ -189,6 +189,15 @@ class PdfParsing : public OutputDev {
    */
   void fill(GfxState* state) override;
 
+  /**
+   * This method handles the event "fill a path using the even-odd rule" in the same way as the
+   * event "fill a path".
+   *
+   * @param state
+   *   The current graphics state.
+   */
+  void eoFill(GfxState* state) override;
+
   /**
    * This method handles the event "draw an image mask" by invoking the `drawGraphic(state)` method
    * below. See the comment given for this method for more information.
-- 
2.43.0


From 8116d7324124e27ce872b9b9418cca71441257ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 24/32] fix: map the names of the thumbs to the right text

\u takes four hexadecimal digits, so that the text of these glyphs consisted of
a Greek letter and a digit or letter.
---
 src/utils/CharMap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/CharMap.h b/src/utils/CharMap.h
index bf6502d..a509a93 100755
--- a/src/utils/CharMap.h
+++ b/src/utils/CharMap.h
@@ -149,10 +149,10 @@ const unordered_map<string, pair<unsigned int, string>> charMap = {
   { "slashbigg", make_pair(0x002F, "\u002F") },
   { "summationdisplay", make_pair(0x2211, "\u2211") },
   { "summationtext", make_pair(0x2211, "\u2211") },
-  { "thumbs_down", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_down_alt", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_up", make_pair(0x1F44D, "\u1F44D") },
-  { "thumbs_up_alt", make_pair(0x1F44D, "\u1F44D") },
+  { "thumbs_down", make_pair(0x1F44E, "\U0001F44E") },
+  { "thumbs_down_alt", make_pair(0x1F44E, "\U0001F44E") },
+  { "thumbs_up", make_pair(0x1F44D, "\U0001F44D") },
+  { "thumbs_up_alt", make_pair(0x1F44D, "\U0001F44D") },
   { "tildewide", make_pair(0x02DC, "\u02DC") },
   { "tildewider", make_pair(0x02DC, "\u02DC") },
   { "tildewidest", make_pair(0x02DC, "\u02DC") },
-- 
2.43.0


From 10a3472fc2bb7b1fe6a1da928ddad0108f95b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 25/32] fix: strip strings that consist of whitespaces only

---
 src/utils/TextUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index a9e2081..b0966ab 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -150,8 +150,8 @@ string strip(const string& str) {
   auto start_it = str.begin();
   auto end_it = str.rbegin();
 
-  while (isspace(*start_it)) { start_it++; }
-  while (isspace(*end_it)) { end_it++; }
+  while (start_it != str.end() && isspace(*start_it)) { start_it++; }
+  while (end_it.base() != start_it && isspace(*end_it)) { end_it++; }
 
   return string(start_it, end_it.base());
 }
-- 
2.43.0


From 9f3ca123403b6de1dc42c591d223ef9dc2634800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 26/32] fix: use all characters of the alphabet for random
 strings

---
 src/utils/TextUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index b0966ab..7fd9edc 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -92,7 +92,7 @@ string createRandomString(unsigned int len, const string& prefix, const char* co
   // Append <len>-many random alphanumerical characters.
   int alphabetSize = strlen(alphabet);
   for (unsigned int i = 0; i < len; i++) {
-    str += alphabet[rand() % (alphabetSize - 1)];
+    str += alphabet[rand() % alphabetSize];
   }
 
   return str;
-- 
2.43.0


From 576ee4ffb8193d50e1d863708f9ff3da98070a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 27/32] fix: wrap texts with newlines, long words and indents
 as documented

---
 src/utils/TextUtils.cpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 7fd9edc..7e25f7a 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -161,27 +161,26 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
   string result = "";
 
   // Split the string into lines.
-  unsigned int lineStart = 0;
-  unsigned int lineEnd = 0;
+  size_t lineStart = 0;
   while (true) {
-    // Check if the string needs to be wrapped because it contains an explicit newline character.
-    lineEnd = str.rfind("\n", lineStart + width - indent);
-    if (lineEnd >= lineStart && lineEnd <= str.size()) {
-      for (unsigned int i = 0; i < indent; i++) { result += " "; }
-      result += str.substr(lineStart, lineEnd - lineStart);
-      result += "\n";
-      lineStart = lineEnd + 1;
-      continue;
-    }
-
-    // Check if the string needs to be wrapped because it is too long.
-    lineEnd = str.rfind(" ", lineStart + width - indent);
-    if (lineEnd < lineStart || lineEnd > str.size()) {
-      break;
-    }
-    // Don't wrap if the string would be split in two parts whose accumulated width is <= width.
-    if ((lineEnd - lineStart) + (str.size() - lineEnd) <= width) {
-      break;
+    // The line must not extend beyond this position.
+    size_t limit = lineStart + width - indent;
+    // Check if the line ends at an explicit newline character.
+    size_t lineEnd = str.find('\n', lineStart);
+    if (lineEnd == string::npos || lineEnd > limit) {
+      // Don't wrap if the rest of the string fits into the line.
+      if (str.size() <= limit) {
+        break;
+      }
+      // Wrap at the last whitespace that fits into the line, or (if the line starts with a word
+      // that is too long) at the end of the word.
+      lineEnd = str.rfind(' ', limit);
+      if (lineEnd == string::npos || lineEnd < lineStart) {
+        lineEnd = str.find_first_of(" \n", limit);
+      }
+      if (lineEnd == string::npos) {
+        break;
+      }
     }
     // Append the indent and the line to the result.
     for (unsigned int i = 0; i < indent; i++) { result += " "; }
-- 
2.43.0


From 8f3b6c421d00759f9a044490addd4238e100cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 28/32] fix: reject unknown verbosities

---
 src/pdftotext++.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 21a4224..1d9f6fe 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -609,10 +609,20 @@ int main(int argc, char* argv[]) {
   // Start the extraction process.
 
   LogLevel logLevel = ERROR;
-  if (verbosity == "trace" || verbosity == "TRACE") { logLevel = TRACE; }
-  if (verbosity == "debug" || verbosity == "DEBUG") { logLevel = DEBUG; }
-  if (verbosity == "info" || verbosity == "INFO") { logLevel = INFO; }
-  if (verbosity == "warn" || verbosity == "WARN") { logLevel = WARN; }
+  if (verbosity == "trace" || verbosity == "TRACE") {
+    logLevel = TRACE;
+  } else if (verbosity == "debug" || verbosity == "DEBUG") {
+    logLevel = DEBUG;
+  } else if (verbosity == "info" || verbosity == "INFO") {
+    logLevel = INFO;
+  } else if (verbosity == "warn" || verbosity == "WARN") {
+    logLevel = WARN;
+  } else if (verbosity != "error" && verbosity != "ERROR") {
+    cerr << "An error occurred on parsing the command-line options: "
+         << "the argument ('" << verbosity << "') for option '--verbosity' is invalid" << endl;
+    cerr << "Type \"" << programName << " --help\" for printing the help." << endl;
+    return EXIT_FAILURE;
+  }
 
   Config conf;
   // Configure pdf parsing.
-- 
2.43.0


From b700dc159a0832794f42085e5b55f9604d9785cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 29/32] fix: make the JSONL format selectable again (it is the
 only one --type has an effect on)

---
 src/PdfDocumentSerialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PdfDocumentSerialization.h b/src/PdfDocumentSerialization.h
index 3213742..c817197 100644
--- a/src/PdfDocumentSerialization.h
+++ b/src/PdfDocumentSerialization.h
@@ -31,7 +31,7 @@ namespace ppp::serialization {
 const unordered_map<SerializationFormat, Serializer*> SERIALIZERS {
   { SerializationFormat::TXT, new PlainTextSerializer() },
   { SerializationFormat::TXT_EXTENDED, new PlainTextExtendedSerializer() },
-  // { SerializationFormat::JSONL, new JsonlSerializer() }
+  { SerializationFormat::JSONL, new JsonlSerializer(1) }
 };
 
 /**
-- 
2.43.0


From e5b51e2bc36888e6a98fff1ae1ea6cda9ef80869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 30/32] fix: don't cut off the subroutines of a Type 1 font at
 an encrypted "ND"

---
 src/utils/PdfFontInfoParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index cdfe537..f7563f1 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -395,7 +395,9 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
   subrsStart += 6;
 
-  size_t subrsEnd = decrypted.find("ND", subrsStart);
+  // The subroutines extend up to the "/CharStrings" part. Don't search for the closing "ND", because
+  // the encrypted bytes of a subroutine can contain these letters, too.
+  size_t subrsEnd = decrypted.find("/CharStrings", subrsStart);
   if (subrsEnd == string::npos) {
     // TODO(korzen): Print warning.
     return;
-- 
2.43.0


From 7b2184e4b7b2e2a4b766bc50ae49e6299a073c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:37 +0000
Subject: [PATCH 31/32] fix: don't consider a font with an italic angle of 0.0
 to be italic

---
 src/utils/PdfFontInfoParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index f7563f1..fa7c2b3 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -13,7 +13,7 @@
 
 #include <cassert>  // assert
 #include <cstdint>  // int64_t
-#include <cstdlib>  // atoi, strtoul
+#include <cstdlib>  // atof, atoi, strtoul
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
@@ -285,7 +285,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
     // A value != 0 means that the font is an italic font.
     if (!italicAngleFound) {
       if (line.starts_with("/ItalicAngle")) {
-        fontInfo->isItalic |= (line != "/ItalicAngle 0 def");
+        fontInfo->isItalic |= atof(line.substr(12).c_str()) != 0;
         italicAngleFound = true;
       }
     }
-- 
2.43.0


From 72c9a1ab3bb209ed9e98210b5602e101d1205d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 32/32] fix: visualization on pages that are rotated or do not
 start at the origin

The boxes, labels, lines and cuts were drawn as if every page were displayed
without rotation and with its media box at the origin.
---
 src/PdfDocumentVisualization.cpp | 76 ++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 0b94730..be6c1d8 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -28,6 +28,7 @@
 using std::make_unique;
 using std::move;
 using std::string;
+using std::swap;
 using std::to_string;
 using std::unique_ptr;
 using std::vector;
@@ -55,6 +56,32 @@ using ppp::utils::math::smaller;
 
 namespace ppp::visualization {
 
+// Translates the given position from the coordinate system of the displayed page (which is relative
+// to the upper left of the media box, after rotating the page) to the user space of the page.
+static void toUserSpace(const Page* page, double* x, double* y) {
+  const PDFRectangle* box = page->getMediaBox();
+  double displayX = *x;
+  double displayY = *y;
+  switch (page->getRotate()) {
+    case 90:
+      *x = box->x1 + displayY;
+      *y = box->y1 + displayX;
+      break;
+    case 180:
+      *x = box->x2 - displayX;
+      *y = box->y1 + displayY;
+      break;
+    case 270:
+      *x = box->x2 - displayY;
+      *y = box->y2 - displayX;
+      break;
+    default:
+      *x = box->x1 + displayX;
+      *y = box->y2 - displayY;
+      break;
+  }
+}
+
 // _________________________________________________________________________________________________
 PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
     const PdfDocumentVisualizationConfig& config) {
@@ -351,9 +378,13 @@ void PdfDocumentVisualization::drawPageSegmentBoundingBoxes(
       Page* pdfPage = _pdfDoc->getPage(segment->pos->pageNum);
       Gfx* gfx = _gfxs[segment->pos->pageNum];
       double leftX = block->pos->leftX;
-      double upperY = pdfPage->getMediaHeight() - block->pos->lowerY;
+      double upperY = block->pos->lowerY;
       double rightX = block->pos->rightX;
-      double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
+      double lowerY = block->pos->upperY;
+      toUserSpace(pdfPage, &leftX, &upperY);
+      toUserSpace(pdfPage, &rightX, &lowerY);
+      if (leftX > rightX) { swap(leftX, rightX); }
+      if (upperY > lowerY) { swap(upperY, lowerY); }
       // Vertical/horizontal lines can have a width/height of zero, in which case they are not
       // visible in the visualization. So ensure a minimal width/height of 1.
       if (smaller(fabs(leftX - rightX), 1)) { rightX += 1; }
@@ -380,12 +411,15 @@ void PdfDocumentVisualization::drawBoundingBox(const PdfElement* element, const
   Page* pdfPage = _pdfDoc->getPage(element->pos->pageNum);
   Gfx* gfx = _gfxs[element->pos->pageNum];
 
-  // Define the coordinates of the bounding box to draw. Make the y-coordinates relatively to the
-  // lower left of the page.
+  // Define the coordinates of the bounding box to draw, in the user space of the page.
   double leftX = element->pos->leftX;
-  double upperY = pdfPage->getMediaHeight() - element->pos->lowerY;
+  double upperY = element->pos->lowerY;
   double rightX = element->pos->rightX;
-  double lowerY = pdfPage->getMediaHeight() - element->pos->upperY;
+  double lowerY = element->pos->upperY;
+  toUserSpace(pdfPage, &leftX, &upperY);
+  toUserSpace(pdfPage, &rightX, &lowerY);
+  if (leftX > rightX) { swap(leftX, rightX); }
+  if (upperY > lowerY) { swap(upperY, lowerY); }
 
   // Vertical/horizontal lines can have a width/height of zero, in which case they are not
   // visible in the visualization. So ensure a minimal width/height of 1.
@@ -413,10 +447,10 @@ void PdfDocumentVisualization::drawTextBlockSemanticRoles(const vector<PdfTextBl
     Page* pdfPage = _pdfDoc->getPage(block->pos->pageNum);
     Gfx* gfx = _gfxs[block->pos->pageNum];
 
-    // Define the position of the semantic role. Make the lowerY relatively to the lower left of
-    // the page.
+    // Define the position of the semantic role, in the user space of the page.
     double leftX = block->pos->leftX;
-    double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
+    double lowerY = block->pos->upperY;
+    toUserSpace(pdfPage, &leftX, &lowerY);
     PDFRectangle rect(leftX, lowerY, leftX + 100, lowerY + 7);
 
     // Define the font appearance of the semantic role.
@@ -453,18 +487,12 @@ void PdfDocumentVisualization::drawReadingOrder(const vector<PdfTextBlock*>& blo
     Gfx* gfx = _gfxs[currBlock->pos->pageNum];
 
     // Compute the coordinates of the midpoints of the previous and current text block.
-    double prevMinX = prevBlock->pos->leftX;
-    double prevMaxX = prevBlock->pos->rightX;
-    double prevMinY = pdfPage->getMediaHeight() - prevBlock->pos->lowerY;
-    double prevMaxY = pdfPage->getMediaHeight() - prevBlock->pos->upperY;
-    double prevMidX = prevBlock->pos->leftX + ((prevMaxX - prevMinX) / 2.0);
-    double prevMidY = prevMinY + ((prevMaxY - prevMinY) / 2.0);
-    double currMinX = currBlock->pos->leftX;
-    double currMaxX = currBlock->pos->rightX;
-    double currMinY = pdfPage->getMediaHeight() - currBlock->pos->lowerY;
-    double currMaxY = pdfPage->getMediaHeight() - currBlock->pos->upperY;
-    double currMidX = currBlock->pos->leftX + ((currMaxX - currMinX) / 2.0);
-    double currMidY = currMinY + ((currMaxY - currMinY) / 2.0);
+    double prevMidX = (prevBlock->pos->leftX + prevBlock->pos->rightX) / 2.0;
+    double prevMidY = (prevBlock->pos->upperY + prevBlock->pos->lowerY) / 2.0;
+    toUserSpace(pdfPage, &prevMidX, &prevMidY);
+    double currMidX = (currBlock->pos->leftX + currBlock->pos->rightX) / 2.0;
+    double currMidY = (currBlock->pos->upperY + currBlock->pos->lowerY) / 2.0;
+    toUserSpace(pdfPage, &currMidX, &currMidY);
 
     // Define the position of the reading order line.
     PDFRectangle lineRect(prevMidX, prevMidY, currMidX, currMidY);
@@ -556,9 +584,11 @@ void PdfDocumentVisualization::drawCuts(const vector<Cut*>& cuts, const ColorSch
     Gfx* gfx = _gfxs[cut->pageNum];
 
     double x1 = cut->x1;
-    double y1 = pdfPage->getMediaHeight() - cut->y1;  // make it relative to the lower left.
+    double y1 = cut->y1;
     double x2 = cut->x2;
-    double y2 = pdfPage->getMediaHeight() - cut->y2;  // make it relative to the lower left.
+    double y2 = cut->y2;
+    toUserSpace(pdfPage, &x1, &y1);
+    toUserSpace(pdfPage, &x2, &y2);
 
     // ==========
     // Draw a line representing the cut.
-- 
2.43.0

