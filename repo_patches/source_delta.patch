From 37975bbef11e25bc0e046fe9530024d632d97f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 01/46] fix: deleting the first reading must not forget choices
 made on the next one

Span 0 was cleared after deleting the reading at location 0, although no
node can span across the beginning of the grid. This dropped the user's
candidate override on the reading that follows.
---
 src/Engine/gramambular2/reading_grid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/gramambular2/reading_grid.cpp b/src/Engine/gramambular2/reading_grid.cpp
index 65bbd63..c37e717 100644
--- a/src/Engine/gramambular2/reading_grid.cpp
+++ b/src/Engine/gramambular2/reading_grid.cpp
@@ -372,12 +372,13 @@ void ReadingGrid::removeAffectedNodes(size_t loc) {
   //                XXXXX
   //            XXXXXXXXX
   //
-  if (spans_.empty()) {
+  // No span starts before the first location, so nothing can be broken there.
+  if (spans_.empty() || loc == 0) {
     return;
   }
   size_t affectedLength = kMaximumSpanLength - 1;
   size_t begin = loc <= affectedLength ? 0 : loc - affectedLength;
-  size_t end = loc >= 1 ? loc - 1 : 0;
+  size_t end = loc - 1;
   for (size_t i = begin; i <= end; ++i) {
     spans_[i].removeNodesOfOrLongerThan(loc - i + 1);
   }
-- 
2.43.0


From b1af1a2694dc1245a9214d0f7bebd945bfeadd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 02/46] fix: reverse row search must not miss a value that ends
 at the end of the data

The bounds check was off by one, so a value that reaches exactly to the
end of a table without a final newline was never found.
---
 src/Engine/ParselessPhraseDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index 1d49e9f..b47b4ab 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -186,7 +186,7 @@ std::vector<std::string> ParselessPhraseDB::reverseFindRows(
       ++recordEnd;
     }
 
-    if (ptr + value.length() < end_ &&
+    if (ptr + value.length() <= end_ &&
         memcmp(ptr, value.data(), value.length()) == 0) {
       // prefix match, add entire record to return value
       rows.emplace_back(recordBegin, recordEnd - recordBegin);
-- 
2.43.0


From 7519b4bf93841c89b18c7b830153128bf7ac4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 03/46] fix: a reading whose only unigrams are unsupported
 macros has no unigrams

hasUnigrams() returned true for a reading for which getUnigrams() then
returned nothing, so the reading grid accepted the reading but had no node
for it and the walk failed its assertion.
---
 src/Engine/McBopomofoLM.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index f498ae3..c610357 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -170,10 +170,12 @@ bool McBopomofoLM::hasUnigrams(const std::string& key) {
     return true;
   }
 
-  if (!excludedPhrases_.hasUnigrams(key)) {
-    return userPhrases_.hasUnigrams(key) || languageModel_.hasUnigrams(key);
+  if (!userPhrases_.hasUnigrams(key) && !languageModel_.hasUnigrams(key)) {
+    return false;
   }
 
+  // Not every unigram survives: it may be excluded by the user, or it may be a
+  // macro that is not supported.
   return !getUnigrams(key).empty();
 }
 
-- 
2.43.0


From e4938b99e54595dcbee5dcc11893e830664fc2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 04/46] fix: check mmap() failure against MAP_FAILED

mmap() reports failure with MAP_FAILED, not nullptr, so an empty file or a
directory was treated as successfully mapped at address -1.
---
 src/Engine/MemoryMappedFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index d6e8952..1d4eff4 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -68,7 +68,8 @@ bool MemoryMappedFile::open(const char* path) {
   length_ = static_cast<size_t>(sb.st_size);
 
   data_ = mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
-  if (data_ == nullptr) {
+  if (data_ == MAP_FAILED) {
+    data_ = nullptr;
     ::close(fd_);
     fd_ = -1;
     length_ = 0;
-- 
2.43.0


From a314345bfa563c733dd9be1a04b4cd4123ac74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:54 +0000
Subject: [PATCH 05/46] fix: a moved-from memory mapped file has no length

The move constructor left SIZE_MAX as the length of an object without data.
---
 src/Engine/MemoryMappedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index 1d4eff4..7070b7c 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -35,7 +35,7 @@ namespace McBopomofo {
 MemoryMappedFile::MemoryMappedFile(MemoryMappedFile&& other) noexcept
     : fd_(std::exchange(other.fd_, -1)),
       data_(std::exchange(other.data_, nullptr)),
-      length_(std::exchange(other.length_, -1)) {}
+      length_(std::exchange(other.length_, 0)) {}
 
 MemoryMappedFile& MemoryMappedFile::operator=(
     MemoryMappedFile&& other) noexcept {
-- 
2.43.0


From 3583a194dfedeb11e14e0a6029ada1a91088e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 06/46] fix: avoid an overlong shift when decoding a 0xFF byte
 as UTF-8

0xFF followed by seven continuation bytes shifted a 32-bit value by 35.
---
 src/Engine/UTF8Helper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Engine/UTF8Helper.cpp b/src/Engine/UTF8Helper.cpp
index 88dd7e4..b19baad 100644
--- a/src/Engine/UTF8Helper.cpp
+++ b/src/Engine/UTF8Helper.cpp
@@ -64,12 +64,16 @@ static inline bool DecodeUTF8(std::string::const_iterator& i,
       // Add lower 6 bits from the continuous byte.
       res = (res << 6) | (cc & 0x3F);
     }
+    if (count > 5) {
+      // Not a leading byte; the shift below would exceed the width of res.
+      return false;
+    }
     // Add first byte. Recall c has already been left-shifted (count * 1) times,
     // and so we need to left-shift another (count * 5) bits so the net effect
     // is left-shifting (count * 6) bits.
     res |= ((char32_t)(c & 0x7F) << (count * 5));
 
-    bool invalid = count > 5 || res > kMaxUnicode || res < limits[count] ||
+    bool invalid = res > kMaxUnicode || res < limits[count] ||
                    (0xd800 <= res && res <= 0xdfff);
     if (invalid) {
       return false;
-- 
2.43.0


From 48ffc696d8a41b40d2772a4ca81753702f8dfb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 07/46] fix: do not read past the end of a truncated Bopomofo
 string

---
 src/Engine/Mandarin/Mandarin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Engine/Mandarin/Mandarin.cpp b/src/Engine/Mandarin/Mandarin.cpp
index e5a8152..4f2e7e6 100644
--- a/src/Engine/Mandarin/Mandarin.cpp
+++ b/src/Engine/Mandarin/Mandarin.cpp
@@ -25,6 +25,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <iterator>
 
 namespace Formosa {
 namespace Mandarin {
@@ -603,7 +604,7 @@ const BPMF BPMF::FromComposedString(const std::string& str) {
     }
     // NOLINTEND(readability-magic-numbers)
 
-    if (iter + (utf8_length - 1) == str.end()) {
+    if (std::distance(iter, str.end()) < utf8_length) {
       break;
     }
 
-- 
2.43.0


From f54c4a17e628354153e8657714a5b5a7bc8490bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 08/46] fix: leave Hanyu Pinyin mode when another keyboard
 layout is set

---
 src/Engine/Mandarin/Mandarin.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index b797e0a..06ab152 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -375,9 +375,10 @@ class BopomofoReadingBuffer {
   void setKeyboardLayout(const BopomofoKeyboardLayout* layout) {
     layout_ = layout;
 
-    if (layout == BopomofoKeyboardLayout::HanyuPinyinLayout()) {
-      pinyin_mode_ = true;
-      pinyin_sequence_ = "";
+    bool pinyin_mode = (layout == BopomofoKeyboardLayout::HanyuPinyinLayout());
+    if (pinyin_mode != pinyin_mode_) {
+      pinyin_mode_ = pinyin_mode;
+      clear();
     }
   }
 
-- 
2.43.0


From 7e3269433a47c57191bf68655a7da69b05b44fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 09/46] fix: cancelling a menu with nothing composed leads to
 the empty state

---
 src/KeyHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 7dff5cb..c51bbe5 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -570,6 +570,11 @@ void KeyHandler::candidatePanelCancelled(size_t originalCursor,
     stateCallback(std::move(emptyIgnorePreviousState));
     return;
   }
+  if (grid_.length() == 0) {
+    // A menu such as the feature menu was cancelled with nothing being composed.
+    stateCallback(std::make_unique<InputStates::EmptyIgnoringPrevious>());
+    return;
+  }
   grid_.setCursor(originalCursor);
   stateCallback(buildInputtingState());
 }
-- 
2.43.0


From 9368de2c528a472f319bb88ba0d6b53f9237f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 10/46] fix: Shift+Space must not drop the reading being typed

---
 src/KeyHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index c51bbe5..8c20718 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -245,7 +245,7 @@ bool KeyHandler::handle(Key key, McBopomofo::InputState* state,
       walk();
       stateCallback(buildInputtingState());
     } else {
-      if (grid_.length() != 0) {
+      if (grid_.length() != 0 || !reading_.isEmpty()) {
         auto inputtingState = buildInputtingState();
         // Steal the composingBuffer built by the inputting state.
         auto committingState = std::make_unique<InputStates::Committing>(
-- 
2.43.0


From 9d012b2125906dd7b7bbe67ca08468345c9ce31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 11/46] fix: Shift+Space commits the space in Plain Bopomofo
 mode

---
 src/KeyHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 8c20718..baac543 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -240,7 +240,8 @@ bool KeyHandler::handle(Key key, McBopomofo::InputState* state,
 
   // Shift + Space.
   if (key.ascii == Key::SPACE && key.shiftPressed) {
-    if (putLowercaseLettersToComposingBuffer_) {
+    if (putLowercaseLettersToComposingBuffer_ &&
+        inputMode_ != InputMode::PlainBopomofo) {
       grid_.insertReading(" ");
       walk();
       stateCallback(buildInputtingState());
-- 
2.43.0


From ce649520402871819174d0fa44a4b796178ea0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 12/46] fix: cursor keys must not leak while associated phrases
 are offered

---
 src/KeyHandler.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index baac543..8dfd3fb 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -869,8 +869,7 @@ bool KeyHandler::handleTabKey(Key key, McBopomofo::InputState* state,
 bool KeyHandler::handleCursorKeys(Key key, McBopomofo::InputState* state,
                                   const StateCallback& stateCallback,
                                   const ErrorCallback& errorCallback) {
-  if (dynamic_cast<InputStates::Inputting*>(state) == nullptr &&
-      dynamic_cast<InputStates::Marking*>(state) == nullptr) {
+  if (dynamic_cast<InputStates::NotEmpty*>(state) == nullptr) {
     return false;
   }
   size_t markBeginCursorIndex = grid_.cursor();
-- 
2.43.0


From 4f0e23c913ee02d5e89bd2f6ecab0a97e1f0d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 13/46] fix: a web dictionary lookup must not leave the
 committed text behind

---
 src/KeyHandler.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 8dfd3fb..cd812dd 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -557,8 +557,16 @@ void KeyHandler::candidateAssociatedPhraseSelected(
 void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
                                            InputState* currentState,
                                            StateCallback stateCallback) {
-  dictionaryServices_->lookup(std::move(phrase), index, currentState,
-                              stateCallback);
+  dictionaryServices_->lookup(
+      std::move(phrase), index, currentState,
+      [this, &stateCallback](std::unique_ptr<InputState> next) {
+        // The composition is committed on entering Empty, so it must not be
+        // kept for the next key.
+        if (dynamic_cast<InputStates::Empty*>(next.get()) != nullptr) {
+          reset();
+        }
+        stateCallback(std::move(next));
+      });
 }
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
-- 
2.43.0


From 9c7901d94a85ee8f1fcd0d373ba3a855812513de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 14/46] fix: do not accept a marked phrase that is empty or has
 spaces

---
 src/KeyHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index cd812dd..6b043d4 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1347,6 +1347,11 @@ std::unique_ptr<InputStates::Marking> KeyHandler::buildMarkingState(
     status = localizedStrings_->syllablesRequired(kMinValidMarkingReadingCount);
   } else if (readings.size() > kMaxValidMarkingReadingCount) {
     status = localizedStrings_->syllablesMaximum(kMaxValidMarkingReadingCount);
+  } else if (marked.empty() ||
+             marked.find(kSpaceSeparator) != std::string::npos ||
+             readingValue.find(kSpaceSeparator) != std::string::npos) {
+    // Neither an empty phrase nor one with spaces can be stored.
+    status = localizedStrings_->syllablesRequired(kMinValidMarkingReadingCount);
   } else if (MarkedPhraseExists(lm_, readingValue, marked)) {
     status = localizedStrings_->phraseAlreadyExists();
   } else {
-- 
2.43.0


From 0313426f584f1600c495a86c26034a4a66dd6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 15/46] fix: do not half insert an associated phrase with an
 unknown reading

---
 src/KeyHandler.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 6b043d4..249b0f1 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1553,6 +1553,18 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
     return;
   }
 
+  // All of the remaining readings must be acceptable, or none is inserted.
+  std::vector<std::string> splitReadings =
+      AssociatedPhrasesV2::SplitReadings(associatedPhraseReading);
+  size_t splitReadingsSize = splitReadings.size();
+  size_t prefixReadingsSize =
+      AssociatedPhrasesV2::SplitReadings(prefixReading).size();
+  for (size_t i = prefixReadingsSize; i < splitReadingsSize; i++) {
+    if (!lm_->hasUnigrams(splitReadings[i])) {
+      return;
+    }
+  }
+
   // Unlike actualCandidateCursorIndex() which takes the Hanyin/MS IME cursor
   // modes into consideration, prefixCursorIndex is *already* the actual node
   // position in the grid. The only boundary condition is when prefixCursorIndex
@@ -1610,9 +1622,6 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
       McBopomofo::Split(associatedPhraseValue);
 
   size_t nodeSpanningLength = (*nodeIter)->spanningLength();
-  std::vector<std::string> splitReadings =
-      AssociatedPhrasesV2::SplitReadings(associatedPhraseReading);
-  size_t splitReadingsSize = splitReadings.size();
   if (nodeSpanningLength >= splitReadingsSize) {
     // Shouldn't happen
     return;
-- 
2.43.0


From 4fe1151648bc6fc0122a16adc70488eced7c396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 16/46] fix: an inserted associated phrase must show the chosen
 characters

---
 src/KeyHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 249b0f1..49090be 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1628,13 +1628,14 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   }
 
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
+    size_t insertedIndex = accumulatedCursor;
     grid_.insertReading(splitReadings[i]);
     ++accumulatedCursor;
     // For each node, we assign the value of the corresponding phrase.
     // If the phrase is not found in the phrase database, we perform a fallback
     // instead.
     if (i < associatedPhraseValues.size()) {
-      grid_.overrideCandidate(accumulatedCursor, associatedPhraseValues[i]);
+      grid_.overrideCandidate(insertedIndex, associatedPhraseValues[i]);
     }
     grid_.setCursor(accumulatedCursor);
   }
-- 
2.43.0


From 6e67ba7e99c5d49aa110316de6074c2e37039e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 17/46] fix: an associated phrase of a part of a longer phrase
 must be inserted

---
 src/KeyHandler.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 49090be..f5cb3a3 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1590,11 +1590,13 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   // values after the next walk, since the underlying reading is now a-bcef-d
   // and that does not necessary guarantee that A and D will be there.
   std::vector<std::string> originalNodeValues = Split((*nodeIter)->value());
+  bool splitPinned = false;
   if (originalNodeValues.size() == (*nodeIter)->spanningLength()) {
     // Only performs this if the condition is satisfied.
+    splitPinned = true;
     size_t overrideIndex = accumulatedCursor - (*nodeIter)->spanningLength();
     for (const auto& value : originalNodeValues) {
-      grid_.overrideCandidate(overrideIndex, value);
+      splitPinned = grid_.overrideCandidate(overrideIndex, value) && splitPinned;
       ++overrideIndex;
     }
   }
@@ -1604,10 +1606,14 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   // associated phrase.
   Formosa::Gramambular2::ReadingGrid::Candidate prefixCandidate{prefixReading,
                                                                 prefixValue};
-  if (!grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate)) {
+  bool prefixPinned =
+      grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate);
+  walk();
+  // The prefix may be just a part of a longer phrase and not be a phrase on its
+  // own. In that case the characters pinned above stand for it.
+  if (!prefixPinned && !splitPinned) {
     return;
   }
-  walk();
 
   // Now we've set ourselves up. Because associated phrases require the strict
   // one-reading-for-one-value rule, we can comfortably count how many readings
@@ -1621,7 +1627,8 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   std::vector<std::string> associatedPhraseValues =
       McBopomofo::Split(associatedPhraseValue);
 
-  size_t nodeSpanningLength = (*nodeIter)->spanningLength();
+  size_t nodeSpanningLength =
+      prefixPinned ? (*nodeIter)->spanningLength() : prefixReadingsSize;
   if (nodeSpanningLength >= splitReadingsSize) {
     // Shouldn't happen
     return;
-- 
2.43.0


From 7b859be1c6e7684e41aaffe3c11c91613df38112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 18/46] fix: a malformed score in a data file must not end the
 program

std::stod() throws on text that is no number or out of range, which nothing
catches, so a truncated or damaged data file takes down the whole fcitx.
---
 src/Engine/AssociatedPhrasesV2.cpp | 2 +-
 src/Engine/ParselessLM.cpp         | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Engine/AssociatedPhrasesV2.cpp b/src/Engine/AssociatedPhrasesV2.cpp
index bd6f8c4..d5bfaae 100644
--- a/src/Engine/AssociatedPhrasesV2.cpp
+++ b/src/Engine/AssociatedPhrasesV2.cpp
@@ -57,7 +57,7 @@ static double GetScoreInRow(const std::string_view& v) {
     return std::numeric_limits<double>::lowest();
   }
 
-  return std::stod(std::string(it, end));
+  return std::strtod(std::string(it, end).c_str(), nullptr);
 }
 
 // Parse an associated phrases entry to the Phrase struct.
diff --git a/src/Engine/ParselessLM.cpp b/src/Engine/ParselessLM.cpp
index 2cd6211..e2669f0 100644
--- a/src/Engine/ParselessLM.cpp
+++ b/src/Engine/ParselessLM.cpp
@@ -28,6 +28,7 @@
 #include <sys/stat.h>
 #include <unistd.h>
 
+#include <cstdlib>
 #include <memory>
 #include <string_view>
 #include <utility>
@@ -101,7 +102,7 @@ ParselessLM::getUnigrams(const std::string& key) {
     }
 
     if (it != row.end()) {
-      score = std::stod(std::string(it, row.end()));
+      score = std::strtod(std::string(it, row.end()).c_str(), nullptr);
     }
     results.emplace_back(std::move(value), score);
   }
@@ -160,7 +161,7 @@ std::vector<ParselessLM::FoundReading> ParselessLM::getReadings(
     }
 
     if (it != row.end()) {
-      score = std::stod(std::string(it, row.end()));
+      score = std::strtod(std::string(it, row.end()).c_str(), nullptr);
     }
     results.emplace_back(ParselessLM::FoundReading{key, score});
   }
-- 
2.43.0


From 12c34746435827ddbc92cdc3cf6e98228f38ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 19/46] fix: create the user data directory when it does not
 exist

---
 src/LanguageModelLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 51d270d..547a3bf 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -88,7 +88,7 @@ LanguageModelLoader::LanguageModelLoader(
   }
 
   userDataPath += "/mcbopomofo";
-  if (!std::filesystem::exists(userDataPath), err) {
+  if (!std::filesystem::exists(userDataPath, err)) {
     bool result = std::filesystem::create_directory(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
-- 
2.43.0


From 455c9e0c0e7b4d6b43fdefb41d19d744cc20cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 20/46] fix: create the parents of the fcitx5 user data
 directory too

---
 src/LanguageModelLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 547a3bf..0dc93af 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -76,7 +76,7 @@ LanguageModelLoader::LanguageModelLoader(
 
   [[maybe_unused]] std::error_code err;
   if (!std::filesystem::exists(userDataPath, err)) {
-    bool result = std::filesystem::create_directory(userDataPath, err);
+    bool result = std::filesystem::create_directories(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
           << "Created fcitx5 user data directory: " << userDataPath;
-- 
2.43.0


From ef71c0d4c9a00695638986cfee93d89a8bb82124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 21/46] fix: add a user phrase on a line of its own

---
 src/LanguageModelLoader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 0dc93af..16e8fcd 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -136,8 +136,18 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
     return;
   }
 
-  // TODO(unassigned): Guard against the case where the last byte is not "\n"?
+  // The file may have been edited by hand and its last line may not be ended.
+  bool lastLineEnded = true;
+  std::ifstream ifs(userPhrasesPath_.path(), std::ios_base::binary);
+  if (ifs.seekg(-1, std::ios_base::end)) {
+    lastLineEnded = ifs.get() == '\n';
+  }
+  ifs.close();
+
   std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);
+  if (!lastLineEnded) {
+    ofs << "\n";
+  }
   ofs << phrase << " " << reading << "\n";
   ofs.close();
 
-- 
2.43.0


From 140ad153bd3dd9ef79057b145378366b5a97eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 22/46] fix: take back a user phrase that could not be written
 entirely

---
 src/LanguageModelLoader.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 16e8fcd..f12d42b 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -144,12 +144,26 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
   }
   ifs.close();
 
+  std::error_code err;
+  const auto originalSize =
+      std::filesystem::file_size(userPhrasesPath_.path(), err);
+  if (err) {
+    FCITX_MCBOPOMOFO_WARN() << "Not writing user phrases: not a regular file";
+    return;
+  }
+
   std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);
   if (!lastLineEnded) {
     ofs << "\n";
   }
   ofs << phrase << " " << reading << "\n";
   ofs.close();
+  if (!ofs) {
+    FCITX_MCBOPOMOFO_WARN() << "Failed to write user phrase: " << phrase;
+    // Take back what may have been written of the line.
+    std::filesystem::resize_file(userPhrasesPath_.path(), originalSize, err);
+    return;
+  }
 
   FCITX_MCBOPOMOFO_INFO() << "Added user phrase: " << phrase
                           << ", reading: " << reading;
-- 
2.43.0


From e3779cfbcb6f6890ee2384160c27c383d9d8a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 23/46] fix: a user phrase added within a timestamp's
 resolution takes effect

---
 src/LanguageModelLoader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index f12d42b..64449dd 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -167,6 +167,13 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
 
   FCITX_MCBOPOMOFO_INFO() << "Added user phrase: " << phrase
                           << ", reading: " << reading;
+
+  // Always load the added phrase: if the file has just been written, its
+  // timestamp may be the same as at the last check.
+  userPhrasesPath_.checkTimestamp();
+  excludedPhrasesPath_.checkTimestamp();
+  lm_->loadUserPhrases(userPhrasesPath_.path().c_str(),
+                       excludedPhrasesPath_.path().c_str());
   reloadUserModelsIfNeeded();
 }
 
-- 
2.43.0


From 91dc5d115cb5aacf70ec829089de89db9cd72024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 24/46] fix: editing a user file in place must not disturb what
 is in use

---
 src/Engine/PhraseReplacementMap.cpp | 7 ++++++-
 src/Engine/PhraseReplacementMap.h   | 1 +
 src/Engine/UserPhrasesLM.cpp        | 7 ++++++-
 src/Engine/UserPhrasesLM.h          | 1 +
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Engine/PhraseReplacementMap.cpp b/src/Engine/PhraseReplacementMap.cpp
index 9a4739a..79cfc09 100644
--- a/src/Engine/PhraseReplacementMap.cpp
+++ b/src/Engine/PhraseReplacementMap.cpp
@@ -39,13 +39,18 @@ bool PhraseReplacementMap::open(const char* path) {
     return false;
   }
 
+  // The user may edit the file in place while it is in use, so only work with a
+  // copy of the content.
+  content_.assign(mmapedFile_.data(), mmapedFile_.length());
+
   // MemoryMappedFile self-closes, and so this is fine.
-  return load(mmapedFile_.data(), mmapedFile_.length());
+  return load(content_.data(), content_.length());
 }
 
 void PhraseReplacementMap::close() {
   keyValueMap_.clear();
   mmapedFile_.close();
+  content_.clear();
 }
 
 bool PhraseReplacementMap::load(const char* data, size_t length) {
diff --git a/src/Engine/PhraseReplacementMap.h b/src/Engine/PhraseReplacementMap.h
index 1d2ce7b..be03364 100644
--- a/src/Engine/PhraseReplacementMap.h
+++ b/src/Engine/PhraseReplacementMap.h
@@ -52,6 +52,7 @@ class PhraseReplacementMap {
  protected:
   std::map<std::string_view, std::string_view> keyValueMap_;
   MemoryMappedFile mmapedFile_;
+  std::string content_;
 };
 
 }  // namespace McBopomofo
diff --git a/src/Engine/UserPhrasesLM.cpp b/src/Engine/UserPhrasesLM.cpp
index 7d6e57f..2116368 100644
--- a/src/Engine/UserPhrasesLM.cpp
+++ b/src/Engine/UserPhrasesLM.cpp
@@ -40,13 +40,18 @@ bool UserPhrasesLM::open(const char* path) {
     return false;
   }
 
+  // The user may edit the file in place while it is in use, so only work with a
+  // copy of the content.
+  content_.assign(mmapedFile_.data(), mmapedFile_.length());
+
   // MemoryMappedFile self-closes, and so this is fine.
-  return load(mmapedFile_.data(), mmapedFile_.length());
+  return load(content_.data(), content_.length());
 }
 
 void UserPhrasesLM::close() {
   keyRowMap.clear();
   mmapedFile_.close();
+  content_.clear();
 }
 
 bool UserPhrasesLM::load(const char* data, size_t length) {
diff --git a/src/Engine/UserPhrasesLM.h b/src/Engine/UserPhrasesLM.h
index e58e048..618d732 100644
--- a/src/Engine/UserPhrasesLM.h
+++ b/src/Engine/UserPhrasesLM.h
@@ -58,6 +58,7 @@ class UserPhrasesLM : public Formosa::Gramambular2::LanguageModel {
 
  protected:
   MemoryMappedFile mmapedFile_;
+  std::string content_;
   std::map<std::string_view, std::vector<std::string_view>> keyRowMap;
 };
 
-- 
2.43.0


From 237c60130d4c50dc30dd6baa3396805763be297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 25/46] fix: load a user file that comes back with its old
 timestamp

---
 src/LanguageModelLoader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 64449dd..76d5030 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -186,6 +186,9 @@ void LanguageModelLoader::reloadUserModelsIfNeeded() {
     shouldReloadUserPhrases = true;
     userPhrasesPath_.checkTimestamp();
     FCITX_MCBOPOMOFO_INFO() << "Will load: " << userPhrasesPath_.path();
+  } else if (!userPhrasesPath_.pathExists()) {
+    // Reset the timestamp, so that the file is loaded when it comes back.
+    userPhrasesPath_.checkTimestamp();
   }
 
   if (excludedPhrasesPath_.pathExists() &&
@@ -193,6 +196,9 @@ void LanguageModelLoader::reloadUserModelsIfNeeded() {
     shouldReloadUserPhrases = true;
     excludedPhrasesPath_.checkTimestamp();
     FCITX_MCBOPOMOFO_INFO() << "Will load: " << excludedPhrasesPath_.path();
+  } else if (!excludedPhrasesPath_.pathExists()) {
+    // Reset the timestamp, so that the file is loaded when it comes back.
+    excludedPhrasesPath_.checkTimestamp();
   }
 
   // Phrases replacement is considered an advanced feature. We only enable
-- 
2.43.0


From 6d1a547eb7e45dd13a24bb3bc9052a5c21f948cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:44 +0000
Subject: [PATCH 26/46] fix: only replace the markers in the address of a
 dictionary service

---
 src/DictionaryService.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 9cf8e18..b4fcd3a 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -92,8 +92,13 @@ class HttpBasedDictionaryService : public McBopomofo::DictionaryService {
               size_t /*unused*/,
               const McBopomofo::StateCallback& stateCallback) override {
     std::string url = urlTemplate_;
-    std::string encoded = "(encoded)";
-    url.replace(url.find(encoded), url.length(), urlEncode(phrase));
+    const std::string marker = "(encoded)";
+    const std::string encoded = urlEncode(phrase);
+    size_t pos = 0;
+    while ((pos = url.find(marker, pos)) != std::string::npos) {
+      url.replace(pos, marker.length(), encoded);
+      pos += encoded.length();
+    }
     fcitx::startProcess({"xdg-open", url});
     // Since the input method launches a web browser, we just
     // change the state to close the candidate window.
-- 
2.43.0


From f6fc2216bbb80b251b3ab1bc58f7dd570e308bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 27/46] fix: skip a dictionary service whose name or address is
 null

---
 src/DictionaryService.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index b4fcd3a..6328a08 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -205,7 +205,8 @@ void McBopomofo::DictionaryServices::load() {
       struct json_object* name;
       struct json_object* url_template;
       if (json_object_object_get_ex(element, "name", &name) &&
-          json_object_object_get_ex(element, "url_template", &url_template)) {
+          json_object_object_get_ex(element, "url_template", &url_template) &&
+          name != nullptr && url_template != nullptr) {
         std::string name_str = std::string(json_object_get_string(name));
         std::string url_template_str =
             std::string(json_object_get_string(url_template));
-- 
2.43.0


From b5a92596c76662be7e45b4e57e30442306a0e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 28/46] fix: ignore dictionary services that are not in an
 array

---
 src/DictionaryService.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 6328a08..084872d 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -198,7 +198,8 @@ void McBopomofo::DictionaryServices::load() {
     return;
   }
   struct json_object* servicesArray;
-  if (json_object_object_get_ex(json_obj, "services", &servicesArray)) {
+  if (json_object_object_get_ex(json_obj, "services", &servicesArray) &&
+      json_object_is_type(servicesArray, json_type_array)) {
     array_list* list = json_object_get_array(servicesArray);
     for (size_t i = 0; i < array_list_length(list); i++) {
       auto* element = (struct json_object*)array_list_get_idx(list, i);
-- 
2.43.0


From 51543956f6ce53ced370f421d0a8913262c46ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 29/46] fix: clear the panel when the input context loses the
 focus or is reset

The engine went back to the empty state but left the preedit and the
candidate window in the input context's panel. The text the framework had
already committed was shown again, and committed again at the next focus
change, and the words in the window pointed to a state that was gone.
---
 src/McBopomofo.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 9d5e77e..3ebaae4 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -605,7 +605,15 @@ void McBopomofoEngine::reset(const fcitx::InputMethodEntry& /*unused*/,
     // enterNewState() with Empty state, either, because that would trigger
     // commit of existing preedit buffer, resulting in double commit of the same
     // text.
+    //
+    // By the time we get here the force-commit is done, and the panel's content
+    // has to go: what is left there would be shown, and committed again, the
+    // next time this input context is used.
     state_ = std::make_unique<InputStates::Empty>();
+    auto* context = event.inputContext();
+    context->inputPanel().reset();
+    context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
+    context->updatePreedit();
   } else {
     enterNewState(event.inputContext(), std::make_unique<InputStates::Empty>());
   }
-- 
2.43.0


From 0fcd8563171d24366df6e9f7af118f5dab564ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:03 +0000
Subject: [PATCH 30/46] fix: make the number of selection keys follow its
 setting

The "Selection Keys Count" option was offered to the user and never read:
the pages always had nine candidates.
---
 src/McBopomofo.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 3ebaae4..809153f 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -1254,7 +1254,6 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
     };
     candidateList->setLabels(labels);
 #endif
-    candidateList->setPageSize(static_cast<int>(selectionKeys_.size()));
   } else {
     if (keysConfig == SelectionKeys::Key_asdfghjkl) {
       selectionKeys_ = fcitx::Key::keyListFromString("a s d f g h j k l");
@@ -1275,9 +1274,20 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_8);
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_9);
     }
+  }
+
+  // A page has as many candidates as the user wants selection keys.
+  auto keysCount = static_cast<size_t>(config_.selectionKeysCount.value());
+  if (keysCount < selectionKeys_.size()) {
+    selectionKeys_.resize(keysCount);
+  }
+  if (keysCount < numpadSelectionKeys_.size()) {
+    numpadSelectionKeys_.resize(keysCount);
+  }
+  if (!useShiftKey) {
     candidateList->setSelectionKey(selectionKeys_);
-    candidateList->setPageSize(static_cast<int>(selectionKeys_.size()));
   }
+  candidateList->setPageSize(static_cast<int>(selectionKeys_.size()));
 
   fcitx::CandidateLayoutHint layoutHint = getCandidateLayoutHint();
   candidateList->setLayoutHint(layoutHint);
-- 
2.43.0


From 2322e8dae34c2b4b49aa717ca4d4948c2ee53871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 31/46] fix: read the highlighted candidate's place before
 leaving its window

Going back from the dictionary menu or the associated phrases to the
candidate window read the place of the candidate from a state that the
callback had just destroyed.
---
 src/McBopomofo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 809153f..9b66532 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -896,6 +896,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* previous = selecting->previousState.get();
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       if (choosing != nullptr) {
+        // The callback replaces the current state.
+        size_t index = selecting->selectedCandidateIndex;
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
         stateCallback(std::move(copy));
 
@@ -906,7 +908,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = selecting->selectedCandidateIndex;
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
 #ifndef USE_LEGACY_FCITX5_API
         maybeCandidateList->setPage(static_cast<int>(index) /
@@ -931,6 +932,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       auto* inputting = dynamic_cast<InputStates::Inputting*>(previous);
       if (choosing != nullptr) {
+        // The callback replaces the current state.
+        size_t index = associatedPhrases->selectedCandidateIndex;
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
         stateCallback(std::move(copy));
 
@@ -941,7 +944,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = associatedPhrases->selectedCandidateIndex;
 #ifndef USE_LEGACY_FCITX5_API
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
         maybeCandidateList->setPage(static_cast<int>(index) /
-- 
2.43.0


From 04e38349a9d9cbd52602d6fbf6828e611e26947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:27 +0000
Subject: [PATCH 32/46] fix: look up the highlighted candidate on the last page
 too

The place of the candidate to look up was computed with the number of
candidates on the current page, and the last page may have fewer than the
others: another candidate was looked up.
---
 src/McBopomofo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 9b66532..42eb557 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -804,7 +804,13 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       // Enter selecting dictionary service state.
       if (keyHandler_->hasDictionaryServices()) {
         int page = candidateList->currentPage();
+#ifdef USE_LEGACY_FCITX5_API
         int pageSize = candidateList->size();
+#else
+        // Note: size() is that of the current page, and the last one may be
+        // shorter than the others.
+        int pageSize = candidateList->pageSize();
+#endif
         int selectedCandidateIndex =
             page * pageSize + candidateList->cursorIndex();
         std::string phrase =
-- 
2.43.0


From c63ed16ddef2c40b33e655cad2cd86a2f9fd8513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 33/46] fix: give 9 for the 9 key of the numeric pad

The key was mapped to 4.
---
 src/McBopomofo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 42eb557..f43039c 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -155,7 +155,7 @@ static Key MapFcitxKey(const fcitx::Key& key) {
     case FcitxKey_KP_8:
       return Key::asciiKey('8', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_9:
-      return Key::asciiKey('4', shiftPressed, ctrlPressed, true);
+      return Key::asciiKey('9', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Decimal:
       return Key::asciiKey('.', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Add:
-- 
2.43.0


From bfd2f2c667e7f9ae88d7ca8725b1d3c5f4f13d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 34/46] fix: let the numeric pad pick and move in the candidate
 window

The Enter key of the numeric pad did nothing in candidate windows, and its Up
and Down keys did nothing in vertical ones, while its other arrow keys moved
the highlight and turned the pages.
---
 src/McBopomofo.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index f43039c..946daf0 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -867,10 +867,11 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
     // If it is the associated phrases mode, we need to check if the shift key
     // is pressed.
     returnPressed =
-        key.check(FcitxKey_Return, fcitx::KeyStates(fcitx::KeyState::Shift));
+        key.check(FcitxKey_Return, fcitx::KeyStates(fcitx::KeyState::Shift)) ||
+        key.check(FcitxKey_KP_Enter, fcitx::KeyStates(fcitx::KeyState::Shift));
   } else {
     // Otherwise, we just check if the return key is pressed.
-    returnPressed = key.check(FcitxKey_Return);
+    returnPressed = key.check(FcitxKey_Return) || key.check(FcitxKey_KP_Enter);
   }
 
   if (returnPressed) {
@@ -1002,12 +1003,14 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
   bool isVertical = (layoutHint == fcitx::CandidateLayoutHint::Vertical);
 
   if (isVertical) {
-    if (key.check(fcitx::Key(FcitxKey_Down))) {
+    if (key.check(fcitx::Key(FcitxKey_Down)) ||
+        key.check(fcitx::Key(FcitxKey_KP_Down))) {
       candidateList->toCursorMovable()->nextCandidate();
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
     }
-    if (key.check(fcitx::Key(FcitxKey_Up))) {
+    if (key.check(fcitx::Key(FcitxKey_Up)) ||
+        key.check(fcitx::Key(FcitxKey_KP_Up))) {
       candidateList->toCursorMovable()->prevCandidate();
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
-- 
2.43.0


From 6cd973bce89e32a0ccf95f231660edd8bef668cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 35/46] fix: pick from the shown page after the user interface
 turned it

When the user interface turns the page, no candidate of the page that's
shown is highlighted. Enter, Shift-Enter, "?" and the keys that make plain
Bopomofo pick the highlighted candidate then used -1 as its index, which
throws an exception or takes a candidate that isn't there. They use the
first candidate of the shown page now.
---
 src/McBopomofo.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 946daf0..3944b27 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -31,6 +31,7 @@
 #include <fmt/format.h>
 #include <notifications_public.h>  // from fcitx-module/notifications
 
+#include <algorithm>
 #include <memory>
 #include <sstream>
 #include <unordered_map>
@@ -174,6 +175,13 @@ static Key MapFcitxKey(const fcitx::Key& key) {
   return Key{};
 }
 
+// The place of the highlighted candidate in the page that is shown. When the
+// user interface has turned the page, the highlight is not in that page; what
+// the user sees is the page, and so it's the page's first candidate then.
+static int HighlightedIndex(const fcitx::CommonCandidateList* candidateList) {
+  return std::max(candidateList->cursorIndex(), 0);
+}
+
 // The candidate word for the standard candidates.
 class McBopomofoCandidateWord : public fcitx::CandidateWord {
  public:
@@ -812,7 +820,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         int pageSize = candidateList->pageSize();
 #endif
         int selectedCandidateIndex =
-            page * pageSize + candidateList->cursorIndex();
+            page * pageSize + HighlightedIndex(candidateList);
         std::string phrase =
             choosingCandidate->candidates[selectedCandidateIndex].value;
         std::unique_ptr<InputStates::ChoosingCandidate> copy =
@@ -832,7 +840,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
   if (keyHandler_->inputMode() == McBopomofo::InputMode::McBopomofo &&
       !shouldUseShiftKey && origKey.code() == kFcitxRawKeycode_Enter &&
       (origKey.states() & fcitx::KeyState::Shift)) {
-    int idx = candidateList->cursorIndex();
+    int idx = HighlightedIndex(candidateList);
     if (idx < candidateList->size()) {
       auto* choosingCandidate =
           dynamic_cast<InputStates::ChoosingCandidate*>(state_.get());
@@ -841,7 +849,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         size_t globalIndex =
             idx + candidateList->size() * candidateList->currentPage();
 #else
-        size_t globalIndex = candidateList->globalCursorIndex();
+        size_t globalIndex =
+            idx + candidateList->pageSize() * candidateList->currentPage();
 #endif
         auto prevState = std::make_unique<InputStates::ChoosingCandidate>(
             *choosingCandidate);
@@ -875,7 +884,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
   }
 
   if (returnPressed) {
-    int idx = candidateList->cursorIndex();
+    int idx = HighlightedIndex(candidateList);
     if (idx < candidateList->size()) {
 #ifdef USE_LEGACY_FCITX5_API
       candidateList->candidate(idx)->select(context);
@@ -1116,7 +1125,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         keyHandler_->handleCandidateKeyForTraditionalBopomofoIfRequired(
             MapFcitxKey(key),
             [candidateList, context] {
-              auto idx = candidateList->cursorIndex();
+              int idx = HighlightedIndex(candidateList);
               if (idx < candidateList->size()) {
 #ifdef USE_LEGACY_FCITX5_API
                 candidateList->candidate(idx)->select(context);
-- 
2.43.0


From 8ce544cf6d4b83c6819f344bdc33b6f70c462989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 36/46] fix: highlight the first candidate of the page that's
 turned to

When the user interface had turned away from the page of the highlight, the
keys that turned back to it moved the highlight on instead: to the second
candidate, or to the next page, so that the page did not turn at all.
---
 src/McBopomofo.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 3944b27..cedbf12 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -182,6 +182,18 @@ static int HighlightedIndex(const fcitx::CommonCandidateList* candidateList) {
   return std::max(candidateList->cursorIndex(), 0);
 }
 
+// Highlights the first candidate of the page that was just turned to.
+static void HighlightFirstOfPage(fcitx::CommonCandidateList* candidateList) {
+#ifdef USE_LEGACY_FCITX5_API
+  candidateList->toCursorMovable()->nextCandidate();
+#else
+  // Note: nextCandidate() goes there only if the highlight isn't in that page
+  // already, as it may be after the user interface has turned the page.
+  candidateList->setGlobalCursorIndex(candidateList->currentPage() *
+                                      candidateList->pageSize());
+#endif
+}
+
 // The candidate word for the standard candidates.
 class McBopomofoCandidateWord : public fcitx::CandidateWord {
  public:
@@ -1000,10 +1012,10 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
 
     if (candidateList->hasNext()) {
       candidateList->next();
-      candidateList->toCursorMovable()->nextCandidate();
+      HighlightFirstOfPage(candidateList);
     } else if (candidateList->currentPage() > 0) {
       candidateList->setPage(0);
-      candidateList->toCursorMovable()->nextCandidate();
+      HighlightFirstOfPage(candidateList);
     }
     context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
     return true;
@@ -1031,10 +1043,10 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         key.checkKeyList(instance_->globalConfig().defaultNextPage())) {
       if (candidateList->hasNext()) {
         candidateList->next();
-        candidateList->toCursorMovable()->nextCandidate();
+        HighlightFirstOfPage(candidateList);
       } else if (candidateList->currentPage() > 0) {
         candidateList->setPage(0);
-        candidateList->toCursorMovable()->nextCandidate();
+        HighlightFirstOfPage(candidateList);
       }
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
@@ -1046,13 +1058,13 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         key.checkKeyList(instance_->globalConfig().defaultPrevPage())) {
       if (candidateList->hasPrev()) {
         candidateList->prev();
-        candidateList->toCursorMovable()->nextCandidate();
+        HighlightFirstOfPage(candidateList);
       } else {
         int totalPages = candidateList->totalPages();
         if (totalPages > 0) {
           candidateList->setPage(totalPages - 1);
         }
-        candidateList->toCursorMovable()->nextCandidate();
+        HighlightFirstOfPage(candidateList);
       }
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
@@ -1077,10 +1089,10 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         key.checkKeyList(instance_->globalConfig().defaultNextPage())) {
       if (candidateList->hasNext()) {
         candidateList->next();
-        candidateList->toCursorMovable()->nextCandidate();
+        HighlightFirstOfPage(candidateList);
       } else if (candidateList->currentPage() > 0) {
         candidateList->setPage(0);
-        candidateList->toCursorMovable()->nextCandidate();
+        HighlightFirstOfPage(candidateList);
       }
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
@@ -1092,13 +1104,13 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         key.checkKeyList(instance_->globalConfig().defaultPrevPage())) {
       if (candidateList->hasPrev()) {
         candidateList->prev();
-        candidateList->toCursorMovable()->nextCandidate();
+        HighlightFirstOfPage(candidateList);
       } else {
         int totalPages = candidateList->totalPages();
         if (totalPages > 0) {
           candidateList->setPage(totalPages - 1);
         }
-        candidateList->toCursorMovable()->nextCandidate();
+        HighlightFirstOfPage(candidateList);
       }
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
-- 
2.43.0


From 3b35b28a57169679a80de9b4c7da7bb80a96f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 37/46] fix: let the words of a window keep what they need

The words of the dictionary menu and of the feature menu pointed to the
engine's current state, which all input contexts share. With a second input
context in use, that state could be gone when a word was selected.
---
 src/InputState.h   |  4 ++--
 src/McBopomofo.cpp | 49 +++++++++++++++++++++-------------------------
 2 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/InputState.h b/src/InputState.h
index 6e95b64..ed9a924 100644
--- a/src/InputState.h
+++ b/src/InputState.h
@@ -293,8 +293,8 @@ struct SelectingFeature : InputState {
 
   explicit SelectingFeature(std::function<std::string(std::string)> converter)
       : converter(std::move(converter)) {
-    features.emplace_back("日期與時間", [this]() {
-      return std::make_unique<SelectingDateMacro>(this->converter);
+    features.emplace_back("日期與時間", [converter = this->converter]() {
+      return std::make_unique<SelectingDateMacro>(converter);
     });
     features.emplace_back("標題數字",
                           []() { return std::make_unique<EnclosingNumber>(); });
diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index cedbf12..4e0a703 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -255,48 +255,47 @@ class McBopomofoDictionaryServiceWord : public fcitx::CandidateWord {
  public:
   McBopomofoDictionaryServiceWord(
       fcitx::Text displayText, size_t index,
-      InputStates::SelectingDictionary* currentState,
+      std::shared_ptr<InputStates::SelectingDictionary> currentState,
       std::shared_ptr<KeyHandler> keyHandler,
       KeyHandler::StateCallback callback)
       : fcitx::CandidateWord(std::move(displayText)),
         index_(index),
-        currentState_(currentState),
+        currentState_(std::move(currentState)),
         keyHandler_(std::move(keyHandler)),
         stateCallback_(std::move(callback)) {}
 
   void select(fcitx::InputContext* /*unused*/) const override {
-    keyHandler_->dictionaryServiceSelected(
-        currentState_->selectedPhrase, index_, currentState_, stateCallback_);
+    // The list and this word may be gone before the call returns.
+    std::shared_ptr<InputStates::SelectingDictionary> state = currentState_;
+    keyHandler_->dictionaryServiceSelected(state->selectedPhrase, index_,
+                                           state.get(), stateCallback_);
   }
 
  private:
   size_t index_;
-  InputStates::SelectingDictionary* currentState_;
+  // The engine's state may be another one by the time a word is selected: it is
+  // shared by all input contexts, and the word belongs to the list of one.
+  std::shared_ptr<InputStates::SelectingDictionary> currentState_;
   std::shared_ptr<KeyHandler> keyHandler_;
   KeyHandler::StateCallback stateCallback_;
 };
 
 class McBopomofoFeatureWord : public fcitx::CandidateWord {
  public:
-  McBopomofoFeatureWord(fcitx::Text displayText, size_t index,
-                        InputStates::SelectingFeature* currentState,
-                        std::shared_ptr<KeyHandler> keyHandler,
+  McBopomofoFeatureWord(fcitx::Text displayText,
+                        InputStates::SelectingFeature::Feature feature,
                         KeyHandler::StateCallback callback)
       : fcitx::CandidateWord(std::move(displayText)),
-        index_(index),
-        currentState_(currentState),
-        keyHandler_(std::move(keyHandler)),
+        feature_(std::move(feature)),
         stateCallback_(std::move(callback)) {}
 
   void select(fcitx::InputContext* /*unused*/) const override {
-    auto nextState = currentState_->nextState(index_);
-    stateCallback_(std::move(nextState));
+    stateCallback_(feature_.nextState());
   }
 
  private:
-  size_t index_;
-  InputStates::SelectingFeature* currentState_;
-  std::shared_ptr<KeyHandler> keyHandler_;
+  // See the comment in McBopomofoDictionaryServiceWord.
+  InputStates::SelectingFeature::Feature feature_;
   KeyHandler::StateCallback stateCallback_;
 };
 
@@ -1377,19 +1376,19 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
     }
   } else if (selectingDictionary != nullptr) {
     size_t index = 0;
+    auto state = std::make_shared<InputStates::SelectingDictionary>(
+        *selectingDictionary);
     for (const auto& menuItem : selectingDictionary->menu) {
       std::string displayText = menuItem;
 
 #ifdef USE_LEGACY_FCITX5_API
       fcitx::CandidateWord* candidate = new McBopomofoDictionaryServiceWord(
-          fcitx::Text(displayText), index, selectingDictionary, keyHandler_,
-          callback);
+          fcitx::Text(displayText), index, state, keyHandler_, callback);
       candidateList->append(candidate);
 #else
       std::unique_ptr<fcitx::CandidateWord> candidate =
           std::make_unique<McBopomofoDictionaryServiceWord>(
-              fcitx::Text(displayText), index, selectingDictionary, keyHandler_,
-              callback);
+              fcitx::Text(displayText), index, state, keyHandler_, callback);
       candidateList->append(std::move(candidate));
 #endif
       index++;
@@ -1454,23 +1453,19 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
 #endif
     }
   } else if (selectingFeature != nullptr) {
-    size_t index = 0;
     for (const auto& menuItem : selectingFeature->features) {
       std::string displayText = menuItem.name;
 
 #ifdef USE_LEGACY_FCITX5_API
-      fcitx::CandidateWord* candidate =
-          new McBopomofoFeatureWord(fcitx::Text(displayText), index,
-                                    selectingFeature, keyHandler_, callback);
+      fcitx::CandidateWord* candidate = new McBopomofoFeatureWord(
+          fcitx::Text(displayText), menuItem, callback);
       candidateList->append(candidate);
 #else
       std::unique_ptr<fcitx::CandidateWord> candidate =
           std::make_unique<McBopomofoFeatureWord>(fcitx::Text(displayText),
-                                                  index, selectingFeature,
-                                                  keyHandler_, callback);
+                                                  menuItem, callback);
       candidateList->append(std::move(candidate));
 #endif
-      index++;
     }
   } else if (selectingDateMacro != nullptr) {
     for (const auto& displayText : selectingDateMacro->menu) {
-- 
2.43.0


From 576c2cee53d982855780635466be06c94e720fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 38/46] fix: end the composition of another input context
 before using the next

All input contexts share the engine's state. With two of them in use without
one losing the focus to the other (they are in different focus groups, or in
none), or after one was destroyed, the keys of one changed and committed the
composition of the other, and its candidate window was used with a state
that did not fit it.
---
 src/McBopomofo.cpp | 27 +++++++++++++++++++++++++++
 src/McBopomofo.h   |  7 +++++++
 2 files changed, 34 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 4e0a703..5bb7141 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -526,6 +526,8 @@ void McBopomofoEngine::reloadConfig() {
 
 void McBopomofoEngine::activate(const fcitx::InputMethodEntry& entry,
                                 fcitx::InputContextEvent& event) {
+  leaveOtherContext(event.inputContext());
+
   McBopomofo::InputMode mode = entry.uniqueName() == "mcbopomofo-plain"
                                    ? McBopomofo::InputMode::PlainBopomofo
                                    : McBopomofo::InputMode::McBopomofo;
@@ -609,6 +611,11 @@ void McBopomofoEngine::activate(const fcitx::InputMethodEntry& entry,
 
 void McBopomofoEngine::reset(const fcitx::InputMethodEntry& /*unused*/,
                              fcitx::InputContextEvent& event) {
+  if (stateContext_.get() != event.inputContext()) {
+    // The composition, if there is one, is another input context's.
+    return;
+  }
+
   keyHandler_->reset();
 
   if (event.type() == fcitx::EventType::InputContextFocusOut ||
@@ -657,6 +664,8 @@ void McBopomofoEngine::keyEvent(const fcitx::InputMethodEntry& /*unused*/,
     return;
   }
 
+  leaveOtherContext(context);
+
   if (dynamic_cast<InputStates::ChoosingCandidate*>(state_.get()) != nullptr ||
       dynamic_cast<InputStates::SelectingDictionary*>(state_.get()) !=
           nullptr ||
@@ -1157,8 +1166,26 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
   return true;
 }
 
+void McBopomofoEngine::leaveOtherContext(fcitx::InputContext* context) {
+  fcitx::InputContext* owner = stateContext_.get();
+  if (owner == context) {
+    return;
+  }
+
+  keyHandler_->reset();
+  if (owner != nullptr &&
+      dynamic_cast<InputStates::Empty*>(state_.get()) == nullptr) {
+    enterNewState(owner, std::make_unique<InputStates::Empty>());
+  } else {
+    state_ = std::make_unique<InputStates::Empty>();
+  }
+  stateContext_ = context->watch();
+}
+
 void McBopomofoEngine::enterNewState(fcitx::InputContext* context,
                                      std::unique_ptr<InputState> newState) {
+  stateContext_ = context->watch();
+
   // Hold the previous state, and transfer the ownership of newState.
   std::unique_ptr<InputState> prevState = std::move(state_);
   state_ = std::move(newState);
diff --git a/src/McBopomofo.h b/src/McBopomofo.h
index 9f07d64..91dc185 100644
--- a/src/McBopomofo.h
+++ b/src/McBopomofo.h
@@ -217,6 +217,11 @@ class McBopomofoEngine : public fcitx::InputMethodEngine {
       const McBopomofo::KeyHandler::StateCallback& stateCallback,
       const McBopomofo::KeyHandler::ErrorCallback& errorCallback);
 
+  // The state and the key handler are shared by all input contexts. This ends a
+  // composition that was left in another input context than the one that is
+  // about to be used: the other one may not have lost the focus, or be gone.
+  void leaveOtherContext(fcitx::InputContext* context);
+
   // Handles state transitions.
   void enterNewState(fcitx::InputContext* context,
                      std::unique_ptr<InputState> newState);
@@ -252,6 +257,8 @@ class McBopomofoEngine : public fcitx::InputMethodEngine {
   std::shared_ptr<LanguageModelLoader> languageModelLoader_;
   std::shared_ptr<KeyHandler> keyHandler_;
   std::unique_ptr<InputState> state_;
+  // The input context that state_ is about.
+  fcitx::TrackableObjectReference<fcitx::InputContext> stateContext_;
   McBopomofoConfig config_;
   fcitx::KeyList selectionKeys_;
   fcitx::KeyList numpadSelectionKeys_;
-- 
2.43.0


From dd271c0c3b3883980c0d76dc30ce27ab510ef13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:44 +0000
Subject: [PATCH 39/46] fix: leave out phrases that are not valid UTF-8

fcitx throws an exception when it's given text that is not valid UTF-8, and
so typing the reading of a user phrase from a file in another encoding ended
fcitx.
---
 src/Engine/McBopomofoLM.cpp |  7 +++++++
 src/Engine/UTF8Helper.cpp   | 12 ++++++++++++
 src/Engine/UTF8Helper.h     |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index c610357..906207e 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -29,6 +29,7 @@
 #include <utility>
 #include <vector>
 
+#include "UTF8Helper.h"
 #include "gramambular2/reading_grid.h"
 
 namespace McBopomofo {
@@ -269,6 +270,12 @@ McBopomofoLM::filterAndTransformUnigrams(
       std::string replacement = externalConverter_(value);
       value = replacement;
     }
+    // A phrase that is not valid UTF-8, for example one from a file saved in
+    // another encoding, can neither be shown nor be committed.
+    if (!IsValidUTF8(value)) {
+      continue;
+    }
+
     if (insertedValues.find(value) == insertedValues.end()) {
       results.emplace_back(value, unigram.score());
       insertedValues.insert(value);
diff --git a/src/Engine/UTF8Helper.cpp b/src/Engine/UTF8Helper.cpp
index b19baad..b4f37fe 100644
--- a/src/Engine/UTF8Helper.cpp
+++ b/src/Engine/UTF8Helper.cpp
@@ -107,6 +107,18 @@ size_t CodePointCount(const std::string& s) {
   return c;
 }
 
+bool IsValidUTF8(const std::string& s) {
+  std::string::const_iterator i = s.cbegin();
+  std::string::const_iterator end = s.cend();
+  while (i != end) {
+    if (!DecodeUTF8(i, end)) {
+      return false;
+    }
+  }
+
+  return true;
+}
+
 std::string SubstringToCodePoints(const std::string& s, size_t cp) {
   size_t c = 0;
   std::string::const_iterator i = s.cbegin();
diff --git a/src/Engine/UTF8Helper.h b/src/Engine/UTF8Helper.h
index 19d8136..9d61ba3 100644
--- a/src/Engine/UTF8Helper.h
+++ b/src/Engine/UTF8Helper.h
@@ -34,6 +34,9 @@ namespace McBopomofo {
 // code points up to before that invalid sequence.
 size_t CodePointCount(const std::string& s);
 
+// Returns true if the entire string is valid UTF-8.
+bool IsValidUTF8(const std::string& s);
+
 // Clamp the string by the cp code points. If the string is shorter, the result
 // is a copy of s. If s contains some invalid UTF-8 sequence, the returned value
 // will be the string clamped up to before that invalid sequence.
-- 
2.43.0


From 8e3b7f240e813bd79bb46d1da0aedc6f04089805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 40/46] fix: keep the user's files whole when the add-phrase
 hook can't merge

---
 data/add-phrase-hook.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/add-phrase-hook.sh b/data/add-phrase-hook.sh
index 3419ffd..5e121fa 100644
--- a/data/add-phrase-hook.sh
+++ b/data/add-phrase-hook.sh
@@ -12,5 +12,7 @@ PHRASE_TEXT=$1
 git commit -m "Add ${PHRASE_TEXT}"
 
 # Push to remote repository.
-git pull --rebase origin master
+# When the changes can't be merged, go back to the files as they were: otherwise
+# they would be left with conflict markers and in the middle of the rebase.
+git pull --rebase origin master || git rebase --abort
 git push origin master
-- 
2.43.0


From 3a44d08adbd01f3758daccae537bf25d6c54d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 41/46] fix: run the add-phrase hook for one phrase at a time

---
 data/add-phrase-hook.sh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data/add-phrase-hook.sh b/data/add-phrase-hook.sh
index 5e121fa..b3244a0 100644
--- a/data/add-phrase-hook.sh
+++ b/data/add-phrase-hook.sh
@@ -1,5 +1,12 @@
 #!/bin/sh
 
+# One at a time: a phrase may be added while the hook for another one is still
+# running, and what git does to the files for one would be undone by the other.
+if [ -z "$MCBOPOMOFO_HOOK_LOCKED" ] && flock . true; then
+    export MCBOPOMOFO_HOOK_LOCKED=1
+    exec flock -o . /bin/sh "$0" "$@"
+fi
+
 # Initialze the git repository.
 if [ ! -d .git ]; then
     git init -b master
-- 
2.43.0


From a39c2be00e26cace0367cb769039ea89916b1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 42/46] fix: read scores with a period in every locale

fcitx starts with setlocale(LC_ALL, ""), and strtod stops at the period when
the locale's decimal point is a comma, so every score lost its fraction.
---
 src/Engine/AssociatedPhrasesV2.cpp | 3 +--
 src/Engine/ParselessLM.cpp         | 6 +++---
 src/Engine/ParselessPhraseDB.cpp   | 9 +++++++++
 src/Engine/ParselessPhraseDB.h     | 5 +++++
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Engine/AssociatedPhrasesV2.cpp b/src/Engine/AssociatedPhrasesV2.cpp
index d5bfaae..9ad8d64 100644
--- a/src/Engine/AssociatedPhrasesV2.cpp
+++ b/src/Engine/AssociatedPhrasesV2.cpp
@@ -24,7 +24,6 @@
 #include "AssociatedPhrasesV2.h"
 
 #include <algorithm>
-#include <cstdlib>
 #include <limits>
 #include <sstream>
 #include <unordered_set>
@@ -57,7 +56,7 @@ static double GetScoreInRow(const std::string_view& v) {
     return std::numeric_limits<double>::lowest();
   }
 
-  return std::strtod(std::string(it, end).c_str(), nullptr);
+  return ParselessPhraseDB::ParseScore(v.substr(it - v.cbegin()));
 }
 
 // Parse an associated phrases entry to the Phrase struct.
diff --git a/src/Engine/ParselessLM.cpp b/src/Engine/ParselessLM.cpp
index e2669f0..c16f86e 100644
--- a/src/Engine/ParselessLM.cpp
+++ b/src/Engine/ParselessLM.cpp
@@ -28,7 +28,6 @@
 #include <sys/stat.h>
 #include <unistd.h>
 
-#include <cstdlib>
 #include <memory>
 #include <string_view>
 #include <utility>
@@ -102,7 +101,7 @@ ParselessLM::getUnigrams(const std::string& key) {
     }
 
     if (it != row.end()) {
-      score = std::strtod(std::string(it, row.end()).c_str(), nullptr);
+      score = ParselessPhraseDB::ParseScore(row.substr(it - row.begin()));
     }
     results.emplace_back(std::move(value), score);
   }
@@ -161,7 +160,8 @@ std::vector<ParselessLM::FoundReading> ParselessLM::getReadings(
     }
 
     if (it != row.end()) {
-      score = std::strtod(std::string(it, row.end()).c_str(), nullptr);
+      score = ParselessPhraseDB::ParseScore(
+          std::string_view(row).substr(it - row.begin()));
     }
     results.emplace_back(ParselessLM::FoundReading{key, score});
   }
diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index b47b4ab..afef044 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -23,6 +23,9 @@
 
 #include "ParselessPhraseDB.h"
 
+#include <locale.h>
+#include <stdlib.h>
+
 #include <cassert>
 #include <cstring>
 
@@ -37,6 +40,12 @@ bool ParselessPhraseDB::ValidatePragma(const char* buf, size_t length) {
   return header == SORTED_PRAGMA_HEADER;
 }
 
+double ParselessPhraseDB::ParseScore(const std::string_view& score) {
+  static const locale_t cLocale =
+      newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(nullptr));
+  return strtod_l(std::string(score).c_str(), nullptr, cLocale);
+}
+
 ParselessPhraseDB::ParselessPhraseDB(const char* buf, size_t length,
                                      bool validate_pragma)
     : begin_(buf), end_(buf + length) {
diff --git a/src/Engine/ParselessPhraseDB.h b/src/Engine/ParselessPhraseDB.h
index 384f919..a5fb9ac 100644
--- a/src/Engine/ParselessPhraseDB.h
+++ b/src/Engine/ParselessPhraseDB.h
@@ -26,6 +26,7 @@
 
 #include <cstddef>
 #include <string>
+#include <string_view>
 #include <vector>
 
 namespace McBopomofo {
@@ -65,6 +66,10 @@ class ParselessPhraseDB {
 
   static bool ValidatePragma(const char* buf, size_t length);
 
+  // Parse the score column of a row. The decimal point is always a period,
+  // whatever the current locale is.
+  static double ParseScore(const std::string_view& score);
+
  private:
   const char* begin_;
   const char* end_;
-- 
2.43.0


From d3858fb90e61ce3d494d6fe38b109219169ea726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 43/46] fix: read Pinyin letters the same way in Turkish
 locales

tolower('I') is not 'i' there, so Pinyin with a capital I was not understood.
---
 src/Engine/Mandarin/Mandarin.cpp |  2 +-
 src/Engine/Mandarin/Mandarin.h   | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Engine/Mandarin/Mandarin.cpp b/src/Engine/Mandarin/Mandarin.cpp
index 4f2e7e6..3ab48d7 100644
--- a/src/Engine/Mandarin/Mandarin.cpp
+++ b/src/Engine/Mandarin/Mandarin.cpp
@@ -65,7 +65,7 @@ const BPMF BPMF::FromHanyuPinyin(const std::string& str) {
   }
 
   std::string pinyin = str;
-  transform(pinyin.begin(), pinyin.end(), pinyin.begin(), ::tolower);
+  transform(pinyin.begin(), pinyin.end(), pinyin.begin(), AsciiToLower);
 
   BPMF::Component firstComponent = 0;
   BPMF::Component secondComponent = 0;
diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index 06ab152..4f34fb7 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -33,6 +33,12 @@
 namespace Formosa {
 namespace Mandarin {
 
+// Unlike tolower(), this does not depend on the locale: in Turkish ones, the
+// lowercase of I is not i.
+inline char AsciiToLower(char c) {
+  return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
 class BopomofoSyllable {
  public:
   typedef uint16_t Component;
@@ -389,7 +395,7 @@ class BopomofoReadingBuffer {
       return layout_ ? (layout_->keyToComponents(k)).size() > 0 : false;
     }
 
-    char lk = tolower(k);
+    char lk = AsciiToLower(k);
     if (lk >= 'a' && lk <= 'z') {
       // if a tone marker is already in place
       if (pinyin_sequence_.length()) {
@@ -413,7 +419,7 @@ class BopomofoReadingBuffer {
     if (!isValidKey(k)) return false;
 
     if (pinyin_mode_) {
-      pinyin_sequence_ += std::string(1, tolower(k));
+      pinyin_sequence_ += std::string(1, AsciiToLower(k));
       syllable_ = BPMF::FromHanyuPinyin(pinyin_sequence_);
       return true;
     }
-- 
2.43.0


From 8defe831550b30058d484752ef2d84a7fe1d76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 44/46] fix: encode addresses the same way in single-byte
 locales

isalnum() takes bytes of Chinese characters for letters there (and is undefined
for negative values), so they were left unencoded in the address.
---
 src/DictionaryService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 084872d..4946507 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -43,7 +43,10 @@ std::string urlEncode(const std::string& str) {
   encodedStream << std::hex << std::uppercase << std::setfill('0');
 
   for (char c : str) {
-    if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') {
+    // Only these are left as they are, whatever the locale calls a letter.
+    bool isAsciiAlphanumeric = (c >= '0' && c <= '9') ||
+                               (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
+    if (isAsciiAlphanumeric || c == '-' || c == '_' || c == '.' || c == '~') {
       encodedStream << c;
     } else {
       encodedStream << '%' << std::setw(2)
-- 
2.43.0


From 4648b3ba320744d7942267d5e098f14fceb57534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 45/46] fix: an associated phrase must be put where its prefix
 is, with its readings

---
 src/KeyHandler.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index f5cb3a3..51a1b60 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1557,8 +1557,9 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   std::vector<std::string> splitReadings =
       AssociatedPhrasesV2::SplitReadings(associatedPhraseReading);
   size_t splitReadingsSize = splitReadings.size();
-  size_t prefixReadingsSize =
-      AssociatedPhrasesV2::SplitReadings(prefixReading).size();
+  std::vector<std::string> prefixReadings =
+      AssociatedPhrasesV2::SplitReadings(prefixReading);
+  size_t prefixReadingsSize = prefixReadings.size();
   for (size_t i = prefixReadingsSize; i < splitReadingsSize; i++) {
     if (!lm_->hasUnigrams(splitReadings[i])) {
       return;
@@ -1596,7 +1597,10 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
     splitPinned = true;
     size_t overrideIndex = accumulatedCursor - (*nodeIter)->spanningLength();
     for (const auto& value : originalNodeValues) {
-      splitPinned = grid_.overrideCandidate(overrideIndex, value) && splitPinned;
+      Formosa::Gramambular2::ReadingGrid::Candidate splitCandidate{
+          grid_.readings()[overrideIndex], value};
+      splitPinned =
+          grid_.overrideCandidate(overrideIndex, splitCandidate) && splitPinned;
       ++overrideIndex;
     }
   }
@@ -1606,8 +1610,18 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   // associated phrase.
   Formosa::Gramambular2::ReadingGrid::Candidate prefixCandidate{prefixReading,
                                                                 prefixValue};
-  bool prefixPinned =
-      grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate);
+  // The same readings may stand there more than once. If the prefix ends at the
+  // cursor, that is the one.
+  size_t prefixLocation = actualPrefixCursorIndex;
+  size_t cursor = grid_.cursor();
+  const std::vector<std::string>& readings = grid_.readings();
+  if (actualPrefixCursorIndex + 1 == cursor && prefixReadingsSize <= cursor &&
+      std::equal(prefixReadings.cbegin(), prefixReadings.cend(),
+                 readings.cbegin() +
+                     static_cast<ptrdiff_t>(cursor - prefixReadingsSize))) {
+    prefixLocation = cursor - prefixReadingsSize;
+  }
+  bool prefixPinned = grid_.overrideCandidate(prefixLocation, prefixCandidate);
   walk();
   // The prefix may be just a part of a longer phrase and not be a phrase on its
   // own. In that case the characters pinned above stand for it.
@@ -1634,6 +1648,7 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
     return;
   }
 
+  size_t phraseLocation = accumulatedCursor - nodeSpanningLength;
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
     size_t insertedIndex = accumulatedCursor;
     grid_.insertReading(splitReadings[i]);
@@ -1642,14 +1657,18 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
     // If the phrase is not found in the phrase database, we perform a fallback
     // instead.
     if (i < associatedPhraseValues.size()) {
-      grid_.overrideCandidate(insertedIndex, associatedPhraseValues[i]);
+      Formosa::Gramambular2::ReadingGrid::Candidate insertedCandidate{
+          splitReadings[i], associatedPhraseValues[i]};
+      grid_.overrideCandidate(insertedIndex, insertedCandidate);
     }
     grid_.setCursor(accumulatedCursor);
   }
 
-  // Finally, let's override with the full associated phrase's value.
-  if (!grid_.overrideCandidate(actualPrefixCursorIndex,
-                               associatedPhraseValue)) {
+  // Finally, let's override with the full associated phrase's value, right
+  // where its readings are.
+  Formosa::Gramambular2::ReadingGrid::Candidate phraseCandidate{
+      associatedPhraseReading, associatedPhraseValue};
+  if (!grid_.overrideCandidate(phraseLocation, phraseCandidate)) {
     // Shouldn't happen
   }
 
-- 
2.43.0


From 3c9b6e2f2c75e9f34311e6f8809a0fd0ff2022f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 46/46] fix: the hyphen key's symbol is not two readings

---
 src/KeyHandler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 51a1b60..1273e9a 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -705,10 +705,13 @@ bool KeyHandler::handleAssociatedPhrases(InputStates::Inputting* state,
 
     // Validate that the value's codepoint count is the same as the number
     // of readings. This is a strict requirement for the associated phrases.
+    // The spanning length also has to be the same, as the reading of the hyphen
+    // key has the separator in it.
     std::vector<std::string> codepoints = Split((*nodePtrIt)->value());
     std::vector<std::string> readings =
         AssociatedPhrasesV2::SplitReadings((*nodePtrIt)->reading());
-    if (codepoints.size() != readings.size()) {
+    if (codepoints.size() != readings.size() ||
+        readings.size() != (*nodePtrIt)->spanningLength()) {
       errorCallback();
       return true;
     }
-- 
2.43.0

