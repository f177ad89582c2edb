From b527e00d861b2985023123597d35f684f6cf5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:27 +0000
Subject: [PATCH 01/58] fix: regular expression operators must not share NFA
 states with neighbouring expressions

Each character, set, group or {expression} now starts in a state of its own. Previously
a repeat looped back into a state shared with what came before it (or with the other
alternatives, or with the start state and so with every other token): a*b* matched 'ba',
(a*|b) matched 'ab' and a|b* let any other token follow the b's.
---
 TameParse/Dfa/ndfa_regex.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7291232..ab59f6b 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -234,6 +234,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
     // Default regex compiler
     switch (*pos) {
         case '(':           // Group start
+            // Start the group in a state of its own: if it's repeated then it must not loop back into a state that's shared with
+            // what comes before it or with another alternative
+            cons >> epsilon();
+
             // Start a new bracketed section by pushing the current state
             cons.push();
             break;
@@ -299,7 +303,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
 
         case '.':
             // Any symbol
-            cons >> symbol_set::symbol_range(0, 0x7fffffff);
+            cons >> epsilon() >> symbol_set::symbol_range(0, 0x7fffffff);
             break;
             
         case '[':
@@ -352,7 +356,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             }
             
             // Append the transition
-            cons >> syms;
+            cons >> epsilon() >> syms;
             break;
         }
 
@@ -370,6 +374,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             }
 
             // Compile this expression
+            cons >> epsilon();
             cons.push();
             compile_expression(expr, cons);
             cons.pop();
@@ -380,7 +385,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             // Quoted symbol (same as default behaviour, explicit case is here to make it clear overriding this is incorrect)
         default:
             // Most characters just go through unchanged
-            cons >> symbol_for_sequence(pos, end);
+            cons >> epsilon() >> symbol_for_sequence(pos, end);
             break;
     }
 }
-- 
2.43.0


From ae9738cb4ebb43c907339c18d53bfde042c8ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:27 +0000
Subject: [PATCH 02/58] fix: symbol set deduplication must not fill a gap
 beyond the end of the range

When the next known range starts after the end of the range being added, the gap was
filled up to that next range, which put symbols in sets they don't belong to (and could
loop forever on the inverted remainder).
---
 TameParse/Dfa/remapped_symbol_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TameParse/Dfa/remapped_symbol_map.cpp b/TameParse/Dfa/remapped_symbol_map.cpp
index 7b97f3b..9f746f2 100644
--- a/TameParse/Dfa/remapped_symbol_map.cpp
+++ b/TameParse/Dfa/remapped_symbol_map.cpp
@@ -130,6 +130,7 @@ static void add_set(sets_for_range& sets, const symbol_set& symbols, int identif
             // If there's a gap between the remaining set and the current position, then fill it in
             if (firstGreaterThan->first.lower() > remaining.lower()) {
                 int newUpper = firstGreaterThan->first.lower();
+                if (newUpper > remaining.upper()) newUpper = remaining.upper();
                 
                 // Insert a value to fill the gap
                 firstGreaterThan = sets.insert(firstGreaterThan, sets_for_range::value_type(symbol_range(remaining.lower(), newUpper), justUs));
-- 
2.43.0


From 5306349fe4b12d87456163166d182855ce513322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:27 +0000
Subject: [PATCH 03/58] fix: low surrogate ranges of symbol ranges that span
 several high surrogates

The second code unit is in the range 0xdc00-0xdfff: the first and last block of a range
covering more than one high surrogate used 0xd800-0xdbff bounds, so they matched nothing
(or the wrong sequences).
---
 TameParse/Dfa/ndfa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/ndfa.cpp b/TameParse/Dfa/ndfa.cpp
index 851c1f7..bad521b 100644
--- a/TameParse/Dfa/ndfa.cpp
+++ b/TameParse/Dfa/ndfa.cpp
@@ -241,14 +241,14 @@ static void add_surrogate_transition(const range<int>& surrogateRange, int curre
         nfa->add_transition(currentState, range<int>(surrogateLower.first, surrogateLower.first+1), tmpState1);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xdc00), targetState);
+        nfa->add_transition(tmpState1, range<int>(surrogateLower.second, 0xe000), targetState);
 
         // ... do the same for the 'upper' set of symbols
         int tmpState2 = nfa->add_state();
         nfa->add_transition(currentState, range<int>(surrogateHigher.first, surrogateHigher.first+1), tmpState2);
 
         // Transit to the final state for all the 'lower' symbols
-        nfa->add_transition(tmpState2, range<int>(0xd800, surrogateHigher.second+1), targetState);
+        nfa->add_transition(tmpState2, range<int>(0xdc00, surrogateHigher.second+1), targetState);
 
         // If there's a middle range, then add transitions for that as well
         if (surrogateHigher.first-1 > surrogateLower.first) {
-- 
2.43.0


From c54b2856e15ffd579cd56fa6e003f8449fb28ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:27 +0000
Subject: [PATCH 04/58] fix: avoid signed overflow when searching symbol sets
 for the maximum symbol

Ranges are compared by their lower bound only, so an empty range is a sufficient search
key; building the one-symbol range overflowed for ranges that end at 0x7fffffff (such as
'.' or a negated set).
---
 TameParse/Dfa/symbol_set.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Dfa/symbol_set.cpp b/TameParse/Dfa/symbol_set.cpp
index d228a9e..5dfa0b6 100644
--- a/TameParse/Dfa/symbol_set.cpp
+++ b/TameParse/Dfa/symbol_set.cpp
@@ -93,7 +93,7 @@ symbol_set& symbol_set::operator|=(const symbol_range& mergeWith) {
     // There's some overlap between ranges
     
     // Find the first item that is > the upper value (ie, the first item we don't merge with)
-    symbol_store::iterator  finalValue  = m_Symbols.upper_bound(mergeWith.upper());
+    symbol_store::iterator  finalValue  = m_Symbols.upper_bound(symbol_range(mergeWith.upper(), mergeWith.upper()));
     symbol_range            mergedRange = mergeWith;
 
     // Merge any ranges that overlap
@@ -143,7 +143,7 @@ void symbol_set::exclude(const symbol_range& exclude) {
     // There's some overlap between ranges
     
     // Find the first item that is > the upper value
-    symbol_store::iterator finalValue  = m_Symbols.upper_bound(exclude.upper());
+    symbol_store::iterator finalValue  = m_Symbols.upper_bound(symbol_range(exclude.upper(), exclude.upper()));
     
     // Change it to the final value in the range affected by this exclusion
     symbol_store::iterator eraseTo = finalValue;
@@ -195,7 +195,7 @@ void symbol_set::invert() {
 /// \brief True if the specified symbol is in this set
 bool symbol_set::operator[](int symbol) {
     // Find the item nearest this symbol
-    symbol_store::iterator nearestValue = m_Symbols.upper_bound(symbol);
+    symbol_store::iterator nearestValue = m_Symbols.upper_bound(symbol_range(symbol, symbol));
     
     // Doesn't exist if this is at the start
     if (nearestValue == m_Symbols.begin()) return false;
-- 
2.43.0


From c064c8266c160d1f074a590e1113d414c59d5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 05/58] fix: a symbol range that ends on a block boundary must
 not hide the next block

Adding a range whose end is the first symbol of a block created an empty entry for that
block, so a set that covers the whole block (for instance 0x100-0x1ff) was later stored as
a default value that was never looked at: its symbols were rejected. Ranges entirely
outside of the table also created an empty level, which the hard-coded table can't
represent.
---
 TameParse/Dfa/symbol_table.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index ee84c40..3bbf202 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -105,9 +105,13 @@ namespace dfa {
             int startOffset = (startIndex)&((1<<shift)-1);
             startIndex >>= shift;
             
+            // Nothing to do if none of the symbols in the range are in this table (in particular, a range that ends where this
+            // table begins must not create any entries)
+            if (startIndex >= c_MaxIndex || range.upper() <= base) return;
+            
             // Work out the final index in this table
             int endIndex = range.upper() - base;
-            if (endIndex < 0) endIndex = 0;
+            int lastIndex = (endIndex - 1) >> shift;
             endIndex >>= shift;
             
             // If the range entirely covers this item, then set the default symbol and stop
@@ -116,7 +120,7 @@ namespace dfa {
                 return;
             }
             
-            if (endIndex > c_MaxIndex-1) endIndex = c_MaxIndex-1;
+            if (lastIndex > c_MaxIndex-1) lastIndex = c_MaxIndex-1;
             
             // Create the symbol set if needed
             if (!Symbols) {
@@ -127,7 +131,7 @@ namespace dfa {
             }
             
             // Otherwise, create new entries (if needed) and add the range there as well
-            for (int index = startIndex; index <= endIndex; ++index) {
+            for (int index = startIndex; index <= lastIndex; ++index) {
                 // Create a new entry if needed
                 if (!Symbols[index]) Symbols[index] = new next_level();
                 
@@ -270,9 +274,12 @@ namespace dfa {
             int startOffset = (startIndex)&((1<<shift)-1);
             startIndex >>= shift;
             
+            // Nothing to do if none of the symbols in the range are in this table (in particular, a range that ends where this
+            // table begins must not create any entries)
+            if (startIndex >= c_MaxIndex || range.upper() <= base) return;
+            
             // Work out the final index in this table
             int endIndex = range.upper() - base;
-            if (endIndex < 0) endIndex = 0;
             endIndex >>= shift;
             
             // If the range entirely covers this item, then set the default symbol and stop
-- 
2.43.0


From 3e82dc6a7e1993f8062a2e42f8de404ccb108a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 06/58] fix: hard-coded symbol tables compare only the low byte
 at the lowest level

Every symbol above 0xff was out of range for its own block and got the default set, so
generated lexers rejected characters that the same lexer accepts when run directly.
---
 TameParse/Dfa/hard_coded_symbol_table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Dfa/hard_coded_symbol_table.h b/TameParse/Dfa/hard_coded_symbol_table.h
index bc9e724..f34d6ea 100644
--- a/TameParse/Dfa/hard_coded_symbol_table.h
+++ b/TameParse/Dfa/hard_coded_symbol_table.h
@@ -70,10 +70,10 @@ namespace dfa {
         int highest = lowHigh>>8;
         
         // Return the default value if the symbol is out of range
-        if ((int) symbol < lowest || (int) symbol >= highest) return table[offset + 0];
+        int pos         = ((unsigned int) symbol&0xff);
+        if (pos < lowest || pos >= highest) return table[offset + 0];
         
         // Look up the symbol set
-        int pos         = ((unsigned int) symbol&0xff);
         int symbolSet   = table[offset + 2 + (pos - lowest)];
         
         // Use the default symbol if the offset is -1
-- 
2.43.0


From 1d82d86f7e8e90760701e543276544876127843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:13 +0000
Subject: [PATCH 07/58] fix: skipping a group must not enter the repeat at its
 end

(ab*)? matched 'b': the edge that skips the group led to the last state inside it, which
loops when the group ends with a repeat.
---
 TameParse/Dfa/ndfa_regex.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index ab59f6b..88094aa 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -243,6 +243,10 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             break;
             
         case ')':           // Group end
+            // The group also ends in a state of its own: the last state might be part of a repeat, which must not be entered by an 
+            // operator that skips the group
+            cons >> epsilon();
+
             // Discard the entry on top of the stack
             cons.pop();
             break;
@@ -377,6 +381,7 @@ void ndfa_regex::compile(symbol_string::const_iterator& pos, const symbol_string
             cons >> epsilon();
             cons.push();
             compile_expression(expr, cons);
+            cons >> epsilon();
             cons.pop();
             break;
         }
-- 
2.43.0


From 5e0407d782c801512203a5e396c6fdc66adbfab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:06 +0000
Subject: [PATCH 08/58] fix: quoted brackets do not open or close a group when
 checking a regular expression

(\() and ([\]]) were reported as having unmatched brackets.
---
 TameParse/Dfa/ndfa_regex.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 88094aa..7c02a5b 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -554,6 +554,15 @@ void ndfa_regex::check(position_tracker& exprPos, symbol_string::const_iterator&
 
             do {
                 switch (*bracketPos) {
+                    case '\\':
+                    {
+                        // Quoted characters don't open or close any brackets
+                        it quoted = bracketPos;
+                        ++quoted;
+                        if (quoted != end) bracketPos = quoted;
+                        break;
+                    }
+
                     case '{':
                         if (brackets.empty() || brackets.top() == ')') {
                             brackets.push('}');
-- 
2.43.0


From 752c4ebcb145581e344157acc838f3a9d2d82cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:06 +0000
Subject: [PATCH 09/58] fix: {name} is a valid expression when name is defined
 as a literal

Expressions defined with define_expression_literal compile, but check_regex reported them
as missing.
---
 TameParse/Dfa/ndfa_regex.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TameParse/Dfa/ndfa_regex.cpp b/TameParse/Dfa/ndfa_regex.cpp
index 7c02a5b..4463968 100644
--- a/TameParse/Dfa/ndfa_regex.cpp
+++ b/TameParse/Dfa/ndfa_regex.cpp
@@ -920,6 +920,11 @@ bool ndfa_regex::check_expression(const symbol_string& expression) {
         return true;
     }
 
+    // Literal expressions are also valid
+    if (m_LiteralExpressionMap.find(expression) != m_LiteralExpressionMap.end()) {
+        return true;
+    }
+
     // Check if this is a valid unicode expression
     if (!unicode_for_expression(expression).empty()) {
         return true;
-- 
2.43.0


From 258211a6b1d9ec7a3d01ccd6dd58d78bf139a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 10/58] fix: compacting a DFA must keep accepting and rejecting
 states apart

The index of a newly created partition was one too low, so the first accepting state was
put in the same partition as the rejecting states (an expression such as (aa)+ was never
accepted after compaction) and states that should be split off went to an unrelated
partition. With the indexes right, the set of rejecting states may remain empty, which
must not renumber the states after it.
---
 TameParse/Dfa/ndfa_transformations.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TameParse/Dfa/ndfa_transformations.cpp b/TameParse/Dfa/ndfa_transformations.cpp
index a229064..9af5e3b 100644
--- a/TameParse/Dfa/ndfa_transformations.cpp
+++ b/TameParse/Dfa/ndfa_transformations.cpp
@@ -323,7 +323,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
             
             if (existingState == stateForActions.end()) {
                 // Create a new state
-                targetState = (int) newStates.size()-1;
+                targetState = (int) newStates.size();
                 newStates.push_back(state_set());
             } else {
                 // Add to the existing state
@@ -395,7 +395,7 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
                 if (splitStateId == -1) {
                     // Assign a new state
                     changed         = true;
-                    splitStateId    = (int) newStates.size()-1;
+                    splitStateId    = (int) newStates.size();
                     newStates.push_back(state_set());
                 }
                 
@@ -421,11 +421,11 @@ ndfa* ndfa::to_compact_dfa(const vector<int>& initialState, bool firstAction) co
     accept_action_for_state*    accept      = new accept_action_for_state();
     
     for (int newStateId = 0; newStateId < (int) newStates.size(); ++newStateId) {
-        // Ignore empty states
-        if (newStates[newStateId].empty()) continue;
-        
         state* newState = new state(newStateId);
         states->push_back(newState);
+
+        // Nothing more to do for empty states (the state itself must exist, so that the identifiers of the states after it match)
+        if (newStates[newStateId].empty()) continue;
         
         // Add the transitions for this state: we only need a single template state as the mapped transitions for each symbol
         // will be the same
-- 
2.43.0


From 55b960511747004a55efbc39912501fbe3a7e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 11/58] fix: every newline character counts towards the offset
 of a position

The offset is the number of symbols from the start of the stream, but only a line feed
was counted: CR, VT, FF, NEL, LS and PS left all later offsets too low.
---
 TameParse/Dfa/position.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Dfa/position.h b/TameParse/Dfa/position.h
index 4c3c80b..d20fa28 100644
--- a/TameParse/Dfa/position.h
+++ b/TameParse/Dfa/position.h
@@ -174,6 +174,7 @@ namespace dfa {
                     break;
                     
                 case 0x0d:              // CR: Carriage Return
+                    m_CurrentPosition.increment_offset();
                     m_CurrentPosition.newline();
                     m_SeenReturn = true;
                     break;
@@ -183,6 +184,7 @@ namespace dfa {
                 case 0x85:              // NEL: NExt Line
                 case 0x2028:            // LS: Line Separator
                 case 0x2029:            // PS: Paragraph Separator
+                    m_CurrentPosition.increment_offset();
                     m_CurrentPosition.newline();
                     m_SeenReturn = false;
                     break;
-- 
2.43.0


From 0f0988758562e9f0f6737924f4727c71dc256b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 12/58] fix: decode multi-byte UTF-8 sequences

The length of a sequence was taken from the (uninitialised) result rather than from the
first byte, so no multi-byte character was decoded reliably, and the last byte of a four
byte sequence was not used.
---
 TameParse/Util/utf8reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TameParse/Util/utf8reader.cpp b/TameParse/Util/utf8reader.cpp
index 92c8fa7..56877d5 100644
--- a/TameParse/Util/utf8reader.cpp
+++ b/TameParse/Util/utf8reader.cpp
@@ -95,7 +95,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
     }
 
     // Work out how many bytes are in the complete character
-    else if ((target & 0xe0) == 0xc0) {
+    else if ((firstChar & 0xe0) == 0xc0) {
         // Begins 110xxxx (0x80 - 0x7ff)
 
         // Read the remaining characters
@@ -111,7 +111,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0x1f)<<6) | (secondChar&0x3f);
         return *this;
-    } else if ((target & 0xf0) == 0xe0) {
+    } else if ((firstChar & 0xf0) == 0xe0) {
         // Begins 1110xxxx (0x800 - 0xffff)
 
         // Read the remaining characters
@@ -128,7 +128,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         // Create the result
         target = ((firstChar&0xf)<<12) | ((secondChar&0x3f)<<6) | (thirdChar&0x3f);
         return *this;
-    } else if ((target & 0xf8) == 0xf0) {
+    } else if ((firstChar & 0xf8) == 0xf0) {
         // Begins 11110000 (0x10000 - 0x1fffff)
 
         // Read the remaining characters
@@ -144,7 +144,7 @@ utf8reader& utf8reader::get(wchar_t& target) {
         }
 
         // Construct the UCS-4 character
-        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (secondChar&0x3f);
+        unsigned int ucs4 = ((firstChar&0x7)<<18) | ((secondChar&0x3f)<<12) | ((thirdChar&0x3f)<<6) | (fourthChar&0x3f);
 
         // Must be less than 0x110000 to be a valid surrogate pair
         if (ucs4 >= 0x110000) {
-- 
2.43.0


From cd2d5189cb2bd05a284a6922261b91aca20d5021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 13/58] fix: a string reader must supply the last character of
 its string

Lexers call good() after each read to find out if it returned a character, as for a
standard stream. The reader returned false as soon as the last character was read, so
that character was lost.
---
 TameParse/Util/stringreader.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/TameParse/Util/stringreader.h b/TameParse/Util/stringreader.h
index 6480a2f..818a60f 100644
--- a/TameParse/Util/stringreader.h
+++ b/TameParse/Util/stringreader.h
@@ -68,18 +68,23 @@ namespace util {
         /// \brief Position within the string
         size_t m_Pos;
         
+        /// \brief Set to true once a read has failed because there were no characters left
+        bool m_AtEnd;
+        
     public:
         /// \brief Creates a new stringreader that references the supplied string
         basic_stringreader(const string_type& string)
         : m_SourceString(string)
-        , m_Pos(0) {
+        , m_Pos(0)
+        , m_AtEnd(false) {
         }
         
         /// \brief Returns the next character in the string (or 0 if all of the characters have been read)
         inline basic_stringreader& get(char_type& target) {
             if (m_Pos >= m_SourceString.size()) {
                 // At the end of the string
-                target = 0;
+                target  = 0;
+                m_AtEnd = true;
             } else {
                 // Return the next character
                 target = m_SourceString[m_Pos++];
@@ -88,9 +93,9 @@ namespace util {
             return *this;
         }
         
-        /// \brief Returns true if there are more characters to read from the string
+        /// \brief Returns true if the last read returned a character from the string (like the good() call in a standard stream)
         inline bool good() const {
-            return m_Pos < m_SourceString.size();
+            return !m_AtEnd;
         }
     };
     
-- 
2.43.0


From 08af8efcf3022320d76b7886b2a090c93a95f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:52 +0000
Subject: [PATCH 14/58] fix: converting part of a case mapping range must stop
 at the end of that range

A set starting in the middle of a range of letters was mapped beyond its end: the case
insensitive [x-z] also matched '[', '\', ...
---
 TameParse/Util/unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Util/unicode.cpp b/TameParse/Util/unicode.cpp
index c834673..de4c001 100644
--- a/TameParse/Util/unicode.cpp
+++ b/TameParse/Util/unicode.cpp
@@ -92,7 +92,7 @@ static symbol_set convert_range(const symbol_range& range, const map_entry* map,
             int initialChar = curItem->map_to + (lowerChar - curItem->lower);
 
             // The number of characters to map
-            int numChars = curItem->upper - curItem->lower;
+            int numChars = curItem->upper - lowerChar;
             if (numChars > upperChar - lowerChar) {
                 numChars = upperChar - lowerChar;
             }
-- 
2.43.0


From f2e7aead1b3f85d394462929a205549476b35928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:00 +0000
Subject: [PATCH 15/58] fix: FIRST sets of items that refer to each other or
 start with an item that can be empty

A FIRST set computed while another one was in progress was cached even though
it was built from an incomplete set, and EBNF items only looked at the first
item of their rule even when that item could match nothing.
---
 TameParse/ContextFree/ebnf_items.cpp     | 34 ++++++------------------
 TameParse/ContextFree/grammar.cpp        | 24 +++++++++++++++--
 TameParse/ContextFree/grammar.h          |  4 +++
 TameParse/ContextFree/standard_items.cpp | 33 +----------------------
 4 files changed, 35 insertions(+), 60 deletions(-)

diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index a062241..5937455 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -186,13 +186,8 @@ item_set ebnf_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the first set of the rule (later items count if the earlier ones can be empty)
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -238,11 +233,8 @@ item_set ebnf_repeating::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    }
+    // Add the first set of the rule (later items count if the earlier ones can be empty)
+    result.merge(gram.first_for_rule(r));
     
     return result;
 }
@@ -290,13 +282,8 @@ item_set ebnf_repeating_optional::first(const grammar& gram) const {
     // Get the rule
     const rule& r = *get_rule();
     
-    // Add items if the rule has a first item
-    if (r.items().size() > 0) {
-        const item_set& ruleItems = gram.first(*(r.items()[0]));
-        result.merge(ruleItems);
-    } else {
-        result.insert(the_empty_item);
-    }
+    // Add the first set of the rule (later items count if the earlier ones can be empty)
+    result.merge(gram.first_for_rule(r));
     
     return result;    
 }
@@ -354,13 +341,8 @@ item_set ebnf_alternate::first(const grammar& gram) const {
         // Get the rule
         const rule& r = **nextRule;
         
-        // Add items if the rule has a first item
-        if (r.items().size() > 0) {
-            const item_set& ruleItems = gram.first(*(r.items()[0]));
-            result.merge(ruleItems);
-        } else {
-            result.insert(the_empty_item);
-        }
+        // Add the first set of the rule (later items count if the earlier ones can be empty)
+        result.merge(gram.first_for_rule(r));
     }
     
     return result;
diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index f4cbff7..009bb64 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -245,10 +245,30 @@ const item_set& grammar::first(const item_container& item) const {
     // Not found: create an empty item set so recursive calls to this method terminate
     found = m_CachedFirstSets.insert(pair<item_container, item_set>(item, item_set(this))).first;
     
+    // Remember that this set is not known to be complete yet
+    bool outermost = m_PendingFirstSets.empty();
+    m_PendingFirstSets.push_back(found);
+    
     // Ask the item for its first set, and update the cache
-    found->second = item->first(*this);
+    found->second.merge(item->first(*this));
+    
+    // Items can refer to each other, in which case some sets will have been computed from incomplete ones: keep going until nothing changes
+    if (outermost) {
+        for (bool changed = true; changed;) {
+            changed = false;
+            
+            for (size_t pending = 0; pending < m_PendingFirstSets.size(); ++pending) {
+                item_set_map::iterator toUpdate = m_PendingFirstSets[pending];
+                if (toUpdate->second.merge(toUpdate->first->first(*this))) {
+                    changed = true;
+                }
+            }
+        }
+        
+        m_PendingFirstSets.clear();
+    }
     
-    // Return the newly added item (have to do another lookup as map doesn't have a replace operator)
+    // Return the newly added item
     return found->second;
 }
 
diff --git a/TameParse/ContextFree/grammar.h b/TameParse/ContextFree/grammar.h
index 627ad86..f6ad16c 100644
--- a/TameParse/ContextFree/grammar.h
+++ b/TameParse/ContextFree/grammar.h
@@ -29,6 +29,7 @@
 #define _CONTEXTFREE_GRAMMAR_H
 
 #include <map>
+#include <vector>
 #include <string>
 
 #include "TameParse/Util/container.h"
@@ -103,6 +104,9 @@ namespace contextfree {
         /// \brief Cached map of FIRST sets for this grammar
         mutable item_set_map m_CachedFirstSets;
         
+        /// \brief The cached FIRST sets that are still being computed
+        mutable std::vector<item_set_map::iterator> m_PendingFirstSets;
+        
         /// \brief Cached map of FOLLOW sets for this grammar
         mutable item_set_map m_CachedFollowSets;
 
diff --git a/TameParse/ContextFree/standard_items.cpp b/TameParse/ContextFree/standard_items.cpp
index a311b3e..009904e 100644
--- a/TameParse/ContextFree/standard_items.cpp
+++ b/TameParse/ContextFree/standard_items.cpp
@@ -119,38 +119,7 @@ item_set nonterminal::first(const grammar& gram) const {
     
     // Merge in the first set for each of the initial symbols
     for (rule_list::const_iterator nextRule = rules.begin(); nextRule != rules.end(); ++nextRule) {
-        // Get the items for this rule
-        const item_list& ruleItems = (*nextRule)->items();
-        
-        // Add the empty item if this is an empty rule
-        if (ruleItems.size() == 0) {
-            result.insert(an_empty_item_c);
-            continue;
-        }
-        
-        // Get the first set for the first item in this rule
-        const item_set& ruleFirst = gram.first(ruleItems[0]);
-
-        // Insert into the result
-        result.merge(ruleFirst);
-
-        if (ruleFirst.contains(an_empty_item_c)) {
-            // If there's an empty item, then merge the first sets from the later parts of the rule
-            int pos;
-            for (pos = 1; pos < (int) ruleItems.size(); ++pos) {
-                // Remove the empty item from the current set
-                result.erase(an_empty_item);
-                
-                // Get the first set for the next item
-                const item_set& nextFirst = gram.first(*(ruleItems[pos]));
-                
-                // Merge it with the current set
-                result.merge(nextFirst);
-                
-                // Stop if there's no longer an empty item
-                if (!nextFirst.contains(an_empty_item_c)) break;
-            }
-        }
+        result.merge(gram.first_for_rule(**nextRule));
     }
 
     return result;
-- 
2.43.0


From 53bdc4376bfa0772597ba15fc128989208f59e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:15 +0000
Subject: [PATCH 16/58] fix: copies of a parser stack left a dangling entry in
 the list of references

The entry after a new reference was never told about it, so destroying that
entry made the stack forget every more recent reference (and free itself while
they were still in use).
---
 TameParse/Lr/parser_stack.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TameParse/Lr/parser_stack.h b/TameParse/Lr/parser_stack.h
index 4e238fb..752d0e2 100644
--- a/TameParse/Lr/parser_stack.h
+++ b/TameParse/Lr/parser_stack.h
@@ -245,6 +245,7 @@ namespace lr {
         , m_Stack(stack) {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
+            if (m_Next) m_Next->m_Last = this;
             m_Stack->m_RootReference = this;
         }
         
@@ -254,6 +255,7 @@ namespace lr {
         , m_Index(m_Stack->get_new()) {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
+            if (m_Next) m_Next->m_Last = this;
             m_Stack->m_RootReference = this;
         }
         
@@ -263,6 +265,7 @@ namespace lr {
         , m_Index(copyFrom.m_Index) {
             m_Next = m_Stack->m_RootReference;
             m_Last = NULL;
+            if (m_Next) m_Next->m_Last = this;
             m_Stack->m_RootReference = this;
         }
         
-- 
2.43.0


From 00b18c121a19a5fbeb997b29fa540fdb538b9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:38 +0000
Subject: [PATCH 17/58] fix: FOLLOW sets of items that end a repeated group

The content of a repeating item can be followed by another repetition, but the
start of the repetition was missing from the follow set of its trailing items.
---
 TameParse/ContextFree/grammar.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TameParse/ContextFree/grammar.cpp b/TameParse/ContextFree/grammar.cpp
index 009bb64..a15e3f7 100644
--- a/TameParse/ContextFree/grammar.cpp
+++ b/TameParse/ContextFree/grammar.cpp
@@ -402,6 +402,14 @@ void grammar::fill_follow(const rule& rule, item_map<item_set>::type& dependenci
             }
             
             depend->second.insert(rule.nonterminal());
+            
+            // The content of a repeating item can be followed by itself
+            item::kind ruleKind = rule.nonterminal()->type();
+            if (ruleKind == item::repeat || ruleKind == item::repeat_zero_or_one) {
+                item_set repeated = first_for_rule(rule);
+                repeated.erase(an_empty_item_c);
+                followSet->second.merge(repeated);
+            }
         }
         
         // If this item is an EBNF rule, then we need to process each of its children
-- 
2.43.0


From 1232d9425468c9574c2a89a75f64b0355aa57f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:57 +0000
Subject: [PATCH 18/58] fix: report conflicts between accepting and reducing

Accepting the input competes with reducing a rule in the same state (S = S | a,
say). Such a conflict was never reported and the reduction always won, so the
parser reduced forever.
---
 TameParse/Lr/conflict.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index c765e77..23a9289 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -105,7 +105,6 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         switch ((*nextAction)->type()) {
             case lr_action::act_goto:
             case lr_action::act_ignore:
-            case lr_action::act_accept:
                 ignore = true;
                 break;
                 
-- 
2.43.0


From 8093efc11d1b7bf6dd8c18e229a3183cea295c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:01 +0000
Subject: [PATCH 19/58] fix: reduce/reduce conflicts reported as shift/reduce
 conflicts

Any item whose FIRST set held the token was listed as a shift, even in states
that can't shift it, which demoted reduce/reduce conflicts to warnings.
---
 TameParse/Lr/conflict.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/TameParse/Lr/conflict.cpp b/TameParse/Lr/conflict.cpp
index 23a9289..1191885 100644
--- a/TameParse/Lr/conflict.cpp
+++ b/TameParse/Lr/conflict.cpp
@@ -124,7 +124,8 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         if (nextItem->second.size() < 2) continue;
         
         // Ignore items if all but one of the items are 'weak'
-        int numWeak = 0;
+        int     numWeak     = 0;
+        bool    canShift    = false;
         for (lr_action_set::const_iterator nextAction = nextItem->second.begin(); nextAction != nextItem->second.end(); ++nextAction) {
             switch ((*nextAction)->type()) {
                 case lr_action::act_guard:
@@ -133,6 +134,12 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
                     ++numWeak;
                     break;
                     
+                case lr_action::act_shift:
+                case lr_action::act_shiftstrong:
+                case lr_action::act_divert:
+                    canShift = true;
+                    break;
+                    
                 default:
                     break;
             }
@@ -156,7 +163,7 @@ static void find_conflicts(const lalr_builder& builder, int stateId, conflict_li
         
         // Iterate through the closure to get the items that can be shifted as part of this conflict
         for (lr1_item_set::const_iterator nextItem = closure.begin(); nextItem != closure.end(); ++nextItem) {
-            if (!(*nextItem)->at_end()) {
+            if (canShift && !(*nextItem)->at_end()) {
                 // This item will result in a shift: add it to the list if it can shift our item
                 const item_set& firstItems = gram->first((*nextItem)->rule()->items()[(*nextItem)->offset()]);
                 
-- 
2.43.0


From 1e1b5443edbf1d367351fed3969fabbac56d09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:45 +0000
Subject: [PATCH 20/58] fix: count the symbols used inside guards as used by
 the language

Terminals that appear only in a guard stayed in the unused set (implicitly
defined ones were reported as BUG_UNKNOWN_SYMBOL, failing the compile) and
ignored terminals used only in a guard were not recognised as used.
---
 TameParse/Compiler/language_stage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index f5e445c..df2774a 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -83,6 +83,12 @@ void language_stage::process_rule_symbols(const contextfree::rule& rule) {
                 process_rule_symbols(**ebnfRule);
             }
         }
+
+        // Recurse into guards: the symbols that they look for are used by the language too
+        const guard* guardItem = (*item)->cast_guard();
+        if (guardItem) {
+            process_rule_symbols(*guardItem->get_rule());
+        }
     }
 }
 
-- 
2.43.0


From 4127881e0e0182873b01d5ae3efbbc0bda492606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:44 +0000
Subject: [PATCH 21/58] fix: give a weak symbol its strong meaning where it can
 only be reduced

A state with only reductions for a weak symbol is meant to get the actions of
the strong symbol as well, but the count of remaining actions was compared
with < 0, which never holds, so the strong meaning was lost.
---
 TameParse/Lr/weak_symbols.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TameParse/Lr/weak_symbols.cpp b/TameParse/Lr/weak_symbols.cpp
index e6b0a85..e9cce11 100644
--- a/TameParse/Lr/weak_symbols.cpp
+++ b/TameParse/Lr/weak_symbols.cpp
@@ -283,7 +283,7 @@ void weak_symbols::rewrite_actions(int state, lr_action_set& actions, const lalr
                 map<int, int>::iterator found = weakSymbols.find(sym);
                 if (found != weakSymbols.end()) {
                     found->second--;
-                    if (found->second < 0) {
+                    if (found->second <= 0) {
                         weakSymbols.erase(found);
                     }
                 }
-- 
2.43.0


From 973d815deaf6094ddc4d15ef72ccdc545275a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:14 +0000
Subject: [PATCH 22/58] fix: keep the guard lookahead alive while nested guards
 are checked

check_guard held a reference into the session's lookahead vector, which a
nested guard check can reallocate by reading further tokens.
---
 TameParse/Lr/parser_state.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 9d972c2..bbb8042 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -233,8 +233,8 @@ namespace lr {
         
         // Perform parser actions to decide if the guard is accepted or not
         for (;;) {
-            // Fetch the lookahead
-            const lexeme_container& la = look(guardActions.offset());
+            // Fetch the lookahead (copied, as checking another guard may move the session's lookahead buffer)
+            lexeme_container la = look(guardActions.offset());
             
             // Get the current state
             int state = guardActions.current_state(this);
-- 
2.43.0


From c510920e0409a8d77c823eaafffa7daa0cedff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:42 +0000
Subject: [PATCH 23/58] fix: give every lexer state an entry in the generated
 state table, and the table its end

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 435087b..6a097c7 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -519,15 +519,17 @@ void output_cplusplus::source_lexer_state_machine() {
     // Finish off the table
     *m_SourceFile << "\n    };\n";
 
-    // Add a final state to point to the end of the array
-    stateToEntryOffset.push_back(entryPos);
+    // Add any remaining states that have no transitions, and a final state to point to the end of the array
+    while ((int)stateToEntryOffset.size() <= count_lexer_states()) {
+        stateToEntryOffset.push_back(entryPos);
+    }
 
     // Write out the rows table
-    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size()-1 << "] = {\n        ";
+    *m_SourceFile << "\nstatic const dfa::state_machine_compact_table<false>::entry* s_LexerStates[" << stateToEntryOffset.size() << "] = {\n        ";
 
     // Write the actual rows
     bool first = true;
-    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end()-1; ++offset) {
+    for (vector<int>::iterator offset = stateToEntryOffset.begin(); offset != stateToEntryOffset.end(); ++offset) {
         // Commas between entries
         if (!first) *m_SourceFile << ", ";
 
-- 
2.43.0


From 5d92fcca3212c18c7b0615f4e46630e8c4e3f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:55 +0000
Subject: [PATCH 24/58] fix: give different items of a nonterminal different
 names in the generated classes

---
 TameParse/Compiler/OutputStages/cplusplus.cpp |  6 ++++++
 TameParse/Compiler/OutputStages/cplusplus.h   |  5 +++++
 TameParse/Compiler/output_stage.cpp           | 20 +++++++++++++++++--
 TameParse/Compiler/output_stage.h             |  5 +++++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 6a097c7..af9abf9 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -220,6 +220,12 @@ bool output_cplusplus::name_is_valid(const std::wstring& name) {
     return true;
 }
 
+/// \brief Returns the form in which a name will appear in the output
+std::wstring output_cplusplus::output_name(const std::wstring& name) {
+    string identifier = get_identifier(name, false);
+    return wstring(identifier.begin(), identifier.end());
+}
+
 //              ================
 //               General output
 //              ================
diff --git a/TameParse/Compiler/OutputStages/cplusplus.h b/TameParse/Compiler/OutputStages/cplusplus.h
index 7908d0d..26b7562 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.h
+++ b/TameParse/Compiler/OutputStages/cplusplus.h
@@ -85,6 +85,11 @@ namespace compiler {
         /// other places where a unique name is required)
         virtual bool name_is_valid(const std::wstring& name);
 
+        /// \brief Returns the form in which a name will appear in the output
+        ///
+        /// Two names with the same output form can't be used for two different things
+        virtual std::wstring output_name(const std::wstring& name);
+
     private:
         /// \brief Writes out the terminal symbols definitions to the header file
         void header_terminal_symbols();
diff --git a/TameParse/Compiler/output_stage.cpp b/TameParse/Compiler/output_stage.cpp
index 3a82338..5254c02 100644
--- a/TameParse/Compiler/output_stage.cpp
+++ b/TameParse/Compiler/output_stage.cpp
@@ -436,6 +436,12 @@ bool output_stage::name_is_valid(const std::wstring& name) {
     return !name.empty();
 }
 
+/// \brief Returns the form in which a name will appear in the output
+std::wstring output_stage::output_name(const std::wstring& name) {
+    // Names are used as they are by default
+    return name;
+}
+
 /// \brief Generates the rules for each nonterminal
 void output_stage::generate_ast_rules() {
     // Maps nonterminals to their corresponding rules
@@ -468,6 +474,9 @@ void output_stage::generate_ast_rules() {
         // Set it up
         thisNt.nonterminalId = nonterminalId;
 
+        // The item that each name refers to within this nonterminal (rules can only share a name if it's for the same item)
+        map<wstring, item_container> itemForName;
+
         for (rule_list::iterator nextRule = rulesForNonterminal[nonterminalId].begin(); nextRule != rulesForNonterminal[nonterminalId].end(); ++nextRule) {
             // Get the identifier for this rule
             int ruleId = gram().identifier_for_rule(*nextRule);
@@ -496,7 +505,13 @@ void output_stage::generate_ast_rules() {
                 wstring uniqueName  = baseName;
                 int     offset      = 1;
 
-                while (usedNames.find(uniqueName) != usedNames.end() || !name_is_valid(uniqueName)) {
+                for (;;) {
+                    if (name_is_valid(uniqueName) && usedNames.find(output_name(uniqueName)) == usedNames.end()) {
+                        // Can use this name unless it refers to a different item in another rule
+                        map<wstring, item_container>::const_iterator existing = itemForName.find(output_name(uniqueName));
+                        if (existing == itemForName.end() || existing->second == *ruleItem) break;
+                    }
+
                     // Append _2, etc if this name has already been encountered in this rule or is invalid
                     offset++;
 
@@ -508,7 +523,8 @@ void output_stage::generate_ast_rules() {
                 }
 
                 // Remember the unique name
-                usedNames.insert(uniqueName);
+                usedNames.insert(output_name(uniqueName));
+                itemForName[output_name(uniqueName)] = *ruleItem;
 
                 // Set the 'EBNF repetition' flag
                 bool isEbnfRepeat = false;
diff --git a/TameParse/Compiler/output_stage.h b/TameParse/Compiler/output_stage.h
index a0b6bee..1b4e9df 100644
--- a/TameParse/Compiler/output_stage.h
+++ b/TameParse/Compiler/output_stage.h
@@ -159,6 +159,11 @@ namespace compiler {
         /// other places where a unique name is required)
         virtual bool name_is_valid(const std::wstring& name);
 
+        /// \brief Returns the form in which a name will appear in the output
+        ///
+        /// Two names with the same output form can't be used for two different things
+        virtual std::wstring output_name(const std::wstring& name);
+
     protected:
         // Functions that represent various steps of the output of a language.
         // These are intended to make it easy to write out a file in the specified language.
-- 
2.43.0


From f1fd735b0ebef8a0e50143b7f9b5199842821fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:51 +0000
Subject: [PATCH 25/58] fix: give empty repetitions a position in the generated
 syntax trees

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index af9abf9..877c572 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1628,7 +1628,9 @@ void output_cplusplus::source_reduce_actions() {
                 // The constructor is delcared for the item that contains the repetition
                 if (!hasConstructor && nonterm->item->type() == item::repeat_zero_or_one) {
                     // This is the empty rule in a zero-or-more repetition: create an empty item
-                    *m_SourceFile << "        return node(new " << ntName << "());\n";
+                    *m_SourceFile   << "        " << ntName << "* list = new " << ntName << "();\n"
+                                    << "        list->set_position(lookaheadPosition);\n"
+                                    << "        return node(list);\n";
                 } else {
                     // Get the node where the definition is being built up
                     *m_SourceFile << "        util::syntax_ptr<class " << ntName << "> list(";
-- 
2.43.0


From c73dd1d818852a002d3dc45d6100f4cfa22199a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 26/58] fix: only skip the list itself when finding the
 position of a repeated item

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 877c572..acb015e 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1360,7 +1360,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
+                if (ruleItem->isEbnfRepetition) {
                     continue;
                 }
 
@@ -1402,7 +1402,7 @@ void output_cplusplus::source_ast_position_functions() {
                 if (ruleItem->item->type() == item::guard) continue;
 
                 // Neither does the 'repeat' item of a * or + closure
-                if (repeatingItem && ruleItem->item->type() == nonterm->item->type() && ruleItem->item->symbol() == nonterm->item->symbol()) {
+                if (ruleItem->isEbnfRepetition) {
                     continue;
                 }
 
-- 
2.43.0


From 96a263ac6038e37d74b2b6f4d82dc96ee88421cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:08 +0000
Subject: [PATCH 27/58] fix: don't let the list of a repetition take a name
 from its contents

---
 TameParse/Compiler/output_stage.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/TameParse/Compiler/output_stage.cpp b/TameParse/Compiler/output_stage.cpp
index 5254c02..f71ff01 100644
--- a/TameParse/Compiler/output_stage.cpp
+++ b/TameParse/Compiler/output_stage.cpp
@@ -522,16 +522,18 @@ void output_stage::generate_ast_rules() {
                     uniqueName = newUnique.str();
                 }
 
-                // Remember the unique name
-                usedNames.insert(output_name(uniqueName));
-                itemForName[output_name(uniqueName)] = *ruleItem;
-
                 // Set the 'EBNF repetition' flag
                 bool isEbnfRepeat = false;
                 if (isRepeating && ruleItem == (*nextRule)->begin() && (**ruleItem) == *(*nextRule)->nonterminal()) {
                     isEbnfRepeat = true;
                 }
 
+                // Remember the unique name (the list in a repetition is never stored under its name)
+                if (!isEbnfRepeat) {
+                    usedNames.insert(output_name(uniqueName));
+                    itemForName[output_name(uniqueName)] = *ruleItem;
+                }
+
                 // Add a new item for this rule
                 ruleList.push_back(ast_rule_item((*ruleItem)->type() == item::terminal, (*ruleItem)->symbol(), *ruleItem, uniqueName, isEbnfRepeat));
             }
-- 
2.43.0


From 4eb401bf9817d4ace8a64dc959d5bff68b393737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:12 +0000
Subject: [PATCH 28/58] fix: generate different constructors for rules that
 only differ in their guards

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 46 ++++++++++++++++++-
 TameParse/Compiler/OutputStages/cplusplus.h   |  3 ++
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index acb015e..bd7aaab 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -226,6 +226,34 @@ std::wstring output_cplusplus::output_name(const std::wstring& name) {
     return wstring(identifier.begin(), identifier.end());
 }
 
+/// \brief Returns the number of rules before the specified one whose constructors have the same parameters
+///
+/// Rules that differ only in their guards have the same set of parameters: this is used to tell their constructors apart
+int output_cplusplus::constructor_variant(const ast_nonterminal& nonterminal, ast_nonterminal_rules::const_iterator rule) {
+    // Repeating items only ever have a single constructor
+    item::kind nonterminalType = gram().item_with_identifier(nonterminal.nonterminalId)->type();
+    if (nonterminalType == item::repeat || nonterminalType == item::repeat_zero_or_one) return 0;
+
+    // Get the items that make up the parameters for this rule
+    item_list ourItems;
+    for (ast_rule_item_list::const_iterator ruleItem = rule->second.begin(); ruleItem != rule->second.end(); ++ruleItem) {
+        if (ruleItem->item->type() != item::guard) ourItems.push_back(ruleItem->item);
+    }
+
+    // Count how many of the preceding rules have the same items
+    int result = 0;
+    for (ast_nonterminal_rules::const_iterator previous = nonterminal.rules.begin(); previous != rule; ++previous) {
+        item_list previousItems;
+        for (ast_rule_item_list::const_iterator ruleItem = previous->second.begin(); ruleItem != previous->second.end(); ++ruleItem) {
+            if (ruleItem->item->type() != item::guard) previousItems.push_back(ruleItem->item);
+        }
+
+        if (previousItems == ourItems) ++result;
+    }
+
+    return result;
+}
+
 //              ================
 //               General output
 //              ================
@@ -1079,8 +1107,7 @@ void output_cplusplus::header_ast_class_declarations() {
             }
 
             // If there are no valid items then we need to declare a position field
-            if (!validItems) {
-                // Presumably there's only one of these
+            if (!validItems && definedVariables.insert("m_Position").second) {
                 *m_HeaderFile << "        dfa::position m_Position;";
             }
 
@@ -1142,6 +1169,11 @@ void output_cplusplus::header_ast_class_declarations() {
                     *m_HeaderFile << "const dfa::position& pos";
                 }
 
+                // Make this constructor different from those of the other rules
+                for (int variant = constructor_variant(ntDefn, ruleDefn); variant > 0; --variant) {
+                    *m_HeaderFile << ", int";
+                }
+
                 *m_HeaderFile << ");\n";
             }
         }
@@ -1277,6 +1309,11 @@ void output_cplusplus::source_ast_class_constructors() {
                 *m_SourceFile << "const dfa::position& pos";
             }
 
+            // Make this constructor different from those of the other rules
+            for (int variant = constructor_variant(ntDefn, ruleDefn); variant > 0; --variant) {
+                *m_SourceFile << ", int";
+            }
+
             *m_SourceFile << ")\n";
 
             // Write out the initializers
@@ -1620,6 +1657,11 @@ void output_cplusplus::source_reduce_actions() {
                     *m_SourceFile << "lookaheadPosition";
                 }
 
+                // Select the constructor for this rule
+                for (int variant = constructor_variant(ntDefn, ruleDefn); variant > 0; --variant) {
+                    *m_SourceFile << ", 0";
+                }
+
                 *m_SourceFile << "));\n";
             }
 
diff --git a/TameParse/Compiler/OutputStages/cplusplus.h b/TameParse/Compiler/OutputStages/cplusplus.h
index 26b7562..9b0f613 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.h
+++ b/TameParse/Compiler/OutputStages/cplusplus.h
@@ -91,6 +91,9 @@ namespace compiler {
         virtual std::wstring output_name(const std::wstring& name);
 
     private:
+        /// \brief Returns the number of rules before the specified one whose constructors have the same parameters
+        int constructor_variant(const ast_nonterminal& nonterminal, ast_nonterminal_rules::const_iterator rule);
+
         /// \brief Writes out the terminal symbols definitions to the header file
         void header_terminal_symbols();
 
-- 
2.43.0


From 8d438e7530bc8b88d2101992126198d6bb36315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 29/58] fix: give every symbol a constant of its own in the
 generated header

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index bd7aaab..7af17b2 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -369,6 +369,7 @@ void output_cplusplus::header_terminal_symbols() {
         }
 
         ++terminalSymbolCount[shortName];
+        if (ourName.str() != shortName) ++terminalSymbolCount[ourName.str()];
 
         // Output a constant for this terminal
         *m_HeaderFile << "        static const int " << ourName.str() << " = " << term->identifier << ";\n";
@@ -415,6 +416,7 @@ void output_cplusplus::header_nonterminal_symbols() {
         }
         
         ++nonterminalSymbolCount[shortName];
+        if (ourName.str() != shortName) ++nonterminalSymbolCount[ourName.str()];
         
         // Output a constant for this terminal
         *m_HeaderFile << "        static const int " << ourName.str() << " = " << nonterm->identifier << ";\n";
-- 
2.43.0


From bad327f189288dc4861105261860f290e5c8ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 30/58] fix: copying the blocks of a definition file copies all
 of their content

---
 TameParse/Language/ebnf_item.cpp              |  1 +
 TameParse/Language/grammar_block.cpp          |  6 ++++
 TameParse/Language/lexer_block.cpp            |  4 +++
 TameParse/Language/nonterminal_definition.cpp |  1 +
 TameParse/Language/precedence_block.cpp       | 36 +++++++++++++++++++
 TameParse/Language/precedence_block.h         |  6 ++++
 TameParse/Language/test_block.cpp             |  2 ++
 TameParse/Language/toplevel_block.cpp         |  5 +++
 8 files changed, 61 insertions(+)

diff --git a/TameParse/Language/ebnf_item.cpp b/TameParse/Language/ebnf_item.cpp
index 4f6d0fa..9966092 100644
--- a/TameParse/Language/ebnf_item.cpp
+++ b/TameParse/Language/ebnf_item.cpp
@@ -72,6 +72,7 @@ ebnf_item& ebnf_item::operator=(const ebnf_item& copyFrom) {
     m_ChildItems.clear();
     
     // Copy the items from the source
+    m_Type              = copyFrom.m_Type;
     m_Identifier        = copyFrom.m_Identifier;
     m_SourceIdentifier  = copyFrom.m_SourceIdentifier;
     m_Attributes        = copyFrom.m_Attributes;
diff --git a/TameParse/Language/grammar_block.cpp b/TameParse/Language/grammar_block.cpp
index 98d1c91..fcc0011 100644
--- a/TameParse/Language/grammar_block.cpp
+++ b/TameParse/Language/grammar_block.cpp
@@ -50,6 +50,9 @@ grammar_block::~grammar_block() {
 
 /// \brief Assigns the value of this grammar block
 grammar_block& grammar_block::operator=(const grammar_block& copyFrom) {
+    // Can't assign to ourselves
+    if (&copyFrom == this) return *this;
+
     // Delete the nonterminals
     for (nonterminal_definition_list::iterator toDelete = m_Nonterminals.begin(); toDelete != m_Nonterminals.end(); ++toDelete) {
         delete *toDelete;
@@ -61,6 +64,9 @@ grammar_block& grammar_block::operator=(const grammar_block& copyFrom) {
         m_Nonterminals.push_back(new nonterminal_definition(**toCopy));
     }
     
+    set_start_pos(copyFrom.start_pos());
+    set_end_pos(copyFrom.end_pos());
+    
     return *this;
 }
 
diff --git a/TameParse/Language/lexer_block.cpp b/TameParse/Language/lexer_block.cpp
index 7db7aae..22ea0a7 100644
--- a/TameParse/Language/lexer_block.cpp
+++ b/TameParse/Language/lexer_block.cpp
@@ -67,6 +67,10 @@ lexer_block& lexer_block::operator=(const lexer_block& copyFrom) {
         m_Lexemes.push_back(new lexeme_definition(**toCopy));
     }
     
+    m_Weak              = copyFrom.m_Weak;
+    m_CaseInsensitive   = copyFrom.m_CaseInsensitive;
+    m_CaseSensitive     = copyFrom.m_CaseSensitive;
+    
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
     
diff --git a/TameParse/Language/nonterminal_definition.cpp b/TameParse/Language/nonterminal_definition.cpp
index 122fd52..02d021e 100644
--- a/TameParse/Language/nonterminal_definition.cpp
+++ b/TameParse/Language/nonterminal_definition.cpp
@@ -66,6 +66,7 @@ nonterminal_definition& nonterminal_definition::operator=(const nonterminal_defi
         m_Productions.push_back(new production_definition(**toCopy));
     }
     
+    m_Type       = copyFrom.m_Type;
     m_Identifier = copyFrom.identifier();
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
diff --git a/TameParse/Language/precedence_block.cpp b/TameParse/Language/precedence_block.cpp
index f8785de..9bed90f 100644
--- a/TameParse/Language/precedence_block.cpp
+++ b/TameParse/Language/precedence_block.cpp
@@ -35,6 +35,42 @@ precedence_block::precedence_block(position& start, position& end)
 : block(start, end) {
 }
 
+/// \brief Copies a precedence block
+precedence_block::precedence_block(const precedence_block& copyFrom)
+: block(copyFrom) {
+    (*this) = copyFrom;
+}
+
+/// \brief Copies the content of another precedence block into this one
+precedence_block& precedence_block::operator=(const precedence_block& copyFrom) {
+    // Can't assign to ourselves
+    if (&copyFrom == this) return *this;
+
+    // Copy the items first, so that this block owns its own versions
+    list newList;
+    for (iterator toCopy = copyFrom.begin(); toCopy != copyFrom.end(); ++toCopy) {
+        item newItem;
+        newItem.assoc = toCopy->assoc;
+        for (ebnf_item_list::const_iterator ebnfItem = toCopy->items.begin(); ebnfItem != toCopy->items.end(); ++ebnfItem) {
+            newItem.items.push_back(new ebnf_item(**ebnfItem));
+        }
+        newList.push_back(newItem);
+    }
+
+    // Replace the existing items
+    for (list::iterator toDelete = m_List.begin(); toDelete != m_List.end(); ++toDelete) {
+        for (ebnf_item_list::iterator ebnfItem = toDelete->items.begin(); ebnfItem != toDelete->items.end(); ++ebnfItem) {
+            delete *ebnfItem;
+        }
+    }
+    m_List.swap(newList);
+
+    set_start_pos(copyFrom.start_pos());
+    set_end_pos(copyFrom.end_pos());
+
+    return *this;
+}
+
 /// \brief Destructor
 precedence_block::~precedence_block() {
     // Free up the items
diff --git a/TameParse/Language/precedence_block.h b/TameParse/Language/precedence_block.h
index b6e8b97..067fa56 100644
--- a/TameParse/Language/precedence_block.h
+++ b/TameParse/Language/precedence_block.h
@@ -76,6 +76,12 @@ namespace yy_language {
         /// \brief Creates a new precedence definition
         precedence_block(position& start, position& end);
         
+        /// \brief Copies a precedence block
+        precedence_block(const precedence_block& copyFrom);
+        
+        /// \brief Copies the content of another precedence block into this one
+        precedence_block& operator=(const precedence_block& copyFrom);
+        
         /// \brief Destructor
         virtual ~precedence_block();
         
diff --git a/TameParse/Language/test_block.cpp b/TameParse/Language/test_block.cpp
index 733cfcb..efab270 100644
--- a/TameParse/Language/test_block.cpp
+++ b/TameParse/Language/test_block.cpp
@@ -54,6 +54,8 @@ test_block& test_block::operator=(const test_block& assignFrom) {
 
     // Assign this object
     m_Language = assignFrom.m_Language;
+    set_start_pos(assignFrom.start_pos());
+    set_end_pos(assignFrom.end_pos());
 
     for (test_block::iterator defn = assignFrom.begin(); defn != assignFrom.end(); ++defn) {
         m_TestDefinitions.push_back(new test_definition(**defn));
diff --git a/TameParse/Language/toplevel_block.cpp b/TameParse/Language/toplevel_block.cpp
index 5eaeb4c..05a0044 100644
--- a/TameParse/Language/toplevel_block.cpp
+++ b/TameParse/Language/toplevel_block.cpp
@@ -97,6 +97,11 @@ toplevel_block& toplevel_block::operator=(const toplevel_block& copyFrom) {
     if (m_ParserBlock)      delete m_ParserBlock;
     if (m_TestBlock)        delete m_TestBlock;
     
+    m_ImportBlock   = NULL;
+    m_LanguageBlock = NULL;
+    m_ParserBlock   = NULL;
+    m_TestBlock     = NULL;
+    
     // Copy
     set_start_pos(copyFrom.start_pos());
     set_end_pos(copyFrom.end_pos());
-- 
2.43.0


From de1180cca231c1b6401b1ed734de27f1cf41eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 31/58] fix: positions of guards, and of productions and items
 whose parts are added later

---
 TameParse/Language/ebnf_item.cpp             | 2 +-
 TameParse/Language/language_parser.cpp       | 2 +-
 TameParse/Language/production_definition.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Language/ebnf_item.cpp b/TameParse/Language/ebnf_item.cpp
index 9966092..dd0a84d 100644
--- a/TameParse/Language/ebnf_item.cpp
+++ b/TameParse/Language/ebnf_item.cpp
@@ -105,7 +105,7 @@ void ebnf_item::add_child(ebnf_item* newChild) {
             
             // If the end position if greater than the current end position, then update it
             if (newChild->end_pos() > end_pos()) {
-                set_end_pos(end_pos());
+                set_end_pos(newChild->end_pos());
             }
         }
     }
diff --git a/TameParse/Language/language_parser.cpp b/TameParse/Language/language_parser.cpp
index 73618e3..14cc0af 100644
--- a/TameParse/Language/language_parser.cpp
+++ b/TameParse/Language/language_parser.cpp
@@ -369,7 +369,7 @@ static ebnf_item* definition_for(const ast_Simple_Ebnf_Item* simpleItem) {
         }
         
         // Turn into a guard item
-        ebnf_item* guardItem = new ebnf_item(ebnf_item::ebnf_guard, attr);
+        ebnf_item* guardItem = new ebnf_item(ebnf_item::ebnf_guard, attr, simpleItem->pos(), simpleItem->final_pos());
         guardItem->add_child(internalItem);
         
         return guardItem;
diff --git a/TameParse/Language/production_definition.cpp b/TameParse/Language/production_definition.cpp
index 1be8e76..ec3dacd 100644
--- a/TameParse/Language/production_definition.cpp
+++ b/TameParse/Language/production_definition.cpp
@@ -82,7 +82,7 @@ void production_definition::add_item(ebnf_item* newItem) {
     }
     
     if (newItem->start_pos() < start_pos()) {
-        set_start_pos(newItem->end_pos());
+        set_start_pos(newItem->start_pos());
     }
     
     if (newItem->end_pos() > end_pos()) {
-- 
2.43.0


From 28307162aefd0a97fc33e0e1695876c8997738e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:23 +0000
Subject: [PATCH 32/58] fix: Unicode classes contain the whole of the ranges
 that the database lists by their first and last character

---
 TameParse/Unicode/unicode.pl     | 3 ++-
 TameParse/Unicode/unicode_data.h | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/TameParse/Unicode/unicode.pl b/TameParse/Unicode/unicode.pl
index 19c87fc..57deef1 100755
--- a/TameParse/Unicode/unicode.pl
+++ b/TameParse/Unicode/unicode.pl
@@ -29,7 +29,8 @@ while ($_ = <>) {
 		$lastRange = $rangeArray->[-1];
 
 		# Compare to the character
-		if ($lastRange->[1] == $charNum - 1) {
+		if ($lastRange->[1] == $charNum - 1 || $fields[1] =~ /, Last>$/) {
+			# Ranges are written as a 'First' character followed by a 'Last' one: everything in between is of the same type
 			# Just update the range
 			$lastRange->[1] = $charNum;
 		} else {
diff --git a/TameParse/Unicode/unicode_data.h b/TameParse/Unicode/unicode_data.h
index 89810a9..2f9113d 100644
--- a/TameParse/Unicode/unicode_data.h
+++ b/TameParse/Unicode/unicode_data.h
@@ -1,6 +1,6 @@
 /* Unicode character type table generated by unicode.pl */
 
-static unicode::range s_RangeCo[] = { { 57344, 57345 }, { 63743, 63744 }, { 983040, 983041 }, { 1048573, 1048574 }, { 1048576, 1048577 }, { 1114109, 1114110 }, { -1, -1 } };
+static unicode::range s_RangeCo[] = { { 57344, 63744 }, { 983040, 1048574 }, { 1048576, 1114110 }, { -1, -1 } };
 static unicode::range s_RangeLm[] = { { 688, 706 }, { 710, 722 }, { 736, 741 }, { 748, 749 }, { 750, 751 }, { 884, 885 }, { 890, 891 }, { 1369, 1370 }, { 1600, 1601 }, { 1765, 1767 }, { 2036, 2038 }, { 2042, 2043 }, { 2074, 2075 }, { 2084, 2085 }, { 2088, 2089 }, { 2417, 2418 }, { 3654, 3655 }, { 3782, 3783 }, { 4348, 4349 }, { 6103, 6104 }, { 6211, 6212 }, { 6823, 6824 }, { 7288, 7294 }, { 7468, 7522 }, { 7544, 7545 }, { 7579, 7616 }, { 8305, 8306 }, { 8319, 8320 }, { 8336, 8349 }, { 11389, 11390 }, { 11631, 11632 }, { 11823, 11824 }, { 12293, 12294 }, { 12337, 12342 }, { 12347, 12348 }, { 12445, 12447 }, { 12540, 12543 }, { 40981, 40982 }, { 42232, 42238 }, { 42508, 42509 }, { 42623, 42624 }, { 42775, 42784 }, { 42864, 42865 }, { 42888, 42889 }, { 43471, 43472 }, { 43632, 43633 }, { 43741, 43742 }, { 65392, 65393 }, { 65438, 65440 }, { -1, -1 } };
 static unicode::range s_RangePd[] = { { 45, 46 }, { 1418, 1419 }, { 1470, 1471 }, { 5120, 5121 }, { 6150, 6151 }, { 8208, 8214 }, { 11799, 11800 }, { 11802, 11803 }, { 12316, 12317 }, { 12336, 12337 }, { 12448, 12449 }, { 65073, 65075 }, { 65112, 65113 }, { 65123, 65124 }, { 65293, 65294 }, { -1, -1 } };
 static unicode::range s_RangeSo[] = { { 166, 168 }, { 169, 170 }, { 174, 175 }, { 176, 177 }, { 182, 183 }, { 1154, 1155 }, { 1550, 1552 }, { 1758, 1759 }, { 1769, 1770 }, { 1789, 1791 }, { 2038, 2039 }, { 2554, 2555 }, { 2928, 2929 }, { 3059, 3065 }, { 3066, 3067 }, { 3199, 3200 }, { 3449, 3450 }, { 3841, 3844 }, { 3859, 3864 }, { 3866, 3872 }, { 3892, 3893 }, { 3894, 3895 }, { 3896, 3897 }, { 4030, 4038 }, { 4039, 4045 }, { 4046, 4048 }, { 4053, 4057 }, { 4254, 4256 }, { 4960, 4961 }, { 5008, 5018 }, { 6464, 6465 }, { 6622, 6656 }, { 7009, 7019 }, { 7028, 7037 }, { 8448, 8450 }, { 8451, 8455 }, { 8456, 8458 }, { 8468, 8469 }, { 8470, 8472 }, { 8478, 8484 }, { 8485, 8486 }, { 8487, 8488 }, { 8489, 8490 }, { 8494, 8495 }, { 8506, 8508 }, { 8522, 8523 }, { 8524, 8526 }, { 8527, 8528 }, { 8597, 8602 }, { 8604, 8608 }, { 8609, 8611 }, { 8612, 8614 }, { 8615, 8622 }, { 8623, 8654 }, { 8656, 8658 }, { 8659, 8660 }, { 8661, 8692 }, { 8960, 8968 }, { 8972, 8992 }, { 8994, 9001 }, { 9003, 9084 }, { 9085, 9115 }, { 9140, 9180 }, { 9186, 9204 }, { 9216, 9255 }, { 9280, 9291 }, { 9372, 9450 }, { 9472, 9655 }, { 9656, 9665 }, { 9666, 9720 }, { 9728, 9839 }, { 9840, 9984 }, { 9985, 10088 }, { 10132, 10176 }, { 10240, 10496 }, { 11008, 11056 }, { 11077, 11079 }, { 11088, 11098 }, { 11493, 11499 }, { 11904, 11930 }, { 11931, 12020 }, { 12032, 12246 }, { 12272, 12284 }, { 12292, 12293 }, { 12306, 12308 }, { 12320, 12321 }, { 12342, 12344 }, { 12350, 12352 }, { 12688, 12690 }, { 12694, 12704 }, { 12736, 12772 }, { 12800, 12831 }, { 12842, 12881 }, { 12896, 12928 }, { 12938, 12977 }, { 12992, 13055 }, { 13056, 13312 }, { 19904, 19968 }, { 42128, 42183 }, { 43048, 43052 }, { 43062, 43064 }, { 43065, 43066 }, { 43639, 43642 }, { 65021, 65022 }, { 65508, 65509 }, { 65512, 65513 }, { 65517, 65519 }, { 65532, 65534 }, { 65794, 65795 }, { 65847, 65856 }, { 65913, 65930 }, { 65936, 65948 }, { 66000, 66045 }, { 118784, 119030 }, { 119040, 119079 }, { 119081, 119141 }, { 119146, 119149 }, { 119171, 119173 }, { 119180, 119210 }, { 119214, 119262 }, { 119296, 119362 }, { 119365, 119366 }, { 119552, 119639 }, { 126976, 127020 }, { 127024, 127124 }, { 127136, 127151 }, { 127153, 127167 }, { 127169, 127184 }, { 127185, 127200 }, { 127248, 127279 }, { 127280, 127338 }, { 127344, 127387 }, { 127462, 127491 }, { 127504, 127547 }, { 127552, 127561 }, { 127568, 127570 }, { 127744, 127777 }, { 127792, 127798 }, { 127799, 127869 }, { 127872, 127892 }, { 127904, 127941 }, { 127942, 127947 }, { 127968, 127985 }, { 128000, 128063 }, { 128064, 128065 }, { 128066, 128248 }, { 128249, 128253 }, { 128256, 128318 }, { 128336, 128360 }, { 128507, 128512 }, { 128513, 128529 }, { 128530, 128533 }, { 128534, 128535 }, { 128536, 128537 }, { 128538, 128539 }, { 128540, 128543 }, { 128544, 128550 }, { 128552, 128556 }, { 128557, 128558 }, { 128560, 128564 }, { 128565, 128577 }, { 128581, 128592 }, { 128640, 128710 }, { 128768, 128884 }, { -1, -1 } };
@@ -18,11 +18,11 @@ static unicode::range s_RangeCc[] = { { 0, 32 }, { 127, 160 }, { -1, -1 } };
 static unicode::range s_RangeLu[] = { { 65, 91 }, { 192, 215 }, { 216, 223 }, { 256, 257 }, { 258, 259 }, { 260, 261 }, { 262, 263 }, { 264, 265 }, { 266, 267 }, { 268, 269 }, { 270, 271 }, { 272, 273 }, { 274, 275 }, { 276, 277 }, { 278, 279 }, { 280, 281 }, { 282, 283 }, { 284, 285 }, { 286, 287 }, { 288, 289 }, { 290, 291 }, { 292, 293 }, { 294, 295 }, { 296, 297 }, { 298, 299 }, { 300, 301 }, { 302, 303 }, { 304, 305 }, { 306, 307 }, { 308, 309 }, { 310, 311 }, { 313, 314 }, { 315, 316 }, { 317, 318 }, { 319, 320 }, { 321, 322 }, { 323, 324 }, { 325, 326 }, { 327, 328 }, { 330, 331 }, { 332, 333 }, { 334, 335 }, { 336, 337 }, { 338, 339 }, { 340, 341 }, { 342, 343 }, { 344, 345 }, { 346, 347 }, { 348, 349 }, { 350, 351 }, { 352, 353 }, { 354, 355 }, { 356, 357 }, { 358, 359 }, { 360, 361 }, { 362, 363 }, { 364, 365 }, { 366, 367 }, { 368, 369 }, { 370, 371 }, { 372, 373 }, { 374, 375 }, { 376, 378 }, { 379, 380 }, { 381, 382 }, { 385, 387 }, { 388, 389 }, { 390, 392 }, { 393, 396 }, { 398, 402 }, { 403, 405 }, { 406, 409 }, { 412, 414 }, { 415, 417 }, { 418, 419 }, { 420, 421 }, { 422, 424 }, { 425, 426 }, { 428, 429 }, { 430, 432 }, { 433, 436 }, { 437, 438 }, { 439, 441 }, { 444, 445 }, { 452, 453 }, { 455, 456 }, { 458, 459 }, { 461, 462 }, { 463, 464 }, { 465, 466 }, { 467, 468 }, { 469, 470 }, { 471, 472 }, { 473, 474 }, { 475, 476 }, { 478, 479 }, { 480, 481 }, { 482, 483 }, { 484, 485 }, { 486, 487 }, { 488, 489 }, { 490, 491 }, { 492, 493 }, { 494, 495 }, { 497, 498 }, { 500, 501 }, { 502, 505 }, { 506, 507 }, { 508, 509 }, { 510, 511 }, { 512, 513 }, { 514, 515 }, { 516, 517 }, { 518, 519 }, { 520, 521 }, { 522, 523 }, { 524, 525 }, { 526, 527 }, { 528, 529 }, { 530, 531 }, { 532, 533 }, { 534, 535 }, { 536, 537 }, { 538, 539 }, { 540, 541 }, { 542, 543 }, { 544, 545 }, { 546, 547 }, { 548, 549 }, { 550, 551 }, { 552, 553 }, { 554, 555 }, { 556, 557 }, { 558, 559 }, { 560, 561 }, { 562, 563 }, { 570, 572 }, { 573, 575 }, { 577, 578 }, { 579, 583 }, { 584, 585 }, { 586, 587 }, { 588, 589 }, { 590, 591 }, { 880, 881 }, { 882, 883 }, { 886, 887 }, { 902, 903 }, { 904, 907 }, { 908, 909 }, { 910, 912 }, { 913, 930 }, { 931, 940 }, { 975, 976 }, { 978, 981 }, { 984, 985 }, { 986, 987 }, { 988, 989 }, { 990, 991 }, { 992, 993 }, { 994, 995 }, { 996, 997 }, { 998, 999 }, { 1000, 1001 }, { 1002, 1003 }, { 1004, 1005 }, { 1006, 1007 }, { 1012, 1013 }, { 1015, 1016 }, { 1017, 1019 }, { 1021, 1072 }, { 1120, 1121 }, { 1122, 1123 }, { 1124, 1125 }, { 1126, 1127 }, { 1128, 1129 }, { 1130, 1131 }, { 1132, 1133 }, { 1134, 1135 }, { 1136, 1137 }, { 1138, 1139 }, { 1140, 1141 }, { 1142, 1143 }, { 1144, 1145 }, { 1146, 1147 }, { 1148, 1149 }, { 1150, 1151 }, { 1152, 1153 }, { 1162, 1163 }, { 1164, 1165 }, { 1166, 1167 }, { 1168, 1169 }, { 1170, 1171 }, { 1172, 1173 }, { 1174, 1175 }, { 1176, 1177 }, { 1178, 1179 }, { 1180, 1181 }, { 1182, 1183 }, { 1184, 1185 }, { 1186, 1187 }, { 1188, 1189 }, { 1190, 1191 }, { 1192, 1193 }, { 1194, 1195 }, { 1196, 1197 }, { 1198, 1199 }, { 1200, 1201 }, { 1202, 1203 }, { 1204, 1205 }, { 1206, 1207 }, { 1208, 1209 }, { 1210, 1211 }, { 1212, 1213 }, { 1214, 1215 }, { 1216, 1218 }, { 1219, 1220 }, { 1221, 1222 }, { 1223, 1224 }, { 1225, 1226 }, { 1227, 1228 }, { 1229, 1230 }, { 1232, 1233 }, { 1234, 1235 }, { 1236, 1237 }, { 1238, 1239 }, { 1240, 1241 }, { 1242, 1243 }, { 1244, 1245 }, { 1246, 1247 }, { 1248, 1249 }, { 1250, 1251 }, { 1252, 1253 }, { 1254, 1255 }, { 1256, 1257 }, { 1258, 1259 }, { 1260, 1261 }, { 1262, 1263 }, { 1264, 1265 }, { 1266, 1267 }, { 1268, 1269 }, { 1270, 1271 }, { 1272, 1273 }, { 1274, 1275 }, { 1276, 1277 }, { 1278, 1279 }, { 1280, 1281 }, { 1282, 1283 }, { 1284, 1285 }, { 1286, 1287 }, { 1288, 1289 }, { 1290, 1291 }, { 1292, 1293 }, { 1294, 1295 }, { 1296, 1297 }, { 1298, 1299 }, { 1300, 1301 }, { 1302, 1303 }, { 1304, 1305 }, { 1306, 1307 }, { 1308, 1309 }, { 1310, 1311 }, { 1312, 1313 }, { 1314, 1315 }, { 1316, 1317 }, { 1318, 1319 }, { 1329, 1367 }, { 4256, 4294 }, { 7680, 7681 }, { 7682, 7683 }, { 7684, 7685 }, { 7686, 7687 }, { 7688, 7689 }, { 7690, 7691 }, { 7692, 7693 }, { 7694, 7695 }, { 7696, 7697 }, { 7698, 7699 }, { 7700, 7701 }, { 7702, 7703 }, { 7704, 7705 }, { 7706, 7707 }, { 7708, 7709 }, { 7710, 7711 }, { 7712, 7713 }, { 7714, 7715 }, { 7716, 7717 }, { 7718, 7719 }, { 7720, 7721 }, { 7722, 7723 }, { 7724, 7725 }, { 7726, 7727 }, { 7728, 7729 }, { 7730, 7731 }, { 7732, 7733 }, { 7734, 7735 }, { 7736, 7737 }, { 7738, 7739 }, { 7740, 7741 }, { 7742, 7743 }, { 7744, 7745 }, { 7746, 7747 }, { 7748, 7749 }, { 7750, 7751 }, { 7752, 7753 }, { 7754, 7755 }, { 7756, 7757 }, { 7758, 7759 }, { 7760, 7761 }, { 7762, 7763 }, { 7764, 7765 }, { 7766, 7767 }, { 7768, 7769 }, { 7770, 7771 }, { 7772, 7773 }, { 7774, 7775 }, { 7776, 7777 }, { 7778, 7779 }, { 7780, 7781 }, { 7782, 7783 }, { 7784, 7785 }, { 7786, 7787 }, { 7788, 7789 }, { 7790, 7791 }, { 7792, 7793 }, { 7794, 7795 }, { 7796, 7797 }, { 7798, 7799 }, { 7800, 7801 }, { 7802, 7803 }, { 7804, 7805 }, { 7806, 7807 }, { 7808, 7809 }, { 7810, 7811 }, { 7812, 7813 }, { 7814, 7815 }, { 7816, 7817 }, { 7818, 7819 }, { 7820, 7821 }, { 7822, 7823 }, { 7824, 7825 }, { 7826, 7827 }, { 7828, 7829 }, { 7838, 7839 }, { 7840, 7841 }, { 7842, 7843 }, { 7844, 7845 }, { 7846, 7847 }, { 7848, 7849 }, { 7850, 7851 }, { 7852, 7853 }, { 7854, 7855 }, { 7856, 7857 }, { 7858, 7859 }, { 7860, 7861 }, { 7862, 7863 }, { 7864, 7865 }, { 7866, 7867 }, { 7868, 7869 }, { 7870, 7871 }, { 7872, 7873 }, { 7874, 7875 }, { 7876, 7877 }, { 7878, 7879 }, { 7880, 7881 }, { 7882, 7883 }, { 7884, 7885 }, { 7886, 7887 }, { 7888, 7889 }, { 7890, 7891 }, { 7892, 7893 }, { 7894, 7895 }, { 7896, 7897 }, { 7898, 7899 }, { 7900, 7901 }, { 7902, 7903 }, { 7904, 7905 }, { 7906, 7907 }, { 7908, 7909 }, { 7910, 7911 }, { 7912, 7913 }, { 7914, 7915 }, { 7916, 7917 }, { 7918, 7919 }, { 7920, 7921 }, { 7922, 7923 }, { 7924, 7925 }, { 7926, 7927 }, { 7928, 7929 }, { 7930, 7931 }, { 7932, 7933 }, { 7934, 7935 }, { 7944, 7952 }, { 7960, 7966 }, { 7976, 7984 }, { 7992, 8000 }, { 8008, 8014 }, { 8025, 8026 }, { 8027, 8028 }, { 8029, 8030 }, { 8031, 8032 }, { 8040, 8048 }, { 8120, 8124 }, { 8136, 8140 }, { 8152, 8156 }, { 8168, 8173 }, { 8184, 8188 }, { 8450, 8451 }, { 8455, 8456 }, { 8459, 8462 }, { 8464, 8467 }, { 8469, 8470 }, { 8473, 8478 }, { 8484, 8485 }, { 8486, 8487 }, { 8488, 8489 }, { 8490, 8494 }, { 8496, 8500 }, { 8510, 8512 }, { 8517, 8518 }, { 8579, 8580 }, { 11264, 11311 }, { 11360, 11361 }, { 11362, 11365 }, { 11367, 11368 }, { 11369, 11370 }, { 11371, 11372 }, { 11373, 11377 }, { 11378, 11379 }, { 11381, 11382 }, { 11390, 11393 }, { 11394, 11395 }, { 11396, 11397 }, { 11398, 11399 }, { 11400, 11401 }, { 11402, 11403 }, { 11404, 11405 }, { 11406, 11407 }, { 11408, 11409 }, { 11410, 11411 }, { 11412, 11413 }, { 11414, 11415 }, { 11416, 11417 }, { 11418, 11419 }, { 11420, 11421 }, { 11422, 11423 }, { 11424, 11425 }, { 11426, 11427 }, { 11428, 11429 }, { 11430, 11431 }, { 11432, 11433 }, { 11434, 11435 }, { 11436, 11437 }, { 11438, 11439 }, { 11440, 11441 }, { 11442, 11443 }, { 11444, 11445 }, { 11446, 11447 }, { 11448, 11449 }, { 11450, 11451 }, { 11452, 11453 }, { 11454, 11455 }, { 11456, 11457 }, { 11458, 11459 }, { 11460, 11461 }, { 11462, 11463 }, { 11464, 11465 }, { 11466, 11467 }, { 11468, 11469 }, { 11470, 11471 }, { 11472, 11473 }, { 11474, 11475 }, { 11476, 11477 }, { 11478, 11479 }, { 11480, 11481 }, { 11482, 11483 }, { 11484, 11485 }, { 11486, 11487 }, { 11488, 11489 }, { 11490, 11491 }, { 11499, 11500 }, { 11501, 11502 }, { 42560, 42561 }, { 42562, 42563 }, { 42564, 42565 }, { 42566, 42567 }, { 42568, 42569 }, { 42570, 42571 }, { 42572, 42573 }, { 42574, 42575 }, { 42576, 42577 }, { 42578, 42579 }, { 42580, 42581 }, { 42582, 42583 }, { 42584, 42585 }, { 42586, 42587 }, { 42588, 42589 }, { 42590, 42591 }, { 42592, 42593 }, { 42594, 42595 }, { 42596, 42597 }, { 42598, 42599 }, { 42600, 42601 }, { 42602, 42603 }, { 42604, 42605 }, { 42624, 42625 }, { 42626, 42627 }, { 42628, 42629 }, { 42630, 42631 }, { 42632, 42633 }, { 42634, 42635 }, { 42636, 42637 }, { 42638, 42639 }, { 42640, 42641 }, { 42642, 42643 }, { 42644, 42645 }, { 42646, 42647 }, { 42786, 42787 }, { 42788, 42789 }, { 42790, 42791 }, { 42792, 42793 }, { 42794, 42795 }, { 42796, 42797 }, { 42798, 42799 }, { 42802, 42803 }, { 42804, 42805 }, { 42806, 42807 }, { 42808, 42809 }, { 42810, 42811 }, { 42812, 42813 }, { 42814, 42815 }, { 42816, 42817 }, { 42818, 42819 }, { 42820, 42821 }, { 42822, 42823 }, { 42824, 42825 }, { 42826, 42827 }, { 42828, 42829 }, { 42830, 42831 }, { 42832, 42833 }, { 42834, 42835 }, { 42836, 42837 }, { 42838, 42839 }, { 42840, 42841 }, { 42842, 42843 }, { 42844, 42845 }, { 42846, 42847 }, { 42848, 42849 }, { 42850, 42851 }, { 42852, 42853 }, { 42854, 42855 }, { 42856, 42857 }, { 42858, 42859 }, { 42860, 42861 }, { 42862, 42863 }, { 42873, 42874 }, { 42875, 42876 }, { 42877, 42879 }, { 42880, 42881 }, { 42882, 42883 }, { 42884, 42885 }, { 42886, 42887 }, { 42891, 42892 }, { 42893, 42894 }, { 42896, 42897 }, { 42912, 42913 }, { 42914, 42915 }, { 42916, 42917 }, { 42918, 42919 }, { 42920, 42921 }, { 65313, 65339 }, { 66560, 66600 }, { 119808, 119834 }, { 119860, 119886 }, { 119912, 119938 }, { 119964, 119965 }, { 119966, 119968 }, { 119970, 119971 }, { 119973, 119975 }, { 119977, 119981 }, { 119982, 119990 }, { 120016, 120042 }, { 120068, 120070 }, { 120071, 120075 }, { 120077, 120085 }, { 120086, 120093 }, { 120120, 120122 }, { 120123, 120127 }, { 120128, 120133 }, { 120134, 120135 }, { 120138, 120145 }, { 120172, 120198 }, { 120224, 120250 }, { 120276, 120302 }, { 120328, 120354 }, { 120380, 120406 }, { 120432, 120458 }, { 120488, 120513 }, { 120546, 120571 }, { 120604, 120629 }, { 120662, 120687 }, { 120720, 120745 }, { 120778, 120779 }, { -1, -1 } };
 static unicode::range s_RangeMc[] = { { 2307, 2308 }, { 2363, 2364 }, { 2366, 2369 }, { 2377, 2381 }, { 2382, 2384 }, { 2434, 2436 }, { 2494, 2497 }, { 2503, 2505 }, { 2507, 2509 }, { 2519, 2520 }, { 2563, 2564 }, { 2622, 2625 }, { 2691, 2692 }, { 2750, 2753 }, { 2761, 2762 }, { 2763, 2765 }, { 2818, 2820 }, { 2878, 2879 }, { 2880, 2881 }, { 2887, 2889 }, { 2891, 2893 }, { 2903, 2904 }, { 3006, 3008 }, { 3009, 3011 }, { 3014, 3017 }, { 3018, 3021 }, { 3031, 3032 }, { 3073, 3076 }, { 3137, 3141 }, { 3202, 3204 }, { 3262, 3263 }, { 3264, 3269 }, { 3271, 3273 }, { 3274, 3276 }, { 3285, 3287 }, { 3330, 3332 }, { 3390, 3393 }, { 3398, 3401 }, { 3402, 3405 }, { 3415, 3416 }, { 3458, 3460 }, { 3535, 3538 }, { 3544, 3552 }, { 3570, 3572 }, { 3902, 3904 }, { 3967, 3968 }, { 4139, 4141 }, { 4145, 4146 }, { 4152, 4153 }, { 4155, 4157 }, { 4182, 4184 }, { 4194, 4197 }, { 4199, 4206 }, { 4227, 4229 }, { 4231, 4237 }, { 4239, 4240 }, { 4250, 4253 }, { 6070, 6071 }, { 6078, 6086 }, { 6087, 6089 }, { 6435, 6439 }, { 6441, 6444 }, { 6448, 6450 }, { 6451, 6457 }, { 6576, 6593 }, { 6600, 6602 }, { 6681, 6684 }, { 6741, 6742 }, { 6743, 6744 }, { 6753, 6754 }, { 6755, 6757 }, { 6765, 6771 }, { 6916, 6917 }, { 6965, 6966 }, { 6971, 6972 }, { 6973, 6978 }, { 6979, 6981 }, { 7042, 7043 }, { 7073, 7074 }, { 7078, 7080 }, { 7082, 7083 }, { 7143, 7144 }, { 7146, 7149 }, { 7150, 7151 }, { 7154, 7156 }, { 7204, 7212 }, { 7220, 7222 }, { 7393, 7394 }, { 7410, 7411 }, { 43043, 43045 }, { 43047, 43048 }, { 43136, 43138 }, { 43188, 43204 }, { 43346, 43348 }, { 43395, 43396 }, { 43444, 43446 }, { 43450, 43452 }, { 43453, 43457 }, { 43567, 43569 }, { 43571, 43573 }, { 43597, 43598 }, { 43643, 43644 }, { 44003, 44005 }, { 44006, 44008 }, { 44009, 44011 }, { 44012, 44013 }, { 69632, 69633 }, { 69634, 69635 }, { 69762, 69763 }, { 69808, 69811 }, { 69815, 69817 }, { 119141, 119143 }, { 119149, 119155 }, { -1, -1 } };
 static unicode::range s_RangeSm[] = { { 43, 44 }, { 60, 63 }, { 124, 125 }, { 126, 127 }, { 172, 173 }, { 177, 178 }, { 215, 216 }, { 247, 248 }, { 1014, 1015 }, { 1542, 1545 }, { 8260, 8261 }, { 8274, 8275 }, { 8314, 8317 }, { 8330, 8333 }, { 8472, 8473 }, { 8512, 8517 }, { 8523, 8524 }, { 8592, 8597 }, { 8602, 8604 }, { 8608, 8609 }, { 8611, 8612 }, { 8614, 8615 }, { 8622, 8623 }, { 8654, 8656 }, { 8658, 8659 }, { 8660, 8661 }, { 8692, 8960 }, { 8968, 8972 }, { 8992, 8994 }, { 9084, 9085 }, { 9115, 9140 }, { 9180, 9186 }, { 9655, 9656 }, { 9665, 9666 }, { 9720, 9728 }, { 9839, 9840 }, { 10176, 10181 }, { 10183, 10187 }, { 10188, 10189 }, { 10190, 10214 }, { 10224, 10240 }, { 10496, 10627 }, { 10649, 10712 }, { 10716, 10748 }, { 10750, 11008 }, { 11056, 11077 }, { 11079, 11085 }, { 64297, 64298 }, { 65122, 65123 }, { 65124, 65127 }, { 65291, 65292 }, { 65308, 65311 }, { 65372, 65373 }, { 65374, 65375 }, { 65506, 65507 }, { 65513, 65517 }, { 120513, 120514 }, { 120539, 120540 }, { 120571, 120572 }, { 120597, 120598 }, { 120629, 120630 }, { 120655, 120656 }, { 120687, 120688 }, { 120713, 120714 }, { 120745, 120746 }, { 120771, 120772 }, { -1, -1 } };
-static unicode::range s_RangeCs[] = { { 55296, 55297 }, { 56191, 56193 }, { 56319, 56321 }, { 57343, 57344 }, { -1, -1 } };
+static unicode::range s_RangeCs[] = { { 55296, 57344 }, { -1, -1 } };
 static unicode::range s_RangeLt[] = { { 453, 454 }, { 456, 457 }, { 459, 460 }, { 498, 499 }, { 8072, 8080 }, { 8088, 8096 }, { 8104, 8112 }, { 8124, 8125 }, { 8140, 8141 }, { 8188, 8189 }, { -1, -1 } };
 static unicode::range s_RangePc[] = { { 95, 96 }, { 8255, 8257 }, { 8276, 8277 }, { 65075, 65077 }, { 65101, 65104 }, { 65343, 65344 }, { -1, -1 } };
 static unicode::range s_RangeNl[] = { { 5870, 5873 }, { 8544, 8579 }, { 8581, 8585 }, { 12295, 12296 }, { 12321, 12330 }, { 12344, 12347 }, { 42726, 42736 }, { 65856, 65909 }, { 66369, 66370 }, { 66378, 66379 }, { 66513, 66518 }, { 74752, 74851 }, { -1, -1 } };
-static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 13313 }, { 19893, 19894 }, { 19968, 19969 }, { 40907, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 44033 }, { 55203, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 131073 }, { 173782, 173783 }, { 173824, 173825 }, { 177972, 177973 }, { 177984, 177985 }, { 178205, 178206 }, { 194560, 195102 }, { -1, -1 } };
+static unicode::range s_RangeLo[] = { { 443, 444 }, { 448, 452 }, { 660, 661 }, { 1488, 1515 }, { 1520, 1523 }, { 1568, 1600 }, { 1601, 1611 }, { 1646, 1648 }, { 1649, 1748 }, { 1749, 1750 }, { 1774, 1776 }, { 1786, 1789 }, { 1791, 1792 }, { 1808, 1809 }, { 1810, 1840 }, { 1869, 1958 }, { 1969, 1970 }, { 1994, 2027 }, { 2048, 2070 }, { 2112, 2137 }, { 2308, 2362 }, { 2365, 2366 }, { 2384, 2385 }, { 2392, 2402 }, { 2418, 2424 }, { 2425, 2432 }, { 2437, 2445 }, { 2447, 2449 }, { 2451, 2473 }, { 2474, 2481 }, { 2482, 2483 }, { 2486, 2490 }, { 2493, 2494 }, { 2510, 2511 }, { 2524, 2526 }, { 2527, 2530 }, { 2544, 2546 }, { 2565, 2571 }, { 2575, 2577 }, { 2579, 2601 }, { 2602, 2609 }, { 2610, 2612 }, { 2613, 2615 }, { 2616, 2618 }, { 2649, 2653 }, { 2654, 2655 }, { 2674, 2677 }, { 2693, 2702 }, { 2703, 2706 }, { 2707, 2729 }, { 2730, 2737 }, { 2738, 2740 }, { 2741, 2746 }, { 2749, 2750 }, { 2768, 2769 }, { 2784, 2786 }, { 2821, 2829 }, { 2831, 2833 }, { 2835, 2857 }, { 2858, 2865 }, { 2866, 2868 }, { 2869, 2874 }, { 2877, 2878 }, { 2908, 2910 }, { 2911, 2914 }, { 2929, 2930 }, { 2947, 2948 }, { 2949, 2955 }, { 2958, 2961 }, { 2962, 2966 }, { 2969, 2971 }, { 2972, 2973 }, { 2974, 2976 }, { 2979, 2981 }, { 2984, 2987 }, { 2990, 3002 }, { 3024, 3025 }, { 3077, 3085 }, { 3086, 3089 }, { 3090, 3113 }, { 3114, 3124 }, { 3125, 3130 }, { 3133, 3134 }, { 3160, 3162 }, { 3168, 3170 }, { 3205, 3213 }, { 3214, 3217 }, { 3218, 3241 }, { 3242, 3252 }, { 3253, 3258 }, { 3261, 3262 }, { 3294, 3295 }, { 3296, 3298 }, { 3313, 3315 }, { 3333, 3341 }, { 3342, 3345 }, { 3346, 3387 }, { 3389, 3390 }, { 3406, 3407 }, { 3424, 3426 }, { 3450, 3456 }, { 3461, 3479 }, { 3482, 3506 }, { 3507, 3516 }, { 3517, 3518 }, { 3520, 3527 }, { 3585, 3633 }, { 3634, 3636 }, { 3648, 3654 }, { 3713, 3715 }, { 3716, 3717 }, { 3719, 3721 }, { 3722, 3723 }, { 3725, 3726 }, { 3732, 3736 }, { 3737, 3744 }, { 3745, 3748 }, { 3749, 3750 }, { 3751, 3752 }, { 3754, 3756 }, { 3757, 3761 }, { 3762, 3764 }, { 3773, 3774 }, { 3776, 3781 }, { 3804, 3806 }, { 3840, 3841 }, { 3904, 3912 }, { 3913, 3949 }, { 3976, 3981 }, { 4096, 4139 }, { 4159, 4160 }, { 4176, 4182 }, { 4186, 4190 }, { 4193, 4194 }, { 4197, 4199 }, { 4206, 4209 }, { 4213, 4226 }, { 4238, 4239 }, { 4304, 4347 }, { 4352, 4681 }, { 4682, 4686 }, { 4688, 4695 }, { 4696, 4697 }, { 4698, 4702 }, { 4704, 4745 }, { 4746, 4750 }, { 4752, 4785 }, { 4786, 4790 }, { 4792, 4799 }, { 4800, 4801 }, { 4802, 4806 }, { 4808, 4823 }, { 4824, 4881 }, { 4882, 4886 }, { 4888, 4955 }, { 4992, 5008 }, { 5024, 5109 }, { 5121, 5741 }, { 5743, 5760 }, { 5761, 5787 }, { 5792, 5867 }, { 5888, 5901 }, { 5902, 5906 }, { 5920, 5938 }, { 5952, 5970 }, { 5984, 5997 }, { 5998, 6001 }, { 6016, 6068 }, { 6108, 6109 }, { 6176, 6211 }, { 6212, 6264 }, { 6272, 6313 }, { 6314, 6315 }, { 6320, 6390 }, { 6400, 6429 }, { 6480, 6510 }, { 6512, 6517 }, { 6528, 6572 }, { 6593, 6600 }, { 6656, 6679 }, { 6688, 6741 }, { 6917, 6964 }, { 6981, 6988 }, { 7043, 7073 }, { 7086, 7088 }, { 7104, 7142 }, { 7168, 7204 }, { 7245, 7248 }, { 7258, 7288 }, { 7401, 7405 }, { 7406, 7410 }, { 8501, 8505 }, { 11568, 11622 }, { 11648, 11671 }, { 11680, 11687 }, { 11688, 11695 }, { 11696, 11703 }, { 11704, 11711 }, { 11712, 11719 }, { 11720, 11727 }, { 11728, 11735 }, { 11736, 11743 }, { 12294, 12295 }, { 12348, 12349 }, { 12353, 12439 }, { 12447, 12448 }, { 12449, 12539 }, { 12543, 12544 }, { 12549, 12590 }, { 12593, 12687 }, { 12704, 12731 }, { 12784, 12800 }, { 13312, 19894 }, { 19968, 40908 }, { 40960, 40981 }, { 40982, 42125 }, { 42192, 42232 }, { 42240, 42508 }, { 42512, 42528 }, { 42538, 42540 }, { 42606, 42607 }, { 42656, 42726 }, { 43003, 43010 }, { 43011, 43014 }, { 43015, 43019 }, { 43020, 43043 }, { 43072, 43124 }, { 43138, 43188 }, { 43250, 43256 }, { 43259, 43260 }, { 43274, 43302 }, { 43312, 43335 }, { 43360, 43389 }, { 43396, 43443 }, { 43520, 43561 }, { 43584, 43587 }, { 43588, 43596 }, { 43616, 43632 }, { 43633, 43639 }, { 43642, 43643 }, { 43648, 43696 }, { 43697, 43698 }, { 43701, 43703 }, { 43705, 43710 }, { 43712, 43713 }, { 43714, 43715 }, { 43739, 43741 }, { 43777, 43783 }, { 43785, 43791 }, { 43793, 43799 }, { 43808, 43815 }, { 43816, 43823 }, { 43968, 44003 }, { 44032, 55204 }, { 55216, 55239 }, { 55243, 55292 }, { 63744, 64046 }, { 64048, 64110 }, { 64112, 64218 }, { 64285, 64286 }, { 64287, 64297 }, { 64298, 64311 }, { 64312, 64317 }, { 64318, 64319 }, { 64320, 64322 }, { 64323, 64325 }, { 64326, 64434 }, { 64467, 64830 }, { 64848, 64912 }, { 64914, 64968 }, { 65008, 65020 }, { 65136, 65141 }, { 65142, 65277 }, { 65382, 65392 }, { 65393, 65438 }, { 65440, 65471 }, { 65474, 65480 }, { 65482, 65488 }, { 65490, 65496 }, { 65498, 65501 }, { 65536, 65548 }, { 65549, 65575 }, { 65576, 65595 }, { 65596, 65598 }, { 65599, 65614 }, { 65616, 65630 }, { 65664, 65787 }, { 66176, 66205 }, { 66208, 66257 }, { 66304, 66335 }, { 66352, 66369 }, { 66370, 66378 }, { 66432, 66462 }, { 66464, 66500 }, { 66504, 66512 }, { 66640, 66718 }, { 67584, 67590 }, { 67592, 67593 }, { 67594, 67638 }, { 67639, 67641 }, { 67644, 67645 }, { 67647, 67670 }, { 67840, 67862 }, { 67872, 67898 }, { 68096, 68097 }, { 68112, 68116 }, { 68117, 68120 }, { 68121, 68148 }, { 68192, 68221 }, { 68352, 68406 }, { 68416, 68438 }, { 68448, 68467 }, { 68608, 68681 }, { 69635, 69688 }, { 69763, 69808 }, { 73728, 74607 }, { 77824, 78895 }, { 92160, 92729 }, { 110592, 110594 }, { 131072, 173783 }, { 173824, 177973 }, { 177984, 178206 }, { 194560, 195102 }, { -1, -1 } };
 static unicode::range s_RangePi[] = { { 171, 172 }, { 8216, 8217 }, { 8219, 8221 }, { 8223, 8224 }, { 8249, 8250 }, { 11778, 11779 }, { 11780, 11781 }, { 11785, 11786 }, { 11788, 11789 }, { 11804, 11805 }, { 11808, 11809 }, { -1, -1 } };
 static unicode::range s_RangeMe[] = { { 1160, 1162 }, { 8413, 8417 }, { 8418, 8421 }, { 42608, 42611 }, { -1, -1 } };
 static unicode::range s_RangeLl[] = { { 97, 123 }, { 170, 171 }, { 181, 182 }, { 186, 187 }, { 223, 247 }, { 248, 256 }, { 257, 258 }, { 259, 260 }, { 261, 262 }, { 263, 264 }, { 265, 266 }, { 267, 268 }, { 269, 270 }, { 271, 272 }, { 273, 274 }, { 275, 276 }, { 277, 278 }, { 279, 280 }, { 281, 282 }, { 283, 284 }, { 285, 286 }, { 287, 288 }, { 289, 290 }, { 291, 292 }, { 293, 294 }, { 295, 296 }, { 297, 298 }, { 299, 300 }, { 301, 302 }, { 303, 304 }, { 305, 306 }, { 307, 308 }, { 309, 310 }, { 311, 313 }, { 314, 315 }, { 316, 317 }, { 318, 319 }, { 320, 321 }, { 322, 323 }, { 324, 325 }, { 326, 327 }, { 328, 330 }, { 331, 332 }, { 333, 334 }, { 335, 336 }, { 337, 338 }, { 339, 340 }, { 341, 342 }, { 343, 344 }, { 345, 346 }, { 347, 348 }, { 349, 350 }, { 351, 352 }, { 353, 354 }, { 355, 356 }, { 357, 358 }, { 359, 360 }, { 361, 362 }, { 363, 364 }, { 365, 366 }, { 367, 368 }, { 369, 370 }, { 371, 372 }, { 373, 374 }, { 375, 376 }, { 378, 379 }, { 380, 381 }, { 382, 385 }, { 387, 388 }, { 389, 390 }, { 392, 393 }, { 396, 398 }, { 402, 403 }, { 405, 406 }, { 409, 412 }, { 414, 415 }, { 417, 418 }, { 419, 420 }, { 421, 422 }, { 424, 425 }, { 426, 428 }, { 429, 430 }, { 432, 433 }, { 436, 437 }, { 438, 439 }, { 441, 443 }, { 445, 448 }, { 454, 455 }, { 457, 458 }, { 460, 461 }, { 462, 463 }, { 464, 465 }, { 466, 467 }, { 468, 469 }, { 470, 471 }, { 472, 473 }, { 474, 475 }, { 476, 478 }, { 479, 480 }, { 481, 482 }, { 483, 484 }, { 485, 486 }, { 487, 488 }, { 489, 490 }, { 491, 492 }, { 493, 494 }, { 495, 497 }, { 499, 500 }, { 501, 502 }, { 505, 506 }, { 507, 508 }, { 509, 510 }, { 511, 512 }, { 513, 514 }, { 515, 516 }, { 517, 518 }, { 519, 520 }, { 521, 522 }, { 523, 524 }, { 525, 526 }, { 527, 528 }, { 529, 530 }, { 531, 532 }, { 533, 534 }, { 535, 536 }, { 537, 538 }, { 539, 540 }, { 541, 542 }, { 543, 544 }, { 545, 546 }, { 547, 548 }, { 549, 550 }, { 551, 552 }, { 553, 554 }, { 555, 556 }, { 557, 558 }, { 559, 560 }, { 561, 562 }, { 563, 570 }, { 572, 573 }, { 575, 577 }, { 578, 579 }, { 583, 584 }, { 585, 586 }, { 587, 588 }, { 589, 590 }, { 591, 660 }, { 661, 688 }, { 881, 882 }, { 883, 884 }, { 887, 888 }, { 891, 894 }, { 912, 913 }, { 940, 975 }, { 976, 978 }, { 981, 984 }, { 985, 986 }, { 987, 988 }, { 989, 990 }, { 991, 992 }, { 993, 994 }, { 995, 996 }, { 997, 998 }, { 999, 1000 }, { 1001, 1002 }, { 1003, 1004 }, { 1005, 1006 }, { 1007, 1012 }, { 1013, 1014 }, { 1016, 1017 }, { 1019, 1021 }, { 1072, 1120 }, { 1121, 1122 }, { 1123, 1124 }, { 1125, 1126 }, { 1127, 1128 }, { 1129, 1130 }, { 1131, 1132 }, { 1133, 1134 }, { 1135, 1136 }, { 1137, 1138 }, { 1139, 1140 }, { 1141, 1142 }, { 1143, 1144 }, { 1145, 1146 }, { 1147, 1148 }, { 1149, 1150 }, { 1151, 1152 }, { 1153, 1154 }, { 1163, 1164 }, { 1165, 1166 }, { 1167, 1168 }, { 1169, 1170 }, { 1171, 1172 }, { 1173, 1174 }, { 1175, 1176 }, { 1177, 1178 }, { 1179, 1180 }, { 1181, 1182 }, { 1183, 1184 }, { 1185, 1186 }, { 1187, 1188 }, { 1189, 1190 }, { 1191, 1192 }, { 1193, 1194 }, { 1195, 1196 }, { 1197, 1198 }, { 1199, 1200 }, { 1201, 1202 }, { 1203, 1204 }, { 1205, 1206 }, { 1207, 1208 }, { 1209, 1210 }, { 1211, 1212 }, { 1213, 1214 }, { 1215, 1216 }, { 1218, 1219 }, { 1220, 1221 }, { 1222, 1223 }, { 1224, 1225 }, { 1226, 1227 }, { 1228, 1229 }, { 1230, 1232 }, { 1233, 1234 }, { 1235, 1236 }, { 1237, 1238 }, { 1239, 1240 }, { 1241, 1242 }, { 1243, 1244 }, { 1245, 1246 }, { 1247, 1248 }, { 1249, 1250 }, { 1251, 1252 }, { 1253, 1254 }, { 1255, 1256 }, { 1257, 1258 }, { 1259, 1260 }, { 1261, 1262 }, { 1263, 1264 }, { 1265, 1266 }, { 1267, 1268 }, { 1269, 1270 }, { 1271, 1272 }, { 1273, 1274 }, { 1275, 1276 }, { 1277, 1278 }, { 1279, 1280 }, { 1281, 1282 }, { 1283, 1284 }, { 1285, 1286 }, { 1287, 1288 }, { 1289, 1290 }, { 1291, 1292 }, { 1293, 1294 }, { 1295, 1296 }, { 1297, 1298 }, { 1299, 1300 }, { 1301, 1302 }, { 1303, 1304 }, { 1305, 1306 }, { 1307, 1308 }, { 1309, 1310 }, { 1311, 1312 }, { 1313, 1314 }, { 1315, 1316 }, { 1317, 1318 }, { 1319, 1320 }, { 1377, 1416 }, { 7424, 7468 }, { 7522, 7544 }, { 7545, 7579 }, { 7681, 7682 }, { 7683, 7684 }, { 7685, 7686 }, { 7687, 7688 }, { 7689, 7690 }, { 7691, 7692 }, { 7693, 7694 }, { 7695, 7696 }, { 7697, 7698 }, { 7699, 7700 }, { 7701, 7702 }, { 7703, 7704 }, { 7705, 7706 }, { 7707, 7708 }, { 7709, 7710 }, { 7711, 7712 }, { 7713, 7714 }, { 7715, 7716 }, { 7717, 7718 }, { 7719, 7720 }, { 7721, 7722 }, { 7723, 7724 }, { 7725, 7726 }, { 7727, 7728 }, { 7729, 7730 }, { 7731, 7732 }, { 7733, 7734 }, { 7735, 7736 }, { 7737, 7738 }, { 7739, 7740 }, { 7741, 7742 }, { 7743, 7744 }, { 7745, 7746 }, { 7747, 7748 }, { 7749, 7750 }, { 7751, 7752 }, { 7753, 7754 }, { 7755, 7756 }, { 7757, 7758 }, { 7759, 7760 }, { 7761, 7762 }, { 7763, 7764 }, { 7765, 7766 }, { 7767, 7768 }, { 7769, 7770 }, { 7771, 7772 }, { 7773, 7774 }, { 7775, 7776 }, { 7777, 7778 }, { 7779, 7780 }, { 7781, 7782 }, { 7783, 7784 }, { 7785, 7786 }, { 7787, 7788 }, { 7789, 7790 }, { 7791, 7792 }, { 7793, 7794 }, { 7795, 7796 }, { 7797, 7798 }, { 7799, 7800 }, { 7801, 7802 }, { 7803, 7804 }, { 7805, 7806 }, { 7807, 7808 }, { 7809, 7810 }, { 7811, 7812 }, { 7813, 7814 }, { 7815, 7816 }, { 7817, 7818 }, { 7819, 7820 }, { 7821, 7822 }, { 7823, 7824 }, { 7825, 7826 }, { 7827, 7828 }, { 7829, 7838 }, { 7839, 7840 }, { 7841, 7842 }, { 7843, 7844 }, { 7845, 7846 }, { 7847, 7848 }, { 7849, 7850 }, { 7851, 7852 }, { 7853, 7854 }, { 7855, 7856 }, { 7857, 7858 }, { 7859, 7860 }, { 7861, 7862 }, { 7863, 7864 }, { 7865, 7866 }, { 7867, 7868 }, { 7869, 7870 }, { 7871, 7872 }, { 7873, 7874 }, { 7875, 7876 }, { 7877, 7878 }, { 7879, 7880 }, { 7881, 7882 }, { 7883, 7884 }, { 7885, 7886 }, { 7887, 7888 }, { 7889, 7890 }, { 7891, 7892 }, { 7893, 7894 }, { 7895, 7896 }, { 7897, 7898 }, { 7899, 7900 }, { 7901, 7902 }, { 7903, 7904 }, { 7905, 7906 }, { 7907, 7908 }, { 7909, 7910 }, { 7911, 7912 }, { 7913, 7914 }, { 7915, 7916 }, { 7917, 7918 }, { 7919, 7920 }, { 7921, 7922 }, { 7923, 7924 }, { 7925, 7926 }, { 7927, 7928 }, { 7929, 7930 }, { 7931, 7932 }, { 7933, 7934 }, { 7935, 7944 }, { 7952, 7958 }, { 7968, 7976 }, { 7984, 7992 }, { 8000, 8006 }, { 8016, 8024 }, { 8032, 8040 }, { 8048, 8062 }, { 8064, 8072 }, { 8080, 8088 }, { 8096, 8104 }, { 8112, 8117 }, { 8118, 8120 }, { 8126, 8127 }, { 8130, 8133 }, { 8134, 8136 }, { 8144, 8148 }, { 8150, 8152 }, { 8160, 8168 }, { 8178, 8181 }, { 8182, 8184 }, { 8458, 8459 }, { 8462, 8464 }, { 8467, 8468 }, { 8495, 8496 }, { 8500, 8501 }, { 8505, 8506 }, { 8508, 8510 }, { 8518, 8522 }, { 8526, 8527 }, { 8580, 8581 }, { 11312, 11359 }, { 11361, 11362 }, { 11365, 11367 }, { 11368, 11369 }, { 11370, 11371 }, { 11372, 11373 }, { 11377, 11378 }, { 11379, 11381 }, { 11382, 11389 }, { 11393, 11394 }, { 11395, 11396 }, { 11397, 11398 }, { 11399, 11400 }, { 11401, 11402 }, { 11403, 11404 }, { 11405, 11406 }, { 11407, 11408 }, { 11409, 11410 }, { 11411, 11412 }, { 11413, 11414 }, { 11415, 11416 }, { 11417, 11418 }, { 11419, 11420 }, { 11421, 11422 }, { 11423, 11424 }, { 11425, 11426 }, { 11427, 11428 }, { 11429, 11430 }, { 11431, 11432 }, { 11433, 11434 }, { 11435, 11436 }, { 11437, 11438 }, { 11439, 11440 }, { 11441, 11442 }, { 11443, 11444 }, { 11445, 11446 }, { 11447, 11448 }, { 11449, 11450 }, { 11451, 11452 }, { 11453, 11454 }, { 11455, 11456 }, { 11457, 11458 }, { 11459, 11460 }, { 11461, 11462 }, { 11463, 11464 }, { 11465, 11466 }, { 11467, 11468 }, { 11469, 11470 }, { 11471, 11472 }, { 11473, 11474 }, { 11475, 11476 }, { 11477, 11478 }, { 11479, 11480 }, { 11481, 11482 }, { 11483, 11484 }, { 11485, 11486 }, { 11487, 11488 }, { 11489, 11490 }, { 11491, 11493 }, { 11500, 11501 }, { 11502, 11503 }, { 11520, 11558 }, { 42561, 42562 }, { 42563, 42564 }, { 42565, 42566 }, { 42567, 42568 }, { 42569, 42570 }, { 42571, 42572 }, { 42573, 42574 }, { 42575, 42576 }, { 42577, 42578 }, { 42579, 42580 }, { 42581, 42582 }, { 42583, 42584 }, { 42585, 42586 }, { 42587, 42588 }, { 42589, 42590 }, { 42591, 42592 }, { 42593, 42594 }, { 42595, 42596 }, { 42597, 42598 }, { 42599, 42600 }, { 42601, 42602 }, { 42603, 42604 }, { 42605, 42606 }, { 42625, 42626 }, { 42627, 42628 }, { 42629, 42630 }, { 42631, 42632 }, { 42633, 42634 }, { 42635, 42636 }, { 42637, 42638 }, { 42639, 42640 }, { 42641, 42642 }, { 42643, 42644 }, { 42645, 42646 }, { 42647, 42648 }, { 42787, 42788 }, { 42789, 42790 }, { 42791, 42792 }, { 42793, 42794 }, { 42795, 42796 }, { 42797, 42798 }, { 42799, 42802 }, { 42803, 42804 }, { 42805, 42806 }, { 42807, 42808 }, { 42809, 42810 }, { 42811, 42812 }, { 42813, 42814 }, { 42815, 42816 }, { 42817, 42818 }, { 42819, 42820 }, { 42821, 42822 }, { 42823, 42824 }, { 42825, 42826 }, { 42827, 42828 }, { 42829, 42830 }, { 42831, 42832 }, { 42833, 42834 }, { 42835, 42836 }, { 42837, 42838 }, { 42839, 42840 }, { 42841, 42842 }, { 42843, 42844 }, { 42845, 42846 }, { 42847, 42848 }, { 42849, 42850 }, { 42851, 42852 }, { 42853, 42854 }, { 42855, 42856 }, { 42857, 42858 }, { 42859, 42860 }, { 42861, 42862 }, { 42863, 42864 }, { 42865, 42873 }, { 42874, 42875 }, { 42876, 42877 }, { 42879, 42880 }, { 42881, 42882 }, { 42883, 42884 }, { 42885, 42886 }, { 42887, 42888 }, { 42892, 42893 }, { 42894, 42895 }, { 42897, 42898 }, { 42913, 42914 }, { 42915, 42916 }, { 42917, 42918 }, { 42919, 42920 }, { 42921, 42922 }, { 43002, 43003 }, { 64256, 64263 }, { 64275, 64280 }, { 65345, 65371 }, { 66600, 66640 }, { 119834, 119860 }, { 119886, 119893 }, { 119894, 119912 }, { 119938, 119964 }, { 119990, 119994 }, { 119995, 119996 }, { 119997, 120004 }, { 120005, 120016 }, { 120042, 120068 }, { 120094, 120120 }, { 120146, 120172 }, { 120198, 120224 }, { 120250, 120276 }, { 120302, 120328 }, { 120354, 120380 }, { 120406, 120432 }, { 120458, 120486 }, { 120514, 120539 }, { 120540, 120546 }, { 120572, 120597 }, { 120598, 120604 }, { 120630, 120655 }, { 120656, 120662 }, { 120688, 120713 }, { 120714, 120720 }, { 120746, 120771 }, { 120772, 120778 }, { 120779, 120780 }, { -1, -1 } };
-- 
2.43.0


From 48c76b3fb18a4cd117f579ff66eb9654529314dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:02 +0000
Subject: [PATCH 33/58] fix: literals that are only used in replaced rules are
 reported as unused symbols, not as a bug

---
 TameParse/Compiler/language_stage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index df2774a..00ae66d 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -624,6 +624,9 @@ int language_stage::add_ebnf_lexer_items(yy_language::ebnf_item* item) {
             // Set the type of this symbol
             m_TypeForTerminal[symId] = language_unit::unit_keywords_definition;
 
+            // The place where it is first used is where it is defined
+            m_TerminalDefinition[symId] = block_file(item, ourFilename);
+
             // Symbols defined within the parser grammar count as weak symbols
             m_WeakSymbols.insert(symId);
 
@@ -649,6 +652,9 @@ int language_stage::add_ebnf_lexer_items(yy_language::ebnf_item* item) {
             
             // Set the type of this symbol
             m_TypeForTerminal[symId] = language_unit::unit_keywords_definition;
+
+            // The place where it is first used is where it is defined
+            m_TerminalDefinition[symId] = block_file(item, ourFilename);
             
             // Symbols defined within the parser count as weak symbols
             m_WeakSymbols.insert(symId);
-- 
2.43.0


From 80401653147c17b8d5899a7055ca9c40ca63e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:43 +0000
Subject: [PATCH 34/58] fix: a symbol that is replaced takes the kind of its
 new definition, ignored or weak ones included

---
 TameParse/Compiler/language_stage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 00ae66d..2acd1e4 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -279,6 +279,10 @@ void language_stage::compile() {
                             } else {
                                 // Clear the existing symbol
                                 m_TerminalDefinition.erase(symId);
+                                m_IgnoredSymbols.erase(symId);
+                                m_UsedIgnoredSymbols.erase(symId);
+                                m_WeakSymbols.erase(symId);
+                                m_UnusedSymbols.erase(symId);
                                 m_Lexer.remove_definition((*lexerItem)->identifier());
                             }
                         }
-- 
2.43.0


From b91aa6de339bd72eb2ee5daa927091f2d257cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:39 +0000
Subject: [PATCH 35/58] fix: tests with long names, and tests of nonterminals
 that are not defined, do not crash

---
 TameParse/Compiler/test_stage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/test_stage.cpp b/TameParse/Compiler/test_stage.cpp
index 313d7a9..821e1ce 100644
--- a/TameParse/Compiler/test_stage.cpp
+++ b/TameParse/Compiler/test_stage.cpp
@@ -238,6 +238,10 @@ void test_stage::compile() {
             // Compile a language for this nonterminal if one doesn't exist already
             // TODO: deal with nonterminals in other languages
             lr_parser_stage* parserStage = get_parser(tests->language(), (*testDefn)->nonterminal(), tests->start_pos());
+            if (!parserStage || !parserStage->get_tables()) {
+                // The parser stage has reported why there is no parser for this nonterminal
+                continue;
+            }
 
             // Get the text to be tested
             // TODO: deal with 'from' items
@@ -313,7 +317,7 @@ void test_stage::compile() {
             // Write out a message to the result string
             wstring finalName(testName.str());
             testMessages    << L"      " << finalName 
-                            << wstring(54 - finalName.size(), L'.')
+                            << wstring(finalName.size() < 54?54 - finalName.size():1, L'.')
                             << (result?L"ok":L"FAILED")
                             << endl;
 
-- 
2.43.0


From 7cf269d3d6ff3a687ab7324457af35611ca01431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:02 +0000
Subject: [PATCH 36/58] fix: copies of definition files keep the position of
 test blocks (done in toplevel_block.cpp; test_block.cpp and test_stage.cpp
 are as they were)

---
 TameParse/Compiler/test_stage.cpp     |  6 +-----
 TameParse/Language/test_block.cpp     |  2 --
 TameParse/Language/toplevel_block.cpp | 10 +++++++++-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/TameParse/Compiler/test_stage.cpp b/TameParse/Compiler/test_stage.cpp
index 821e1ce..313d7a9 100644
--- a/TameParse/Compiler/test_stage.cpp
+++ b/TameParse/Compiler/test_stage.cpp
@@ -238,10 +238,6 @@ void test_stage::compile() {
             // Compile a language for this nonterminal if one doesn't exist already
             // TODO: deal with nonterminals in other languages
             lr_parser_stage* parserStage = get_parser(tests->language(), (*testDefn)->nonterminal(), tests->start_pos());
-            if (!parserStage || !parserStage->get_tables()) {
-                // The parser stage has reported why there is no parser for this nonterminal
-                continue;
-            }
 
             // Get the text to be tested
             // TODO: deal with 'from' items
@@ -317,7 +313,7 @@ void test_stage::compile() {
             // Write out a message to the result string
             wstring finalName(testName.str());
             testMessages    << L"      " << finalName 
-                            << wstring(finalName.size() < 54?54 - finalName.size():1, L'.')
+                            << wstring(54 - finalName.size(), L'.')
                             << (result?L"ok":L"FAILED")
                             << endl;
 
diff --git a/TameParse/Language/test_block.cpp b/TameParse/Language/test_block.cpp
index efab270..733cfcb 100644
--- a/TameParse/Language/test_block.cpp
+++ b/TameParse/Language/test_block.cpp
@@ -54,8 +54,6 @@ test_block& test_block::operator=(const test_block& assignFrom) {
 
     // Assign this object
     m_Language = assignFrom.m_Language;
-    set_start_pos(assignFrom.start_pos());
-    set_end_pos(assignFrom.end_pos());
 
     for (test_block::iterator defn = assignFrom.begin(); defn != assignFrom.end(); ++defn) {
         m_TestDefinitions.push_back(new test_definition(**defn));
diff --git a/TameParse/Language/toplevel_block.cpp b/TameParse/Language/toplevel_block.cpp
index 05a0044..01c2188 100644
--- a/TameParse/Language/toplevel_block.cpp
+++ b/TameParse/Language/toplevel_block.cpp
@@ -109,7 +109,15 @@ toplevel_block& toplevel_block::operator=(const toplevel_block& copyFrom) {
     if (copyFrom.language())    m_LanguageBlock = new language_block(*copyFrom.language());
     if (copyFrom.import())      m_ImportBlock   = new import_block(*copyFrom.import());
     if (copyFrom.parser())      m_ParserBlock   = new parser_block(*copyFrom.parser());
-    if (copyFrom.test())        m_TestBlock     = new test_block(*copyFrom.test());
+
+    if (copyFrom.test()) {
+        // Constructed rather than copied, as the copy would not have the position of the original
+        m_TestBlock = new test_block(copyFrom.test()->language(), copyFrom.test()->start_pos(), copyFrom.test()->end_pos());
+
+        for (test_block::iterator defn = copyFrom.test()->begin(); defn != copyFrom.test()->end(); ++defn) {
+            m_TestBlock->add_test_definition(new test_definition(**defn));
+        }
+    }
     
     // That was tedious
     return *this;
-- 
2.43.0


From 35ca07012b55c599d67f066fa30a66fcd3d5a5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 37/58] fix: a guard that can begin with itself does not
 overflow the stack

---
 TameParse/ContextFree/guard.cpp | 35 ++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/TameParse/ContextFree/guard.cpp b/TameParse/ContextFree/guard.cpp
index c30720f..ca5b4b1 100644
--- a/TameParse/ContextFree/guard.cpp
+++ b/TameParse/ContextFree/guard.cpp
@@ -25,6 +25,7 @@
 //  IN THE SOFTWARE.
 //
 
+#include <set>
 #include <stack>
 
 #include "TameParse/ContextFree/guard.h"
@@ -171,29 +172,39 @@ item_set guard::initial(const grammar& gram) const {
     item_set res = gram.first_for_rule(*get_rule());
     
     // Iterate through the items, and merge in any recursively defined guards
-    stack<const guard*> guardItems;
+    // Each guard is merged in only once: a guard that can begin with itself would otherwise never be finished with
+    stack<item_container>   guardItems;
+    set<int>                mergedGuards;
     
     for (item_set::const_iterator maybeGuard = res.begin(); maybeGuard != res.end(); ++maybeGuard) {
-        // Cast to a guard
-        const guard* asGuard = maybeGuard->cast_guard();
-        
         // Check to see if Thor lives here
-        if (!asGuard) continue;
+        if (!maybeGuard->cast_guard()) continue;
         
         // Push onto the stack of guard items
-        guardItems.push(asGuard);
+        if (mergedGuards.insert(gram.identifier_for_item(*maybeGuard)).second) {
+            guardItems.push(*maybeGuard);
+        }
     }
     
-    // Merge in any guard items (will overflow the stack if this is recursive, but that doesn't define a valid grammar in any case)
+    // Merge in any guard items
     while (!guardItems.empty()) {
-        // Get the initial set for this guard
-        item_set recursiveInitial = guardItems.top()->initial(gram);
-        
+        // Get the set of items that can begin this guard
+        item_container nextGuard = guardItems.top();
+        guardItems.pop();
+
+        item_set recursiveInitial = gram.first_for_rule(*nextGuard->cast_guard()->get_rule());
+
         // Add to this item
         res.merge(recursiveInitial);
         
-        // Carry on
-        guardItems.pop();
+        // Carry on with any guards that have not been seen before
+        for (item_set::const_iterator maybeGuard = recursiveInitial.begin(); maybeGuard != recursiveInitial.end(); ++maybeGuard) {
+            if (!maybeGuard->cast_guard()) continue;
+
+            if (mergedGuards.insert(gram.identifier_for_item(*maybeGuard)).second) {
+                guardItems.push(*maybeGuard);
+            }
+        }
     }
     
     // Return the result
-- 
2.43.0


From 3f1e35daaccadca63fecd63cb8353b80e4d46abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:02 +0000
Subject: [PATCH 38/58] fix: languages that inherit from themselves are an
 error, not a stack overflow

---
 TameParse/Compiler/language_stage.cpp | 18 ++++++++++++++++--
 TameParse/Compiler/language_stage.h   |  3 +++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 2acd1e4..6dc7293 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -44,7 +44,8 @@ language_stage::language_stage(console_container& console, const std::wstring& f
 : compilation_stage(console, filename)
 , m_Language(block)
 , m_Import(importStage)
-, m_InheritsFrom(NULL) {
+, m_InheritsFrom(NULL)
+, m_InheritedBy(NULL) {
 }
 
 /// \brief Destructor
@@ -101,20 +102,33 @@ void language_stage::compile() {
         const wstring& inheritFrom = m_Language->inherits().front();
 
         // Fetch the language from the importer
-        // TODO: inheritance loops should produce an error (other than a stack overflow)
         const language_block* inheritBlock = m_Import->language_with_name(inheritFrom);
 
+        // See if the language is one that is already being compiled (ie, this language or one that inherits from it)
+        bool isLoop = false;
+        for (const language_stage* stage = this; inheritBlock && stage; stage = stage->m_InheritedBy) {
+            if (stage->m_Language == inheritBlock) {
+                isLoop = true;
+            }
+        }
+
         // Report an error if the language is not defined
         if (!inheritBlock) {
             wstringstream msg;
             msg << L"Unable to find language '" << inheritFrom << "'";
             cons().report_error(error(error::sev_error, filename(), L"CANT_FIND_LANGUAGE", msg.str(), m_Language->start_pos()));
+        } else if (isLoop) {
+            // A language can't inherit from itself, even indirectly
+            wstringstream msg;
+            msg << L"Language '" << m_Language->identifier() << L"' inherits from itself";
+            cons().report_error(error(error::sev_error, filename(), L"INHERITANCE_LOOP", msg.str(), m_Language->start_pos()));
         } else {
             // Compile the language this inherits from
             console_container consCopy(cons_container());
             
             if (m_InheritsFrom) delete m_InheritsFrom;
             m_InheritsFrom = new language_stage(consCopy, m_Import->file_with_language(inheritFrom), inheritBlock, m_Import);
+            m_InheritsFrom->m_InheritedBy = this;
             m_InheritsFrom->compile();
 
             // Merge with this language
diff --git a/TameParse/Compiler/language_stage.h b/TameParse/Compiler/language_stage.h
index ff2e4db..cc40494 100644
--- a/TameParse/Compiler/language_stage.h
+++ b/TameParse/Compiler/language_stage.h
@@ -80,6 +80,9 @@ namespace compiler {
         
         /// \brief Null, or the language stage that this inherits from
         language_stage* m_InheritsFrom;
+
+        /// \brief Null, or the language stage that is inheriting from this one
+        const language_stage* m_InheritedBy;
         
         /// \brief The dictionary of terminals defined by the language
         contextfree::terminal_dictionary m_Terminals;
-- 
2.43.0


From dcce96c24250fefd539502009d0a6904c27b9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:21 +0000
Subject: [PATCH 39/58] fix: generating a parser for a repetition of nothing
 reads past the end of its rule

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 7af17b2..4bc2090 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -1120,7 +1120,7 @@ void output_cplusplus::header_ast_class_declarations() {
             if (nonterm->item->type() == item::repeat) {
                 // Only declare a constructor for the initial rule
                 // (Generated rules are an initial rule and a repeating rule)
-                if (ruleDefn->second[0].isEbnfRepetition) {
+                if (!ruleDefn->second.empty() && ruleDefn->second[0].isEbnfRepetition) {
                     // This is the repeating rule
                     declareConstructor = false;
                 }
@@ -1260,7 +1260,7 @@ void output_cplusplus::source_ast_class_constructors() {
             if (nonterm->item->type() == item::repeat) {
                 // Only declare a constructor for the initial rule
                 // (Generated rules are an initial rule and a repeating rule)
-                if (ruleDefn->second[0].isEbnfRepetition) {
+                if (!ruleDefn->second.empty() && ruleDefn->second[0].isEbnfRepetition) {
                     // This is the repeating rule: we only declare the constructor for the other rule
                     continue;
                 }
@@ -1595,7 +1595,7 @@ void output_cplusplus::source_reduce_actions() {
                 // Only declare a constructor for the initial rule
                 // (Generated rules are an initial rule and a repeating rule)
                 repeating = true;
-                if (ruleDefn->second[0].isEbnfRepetition) {
+                if (!ruleDefn->second.empty() && ruleDefn->second[0].isEbnfRepetition) {
                     // This is the repeating rule: we only declare the constructor for the other rule
                     hasConstructor = false;
                 }
-- 
2.43.0


From b9219eb84b827ecf4a0ce7f3c154eb725b5d8f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:35 +0000
Subject: [PATCH 40/58] fix: symbol ranges with the bounds the wrong way around
 contain nothing (the deduplication of symbol sets never finished)

---
 TameParse/Dfa/symbol_set.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/TameParse/Dfa/symbol_set.cpp b/TameParse/Dfa/symbol_set.cpp
index 5dfa0b6..9a9b0c3 100644
--- a/TameParse/Dfa/symbol_set.cpp
+++ b/TameParse/Dfa/symbol_set.cpp
@@ -36,7 +36,10 @@ symbol_set::symbol_set() {
 
 /// \brief Creates set containing a range of symbols
 symbol_set::symbol_set(const symbol_range& symbol) {
-    m_Symbols.insert(symbol);
+    // A range whose bounds are the wrong way around contains nothing
+    if (symbol.lower() < symbol.upper()) {
+        m_Symbols.insert(symbol);
+    }
 }
 
 /// \brief Creates a new symbol set by copying an old one
@@ -66,6 +69,11 @@ symbol_set& symbol_set::operator|=(const symbol_set& mergeWith) {
 
 /// \brief Merges this symbol set with a range of symbols
 symbol_set& symbol_set::operator|=(const symbol_range& mergeWith) {
+    // A range whose bounds are the wrong way around contains nothing
+    if (mergeWith.lower() >= mergeWith.upper()) {
+        return *this;
+    }
+
     // Find the first range >= the merge point
     // We've modified the comparator used by the set so that only the lower bound is compared, so this is the first item with a lower bound >= the
     // new range (additionally, we maintain the set in such a way that there are no overlapping ranges)
-- 
2.43.0


From 63ad7b9c174c78c73370ebcdb574da064cc8981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 41/58] fix: a lexer symbol that is defined in terms of itself
 is an error, not a stack overflow

---
 TameParse/Compiler/lexer_stage.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/TameParse/Compiler/lexer_stage.cpp b/TameParse/Compiler/lexer_stage.cpp
index 27ba9f5..cc6fc94 100644
--- a/TameParse/Compiler/lexer_stage.cpp
+++ b/TameParse/Compiler/lexer_stage.cpp
@@ -114,6 +114,12 @@ namespace compiler {
         /// \brief The lexer data that should be used to compile expressions
         const lexer_data* m_Data;
 
+        /// \brief The names of the expressions that are currently being compiled
+        set<symbol_string> m_Compiling;
+
+        /// \brief The names of the expressions that were found to refer to themselves
+        set<symbol_string> m_Recursive;
+
     public:
         ndfa_lexer_compiler(const lexer_data* data)
         : m_Data(data) { }
@@ -126,6 +132,12 @@ namespace compiler {
             // Use the standard behaviour if we don't find any items
             if (items.empty()) return ndfa_regex::compile_expression(expression, cons);
 
+            // An expression can't be defined in terms of itself
+            if (!m_Compiling.insert(expression).second) {
+                m_Recursive.insert(expression);
+                return true;
+            }
+
             // Remember the current state of the builder
             bool isLower = cons.make_lowercase();
             bool isUpper = cons.make_uppercase();
@@ -170,6 +182,9 @@ namespace compiler {
             cons.set_case_options(isLower, isUpper);
             cons.pop();
 
+            // No longer compiling this expression
+            m_Compiling.erase(expression);
+
             // Found an expression
             return true;
         }
@@ -185,6 +200,8 @@ namespace compiler {
             return ndfa_regex::check_expression(expression);
         }
 
+        /// \brief The names of the expressions that refer to themselves (these can't be compiled)
+        const set<symbol_string>& recursive_expressions() const { return m_Recursive; }
     };
 }
 
@@ -383,6 +400,19 @@ void lexer_stage::compile() {
         }
     }
 
+    // Report any lexer symbols that are defined in terms of themselves
+    const set<symbol_string>& recursive = stage0->recursive_expressions();
+
+    for (set<symbol_string>::const_iterator name = recursive.begin(); name != recursive.end(); ++name) {
+        wstring             symbolName  = ndfa_regex::convert_syms(*name);
+        const lexer_item&   item        = lex->get_expressions(symbolName).front();
+        wstring             file        = item.filename?*item.filename:filename();
+
+        wstringstream msg;
+        msg << L"Lexer symbol is defined in terms of itself: '" << symbolName << "'";
+        cons().report_error(error(error::sev_error, file, L"RECURSIVE_LEXER_SYMBOL", msg.str(), item.position));
+    }
+
     // Finish the 'bland' ignore builder, if there were any 'bland' symbols
     if (!firstIgnore) {
         // Pop the entry on the stack
-- 
2.43.0


From a1217b07193d7afea9deb528db7f7e7b1c9308dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:40 +0000
Subject: [PATCH 42/58] fix: after a reduction, can_reduce looks for the end of
 the actions of the new state

---
 TameParse/Lr/parser_state.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index bbb8042..32d107b 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -478,8 +478,7 @@ namespace lr {
                     // Update our 'fake state' to be whatever will happen due to this reduce
                     fake_reduce(act, stackPos, pushed, underlyingStack);
                     
-                    // Get the new state
-                    int state;
+                    // Get the new state (this is where the following actions are found)
                     if (!pushed.empty()) {
                         // (This will always happen unless there's a bug in the parser tables)
                         state = pushed.top();
-- 
2.43.0


From 43032bec3e18649f50ac608f15c96aa17b0d9695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:44 +0000
Subject: [PATCH 43/58] fix: parser_state::can_reduce for a lexeme compiles and
 handles the end of the input

---
 TameParse/Lr/parser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 1cf83f3..1d88ab9 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -637,7 +637,10 @@ namespace lr {
             /// be resolved by a LR(1) parser, this will disambiguate the grammar (making it possible to choose
             /// only the action that allows the parser to continue)
             inline bool can_reduce(const lexeme_container& lexeme) {
-                return can_reduce<terminal_fetcher>(lexeme->matched(), 0, std::stack<int>());
+                // The end of the input is treated as a nonterminal symbol
+                if (!lexeme.item()) return can_reduce_nonterminal(m_Tables->end_of_input());
+
+                return can_reduce(lexeme->matched());
             }
 
             /// \brief Returns true if a reduction of the specified terminal symbol will result in it being shifted
-- 
2.43.0


From 52ef8ee4dbb66964a382ae6e87b83d2572aa3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:01 +0000
Subject: [PATCH 44/58] fix: the LR(1) resolver only resolves conflicts when
 its reductions can be told apart by the state they lead to

---
 TameParse/Lr/lr1_rewriter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/TameParse/Lr/lr1_rewriter.cpp b/TameParse/Lr/lr1_rewriter.cpp
index 1cf4313..8290698 100644
--- a/TameParse/Lr/lr1_rewriter.cpp
+++ b/TameParse/Lr/lr1_rewriter.cpp
@@ -129,7 +129,22 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
         set<int>    usedStates;
         bool        canResolve = true;
 
+        // All of the reductions must be accounted for (reductions of empty rules have no items in the state)
+        if (targetStateForItem.size() < reduce->second.size()) canResolve = false;
+
+        // The rules must all have the same length: otherwise the reductions uncover different parts of the stack, and more than
+        // one of them can be possible even though they lead to different states
+        for (item_list::iterator act = reduce->second.begin(); act != reduce->second.end(); ++act) {
+            if ((*act)->rule()->items().size() != reduce->second[0]->rule()->items().size()) canResolve = false;
+        }
+
         for (map<int, set<int> >::iterator itemStates = targetStateForItem.begin(); itemStates != targetStateForItem.end(); ++itemStates) {
+            // If it's not known where this item will end up, then it could be in the same state as one of the others
+            if (itemStates->second.empty()) {
+                canResolve = false;
+                break;
+            }
+
             // Check the target states for this item
             for (set<int>::iterator targetState = itemStates->second.begin(); targetState != itemStates->second.end(); ++targetState) {
                 // Can't resolve this conflict if more than one item can produce this state
-- 
2.43.0


From e7f7bc305f42c9b1531a299d8da1fa61f2dab38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 45/58] fix: an undefined nonterminal is reported in the file
 that uses it

---
 TameParse/Compiler/language_stage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index 6dc7293..b3de606 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -518,12 +518,13 @@ void language_stage::compile() {
             // Find the place where this nonterminal was first used
             block*          firstUsage  = m_FirstNonterminalUsage[nonterminalId].first;
             position        usagePos    = firstUsage?firstUsage->start_pos():position(-1, -1, -1);
+            wstring         usageFile   = firstUsage?*m_FirstNonterminalUsage[nonterminalId].second:filename();
             
             // Generate the message
             wstringstream   msg;
             msg << L"Undefined nonterminal: " << formatter::to_string(*ntItem, m_Grammar, m_Terminals);
             
-            cons().report_error(error(error::sev_error, filename(), L"UNDEFINED_NONTERMINAL", msg.str(), usagePos));
+            cons().report_error(error(error::sev_error, usageFile, L"UNDEFINED_NONTERMINAL", msg.str(), usagePos));
         }
     }
 
-- 
2.43.0


From a5c7ab3b3f1dc62ebe494610b979464a93376fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 46/58] fix: the LR(1) resolver finds the states its reductions
 lead to when the rule is only in their closure

---
 TameParse/Lr/lr1_rewriter.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/TameParse/Lr/lr1_rewriter.cpp b/TameParse/Lr/lr1_rewriter.cpp
index 8290698..9ef983b 100644
--- a/TameParse/Lr/lr1_rewriter.cpp
+++ b/TameParse/Lr/lr1_rewriter.cpp
@@ -114,11 +114,14 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
                 // Ignore items at the end (which should only come up via lookahead propagation)
                 if (reduceItem.at_end()) continue;
 
-                // Fetch the item that this item will produce a goto on
-                const item_container& gotoItem = reduceItem.rule()->items()[reduceItem.offset()];
-
-                // It must equal the nonterminal that we're looking for
-                if (gotoItem != lrItem.rule()->nonterminal()) continue;
+                // The rule must lead from that state to this one (it might appear only in the closure of the source item)
+                int ruleState = reduceTo->state_id;
+                for (int ruleItem = 0; ruleState >= 0 && ruleItem < (int)lrItem.rule()->items().size(); ++ruleItem) {
+                    const lalr_machine::transition_set&             transitions = builder.machine().transitions_for_state(ruleState);
+                    lalr_machine::transition_set::const_iterator    transition  = transitions.find(lrItem.rule()->items()[ruleItem]);
+                    ruleState = transition != transitions.end() ? transition->second : -1;
+                }
+                if (ruleState != stateId) continue;
 
                 // Add this state
                 targetStates.insert(reduceTo->state_id);
-- 
2.43.0


From 1dbcc4929aeca65aff88a31fe647af5a7134c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 47/58] fix: --include-path was ignored

---
 parsetool/boost_console.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index f9e1d6a..b310ec3 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -346,6 +346,13 @@ std::istream* boost_console::open_file(const std::wstring& filename) {
         
         // Try to open this path
         readFile->open(inputPath, fstream::in | fstream::binary);
+
+        // Try the include paths
+        vector<wstring> includePaths = get_option_list(L"include-path");
+        for (vector<wstring>::iterator includePath = includePaths.begin(); includePath != includePaths.end() && readFile->fail(); ++includePath) {
+            readFile->close();
+            readFile->open(fs::wpath(*includePath) / filename, fstream::in | fstream::binary);
+        }
     }
     
     // Return NULL if the file failed to open
-- 
2.43.0


From b3190dc29fd3519e2593836ed909dd175e9b34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 48/58] fix: --test treated the first character outside of
 ASCII on stdin as the end of the input

---
 parsetool/main.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsetool/main.cpp b/parsetool/main.cpp
index 00eafe5..006611e 100644
--- a/parsetool/main.cpp
+++ b/parsetool/main.cpp
@@ -321,7 +321,8 @@ int main (int argc, const char * argv[])
             ast_parser parser(*lrParserStage.get_tables());
             
             // Create the parser
-            lexeme_stream* stdinStream      = lexerStage.get_lexer()->create_stream_from(wcin);
+            utf8reader stdinReader(&cin);
+            lexeme_stream* stdinStream      = lexerStage.get_lexer()->create_stream_from<wchar_t>(stdinReader);
             ast_parser::state* stdInParser  = parser.create_parser(new ast_parser_actions(stdinStream));
             
             // Parse stdin
@@ -341,7 +342,8 @@ int main (int argc, const char * argv[])
             trace_parser parser(*lrParserStage.get_tables());
             
             // Create the parser
-            lexeme_stream* stdinStream          = lexerStage.get_lexer()->create_stream_from(wcin);
+            utf8reader stdinReader(&cin);
+            lexeme_stream* stdinStream          = lexerStage.get_lexer()->create_stream_from<wchar_t>(stdinReader);
             trace_parser::state* stdInParser    = parser.create_parser(new ast_parser_actions(stdinStream));
             
             // Parse stdin
-- 
2.43.0


From 4a3f7d7803e02acd2e91706e2ba760903653a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 49/58] fix: output files that cannot be written are an error

---
 TameParse/Compiler/OutputStages/cplusplus.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/TameParse/Compiler/OutputStages/cplusplus.cpp b/TameParse/Compiler/OutputStages/cplusplus.cpp
index 4bc2090..a06607c 100644
--- a/TameParse/Compiler/OutputStages/cplusplus.cpp
+++ b/TameParse/Compiler/OutputStages/cplusplus.cpp
@@ -290,7 +290,9 @@ void output_cplusplus::begin_output() {
     m_SourceFile = cons().open_binary_file_for_writing(sourceFilename);
     m_HeaderFile = cons().open_binary_file_for_writing(headerFilename);
 
-    // TODO: check for errors (file streams will be NULL)
+    // If a file could not be opened, then use a stream that is always bad: end_output() will report it
+    if (!m_SourceFile) m_SourceFile = new ostream(NULL);
+    if (!m_HeaderFile) m_HeaderFile = new ostream(NULL);
 
     // Write out a header
     write_header(sourceFilename, m_SourceFile);
@@ -333,6 +335,14 @@ void output_cplusplus::end_output() {
     }
 
     *m_HeaderFile << "\n#endif\n";    // End of the conditional
+
+    // Report an error if either of the files could not be written completely
+    if (m_SourceFile->flush().fail()) {
+        cons().report_error(error(error::sev_fatal, m_FilenamePrefix + L".cpp", L"CANT_WRITE_FILE", L"Cannot write to file", position(-1, -1, -1)));
+    }
+    if (m_HeaderFile->flush().fail()) {
+        cons().report_error(error(error::sev_fatal, m_FilenamePrefix + L".h", L"CANT_WRITE_FILE", L"Cannot write to file", position(-1, -1, -1)));
+    }
 }
 
 
-- 
2.43.0


From 20e7d111486fe048439f9518bfee2ba9e6de41bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:44 +0000
Subject: [PATCH 50/58] fix: names of files outside of ASCII ended the tool
 with an uncaught exception

---
 parsetool/boost_console.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index b310ec3..e8c66fb 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -36,6 +36,7 @@
 #include "boost/program_options.hpp"
 #include "boost/filesystem.hpp"
 #include "boost/filesystem/fstream.hpp"
+#include "boost/filesystem/detail/utf8_codecvt_facet.hpp"
 
 using namespace std;
 using namespace compiler;
@@ -53,6 +54,9 @@ boost_console::boost_console(const boost_console& bc)
 /// \brief Constructor
 boost_console::boost_console(int argc, const char** argv) 
 : std_console(L"") {
+    // The names of files are encoded as UTF-8
+    fs::path::imbue(std::locale(std::locale::classic(), new fs::detail::utf8_codecvt_facet()));
+
     // Declare the options supported by the tameparse utility
     po::options_description inputOptions("Input options");
 
@@ -188,11 +192,18 @@ void boost_console::report_error(const compiler::error& error) {
 
 /// \brief Simple conversion from a string to wstring
 static wstring convert(string asciiValue) {
+    // Try to convert by assuming that the string is UTF-8 (see the locale that is set for paths in the constructor)
+    try {
+        return fs::path(asciiValue).wstring();
+    } catch (std::exception) {
+        // Not valid UTF-8
+    }
+
     // Convert to a wstring by assuming that the string is latin-1
     // TODO: could take account of the locale here, somehow
     wstring value;
     for (size_t x = 0; x < asciiValue.size(); ++x) {
-        value += (wchar_t) asciiValue[x];
+        value += (wchar_t) (unsigned char) asciiValue[x];
     }
 
     return value;
-- 
2.43.0


From c90a9ae84635764782ec9e38b2cbfd2c3461bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:35 +0000
Subject: [PATCH 51/58] fix: a file was read twice when it is imported under
 another name or from another directory than the input file's

---
 parsetool/boost_console.cpp | 64 ++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index e8c66fb..6c54c74 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -297,16 +297,47 @@ std::string boost_console::convert_filename(const std::wstring& filename) {
     return path.generic_string();
 }
 
+/// \brief Finds the file that is opened for reading for a particular filename
+static fs::wpath find_file(boost_console& console, const std::wstring& filename) {
+    // Use the path as it is if possible
+    boost::system::error_code ignored;
+    fs::wpath path(filename);
+    if (fs::exists(path, ignored) || console.input_file().empty() || !path.is_relative()) {
+        return path;
+    }
+
+    // Try next to the input file
+    fs::wpath inputPath(console.input_file());
+    inputPath.remove_filename();
+    inputPath /= filename;
+
+    if (fs::exists(inputPath, ignored)) {
+        return inputPath;
+    }
+
+    // Try the include paths
+    vector<wstring> includePaths = console.get_option_list(L"include-path");
+    for (vector<wstring>::iterator includePath = includePaths.begin(); includePath != includePaths.end(); ++includePath) {
+        fs::wpath includedFile = fs::wpath(*includePath) / filename;
+        if (fs::exists(includedFile, ignored)) {
+            return includedFile;
+        }
+    }
+
+    // The file does not exist anywhere
+    return path;
+}
+
 /// \brief Given a pathname, returns the 'real', absolute pathname
 ///
 /// The default implementation just returns the current path
 std::wstring boost_console::real_path(const std::wstring& pathname) {
-    fs::wpath path(pathname);
     fs::wpath absolute;
     
     try {
-        // Try to get the absolute path for this file
-        absolute = fs::absolute(path);
+        // Try to get the absolute path for the file that is opened for this name: different names can refer to the same file
+        fs::wpath path = find_file(*this, pathname);
+        absolute = fs::exists(path) ? fs::canonical(path) : fs::absolute(path);
         return absolute.generic_wstring();
     } catch (fs::filesystem_error e) {
         // Report as an error
@@ -336,35 +367,10 @@ std::vector<std::wstring> boost_console::split_path(const std::wstring& pathname
 /// The caller should delete the stream once it has finished with it. Streams are generally expected to contain UTF-8
 /// data, so console classes should usually open streams in binary mode.
 std::istream* boost_console::open_file(const std::wstring& filename) {
-    // Get the path
-    fs::wpath path(filename);
-
     // Create the stream
     fs::fstream* readFile = new fs::fstream();
 
-    // Initially try 
-    readFile->open(path, fstream::in | fstream::binary);
-    
-    // Try searching various paths until we find the file
-    if (readFile->fail() && !input_file().empty() && path.is_relative()) {
-        // Try next to the input file
-        readFile->close();
-        
-        // Generate a new path based on the input file
-        fs::wpath inputPath(input_file());
-        inputPath.remove_filename();
-        inputPath /= filename;
-        
-        // Try to open this path
-        readFile->open(inputPath, fstream::in | fstream::binary);
-
-        // Try the include paths
-        vector<wstring> includePaths = get_option_list(L"include-path");
-        for (vector<wstring>::iterator includePath = includePaths.begin(); includePath != includePaths.end() && readFile->fail(); ++includePath) {
-            readFile->close();
-            readFile->open(fs::wpath(*includePath) / filename, fstream::in | fstream::binary);
-        }
-    }
+    readFile->open(find_file(*this, filename), fstream::in | fstream::binary);
     
     // Return NULL if the file failed to open
     if (readFile->fail()) {
-- 
2.43.0


From 12801f17d0407be8a214061ff532cd44dc412c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 52/58] fix: tracing a parser that fails at the end of the
 input crashed

---
 TameParse/Lr/parser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 1d88ab9..d8c1c06 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -108,6 +108,12 @@ namespace lr {
         }
 
         inline void reject(const lexeme_container& lookahead) {
+            if (!lookahead.item()) {
+                // The end of the input has no lexeme
+                std::wcerr << L"REJECT: end of input" << std::endl;
+                return;
+            }
+            
             std::wcerr << L"REJECT: " << lookahead->content<wchar_t>() << L" (" << lookahead->matched() << L")" << std::endl;
             std::wcerr << L"At line: " << lookahead->pos().line() << std::endl;
         }
-- 
2.43.0


From 728a6f63d832f7f537833cfee8ea3ff77eb01310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 53/58] fix: checking a guard that depends on itself overflowed
 the stack

---
 TameParse/Lr/parser.h       | 25 +++++++++++++++++++++----
 TameParse/Lr/parser_state.h |  4 ++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index d8c1c06..43b95a0 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -448,10 +448,20 @@ namespace lr {
                 /// \brief The current stack for the guard symbol
                 std::stack<int> m_Stack;
                 
+                /// \brief The state and the offset where this guard starts
+                int             m_InitialState;
+                int             m_InitialOffset;
+                
+                /// \brief The guard that is waiting for the result of this one (or NULL)
+                const guard_actions* m_Parent;
+                
             public:
                 /// \brief Creates 
-                guard_actions(int initialState, int initialOffset)
-                : m_Offset(initialOffset) {
+                guard_actions(int initialState, int initialOffset, const guard_actions* parent)
+                : m_Offset(initialOffset)
+                , m_InitialState(initialState)
+                , m_InitialOffset(initialOffset)
+                , m_Parent(parent) {
                     m_Stack.push(initialState);
                 }
                 
@@ -507,7 +517,14 @@ namespace lr {
                 
                 /// \brief Returns -1 or the guard symbol matched by the lookahead with the specified initial guard state
                 inline int check_guard(state* state, int initialState) {
-                    return state->check_guard(initialState, m_Offset);
+                    // A guard that depends on itself can't be matched
+                    for (const guard_actions* waiting = this; waiting != NULL; waiting = waiting->m_Parent) {
+                        if (waiting->m_InitialState == initialState && waiting->m_InitialOffset == m_Offset) {
+                            return -1;
+                        }
+                    }
+
+                    return state->check_guard(initialState, m_Offset, this);
                 }
                 
                 /// \brief The specified symbol has been rejected
@@ -568,7 +585,7 @@ namespace lr {
             /// can produce an accepting state, then this will return the ID of the guard symbol that was accepted.
             /// If no accepting state is reached, this will return a negative value (generally -1)
             ///
-            int check_guard(int initialState, int initialOffset);
+            int check_guard(int initialState, int initialOffset, const guard_actions* parent = NULL);
             
         public:
             ///
diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 32d107b..9cf9310 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -224,9 +224,9 @@ namespace lr {
     /// can produce an accepting state, then this will return the ID of the guard symbol that was accepted.
     /// If no accepting state is reached, this will return a negative value (generally -1)
     ///
-    template<typename I, typename A, typename T> int parser<I, A, T>::state::check_guard(int initialState, int initialOffset) {
+    template<typename I, typename A, typename T> int parser<I, A, T>::state::check_guard(int initialState, int initialOffset, const guard_actions* parent) {
         // Create the guard actions object
-        guard_actions guardActions(initialState, initialOffset);
+        guard_actions guardActions(initialState, initialOffset, parent);
         
         // Set to true once the EOG symbol can be reduced
         bool canReduceEog = false;
-- 
2.43.0


From 1e5a4f1338daf7ae40751f107c799894a50c664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 54/58] fix: a directory was taken for an empty definition file

---
 parsetool/boost_console.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/parsetool/boost_console.cpp b/parsetool/boost_console.cpp
index 6c54c74..79887ee 100644
--- a/parsetool/boost_console.cpp
+++ b/parsetool/boost_console.cpp
@@ -297,12 +297,17 @@ std::string boost_console::convert_filename(const std::wstring& filename) {
     return path.generic_string();
 }
 
+/// \brief True if there is something other than a directory at the specified path
+static bool file_exists(const fs::wpath& path) {
+    boost::system::error_code ignored;
+    return fs::exists(path, ignored) && !fs::is_directory(path, ignored);
+}
+
 /// \brief Finds the file that is opened for reading for a particular filename
 static fs::wpath find_file(boost_console& console, const std::wstring& filename) {
     // Use the path as it is if possible
-    boost::system::error_code ignored;
     fs::wpath path(filename);
-    if (fs::exists(path, ignored) || console.input_file().empty() || !path.is_relative()) {
+    if (file_exists(path) || console.input_file().empty() || !path.is_relative()) {
         return path;
     }
 
@@ -311,7 +316,7 @@ static fs::wpath find_file(boost_console& console, const std::wstring& filename)
     inputPath.remove_filename();
     inputPath /= filename;
 
-    if (fs::exists(inputPath, ignored)) {
+    if (file_exists(inputPath)) {
         return inputPath;
     }
 
@@ -319,7 +324,7 @@ static fs::wpath find_file(boost_console& console, const std::wstring& filename)
     vector<wstring> includePaths = console.get_option_list(L"include-path");
     for (vector<wstring>::iterator includePath = includePaths.begin(); includePath != includePaths.end(); ++includePath) {
         fs::wpath includedFile = fs::wpath(*includePath) / filename;
-        if (fs::exists(includedFile, ignored)) {
+        if (file_exists(includedFile)) {
             return includedFile;
         }
     }
@@ -370,10 +375,11 @@ std::istream* boost_console::open_file(const std::wstring& filename) {
     // Create the stream
     fs::fstream* readFile = new fs::fstream();
 
-    readFile->open(find_file(*this, filename), fstream::in | fstream::binary);
+    fs::wpath path = find_file(*this, filename);
+    readFile->open(path, fstream::in | fstream::binary);
     
-    // Return NULL if the file failed to open
-    if (readFile->fail()) {
+    // Return NULL if the file failed to open (opening a directory succeeds, but there is nothing to read)
+    if (readFile->fail() || !file_exists(path)) {
         delete readFile;
         return NULL;
     }
-- 
2.43.0


From 7cff73cd27382ec855dddfbb239191fe79ee0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 55/58] fix: the innermost tables of a symbol table were never
 freed

---
 TameParse/Dfa/symbol_table.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/TameParse/Dfa/symbol_table.h b/TameParse/Dfa/symbol_table.h
index 3bbf202..72bd555 100644
--- a/TameParse/Dfa/symbol_table.h
+++ b/TameParse/Dfa/symbol_table.h
@@ -266,6 +266,22 @@ namespace dfa {
             Symbols         = NULL;
         }
         
+        /// \brief Creates a copy of an existing symbol level
+        symbol_level(const symbol_level& copyFrom) {
+            DefaultSymbol   = copyFrom.DefaultSymbol;
+            Symbols         = NULL;
+            
+            if (copyFrom.Symbols) {
+                Symbols = new int[c_MaxIndex];
+                for (int index=0; index < c_MaxIndex; ++index) Symbols[index] = copyFrom.Symbols[index];
+            }
+        }
+        
+        /// \brief Destructor
+        ~symbol_level() {
+            delete[] Symbols;
+        }
+        
         /// \brief Sets all the symbols in the specified range to the specified symbol. The range must overlap this item.
         void add_range(int base, const range<int>& range, int symbol) {
             // Work out the initial index in this table
@@ -364,6 +380,10 @@ namespace dfa {
             // Return the new table
             return newTable;
         }
+        
+    private:
+        /// \brief Disabled assignment
+        symbol_level<int, mask, shift>& operator=(const symbol_level<int, mask, shift>& assignFrom);
     };
     
     ///
-- 
2.43.0


From 2748438ecd0b967ce705216807aaa7de1083138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 56/58] fix: the stream of a definition with a syntax error was
 never freed

---
 TameParse/Compiler/parser_stage.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/TameParse/Compiler/parser_stage.cpp b/TameParse/Compiler/parser_stage.cpp
index 7c67097..3b2a609 100644
--- a/TameParse/Compiler/parser_stage.cpp
+++ b/TameParse/Compiler/parser_stage.cpp
@@ -54,12 +54,14 @@ void parser_stage::compile() {
     // Report an error if the file could not be opened
     if (!fileStream || !fileStream->good()) {
         cons().report_error(error(error::sev_fatal, filename(), L"CANT_OPEN_FILE", L"Cannot read from file", position(-1, -1, -1)));
+        delete fileStream;
         return;
     }
     
     // Attempt to parse the file
     m_Parser.set_filename(filename());
     bool parsedOk = m_Parser.parse(*fileStream);
+    delete fileStream;
     
     // Report an error if we failed to parse OK
     if (!parsedOk) {
@@ -78,7 +80,4 @@ void parser_stage::compile() {
         }
         return;
     }
-    
-    // Done
-    delete fileStream;
 }
-- 
2.43.0


From 4d66fa36b9fc67d41bbe5a5223c26a9916745581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 57/58] fix: items, rules, actions and rewriters in containers
 that do not own them were never freed

---
 TameParse/Compiler/conflict_attribute_rewriter.cpp | 2 +-
 TameParse/Compiler/language_stage.cpp              | 4 ++--
 TameParse/Compiler/lr_parser_stage.cpp             | 4 ++--
 TameParse/Compiler/output_stage.cpp                | 2 +-
 TameParse/ContextFree/ebnf_items.cpp               | 8 ++++----
 TameParse/ContextFree/item.cpp                     | 2 +-
 TameParse/Lr/lr1_rewriter.cpp                      | 2 +-
 7 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/TameParse/Compiler/conflict_attribute_rewriter.cpp b/TameParse/Compiler/conflict_attribute_rewriter.cpp
index b1a7e94..b316b21 100644
--- a/TameParse/Compiler/conflict_attribute_rewriter.cpp
+++ b/TameParse/Compiler/conflict_attribute_rewriter.cpp
@@ -151,7 +151,7 @@ void conflict_attribute_rewriter::rewrite_actions(int state, lr_action_set& acti
                 if ((*act)->type() == lr_action::act_reduce) {
                     actions.erase(*act);
 
-                    lr_action_container weakAct(new lr_action(lr_action::act_weakreduce, (*act)->item(), (*act)->next_state(), (*act)->rule()));
+                    lr_action_container weakAct(new lr_action(lr_action::act_weakreduce, (*act)->item(), (*act)->next_state(), (*act)->rule()), true);
                     actions.insert(weakAct);
                 }
             }
diff --git a/TameParse/Compiler/language_stage.cpp b/TameParse/Compiler/language_stage.cpp
index b3de606..60e59a5 100644
--- a/TameParse/Compiler/language_stage.cpp
+++ b/TameParse/Compiler/language_stage.cpp
@@ -504,7 +504,7 @@ void language_stage::compile() {
         }
 
         // Create a rewriter for this block
-        m_ActionRewriters.push_back(action_rewriter_container(new precedence_block_rewriter(m_Terminals, *precedenceBlock)));
+        m_ActionRewriters.push_back(action_rewriter_container(new precedence_block_rewriter(m_Terminals, *precedenceBlock), true));
     }
     
     // Any nonterminal with no rules is one that was referenced but not defined
@@ -534,7 +534,7 @@ void language_stage::compile() {
     // have completely empty rules (ie are defined as [=>]) are allowed. These can specify
     // the resolution of a shift/reduce or reduce/reduce conflict (though we warn about 
     // these if an option isn't set)
-    item_container emptyItem(new empty_item());
+    item_container emptyItem(new empty_item(), true);
     int emptyId = m_Grammar.identifier_for_item(emptyItem);
 
     for (map<item_container, position_file>::const_iterator checkGuard = m_Guards.begin(); checkGuard != m_Guards.end(); ++checkGuard) {
diff --git a/TameParse/Compiler/lr_parser_stage.cpp b/TameParse/Compiler/lr_parser_stage.cpp
index ac3aba5..d9a69bd 100644
--- a/TameParse/Compiler/lr_parser_stage.cpp
+++ b/TameParse/Compiler/lr_parser_stage.cpp
@@ -328,9 +328,9 @@ void lr_parser_stage::compile() {
     // TODO: it might be good to have a way to supply extra rewriters from other stages instead of just having them
     // hardcoded here. This is good enough for now, though.
     m_Parser->add_rewriter(action_rewriter_container(m_LexerCompiler->weak_symbols(), false));
-    m_Parser->add_rewriter(action_rewriter_container(new conflict_attribute_rewriter(&m_Language->get_rule_item_data())));
+    m_Parser->add_rewriter(action_rewriter_container(new conflict_attribute_rewriter(&m_Language->get_rule_item_data()), true));
     if (!cons().get_option(L"enable-lr1-resolver").empty()) {
-        m_Parser->add_rewriter(action_rewriter_container(new lr1_rewriter()));
+        m_Parser->add_rewriter(action_rewriter_container(new lr1_rewriter(), true));
     }
     m_Parser->add_rewriter(ignoreContainer);
 
diff --git a/TameParse/Compiler/output_stage.cpp b/TameParse/Compiler/output_stage.cpp
index f71ff01..37710e8 100644
--- a/TameParse/Compiler/output_stage.cpp
+++ b/TameParse/Compiler/output_stage.cpp
@@ -114,7 +114,7 @@ void output_stage::generate_terminal_symbols() {
 
     // Fill in the terminal symbols
     for (int symbolId = 0; symbolId < terminals().count_symbols(); ++symbolId) {
-        m_TerminalSymbols.push_back(terminal_symbol(terminals().name_for_symbol(symbolId), symbolId, item_container(new terminal(symbolId))));
+        m_TerminalSymbols.push_back(terminal_symbol(terminals().name_for_symbol(symbolId), symbolId, item_container(new terminal(symbolId), true)));
     }
 }
 
diff --git a/TameParse/ContextFree/ebnf_items.cpp b/TameParse/ContextFree/ebnf_items.cpp
index 5937455..812bae5 100644
--- a/TameParse/ContextFree/ebnf_items.cpp
+++ b/TameParse/ContextFree/ebnf_items.cpp
@@ -87,7 +87,7 @@ ebnf::~ebnf() {
 void ebnf::add_rule(const rule& newRule) {
     item_container ourselves(this, false);
 
-    m_Rules->push_back(new rule(newRule, ourselves));
+    m_Rules->push_back(rule(newRule, ourselves));
 }
 
 /// \brief Compares this item to another. Returns true if they are the same
@@ -398,8 +398,8 @@ void ebnf_alternate::closure(const lr::lr1_item& item, lr::lr1_item_set& state,
 
                     // Other rules get rewritten with this item as the target
                     else {
-                        rule_container rewrittenRule(new rule(**ruleToFlatten, ourselves));
-                        insert_closure_item(lr1_item_container(new lr1_item(&gram, rewrittenRule, 0, follow)), state, gram);
+                        rule_container rewrittenRule(new rule(**ruleToFlatten, ourselves), true);
+                        insert_closure_item(lr1_item_container(new lr1_item(&gram, rewrittenRule, 0, follow), true), state, gram);
                     }
                 }
             }
@@ -407,7 +407,7 @@ void ebnf_alternate::closure(const lr::lr1_item& item, lr::lr1_item_set& state,
 
         // All other rules are passed through untouched
         else {
-            insert_closure_item(lr1_item_container(new lr1_item(&gram, *nextRule, 0, follow)), state, gram);
+            insert_closure_item(lr1_item_container(new lr1_item(&gram, *nextRule, 0, follow), true), state, gram);
         }
     }
 }
diff --git a/TameParse/ContextFree/item.cpp b/TameParse/ContextFree/item.cpp
index d5de756..bbdd4e2 100644
--- a/TameParse/ContextFree/item.cpp
+++ b/TameParse/ContextFree/item.cpp
@@ -238,7 +238,7 @@ void item::cache_closure(const lr::lr1_item& it, lr::lr1_item_set& state, const
             newItemLookahead.merge(follow);
             
             // Add the final item to the state
-            lr1_item_container newItem(new lr1_item((*cachedItem)->get_lr0_item(), newItemLookahead));
+            lr1_item_container newItem(new lr1_item((*cachedItem)->get_lr0_item(), newItemLookahead), true);
             state.insert(newItem);
         } else {
             // Can just copy this item into the final state
diff --git a/TameParse/Lr/lr1_rewriter.cpp b/TameParse/Lr/lr1_rewriter.cpp
index 9ef983b..e30c798 100644
--- a/TameParse/Lr/lr1_rewriter.cpp
+++ b/TameParse/Lr/lr1_rewriter.cpp
@@ -168,7 +168,7 @@ void lr1_rewriter::rewrite_actions(int stateId, lr_action_set& actions, const la
         if (canResolve) {
             for (item_list::iterator originalAct = reduce->second.begin()+1; originalAct != reduce->second.end(); ++originalAct) {
                 // Create a weak reduce action
-                lr_action_container weakReduce(new lr_action(lr_action::act_weakreduce, (*originalAct)->item(), (*originalAct)->next_state(), (*originalAct)->rule()));
+                lr_action_container weakReduce(new lr_action(lr_action::act_weakreduce, (*originalAct)->item(), (*originalAct)->next_state(), (*originalAct)->rule()), true);
 
                 // Replace the original action in the table
                 actions.erase(*originalAct);
-- 
2.43.0


From fcf658cb5b185f68e85c4a77c25add81f802671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 58/58] fix: parser states of different threads shared one
 lexeme (with a plain reference count) for the end of the input

---
 TameParse/Lr/parser.h       | 4 ++++
 TameParse/Lr/parser_state.h | 7 ++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/TameParse/Lr/parser.h b/TameParse/Lr/parser.h
index 43b95a0..8547001 100644
--- a/TameParse/Lr/parser.h
+++ b/TameParse/Lr/parser.h
@@ -208,6 +208,9 @@ namespace lr {
             
             /// \brief Set to true if we've reached the end of the file
             bool m_EndOfFile;
+
+            /// \brief Lexeme container representing the end of the file (every session needs its own, as reference counts can't be shared between threads)
+            dfa::lexeme_container m_EndOfFileLexeme;
             
             /// \brief The first active state in the parser
             state* m_FirstState;
@@ -219,6 +222,7 @@ namespace lr {
             session(parser_actions* actions)
             : m_Actions(actions)
             , m_EndOfFile(false)
+            , m_EndOfFileLexeme((dfa::lexeme*)NULL)
             , m_FirstState(NULL) {
             }
             
diff --git a/TameParse/Lr/parser_state.h b/TameParse/Lr/parser_state.h
index 9cf9310..e97f2cf 100644
--- a/TameParse/Lr/parser_state.h
+++ b/TameParse/Lr/parser_state.h
@@ -118,9 +118,6 @@ namespace lr {
     /// \brief Retrieves the current lookahead character
     ///
     template<typename I, typename A, typename T> inline const typename parser<I, A, T>::lexeme_container& parser<I, A, T>::state::look(int offset) {
-        // Static lexeme container representing the end of the file
-        static lexeme_container endOfFile((lexeme*)NULL);
-        
         // Read a new symbol if necessary
         size_t pos = m_LookaheadPos + offset;
         
@@ -132,14 +129,14 @@ namespace lr {
                 // Flag up an end of file condition
                 if (nextLexeme.item() == NULL) {
                     m_Session->m_EndOfFile = true;
-                    return endOfFile;
+                    return m_Session->m_EndOfFileLexeme;
                 }
                 
                 // Store in the lookahead
                 m_Session->m_Lookahead.push_back(nextLexeme);
             } else {
                 // EOF
-                return endOfFile;
+                return m_Session->m_EndOfFileLexeme;
             }
         }
         
-- 
2.43.0

