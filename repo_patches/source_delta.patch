From 48048231771fa3c49f658ce05e7a73cbbb940574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:10 +0000
Subject: [PATCH 1/7] fix: count the characters of an ANSI sequence, not its
 bytes

A sequence introduced by U+009B (2 bytes in UTF-8, no cell) was
subtracted one cell too many: the width of "\u009b1m" was 65535.
---
 width.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index 5e110b9..b282341 100644
--- a/width.go
+++ b/width.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ilius/go-lru"
 	"github.com/ilius/go-table/runewidth"
@@ -49,7 +50,8 @@ func countMatchesLength(re *regexp.Regexp, s string) int {
 		// loc[0] is the start index of the match,
 		// loc[1] is the end index (exclusive)
 		start += loc[1]
-		total += loc[1] - loc[0] - 1
+		// count characters, not bytes: U+009B is encoded in 2 bytes
+		total += utf8.RuneCountInString(remaining[loc[0]:loc[1]]) - 1
 	}
 	return total
 }
-- 
2.43.0


From fc7f1254bce2033becef0b346f31f76720469dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:38 +0000
Subject: [PATCH 2/7] fix: do not wrap the width of a string wider than
 MAX_WIDTH

The width of 65536 cells was reported as 0.
---
 width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/width.go b/width.go
index b282341..19eb6a8 100644
--- a/width.go
+++ b/width.go
@@ -32,7 +32,11 @@ func visualWidth(str string) uint16 {
 	if w > 0 {
 		return w
 	}
-	w = uint16(runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str))
+	width := runewidth.StringWidth(str) - countMatchesLength(ansiEscapeRE, str)
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
+	}
+	w = uint16(width)
 	widthCache.Set(str, w)
 	return w
 }
-- 
2.43.0


From 6a3daba5bc0078572a5e9b0a6a01d595f7372683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:38 +0000
Subject: [PATCH 3/7] fix: TableWidth wrapped around for no columns and for
 wide tables

A table without columns was -margin wide, and one wider than MAX_WIDTH
was reported modulo 65536.
---
 table.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 9bab608..c75df18 100644
--- a/table.go
+++ b/table.go
@@ -159,9 +159,15 @@ func (t *Table) FormatHeader(sep string) string {
 }
 
 func (t *Table) TableWidth(margin uint16) uint16 {
-	width := (uint16(t.ColumnCount()) - 1) * margin
+	if t.ColumnCount() == 0 {
+		return 0
+	}
+	width := (t.ColumnCount() - 1) * int(margin)
 	for _, col := range t.Columns {
-		width += t.Width(col.Name)
+		width += int(t.Width(col.Name))
+	}
+	if width > MAX_WIDTH {
+		width = MAX_WIDTH
 	}
-	return width
+	return uint16(width)
 }
-- 
2.43.0


From 8c85943b5a6409408284b817d06653e57d080747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:38 +0000
Subject: [PATCH 4/7] fix: count how many rows fit in a line without wrapping
 around

The arithmetic was done modulo 65536 and used the outer separator's
length between the columns of a row. A table without columns, or with
only empty cells and an empty separator, divided by zero; with an empty
separator lines were wider than maxWidth; a maxWidth of 65535 gave one
row per line, a negative one counted as very wide, and in compact mode
65535 never ended.
---
 horizontal.go | 19 ++++++++++++-------
 vertical.go   | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index e64945f..955961e 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -13,13 +13,18 @@ func (t *Table) MergeRowsHorizontal(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
+	} else if maxWidthArg < 0 {
+		maxWidthArg = 0
 	}
 	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	groupCount := 1
+	if groupWidth := int(t.TableWidth(innerMargin)) + margin; groupWidth > 0 {
+		groupCount = (int(maxWidth) + margin) / groupWidth
+	}
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -69,18 +74,18 @@ func (t *Table) MergeRowsHorizontal(
 func (t *Table) compactCalcH(
 	items FormattedItemList,
 	maxWidth uint16,
-	margin uint16,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
-		if totalWidth > maxWidth {
+		if totalWidth > int(maxWidth) {
 			return
 		}
 		cellWidth = cellWidthNew
diff --git a/vertical.go b/vertical.go
index a64518e..4aac0ac 100644
--- a/vertical.go
+++ b/vertical.go
@@ -13,13 +13,18 @@ func (t *Table) MergeRowsVertical(
 	sep string,
 	compact bool,
 ) {
-	margin := uint16(len(sep))
+	margin := len(sep)
 	colN := t.ColumnCount()
 	if maxWidthArg > MAX_WIDTH {
 		maxWidthArg = MAX_WIDTH
+	} else if maxWidthArg < 0 {
+		maxWidthArg = 0
 	}
 	maxWidth := uint16(maxWidthArg)
-	groupCount := int((maxWidth + margin) / (t.TableWidth(margin) + margin))
+	groupCount := 1
+	if groupWidth := int(t.TableWidth(innerMargin)) + margin; groupWidth > 0 {
+		groupCount = (int(maxWidth) + margin) / groupWidth
+	}
 	if groupCount < 1 {
 		groupCount = 1
 	}
@@ -69,21 +74,21 @@ func (t *Table) MergeRowsVertical(
 func (t *Table) compactCalcV(
 	items FormattedItemList,
 	maxWidth uint16,
-	margin uint16,
+	margin int,
 	groupCountInit int,
 ) (extra int, cellWidth []uint16) {
-	colN := uint16(t.ColumnCount())
+	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
 		cellWidthNew := t.mergedRowsWidthV(items, groupCount)
 		if cellWidthNew == nil {
 			return
 		}
-		totalWidth := margin*(uint16(groupCount)-1) + innerMargin*(colN-1)*uint16(groupCount)
+		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-			totalWidth += w
+			totalWidth += int(w)
 		}
-		if totalWidth > maxWidth {
+		if totalWidth > int(maxWidth) {
 			return
 		}
 		cellWidth = cellWidthNew
-- 
2.43.0


From 0fbeca6765a0e9c4dcc1895df3b9526a84463f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:38 +0000
Subject: [PATCH 5/7] fix: end the search for a compact horizontal layout

With an empty separator and one column, groups beyond the last item add
no width, so the search went on forever.
---
 horizontal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horizontal.go b/horizontal.go
index 955961e..952e936 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -80,6 +80,10 @@ func (t *Table) compactCalcH(
 	colN := t.ColumnCount()
 	for {
 		groupCount := groupCountInit + extra + 1
+		if groupCount > items.Len() {
+			// more groups than items will not give us anything
+			return
+		}
 		cellWidthNew := t.mergedRowsWidthH(items, groupCount)
 		totalWidth := margin*(groupCount-1) + int(innerMargin)*(colN-1)*groupCount
 		for _, w := range cellWidthNew {
-- 
2.43.0


From ad48294efb07fe57174372701fb47f43e7ecde45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:38 +0000
Subject: [PATCH 6/7] fix: write nothing for an empty list

A blank line was written if more than one row fits in a line, and
nothing otherwise.
---
 horizontal.go | 2 +-
 vertical.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horizontal.go b/horizontal.go
index 952e936..5073033 100644
--- a/horizontal.go
+++ b/horizontal.go
@@ -41,7 +41,7 @@ func (t *Table) MergeRowsHorizontal(
 		}
 	}
 	itemN := items.Len()
-	lineCount := (itemN-1)/groupCount + 1
+	lineCount := (itemN + groupCount - 1) / groupCount
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
 		for groupI := 0; groupI < groupCount; groupI++ {
diff --git a/vertical.go b/vertical.go
index 4aac0ac..124b79b 100644
--- a/vertical.go
+++ b/vertical.go
@@ -41,7 +41,7 @@ func (t *Table) MergeRowsVertical(
 		}
 	}
 	itemN := items.Len()
-	lineCount := (itemN-1)/groupCount + 1
+	lineCount := (itemN + groupCount - 1) / groupCount
 	for lineI := 0; lineI < lineCount; lineI++ {
 		line := make([]string, 0, groupCount)
 		for groupI := 0; groupI < groupCount; groupI++ {
-- 
2.43.0


From 692d38929ecd157b80afddb91bf88fc6711065da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:39 +0000
Subject: [PATCH 7/7] fix: compare the visual width of a title with its column

A title that fits in its column was dropped if it takes more bytes than
cells (non-ASCII or colored titles).
---
 table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index c75df18..ba38920 100644
--- a/table.go
+++ b/table.go
@@ -139,8 +139,8 @@ func (t *Table) padColumnHeader(col *Column) string {
 	if width == 0 {
 		return value
 	}
-	if len(value) > int(width) {
-		if len(col.ShortTitle) > int(width) {
+	if visualWidth(value) > width {
+		if visualWidth(col.ShortTitle) > width {
 			value = ""
 		} else {
 			value = col.ShortTitle
-- 
2.43.0

