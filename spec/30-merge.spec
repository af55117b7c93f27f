package table
// ---- joined rows
lemma joinA_store(sep string, a arr string, o int, n int, p int, v string)
  requires p < o || p >= o + n
  ensures joinA(sep, store(a, p, v), o, n) == joinA(sep, a, o, n)
  induct n
  trigger joinA(sep, store(a, p, v), o, n)
lemma joinA_all(sep string, a arr string, b arr string, o int, n int)
  requires forall(j, o, o+n, a[j] == b[j])
  ensures joinA(sep, a, o, n) == joinA(sep, b, o, n)
  induct n
  trigger joinA(sep, a, o, n), joinA(sep, b, o, n)

macro clampW(x int) int = min(65535, max(0, x))
// items per line at the recorded widths
def g0(t *Table, mx int, m int) int =
   ite(tabW(t, 1) + m <= 0, 1, max(1, (mx + m) / (tabW(t, 1) + m)))

lemma g0_fits(t *Table, mx int, m int)
  requires 0 <= mx && mx <= 65535 && m >= 0 && len(t.Columns) >= 1 && g0(t, mx, m) > 1
  ensures g0(t, mx, m)*(sumW(t, len(t.Columns)) + len(t.Columns) - 1) + (g0(t, mx, m)-1)*m <= mx
  trigger g0(t, mx, m)

// ---- horizontal
// widest cell of column c in items i, i+g, i+2g, ...
def mxH(items FormattedItemList, g int, c int, i int) int =
   ite(i < 0 || g <= 0 || i >= itemsLen(items), 0, max(vw(cellStr(items, i, c)), mxH(items, g, c, i+g)))
lemma mxH_range(items FormattedItemList, g int, c int, i int)
  ensures 0 <= mxH(items, g, c, i) && mxH(items, g, c, i) <= 65535 && implies(i >= itemsLen(items), mxH(items, g, c, i) == 0)
  induct itemsLen(items) - i
  trigger mxH(items, g, c, i)
lemma mxH_step(items FormattedItemList, g int, c int, i int, i2 int)
  requires g >= 1 && 0 <= i && i < itemsLen(items) && i2 == i + g
  ensures mxH(items, g, c, i) == max(vw(cellStr(items, i, c)), mxH(items, g, c, i2))
  trigger mxH(items, g, c, i), mxH(items, g, c, i2)
// width of the k-th cell position of a line
def wH(items FormattedItemList, g int, colN int, k int) int = mxH(items, g, k % colN, k / colN)
def sumH(items FormattedItemList, g int, colN int, k int) int = ite(k <= 0, 0, sumH(items, g, colN, k-1) + wH(items, g, colN, k-1))
def totH(items FormattedItemList, g int, colN int, m int) int = m*(g-1) + (colN-1)*g + sumH(items, g, colN, g*colN)
// items per line after compacting, starting from g
def grH(items FormattedItemList, colN int, mx int, m int, g int) int =
   ite(g + 1 <= itemsLen(items) && totH(items, g+1, colN, m) <= mx, grH(items, colN, mx, m, g+1), g)
// the first of the items i, i+1, ... in group position j
def nxH(j int, i int, g int) int = ite(j >= i % g, i + j - i % g, i + j - i % g + g)
lemma nxH_step(j int, i int, i2 int, g int)
  requires g >= 1 && i >= 0 && i2 == i + 1 && 0 <= j && j < g
  ensures nxH(j, i2, g) == ite(j == i % g, i + g, nxH(j, i, g)) && implies(j == i % g, nxH(j, i, g) == i)
  trigger nxH(j, i, g), nxH(j, i2, g)
lemma nxH_ge(j int, i int, g int)
  requires g >= 1 && i >= 0 && 0 <= j && j < g
  ensures nxH(j, i, g) >= i && implies(i == 0, nxH(j, i, g) == j) && implies(j == i % g, nxH(j, i, g) == i)
  trigger nxH(j, i, g)
lemma mxH_at(items FormattedItemList, c int, j int, i int, g int)
  requires g >= 1 && i >= 0 && i < itemsLen(items) && j == i % g
  ensures mxH(items, g, c, nxH(j, i, g)) == max(vw(cellStr(items, i, c)), mxH(items, g, c, i + g))
  trigger mxH(items, g, c, nxH(j, i, g))
lemma mxH_end(items FormattedItemList, c int, j int, i int, g int)
  requires g >= 1 && i >= 0 && i >= itemsLen(items) && 0 <= j && j < g
  ensures mxH(items, g, c, nxH(j, i, g)) == 0
  trigger mxH(items, g, c, nxH(j, i, g))

contract (*Table).mergedRowsWidthH(t, items, groupCount) (r)
  let colN = len(t.Columns)
  let n = itemsLen(items)
  requires cacheOK() && tabOKm(t) && items != nil && groupCount >= 1 && rowsTop(items) <= alloc()
  requires forall(i, 0, n, rowLen(items, i) >= colN)
  modifies lru(widthCache)
  ensures len(r) == groupCount * colN && fresh(r)
  ensures forall(k, off(r), off(r)+len(r), elems(r)[k] == wH(items, groupCount, colN, k - off(r)))
  ensures cacheOK()
  inv cacheOK()
  inv {groupI count} groupI <= groupCount
  inv {colI count} colI <= colN
  inv {width []uint16, groupI count} len(width) == groupI * colN
  inv {width []uint16, groupI iter, colI count} len(width) == groupI * colN + colI
  inv {width []uint16, groupI count} len(width) == groupCount * colN && forall(k, off(width), off(width)+groupI*colN, elems(width)[k] == wH(items, groupCount, colN, k - off(width)))
  inv {width []uint16, groupI iter, colI count} len(width) == groupCount * colN && forall(k, off(width), off(width)+groupI*colN+colI, elems(width)[k] == wH(items, groupCount, colN, k - off(width)))
  inv {width []uint16} forall(k, off(width), off(width)+len(width), elems(width)[k] == wH(items, groupCount, colN, k - off(width)))
  inv {w []uint16, i count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), max(elems(w)[k], mxH(items, groupCount, (k - off(w)) % colN, nxH((k - off(w)) / colN, i, groupCount))) == wH(items, groupCount, colN, k - off(w)))
  inv {w []uint16, i iter, colI count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), max(elems(w)[k], mxH(items, groupCount, (k - off(w)) % colN, ite((k - off(w)) / colN == i % groupCount && (k - off(w)) % colN < colI, i + groupCount, nxH((k - off(w)) / colN, i, groupCount)))) == wH(items, groupCount, colN, k - off(w)))
  inv {w []uint16, groupI count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), elems(w)[k] == ite((k - off(w)) / colN < groupI, wH(items, groupCount, colN, (k - off(w))), 0))
  inv {w []uint16, itemIdx phi, groupI iter} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), ite((k - off(w)) / colN == groupI, max(elems(w)[k], mxH(items, groupCount, (k - off(w)) % colN, itemIdx)) == wH(items, groupCount, colN, (k - off(w))), elems(w)[k] == ite((k - off(w)) / colN < groupI, wH(items, groupCount, colN, (k - off(w))), 0)))
  inv {w []uint16, itemIdx fixed, groupI iter, colI count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), ite((k - off(w)) / colN == groupI, max(elems(w)[k], mxH(items, groupCount, (k - off(w)) % colN, ite((k - off(w)) % colN < colI, itemIdx + groupCount, itemIdx))) == wH(items, groupCount, colN, (k - off(w))), elems(w)[k] == ite((k - off(w)) / colN < groupI, wH(items, groupCount, colN, (k - off(w))), 0)))
  inv {w []uint16, i count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), elems(w)[k] == ite((k - off(w)) < i, wH(items, groupCount, colN, (k - off(w))), 0))
  inv {w []uint16, itemIdx phi, i iter} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), ite((k - off(w)) == i, max(elems(w)[k], mxH(items, groupCount, (k - off(w)) % colN, itemIdx)) == wH(items, groupCount, colN, (k - off(w))), elems(w)[k] == ite((k - off(w)) < i, wH(items, groupCount, colN, (k - off(w))), 0)))
  inv {mw phi, itemIdx phi, colI iter, groupI iter} max(mw, mxH(items, groupCount, colI, itemIdx)) == mxH(items, groupCount, colI, groupI)
  inv {itemIdx int} itemIdx >= 0
  measure {itemIdx int} n - itemIdx

contract (*Table).compactCalcH(t, items, maxWidth, margin, groupCountInit) (extra, cellWidth)
  let colN = len(t.Columns)
  let n = itemsLen(items)
  requires cacheOK() && tabOKm(t) && items != nil && groupCountInit >= 1 && margin >= 0 && rowsTop(items) <= alloc()
  requires forall(i, 0, n, rowLen(items, i) >= colN)
  modifies lru(widthCache)
  ensures extra >= 0 && groupCountInit + extra == grH(items, colN, maxWidth, margin, groupCountInit)
  ensures implies(extra > 0, fresh(cellWidth) && len(cellWidth) == (groupCountInit + extra) * colN
      && totH(items, groupCountInit + extra, colN, margin) <= maxWidth && groupCountInit + extra <= n)
  ensures implies(extra > 0, forall(k, off(cellWidth), off(cellWidth)+len(cellWidth), elems(cellWidth)[k] == wH(items, groupCountInit + extra, colN, k - off(cellWidth))))
  ensures cacheOK()
  inv cacheOK()
  inv {extra phi} extra >= 0 && grH(items, colN, maxWidth, margin, groupCountInit + extra) == grH(items, colN, maxWidth, margin, groupCountInit)
  inv {extra phi, cellWidth []uint16} implies(extra > 0, fresh(cellWidth) && len(cellWidth) == (groupCountInit + extra) * colN
      && totH(items, groupCountInit + extra, colN, margin) <= maxWidth && groupCountInit + extra <= n)
  inv {extra phi, cellWidth []uint16} implies(extra > 0, forall(k, off(cellWidth), off(cellWidth)+len(cellWidth), elems(cellWidth)[k] == wH(items, groupCountInit + extra, colN, k - off(cellWidth))))
  inv {total phi, i count, groupCount fixed} total == sumH(items, groupCount, colN, i)
  inv {totalWidth phi, i count, groupCount fixed} totalWidth == margin*(groupCount-1) + (colN-1)*groupCount + sumH(items, groupCount, colN, i)
  measure {extra int} n - extra

// ---- a line
def cellS(t *Table, items FormattedItemList, i int, c int, w int) string =
  ite(t.Columns[c].Alignment == nil, alignL(cellStr(items, i, c), w), alfn(t.Columns[c].Alignment, cellStr(items, i, c), w))
def recW(t *Table, c int) int = t.columnWidth[t.Columns[c].Name]
// the first k cells of item i, in group position j; cp: at the compact widths for g items per line
def rowH(t *Table, items FormattedItemList, cp bool, g int, j int, i int, k int) string =
  ite(k <= 0, "", ite(k == 1, "", rowH(t, items, cp, g, j, i, k-1) + " ")
     + cellS(t, items, i, k-1, ite(cp, wH(items, g, len(t.Columns), j*len(t.Columns) + k - 1), recW(t, k-1))))
// the first k parts of line l
def lineH(t *Table, items FormattedItemList, cp bool, g int, sep string, l int, k int) string =
  ite(k <= 0, "", ite(k == 1, "", lineH(t, items, cp, g, sep, l, k-1) + sep)
     + ite(l*g + k - 1 >= itemsLen(items), "", rowH(t, items, cp, g, k-1, l*g + k - 1, len(t.Columns))))
def linesH(t *Table, items FormattedItemList, cp bool, g int, sep string, l int) string =
  ite(l <= 0, "", linesH(t, items, cp, g, sep, l-1) + lineH(t, items, cp, g, sep, l-1, min(g, itemsLen(items) - (l-1)*g + 1)) + "\n")

contract (*Table).MergeRowsHorizontal(t, out, items, maxWidthArg, sep, compact)
  root
  witness g int
  let colN = len(t.Columns)
  let n = itemsLen(items)
  let mx = clampW(maxWidthArg)
  let m = len(sep)
  let gb = g0(t, clampW(maxWidthArg), len(sep))
  requires cacheOK() && tabOKm(t) && out != nil && items != nil && rowsTop(items) <= alloc()
  requires forall(i, 0, n, rowLen(items, i) >= colN)
  modifies lru(widthCache), written(out)
  panics [C13] panicval() == werrv() && werrv() != nil
  ensures [C09] g >= 1 && written(out) == old(written(out)) + linesH(t, items, compact && g > gb, g, sep, (n + g - 1) / g)
  ensures [C12] g == ite(compact, grH(items, colN, mx, m, gb), gb)
  ensures [C11] implies(g > 1 && colN >= 1 && g > gb, totH(items, g, colN, m) <= mx)
  ensures [C11] implies(g > 1 && colN >= 1 && g <= gb, g*(sumW(t, colN) + colN - 1) + (g-1)*m <= mx)
  ensures cacheOK()
  inv cacheOK()
  inv {groupCount int} groupCount >= 1
  inv {lineI count, groupCount fixed} lineI <= (n + groupCount - 1) / groupCount
  inv {lineI count, groupCount fixed} written(out) == old(written(out)) + linesH(t, items, compact && groupCount > gb, groupCount, sep, lineI)
  inv {groupI count, groupCount fixed} groupI <= groupCount
  inv {groupI count, groupCount fixed, lineI iter} lineI*groupCount + groupI <= n
  inv {itemIdx phi, lineI count, groupCount fixed} itemIdx == min(n, lineI*groupCount)
  inv {itemIdx phi, groupI count, groupCount fixed, lineI iter} itemIdx == lineI*groupCount + groupI
  inv {line []string, groupI count} len(line) == groupI
  inv {line string, groupI count, groupCount fixed, lineI iter} line == lineH(t, items, compact && groupCount > gb, groupCount, sep, lineI, groupI)
  inv {cell string, colI count, groupCount fixed, groupI iter, lineI iter} cell == rowH(t, items, compact && groupCount > gb, groupCount, groupI, lineI*groupCount+groupI, colI)
  inv {line string, colI count, groupCount fixed, groupI iter, lineI iter} line == lineH(t, items, compact && groupCount > gb, groupCount, sep, lineI, groupI) + ite(groupI > 0, sep, "") + rowH(t, items, compact && groupCount > gb, groupCount, groupI, lineI*groupCount+groupI, colI)
  inv {w []uint16, groupI count} len(w) == groupI * colN && forall(k, off(w), off(w)+len(w), elems(w)[k] == recW(t, (k - off(w)) % colN))
  inv {w []uint16, groupI iter, colI count} len(w) == groupI * colN + colI && forall(k, off(w), off(w)+len(w), elems(w)[k] == recW(t, (k - off(w)) % colN))
  inv {text string, lineI count, groupCount fixed} text == linesH(t, items, compact && groupCount > gb, groupCount, sep, lineI)
  inv {line []string, groupI count, groupCount fixed, lineI iter} joinA(sep, elems(line), off(line), len(line)) == lineH(t, items, compact && groupCount > gb, groupCount, sep, lineI, groupI)
  inv {colI count} colI <= colN
  inv {cell []string, colI count, groupCount fixed, groupI iter, lineI iter} joinA(" ", elems(cell), off(cell), colI) == rowH(t, items, compact && groupCount > gb, groupCount, groupI, lineI*groupCount+groupI, colI)

// ---- vertical
macro hV(items FormattedItemList, g int) int = (itemsLen(items) + g - 1) / g
// widest cell of column c in items i .. hi-1
def mxV(items FormattedItemList, c int, i int, hi int) int =
   ite(i < 0 || i >= hi, 0, max(vw(cellStr(items, i, c)), mxV(items, c, i+1, hi)))
lemma mxV_range(items FormattedItemList, c int, i int, hi int)
  ensures 0 <= mxV(items, c, i, hi) && mxV(items, c, i, hi) <= 65535 && implies(i >= hi, mxV(items, c, i, hi) == 0)
  induct hi - i
  trigger mxV(items, c, i, hi)
lemma mxV_step(items FormattedItemList, c int, i int, i2 int, hi int)
  requires 0 <= i && i < hi && i2 == i + 1
  ensures mxV(items, c, i, hi) == max(vw(cellStr(items, i, c)), mxV(items, c, i2, hi))
  trigger mxV(items, c, i, hi), mxV(items, c, i2, hi)
// width of the k-th cell position of a line when the columns of items are h high
def wV(items FormattedItemList, h int, colN int, k int) int =
   mxV(items, k % colN, (k / colN) * h, min(itemsLen(items), (k / colN + 1) * h))
def sumV(items FormattedItemList, h int, colN int, k int) int = ite(k <= 0, 0, sumV(items, h, colN, k-1) + wV(items, h, colN, k-1))
def totV(items FormattedItemList, g int, colN int, m int) int = m*(g-1) + (colN-1)*g + sumV(items, hV(items, g), colN, g*colN)
// every one of the g columns of items has an item
def fullV(items FormattedItemList, g int) bool = itemsLen(items) >= 1 && (g - 1) * hV(items, g) < itemsLen(items)
def grV(items FormattedItemList, colN int, mx int, m int, g int) int =
   ite(fullV(items, g+1) && totV(items, g+1, colN, m) <= mx, grV(items, colN, mx, m, g+1), g)
lemma fullV_le(items FormattedItemList, g int)
  requires fullV(items, g) && g >= 1
  ensures g <= itemsLen(items)
  trigger fullV(items, g)

contract (*Table).mergedRowsWidthV(t, items, groupCount) (r)
  let colN = len(t.Columns)
  let n = itemsLen(items)
  requires cacheOK() && tabOKm(t) && items != nil && groupCount >= 2 && rowsTop(items) <= alloc()
  requires forall(i, 0, n, rowLen(items, i) >= colN)
  modifies lru(widthCache)
  ensures iff(r == nil, !fullV(items, groupCount))
  ensures implies(r != nil, len(r) == groupCount * colN && fresh(r))
  ensures implies(r != nil, forall(k, off(r), off(r)+len(r), elems(r)[k] == wV(items, hV(items, groupCount), colN, k - off(r))))
  ensures cacheOK()
  inv cacheOK()
  inv {groupI count} groupI <= groupCount
  inv {colI count} colI <= colN
  inv {cellWidth []uint16, groupI count} len(cellWidth) == groupI * colN
  inv {cellWidth []uint16, groupI iter, colI count} len(cellWidth) == groupI * colN + colI
  inv {cellWidth []uint16, groupI count} len(cellWidth) == groupCount * colN && forall(k, off(cellWidth), off(cellWidth)+groupI*colN, elems(cellWidth)[k] == wV(items, hV(items, groupCount), colN, k - off(cellWidth)))
  inv {cellWidth []uint16, groupI iter, colI count} len(cellWidth) == groupCount * colN && forall(k, off(cellWidth), off(cellWidth)+groupI*colN+colI, elems(cellWidth)[k] == wV(items, hV(items, groupCount), colN, k - off(cellWidth)))
  inv {cellWidth []uint16} forall(k, off(cellWidth), off(cellWidth)+len(cellWidth), elems(cellWidth)[k] == wV(items, hV(items, groupCount), colN, k - off(cellWidth)))
  inv {w []uint16, groupI count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), elems(w)[k] == ite((k - off(w)) / colN < groupI, wV(items, hV(items, groupCount), colN, (k - off(w))), 0))
  inv {w []uint16, itemIdx phi, groupI iter} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), ite((k - off(w)) / colN == groupI, max(elems(w)[k], mxV(items, (k - off(w)) % colN, itemIdx, min(n, ((k - off(w)) / colN + 1) * hV(items, groupCount)))) == wV(items, hV(items, groupCount), colN, (k - off(w))), elems(w)[k] == ite((k - off(w)) / colN < groupI, wV(items, hV(items, groupCount), colN, (k - off(w))), 0)))
  inv {w []uint16, itemIdx fixed, groupI iter, colI count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), ite((k - off(w)) / colN == groupI, max(elems(w)[k], mxV(items, (k - off(w)) % colN, ite((k - off(w)) % colN < colI, itemIdx + 1, itemIdx), min(n, ((k - off(w)) / colN + 1) * hV(items, groupCount)))) == wV(items, hV(items, groupCount), colN, (k - off(w))), elems(w)[k] == ite((k - off(w)) / colN < groupI, wV(items, hV(items, groupCount), colN, (k - off(w))), 0)))
  inv {w []uint16, i count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), elems(w)[k] == ite((k - off(w)) < i, wV(items, hV(items, groupCount), colN, (k - off(w))), 0))
  inv {w []uint16, itemIdx phi, i iter} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), ite((k - off(w)) == i, max(elems(w)[k], mxV(items, (k - off(w)) % colN, itemIdx, min(n, ((k - off(w)) / colN + 1) * hV(items, groupCount)))) == wV(items, hV(items, groupCount), colN, (k - off(w))), elems(w)[k] == ite((k - off(w)) < i, wV(items, hV(items, groupCount), colN, (k - off(w))), 0)))
  inv {w []uint16, i count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), max(elems(w)[k], mxV(items, (k - off(w)) % colN, max(i, (k - off(w)) / colN * hV(items, groupCount)), min(n, ((k - off(w)) / colN + 1) * hV(items, groupCount)))) == wV(items, hV(items, groupCount), colN, (k - off(w))))
  inv {w []uint16, i iter, colI count} len(w) == groupCount * colN && forall(k, off(w), off(w)+len(w), max(elems(w)[k], mxV(items, (k - off(w)) % colN, max(ite((k - off(w)) / colN == i / hV(items, groupCount) && (k - off(w)) % colN < colI, i + 1, i), (k - off(w)) / colN * hV(items, groupCount)), min(n, ((k - off(w)) / colN + 1) * hV(items, groupCount)))) == wV(items, hV(items, groupCount), colN, (k - off(w))))
  inv {mcw phi, itemIdx phi, colI iter, groupI iter} max(mcw, mxV(items, colI, itemIdx, min(n, (groupI + 1) * hV(items, groupCount)))) == mxV(items, colI, groupI * hV(items, groupCount), min(n, (groupI + 1) * hV(items, groupCount)))
  inv {itemIdx int} itemIdx >= 0
  measure {itemIdx int} n - itemIdx

contract (*Table).compactCalcV(t, items, maxWidth, margin, groupCountInit) (extra, cellWidth)
  let colN = len(t.Columns)
  let n = itemsLen(items)
  requires cacheOK() && tabOKm(t) && items != nil && groupCountInit >= 1 && margin >= 0 && rowsTop(items) <= alloc()
  requires forall(i, 0, n, rowLen(items, i) >= colN)
  modifies lru(widthCache)
  ensures extra >= 0 && groupCountInit + extra == grV(items, colN, maxWidth, margin, groupCountInit)
  ensures implies(extra > 0, fresh(cellWidth) && len(cellWidth) == (groupCountInit + extra) * colN
      && totV(items, groupCountInit + extra, colN, margin) <= maxWidth && fullV(items, groupCountInit + extra))
  ensures implies(extra > 0, forall(k, off(cellWidth), off(cellWidth)+len(cellWidth), elems(cellWidth)[k] == wV(items, hV(items, groupCountInit + extra), colN, k - off(cellWidth))))
  ensures cacheOK()
  inv cacheOK()
  inv {extra phi} extra >= 0 && grV(items, colN, maxWidth, margin, groupCountInit + extra) == grV(items, colN, maxWidth, margin, groupCountInit)
  inv {extra phi, cellWidth []uint16} implies(extra > 0, fresh(cellWidth) && len(cellWidth) == (groupCountInit + extra) * colN
      && totV(items, groupCountInit + extra, colN, margin) <= maxWidth && fullV(items, groupCountInit + extra))
  inv {extra phi, cellWidth []uint16} implies(extra > 0, forall(k, off(cellWidth), off(cellWidth)+len(cellWidth), elems(cellWidth)[k] == wV(items, hV(items, groupCountInit + extra), colN, k - off(cellWidth))))
  inv {total phi, i count, groupCount fixed} total == sumV(items, hV(items, groupCount), colN, i)
  inv {totalWidth phi, i count, groupCount fixed} totalWidth == margin*(groupCount-1) + (colN-1)*groupCount + sumV(items, hV(items, groupCount), colN, i)
  measure {extra int} n - extra

def rowV(t *Table, items FormattedItemList, cp bool, h int, j int, i int, k int) string =
  ite(k <= 0, "", ite(k == 1, "", rowV(t, items, cp, h, j, i, k-1) + " ")
     + cellS(t, items, i, k-1, ite(cp, wV(items, h, len(t.Columns), j*len(t.Columns) + k - 1), recW(t, k-1))))
// the first k parts of line l; the j-th part is item j*h + l
def lineV(t *Table, items FormattedItemList, cp bool, h int, sep string, l int, k int) string =
  ite(k <= 0, "", ite(k == 1, "", lineV(t, items, cp, h, sep, l, k-1) + sep)
     + ite((k-1)*h + l >= itemsLen(items), "", rowV(t, items, cp, h, k-1, (k-1)*h + l, len(t.Columns))))
// parts of line l: one for each item, and an empty last one if there are fewer than g
def partsV(n int, g int, h int, l int) int = min(g, (n - l + h - 1) / h + 1)
def linesV(t *Table, items FormattedItemList, cp bool, g int, h int, sep string, l int) string =
  ite(l <= 0, "", linesV(t, items, cp, g, h, sep, l-1) + lineV(t, items, cp, h, sep, l-1, partsV(itemsLen(items), g, h, l-1)) + "\n")

contract (*Table).MergeRowsVertical(t, out, items, maxWidthArg, sep, compact)
  root
  witness g int
  let colN = len(t.Columns)
  let n = itemsLen(items)
  let mx = clampW(maxWidthArg)
  let m = len(sep)
  let gb = g0(t, clampW(maxWidthArg), len(sep))
  requires cacheOK() && tabOKm(t) && out != nil && items != nil && rowsTop(items) <= alloc()
  requires forall(i, 0, n, rowLen(items, i) >= colN)
  modifies lru(widthCache), written(out)
  panics [C13] panicval() == werrv() && werrv() != nil
  ensures [C10] g >= 1 && written(out) == old(written(out)) + linesV(t, items, compact && g > gb, g, hV(items, g), sep, hV(items, g))
  ensures [C12] g == ite(compact, grV(items, colN, mx, m, gb), gb)
  ensures [C11] implies(g > 1 && colN >= 1 && g > gb, totV(items, g, colN, m) <= mx)
  ensures [C11] implies(g > 1 && colN >= 1 && g <= gb, g*(sumW(t, colN) + colN - 1) + (g-1)*m <= mx)
  ensures cacheOK()
  inv cacheOK()
  inv {groupCount int} groupCount >= 1
  inv {lineI count, groupCount fixed} lineI <= hV(items, groupCount)
  inv {lineI count, groupCount fixed} written(out) == old(written(out)) + linesV(t, items, compact && groupCount > gb, groupCount, hV(items, groupCount), sep, lineI)
  inv {groupI count, groupCount fixed} groupI <= groupCount
  inv {groupI count, groupCount fixed, lineI iter} implies(groupI >= 1, (groupI - 1)*hV(items, groupCount) + lineI < n)
  inv {itemIdx phi, groupI count, groupCount fixed, lineI iter} itemIdx == groupI*hV(items, groupCount) + lineI
  inv {line []string, groupI count} len(line) == groupI
  inv {line string, groupI count, groupCount fixed, lineI iter} line == lineV(t, items, compact && groupCount > gb, hV(items, groupCount), sep, lineI, groupI)
  inv {cell string, colI count, groupCount fixed, groupI iter, lineI iter} cell == rowV(t, items, compact && groupCount > gb, hV(items, groupCount), groupI, groupI*hV(items, groupCount)+lineI, colI)
  inv {line string, colI count, groupCount fixed, groupI iter, lineI iter} line == lineV(t, items, compact && groupCount > gb, hV(items, groupCount), sep, lineI, groupI) + ite(groupI > 0, sep, "") + rowV(t, items, compact && groupCount > gb, hV(items, groupCount), groupI, groupI*hV(items, groupCount)+lineI, colI)
  inv {w []uint16, groupI count} len(w) == groupI * colN && forall(k, off(w), off(w)+len(w), elems(w)[k] == recW(t, (k - off(w)) % colN))
  inv {w []uint16, groupI iter, colI count} len(w) == groupI * colN + colI && forall(k, off(w), off(w)+len(w), elems(w)[k] == recW(t, (k - off(w)) % colN))
  inv {text string, lineI count, groupCount fixed} text == linesV(t, items, compact && groupCount > gb, groupCount, hV(items, groupCount), sep, lineI)
  inv {line []string, groupI count, groupCount fixed, lineI iter} joinA(sep, elems(line), off(line), len(line)) == lineV(t, items, compact && groupCount > gb, hV(items, groupCount), sep, lineI, groupI)
  inv {colI count} colI <= colN
  inv {cell []string, colI count, groupCount fixed, groupI iter, lineI iter} joinA(" ", elems(cell), off(cell), colI) == rowV(t, items, compact && groupCount > gb, hV(items, groupCount), groupI, groupI*hV(items, groupCount)+lineI, colI)
