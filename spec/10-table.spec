package table
// ---- visual width (C01, C02)
def anf(re int, s string) int =
    ite(reFound(re, s), rc(s[reLo(re, s):reHi(re, s)]) - 1 + anf(re, s[reHi(re, s):]), 0)
// where the search after the k-th match begins
def rp(re int, s string, k int) int = ite(k <= 0, 0, rp(re, s, k-1) + reHi(re, s[rp(re, s, k-1):]))
macro an(s string) int = anf(-1001, s)
macro dcE() bool = runewidth.DefaultCondition.EastAsianWidth
macro dcN() bool = runewidth.DefaultCondition.StrictEmojiNeutral
def sw(s string) int = swf(s, dcE(), dcN())
def vw(s string) int = min(65535, sw(s) - an(s))
macro dcOK() bool = runewidth.DefaultCondition != nil && condOK(runewidth.DefaultCondition)
macro cacheOK() bool = dcOK() && implies(defined(widthCache), widthCache != nil &&
      forall(s, string, implies(lrudom(widthCache)[s], lruval(widthCache)[s] == vw(s))))
contract visualWidth(str) (r)
  root
  requires cacheOK()
  modifies lru(widthCache)
  ensures r == vw(str)
  ensures cacheOK()
contract countMatchesLength(re, s) (total)
  root
  requires re != nil && ref(re) == -1001
  ensures total == anf(ref(re), s)
  inv {start count, total int} total + anf(ref(re), s[start:]) == anf(ref(re), s)
  inv {start count} start <= len(s)
  inv {total int, remaining string} total + anf(ref(re), remaining) == anf(ref(re), s)
  inv {total phi, i count} total + anf(ref(re), s[rp(ref(re), s, i):]) == anf(ref(re), s)
  inv {n int, q rangestr, p rangepos} n + rc(q[p:]) == rc(q)
  inv {total int, start int, q rangestr, p rangepos} total + rc(q[p:]) + anf(ref(re), s[start:]) == anf(ref(re), s)
  inv {total int, start int, q rangestr, p rangepos} total + rc(q[p:]) - 1 + anf(ref(re), s[start:]) == anf(ref(re), s)
  inv {total int, start int, q rangestr, p rangepos} total + rc(q[p:]) - rc(q) + anf(ref(re), s[start:]) == anf(ref(re), s)
  inv {total int, start int, q rangestr, p rangepos} total + rc(q[p:]) - rc(q) + 1 + anf(ref(re), s[start:]) == anf(ref(re), s)
  measure {remaining string} len(remaining)

def alignL(s string, w int) string = ite(vw(s) >= w, s, s + rep(" ", w - vw(s)))
def alignR(s string, w int) string = ite(vw(s) >= w, s, rep(" ", w - vw(s)) + s)
def alignC(s string, w int) string = ite(vw(s) >= w, s, rep(" ", (w - vw(s) + 1) / 2) + s + rep(" ", (w - vw(s)) / 2))
lemma rep_left(s string, n int)
  requires n >= 0
  ensures s + rep(s, n) == rep(s, n+1)
  induct n
  trigger s + rep(s, n)
contract AlignmentLeft(str, width) (r)
  root
  requires cacheOK()
  modifies lru(widthCache)
  ensures r == alignL(str, width)
  ensures cacheOK()
  inv cacheOK()
  inv {p string, i count} p == rep(" ", i)
  inv {p string, i count} p == str + rep(" ", i)
  inv {p string, i count} p == rep(" ", i) + str
contract AlignmentRight(str, width) (r)
  root
  requires cacheOK()
  modifies lru(widthCache)
  ensures r == alignR(str, width)
  ensures cacheOK()
  inv cacheOK()
  inv {p string, i count} p == rep(" ", i)
  inv {p string, i count} p == str + rep(" ", i)
  inv {p string, i count} p == rep(" ", i) + str
contract AlignmentCenter(str, width) (r)
  root
  requires cacheOK()
  modifies lru(widthCache)
  ensures r == alignC(str, width)
  ensures cacheOK()
  inv cacheOK()
  inv {p string, i count} p == rep(" ", i)
  inv {p string, i count} p == str + rep(" ", i)
  inv {p string, i count} p == rep(" ", i) + str
  inv {p string, l int, i count} p == rep(" ", l) + str + rep(" ", i)

// ---- tables (C03 - C08, C22)
macro tabOKm(t *Table) bool = t != nil && t.TableSpec != nil && specOK(t.TableSpec)
macro specOK(s *TableSpec) bool = forall(j, off(s.Columns), off(s.Columns)+len(s.Columns), at(s.Columns, j) != nil)

contract (*TableSpec).HasColumn(t, colName) (r)
  root
  requires t != nil
  ensures r == (t.ColumnByName[colName] != nil)
contract (*TableSpec).ColumnCount(t) (n)
  root
  pure
  requires t != nil
  ensures n == len(t.Columns)
contract (*TableSpec).AddColumn(t, col)
  root
  requires t != nil && col != nil && t.ColumnByName != nil
  modifies t.Columns, elems(t.Columns), maps(t.ColumnByName)
  ensures len(t.Columns) == old(len(t.Columns)) + 1
  ensures forall(j, 0, old(len(t.Columns)), t.Columns[j] == old(t.Columns[j]))
  ensures t.Columns[old(len(t.Columns))] == col
  ensures t.ColumnByName == old(t.ColumnByName)
  ensures forall(s, string, t.ColumnByName[s] == ite(s == col.Name, col, old(t.ColumnByName[s])))
  ensures forall(s, string, has(t.ColumnByName, s) == (s == col.Name || old(has(t.ColumnByName, s))))
contract NewTableSpec() (r)
  root
  ensures r != nil && fresh(r) && len(r.Columns) == 0 && r.ColumnByName != nil && fresh(r.ColumnByName)
  ensures forall(s, string, r.ColumnByName[s] == nil && !has(r.ColumnByName, s))
contract NewTable(spec) (r)
  root
  ensures r != nil && fresh(r)
  ensures implies(spec != nil, r.TableSpec == spec)
  ensures implies(spec == nil, r.TableSpec != nil && fresh(r.TableSpec) && len(r.Columns) == 0 && r.ColumnByName != nil
          && forall(s, string, r.ColumnByName[s] == nil))
  ensures r.columnWidth != nil && fresh(r.columnWidth)
  ensures forall(s, string, r.columnWidth[s] == 0)
contract (*Table).Width(t, colName) (w)
  root
  pure
  requires t != nil
  ensures w == t.columnWidth[colName]
contract (*Table).UpdateWidth(t, widthByColumn)
  root
  requires t != nil && t.columnWidth != nil
  modifies maps(t.columnWidth)
  ensures forall(s, string, t.columnWidth[s] == ite(old(has(widthByColumn, s)), max(old(widthByColumn[s]), old(t.columnWidth[s])), old(t.columnWidth[s])))
  inv forall(s, string, implies(visited(s), old(has(widthByColumn, s))))
  inv forall(s, string, implies(old(has(widthByColumn, s)), has(widthByColumn, s)))
  inv forall(s, string, t.columnWidth[s] == ite(visited(s), max(old(widthByColumn[s]), old(t.columnWidth[s])), old(t.columnWidth[s])))

// the first column from k on whose getter fails, or their number
def ffail(t *Table, item any, k int) int =
  ite(k >= len(t.Columns), k,
   ite(getErr(t.Columns[k].Getter, item) != nil || fmtErr(t.Columns[k].Getter, item, getVal(t.Columns[k].Getter, item)) != nil, k,
    ffail(t, item, k+1)))
def colErr(g Getter, item any) error = ite(getErr(g, item) != nil, getErr(g, item), fmtErr(g, item, getVal(g, item)))
def colStr(g Getter, item any) string = fmtVal(g, item, getVal(g, item))
// width of the column called name after k columns
def updW(t *Table, item any, k int, w0 int, name string) int =
  ite(k <= 0, w0, ite(t.Columns[k-1].Name == name, max(updW(t, item, k-1, w0, name), vw(colStr(t.Columns[k-1].Getter, item))), updW(t, item, k-1, w0, name)))
def nameIn(t *Table, k int, name string) bool = ite(k <= 0, false, t.Columns[k-1].Name == name || nameIn(t, k-1, name))
lemma nameIn_mono(t *Table, i int, k int, name string)
  requires i <= k && nameIn(t, i, name)
  ensures nameIn(t, k, name)
  induct k - i
  trigger nameIn(t, i, name), nameIn(t, k, name)
macro getters(t *Table) bool = forall(j, off(t.Columns), off(t.Columns)+len(t.Columns), at(t.Columns, j).Getter != nil)

contract (*Table).FormatItem(t, item) (r, err)
  root
  let f = ffail(t, item, 0)
  let n = len(t.Columns)
  requires cacheOK() && tabOKm(t) && t.columnWidth != nil && getters(t)
  modifies lru(widthCache), maps(t.columnWidth)
  ensures [C04] implies(f < n, r == nil && err == colErr(t.Columns[f].Getter, item))
  ensures [C04] implies(f >= n, err == nil && len(r) == n)
  ensures [C04] implies(f >= n, forall(j, 0, n, r[j] == colStr(t.Columns[j].Getter, item)))
  ensures [C03] implies(f >= n, forall(s, string, t.columnWidth[s] == updW(t, item, n, old(t.columnWidth[s]), s)))
  ensures [C03] forall(s, string, t.columnWidth[s] >= old(t.columnWidth[s]) && implies(!nameIn(t, n, s), t.columnWidth[s] == old(t.columnWidth[s])))
  ensures cacheOK()
  inv {i count} i <= n
  inv {i count} ffail(t, item, i) == f
  inv {i count, formatted []string} len(formatted) == n && forall(j, 0, i, formatted[j] == colStr(t.Columns[j].Getter, item))
  inv {i count, formatted []string} len(formatted) == i && forall(j, 0, i, formatted[j] == colStr(t.Columns[j].Getter, item))
  inv {i count} forall(s, string, t.columnWidth[s] == updW(t, item, i, old(t.columnWidth[s]), s))
  inv forall(s, string, t.columnWidth[s] >= old(t.columnWidth[s]))
  inv {i count} forall(s, string, implies(!nameIn(t, i, s), t.columnWidth[s] == old(t.columnWidth[s])))
  inv cacheOK()

contract (*Table).AlignFormattedItem(t, formatted) (r, err)
  root
  let n = len(t.Columns)
  requires cacheOK() && tabOKm(t)
  modifies lru(widthCache), elems(formatted)
  ensures implies(len(formatted) != n, r == nil && err != nil && elems(formatted) == old(elems(formatted)))
  ensures implies(len(formatted) == n, err == nil && len(r) == n)
  ensures implies(len(formatted) == n, forall(j, 0, n, r[j] == ite(t.Columns[j].Alignment == nil, old(formatted[j]), alfn(t.Columns[j].Alignment, old(formatted[j]), t.columnWidth[t.Columns[j].Name]))))
  ensures forall(j, int, implies(j < off(formatted) || j >= off(formatted)+n, elems(formatted)[j] == old(elems(formatted)[j])))
  ensures cacheOK()
  inv cacheOK()
  inv {i count} i <= n
  inv {i count} forall(j, 0, i, formatted[j] == ite(t.Columns[j].Alignment == nil, old(formatted[j]), alfn(t.Columns[j].Alignment, old(formatted[j]), t.columnWidth[t.Columns[j].Name])))
  inv {i count} forall(j, int, implies(j < off(formatted) || j >= off(formatted)+i, elems(formatted)[j] == old(elems(formatted)[j])))

def hcell(t *Table, k int) string =
  let(w, t.columnWidth[t.Columns[k].Name],
    ite(w == 0, t.Columns[k].Title,
      alignC(ite(vw(t.Columns[k].Title) <= w, t.Columns[k].Title, ite(vw(t.Columns[k].ShortTitle) <= w, t.Columns[k].ShortTitle, "")), w)))
def headTo(t *Table, sep string, k int) string = ite(k <= 0, "", headTo(t, sep, k-1) + hcell(t, k-1) + sep)
lemma join_head(t *Table, sep string, a arr string, o int, k int, m int)
  requires k >= 0 && m == k + 1 && forall(j, o, o+k, a[j] == hcell(t, j-o))
  ensures joinA(sep, a, o, m) == headTo(t, sep, k) + a[o+k]
  induct k
  trigger joinA(sep, a, o, m), headTo(t, sep, k)
contract (*Table).padColumnHeader(t, col) (r)
  root
  let w = t.columnWidth[col.Name]
  requires cacheOK() && t != nil && col != nil
  modifies lru(widthCache)
  ensures r == ite(w == 0, col.Title,
      alignC(ite(vw(col.Title) <= w, col.Title, ite(vw(col.ShortTitle) <= w, col.ShortTitle, "")), w))
  ensures cacheOK()
contract (*Table).FormatHeader(t, sep) (r)
  root
  let n = len(t.Columns)
  requires cacheOK() && tabOKm(t)
  modifies lru(widthCache)
  ensures r == headTo(t, sep, n) + "\n"
  ensures cacheOK()
  inv cacheOK()
  inv {i count} i <= n
  inv {str string, i count} str == headTo(t, sep, i)
  inv {parts []string, i count} forall(j, off(parts), off(parts)+i, elems(parts)[j] == hcell(t, j - off(parts)))
  inv {parts []string, i count} forall(j, off(parts), off(parts)+i, elems(parts)[j] == hcell(t, j - off(parts)) + sep)

def sfail(t *Table, item any, k int) int =
  ite(k >= len(t.Columns), k, ite(strErr(t.Columns[k].Getter, t.Columns[k].Name, item) != nil, k, sfail(t, item, k+1)))
def basicTo(t *Table, item any, sep string, k int) string =
  ite(k <= 0, "", basicTo(t, item, sep, k-1) + ite(k > 1, sep, "") + strOf(t.Columns[k-1].Getter, t.Columns[k-1].Name, item))
lemma join_basic(t *Table, item any, sep string, a arr string, o int, k int)
  requires k >= 0 && forall(j, o, o+k, a[j] == strOf(t.Columns[j-o].Getter, t.Columns[j-o].Name, item))
  ensures joinA(sep, a, o, k) == basicTo(t, item, sep, k)
  induct k
  trigger joinA(sep, a, o, k), basicTo(t, item, sep, k)
contract (*Table).FormatItemBasic(t, item, sep) (r, err)
  root
  let f = sfail(t, item, 0)
  let n = len(t.Columns)
  requires tabOKm(t) && getters(t)
  ensures implies(f < n, r == "" && err == strErr(t.Columns[f].Getter, t.Columns[f].Name, item))
  ensures implies(f >= n, err == nil && r == basicTo(t, item, sep, n))
  inv {i count} i <= n
  inv {i count} sfail(t, item, i) == f
  inv {str string, i count} str == basicTo(t, item, sep, i)
  inv {parts []string, i count} forall(j, off(parts), off(parts)+i, elems(parts)[j] == strOf(t.Columns[j-off(parts)].Getter, t.Columns[j-off(parts)].Name, item))

def sumW(t *Table, k int) int = ite(k <= 0, 0, sumW(t, k-1) + t.columnWidth[t.Columns[k-1].Name])
def tabW(t *Table, margin int) int = ite(len(t.Columns) == 0, 0, min(65535, (len(t.Columns) - 1) * margin + sumW(t, len(t.Columns))))
lemma sumW_mono(t *Table, k int, m int)
  requires 0 <= k && k <= m
  ensures sumW(t, k) <= sumW(t, m) && 0 <= sumW(t, k) && implies(k < m, sumW(t, k) + t.columnWidth[t.Columns[k].Name] <= sumW(t, m))
  induct m
  trigger sumW(t, k), sumW(t, m)
contract (*Table).TableWidth(t, margin) (w)
  root
  requires tabOKm(t)
  ensures w == tabW(t, margin)
  inv {i count} i <= len(t.Columns)
  inv {width int, i count} width == (len(t.Columns) - 1) * margin + sumW(t, i)
  inv {width int, i count} width == max(0, i - 1) * margin + sumW(t, i)
  inv {width int, i count} width == i * margin + sumW(t, i)
  inv {width int, i count} width == sumW(t, i)
  inv {width int} width <= 65535
contract init()
  ensures [C02] cacheOK()
