// Contracts of library code and of code supplied by the user. They are assumed
// (trusted) here; DESIGN.md lists them, and `vc axioms` proves or tests the library ones.
package table
// the strings a[o], a[o+1], ..., a[o+n-1] with sep between them
def joinA(sep string, a arr string, o int, n int) string =
    ite(n <= 0, "", ite(n == 1, a[o], joinA(sep, a, o, n-1) + sep + a[o+n-1]))

ufn reFound(re int, s string) bool
ufn reLo(re int, s string) int
ufn reHi(re int, s string) int
ufn reGroups(re int) int
ufn reSub(re int, s string, i int) string
ufn lower(s string) string
ufn getenv(k string) string

// user code: getters, item lists, alignment functions
ufn getVal(g Getter, item any) any
ufn getErr(g Getter, item any) error
ufn fmtVal(g Getter, item any, v any) string
ufn fmtErr(g Getter, item any, v any) error
ufn strOf(g Getter, name string, item any) string
ufn strErr(g Getter, name string, item any) error
ufn itemsLen(l FormattedItemList) int
ufn rowLen(l FormattedItemList, i int) int
ufn cellStr(l FormattedItemList, i int, c int) string
ufn rowsTop(l FormattedItemList) int
ufn alfn(f Alignment, s string, w int) string

package ext
contract strings.Repeat(s, n) (r)
  pure
  requires n >= 0
  ensures r == rep(s, n)
contract strings.Join(a, sep) (r)
  pure
  ensures r == joinA(sep, elems(a), off(a), len(a))
contract strings.ToLower(s) (r)
  pure
  ensures r == lower(s)
contract strings.HasPrefix(s, p) (r)
  pure
  ensures r == hasPre(s, p)
contract strings.HasSuffix(s, p) (r)
  pure
  ensures r == hasSuf(s, p)
contract strings.IndexByte(s, c) (n)
  pure
  ensures n == ite(posOf(s, c, 0) < len(s), posOf(s, c, 0), -1)
contract strings.TrimSuffix(s, p) (r)
  pure
  ensures r == ite(hasSuf(s, p), s[:len(s)-len(p)], s)
contract strings.TrimPrefix(s, p) (r)
  pure
  ensures r == ite(hasPre(s, p), s[len(p):], s)
contract utf8.RuneCountInString(s) (n)
  pure
  ensures n == rc(s)
contract utf8.DecodeRuneInString(s) (r, n)
  pure
  ensures r == dr(s)
  ensures n == dl(s)
contract regexp.(*Regexp).FindStringIndex(re, s) (loc)
  requires re != nil
  ensures iff(loc == nil, !reFound(ref(re), s))
  ensures implies(reFound(ref(re), s), fresh(loc) && len(loc) == 2 && loc[0] == reLo(ref(re), s) && loc[1] == reHi(ref(re), s)
          && 0 <= reLo(ref(re), s) && reLo(ref(re), s) <= reHi(ref(re), s) && reHi(ref(re), s) <= len(s))
contract regexp.(*Regexp).FindStringSubmatch(re, s) (r)
  requires re != nil
  ensures iff(r == nil, !reFound(ref(re), s))
  ensures implies(reFound(ref(re), s), fresh(r) && len(r) == reGroups(ref(re)) + 1
          && forall(j, 1, len(r), elems(r)[off(r)+j] == reSub(ref(re), s, j)))
  ensures implies(reFound(ref(re), s) && len(r) > 1, r[1] == reSub(ref(re), s, 1))
  ensures implies(reFound(ref(re), s), reGroups(ref(re)) >= 0)
contract lru.New(o) (c)
  ensures c != nil && fresh(c) && forall(s, string, !lrudom(c)[s])
contract lru.WithCapacity(n) (o)
  requires n > 0
contract lru.(*Cache).Get(c, k) (v, ok)
  pure
  requires c != nil
  ensures implies(ok, lrudom(c)[k] && v == lruval(c)[k])
  ensures implies(!ok, v == 0)
contract lru.(*Cache).Set(c, k, v)
  requires c != nil
  modifies lru(c)
  ensures lrudom(c)[k] && lruval(c)[k] == v
  ensures forall(s, string, implies(lrudom(c)[s] && s != k, old(lrudom(c)[s]) && lruval(c)[s] == old(lruval(c)[s])))
contract fmt.Errorf(f, a) (err)
  ensures err != nil
contract errors.New(s) (err)
  ensures err != nil
contract os.Getenv(k) (v)
  pure
  ensures v == getenv(k)
contract table.Getter.Value(g, item) (v, err)
  ensures v == getVal(g, item) && err == getErr(g, item)
contract table.Getter.Format(g, item, v) (s, err)
  ensures s == fmtVal(g, item, v) && err == fmtErr(g, item, v)
contract table.Getter.ValueString(g, name, item) (s, err)
  ensures s == strOf(g, name, item) && err == strErr(g, name, item)
contract table.FormattedItemList.Len(l) (n)
  pure
  ensures n == itemsLen(l) && n >= 0
contract table.FormattedItemList.Get(l, i) (r)
  requires 0 <= i && i < itemsLen(l)
  ensures len(r) == rowLen(l, i) && base(r) < rowsTop(l)
  ensures forall(j, off(r), off(r)+len(r), elems(r)[j] == cellStr(l, i, j - off(r)))
contract fn_string_uint16_string(f, s, w) (r)
  requires cacheOK()
  modifies lru(table.widthCache)
  ensures r == alfn(f, s, w)
  ensures cacheOK()
