package runewidth
// ---- width of a code point (C14); the sets are those of runewidth.ref
ufn rwNonprint(r int) bool
ufn rwCombining(r int) bool
ufn rwDouble(r int) bool
ufn rwAmbiguous(r int) bool
ufn rwNarrow(r int) bool
ufn rwEmoji(r int) bool
def rw(r int, e bool, n bool) int =
   ite(r < 0 || r > 0x10FFFF, 0,
    ite(rwNonprint(r) || rwCombining(r), 0,
     ite(rwNarrow(r), 1,
      ite(rwDouble(r) || e && rwAmbiguous(r) || e && !n && rwEmoji(r), 2, 1))))
lemma rw_range(r int, e bool, n bool)
  ensures 0 <= rw(r, e, n) && rw(r, e, n) <= 2
  trigger rw(r, e, n)

def inTab(a0 arr int, a1 arr int, o int, n int, r int) bool = exists(k, o, o+n, a0[k] <= r && r <= a1[k])
contract inTable(r, t) (ok)
  requires len(t) > 0 && tabOK(elems0(t), elems1(t), off(t), len(t))
  ensures ok == inTab(elems0(t), elems1(t), off(t), len(t), r)
  inv {bot int, top int} 0 <= bot && top < len(t)
  inv {bot int} forall(k, off(t), off(t)+bot, elems1(t)[k] < r)
  inv {top int} forall(k, off(t)+top+1, off(t)+len(t), elems0(t)[k] > r)
  inv {bot int, top int} 0 <= bot && bot <= top && top <= len(t)
  inv {top int} forall(k, off(t)+top, off(t)+len(t), elems0(t)[k] > r)
  inv {i count} forall(k, off(t), off(t)+i, elems1(t)[k] < r || elems0(t)[k] > r)
  measure {bot int, top int} top - bot

// the lookup table, if there is one, holds the widths
macro lutOK(c *Condition) bool = len(c.combinedLut) == 557056 &&
    forall(i, off(c.combinedLut), off(c.combinedLut)+557056, elems(c.combinedLut)[i] ==
       rw(2*(i - off(c.combinedLut)), c.EastAsianWidth, c.StrictEmojiNeutral) + 16*rw(2*(i - off(c.combinedLut)) + 1, c.EastAsianWidth, c.StrictEmojiNeutral))
macro condOK(c *Condition) bool = len(c.combinedLut) == 0 || lutOK(c)

contract (*Condition).RuneWidth(c, r) (w)
  root
  pure
  requires c != nil && condOK(c)
  ensures w == rw(r, c.EastAsianWidth, c.StrictEmojiNeutral)
contract (*Condition).CreateLUT(c)
  root
  requires c != nil && (len(c.combinedLut) == 0 || len(c.combinedLut) == 557056)
  modifies c.combinedLut, elems(c.combinedLut)
  ensures lutOK(c)
  inv {lut []byte} len(lut) == 557056
  inv {i count} i <= 557056
  inv {lut []byte, i count} forall(k, off(lut), off(lut)+i, elems(lut)[k] ==
       rw(2*(k - off(lut)), c.EastAsianWidth, c.StrictEmojiNeutral) + 16*rw(2*(k - off(lut)) + 1, c.EastAsianWidth, c.StrictEmojiNeutral))
  inv {lut []byte, r phi} r == 2*len(lut) && r <= 1114112
  inv {lut []byte, i count} i == len(lut)
  inv {lut []byte} forall(k, off(lut), off(lut)+len(lut), elems(lut)[k] ==
       rw(2*(k - off(lut)), c.EastAsianWidth, c.StrictEmojiNeutral) + 16*rw(2*(k - off(lut)) + 1, c.EastAsianWidth, c.StrictEmojiNeutral))
contract CreateLUT()
  root
  requires DefaultCondition != nil && condOK(DefaultCondition)
  modifies DefaultCondition.combinedLut, elems(DefaultCondition.combinedLut)
  ensures lutOK(DefaultCondition)
  ensures implies(old(len(DefaultCondition.combinedLut)) > 0, DefaultCondition.combinedLut == old(DefaultCondition.combinedLut))
contract NewCondition() (c)
  root
  ensures fresh(c) && c.EastAsianWidth == EastAsianWidth && c.StrictEmojiNeutral == StrictEmojiNeutral && len(c.combinedLut) == 0

// ---- width of a string (C15)
// width of the first code point of x from the i-th on that has one
def fwI(x string, i int, e bool, n bool) int =
   ite(i < 0 || i >= rc(x), 0, ite(rw(ra(x, i), e, n) > 0, rw(ra(x, i), e, n), fwI(x, i+1, e, n)))
def swf(s string, e bool, n bool) int =
   ite(len(s) == 0, 0, fwI(s[:clen(s)], 0, e, n) + swf(s[clen(s):], e, n))
contract (*Condition).StringWidth(c, s) (width)
  root
  requires c != nil && condOK(c)
  ensures width == swf(s, c.EastAsianWidth, c.StrictEmojiNeutral)
  inv {width int, g *uniseg.Graphemes} width + swf(g.remaining, c.EastAsianWidth, c.StrictEmojiNeutral) == swf(s, c.EastAsianWidth, c.StrictEmojiNeutral)
  inv {g *uniseg.Graphemes} gOK(g)
  inv {chWidth int} chWidth == 0
  inv {i count, g *uniseg.Graphemes} fwI(g.cluster, i, c.EastAsianWidth, c.StrictEmojiNeutral) == fwI(g.cluster, 0, c.EastAsianWidth, c.StrictEmojiNeutral)
  inv {rest strphi, state phi} contOK(state, rest)
  inv {width phi, rest strphi} width + swf(rest, c.EastAsianWidth, c.StrictEmojiNeutral) == swf(s, c.EastAsianWidth, c.StrictEmojiNeutral)
  inv {cluster rangestr, rangepos rangepos} rc(cluster[rangepos:]) <= rc(cluster)
  inv {cluster rangestr, rangepos rangepos} forall(j, 0, rc(cluster[rangepos:]), ra(cluster[rangepos:], j) == ra(cluster, rc(cluster) - rc(cluster[rangepos:]) + j))
  inv {cluster rangestr, rangepos rangepos} implies(rangepos < len(cluster), ra(cluster[rangepos:], 0) == ra(cluster, rc(cluster) - rc(cluster[rangepos:])) && ra(cluster[rangepos:], 0) == dr(cluster[rangepos:]))
  inv {cluster rangestr, rangepos rangepos} fwI(cluster, rc(cluster) - rc(cluster[rangepos:]), c.EastAsianWidth, c.StrictEmojiNeutral) == fwI(cluster, 0, c.EastAsianWidth, c.StrictEmojiNeutral)
  measure {rest strphi} len(rest)
  measure {g *uniseg.Graphemes} len(g.remaining)
contract StringWidth(s) (w)
  root
  pure
  requires DefaultCondition != nil && condOK(DefaultCondition)
  ensures w == swf(s, DefaultCondition.EastAsianWidth, DefaultCondition.StrictEmojiNeutral)

// ---- the environment (C20, C21)
macro locale() string = ite(getenv("LC_ALL") != "", getenv("LC_ALL"), ite(getenv("LC_CTYPE") != "", getenv("LC_CTYPE"), getenv("LANG")))
def localeC(l string) bool = l == "POSIX" || l == "C" || len(l) > 1 && l[0] == 67 && (l[1] == 46 || l[1] == 45)
macro charsetOf(l string) string = lower(ite(reFound(-1002, l), reSub(-1002, l, 1), l))
// position of the first byte b from i on, or the length
def posOf(s string, b int, i int) int = ite(i < 0 || i >= len(s), len(s), ite(s[i] == b, i, posOf(s, b, i+1)))
lemma posOf_range(s string, b int, i int)
  requires 0 <= i && i <= len(s)
  ensures i <= posOf(s, b, i) && posOf(s, b, i) <= len(s)
  induct len(s) - i
  trigger posOf(s, b, i)
def multiByte(c string) bool = c == "utf-8" || c == "utf8" || c == "jis" || c == "eucjp" || c == "euckr" || c == "euccn" || c == "sjis"
   || c == "cp932" || c == "cp51932" || c == "cp936" || c == "cp949" || c == "cp950" || c == "big5" || c == "gbk" || c == "gb2312"
macro hasPre(s string, p string) bool = len(s) >= len(p) && s[:len(p)] == p
macro hasSuf(s string, p string) bool = len(s) >= len(p) && s[len(s)-len(p):] == p
def eaCharset(l string, c string) bool = multiByte(c) && (c[0] != 117 || hasPre(l, "ja") || hasPre(l, "ko") || hasPre(l, "zh"))
def eaLocale(l string) bool = !hasSuf(charsetOf(l), "@cjk_narrow") && eaCharset(l, charsetOf(l)[:posOf(charsetOf(l), 64, 0)])
contract isEastAsian(locale) (r)
  ensures r == eaLocale(locale)
  inv {i count, charset string} posOf(charset, 64, i) == posOf(charset, 64, 0)
  inv {charset string} charset == charsetOf(locale)
  inv {i count, charset string} i <= len(charset)
macro eaEnv() bool = !localeC(locale()) && eaLocale(locale())
contract IsEastAsian() (r)
  root
  ensures r == eaEnv()
macro eaMode() bool = ite(getenv("RUNEWIDTH_EASTASIAN") == "", eaEnv(), getenv("RUNEWIDTH_EASTASIAN") == "1")
contract handleEnv()
  root
  requires DefaultCondition != nil && condOK(DefaultCondition)
  modifies EastAsianWidth, DefaultCondition.EastAsianWidth, DefaultCondition.combinedLut, elems(DefaultCondition.combinedLut)
  ensures [C20] EastAsianWidth == eaMode()
  ensures [C21] DefaultCondition.EastAsianWidth == EastAsianWidth
  ensures [C21] condOK(DefaultCondition)
  ensures [C21] (len(DefaultCondition.combinedLut) > 0) == old(len(DefaultCondition.combinedLut) > 0)
contract init#1()
  root
  requires DefaultCondition != nil && condOK(DefaultCondition)
  modifies EastAsianWidth, DefaultCondition.EastAsianWidth, DefaultCondition.combinedLut, elems(DefaultCondition.combinedLut)
  ensures [C20] EastAsianWidth == eaMode()
  ensures [C21] DefaultCondition.EastAsianWidth == EastAsianWidth
  ensures [C21] condOK(DefaultCondition)
// what the package is initialized to
contract init()
  modifies EastAsianWidth, DefaultCondition, StrictEmojiNeutral
  ensures [C20] EastAsianWidth == eaMode()
  ensures [C21] DefaultCondition != nil && condOK(DefaultCondition)
  ensures [C21] DefaultCondition.EastAsianWidth == EastAsianWidth
  ensures [C21] DefaultCondition.StrictEmojiNeutral && StrictEmojiNeutral
