package table
// ---- escape sequences are part of the width of a string (C01, C02): their characters after the
// introducer are printable ASCII characters, each of which starts a cluster of width at least 1
def asc(r int) bool = 32 <= r && r <= 126
def esc(r int) bool = r == 27 || r == 155
// the shape of a match of the escape sequence pattern (its facts come from the pattern, see vc/data.go)
ufn ansiShape(s string) bool
// k is the start of a code point of x
def runeBd(x string, k int) bool = ite(k <= 0 || k >= len(x), 0 <= k && k <= len(x), dl(x) <= k && runeBd(x[dl(x):], k - dl(x)))
// number of characters of x that are printable ASCII and follow one such or an introducer; ok: what precedes x is one
def vq(x string, ok bool) int =
   ite(len(x) == 0, 0, ite(ok && asc(dr(x)), 1, 0) + vq(x[dl(x):], asc(dr(x)) || esc(dr(x))))
lemma vq_range(x string, ok bool)
  local
  ensures 0 <= vq(x, ok)
  induct len(x)
  trigger vq(x, ok)
lemma vq_ok(x string, ok bool)
  local
  ensures vq(x, false) <= vq(x, ok) && vq(x, ok) <= vq(x, true)
  trigger vq(x, ok)
// none of them continues a cluster
lemma vq_nbs(x string, q int, ok bool)
  local
  requires implies(ok, q == 0 || q == 2)
  ensures vq(x, ok) <= vq(x[nbs(x, q):], true)
  induct len(x)
  trigger nbs(x, q), vq(x, ok)
lemma vq_clen(x string)
  local
  requires len(x) > 0
  ensures vq(x, true) <= ite(asc(dr(x)), 1, 0) + vq(x[clen(x):], true)
  trigger clen(x), vq(x, true)
lemma fwI_range(x string, i int, e bool, n bool)
  local
  ensures 0 <= fwI(x, i, e, n)
  induct rc(x) - i
  trigger fwI(x, i, e, n)
lemma fwI_asc(x string, e bool, n bool)
  local
  requires len(x) > 0 && asc(dr(x))
  ensures 1 <= fwI(x[:clen(x)], 0, e, n)
  trigger fwI(x[:clen(x)], 0, e, n)
lemma vq_swf(x string, e bool, n bool)
  local
  ensures vq(x, true) <= swf(x, e, n)
  induct len(x)
  trigger swf(x, e, n), vq(x, true)
// a part that starts with a code point of x has no more
lemma vq_part(x string, k int, ok bool)
  local
  requires runeBd(x, k) && 0 <= k && k <= len(x)
  ensures vq(x[k:], false) <= vq(x, ok)
  induct len(x)
  trigger runeBd(x, k), vq(x, ok)
macro ascs(x string, i int, k int) bool = forall(j, i, k, 32 <= x[j] && x[j] <= 126)
lemma vq_run(x string, i int, k int)
  local
  requires 0 <= i && i <= k && k <= len(x) && ascs(x, i, k)
  ensures vq(x[i:], true) == k - i + vq(x[k:], true)
  induct k - i
  trigger vq(x[i:], true), vq(x[k:], true)
lemma rc_run(x string, i int, k int)
  local
  requires 0 <= i && i <= k && k <= len(x) && ascs(x, i, k)
  ensures rc(x[i:k]) == k - i
  induct k - i
  hint vq(x, true)
  trigger rc(x[i:k])
lemma an_vq(s string)
  local
  ensures 0 <= anf(-1001, s) && anf(-1001, s) <= vq(s, false)
  induct len(s)
  hint ansiShape(s)
  hint vq(s[reLo(-1001, s):], false)
  hint vq(s[reLo(-1001, s)+dl(s[reLo(-1001, s):]):], true)
  hint vq(s[reHi(-1001, s):], true)
  hint vq(s[reHi(-1001, s):], false)
  hint rc(s[reLo(-1001, s)+dl(s[reLo(-1001, s):]):reHi(-1001, s)])
  trigger anf(-1001, s), vq(s, false)
lemma ansi_visible(s string, e bool, n bool)
  ensures 0 <= anf(-1001, s) && anf(-1001, s) <= swf(s, e, n)
  hint vq(s, true)
  hint vq(s, false)
  trigger swf(s, e, n)
lemma vw_range(s string)
  ensures 0 <= vw(s) && vw(s) <= 65535
  trigger vw(s)
