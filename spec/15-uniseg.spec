package uniseg
// ---- sorted interval tables (C14, C18, C19)
def tabOK(a0 arr int, a1 arr int, o int, n int) bool =
   forall(i, o, o+n, a0[i] <= a1[i]) && forall(i, int, forall(j, int, implies(o <= i && i < j && j < o+n, a1[i] < a0[j])))
// class of r in the table, or 0
def ps(a0 arr int, a1 arr int, a2 arr int, o int, n int, r int) int =
   ite(n <= 0, 0, ite(a0[o+n-1] <= r && r <= a1[o+n-1], a2[o+n-1], ps(a0, a1, a2, o, n-1, r)))
lemma ps_hit(a0 arr int, a1 arr int, a2 arr int, o int, n int, r int, k int)
  requires forall(i, int, forall(j, int, implies(o <= i && i < j && j < o+n, a1[i] < a0[j])))
  requires o <= k && k < o+n && a0[k] <= r && r <= a1[k]
  ensures ps(a0, a1, a2, o, n, r) == a2[k]
  induct n
  trigger ps(a0, a1, a2, o, n, r), a2[k]
lemma ps_miss(a0 arr int, a1 arr int, a2 arr int, o int, n int, r int)
  requires forall(k, o, o+n, a1[k] < r || r < a0[k])
  ensures ps(a0, a1, a2, o, n, r) == 0
  induct n
  trigger ps(a0, a1, a2, o, n, r)

// reference properties of code points (Unicode 14), see unicode14.ref
ufn gcb(r int) int
ufn wide(r int) bool
ufn emo(r int) bool

contract propertySearch[[3]int](dictionary, r) (result)
  requires tabOK(elems0(dictionary), elems1(dictionary), off(dictionary), len(dictionary))
  ensures result[2] == ps(elems0(dictionary), elems1(dictionary), elems2(dictionary), off(dictionary), len(dictionary), r)
  inv {from int, to int} 0 <= from && from <= to && to <= len(dictionary)
  inv {from int} forall(k, off(dictionary), off(dictionary)+from, elems1(dictionary)[k] < r)
  inv {to int} forall(k, off(dictionary)+to, off(dictionary)+len(dictionary), elems0(dictionary)[k] > r)
  inv {from int, to int} 0 <= from && to < len(dictionary) && from <= to + 1
  inv {to int} forall(k, off(dictionary)+to+1, off(dictionary)+len(dictionary), elems0(dictionary)[k] > r)
  measure {from int, to int} to - from
contract property(dictionary, r) (p)
  requires tabOK(elems0(dictionary), elems1(dictionary), off(dictionary), len(dictionary))
  ensures p == ps(elems0(dictionary), elems1(dictionary), elems2(dictionary), off(dictionary), len(dictionary), r)

// ---- widths (C19)
def zeroW(c int) bool = c == prControl || c == prCR || c == prLF || c == prExtend || c == prZWJ
// width of a code point of class c
def urw(r int, c int) int =
   ite(zeroW(c), 0, ite(c == prRegionalIndicator, 2, ite(c == prExtendedPictographic, ite(emo(r), 2, 1),
    ite(r == 0x2e3a, 3, ite(r == 0x2e3b, 4, ite(wide(r), 2, 1))))))
contract runeWidth(r, graphemeProperty) (w)
  ensures w == urw(r, graphemeProperty)
// width of a cluster with first class fp and width w so far, after one more code point r
def updCW(fp int, w int, r int) int =
   ite(r == 0xfe0f, 2, ite(fp == prExtendedPictographic, ite(r == 0xfe0e, 1, 2),
     ite(fp == prRegionalIndicator || fp == prL, w, w + urw(r, gcb(r)))))

// ---- the rules of UAX #29 as an automaton
// 0 anything else, 1 after CR, 2 after LF or Control, 3 L, 4 V or LV, 5 T or LVT, 6 Prepend,
// 7 pictograph (and Extend*), 8 pictograph Extend* ZWJ, 9 an odd and 10 an even number of regional indicators
def brkA(q int, c int) bool =
   ite(q == 1 && c == prLF, false,
   ite(q == 1 || q == 2, true,
   ite(c == prCR || c == prLF || c == prControl, true,
   ite(q == 3 && (c == prL || c == prV || c == prLV || c == prLVT), false,
   ite(q == 4 && (c == prV || c == prT), false,
   ite(q == 5 && c == prT, false,
   ite(c == prExtend || c == prZWJ || c == prSpacingMark, false,
   ite(q == 6, false,
   ite(q == 8 && c == prExtendedPictographic, false,
   ite(q == 9 && c == prRegionalIndicator, false, true))))))))))
def nxtA(q int, c int) int =
   ite(c == prCR, 1, ite(c == prLF || c == prControl, 2, ite(c == prL, 3, ite(c == prV || c == prLV, 4, ite(c == prT || c == prLVT, 5,
   ite(c == prPrepend, 6, ite(c == prExtendedPictographic, 7, ite(c == prExtend && q == 7, 7, ite(c == prZWJ && q == 7, 8,
   ite(c == prRegionalIndicator, ite(q == 9, 10, 9), 0))))))))))
// the automaton's state for a parser state
def aSt(s int) int =
   ite(s == grAny, 0, ite(s == grCR, 1, ite(s == grControlLF, 2, ite(s == grL, 3, ite(s == grLVV, 4, ite(s == grLVTT, 5, ite(s == grPrepend, 6,
   ite(s == grExtendedPictographic, 7, ite(s == grExtendedPictographicZWJ, 8, ite(s == grRIOdd, 9, ite(s == grRIEven, 10, -1)))))))))))
def stOK(s int) bool = 0 <= s && s <= 15 && aSt(s) >= 0

contract transitionGraphemeState(state, r) (newState, prop, boundary)
  requires state < 0 || stOK(state)
  ensures [C17, C18] prop == gcb(r)
  ensures stOK(newState)
  ensures [C17] implies(state < 0, aSt(newState) == nxtA(0, gcb(r)))
  ensures [C17] implies(state >= 0, aSt(newState) == nxtA(aSt(state), gcb(r)) && boundary == brkA(aSt(state), gcb(r)))

// a boundary may start afresh
lemma brk_start(q int, c int)
  requires brkA(q, c)
  ensures nxtA(q, c) == nxtA(0, c)
  trigger brkA(q, c)

// ---- the automaton against the rules with unlimited lookback, on any sequence of classes
// state after class k
def run(c arr int, k int) int = ite(k <= 0, nxtA(0, c[0]), nxtA(run(c, k-1), c[k]))
// Extended_Pictographic Extend* up to k
def picE(c arr int, k int) bool = ite(k < 0, false, c[k] == prExtendedPictographic || c[k] == prExtend && picE(c, k-1))
// number of regional indicators up to k is odd / even
def riOdd(c arr int, k int) bool = ite(k < 0, false, c[k] == prRegionalIndicator && !riOdd(c, k-1))
macro inLF(x int) bool = x == prLF || x == prControl
// is there a boundary between classes i-1 and i?
def uax(c arr int, i int) bool =
   ite(c[i-1] == prCR && c[i] == prLF, false,
   ite(c[i-1] == prCR || c[i-1] == prLF || c[i-1] == prControl, true,
   ite(c[i] == prCR || c[i] == prLF || c[i] == prControl, true,
   ite(c[i-1] == prL && (c[i] == prL || c[i] == prV || c[i] == prLV || c[i] == prLVT), false,
   ite((c[i-1] == prLV || c[i-1] == prV) && (c[i] == prV || c[i] == prT), false,
   ite((c[i-1] == prLVT || c[i-1] == prT) && c[i] == prT, false,
   ite(c[i] == prExtend || c[i] == prZWJ || c[i] == prSpacingMark, false,
   ite(c[i-1] == prPrepend, false,
   ite(c[i-1] == prZWJ && c[i] == prExtendedPictographic && picE(c, i-2), false,
   ite(c[i] == prRegionalIndicator && riOdd(c, i-1), false, true))))))))))
macro runRel(c arr int, k int, q int) bool =
   (q == 1) == (c[k] == prCR) && (q == 2) == (c[k] == prLF || c[k] == prControl) && (q == 3) == (c[k] == prL)
   && (q == 4) == (c[k] == prV || c[k] == prLV) && (q == 5) == (c[k] == prT || c[k] == prLVT) && (q == 6) == (c[k] == prPrepend)
   && (q == 7) == picE(c, k) && (q == 8) == (c[k] == prZWJ && picE(c, k-1)) && (q == 9) == riOdd(c, k)
   && (q == 10) == (c[k] == prRegionalIndicator && !riOdd(c, k))
lemma run_rel(c arr int, k int)
  requires k >= 0
  ensures runRel(c, k, run(c, k))
  induct k
  trigger run(c, k)
lemma run_uax(c arr int, k int)
  requires k >= 0
  ensures brkA(run(c, k), c[k+1]) == uax(c, k+1)
  hint run(c, k)
// after a boundary the rest may be looked at on its own: d is c from b+1 on
lemma run_restart(c arr int, d arr int, b int, m int, j int)
  requires b >= 0 && j >= 0 && m == b + 1 + j && brkA(run(c, b), c[b+1]) && forall(i, int, d[i] == c[b+1+i])
  ensures run(c, m) == run(d, j)
  induct j
  trigger run(c, m), run(d, j), run(c, b)

// ---- clusters of a string (C15, C16, C17, C19)
// bytes at the start of x that continue a cluster in state q
def nbs(x string, q int) int =
   ite(len(x) == 0, 0, ite(brkA(q, gcb(dr(x))), 0, dl(x) + nbs(x[dl(x):], nxtA(q, gcb(dr(x))))))
lemma nbs_range(x string, q int)
  ensures 0 <= nbs(x, q) && nbs(x, q) <= len(x)
  induct len(x)
  trigger nbs(x, q)
// length of the first cluster
def clen(x string) int = ite(len(x) == 0, 0, dl(x) + nbs(x[dl(x):], nxtA(0, gcb(dr(x)))))
lemma clen_range(x string)
  ensures 0 <= clen(x) && clen(x) <= len(x) && implies(len(x) > 0, clen(x) >= 1)
  trigger clen(x)
// width of a cluster continued by x
def wnb(x string, q int, fp int, w int) int =
   ite(len(x) == 0, w, ite(brkA(q, gcb(dr(x))), w, wnb(x[dl(x):], nxtA(q, gcb(dr(x))), fp, updCW(fp, w, dr(x)))))
def cwid(x string) int = ite(len(x) == 0, 0, wnb(x[dl(x):], nxtA(0, gcb(dr(x))), gcb(dr(x)), urw(dr(x), gcb(dr(x)))))
// a state to continue with before x
def contOK(s int, x string) bool = s < 0 || len(x) == 0 || stOK(modc(s, 16)) && aSt(modc(s, 16)) == nxtA(0, gcb(dr(x))) && divc(s, 2097152) == gcb(dr(x))

contract StepString(str, state) (cluster, rest, boundaries, newState)
  root
  requires contOK(state, str)
  ensures [C16] implies(len(str) > 0, len(cluster) >= 1) && len(cluster) + len(rest) == len(str)
  ensures [C16] cluster == str[:len(cluster)] && rest == str[len(cluster):]
  ensures [C17] cluster == str[:clen(str)]
  ensures [C17] rest == str[clen(str):]
  ensures [C19] boundaries == 16 * cwid(str)
  ensures [C16, C17] implies(len(rest) > 0, newState >= 0)
  ensures [C16, C17, C19] contOK(newState, rest)
  ensures newState >= 0
  inv {length int} dl(str) <= length && length < len(str)
  inv {length int, remainder string} remainder == str[length:]
  inv {length int, graphemeState int} clen(str) == length + nbs(str[length:], aSt(graphemeState))
  inv {length int, graphemeState int, firstProp int, width int} cwid(str) == wnb(str[length:], aSt(graphemeState), firstProp, width)
  inv {graphemeState int} stOK(graphemeState)
  inv {firstProp int} firstProp == gcb(dr(str))
  measure {length int} len(str) - length

macro gOK(g *Graphemes) bool = g != nil && contOK(g.state, g.remaining)
contract NewGraphemes(str) (g)
  root
  ensures fresh(g) && g.remaining == str && g.state < 0
  ensures gOK(g)
contract (*Graphemes).Next(g) (ok)
  root
  requires gOK(g)
  modifies g.remaining, g.cluster, g.offset, g.boundaries, g.state
  ensures ok == (len(old(g.remaining)) > 0)
  ensures [C16] implies(ok, len(g.cluster) >= 1) && len(g.cluster) + len(g.remaining) == old(len(g.remaining))
  ensures [C16] g.cluster == old(g.remaining)[:len(g.cluster)] && g.remaining == old(g.remaining)[len(g.cluster):]
  ensures [C17] g.cluster == old(g.remaining[:clen(g.remaining)])
  ensures [C17] g.remaining == old(g.remaining[clen(g.remaining):])
  ensures (g.state >= 0) == ok
  ensures gOK(g)
contract (*Graphemes).Runes(g) (r)
  root
  requires g != nil
  ensures implies(g.state < 0, r == nil)
  ensures implies(g.state >= 0, len(r) == rc(g.cluster) && forall(j, off(r), off(r)+len(r), elems(r)[j] == ra(g.cluster, j - off(r))))
  inv {runes []rune, rangepos rangepos} len(runes) + rc(g.cluster[rangepos:]) == rc(g.cluster)
  inv {runes []rune, rangepos rangepos} forall(j, 0, rc(g.cluster[rangepos:]), ra(g.cluster[rangepos:], j) == ra(g.cluster, len(runes) + j))
  inv {runes []rune, rangepos rangepos} implies(rangepos < len(g.cluster), ra(g.cluster[rangepos:], 0) == ra(g.cluster, len(runes)) && ra(g.cluster[rangepos:], 0) == dr(g.cluster[rangepos:]))
  inv {runes []rune} forall(j, off(runes), off(runes)+len(runes), elems(runes)[j] == ra(g.cluster, j - off(runes)))
  inv {runes []rune, rest strphi} len(runes) + rc(rest) == rc(g.cluster)
  inv {runes []rune, rest strphi} forall(j, 0, rc(rest), ra(rest, j) == ra(g.cluster, len(runes) + j))
  inv {runes []rune, rest strphi} implies(0 < len(rest), ra(rest, 0) == ra(g.cluster, len(runes)) && ra(rest, 0) == dr(rest))
  measure {rest strphi} len(rest)
  inv {i phi, rangepos rangepos} i + rc(g.cluster[rangepos:]) == rc(g.cluster)
  inv {i phi, rangepos rangepos} forall(j, 0, rc(g.cluster[rangepos:]), ra(g.cluster[rangepos:], j) == ra(g.cluster, i + j))
  inv {i phi, rangepos rangepos} implies(rangepos < len(g.cluster), ra(g.cluster[rangepos:], 0) == ra(g.cluster, i) && ra(g.cluster[rangepos:], 0) == dr(g.cluster[rangepos:]))
  inv {runes []rune, i phi} forall(j, off(runes), off(runes)+i, elems(runes)[j] == ra(g.cluster, j - off(runes)))
