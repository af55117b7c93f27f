// loop invariants of library functions, for the proofs of their contracts
package utf8
contract RuneCountInString(s) (n)
  inv {n int, rangepos rangepos} n + rc(s[rangepos:]) == rc(s)
package strings
// the panics are for results longer than the largest int
contract Join(a, sep) (r)
  panics true
  inv {b string, i count} i <= len(a) - 1 && b == joinA(sep, elems(a), off(a), i + 1)
// repetition
lemma rep_len(s string, n int)
  requires n >= 0
  ensures len(rep(s, n)) == n * len(s)
  induct n
  trigger rep(s, n)
lemma rep_add(s string, i int, j int)
  requires i >= 0 && j >= 0
  ensures rep(s, i) + rep(s, j) == rep(s, i + j)
  induct j
  hint rep(s, i) + rep(s, j - 1)
  trigger rep(s, i) + rep(s, j)
lemma rep_pre(s string, j int, k int, m int)
  requires 0 <= j && j <= k && m == j*len(s)
  ensures rep(s, k)[:m] == rep(s, j)
  hint rep(s, j) + rep(s, k - j)
  trigger rep(s, k)[:m], rep(s, j)
lemma rep_rep(s string, i int, j int)
  requires i >= 0 && j >= 0
  ensures rep(rep(s, i), j) == rep(s, i * j)
  induct j
  trigger rep(rep(s, i), j)
// the start of a string of one repeated character
lemma rep_one(c string, k int, s string, n int, m int)
  requires len(c) == 1 && n >= 0 && hasPre(rep(c, k), s) && m == n * len(s) && 0 <= m && m <= k && len(s) <= k
  ensures rep(c, k)[:m] == rep(s, n)
  hint rep(c, k)[:len(s)] == rep(c, len(s)) && rep(rep(c, len(s)), n) == rep(c, k)
  trigger rep(c, k)[:m], rep(s, n)
def mult(a int, l int) bool = a == (a/l)*l
lemma mult_add(a int, b int, c int, l int)
  requires l >= 1 && a >= 0 && b >= 0 && c == a + b && mult(a, l) && mult(b, l)
  ensures mult(c, l) && c/l == a/l + b/l
  hint (a/l + b/l) * l
  trigger mult(a, l), mult(b, l), mult(c, l)
lemma mult_sub(a int, b int, c int, l int)
  requires l >= 1 && a >= 0 && b >= 0 && c == a + b && mult(a, l) && mult(c, l)
  ensures mult(b, l) && c/l == a/l + b/l
  hint (c/l - a/l) * l
  trigger mult(a, l), mult(b, l), mult(c, l)
lemma mult_mul(n int, l int, c int)
  requires l >= 1 && n >= 0 && c == n * l
  ensures mult(c, l) && c/l == n
  trigger mult(c, l), n * l
lemma rep_grow(s string, b string, c int)
  requires len(s) >= 1 && mult(len(b), len(s)) && b == rep(s, len(b)/len(s)) && mult(c, len(s)) && 0 <= c && c <= len(b)
  ensures b + b[:c] == rep(s, (len(b)+c)/len(s)) && mult(len(b)+c, len(s))
  hint rep(s, len(b)/len(s))[:c] == rep(s, c/len(s)) && rep(s, len(b)/len(s)) + rep(s, c/len(s)) == s && mult(len(b)+c, len(s))
  trigger b + b[:c]
// the panics are for results longer than the largest int
contract Repeat(s, n) (r)
  panics true
  inv {b string} len(b) >= len(s) && len(b) <= n * len(s)
  inv {b string} mult(len(b), len(s)) && mult(n*len(s) - len(b), len(s)) && mult(n*len(s), len(s))
  inv {b string} b == rep(s, len(b)/len(s))
  inv {b string, m int} mult(m, len(s)) && m >= 1
  measure {b string} n * len(s) - len(b)
package ext
contract bits.Mul(x, y) (hi, lo)
  pure
  ensures hi >= 0 && implies(hi == 0, lo == x * y)
package utf8
// UTF-8 decoding, byte by byte (dr, dl of vc/axioms.go)
macro inR(x int, l int, h int) bool = l <= x && x <= h
macro ctn(s string, i int) bool = i < len(s) && inR(s[i], 128, 191)
macro two(s string) bool = inR(s[0], 194, 223) && ctn(s, 1)
macro three(s string) bool = ctn(s, 1) && ctn(s, 2) && ((s[0] == 224 && 160 <= s[1]) || inR(s[0], 225, 236) || (s[0] == 237 && s[1] <= 159) || inR(s[0], 238, 239))
macro four(s string) bool = ctn(s, 1) && ctn(s, 2) && ctn(s, 3) && ((s[0] == 240 && 144 <= s[1]) || inR(s[0], 241, 243) || (s[0] == 244 && s[1] <= 143))
contract DecodeRuneInString(s) (r, n)
  ensures n == ite(len(s) == 0, 0, ite(s[0] < 128, 1, ite(two(s), 2, ite(three(s), 3, ite(four(s), 4, 1)))))
  ensures r == ite(len(s) == 0, 65533, ite(s[0] < 128, s[0], ite(two(s), (s[0] - 192) * 64 + s[1] - 128,
     ite(three(s), (s[0] - 224) * 4096 + (s[1] - 128) * 64 + s[2] - 128,
     ite(four(s), (s[0] - 240) * 262144 + (s[1] - 128) * 4096 + (s[2] - 128) * 64 + s[3] - 128, 65533)))))
