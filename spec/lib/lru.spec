// The width cache's library, proved of its source: the contracts assumed of
// lru.New, Get and Set (spec/00-lib.spec) hold with lrudom(c) the keys of
// c.items and lruval(c)[k] the value of element c.items[k]. Nothing outside the
// package can write what lruOK speaks of: New establishes it, Get and Set keep it.
package lru
macro lruA(c) bool = c != nil && c.ll != nil && c.items != nil && c.options != nil && c.options.capacity > 0 && c.ll.len >= 0
   && allocated(c.ll.root) && c.ll.root.list == nil && c.ll.root.next != nil && c.ll.root.prev != nil
macro lruB(c, l, r) bool = (r.next == r || r.next.list == l) && (r.prev == r || r.prev.list == l) && r.next.prev == r && r.prev.next == r
macro lruC(l, r) bool = forall(e, like(r), implies(e.list == l, e.next != nil && e.prev != nil))
macro lruD(l, r) bool = forall(e, like(r), implies(e.list == l, e.next.prev == e && e.prev.next == e))
macro lruE(l, r) bool = forall(e, like(r), implies(e.list == l, (e.next == r || e.next.list == l) && (e.prev == r || e.prev.list == l)))
macro lruF(l, r) bool = forall(e, like(r), implies(e.list == l, allocated(e)))
macro lruG(c) bool = forall(k, string, implies(has(c.items, k), c.items[k] != nil && c.items[k].Value.key == k))
macro lruH(c) bool = forall(k, string, implies(has(c.items, k), allocated(c.items[k])))

contract (*Cache).Get(c, k) (v, ok)
  requires lruA(c)
  requires lruB(c, c.ll, c.ll.root)
  requires lruC(c.ll, c.ll.root)
  requires lruD(c.ll, c.ll.root)
  requires lruE(c.ll, c.ll.root)
  requires lruF(c.ll, c.ll.root)
  requires lruG(c)
  requires lruH(c)
  modifies any(c.ll.root.next), any(c.ll.root.prev)
  ensures lruA(c)
  ensures lruB(c, c.ll, c.ll.root)
  ensures lruC(c.ll, c.ll.root)
  ensures lruD(c.ll, c.ll.root)
  ensures lruE(c.ll, c.ll.root)
  ensures lruF(c.ll, c.ll.root)
  ensures lruG(c)
  ensures lruH(c)
  ensures implies(ok, has(c.items, k) && v == c.items[k].Value.value)
  ensures implies(!ok, v == 0)
contract (*Cache).Set(c, k, v)
  requires lruA(c)
  requires lruB(c, c.ll, c.ll.root)
  requires lruC(c.ll, c.ll.root)
  requires lruD(c.ll, c.ll.root)
  requires lruE(c.ll, c.ll.root)
  requires lruF(c.ll, c.ll.root)
  requires lruG(c)
  requires lruH(c)
  modifies any(c.ll.root.next), any(c.ll.root.prev), any(c.ll.root.list), any(c.ll.root.Value), any(c.ll.len), maps(c.items)
  ensures lruA(c)
  ensures lruB(c, c.ll, c.ll.root)
  ensures lruC(c.ll, c.ll.root)
  ensures lruD(c.ll, c.ll.root)
  ensures lruE(c.ll, c.ll.root)
  ensures lruF(c.ll, c.ll.root)
  ensures lruG(c)
  ensures lruH(c)
  ensures has(c.items, k) && c.items[k].Value.value == v
  ensures forall(s, string, implies(has(c.items, s) && s != k, old(has(c.items, s)) && c.items[s].Value.value == old(c.items[s].Value.value)))
contract New[string, uint16](o) (c)
  requires forall(i, 0, len(o), o[i] != nil)
  inv c.options.capacity > 0
  ensures fresh(c) && forall(s, string, !has(c.items, s))
  ensures lruA(c)
  ensures lruB(c, c.ll, c.ll.root)
  ensures lruC(c.ll, c.ll.root)
  ensures lruD(c.ll, c.ll.root)
  ensures lruE(c.ll, c.ll.root)
  ensures lruF(c.ll, c.ll.root)
  ensures lruG(c)
  ensures lruH(c)
// options are made by WithCapacity only (the method is unexported)
package ext
contract lru.CacheOption.apply(f, o)
  requires o != nil
  modifies o.capacity
  ensures o.capacity > 0
