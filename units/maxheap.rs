// src/max_size_heap.rs
/*@ src/max_size_heap.rs :: struct MaxSizeHeap
#subst `struct MaxSizeHeap < T >` => `# [ verifier :: reject_recursive_types ( T ) ] struct MaxSizeHeap < T >`
@*/
/// the outcome of pushing e onto a heap h of at most n elements
spec fn heap_push<T: PartialOrd>(h: Multiset<T>, n: int, e: T, o: Multiset<T>) -> bool {
    if h.len() < n { o == h.insert(e) } else if exists|t: T| #![trigger is_top(h, t)] is_top(h, t) && vlt(e, t) { exists|t: T| #![trigger is_top(h, t)] is_top(h, t) && o == h.remove(t).insert(e) } else { o == h }
}
impl<T: Ord> MaxSizeHeap<T> {
    spec fn h(&self) -> Multiset<T> { self.heap@ }
    spec fn cap(&self) -> int { self.max_size as int }
    spec fn wf(&self) -> bool { self.h().len() <= self.cap() && self.cap() >= 1 }
/*@ src/max_size_heap.rs :: impl MaxSizeHeap :: fn new
#ret r
#spec
    requires max_size >= 1
    ensures r.h() == Multiset::<T>::empty(), r.cap() == max_size, r.wf()
@*/
/*@ src/max_size_heap.rs :: impl MaxSizeHeap :: fn push
#ret r
#spec
    requires old(self).wf(), ordered::<T>()
    ensures final(self).wf(), final(self).cap() == old(self).cap(), heap_push(old(self).h(), old(self).cap(), element, final(self).h()), r == (old(self).h().len() < old(self).cap() || exists|t: T| #![trigger is_top(old(self).h(), t)] is_top(old(self).h(), t) && vlt(element, t))
#begin
    proof { lemma_tops::<T>(self.h()); }
@*/
/*@ src/max_size_heap.rs :: impl MaxSizeHeap :: fn is_full
#ret r
#spec
    ensures r == (self.h().len() >= self.cap())
@*/
/*@ src/max_size_heap.rs :: impl MaxSizeHeap :: fn peek
#ret r
#spec
    ensures match r { Some(x) => self.h().contains(*x) && (ordered::<T>() ==> is_top(self.h(), *x)), None => self.h().len() == 0 }
@*/
/*@ src/max_size_heap.rs :: impl MaxSizeHeap :: fn into_sorted_vec
#ret r
#spec
    ensures r@.to_multiset() == self.h(), ordered::<T>() ==> sorted_vlt(r@)
@*/
}
/// all tops are equivalent
proof fn lemma_tops<T: PartialOrd>(h: Multiset<T>) requires ordered::<T>() ensures forall|e: T, s: T, t: T| #![trigger is_top(h, s), is_top(h, t), vlt(e, s)] is_top(h, s) && is_top(h, t) && vlt(e, s) ==> vlt(e, t)
{
    assert forall|e: T, s: T, t: T| #![trigger is_top(h, s), is_top(h, t), vlt(e, s)] is_top(h, s) && is_top(h, t) && vlt(e, s) implies vlt(e, t) by {
        assert(!vlt(t, s));
        if !vlt(e, t) { assert(!vlt(e, s)); }
    }
}
