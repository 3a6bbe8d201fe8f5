// std functions as their documentation describes them; a function that panics satisfies its contract
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::reserve_exact] (v: &mut Vec<T, A>, n: usize) ensures final(v)@ == old(v)@;
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
pub assume_specification<T: Clone> [<[T]>::clone_from_slice] (d: &mut [T], s: &[T]) requires old(d)@.len() == s@.len() ensures final(d)@ == s@;
pub open spec fn sorted_by_ord<T: Ord>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> !(#[trigger] s[i].cmp_spec(&#[trigger] s[j]) is Greater) }
pub assume_specification<T: Ord> [<[T]>::sort] (s: &mut [T]) ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), T::obeys_cmp_spec() ==> sorted_by_ord(final(s)@);
pub assume_specification<T: Ord> [core::cmp::min] (a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { b } else { a });
pub assume_specification<T: Ord> [core::cmp::max] (a: T, b: T) -> (r: T) ensures T::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) is Greater { a } else { b });
pub assume_specification<T> [core::mem::replace] (d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;
pub assume_specification<T, E, F: FnOnce(E) -> T> [core::result::Result::<T, E>::unwrap_or_else] (a: core::result::Result<T, E>, f: F) -> (r: T)
    requires a is Err ==> f.requires((a->Err_0,)) ensures a is Ok ==> r == a->Ok_0, a is Err ==> f.ensures((a->Err_0,), r);
pub assume_specification<T, F: FnOnce(&T) -> bool> [Option::<T>::filter] (a: Option<T>, f: F) -> (r: Option<T>)
    requires a is Some ==> f.requires((&a->Some_0,)) ensures a is None ==> r is None, a is Some ==> (r == a && f.ensures((&a->Some_0,), true)) || (r is None && f.ensures((&a->Some_0,), false));
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or::<U, F> ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)) ensures match o { None => r == d, Some(x) => f.ensures((x,), r) };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else::<U, D, F> ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()) ensures match o { None => d.ensures((), r), Some(x) => f.ensures((x,), r) };
pub assume_specification<T: Ord> [<[T]>::sort_unstable] (s: &mut [T]) ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), T::obeys_cmp_spec() ==> sorted_by_ord(final(s)@);
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize) ensures a < old(s)@.len(), b < old(s)@.len(), final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], x: T) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> #[trigger] final(s)@[i] == x;
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U> [Option::<T>::zip] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a is Some && b is Some { Some((a->Some_0, b->Some_0)) } else { None });
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (a: Option<T>, f: F) -> (r: bool) requires a is Some ==> f.requires((a->Some_0,)) ensures match a { Some(x) => f.ensures((x,), r), None => !r };
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) ensures b > 0, r == (a + b - 1) / (b as int);
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == if a < b { b - a } else { a - b };
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::shrink_to_fit] (v: &mut Vec<T, A>) ensures final(v)@ == old(v)@;
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::capacity] (v: &Vec<T, A>) -> (r: usize) ensures r >= v@.len();
