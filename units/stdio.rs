#[allow(unused_imports)] use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec};
#[allow(unused_imports)] use core::cmp::Ordering;
verus! {
/*@include stdspec.rs@*/
/// the range a..b
#[verifier::external_body]
fn vx_range(a: usize, b: usize) -> (r: It<usize>) ensures r@.len() == if a <= b { b - a } else { 0 }, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a + i { unimplemented!() }
// ---- bytes in memory and I/O; trusted: the layout axioms and the shims for std::io, memmap and slices ----
#[verifier::external_body]
pub struct IoError { _p: u8 }
pub type Result<T, E = IoError> = core::result::Result<T, E>;


/// the bytes of a slice in memory
pub uninterp spec fn bytes_of<T>(s: Seq<T>) -> Seq<u8>;
/// the elements of type T stored in bytes
pub uninterp spec fn of_bytes<T>(b: Seq<u8>) -> Seq<T>;
pub broadcast axiom fn axiom_u8_layout() ensures #[trigger] vstd::layout::size_of::<u8>() == 1, #[trigger] vstd::layout::align_of::<u8>() == 1;
pub open spec fn sz<T>() -> int { vstd::layout::size_of::<T>() as int }
pub broadcast axiom fn axiom_bytes_len<T>(s: Seq<T>) ensures (#[trigger] bytes_of(s)).len() == s.len() * sz::<T>();
pub broadcast axiom fn axiom_of_bytes<T>(s: Seq<T>) requires sz::<T>() > 0 ensures #[trigger] of_bytes::<T>(bytes_of(s)) == s;
pub broadcast axiom fn axiom_of_bytes_len<T>(b: Seq<u8>) requires sz::<T>() > 0 ensures #[trigger] of_bytes::<T>(b).len() == b.len() as int / sz::<T>();
pub axiom fn axiom_bytes_concat<T>(a: Seq<T>, b: Seq<T>) ensures bytes_of(a + b) == bytes_of(a) + bytes_of(b);
pub uninterp spec fn u64_le(x: u64) -> Seq<u8>;
pub broadcast axiom fn axiom_u64_le_len(x: u64) ensures (#[trigger] u64_le(x)).len() == 8;
pub axiom fn axiom_u64_le_inj(x: u64, y: u64) requires u64_le(x) == u64_le(y) ensures x == y;
pub uninterp spec fn u32_le(x: u32) -> Seq<u8>;
pub broadcast axiom fn axiom_u32_le_len(x: u32) ensures (#[trigger] u32_le(x)).len() == 4;
pub axiom fn axiom_u32_le_inj(x: u32, y: u32) requires u32_le(x) == u32_le(y) ensures x == y;
pub broadcast group group_bytes { axiom_bytes_len, axiom_of_bytes, axiom_of_bytes_len, axiom_u64_le_len, axiom_u32_le_len }
#[verifier::external_body]
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures u64_le(r) == b@ { u64::from_le_bytes(b) }
#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures u32_le(r) == b@ { u32::from_le_bytes(b) }
pub trait LeBytes { type A; spec fn le(&self) -> Seq<u8>; fn vx_le_bytes(&self) -> (r: Self::A); }
impl LeBytes for u64 { type A = [u8; 8]; open spec fn le(&self) -> Seq<u8> { u64_le(*self) } #[verifier::external_body] fn vx_le_bytes(&self) -> (r: [u8; 8]) ensures r@ == u64_le(*self) { self.to_le_bytes() } }
impl LeBytes for usize { type A = [u8; 8]; open spec fn le(&self) -> Seq<u8> { u64_le(*self as u64) } #[verifier::external_body] fn vx_le_bytes(&self) -> (r: [u8; 8]) ensures r@ == u64_le(*self as u64) { (*self as u64).to_le_bytes() } }
impl LeBytes for u32 { type A = [u8; 4]; open spec fn le(&self) -> Seq<u8> { u32_le(*self) } #[verifier::external_body] fn vx_le_bytes(&self) -> (r: [u8; 4]) ensures r@ == u32_le(*self) { self.to_le_bytes() } }

/// slicing as it is: out of range indices panic
pub fn rt_slice<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) ensures a <= b <= s@.len(), r@ == s@.subrange(a as int, b as int) { rt_assert(a <= b && b <= s.len()); &s[a..b] }
pub fn rt_slice_from<T>(s: &[T], a: usize) -> (r: &[T]) ensures a <= s@.len(), r@ == s@.subrange(a as int, s@.len() as int), aligned_from(s, a as int, r) { rt_assert(a <= s.len()); slice_from(s, a) }
pub fn rt_slice_to<T>(s: &[T], b: usize) -> (r: &[T]) ensures b <= s@.len(), r@ == s@.subrange(0, b as int) { rt_assert(b <= s.len()); &s[0..b] }
pub fn rt_slice_full<T>(s: &[T]) -> (r: &[T]) ensures r == s { s }
/// x[a..=b]
pub fn rt_slice_incl<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) ensures a <= b + 1, b < s@.len(), r@ == s@.subrange(a as int, b + 1) { rt_assert(b < s.len()); rt_assert(a <= b + 1); &s[a..b + 1] }
/// arithmetic that panics or wraps when it overflows
#[verifier::external_body]
pub fn wr_add(a: usize, b: usize) -> (r: usize) ensures r == (if a + b <= usize::MAX { a + b } else { a + b - usize::MAX - 1 }) { a.wrapping_add(b) }
#[verifier::external_body]
pub fn wr_mul(a: usize, b: usize) -> (r: usize) ensures a * b <= usize::MAX ==> r == a * b { a.wrapping_mul(b) }
pub trait RtUnwrap { type O; spec fn is_some_(&self) -> bool; spec fn get_(&self) -> Self::O; /** may panic */ fn rt_unwrap(self) -> (r: Self::O) ensures self.is_some_(), r == self.get_(); }
impl<T> RtUnwrap for Option<T> { type O = T; open spec fn is_some_(&self) -> bool { *self is Some } open spec fn get_(&self) -> T { self->Some_0 } #[verifier::external_body] fn rt_unwrap(self) -> (r: T) { self.unwrap() } }
impl<T, E> RtUnwrap for core::result::Result<T, E> { type O = T; open spec fn is_some_(&self) -> bool { *self is Ok } open spec fn get_(&self) -> T { self->Ok_0 } #[verifier::external_body] fn rt_unwrap(self) -> (r: T) { unimplemented!() } }
/// Vec::extend
#[verifier::external_body]
pub fn vec_extend<T>(v: &mut Vec<T>, it: It<T>) ensures final(v)@ == old(v)@ + it@ { unimplemented!() }
pub trait RtSplit<T> { fn rt_split_at(&self, n: usize) -> (r: (&[T], &[T])); }
impl<T> RtSplit<T> for [T] { fn rt_split_at(&self, n: usize) -> (r: (&[T], &[T])) ensures n <= self@.len(), r.0@ == self@.subrange(0, n as int), r.1@ == self@.subrange(n as int, self@.len() as int) { rt_assert(n <= self.len()); (&self[0..n], slice_from(self, n)) } }

/// s with the elements from a on replaced by x
pub open spec fn splice<T>(s: Seq<T>, a: int, x: Seq<T>) -> Seq<T> { Seq::new(s.len(), |k: int| if a <= k < a + x.len() { x[k - a] } else { s[k] }) }
/// mutable slicing: the rest of the slice is untouched and a slice never changes its length
pub trait RtSliceMut<T> {
    spec fn sq(&self) -> Seq<T>;
    fn rt_slice_mut(&mut self, a: usize, b: usize) -> (r: &mut [T]) ensures a <= b <= old(self).sq().len(), r@ == old(self).sq().subrange(a as int, b as int), final(r)@.len() == b - a, final(self).sq() == splice(old(self).sq(), a as int, final(r)@);
    fn rt_split_at_mut(&mut self, n: usize) -> (r: (&mut [T], &mut [T])) ensures n <= old(self).sq().len(), r.0@ == old(self).sq().subrange(0, n as int), r.1@ == old(self).sq().subrange(n as int, old(self).sq().len() as int), final(r.0)@.len() == n, final(r.1)@.len() == old(self).sq().len() - n, final(self).sq() == final(r.0)@ + final(r.1)@;
}
impl<T> RtSliceMut<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn rt_slice_mut(&mut self, a: usize, b: usize) -> (r: &mut [T]) { &mut self[a..b] }
    #[verifier::external_body] fn rt_split_at_mut(&mut self, n: usize) -> (r: (&mut [T], &mut [T])) { self.split_at_mut(n) } }
impl<T> RtSliceMut<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn rt_slice_mut(&mut self, a: usize, b: usize) -> (r: &mut [T]) { &mut self[a..b] }
    #[verifier::external_body] fn rt_split_at_mut(&mut self, n: usize) -> (r: (&mut [T], &mut [T])) { self.split_at_mut(n) } }

pub trait VxChunks<T> { fn vx_chunks_exact(&self, n: usize) -> (r: It<&[T]>); }
impl<T> VxChunks<T> for [T] {
    #[verifier::external_body]
    fn vx_chunks_exact(&self, n: usize) -> (r: It<&[T]>) ensures n > 0, r@.len() == self@.len() as int / n as int, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@.subrange(i * n, i * n + n) && r@[i]@.len() == n && 0 <= i * n && i * n + n <= self@.len() { unimplemented!() }
}
/// the longest prefix of b that holds whole elements
pub open spec fn whole<T>(b: Seq<u8>) -> Seq<u8> { b.subrange(0, b.len() - b.len() as int % sz::<T>()) }
/// the address of the slice is a multiple of n
pub uninterp spec fn addr_mult<T>(s: &[T], n: int) -> bool;
pub open spec fn aligned_from<T>(s: &[T], a: int, r: &[T]) -> bool { forall|n: int| #[trigger] addr_mult(s, n) && n > 0 && (a * sz::<T>()) % n == 0 ==> addr_mult(r, n) }
#[verifier::external_body]
pub fn slice_from<T>(s: &[T], a: usize) -> (r: &[T]) requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int), aligned_from(s, a as int, r) { &s[a..] }
pub axiom fn axiom_addr_one<T>(s: &[T]) ensures addr_mult(s, 1);
/// bytes.as_ptr() as usize % n
#[verifier::external_body]
pub fn addr_mod(s: &[u8], n: usize) -> (r: usize) requires n > 0 ensures r == 0 ==> addr_mult(s, n as int) { s.as_ptr() as usize % n }
/// slice::from_raw_parts(bytes.as_ptr() as *const T, n): the n elements lie within bytes and are aligned
#[verifier::external_body]
pub fn raw_from_bytes<T>(bytes: &[u8], n: usize) -> (r: &[T])
    requires n * sz::<T>() <= bytes@.len(), addr_mult(bytes, vstd::layout::align_of::<T>() as int)
    ensures r@ == of_bytes::<T>(bytes@.subrange(0, n * sz::<T>())) { unimplemented!() }
/// slice::from_raw_parts(elements.as_ptr() as *const u8, n): within the elements
#[verifier::external_body]
pub fn raw_to_bytes<T>(elements: &[T], n: usize) -> (r: &[u8])
    requires n <= elements@.len() * sz::<T>()
    ensures r@ == bytes_of(elements@).subrange(0, n as int) { unimplemented!() }

// memmap::Mmap: its bytes start at a page boundary
#[verifier::external_body]
pub struct Mmap { _p: u8 }
impl View for Mmap { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Mmap { #[verifier::external_body] pub fn sl(&self) -> (r: &[u8]) ensures r@ == self@, forall|n: int| 0 < n <= 16 && 4096int % n == 0 ==> #[trigger] addr_mult(r, n) { unimplemented!() } }
impl Deref for Mmap { type Target = [u8]; fn deref(&self) -> (r: &[u8]) ensures r@ == self@, forall|n: int| 0 < n <= 16 && 4096int % n == 0 ==> #[trigger] addr_mult(r, n) { self.sl() } }

impl Mmap {
    /// maps the file's content
    #[verifier::external_body] pub fn map(f: &&File) -> (r: Result<Mmap>) ensures r is Ok ==> r->Ok_0@ == f@ { unimplemented!() }
    #[verifier::external_body] pub fn advise_memory_access(&self, p: AccessPattern) -> (r: Result<()>) { unimplemented!() }
}
pub enum AccessPattern { Normal, Sequential, Random }
#[verifier::external_body]
pub struct File { _p: u8 }
impl View for File { type V = Seq<u8>; /** its content */ uninterp spec fn view(&self) -> Seq<u8>; }

// std::io::Write and Seek: content, position, and whether an operation has failed
pub open spec fn overwrite(c: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if b.len() == 0 { c } else { Seq::new(if p + b.len() > c.len() { (p + b.len()) as nat } else { c.len() }, |i: int| if p <= i < p + b.len() { b[i - p] } else if i < c.len() { c[i] } else { 0u8 }) }
}
pub proof fn lemma_overwrite(c: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires 0 <= p
    ensures overwrite(overwrite(c, p, a), p + a.len(), b) == overwrite(c, p, a + b)
{ assert(overwrite(overwrite(c, p, a), p + a.len(), b) =~= overwrite(c, p, a + b)); }
pub trait Sink: Sized {
    spec fn out(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn failed(&self) -> bool;
    /// what a borrowed destination is in the end
    type Dest;
    #[verifier::prophetic] spec fn dest(&self) -> Self::Dest;
}
pub trait Write: Sink {
    /// possibly only the first bytes
    fn write(&mut self, b: &[u8]) -> (r: Result<usize>)
        ensures old(self).pos() >= 0, r is Ok ==> r->Ok_0 <= b@.len() && wrote(*old(self), *final(self), b@.subrange(0, r->Ok_0 as int)), r is Err || old(self).failed() ==> final(self).failed();
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
        ensures old(self).pos() >= 0, r is Ok ==> wrote(*old(self), *final(self), b@), r is Err || old(self).failed() ==> final(self).failed();
    fn flush(&mut self) -> (r: Result<()>)
        ensures old(self).pos() >= 0, r is Ok ==> wrote(*old(self), *final(self), Seq::empty()), r is Err || old(self).failed() ==> final(self).failed();
}
/// `b` is `a` after the bytes `s` were accepted without any failure
#[verifier::prophetic]
pub open spec fn wrote<B: Sink>(a: B, b: B, s: Seq<u8>) -> bool { b.dest() == a.dest() && accepted(a, b, s) }
pub open spec fn accepted<B: Sink>(a: B, b: B, s: Seq<u8>) -> bool { b.out() == overwrite(a.out(), a.pos(), s) && b.pos() == a.pos() + s.len() && b.failed() == a.failed() && a.pos() >= 0 }
pub broadcast proof fn lemma_wrote<B: Sink>(a: B, b: B, c: B, s: Seq<u8>, t: Seq<u8>)
    requires #[trigger] wrote(a, b, s), #[trigger] wrote(b, c, t) ensures wrote(a, c, s + t)
{ lemma_overwrite(a.out(), a.pos(), s, t); }
pub enum SeekFrom { Start(u64), Current(i64) }
pub trait Seek: Write {
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>)
        ensures r is Ok ==> r->Ok_0 == final(self).pos() && final(self).dest() == old(self).dest() && final(self).out() == old(self).out() && final(self).failed() == old(self).failed() && final(self).pos() == (match to { SeekFrom::Start(x) => x as int, SeekFrom::Current(x) => old(self).pos() + x }),
            r is Err || old(self).failed() ==> final(self).failed();
}
} // verus!
