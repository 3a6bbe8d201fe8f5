// src/odd_byte_int.rs: the dependency byteorder is trusted to do what it documents
pub struct LittleEndian;
/// the number stored in little endian order
pub open spec fn le(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { b[0] as nat + 256 * le(b.subrange(1, b.len() as int)) } }
pub open spec fn pow256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
pub proof fn lemma_le_bound(b: Seq<u8>) ensures le(b) < pow256(b.len()) decreases b.len() { if b.len() > 0 { lemma_le_bound(b.subrange(1, b.len() as int)); } }
/// different bytes are different numbers
pub proof fn lemma_le_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), le(a) == le(b) ensures a == b decreases a.len()
{
    if a.len() > 0 { lemma_le_inj(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.subrange(1, a.len() as int)[i - 1] == b.subrange(1, b.len() as int)[i - 1]); } } }
    assert(a =~= b);
}
pub proof fn lemma_pow256() ensures pow256(3) == 0x100_0000, pow256(5) == 0x100_0000_0000 { assert(pow256(3) == 0x100_0000 && pow256(5) == 0x100_0000_0000) by (compute); }
impl LittleEndian {
    /// reads an n-byte integer; panics unless 1 <= n <= 8 bytes are there
    #[verifier::external_body]
    pub fn read_uint(b: &[u8], n: usize) -> (r: u64) ensures 1 <= n <= 8, n <= b@.len(), r == le(b@.subrange(0, n as int)) { unimplemented!() }
    /// writes an n-byte integer; panics if it does not fit in n bytes
    #[verifier::external_body]
    pub fn write_uint(b: &mut [u8], x: u64, n: usize) ensures 1 <= n <= 8, n <= old(b)@.len(), final(b)@.len() == old(b)@.len(), le(final(b)@.subrange(0, n as int)) == x, final(b)@.subrange(n as int, final(b)@.len() as int) == old(b)@.subrange(n as int, old(b)@.len() as int) { unimplemented!() }
}
pub trait VxOffset: Copy {
    spec fn val(&self) -> int;
    spec fn lim() -> int;
    proof fn lemma_val(x: Self, y: Self) ensures 0 <= x.val() < Self::lim(), x.val() == y.val() ==> x == y;
}
