/// a container whose elements can be permuted
pub trait Permutable: ElementContainer {
    fn permute(&mut self, permutation: &[usize])
        requires old(self).inv(), permutation@.len() == old(self).n() ==> pub_is_perm(permutation@)
        ensures permutation@.len() == old(self).n(), final(self).inv(), final(self).n() == old(self).n(),
            forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).el(i) == old(self).el(permutation@[i] as int);
}
pub open spec fn pub_is_perm(p: Seq<usize>) -> bool { (forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < p.len()) && forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && #[trigger] p[i] == #[trigger] p[j] ==> i == j }
