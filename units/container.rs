/// a container of elements; `el(i)` is the value of element i and `d(i, v)` its distance to a value
pub trait ElementContainer {
    type Element;
    type V;
    spec fn inv(&self) -> bool;
    spec fn n(&self) -> nat;
    spec fn val(e: Self::Element) -> Self::V;
    spec fn el(&self, i: int) -> Self::V;
    /// a value that can be compared with the elements
    spec fn fits(&self, v: Self::V) -> bool;
    spec fn d(&self, i: int, v: Self::V) -> NotNan<f32>;
    /// `dists` may compute the distance the other way round
    spec fn dd(&self, i: int, j: int) -> NotNan<f32>;
    fn get(&self, idx: usize) -> (r: Self::Element) requires self.inv(), idx < self.n() ensures Self::val(r) == self.el(idx as int), self.fits(Self::val(r));
    fn len(&self) -> (r: usize) requires self.inv() ensures r == self.n();
    fn dist_to_element(&self, idx: usize, element: &Self::Element) -> (r: NotNan<f32>) requires self.inv(), idx < self.n(), self.fits(Self::val(*element)) ensures r == self.d(idx as int, Self::val(*element));
    fn dist(&self, i: usize, j: usize) -> (r: NotNan<f32>) requires self.inv(), i < self.n(), j < self.n() ensures r == self.d(i as int, self.el(j as int));
    fn dists(&self, idx: usize, others: &[usize]) -> (r: Vec<NotNan<f32>>) requires self.inv(), idx < self.n(), forall|k: int| 0 <= k < others@.len() ==> #[trigger] others@[k] < self.n() ensures r@.len() == others@.len(), forall|k: int| 0 <= k < others@.len() ==> #[trigger] r@[k] == self.dd(idx as int, others@[k] as int);
}
