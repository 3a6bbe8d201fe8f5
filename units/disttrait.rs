/// the distance between two elements is a function of their values
pub trait Dist<Other> {
    spec fn sd(self, o: Other) -> NotNan<f32>;
    /// the two can be compared
    spec fn comparable(self, o: Other) -> bool;
    fn dist(&self, other: &Other) -> (r: NotNan<f32>) requires self.comparable(*other) ensures r == self.sd(*other);
}
