//! Stand-in without the progress bar, which starts a process at every step when there is no terminal.
pub struct Tqdm<I: Iterator>(I);

impl<I: Iterator> Iterator for Tqdm<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

impl<I: Iterator> Tqdm<I> {
    pub fn desc<S: ToString>(self, _: Option<S>) -> Self {
        self
    }
    pub fn width(self, _: Option<usize>) -> Self {
        self
    }
    pub fn clear(self, _: bool) -> Self {
        self
    }
}

pub fn tqdm<I: IntoIterator>(iterable: I) -> Tqdm<I::IntoIter> {
    Tqdm(iterable.into_iter())
}

pub trait Iter: Iterator {
    fn tqdm(self) -> Tqdm<Self>
    where
        Self: Sized,
    {
        Tqdm(self)
    }
}
impl<I: Iterator> Iter for I {}
