// A slice is smaller than half the address space (true of every type that is not of size zero).
// How the jobs hold their resources (assumed here; the implementations in base.rs are the subject of C20).
pub enum OzzError { InvalidJob, InvalidIndex, LockPoison, InvalidTag, InvalidVersion, Unexcepted }
pub trait OzzObj<T> {
    spec fn target(&self) -> T;
    fn obj(&self) -> (r: &T) ensures *r == self.target();
}
pub trait OzzBuf<T> {
    spec fn content(&self) -> Seq<T>;
    spec fn poisoned(&self) -> bool;
    fn buf(&self) -> (r: Result<&[T], OzzError>)
        ensures match r { Ok(s) => !self.poisoned() && s@ == self.content() && s@.len() < usize::MAX, Err(e) => self.poisoned() && e == OzzError::LockPoison };
}
pub trait OzzMutBuf<T>: OzzBuf<T> + Sized {
    fn mut_buf(&mut self) -> (r: Result<&mut [T], OzzError>)
        ensures
            final(self).poisoned() == old(self).poisoned(),
            match r {
                Ok(s) => !old(self).poisoned() && s@ == old(self).content() && s@.len() < usize::MAX && final(s)@ == final(self).content(),
                Err(e) => old(self).poisoned() && e == OzzError::LockPoison && final(self).content() == old(self).content(),
            };
}
