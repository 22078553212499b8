// How the jobs hold their resources and buffers: src/base.rs.
// Assumed: the cells and locks of the standard library. A cell or lock has an identity; a guard that it hands out is a guard of that
// very cell, whose content is what the guard derefs to. Rc and Arc are modelled by the verifier (the pointee).
#![feature(allocator_api)]
use vstd::prelude::*;
use std::rc::Rc;
use std::sync::Arc;

verus! {

pub trait Debug { }
impl<T> Debug for T { }
pub enum OzzError { InvalidJob, InvalidIndex, LockPoison, InvalidTag, InvalidVersion, Unexcepted }

pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<Rc<T, A> as core::convert::AsRef<T>>::as_ref] (s: &Rc<T, A>) -> (r: &T)
    ensures r == &**s;
pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<Arc<T, A> as core::convert::AsRef<T>>::as_ref] (s: &Arc<T, A>) -> (r: &T)
    ensures r == &**s;

pub trait OzzObj<T: Debug> {
    spec fn target(&self) -> T;
    fn obj(&self) -> (r: &T) ensures *r == self.target();
}
impl<T: Debug> OzzObj<T> for T {
    open spec fn target(&self) -> T { *self }
//@fn src/base.rs OzzObj<T> for T::obj
//@ret r
//@end
}
impl<T: Debug> OzzObj<T> for &T {
    open spec fn target(&self) -> T { **self }
//@fn src/base.rs OzzObj<T> for &T::obj
//@ret r
//@end
}
impl<T: Debug> OzzObj<T> for Rc<T> {
    open spec fn target(&self) -> T { **self }
//@fn src/base.rs OzzObj<T> for Rc<T>::obj
//@ret r
//@end
}
impl<T: Debug> OzzObj<T> for Arc<T> {
    open spec fn target(&self) -> T { **self }
//@fn src/base.rs OzzObj<T> for Arc<T>::obj
//@ret r
//@end
}

// ---- the cells and locks of the standard library (assumed)
#[verifier::external_body]
pub struct CellId { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ref<'t, T> { x: core::marker::PhantomData<&'t T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefMut<'t, T> { x: core::marker::PhantomData<&'t T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLockReadGuard<'t, T> { x: core::marker::PhantomData<&'t T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLockWriteGuard<'t, T> { x: core::marker::PhantomData<&'t T> }
pub struct PoisonError<G> { pub guard: G }
impl<G> PoisonError<G> {
    pub fn into_inner(self) -> (r: G) ensures r == self.guard { self.guard }
}

// The forms that do not wait may refuse for any other holder, whoever it is.
pub enum TryLockError<G> { Poisoned(PoisonError<G>), WouldBlock }
#[verifier::external_body]
pub struct BorrowError { x: u8 }
#[verifier::external_body]
pub struct BorrowMutError { x: u8 }

impl<T> RefCell<T> {
    pub uninterp spec fn id(&self) -> CellId;
    #[verifier::external_body]
    pub fn try_borrow(&self) -> (r: Result<Ref<'_, T>, BorrowError>) ensures r matches Ok(g) ==> g.of() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_borrow_mut(&self) -> (r: Result<RefMut<'_, T>, BorrowMutError>) ensures r matches Ok(g) ==> g.of() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: Ref<'_, T>) ensures r.of() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut(&self) -> (r: RefMut<'_, T>) ensures r.of() == self.id() { unimplemented!() }
}
impl<T> RwLock<T> {
    pub uninterp spec fn id(&self) -> CellId;
    pub uninterp spec fn poisoned(&self) -> bool;
    #[verifier::external_body]
    pub fn is_poisoned(&self) -> (r: bool) ensures r == self.poisoned() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_read(&self) -> (r: Result<RwLockReadGuard<'_, T>, TryLockError<RwLockReadGuard<'_, T>>>)
        ensures match r { Ok(g) => !self.poisoned() && g.of() == self.id(), Err(TryLockError::Poisoned(e)) => self.poisoned() && e.guard.of() == self.id(), Err(TryLockError::WouldBlock) => true }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_write(&self) -> (r: Result<RwLockWriteGuard<'_, T>, TryLockError<RwLockWriteGuard<'_, T>>>)
        ensures match r { Ok(g) => !self.poisoned() && g.of() == self.id(), Err(TryLockError::Poisoned(e)) => self.poisoned() && e.guard.of() == self.id(), Err(TryLockError::WouldBlock) => true }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: Result<RwLockReadGuard<'_, T>, PoisonError<RwLockReadGuard<'_, T>>>)
        ensures match r { Ok(g) => !self.poisoned() && g.of() == self.id(), Err(e) => self.poisoned() && e.guard.of() == self.id() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self) -> (r: Result<RwLockWriteGuard<'_, T>, PoisonError<RwLockWriteGuard<'_, T>>>)
        ensures match r { Ok(g) => !self.poisoned() && g.of() == self.id(), Err(e) => self.poisoned() && e.guard.of() == self.id() }
    { unimplemented!() }
}
impl<T> Ref<'_, T> {
    pub uninterp spec fn of(&self) -> CellId;
}
impl<T> RefMut<'_, T> {
    pub uninterp spec fn of(&self) -> CellId;
}
impl<T> RwLockReadGuard<'_, T> {
    pub uninterp spec fn of(&self) -> CellId;
}
impl<T> RwLockWriteGuard<'_, T> {
    pub uninterp spec fn of(&self) -> CellId;
}
// What a guard derefs to: the vector of its cell, whole, and a write through it is a write to that vector.
impl<T> Ref<'_, Vec<T>> {
    pub uninterp spec fn vec(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.vec() { unimplemented!() }
}
impl<T> RwLockReadGuard<'_, Vec<T>> {
    pub uninterp spec fn vec(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.vec() { unimplemented!() }
}
impl<T> RefMut<'_, Vec<T>> {
    pub uninterp spec fn vec(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.vec() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_slice(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).vec(), final(self).vec() == final(r)@, final(self).of() == old(self).of() { unimplemented!() }
}
impl<T> RwLockWriteGuard<'_, Vec<T>> {
    pub uninterp spec fn vec(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.vec() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_slice(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).vec(), final(self).vec() == final(r)@, final(self).of() == old(self).of() { unimplemented!() }
}

// ---- the guards of the library: a guard is the slice that it gives
pub trait Deref {
    type Item;
    spec fn seq(&self) -> Seq<Self::Item>;
    fn deref(&self) -> (r: &[Self::Item]) ensures r@ == self.seq();
}
pub trait DerefMut: Deref + Sized {
    // what the guard guards stays the same
    spec fn same(&self, o: &Self) -> bool;
    fn deref_mut(&mut self) -> (r: &mut [Self::Item])
        ensures r@ == old(self).seq(), final(self).seq() == final(r)@, final(self).same(old(self));
}
//@item src/base.rs struct ObSliceRef
//@end
//@item src/base.rs struct ObSliceRefMut
//@end
#[verifier::reject_recursive_types(T)]
//@item src/base.rs struct ObCellRef
//@end
#[verifier::reject_recursive_types(T)]
//@item src/base.rs struct ObCellRefMut
//@end
#[verifier::reject_recursive_types(T)]
//@item src/base.rs struct ObRwLockReadGuard
//@end
#[verifier::reject_recursive_types(T)]
//@item src/base.rs struct ObRwLockWriteGuard
//@end

impl<T> Deref for ObSliceRef<'_, T> {
    type Item = T;
    open spec fn seq(&self) -> Seq<T> { self.0@ }
//@fn src/base.rs Deref for ObSliceRef<'_, T>::deref
//@sub Self::Target ==> [T]
//@ret r
//@end
}
impl<T> Deref for ObSliceRefMut<'_, T> {
    type Item = T;
    open spec fn seq(&self) -> Seq<T> { self.0@ }
//@fn src/base.rs Deref for ObSliceRefMut<'_, T>::deref
//@sub Self::Target ==> [T]
//@ret r
//@end
}
impl<T> DerefMut for ObSliceRefMut<'_, T> {
    open spec fn same(&self, o: &Self) -> bool { true }
//@fn src/base.rs DerefMut for ObSliceRefMut<'_, T>::deref_mut
//@sub Self::Target ==> [T]
//@ret r
//@end
}
impl<T> Deref for ObCellRef<'_, T> {
    type Item = T;
    open spec fn seq(&self) -> Seq<T> { self.0.vec() }
//@fn src/base.rs Deref for ObCellRef<'_, T>::deref
//@sub Self::Target ==> [T]
//@ret r
//@end
}
impl<T> Deref for ObCellRefMut<'_, T> {
    type Item = T;
    open spec fn seq(&self) -> Seq<T> { self.0.vec() }
//@fn src/base.rs Deref for ObCellRefMut<'_, T>::deref
//@sub Self::Target ==> [T]
//@ret r
//@end
}
impl<T> DerefMut for ObCellRefMut<'_, T> {
    open spec fn same(&self, o: &Self) -> bool { self.0.of() == o.0.of() }
//@fn src/base.rs DerefMut for ObCellRefMut<'_, T>::deref_mut
//@sub Self::Target ==> [T]
//@ret r
//@end
}
impl<T> Deref for ObRwLockReadGuard<'_, T> {
    type Item = T;
    open spec fn seq(&self) -> Seq<T> { self.0.vec() }
//@fn src/base.rs Deref for ObRwLockReadGuard<'_, T>::deref
//@sub Self::Target ==> [T]
//@ret r
//@end
}
impl<T> Deref for ObRwLockWriteGuard<'_, T> {
    type Item = T;
    open spec fn seq(&self) -> Seq<T> { self.0.vec() }
//@fn src/base.rs Deref for ObRwLockWriteGuard<'_, T>::deref
//@sub Self::Target ==> [T]
//@ret r
//@end
}
impl<T> DerefMut for ObRwLockWriteGuard<'_, T> {
    open spec fn same(&self, o: &Self) -> bool { self.0.of() == o.0.of() }
//@fn src/base.rs DerefMut for ObRwLockWriteGuard<'_, T>::deref_mut
//@sub Self::Target ==> [T]
//@ret r
//@end
}

// ---- the buffers
// A buffer gives a guard of its own content, or the lock error exactly when its lock is poisoned.
pub trait OzzBuf<T> {
    type Buf<'t>: Deref<Item = T> where Self: 't;
    // the guard is one of this buffer
    spec fn gives(&self, g: &Self::Buf<'_>) -> bool;
    spec fn poisoned(&self) -> bool;
    fn buf(&self) -> (r: Result<Self::Buf<'_>, OzzError>)
        ensures match r { Ok(g) => !self.poisoned() && self.gives(&g), Err(e) => self.poisoned() && e == OzzError::LockPoison };
}

// (The verifier has no associated types with an outlives clause: these two stand alone, with the contract of the trait.)
pub struct Slice;
impl Slice {
//@fn src/base.rs OzzBuf<T> for &'a [T]::buf
//@sub fn buf\(&self\) ==> pub fn buf<'b, 'a, T: 'static>(this: &'b &'a [T])
//@sub ObSliceRef<T>, ==> ObSliceRef<'b, T>,
//@sub \bself\b ==> this
//@ret r
//@spec
    ensures r matches Ok(g) && g.seq() == this@
//@end
}
pub struct SliceOfMut;
impl SliceOfMut {
//@fn src/base.rs OzzBuf<T> for &'a mut [T]::buf
//@sub fn buf\(&self\) ==> pub fn buf<'b, 'a, T: 'static>(this: &'b &'a mut [T])
//@sub ObSliceRef<T>, ==> ObSliceRef<'b, T>,
//@sub \bself\b ==> this
//@ret r
//@spec
    ensures r matches Ok(g) && g.seq() == old(*this)@
//@end
}
impl<T: 'static> OzzBuf<T> for Vec<T> {
    type Buf<'t> = ObSliceRef<'t, T>;
    open spec fn gives(&self, g: &ObSliceRef<'_, T>) -> bool { g.0@ == self@ }
    open spec fn poisoned(&self) -> bool { false }
//@fn src/base.rs OzzBuf<T> for Vec<T>::buf
//@ret r
//@end
}
impl<T: 'static> OzzBuf<T> for Rc<RefCell<Vec<T>>> {
    type Buf<'t> = ObCellRef<'t, T>;
    open spec fn gives(&self, g: &ObCellRef<'_, T>) -> bool { g.0.of() == (**self).id() }
    open spec fn poisoned(&self) -> bool { false }
//@fn src/base.rs OzzBuf<T> for Rc<RefCell<Vec<T>>>::buf
//@ret r
//@end
}
impl<T: 'static> OzzBuf<T> for Arc<RwLock<Vec<T>>> {
    type Buf<'t> = ObRwLockReadGuard<'t, T>;
    open spec fn gives(&self, g: &ObRwLockReadGuard<'_, T>) -> bool { g.0.of() == (**self).id() }
    open spec fn poisoned(&self) -> bool { (**self).poisoned() }
//@fn src/base.rs OzzBuf<T> for Arc<RwLock<Vec<T>>>::buf
//@ret r
//@end
}
// The guards to write through. A slice or vector is what its guard leaves; a cell or lock keeps its identity and the guard is one of it.
pub open spec fn only_ok<G>(r: Result<G, OzzError>, poisoned: bool) -> bool {
    match r { Ok(g) => !poisoned, Err(e) => poisoned && e == OzzError::LockPoison }
}
pub struct SliceMut;
impl SliceMut {
//@fn src/base.rs OzzMutBuf<T> for &'a mut [T]::mut_buf
//@sub fn mut_buf\(&mut self\) ==> pub fn mut_buf<'b, 'a, T: 'static>(this: &'b mut &'a mut [T])
//@sub ObSliceRefMut<T>, ==> ObSliceRefMut<'b, T>,
//@sub \bself\b ==> this
//@ret r
//@spec
    ensures r matches Ok(g) && g.0@ == old(this)@ && final(g.0)@ == final(this)@
//@end
}
pub struct VecMut;
impl VecMut {
//@fn src/base.rs OzzMutBuf<T> for Vec<T>::mut_buf
//@sub fn mut_buf\(&mut self\) ==> pub fn mut_buf<'b, T: 'static>(this: &'b mut Vec<T>)
//@sub ObSliceRefMut<T>, ==> ObSliceRefMut<'b, T>,
//@sub \bself\b ==> this
//@ret r
//@spec
    ensures r matches Ok(g) && g.0@ == old(this)@ && final(g.0)@ == final(this)@
//@end
}
pub struct CellMut;
impl CellMut {
//@fn src/base.rs OzzMutBuf<T> for Rc<RefCell<Vec<T>>>::mut_buf
//@sub fn mut_buf\(&mut self\) ==> pub fn mut_buf<'b, T: 'static>(this: &'b mut Rc<RefCell<Vec<T>>>)
//@sub ObCellRefMut<T>, ==> ObCellRefMut<'b, T>,
//@sub \bself\b ==> this
//@ret r
//@spec
    ensures *final(this) == *old(this), r matches Ok(g) && g.0.of() == (**old(this)).id()
//@end
}
pub struct LockMut;
impl LockMut {
//@fn src/base.rs OzzMutBuf<T> for Arc<RwLock<Vec<T>>>::mut_buf
//@sub fn mut_buf\(&mut self\) ==> pub fn mut_buf<'b, T: 'static>(this: &'b mut Arc<RwLock<Vec<T>>>)
//@sub ObRwLockWriteGuard<T>, ==> ObRwLockWriteGuard<'b, T>,
//@sub \bself\b ==> this
//@ret r
//@spec
    ensures *final(this) == *old(this), only_ok(r, (**old(this)).poisoned()), r matches Ok(g) ==> g.0.of() == (**old(this)).id()
//@end
}
fn main() { }
}
