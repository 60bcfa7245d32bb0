#![feature(ptr_metadata)]
//! Stand-in for the part of https://github.com/AntonSol919/triomphe (not available offline) that
//! linkspace-pkt uses: a reference count followed by a header and a byte slice.
use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
use std::marker::PhantomData;
use std::ptr::NonNull;
use std::sync::atomic::{fence, AtomicUsize, Ordering};

#[repr(C)]
#[derive(Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]
pub struct HeaderSlice<H, T: ?Sized> {
    pub header: H,
    pub slice: T,
}
#[repr(C)]
struct ArcInner<T: ?Sized> {
    count: AtomicUsize,
    data: T,
}
pub struct Arc<T: ?Sized> {
    p: NonNull<ArcInner<T>>,
    phantom: PhantomData<T>,
}
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}

impl<T: ?Sized> Arc<T> {
    pub fn count(this: &Self) -> usize {
        unsafe { this.p.as_ref() }.count.load(Ordering::Acquire)
    }
    pub fn into_raw(this: Self) -> *const T {
        let p: *const T = unsafe { &(*this.p.as_ptr()).data };
        std::mem::forget(this);
        p
    }
    pub fn heap_ptr(&self) -> *const std::ffi::c_void {
        self.p.as_ptr().cast()
    }
}
impl<H> Arc<HeaderSlice<H, [u8]>> {
    pub fn from_header_and_fn(header: H, len: usize, copy_from: impl FnOnce(&mut [u8])) -> Self {
        let (layout, _) = Layout::new::<AtomicUsize>().extend(Layout::new::<H>()).unwrap();
        let off = std::mem::size_of::<AtomicUsize>() + std::mem::size_of::<H>();
        let layout = Layout::from_size_align(off + len, layout.align()).unwrap().pad_to_align();
        unsafe {
            let m = alloc(layout);
            if m.is_null() {
                handle_alloc_error(layout);
            }
            m.cast::<AtomicUsize>().write(AtomicUsize::new(1));
            m.add(std::mem::size_of::<AtomicUsize>()).cast::<H>().write(header);
            copy_from(std::slice::from_raw_parts_mut(m.add(off), len));
            let p: *mut ArcInner<HeaderSlice<H, [u8]>> = std::ptr::from_raw_parts_mut(m.cast(), len);
            Arc { p: NonNull::new_unchecked(p), phantom: PhantomData }
        }
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        unsafe { self.p.as_ref() }.count.fetch_add(1, Ordering::Relaxed);
        Arc { p: self.p, phantom: PhantomData }
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        unsafe {
            if self.p.as_ref().count.fetch_sub(1, Ordering::Release) == 1 {
                fence(Ordering::Acquire);
                let l = Layout::for_value(self.p.as_ref());
                std::ptr::drop_in_place(self.p.as_ptr());
                dealloc(self.p.as_ptr().cast(), l);
            }
        }
    }
}
impl<T: ?Sized> std::ops::Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &unsafe { self.p.as_ref() }.data
    }
}
