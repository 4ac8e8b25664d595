//! Stand-in for the patched triomphe crate: the part linkspace-pkt uses, with the same layout.
#![feature(ptr_metadata)]
use std::alloc::{alloc, dealloc, handle_alloc_error, Layout};
use std::ops::Deref;
use std::ptr::NonNull;
use std::sync::atomic::{fence, AtomicUsize, Ordering};

#[repr(C)]
pub struct ArcInner<T: ?Sized> {
    count: AtomicUsize,
    data: T,
}
#[repr(C)]
#[derive(Debug)]
pub struct HeaderSlice<H, T: ?Sized> {
    pub header: H,
    pub slice: T,
}
/// an atomically counted pointer without weak references
#[repr(transparent)]
pub struct Arc<T: ?Sized>(NonNull<ArcInner<T>>);
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}

impl<T: ?Sized> Arc<T> {
    fn inner(&self) -> &ArcInner<T> {
        unsafe { self.0.as_ref() }
    }
    pub fn count(this: &Self) -> usize {
        this.inner().count.load(Ordering::Acquire)
    }
    pub fn heap_ptr(&self) -> *const core::ffi::c_void {
        self.0.as_ptr() as *const core::ffi::c_void
    }
    pub fn into_raw(this: Self) -> *const T {
        let p = unsafe { std::ptr::addr_of!((*this.0.as_ptr()).data) };
        std::mem::forget(this);
        p
    }
}
impl<H> Arc<HeaderSlice<H, [u8]>> {
    pub fn from_header_and_fn(header: H, len: usize, f: impl FnOnce(&mut [u8])) -> Self {
        unsafe {
            let head = std::mem::size_of::<ArcInner<HeaderSlice<H, [u8; 0]>>>();
            let al = std::mem::align_of::<ArcInner<HeaderSlice<H, [u8; 0]>>>();
            let layout = Layout::from_size_align(head + len, al).unwrap().pad_to_align();
            let p = alloc(layout);
            if p.is_null() {
                handle_alloc_error(layout)
            }
            let inner: *mut ArcInner<HeaderSlice<H, [u8]>> = std::ptr::from_raw_parts_mut(p as *mut (), len);
            std::ptr::addr_of_mut!((*inner).count).write(AtomicUsize::new(1));
            std::ptr::addr_of_mut!((*inner).data.header).write(header);
            let s = std::ptr::addr_of_mut!((*inner).data.slice) as *mut u8;
            std::ptr::write_bytes(s, 0, len);
            f(std::slice::from_raw_parts_mut(s, len));
            Arc(NonNull::new_unchecked(inner))
        }
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.inner().data
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        self.inner().count.fetch_add(1, Ordering::Relaxed);
        Arc(self.0)
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        if self.inner().count.fetch_sub(1, Ordering::Release) != 1 {
            return;
        }
        fence(Ordering::Acquire);
        unsafe {
            let l = Layout::for_value(self.0.as_ref());
            std::ptr::drop_in_place(self.0.as_ptr());
            dealloc(self.0.as_ptr() as *mut u8, l);
        }
    }
}
impl<T: ?Sized> std::fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let p: *const T = &**self;
        std::fmt::Pointer::fmt(&p, f)
    }
}
