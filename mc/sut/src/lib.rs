//! The code under test: congee instantiated for the checks. This crate and congee are compiled with
//! ThreadSanitizer instrumentation; all bookkeeping lives in crates that are not.
use congee::epoch::Guard;
use congee::verif::{oom_error, OOMError};
use congee::{Allocator, Congee, DefaultAllocator, U64Congee};
use mcrt::{host, sut};
use std::alloc::Layout;
use std::ptr::NonNull;

pub use congee::epoch;

/// Allocator over the arena of the explorer; `0` is the identity of the tree.
#[derive(Clone)]
pub struct Arena(pub u8);
unsafe impl Send for Arena {}
unsafe impl Sync for Arena {}

impl Allocator for Arena {
    fn allocate(&self, layout: Layout) -> Result<NonNull<[u8]>, OOMError> {
        match mcrt::alloc(layout, self.0) {
            Some(a) => Ok(NonNull::slice_from_raw_parts(NonNull::new(a as *mut u8).unwrap(), layout.size())),
            None => Err(oom_error()),
        }
    }
    unsafe fn deallocate(&self, ptr: NonNull<u8>, layout: Layout) {
        mcrt::dealloc(ptr.as_ptr() as usize, layout, self.0)
    }
}

/// Typed key and value: same images, but conversions that would show a missing or doubled conversion.
#[derive(Clone, PartialEq, Debug)]
pub struct TK(usize);
impl From<usize> for TK {
    fn from(v: usize) -> Self {
        TK(v ^ 0x00ff_0000_0000_ff00)
    }
}
impl From<TK> for usize {
    fn from(k: TK) -> usize {
        k.0 ^ 0x00ff_0000_0000_ff00
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct TV(usize);
impl From<usize> for TV {
    fn from(v: usize) -> Self {
        TV(v.wrapping_add(0x1234_5678_9abc_def1))
    }
}
impl From<TV> for usize {
    fn from(k: TV) -> usize {
        k.0.wrapping_sub(0x1234_5678_9abc_def1)
    }
}

pub type CipFn<'a> = &'a mut dyn FnMut(usize) -> Option<usize>;
pub type CoiFn<'a> = &'a mut dyn FnMut(Option<usize>) -> usize;

/// What the checks call; every method runs with the arena as global allocator.
pub trait Api {
    fn get(&self, k: usize, g: &Guard) -> Option<usize>;
    fn insert(&self, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, ()>;
    fn remove(&self, k: usize, g: &Guard) -> Option<usize>;
    fn range(&self, a: usize, b: usize, buf: &mut [(usize, usize)], g: &Guard) -> usize;
    fn is_empty(&self, g: &Guard) -> bool;
    fn cas(&self, k: usize, old: usize, new: Option<usize>, g: &Guard) -> Result<Option<usize>, Option<usize>>;
    fn cip(&self, k: usize, f: CipFn, g: &Guard) -> Option<(usize, Option<usize>)>;
    fn coi(&self, k: usize, f: CoiFn, g: &Guard) -> Result<Option<usize>, ()>;
    fn stats(&self) -> String;
    fn pin(&self) -> Guard;
}

macro_rules! api {
    ($t:ty, $k:ty, $v:ty) => {
        impl Api for $t {
            fn get(&self, k: usize, g: &Guard) -> Option<usize> {
                let _s = sut();
                <$t>::get(self, &<$k>::from(k), g).map(usize::from)
            }
            fn insert(&self, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, ()> {
                let _s = sut();
                <$t>::insert(self, <$k>::from(k), <$v>::from(v), g).map(|o| o.map(usize::from)).map_err(|_| ())
            }
            fn remove(&self, k: usize, g: &Guard) -> Option<usize> {
                let _s = sut();
                <$t>::remove(self, &<$k>::from(k), g).map(usize::from)
            }
            fn range(&self, a: usize, b: usize, buf: &mut [(usize, usize)], g: &Guard) -> usize {
                let _s = sut();
                <$t>::range(self, &<$k>::from(a), &<$k>::from(b), buf, g)
            }
            fn is_empty(&self, g: &Guard) -> bool {
                let _s = sut();
                <$t>::is_empty(self, g)
            }
            fn cas(&self, k: usize, old: usize, new: Option<usize>, g: &Guard) -> Result<Option<usize>, Option<usize>> {
                let _s = sut();
                match <$t>::compare_exchange(self, &<$k>::from(k), &<$v>::from(old), new.map(<$v>::from), g) {
                    Ok(o) => Ok(o.map(usize::from)),
                    Err(o) => Err(o.map(usize::from)),
                }
            }
            fn cip(&self, k: usize, f: CipFn, g: &Guard) -> Option<(usize, Option<usize>)> {
                let _s = sut();
                <$t>::compute_if_present(self, &<$k>::from(k), |v| { let _h = host(); f(v) }, g)
            }
            fn coi(&self, k: usize, f: CoiFn, g: &Guard) -> Result<Option<usize>, ()> {
                let _s = sut();
                <$t>::compute_or_insert(self, <$k>::from(k), |v| { let _h = host(); f(v) }, g)
                    .map(|o| o.map(usize::from))
                    .map_err(|_| ())
            }
            fn stats(&self) -> String {
                let _s = sut();
                let st = <$t>::stats(self);
                let _h = host();
                let r = format!("{}", st);
                drop(st);
                r
            }
            fn pin(&self) -> Guard {
                let _s = sut();
                <$t>::pin(self)
            }
        }
    };
}
api!(Congee<usize, usize, Arena>, usize, usize);
api!(Congee<TK, TV, Arena>, TK, TV);

macro_rules! api_u64 {
    ($v:ty) => {
        impl Api for U64Congee<$v> {
            fn get(&self, k: usize, g: &Guard) -> Option<usize> {
                let _s = sut();
                U64Congee::get(self, k as u64, g).map(usize::from)
            }
            fn insert(&self, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, ()> {
                let _s = sut();
                U64Congee::insert(self, k as u64, <$v>::from(v), g).map(|o| o.map(usize::from)).map_err(|_| ())
            }
            fn remove(&self, k: usize, g: &Guard) -> Option<usize> {
                let _s = sut();
                U64Congee::remove(self, k as u64, g).map(usize::from)
            }
            fn range(&self, a: usize, b: usize, buf: &mut [(usize, usize)], g: &Guard) -> usize {
                let mut v: Vec<([u8; 8], usize)> = buf.iter().map(|x| (x.0.to_be_bytes(), x.1)).collect();
                let n = {
                    let _s = sut();
                    U64Congee::range(self, a as u64, b as u64, &mut v, g)
                };
                for (o, x) in buf.iter_mut().zip(v.iter()) {
                    *o = (usize::from_be_bytes(x.0), x.1);
                }
                n
            }
            fn is_empty(&self, _: &Guard) -> bool {
                unreachable!()
            }
            fn cas(&self, _: usize, _: usize, _: Option<usize>, _: &Guard) -> Result<Option<usize>, Option<usize>> {
                unreachable!()
            }
            fn cip(&self, _: usize, _: CipFn, _: &Guard) -> Option<(usize, Option<usize>)> {
                unreachable!()
            }
            fn coi(&self, _: usize, _: CoiFn, _: &Guard) -> Result<Option<usize>, ()> {
                unreachable!()
            }
            fn stats(&self) -> String {
                unreachable!()
            }
            fn pin(&self) -> Guard {
                let _s = sut();
                epoch::pin()
            }
        }
    };
}
api_u64!(usize);
api_u64!(TV);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Plain,
    Typed,
    U64,
    U64Typed,
    Default, // Congee::default(): nodes from the global allocator
}

/// Owner of one tree; the tree object itself lives in the arena. `Copy` on purpose: the harness
/// saves and restores arena contents.
#[derive(Clone, Copy)]
pub struct Tree {
    pub api: *const dyn Api,
    obj: usize,
    kind: Kind,
    pub id: u8,
}

fn boxed<T: Api + 'static>(t: T) -> (*const dyn Api, usize) {
    let p = Box::into_raw(Box::new(t));
    (p as *const dyn Api, p as usize)
}

pub type Drainer = Box<dyn Fn(usize, usize)>;

impl Tree {
    /// The drainer records into `mcrt::rt().drained`, then calls `also`.
    pub fn with(kind: Kind, id: u8, also: Option<Drainer>) -> Tree {
        let _s = sut();
        let (api, obj) = match kind {
            Kind::Plain => boxed(Congee::<usize, usize, Arena>::new_with_drainer(Arena(id), move |k, v| {
                mcrt::drained(id, k, v);
                if let Some(f) = &also {
                    f(k, v)
                }
            })),
            Kind::Typed => boxed(Congee::<TK, TV, Arena>::new_with_drainer(Arena(id), move |k, v| {
                mcrt::drained(id, k.into(), v.into());
                if let Some(f) = &also {
                    f(0, 0)
                }
            })),
            Kind::U64 => boxed(U64Congee::<usize>::new()),
            Kind::U64Typed => boxed(U64Congee::<TV>::default()),
            Kind::Default => {
                let t: Congee<usize, usize> = Congee::default();
                boxed(t)
            }
        };
        Tree { api, obj, kind, id }
    }
    pub fn new(kind: Kind, id: u8) -> Tree {
        Self::with(kind, id, None)
    }
    #[inline(always)]
    pub fn a(&self) -> &dyn Api {
        unsafe { &*self.api }
    }
    /// Drops the tree.
    pub fn destroy(self) {
        let _s = sut();
        unsafe {
            match self.kind {
                Kind::Plain => drop(Box::from_raw(self.obj as *mut Congee<usize, usize, Arena>)),
                Kind::Typed => drop(Box::from_raw(self.obj as *mut Congee<TK, TV, Arena>)),
                Kind::U64 => drop(Box::from_raw(self.obj as *mut U64Congee<usize>)),
                Kind::U64Typed => drop(Box::from_raw(self.obj as *mut U64Congee<TV>)),
                Kind::Default => drop(Box::from_raw(self.obj as *mut Congee<usize, usize>)),
            }
        }
    }
}
impl Api for Congee<usize, usize, DefaultAllocator> {
    fn get(&self, k: usize, g: &Guard) -> Option<usize> {
        let _s = sut();
        Congee::get(self, &k, g)
    }
    fn insert(&self, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, ()> {
        let _s = sut();
        Congee::insert(self, k, v, g).map_err(|_| ())
    }
    fn remove(&self, k: usize, g: &Guard) -> Option<usize> {
        let _s = sut();
        Congee::remove(self, &k, g)
    }
    fn range(&self, a: usize, b: usize, buf: &mut [(usize, usize)], g: &Guard) -> usize {
        let _s = sut();
        Congee::range(self, &a, &b, buf, g)
    }
    fn is_empty(&self, g: &Guard) -> bool {
        let _s = sut();
        Congee::is_empty(self, g)
    }
    fn cas(&self, k: usize, old: usize, new: Option<usize>, g: &Guard) -> Result<Option<usize>, Option<usize>> {
        let _s = sut();
        Congee::compare_exchange(self, &k, &old, new, g)
    }
    fn cip(&self, k: usize, f: CipFn, g: &Guard) -> Option<(usize, Option<usize>)> {
        let _s = sut();
        Congee::compute_if_present(self, &k, |v| { let _h = host(); f(v) }, g)
    }
    fn coi(&self, k: usize, f: CoiFn, g: &Guard) -> Result<Option<usize>, ()> {
        let _s = sut();
        Congee::compute_or_insert(self, k, |v| { let _h = host(); f(v) }, g).map_err(|_| ())
    }
    fn stats(&self) -> String {
        let _s = sut();
        let st = Congee::stats(self);
        let _h = host();
        let r = format!("{}", st);
        drop(st);
        r
    }
    fn pin(&self) -> Guard {
        let _s = sut();
        Congee::pin(self)
    }
}

/// Calls the default allocator while the global allocator fails.
/// Ok(true): it reported the failure, Ok(false): it claimed success.
pub fn default_allocator_fails(layout: Layout, zeroed: bool) -> bool {
    let _s = sut();
    unsafe { mcrt::FAIL_HEAP = 1 };
    let d = DefaultAllocator {};
    let r = if zeroed { d.allocate_zeroed(layout) } else { d.allocate(layout) };
    unsafe { mcrt::FAIL_HEAP = 0 };
    r.is_err()
}

/// A tree over the default allocator: insert while the global allocator fails.
pub fn default_tree_insert_fails(t: &Tree, k: usize, v: usize, g: &Guard) -> Result<Option<usize>, ()> {
    unsafe { mcrt::FAIL_HEAP = 2 };
    let r = t.a().insert(k, v, g);
    unsafe { mcrt::FAIL_HEAP = 0 };
    r
}
