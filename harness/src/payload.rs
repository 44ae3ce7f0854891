//! Monitored payload, allocator and panic capture.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::Relaxed};

/// Global allocator that counts allocations.
pub struct Counting;

pub static LIVE_ALLOCS: AtomicIsize = AtomicIsize::new(0);
pub static LIVE_BYTES: AtomicIsize = AtomicIsize::new(0);
pub static TOTAL_ALLOCS: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE_ALLOCS.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(l.size() as isize, Relaxed);
        TOTAL_ALLOCS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_ALLOCS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE_BYTES.fetch_add(n as isize - l.size() as isize, Relaxed);
        TOTAL_ALLOCS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}

pub fn live_allocs() -> (isize, isize) {
    (LIVE_ALLOCS.load(Relaxed), LIVE_BYTES.load(Relaxed))
}
pub fn total_allocs() -> usize {
    TOTAL_ALLOCS.load(Relaxed)
}

/// Ledger of payload instances.
#[derive(Default)]
pub struct Ledger {
    /// State by instance id: 0 = unknown, 1 = live, 2 = dropped.
    pub st: Vec<u8>,
    pub live: usize,
    /// Hash of the order of the drops.
    pub order: u64,
    /// Description of the first misuse (double drop, use after drop).
    pub misuse: Option<&'static str>,
}

thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    pub static CLONES: Cell<usize> = const { Cell::new(0) };
    pub static EQS: Cell<usize> = const { Cell::new(0) };
    pub static FMTS: Cell<usize> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    pub static UNWOUND: Cell<usize> = const { Cell::new(0) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn ledger_reset() {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.st.clear();
        if l.st.capacity() < 1 << 20 {
            l.st.reserve(1 << 20);
        }
        l.live = 0;
        l.order = 0;
        l.misuse = None;
    });
    CLONES.with(|c| c.set(0));
    EQS.with(|c| c.set(0));
    FMTS.with(|c| c.set(0));
}

pub fn ledger_live() -> usize {
    LEDGER.with(|l| l.borrow().live)
}
pub fn ledger_is_live(inst: u64) -> bool {
    LEDGER.with(|l| l.borrow().st.get(inst as usize) == Some(&1))
}
pub fn ledger_order() -> u64 {
    LEDGER.with(|l| l.borrow().order)
}
pub fn ledger_misuse() -> Option<&'static str> {
    LEDGER.with(|l| l.borrow().misuse)
}
/// Ids of all live instances, in order of creation.
pub fn ledger_live_ids() -> Vec<u64> {
    LEDGER.with(|l| {
        l.borrow()
            .st
            .iter()
            .enumerate()
            .filter(|(_, s)| **s == 1)
            .map(|(i, _)| i as u64)
            .collect()
    })
}
pub fn ledger_new() -> u64 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.st.push(1);
        l.live += 1;
        (l.st.len() - 1) as u64
    })
}
pub fn ledger_drop(inst: u64) {
    let _ = LEDGER.try_with(|l| {
        if let Ok(mut l) = l.try_borrow_mut() {
            match l.st.get(inst as usize).copied() {
                Some(1) => {
                    l.st[inst as usize] = 2;
                    l.live -= 1;
                    l.order = (l.order ^ inst).wrapping_mul(0x100_0000_01b3).rotate_left(17);
                }
                Some(_) => l.misuse = Some("a value was dropped twice"),
                None => {}
            }
        }
    });
}
/// (clones, comparisons, formats) of payloads so far.
pub fn touches() -> (usize, usize, usize) {
    (
        CLONES.with(|c| c.get()),
        EQS.with(|c| c.get()),
        FMTS.with(|c| c.get()),
    )
}

/// Monitored associated data: every instance has a unique id.
pub struct P {
    pub inst: u64,
    pub val: i64,
    // Heap part, so that memory tools notice a leaked or reused value.
    pub heap: Box<i64>,
}

impl P {
    pub fn new(val: i64) -> Self {
        P {
            inst: ledger_new(),
            val,
            heap: Box::new(val),
        }
    }
    pub fn set(&mut self, val: i64) {
        self.val = val;
        *self.heap = val;
    }
}

impl Clone for P {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        P::new(*self.heap)
    }
}
impl Drop for P {
    fn drop(&mut self) {
        ledger_drop(self.inst);
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        EQS.with(|c| c.set(c.get() + 1));
        *self.heap == *o.heap
    }
}
impl Eq for P {}
impl PartialEq<i64> for P {
    fn eq(&self, o: &i64) -> bool {
        *self.heap == *o
    }
}
impl PartialEq<P> for i64 {
    fn eq(&self, o: &P) -> bool {
        *o.heap == *self
    }
}
impl std::fmt::Debug for P {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        FMTS.with(|c| c.set(c.get() + 1));
        write!(f, "P{}", self.val)
    }
}
impl std::fmt::Display for P {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        FMTS.with(|c| c.set(c.get() + 1));
        write!(f, "{}", self.val)
    }
}

/// Installs the panic hook which records the message instead of printing it.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string panic)".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line()));
        let text = format!("{}{}", msg, loc.unwrap_or_default());
        let quiet = QUIET.with(|q| q.get());
        if !quiet {
            eprintln!("PANIC {text}");
        }
        PANIC_MSG.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = text;
            }
        });
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}
/// Forgets the message of the last panic (releases its memory).
pub fn clear_panic() {
    PANIC_MSG.with(|p| *p.borrow_mut() = String::new());
}

/// Runs the function and captures a panic (silently).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            drop(e);
            Err(last_panic())
        }
    }
}

/// Runs the function while the thread unwinds from an earlier panic, as the
/// destructor of some value of the user would.
pub fn unwinding<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    struct Guard<F: FnMut()>(F);
    impl<F: FnMut()> Drop for Guard<F> {
        fn drop(&mut self) {
            assert!(std::thread::panicking(), "harness: the thread does not unwind");
            (self.0)()
        }
    }
    let mut f = Some(f);
    let mut out = None;
    // Without the hook: the message of the last panic stays.
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _g = Guard(|| out = f.take().map(catch));
        std::panic::resume_unwind(Box::new(()));
    }));
    drop::<Result<(), _>>(r);
    UNWOUND.with(|u| u.set(u.get() + 1));
    out.expect("harness: the guard was dropped")
}

/// Checks what an error says of itself: a text, and the cause if there is one.
macro_rules! error_says {
    ($e:expr, $caused:expr, $tag:expr) => {{
        let e = $e;
        let text = format!("{e}");
        $crate::ensure!(!text.is_empty(), $tag, "{e:?} shows no text");
        #[cfg(feature = "std")]
        {
            let e: &(dyn std::error::Error + 'static) = e;
            $crate::ensure!(
                e.source().is_some() == $caused,
                $tag,
                "{e:?}: its source is {:?}",
                e.source()
            );
        }
    }};
}
pub(crate) use error_says;
