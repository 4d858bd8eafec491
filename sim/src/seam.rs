//! Seams: the panic hook, the log sink and the call-out scheduler.
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::fmt::Write;

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static SINK: Cell<SinkMode> = const { Cell::new(SinkMode::Off) };
    static SINK_HITS: Cell<u64> = const { Cell::new(0) };
    static SINK_BOMB: Cell<u32> = const { Cell::new(0) };
    static YIELD: Cell<Option<*mut dyn FnMut(u32)>> = const { Cell::new(None) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SinkMode {
    /// Records are ignored.
    Off,
    /// Records are formatted into a scratch buffer.
    Format,
    /// The n-th record makes the sink panic.
    Bomb,
    /// Every record is a point where someone else may run.
    Yield,
}

pub const INJECTED: &str = "injected-panic";

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                else { "?".to_string() };
            let loc = info.location().map(|l| {
                let f = l.file();
                let f = f.rsplit('/').next().unwrap_or(f);
                f.to_string()
            }).unwrap_or_default();
            PANIC_MSG.with(|m| {
                if let Ok(mut m) = m.try_borrow_mut() {
                    *m = String::new();
                    let _ = write!(m, "{} [{}]", msg, loc);
                }
            });
        } else {
            eprintln!("harness panic: {}", info);
        }
    }));
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
}

/// Runs library code; a panic becomes an error carrying its message.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            // A payload's destructor must not take the process down.
            let _ = catch_unwind(AssertUnwindSafe(move || drop(p)));
            Err(PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut())))
        }
    }
}

pub fn boom() -> ! {
    std::panic::panic_any(INJECTED.to_string())
}

struct Logger;
static LOGGER: Logger = Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool { SINK.with(|s| s.get()) != SinkMode::Off }
    fn log(&self, rec: &log::Record) {
        if rec.target().split("::").next() != Some("svgdom") { return; }
        let mode = SINK.with(|s| s.get());
        if mode == SinkMode::Off { return; }
        SINK_HITS.with(|h| h.set(h.get() + 1));
        let mut buf = String::new();
        let _ = write!(buf, "{}", rec.args());
        drop(buf);
        match mode {
            SinkMode::Bomb => {
                let n = SINK_BOMB.with(|b| b.get());
                if n == 0 {
                    SINK_BOMB.with(|b| b.set(u32::MAX));
                    boom();
                } else {
                    SINK_BOMB.with(|b| b.set(n - 1));
                }
            }
            SinkMode::Yield => yield_point(1),
            _ => {}
        }
    }
    fn flush(&self) {}
}

pub fn set_sink(m: SinkMode, bomb: u32) -> SinkMode {
    SINK_BOMB.with(|b| b.set(bomb));
    SINK.with(|s| s.replace(m))
}
pub fn sink_hits() -> u64 { SINK_HITS.with(|h| h.get()) }

/// Installs the thread's scheduler call-out for the duration of `f`.
pub fn with_yield<R>(y: &mut dyn FnMut(u32), f: impl FnOnce() -> R) -> R {
    let p: *mut dyn FnMut(u32) = y;
    // The pointer is only used while `f` runs.
    let p: *mut (dyn FnMut(u32) + 'static) = unsafe { std::mem::transmute(p) };
    let old = YIELD.with(|c| c.replace(Some(p)));
    let r = f();
    YIELD.with(|c| c.set(old));
    r
}

/// A point inside an operation where the scheduler may let someone else run.
pub fn yield_point(kind: u32) {
    if let Some(p) = YIELD.with(|c| c.replace(None)) {
        unsafe { (*p)(kind) };
        YIELD.with(|c| c.set(Some(p)));
    }
}

pub fn has_yield() -> bool {
    YIELD.with(|c| { let v = c.get(); v.is_some() })
}
