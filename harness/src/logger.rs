//! A logger that formats every record and keeps nothing: the arguments of the crate's log
//! statements are evaluated only if somebody listens.
use std::cell::Cell;
use std::fmt::Write;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LINES: Cell<u64> = const { Cell::new(0) };
}

struct Count(usize);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

struct Discard;
impl log::Log for Discard {
    fn enabled(&self, _: &log::Metadata) -> bool {
        ON.with(|x| x.get())
    }
    fn log(&self, r: &log::Record) {
        if ON.with(|x| x.get()) {
            let mut n = Count(0);
            let _ = write!(n, "{}", r.args());
            LINES.with(|l| l.set(l.get() + 1));
        }
    }
    fn flush(&self) {}
}

pub fn install() {
    static D: Discard = Discard;
    log::set_logger(&D).ok();
    log::set_max_level(log::LevelFilter::Trace);
}
pub fn set(on: bool) {
    ON.with(|x| x.set(on));
}
pub fn lines() -> u64 {
    LINES.with(|l| l.get())
}
