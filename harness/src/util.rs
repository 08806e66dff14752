use serde_json::Value;
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Out {
    w: BufWriter<File>,
    pub n: usize,
}
impl Out {
    pub fn new(p: &str) -> Self {
        Out { w: BufWriter::new(File::create(p).unwrap()), n: 0 }
    }
    pub fn line(&mut self, v: Value) {
        self.n += 1;
        writeln!(self.w, "{}", v).unwrap();
    }
    pub fn flush(&mut self) {
        self.w.flush().unwrap();
    }
}

thread_local! { static MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var("MQV_PANIC").is_ok() {
            eprintln!("panic: {m} at {loc}");
        }
        MSG.with(|c| *c.borrow_mut() = format!("{m} at {loc}"));
    }));
}

/// A panic in the code under test is data, not a crash of the harness.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| MSG.with(|c| c.borrow().clone()))
}
