mod build;
mod conc;
mod driver;
mod exec;
mod gen;
mod iso;
mod mangle;
mod model;
mod plan;
mod props;
mod query;
mod readout;
mod rng;
mod scn;
mod sync;
mod sys;
mod value;
mod vfs;
mod vocab;

use std::cell::RefCell;
use std::sync::OnceLock;

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

static GOLDEN: OnceLock<(model::Model, vfs::Image)> = OnceLock::new();

pub fn golden() -> model::Model {
    GOLDEN.get().unwrap().0.clone()
}

pub fn golden_image() -> &'static vfs::Image {
    &GOLDEN.get().unwrap().1
}

/// Create one store, once, fault-free: what later runs start from, and what a store created
/// under faults is compared with.
fn make_golden() {
    vfs::reset();
    let cfg = sys::SimCfg { seed: 1, switch_pct: 0, pct_depth: 0, start_wall_ns: 1_577_836_700_000_000_000 };
    let r = sys::run(&cfg, || {
        let mut s = mentat::Store::open(exec::PATH).map_err(|e| exec::text(&e))?;
        let d = readout::dump(s.sqlite_mut())?;
        drop(s);
        sys::quiesce();
        Ok::<_, String>((readout::model_of(&d), vfs::snapshot(exec::M)))
    });
    match r {
        Ok(Ok(x)) => {
            let _ = GOLDEN.set(x);
        }
        Ok(Err(e)) => emergency("golden", &e),
        Err(_) => emergency("golden", "creating a store panicked"),
    }
}

pub fn emergency(kind: &str, msg: &str) -> ! {
    use std::io::Write;
    let _ = writeln!(std::io::stdout(), "X {} {}", kind, msg.replace('\n', " "));
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(70) };
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg: String = msg.chars().take(240).collect();
        if std::env::var("PANICS").is_ok() {
            eprintln!("{} at {}", msg, at);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", msg, at));
    }));
    vfs::init();
    make_golden();
    match std::panic::catch_unwind(driver::main) {
        Ok(rc) => std::process::exit(rc),
        Err(_) => emergency("harness", &LAST_PANIC.with(|l| l.borrow().clone())),
    }
}
