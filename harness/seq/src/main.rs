mod fam;
mod json;
mod mach;
mod track;
mod drive;
mod huge;
mod modes;
mod unwind;

fn main() {
    track::init();
    std::panic::set_hook(Box::new(|i| {
        track::unlib(|| {
            let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            modes::LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()));
        })
    }));
    let args: Vec<String> = std::env::args().collect();
    modes::main(&args[1..]);
}
