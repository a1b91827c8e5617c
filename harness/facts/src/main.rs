//! Facts about the public types and values: which handle types are Send and Sync (mode caps), and how handles compare, hash,
//! print and convert (modes views, record).
mod caps;
mod json;
mod views;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("caps") => caps::run(),
        Some("views") => views::run(&args[1..]),
        Some("record") => views::record(&args[1..]),
        _ => {
            eprintln!("usage: facts caps|views|record ...");
            std::process::exit(2);
        }
    }
}
