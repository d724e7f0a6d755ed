//! `gvk replay HARNESS HEX…` runs one harness natively on given values; `gvk hunt HARNESS` looks for
//! a failing combination among the limits of each type. Prints the failing values.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use gvk::{ALL, replay};
    let a: Vec<String> = std::env::args().skip(1).collect();
    let Some(f) = a.get(1).and_then(|n| ALL.iter().find(|x| x.0 == n)).map(|x| x.1) else { std::process::exit(2) };
    let hit = match a[0].as_str() {
        "replay" => {
            let vals = a[2..].iter().map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
            replay::run(f, Some(vals))
        }
        _ => {
            std::panic::set_hook(Box::new(|_| ()));
            loop {
                if replay::run(f, None) { break true }
                if !replay::next() { break false }
            }
        }
    };
    replay::DRAW.with(|d| {
        let d = d.borrow();
        let hex: Vec<String> = d.taken.iter().map(|v| v.iter().map(|b| format!("{b:02x}")).collect()).collect();
        println!("{} {}", if hit { "REPRODUCED" } else { "not reproduced" }, hex.join(" "));
        println!("{}", d.shown.join(", "));
    });
    std::process::exit(if hit { 1 } else { 0 });
}
