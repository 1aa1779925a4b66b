//! Harnesses for the command line tool and its core library: the real code on
//! top of a file system, environment and browser whose behaviour is symbolic.
mod props;
mod sym;
mod vfs;

use props::*;

pub struct Prop {
    pub name: &'static str,
    pub run: extern "C" fn(),
    pub jobs: fn(u32) -> u32,
}

macro_rules! props {
    ($($f:ident $e:ident $jobs:expr;)*) => {
        $(#[no_mangle]
        #[inline(never)]
        pub extern "C" fn $e() { $f(sym::job(), sym::tier()) })*
        pub static PROPS: &[Prop] = &[$(Prop { name: stringify!($f), run: $e, jobs: $jobs }),*];
    };
}

props! {
    c15 h_c15 |_| C15;
    c16 h_c16 |_| C16;
    c17 h_c17 |_| C17;
    c18 h_c18 |_| C18;
    c19 h_c19 |_| C19;
    c20 h_c20 |_| C20;
}

#[cfg(not(feature = "replay"))]
fn main() {
    for p in PROPS {
        (p.run)();
    }
}

#[cfg(feature = "replay")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = PROPS.iter().find(|p| p.name == a[2]).expect("property");
    let tier: u32 = a[3].parse().unwrap();
    if a[1] == "jobs" {
        println!("{}", (p.jobs)(tier));
        return;
    }
    let hex = a.get(5).map(|s| s.as_str()).unwrap_or("");
    let input = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    let job = a[4].parse().unwrap();
    sym::native::ST.with(|s| *s.borrow_mut() = sym::native::S { input, pos: 0, job, tier });
    (p.run)();
    println!("HELD");
}
