//! Harnesses for the program as a whole: its real `main`, given arguments, an
//! environment and a file system, up to the exit status it ends with.
#[path = "../../smd/src/sym.rs"]
mod sym;
#[path = "../../smd/src/vfs.rs"]
mod vfs;
mod props;
#[allow(clippy::all)]
mod program {
    include!(concat!(env!("OUT_DIR"), "/smd_main.rs"));
}

use props::*;

/// the exit status a value returned by main stands for
pub trait Status {
    fn status(self) -> i32;
}
impl Status for () {
    fn status(self) -> i32 {
        0
    }
}
impl Status for std::process::ExitCode {
    fn status(self) -> i32 {
        unsafe { std::mem::transmute::<_, u8>(self) as i32 }
    }
}
impl<T: Status, E: std::fmt::Debug> Status for Result<T, E> {
    fn status(self) -> i32 {
        match self {
            Ok(t) => t.status(),
            // as the standard library does it
            Err(e) => {
                eprintln!("Error: {e:?}");
                1
            }
        }
    }
}
pub fn code<T: Status>(t: T) -> i32 {
    t.status()
}

pub struct Prop {
    pub name: &'static str,
    pub run: extern "C" fn(),
    pub jobs: fn(u32) -> u32,
}

macro_rules! props {
    ($($f:ident $e:ident $jobs:expr;)*) => {
        $(#[no_mangle]
        #[inline(never)]
        pub extern "C" fn $e() { $f(sym::job(), sym::tier()) })*
        pub static PROPS: &[Prop] = &[$(Prop { name: stringify!($f), run: $e, jobs: $jobs }),*];
    };
}

props! {
    c26 h_c26 |_| c26_jobs();
    c27 h_c27 |_| C27;
}

#[cfg(not(feature = "replay"))]
fn main() {
    for p in PROPS {
        (p.run)();
    }
}

#[cfg(feature = "replay")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = PROPS.iter().find(|p| p.name == a[2]).expect("property");
    let tier: u32 = a[3].parse().unwrap();
    if a[1] == "jobs" {
        println!("{}", (p.jobs)(tier));
        return;
    }
    let hex = a.get(5).map(|s| s.as_str()).unwrap_or("");
    let input = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    let job = a[4].parse().unwrap();
    sym::native::ST.with(|s| *s.borrow_mut() = sym::native::S { input, pos: 0, job, tier });
    (p.run)();
}
