//! Harnesses for the Markdown renderer. One exported function per property;
//! the job number selects a template, the tier the length of its holes.
mod html;
mod sym;
mod tables;
mod tpl;

use tables::*;

/// (name, entry, number of jobs per tier)
pub struct Prop {
    pub name: &'static str,
    pub run: extern "C" fn(),
    pub jobs: fn(u32) -> u32,
}

macro_rules! props {
    ($($f:ident $e:ident $jobs:expr;)*) => {
        $(#[no_mangle]
        #[inline(never)]
        pub extern "C" fn $e() { $f(sym::job(), sym::tier()) })*
        pub static PROPS: &[Prop] = &[$(Prop { name: stringify!($f), run: $e, jobs: $jobs }),*];
    };
}

props! {
    c01 h_c01 |t| free_jobs(t);
    c02 h_c02 |t| free_jobs(t);
    c03 h_c03 |t| c03_jobs(t);
    c04 h_c04 |t| c04_jobs(t);
    c05 h_c05 |_| C05.len() as u32;
    c06 h_c06 |_| C06.len() as u32;
    c07 h_c07 |_| C07.len() as u32;
    c08 h_c08 |t| c08_jobs(t);
    c09 h_c09 |_| C09.len() as u32;
    c10 h_c10 |_| C10.len() as u32;
    c11 h_c11 |_| C11.len() as u32;
    c12 h_c12 |_| C12.len() as u32;
    c13 h_c13 |_| C13.len() as u32;
    c14 h_c14 |_| C14.len() as u32;
    c22 h_c22 |_| C22.len() as u32;
    c23 h_c23 |_| C23.len() as u32;
    c24 h_c24 |t| c24_jobs(t);
    c25 h_c25 |t| any_jobs(t);
}

#[cfg(not(feature = "replay"))]
fn main() {
    for p in PROPS {
        (p.run)();
    }
}

#[cfg(feature = "replay")]
fn main() {
    // hgfm jobs PROP TIER | hgfm run PROP TIER JOB HEX
    let a: Vec<String> = std::env::args().collect();
    let p = PROPS.iter().find(|p| p.name == a[2]).expect("property");
    let tier: u32 = a[3].parse().unwrap();
    if a[1] == "jobs" {
        println!("{}", (p.jobs)(tier));
        return;
    }
    let hex = a.get(5).map(|s| s.as_str()).unwrap_or("");
    let input = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    let job = a[4].parse().unwrap();
    sym::native::ST.with(|s| *s.borrow_mut() = sym::native::S { input, pos: 0, job, tier });
    (p.run)();
    println!("HELD");
}
