#![allow(static_mut_refs, clippy::all)]
mod sx;
mod util;
mod h_dump;
mod h_write;
mod h_read;
mod h_tag;
mod h_any;
mod h_io;
mod h_more;
mod h_print;
mod h_path;
mod h_eq;

pub type H = extern "C" fn();

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        static TABLE: &[(&str, H)] = &[$((stringify!($f), $m::$f)),*];
    };
}
include!("table.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _) in TABLE {
            println!("{}", n);
        }
        return;
    }
    #[cfg(feature = "native")]
    unsafe {
        // vh HARNESS INPUT SCRATCH PART TIER
        use sx::raw as n;
        n::INPUT = std::fs::read(&a[2]).expect("replay file");
        n::PART = a[4].parse().unwrap();
        n::TIER = a[5].parse().unwrap();
        std::env::set_current_dir(&a[3]).expect("scratch");
        std::panic::set_hook(Box::new(|i| {
            sx::raw::sx_fault(0, 0, 0, 0);
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            println!("SX-PANIC {} {}", l, i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " "));
            sx::raw::done(102)
        }));
    }
    for (n, f) in TABLE {
        if *n == a[1] {
            f();
            #[cfg(feature = "native")]
            {
                println!("SX-DONE");
                sx::raw::done(0);
            }
        }
    }
    #[cfg(feature = "native")]
    {
        println!("SX-NOHARNESS");
        std::process::exit(78);
    }
}
