mod alloc;
mod c01;
mod c02;
#[cfg(not(feature = "lean"))]
mod c03;
#[cfg(not(feature = "lean"))]
mod c04;
mod c05;
#[cfg(all(feature = "library", feature = "division"))]
mod c06;
#[cfg(feature = "library")]
mod c07;
mod c10;
#[cfg(not(feature = "lean"))]
mod c11;
#[cfg(not(feature = "lean"))]
mod c14;
#[cfg(any(feature = "division", feature = "library"))]
#[allow(dead_code)]
mod c15;
#[cfg(not(feature = "lean"))]
mod c16;
#[cfg(not(feature = "lean"))]
mod c17;
mod c18;
#[cfg(not(feature = "lean"))]
mod c19;
#[cfg(not(feature = "lean"))]
mod c20;
#[cfg(not(feature = "lean"))]
mod c21;
#[cfg(not(feature = "lean"))]
mod c22;
#[cfg(not(feature = "lean"))]
mod c23;
#[cfg(not(feature = "lean"))]
mod c24;
#[cfg(not(feature = "lean"))]
mod c25;
#[cfg(feature = "macros")]
mod c26;
#[cfg(not(feature = "lean"))]
mod c27;
#[allow(dead_code)]
mod catalog;
mod common;
mod dsp;
mod gm;
mod params;
mod probe;
mod tree;
#[cfg(feature = "library")]
mod world;
use common::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn work(prop: &str, only: Option<(String, Vec<usize>)>, seed: Option<u64>, tier: Option<String>) -> i32 {
    install_panic_hook();
    let mut r = Run::new(prop);
    r.only = only;
    if let Some(s) = seed {
        r.seed = s;
    }
    if let Some(t) = tier {
        r.tier = t;
    }
    match prop {
        "C01" => c01::run(&mut r),
        "C02" => c02::run(&mut r),
        #[cfg(not(feature = "lean"))]
        "C04" => c04::run(&mut r),
        "C05" => c05::run(&mut r),
        #[cfg(all(feature = "library", feature = "division"))]
        "C06" => c06::run_check(&mut r),
        #[cfg(feature = "library")]
        "C07" => c07::run_check(&mut r),
        "C08" => params::run_c08(&mut r),
        "C09" => params::run_c09(&mut r),
        "C10" => c10::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C11" => c11::run_check(&mut r),
        "C12" => tree::run_c12(&mut r),
        "C13" => tree::run_c13(&mut r),
        #[cfg(not(feature = "lean"))]
        "C14" => c14::run_check(&mut r),
        #[cfg(feature = "division")]
        "C15" => c15::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C16" => c16::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C17" => c17::run_check(&mut r),
        "C18" => c18::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C19" => c19::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C20" => c20::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C21" => c21::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C22" => c22::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C23" => c23::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C24" => c24::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C25" => c25::run(&mut r),
        #[cfg(feature = "macros")]
        "C26" => c26::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C27" => c27::run_check(&mut r),
        #[cfg(not(feature = "lean"))]
        "C03" => c03::run(&mut r),
        _ => {
            eprintln!("unknown property {prop}");
            return 2;
        }
    }
    r.finish()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") => supervise(&a[1], &a[1..2]),
        // only started to see that it was built
        Some("none") => 0,
        Some("work") => work(&a[1], None, None, None),
        Some("replay") => match parse_replay(&a[1]) {
            Some((p, s, i, seed, tier)) => work(&p, Some((s, i)), Some(seed), Some(tier)),
            None => 2,
        },
        // run one scenario/index directly: one C01 edits 17
        Some("one") => work(&a[1], Some((a[2].clone(), a[3..].iter().map(|x| x.parse().unwrap()).collect())), None, None),
        _ => {
            eprintln!("usage: kverif run|work|replay|one ...");
            2
        }
    };
    std::process::exit(code);
}
