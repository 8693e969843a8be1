#![allow(unused_variables, dead_code)]
#[macro_use]
mod util;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;

#[cfg(feature = "c08")]
#[global_allocator]
static ALLOC: c08::Watch = c08::Watch;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let cfg = Cfg {
        deep: std::env::var("VP_DEEP").is_ok(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    if let Ok(p) = std::env::var("VP_TRACE") {
        enable_trace(&p);
    }
    std::panic::set_hook(Box::new(|i| {
        if let Some(l) = i.location() {
            *lock(&LAST_PANIC) = format!("{}:{}", l.file(), l.line());
        }
    }));
    let r = std::panic::catch_unwind(|| match prop.as_str() {
        #[cfg(feature = "c01")]        "C01" => c01::run(&cfg),
        #[cfg(feature = "c02")]        "C02" => c02::run(&cfg),
        #[cfg(feature = "c03")]        "C03" => c03::run(&cfg),
        #[cfg(feature = "c03")]        "C03m" => c03::run_small(),
        #[cfg(feature = "c04")]        "C04" => c04::run(&cfg),
        #[cfg(feature = "c04")]        "C13" => c04::run_wrap(&cfg),
        #[cfg(feature = "c05")]        "C05" => c05::run(&cfg),
        #[cfg(feature = "c05")]        "C09" => c05::run_reshape(&cfg),
        #[cfg(feature = "c05")]        "C10" => c05::run_swaps(&cfg),
        #[cfg(feature = "c05")]        "C14" => c05::run_overwrite(&cfg),
        #[cfg(feature = "c11")]        "C11" => c11::run_product(&cfg),
        #[cfg(feature = "c11")]        "C12" => c11::run_elementwise(&cfg),
        #[cfg(feature = "c11")]        "C07" => c11::run_orders(&cfg),
        #[cfg(feature = "c08")]        "C08" => c08::run(&cfg),
        #[cfg(feature = "c18")]        "C18" => c18::run(&cfg),
        #[cfg(feature = "c19")]        "C19" => c19::run_construct(&cfg),
        #[cfg(feature = "c19")]        "C20" => drop(c19::run_format(&cfg)),
        #[cfg(feature = "c19")]        "C20text" => print!("{}", c19::run_format(&cfg)),
        #[cfg(feature = "c16")]
        "C16" => c16::run(&cfg),
        #[cfg(feature = "c17")]
        "C17" => c17::run(&cfg),
        #[cfg(feature = "c17")]
        "C17m" => c17::run_small(),
        #[cfg(feature = "c03")]        "C06" => c03::run_views(&cfg),
        #[cfg(feature = "c03")]        "C15" => c03::run_elements(&cfg),
        _ => panic!("unknown property"),
    });
    let n = NCASES.load(std::sync::atomic::Ordering::SeqCst);
    match r {
        Ok(()) => println!("PASS cases={n}"),
        Err(p) => {
            let case = lock(&CASE).clone();
            if let Some(f) = p.downcast_ref::<Failure>() {
                println!("FAIL {prop}\ncase: {case}\nmessage: {}", f.0);
                std::process::exit(1)
            }
            if let Some(f) = p.downcast_ref::<SetupFailure>() {
                println!("SETUP {prop}\ncase: {case}\nmessage: {}", f.0);
                std::process::exit(3)
            }
            println!("FAIL {prop}\ncase: {case}\nmessage: panics at {}: {}", lock(&LAST_PANIC), payload(&p));
            std::process::exit(1)
        }
    }
}
