//! replay HARNESS FILL VALUE...  runs one harness natively on recorded values.
//! Exit: 0 property held, 10 violated, 20 values rejected by an assumption, 30 usage.
use vph::native;

#[global_allocator]
static STRICT: native::Strict = native::Strict;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: replay HARNESS panic_ok|panic_bad FILL VALUE...");
        std::process::exit(30);
    }
    let panic_ok = args[2] == "panic_ok";
    native::set_fill(args[3].parse().unwrap());
    let vals: Vec<u64> = args[4..].iter().map(|s| s.parse().unwrap()).collect();
    vph::nd::VALUES.with(|v| *v.borrow_mut() = vals);
    let f = vph::find(&args[1]).unwrap_or_else(|| {
        eprintln!("no such harness");
        std::process::exit(30)
    });
    std::panic::set_hook(Box::new(|i| {
        let was = native::observe(false);
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        println!("panic: {} at {:?}", m, i.location().map(|l| l.to_string()));
        native::observe(was);
    }));
    native::observe(true);
    let r = std::panic::catch_unwind(f);
    native::observe(false);
    match r {
        Ok(()) => println!("held"),
        Err(_) if panic_ok => println!("panicked, as the property asks"),
        Err(_) => {
            println!("VP: unexpected panic");
            std::process::exit(10)
        }
    }
}
