fn main() {
    let a: Vec<String> = std::env::args().collect();
    hexharness::sym::load(&a[2]);
    let f = hexharness::HARNESSES.iter().find(|h| h.0 == a[1]).expect("harness name").1;
    let h = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| { hexharness::sym::cleanup(); h(i) }));
    f();
    hexharness::sym::cleanup();
    eprintln!("replay: completed without a violation");
    // do not run destructors / join background threads
    std::process::exit(0);
}
