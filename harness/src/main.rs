//! Native replay: `replay <harness> [tag=value ...]`
#[cfg(not(feature = "ir"))]
fn main() {
    let mut args = std::env::args().skip(1);
    let name = args.next().expect("harness name");
    let mut m = std::collections::HashMap::new();
    for a in args {
        let (t, v) = a.split_once('=').expect("tag=value");
        m.insert(t.trim_start_matches('t').parse().unwrap(), v.parse().unwrap());
    }
    *harness::rt::VALUES.lock().unwrap() = Some(m);
    let f = harness::table().into_iter().find(|(n, _)| *n == name).expect("unknown harness").1;
    let r = std::panic::catch_unwind(f);
    match r {
        Ok(()) => println!("FINISHED"),
        Err(_) => println!("PANICKED"),
    }
}
#[cfg(feature = "ir")]
fn main() {}
