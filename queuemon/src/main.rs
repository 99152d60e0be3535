//! Entry point of the sanitizer builds: queuemon <seed> <histories> <ops> <hostile> <codecs>
use queuemon::*;
fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Cnt::new();
    let mut p = list(a[0], a[1], a[2] as usize, false, &mut c);
    p.extend(hostile(a[0], a[3], false, &mut c));
    p.extend(codec::codecs(a[0], a[4], &mut c));
    for x in &p {
        eprintln!("PROBLEM\t{}\t{}\t{}", x.prop, x.kind, x.msg);
    }
    for (k, v) in &c {
        eprintln!("COUNT\t{k}\t{v}");
    }
    eprintln!("DONE");
}
