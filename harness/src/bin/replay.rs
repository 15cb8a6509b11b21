//! Runs one harness natively on one tape.
//!
//!   replay <harness> <hex tape>     a solver assignment
//!   replay <harness> seed:<n>       a pseudo-random tape
//!
//! Exit 0: the harness ran to its end; 1: an assertion failed (or the code
//! panicked); 3: the tape violates an assumption of the harness; 4: usage.
use vh::nd;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for (n, _) in vh::all() {
            println!("{n}");
        }
        return;
    }
    if a.len() != 3 {
        std::process::exit(4)
    }
    let Some((_, f)) = vh::all().into_iter().find(|(n, _)| *n == a[1]) else { std::process::exit(4) };
    let tape: Vec<u8> = if let Some(s) = a[2].strip_prefix("seed:") {
        let mut x: u64 = s.parse::<u64>().unwrap().wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0xd1b5_4a32_d192_ed03;
        (0..512)
            .map(|_| {
                x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let mut z = x;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                (z ^ (z >> 31)) as u8
            })
            .collect()
    } else {
        let h = a[2].as_bytes();
        h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
    };
    nd::load(tape);
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<nd::AssumeFailed>().is_none() {
            eprintln!("{i}");
        }
    }));
    let r = std::panic::catch_unwind(f);
    let hex: String = nd::consumed().iter().map(|b| format!("{b:02x}")).collect();
    println!("tape={hex} short={}", nd::ran_short());
    match r {
        Ok(()) => std::process::exit(if nd::reached() { 0 } else { 4 }),
        Err(e) if e.downcast_ref::<nd::AssumeFailed>().is_some() => std::process::exit(3),
        Err(_) => std::process::exit(1),
    }
}

// The terminal check of the standard library, answered from the tape.
#[cfg(feature = "std")]
#[no_mangle]
pub extern "C" fn isatty(fd: i32) -> i32 {
    vh::env::isatty(fd)
}
