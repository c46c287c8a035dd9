//! Deliberate memory errors, to see that a sanitizer reports them.
/// Deliberate faults, to see that the monitor would report one.
pub fn canary(kind: &str) {
    match kind {
        "race" => {
            struct P(*mut u64);
            unsafe impl Send for P {}
            let mut x = Box::new(0u64);
            let p: *mut u64 = &mut *x;
            let q = P(p);
            let t = std::thread::spawn(move || {
                let q = q;
                for _ in 0..1000 {
                    unsafe { *q.0 = std::hint::black_box(1) }
                }
            });
            for _ in 0..1000 {
                unsafe { *p = std::hint::black_box(2) }
            }
            t.join().unwrap();
            println!("{x}");
        }
        "uaf" => {
            let x = vec![1u8; 100];
            let p = std::hint::black_box(x.as_ptr());
            drop(x);
            println!("{}", unsafe { std::ptr::read_volatile(p.add(5)) });
        }
        "oob" => {
            let x = vec![1u8; 100];
            let p = std::hint::black_box(x.as_ptr());
            println!("{}", unsafe { std::ptr::read_volatile(p.add(100)) });
        }
        "leak" => {
            std::mem::forget(std::hint::black_box(vec![1u8; 100]));
            println!("leaked");
        }
        "uninit" => {
            let x: Vec<u8> = Vec::with_capacity(100);
            let p = std::hint::black_box(x.as_ptr());
            if unsafe { std::ptr::read_volatile(p.add(5)) } == 7 {
                println!("seven");
            }
        }
        _ => panic!("unknown canary"),
    }
}

