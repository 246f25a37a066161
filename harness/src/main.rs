#![allow(dead_code)]
mod case;
mod check;
mod child;
mod events;
mod exec;
mod linalg;
mod obs;
mod oracle;
mod plan;

/// Counts the bytes in use.
struct Counting;
static IN_USE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        IN_USE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        IN_USE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        IN_USE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, size: usize) -> *mut u8 {
        IN_USE.fetch_add(size as i64 - l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.realloc(p, l, size)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Bytes on the heap that were not given back so far.
pub fn heap_in_use() -> i64 {
    IN_USE.load(std::sync::atomic::Ordering::SeqCst)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("child") => {
            let ports: Vec<u16> = args[5].split(',').filter_map(|p| p.parse().ok()).collect();
            let code = child::run(&args[2], &args[3], args[4].parse().unwrap(), &ports);
            // helper threads may still be winding down: leave without running exit handlers
            extern "C" {
                fn _exit(code: i32) -> !;
            }
            unsafe { _exit(code) }
        }
        Some("check") if args.len() == 4 => plan::check(&args[2], &args[3]),
        Some("replay") if args.len() == 3 => plan::replay(&args[2]),
        Some("canary") => exec::canary(),
        Some("data") if args.len() == 4 => plan::data(&args[2], &args[3]),
        Some("cases") => plan::cases(&args[2], args[3].parse().unwrap()),
        Some("survey") => plan::survey(args[2].parse().unwrap()),
        Some("try") => plan::try_mix(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        _ => {
            eprintln!("usage: monitor check PROPERTY quick|thorough | replay FILE | data FILE CSV");
            2
        }
    };
    std::process::exit(code)
}
