//! Native runtime: runs one harness against the real code with recorded draws.
//!   replay HARNESS DRAWS...      (tier in RNV_TIER)
//! Prints OBS lines (observations), FAILED lines (checks) and one END line.
use std::cell::RefCell;
use std::collections::BTreeSet;

#[derive(Default)]
struct St {
    draws: Vec<u64>,
    pos: usize,
    failed: Vec<u32>,
    obs: Vec<u64>,
    faults: Vec<(u32, u32)>,
    ops: u32,
    fds: BTreeSet<i32>,
    seed: u32,
    stop: bool,
}
thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }

fn draw() -> u64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        if p >= s.draws.len() {
            drop(s);
            finish("exhausted");
        }
        s.draws[p]
    })
}
fn finish(how: &str) -> ! {
    S.with(|s| {
        let s = s.borrow();
        let o: Vec<String> = s.obs.iter().map(|x| x.to_string()).collect();
        println!("OBS {}", o.join(" "));
        let f: Vec<String> = s.failed.iter().map(|x| x.to_string()).collect();
        println!("CHECKS {}", f.join(" "));
        println!("END {} {}/{}", how, s.pos, s.draws.len());
    });
    use std::io::Write;
    std::io::stdout().flush().ok();
    cleanup();
    std::process::exit(0)
}
static mut SCRATCH: Option<std::path::PathBuf> = None;
fn cleanup() {
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(p) = &SCRATCH {
            std::env::set_current_dir("/").ok();
            std::fs::remove_dir_all(p).ok();
        }
    }
}

#[no_mangle]
pub extern "C" fn sx_mode(_: u32) {}
#[no_mangle]
pub extern "C" fn sx_tier() -> u32 {
    std::env::var("RNV_TIER").map(|x| x == "1").unwrap_or(false) as u32
}
#[no_mangle]
pub extern "C" fn sx_pick(_: u32, _: u32) -> u32 {
    draw() as u32
}
#[no_mangle]
pub extern "C" fn sx_u8(_: u8, _: u8) -> u8 {
    draw() as u8
}
#[no_mangle]
pub extern "C" fn sx_u32(_: u32, _: u32) -> u32 {
    draw() as u32
}
#[no_mangle]
pub extern "C" fn sx_u64(_: u64, _: u64) -> u64 {
    draw()
}
#[no_mangle]
pub extern "C" fn sx_fint(_: i32, _: i32) -> f32 {
    f32::from_bits(draw() as u32)
}
#[no_mangle]
pub extern "C" fn sx_freal() -> f32 {
    f32::from_bits(draw() as u32)
}
#[no_mangle]
pub extern "C" fn sx_fbits() -> f32 {
    f32::from_bits(draw() as u32)
}
#[no_mangle]
pub extern "C" fn sx_assume(c: bool) {
    if !c {
        finish("assume")
    }
}
#[no_mangle]
pub extern "C" fn sx_check(c: bool, id: u32) {
    if !c {
        S.with(|s| s.borrow_mut().failed.push(id));
    }
}
#[no_mangle]
pub extern "C" fn sx_cover(_: bool, _: u32) {}
#[no_mangle]
pub extern "C" fn sx_ite_f32(c: bool, a: f32, b: f32) -> f32 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C" fn sx_ite_u32(c: bool, a: u32, b: u32) -> u32 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C" fn sx_and(a: bool, b: bool) -> bool {
    a && b
}
#[no_mangle]
pub extern "C" fn sx_or(a: bool, b: bool) -> bool {
    a || b
}
#[no_mangle]
pub extern "C" fn sx_close(a: f32, b: f32) -> bool {
    let (p, q) = (a as f64, b as f64);
    (p - q).abs() <= 1e-30 + 1e-3 * p.abs().max(q.abs())
}
#[no_mangle]
pub extern "C" fn sx_same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
#[no_mangle]
pub extern "C" fn sx_obs_u64(x: u64) {
    S.with(|s| s.borrow_mut().obs.push(x));
}
#[no_mangle]
pub extern "C" fn sx_obs_f32(x: f32) {
    S.with(|s| s.borrow_mut().obs.push(x.to_bits() as u64));
}
#[no_mangle]
pub extern "C" fn sx_shard() {}
#[no_mangle]
pub extern "C" fn sx_fault(n: u32, kind: u32) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.ops = 0;
        if kind == 0 {
            s.faults.clear();
        } else {
            s.faults.push((n, kind));
        }
    })
}
#[no_mangle]
pub extern "C" fn sx_hash_seed(n: u32) {
    S.with(|s| s.borrow_mut().seed = n);
}
#[no_mangle]
pub extern "C" fn sx_fs_ops() -> u32 {
    S.with(|s| s.borrow().ops)
}

// ------------------------------------------------------------ operating system calls
// The C library's open/read/write are interposed so that the fault schedule of the harness
// applies to the files of the harness (relative names only); everything else passes through.
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
fn op() -> u32 {
    S.try_with(|s| match s.try_borrow_mut() {
        Ok(mut s) => {
            let n = s.ops;
            s.ops += 1;
            s.faults.iter().find(|f| f.0 == n).map(|f| f.1).unwrap_or(0)
        }
        Err(_) => 0,
    })
    .unwrap_or(0)
}
fn fail(e: i32) -> isize {
    unsafe { *__errno_location() = e };
    -1
}
/// # Safety
/// as open(2)
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let tracked = *path != b'/' && *path != 0;
    if tracked {
        match op() {
            1 | 5 => return fail(13) as i32,
            2 => return fail(4) as i32,
            _ => {}
        }
    }
    let fd = syscall(2, path, flags as i64, mode as i64) as i32;
    if tracked && fd >= 0 {
        S.with(|s| s.borrow_mut().fds.insert(fd));
    }
    fd
}
fn tracked(fd: i32) -> bool {
    fd > 2 && S.try_with(|s| s.try_borrow().map(|s| s.fds.contains(&fd)).unwrap_or(false)).unwrap_or(false)
}
/// # Safety
/// as read(2)
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, mut n: usize) -> isize {
    if tracked(fd) {
        match op() {
            1 | 5 => return fail(5),
            2 => return fail(4),
            3 => n = n.min(1),
            _ => {}
        }
    }
    syscall(0, fd as i64, buf, n) as isize
}
/// # Safety
/// as write(2)
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, mut n: usize) -> isize {
    if tracked(fd) {
        match op() {
            1 => return fail(28),
            5 => return fail(5),
            2 => return fail(4),
            3 => n = n.min(1),
            4 => return 0,
            _ => {}
        }
    }
    syscall(1, fd as i64, buf, n) as isize
}
/// # Safety
/// as close(2)
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    S.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            s.fds.remove(&fd);
        }
    })
    .ok();
    syscall(3, fd as i64) as i32
}
/// The hash keys are derived from the harness's seed.
/// # Safety
/// as getrandom(2)
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    let seed = S.try_with(|s| s.try_borrow().map(|s| s.seed).unwrap_or(0)).unwrap_or(0);
    for i in 0..n {
        *buf.add(i) = (seed.wrapping_mul(131).wrapping_add(i as u32 * 37 + 11)) as u8;
    }
    n as isize
}

extern "C" {
    fn geteuid() -> u32;
    fn setuid(id: u32) -> i32;
    fn setgid(id: u32) -> i32;
    fn setgroups(n: usize, l: *const u32) -> i32;
}
/// As root, the code under test would be able to overwrite anything it names
/// by mistake: hand the scratch directory to an unprivileged user and become it.
fn confine(dir: &std::path::Path) {
    const NOBODY: u32 = 65534;
    unsafe {
        if geteuid() == 0 && std::os::unix::fs::chown(dir, Some(NOBODY), Some(NOBODY)).is_ok() {
            setgroups(0, std::ptr::null());
            setgid(NOBODY);
            setuid(NOBODY);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let Some(h) = a.first() else {
        for (n, _) in rnv::table() {
            println!("{}", n);
        }
        return;
    };
    let draws: Vec<u64> = a[1..].iter().flat_map(|x| x.split(',')).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let f = rnv::table().into_iter().find(|(n, _)| n == h).expect("no such harness").1;
    let mut n = 0;
    let dir = loop {
        let d = std::env::temp_dir().join(format!("rnv-replay-{}-{}", std::process::id(), n));
        match std::fs::create_dir(&d) {
            Ok(_) => break d,
            Err(_) if n < 1000 => n += 1,
            Err(e) => panic!("no scratch directory: {}", e),
        }
    };
    std::env::set_current_dir(&dir).unwrap();
    confine(&dir);
    unsafe { SCRATCH = Some(dir) };
    // a fresh thread: its hash keys are drawn after the harness has chosen the seed
    let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        S.with(|s| s.borrow_mut().draws = draws);
        std::panic::set_hook(Box::new(|i| println!("PANIC {}", i.to_string().replace('\n', " | "))));
        let r = std::panic::catch_unwind(f);
        finish(if r.is_ok() { "ok" } else { "panic" });
    });
    th.unwrap().join().ok();
    cleanup();
    std::process::exit(9);
}
