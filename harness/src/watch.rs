//! What every worker is executing: to name the scenario of an execution that hangs or takes the process down.
use std::os::unix::fs::FileExt;
use std::sync::Mutex;
use std::time::{Duration, Instant};

static NOW: Mutex<Vec<Option<(Instant, usize, u64)>>> = Mutex::new(Vec::new());
static FILE: Mutex<Option<std::fs::File>> = Mutex::new(None);
const SLOT: usize = 64;
const LIMIT: Duration = Duration::from_secs(90);

/// The state of worker n is the nth line of the file: the number of the scenario (from 0) and of its repetition, or idle
pub fn init(path: Option<&String>, workers: usize) {
    *NOW.lock().unwrap() = vec![None; workers];
    if let Some(p) = path {
        *FILE.lock().unwrap() = Some(std::fs::File::create(p).expect("HARNESS watch file"));
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        for x in NOW.lock().unwrap().iter().flatten() {
            if x.0.elapsed() > LIMIT {
                eprintln!("HANG {} {}", x.1, x.2);
                std::process::exit(5);
            }
        }
    });
}

fn put(slot: usize, s: String) {
    let mut b = s.into_bytes();
    b.resize(SLOT - 1, b' ');
    b.push(b'\n');
    if let Some(f) = &*FILE.lock().unwrap() {
        f.write_at(&b, (slot * SLOT) as u64).ok();
    }
}

pub fn begin(slot: usize, sc: usize, rep: u64) {
    NOW.lock().unwrap()[slot] = Some((Instant::now(), sc, rep));
    put(slot, format!("{sc} {rep}"));
}

pub fn end(slot: usize) {
    NOW.lock().unwrap()[slot] = None;
    put(slot, "idle".into());
}
