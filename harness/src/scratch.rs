//! Scratch directories for checks that need a file system.  The process's current directory is the
//! scratch root, and each thread has a directory of its own below it.
use std::cell::Cell;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Scratch {
    pub root: PathBuf,
}

static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static ID: Cell<usize> = const { Cell::new(usize::MAX) };
}

impl Scratch {
    pub fn enter(prop: &str) -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let root = base.join(format!("pbt-{prop}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir_all(&root).expect("scratch directory");
        std::env::set_current_dir(&root).expect("scratch directory");
        Scratch { root }
    }
    /// relative name of this thread's directory, emptied
    pub fn fresh(&self) -> String {
        let id = ID.with(|c| {
            if c.get() == usize::MAX {
                c.set(NEXT.fetch_add(1, Ordering::SeqCst));
            }
            c.get()
        });
        let name = format!("w{id}");
        let p = self.root.join(&name);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        name
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.root);
    }
}
