//! The command line tool, run as a process of its own in a scratch folder.
use std::path::PathBuf;
use std::process::{Command, Stdio};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const std::os::raw::c_char, flags: i32, ...) -> i32;
    fn close(fd: i32) -> i32;
}

pub struct Cli {
    exe: PathBuf,
    path: Option<String>,
    pub dir: PathBuf,
}

pub struct Out {
    pub text: String,
    pub err: String,
    pub code: Option<i32>,
}

impl Out {
    /// what follows the first ':' of the line that starts with `key`, without quotes
    pub fn value(&self, key: &str) -> Option<String> {
        for l in self.text.lines() {
            let l = l.split_once('|').map(|x| x.1).unwrap_or(l).trim();
            if l.starts_with(key) {
                return l.split_once(':').map(|x| x.1.trim().trim_matches('\'').to_string());
            }
        }
        None
    }
    pub fn panicked(&self) -> bool {
        self.code != Some(0) || self.err.contains("panicked")
    }
}

impl Cli {
    pub fn new(dir: &std::path::Path) -> Cli {
        let exe = std::env::current_exe().expect("exe").parent().unwrap().join("hl");
        Cli { exe, dir: dir.to_path_buf(), path: None }
    }

    /// programs the tool calls are replaced by one that does nothing
    pub fn with_stubs(dir: &std::path::Path, stubs: &std::path::Path, names: &[&str]) -> Cli {
        for n in names {
            let _ = std::os::unix::fs::symlink("/bin/true", stubs.join(n));
        }
        let mut c = Cli::new(dir);
        c.path = Some(format!("{}:{}", stubs.display(), std::env::var("PATH").unwrap_or_default()));
        c
    }

    /// a program the tool calls is replaced by a shell script
    pub fn script(&self, stubs: &std::path::Path, name: &str, body: &str) {
        use std::os::unix::fs::PermissionsExt;
        let f = stubs.join(name);
        let _ = std::fs::remove_file(&f);
        std::fs::write(&f, format!("#!/bin/sh\n{}\n", body)).expect("stub");
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).expect("stub");
    }

    pub fn run(&self, args: &[&str]) -> Out {
        let mut c = Command::new(&self.exe);
        if let Some(p) = &self.path {
            c.env("PATH", p);
        }
        let o = c.args(args).current_dir(&self.dir).stdin(Stdio::null()).output().expect("run the tool");
        Out { text: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned(), code: o.status.code() }
    }
}

/// what the code under test prints goes nowhere until dropped
pub struct Quiet {
    saved: i32,
}

static SAVED: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

/// what is printed from now on is printed, even while a `Quiet` exists
pub fn speak_again() {
    let fd = SAVED.load(std::sync::atomic::Ordering::SeqCst);
    if fd >= 0 {
        unsafe {
            dup2(fd, 1);
        }
    }
}

impl Quiet {
    pub fn new() -> Quiet {
        unsafe {
            let saved = dup(1);
            SAVED.store(saved, std::sync::atomic::Ordering::SeqCst);
            let n = open(b"/dev/null\0".as_ptr() as *const _, 1);
            dup2(n, 1);
            close(n);
            Quiet { saved }
        }
    }
}

impl Drop for Quiet {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(self.saved, 1);
            close(self.saved);
        }
    }
}
