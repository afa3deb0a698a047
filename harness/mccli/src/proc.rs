//! Running the command line tools, with faults put into their input and output.
use refmodel::report::{repo, thread, verif, work, Ctx};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

extern "C" {
    fn prlimit(pid: i32, resource: i32, new: *const u64, old: *mut u64) -> i32;
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    /// exit status, or the signal that ended it
    pub status: Result<i32, i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

impl Outcome {
    pub fn show(&self) -> String {
        let cut = |b: &[u8]| String::from_utf8_lossy(b).chars().take(300).collect::<String>();
        format!("{} stdout {:?} stderr {:?}", match self.status { Ok(c) => format!("status {}", c), Err(s) => format!("signal {}", s) }, cut(&self.out), cut(&self.err))
    }
}

pub fn tool(name: &str) -> PathBuf {
    verif().join("target/release").join(name)
}

/// The interposed read, write and getrandom.
pub fn shim(ctx: &Ctx) -> PathBuf {
    let so = work(&ctx.id).join("shim.so");
    let o = Command::new("gcc").args(["-O1", "-shared", "-fPIC", "-w", "-o"]).arg(&so).arg(verif().join("harness/mccli/shim.c")).output().unwrap();
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    so
}

/// Runs a tool on `input`. `env`: settings of the shim.
pub fn run(ctx: &Ctx, prog: &PathBuf, input: &[u8], env: &[(&str, String)], args: &[&str]) -> Outcome {
    let p = work(&ctx.id).join(format!("in{}", thread()));
    let mut f = fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(p).unwrap();
    f.write_all(input).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
    let mut c = Command::new(prog);
    c.args(args).stdin(Stdio::from(f)).stdout(Stdio::piped()).stderr(Stdio::piped()).current_dir(repo());
    c.env_clear().env("PATH", "/usr/bin:/bin");
    if let Ok(v) = std::env::var("VERIF_DIR") {
        c.env("VERIF_DIR", v);
    }
    for (k, v) in env {
        c.env(k, v);
    }
    let child = c.spawn().unwrap();
    // seconds of processor time, from outside: anything done between fork and exec would make
    // starting a process from this large one slow
    unsafe { prlimit(child.id() as i32, 0, [20u64, 20].as_ptr(), std::ptr::null_mut()) };
    let o = child.wait_with_output().unwrap();
    Outcome { status: o.status.code().ok_or_else(|| o.status.signal().unwrap_or(0)), out: o.stdout, err: o.stderr }
}
