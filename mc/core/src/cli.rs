//! Runs of command line programs in a scratch folder.

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};

static COUNT: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let n = COUNT.fetch_add(1, Ordering::Relaxed);
        let p = std::env::temp_dir().join(format!("mc_cli_{}_{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// All files below a directory with their contents.
pub fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(root: &Path, dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(dir).expect("read_dir").flatten() {
            let p = e.path();
            let name = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            if p.is_dir() {
                out.insert(name + "/", vec![]);
                go(root, &p, out);
            } else {
                out.insert(name, std::fs::read(&p).expect("read"));
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, dir, &mut out);
    out
}

pub fn run(dir: &Path, program: &str, args: &[String]) -> Result<(i32, String, String), String> {
    let exe = std::env::var("MC_CLI").map_err(|_| "MC_CLI is not set")?;
    let o = Command::new(Path::new(&exe).join(program))
        .args(args)
        .current_dir(dir)
        .env_clear()
        .stdin(std::process::Stdio::null())
        .output()
        .map_err(|e| format!("could not run {program}: {e}"))?;
    let code = o.status.code().ok_or("killed by a signal")?;
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if err.contains("panicked") {
        return Err(format!("panicked: {err}"));
    }
    Ok((code, String::from_utf8_lossy(&o.stdout).into_owned(), err))
}
