//! Scripts run by a program of another language, one line of results to each.

use crate::cli::Scratch;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// `Err((k, why))`: the program did not survive script `k`.
pub fn run(name: &str, mode: &str, scripts: &[String]) -> Result<Vec<String>, (usize, String)> {
    let dir = std::env::var("MC_DRIVERS").map(PathBuf::from).map_err(|_| (0, "MC_DRIVERS is not set".to_string()))?;
    let exe = dir.join(name);
    if !exe.exists() {
        let log = std::fs::read_to_string(dir.join(format!("{name}.log"))).unwrap_or_default();
        return Err((0, format!("a program that uses the header could not be built: {}", crate::util::clip(&log, 1500))));
    }
    let scratch = Scratch::new();
    let (input, output) = (scratch.0.join("scripts"), scratch.0.join("results"));
    std::fs::write(&input, scripts.join("\n") + "\n").expect("scripts");
    let mut child = Command::new(exe)
        .args([mode.as_ref(), input.as_os_str(), output.as_os_str()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| (0, format!("could not run {name}: {e}")))?;
    let start = Instant::now();
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if start.elapsed() > Duration::from_secs(35) => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let text = String::from_utf8_lossy(&std::fs::read(&output).unwrap_or_default()).into_owned();
    let complete = text.rfind('\n').map_or(0, |i| i + 1);
    let lines: Vec<String> = text[..complete].lines().map(String::from).collect();
    match status {
        Some(s) if s.success() && lines.len() == scripts.len() => Ok(lines),
        Some(s) => Err((lines.len(), format!("the program ended with {s} {}", &text[complete..]))),
        None => Err((lines.len(), "the program did not finish".into())),
    }
}

/// A double as it is written in scripts and results.
pub fn bits(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}

pub fn real(s: &str) -> Option<f64> {
    u64::from_str_radix(s, 16).ok().map(f64::from_bits)
}

/// Does the header compile as the given language? `Err` is what the compiler says.
pub fn compiles(compiler: &str, args: &[&str], text: &str, suffix: &str) -> Result<(), String> {
    let scratch = Scratch::new();
    let src = scratch.0.join(format!("use.{suffix}"));
    std::fs::write(&src, text).expect("source");
    let o = Command::new(compiler)
        .args(args)
        .arg("-fsyntax-only")
        .arg(&src)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("could not run {compiler}: {e}"))?;
    if o.status.success() {
        Ok(())
    } else {
        Err(crate::util::clip(&String::from_utf8_lossy(&o.stderr), 1500))
    }
}
