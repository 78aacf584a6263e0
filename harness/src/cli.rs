//! The command. Everything it is given to read or write lies in a scratch directory that is removed.
use crate::gens;
use crate::props::Verdict;
use crate::util::*;
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use Verdict::*;

pub fn gen(r: &mut R) -> Case {
    let mut c = Case::new(if r.b() { gens::document(r) } else { gens::soup(r, 14) });
    if r.b() {
        c.max_width = Some(r.n(60));
    }
    c.reflow = r.one(3);
    c.extra = vec![r.pick(&["write", "write", "stdout", "stdout", "invalid", "invalid-stdout", "missing", "badoption"]).to_string()];
    c
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn check(c: &Case) -> Verdict {
    static N: AtomicUsize = AtomicUsize::new(0);
    let Ok(bin) = std::env::var("VP_BIN") else { return Skip };
    let Some(mode) = c.extra.first() else { return Skip };
    let dir = std::env::temp_dir().join(format!("vp-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).unwrap();
    let dir = Scratch(dir);
    let file = dir.0.join("doc.md");
    let mut bytes = c.input.clone().into_bytes();
    if mode.starts_with("invalid") {
        let at = bytes.len() / 2;
        bytes.insert(at, 0xff);
    }
    if mode != "missing" {
        std::fs::write(&file, &bytes).unwrap();
    }
    let mut cmd = Command::new(bin);
    cmd.current_dir(&dir.0).env_remove("MARKDOWN_FMT_LOG").stdin(std::process::Stdio::null());
    cmd.arg(&file);
    if mode.ends_with("stdout") {
        cmd.arg("--stdout");
    }
    if let Some(w) = c.max_width {
        cmd.arg("--max-width").arg(w.to_string());
    }
    if c.reflow {
        cmd.arg("--reflow-text");
    }
    if mode == "badoption" {
        cmd.arg("--max-width=notanumber");
    }
    let Ok(o) = cmd.output() else { return Fail("the command can't be run".into()) };
    let after = std::fs::read(&file).ok();
    let names: Vec<_> = std::fs::read_dir(&dir.0).unwrap().map(|e| e.unwrap().file_name()).collect();
    let stdout = String::from_utf8_lossy(&o.stdout).to_string();
    let err = |m: &str| Fail(format!("{m}\n  mode: {mode}\n  exit: {:?}\n  stdout: {stdout:?}\n  stderr: {:?}\n  file afterwards: {:?}", o.status, String::from_utf8_lossy(&o.stderr), after.as_ref().map(|b| String::from_utf8_lossy(b).to_string())));
    if names.len() > 1 {
        return err("the command left other files behind");
    }
    match mode.as_str() {
        "write" | "stdout" => {
            let want = match fmt(c) {
                Ok(w) => w,
                Err(_) => return Skip,
            };
            if !o.status.success() {
                return err("the command failed");
            }
            if mode == "write" {
                if after.as_deref() != Some(want.as_bytes()) {
                    return err(&format!("the file should hold {want:?}"));
                }
                if !stdout.is_empty() {
                    return err("the command printed something");
                }
            } else {
                if after.as_deref() != Some(&bytes[..]) {
                    return err("--stdout changed the file");
                }
                if stdout != want {
                    return err(&format!("the command should print {want:?}"));
                }
            }
        }
        "missing" => {
            if o.status.success() {
                return err("the command succeeded although the file doesn't exist");
            }
            if after.is_some() {
                return err("the command created the file");
            }
        }
        _ => {
            if o.status.success() {
                return err("the command succeeded although its input is invalid");
            }
            if after.as_deref() != Some(&bytes[..]) {
                return err("the command failed but changed the file");
            }
            if !stdout.is_empty() {
                return err("the command failed but printed to stdout");
            }
        }
    }
    Pass(true)
}
