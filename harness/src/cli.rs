//! C17: the built command line tool as a process, with its reads and writes under a fault shim.

use std::path::Path;
use std::process::{Command, Stdio};

use crate::ast::*;
use crate::exec::*;
use crate::props::{Bad, Verdict};

pub fn check(dir: &Path, plan: &Plan, v: &mut Verdict) -> Bad {
    let bin = std::env::var("LEDGER_BIN").expect("LEDGER_BIN");
    let shim = std::env::var("LEDGER_SHIM").expect("LEDGER_SHIM");
    let stage = Stage::new(dir, plan);
    let Some(Op::Cmd { verb, files, abs, style }) = plan.threads[0][0].first() else {
        v.trivial = true;
        return None;
    };
    let args = cmd_args(&stage.dir, plan, verb, files, *abs, *style);
    // what the library returns for the same arguments
    let want = {
        let args = args.clone();
        std::thread::spawn(move || guard(|| ledger_rs_lib::run(args))).join().unwrap()
    };
    let log = dir.join("shim.log");
    let faults: Vec<String> = plan
        .cli
        .iter()
        .map(|f| format!("{}:{}:{}:{}", f.call, f.nth, f.what, f.arg))
        .collect();
    let out = Command::new(&bin)
        .args(&args)
        .current_dir(&stage.dir)
        .env_clear()
        .env("LD_PRELOAD", &shim)
        .env("SIM_DIR", &stage.dir)
        .env("SIM_LOG", &log)
        .env("SIM_FAULTS", faults.join(";"))
        .env("SIM_SEED", (plan.env.hash & 0xffff_ffff).to_string())
        .env("SIM_CLOCK", plan.env.clock.to_string())
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("scratch: tool started");
    let fired = std::fs::read_to_string(&log).unwrap_or_default();
    let mut write_err = false;
    let mut read_err = false;
    for l in fired.lines() {
        let k: &'static str = match l {
            "w short" => "short_write",
            "w eintr" => "interrupted_write",
            "w err" => {
                write_err = true;
                "write_error"
            }
            "r short" => "short_read",
            "r eintr" => "interrupted_read",
            "r err" => {
                read_err = true;
                "read_error"
            }
            _ => continue,
        };
        crate::sys::fired(k);
    }
    let ok = out.status.success();
    crate::sys::event(&|| format!("tool {:?} {} {:?} faults {:?}", args.first(), ok, out.status.code(), fired));
    // without the line that repeats the arguments (scratch paths)
    let kept: Vec<&[u8]> = out.stdout.split(|b| *b == b'\n').enumerate().filter(|(i, _)| *i != 1).map(|(_, l)| l).collect();
    v.state = crate::rng::hash_bytes(v.state, &kept.concat());
    *v.marks.entry(if ok { "tool_ok" } else { "tool_failed" }.to_string()).or_default() += 1;
    let complete = match &want {
        Ok(lines) => {
            let text = String::from_utf8_lossy(&out.stdout);
            text.ends_with('\n') && text.lines().last() == Some(format!("{:?}", lines).as_str())
        }
        Err(_) => false,
    };
    if ok {
        if want.is_err() {
            return Some("success without a report: the library fails for the same arguments".to_string());
        }
        if read_err {
            return Some("success after a read error".to_string());
        }
        if !complete {
            return Some(format!(
                "success without the whole report: output ends with {:?}",
                String::from_utf8_lossy(&out.stdout).lines().last().map(|s| s.chars().take(120).collect::<String>())
            ));
        }
    } else if want.is_ok() && !write_err && !read_err {
        return Some(format!("failure without a cause: exit status {:?}", out.status.code()));
    }
    None
}
