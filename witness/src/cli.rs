//! C19: the built `barc` tool.

use std::fs;
use std::process::{Command, Output};

use barc::{BarcFile, BrotliCompressStrategy, CompressStrategy, GzipCompressStrategy, NoCompressStrategy};
use body_image::Tunables;

use crate::barcs::{block, head, record, same_record, Plain};
use crate::body::diff;
use crate::{Case, Outcome};

fn archive(c: &mut Case, name: &str) -> Result<Vec<(u64, Plain)>, String> {
    let p = c.dir.join(name);
    let f = BarcFile::new(&p);
    let mut w = f.writer().map_err(|e| format!("writer: {}", e))?;
    let n = c.rng.below(5);
    let mut v = vec![];
    for _ in 0..n {
        let (rec, plain) = record(c, 600)?;
        let gz = GzipCompressStrategy::default().set_min_len(0);
        let br = BrotliCompressStrategy::default().set_min_len(0).set_compression_level(1);
        let s: &dyn CompressStrategy = match c.rng.below(3) { 0 => &gz, 1 => &br, _ => &NoCompressStrategy {} };
        v.push((w.write(&rec, s).map_err(|e| format!("write: {}", e))?, plain));
    }
    Ok(v)
}

pub fn c19(c: &mut Case) -> Outcome {
    let recs = archive(c, "in.barc")?;
    let two = c.rng.chance(1, 5);
    let more = if two { archive(c, "in2.barc")? } else { vec![] };
    let end = fs::metadata(c.dir.join("in.barc")).map_err(|e| e.to_string())?.len();
    let mut args: Vec<String> = vec![];
    let mut from = 0usize;
    let mut count = usize::MAX;
    if !two {
        match c.rng.below(3) {
            0 => { from = c.rng.below(recs.len() as u64 + 2) as usize; args.extend(["-i".into(), from.to_string()]); }
            1 => {
                from = c.rng.below(recs.len() as u64 + 1) as usize;
                let o = recs.get(from).map(|r| r.0).unwrap_or(end);
                args.extend(["--offset".into(), if c.rng.chance(1, 2) { format!("{:#x}", o) } else { o.to_string() }]);
            }
            _ => (),
        }
        if c.rng.chance(1, 2) {
            count = c.rng.below(recs.len() as u64 + 2) as usize;
            args.extend([(*c.rng.pick(&["-c", "--count"])).into(), count.to_string()]);
        }
    }
    let mut sel: Vec<(&str, &(u64, Plain))> = recs.iter().skip(from).take(count).map(|r| ("in.barc", r)).collect();
    sel.extend(more.iter().map(|r| ("in2.barc", r)));
    let files: Vec<String> = if two { vec!["in.barc".into(), "in2.barc".into()] } else { vec!["in.barc".into()] };

    if two && c.rng.chance(1, 6) { return counted(c, recs.len() + more.len(), files); }
    if c.rng.chance(1, 6) { return unreadable(c, &recs, two, from, count, end, args, files); }
    if c.rng.chance(1, 2) {
        const FLAGS: [&str; 5] = ["--meta", "--req-head", "--req-body", "--res-head", "--res-body"];
        let mut on: Vec<bool> = (0..5).map(|_| c.rng.chance(1, 3)).collect();
        if c.rng.chance(1, 3) { on = vec![false; 5]; }
        for i in 0..5 { if on[i] { args.push(FLAGS[i].into()); } }
        if !on.contains(&true) { on = vec![true; 5]; }
        c.note(format!("barc cat {:?} {:?}", args, files));
        let out = run(c, "cat", &args, &files)?;
        let mut want = vec![];
        for (f, (o, p)) in &sel {
            want.extend(format!("====== file {:-<38} offset {:#012x} ======\n", f, o).into_bytes());
            let bb = |b: &[u8]| { let mut v = b.to_vec(); if !v.is_empty() { v.extend(b"\r\n"); } v };
            if on[0] { want.extend(block(&p.meta)); }
            if on[1] { want.extend(block(&p.req_h)); }
            if on[2] { want.extend(bb(&p.req_b)); }
            if on[3] { want.extend(block(&p.res_h)); }
            if on[4] { want.extend(bb(&p.res_b)); }
        }
        diff("output", &out, &want)?;
    } else {
        let flag = match c.rng.below(3) { 0 => { args.push((*c.rng.pick(&["-z", "--gzip"])).into()); b'Z' }
                                          1 => { args.push((*c.rng.pick(&["-b", "--brotli"])).into()); b'B' } _ => b'P' };
        let prior = if c.rng.chance(1, 2) { archive(c, "out.barc")? } else { vec![] };
        let before = fs::read(c.dir.join("out.barc")).unwrap_or_default();
        let mut f = files.clone();
        f.push("out.barc".into());
        c.note(format!("barc cp {:?} {:?}", args, f));
        let out = run(c, "cp", &args, &f)?;
        if !out.is_empty() { return Err(format!("unexpected output: {}", String::from_utf8_lossy(&out))); }
        let p = c.dir.join("out.barc");
        let now = fs::read(&p).map_err(|e| format!("output file: {}", e))?;
        if now.len() < before.len() { return Err("output file shrank".into()); }
        diff("earlier output", &now[..before.len()], &before)?;
        let mut r = BarcFile::new(&p).reader().map_err(|e| format!("reader: {}", e))?;
        let t = Tunables::new();
        for (i, p) in prior.iter().map(|x| &x.1).chain(sel.iter().map(|x| &(x.1).1)).enumerate() {
            let at = r.offset();
            let rec = r.read(&t).map_err(|e| format!("output record {}: {}", i, e))?.ok_or_else(|| format!("output record {} missing", i))?;
            same_record(&rec, p).map_err(|e| format!("output record {}: {}", i, e))?;
            if i >= prior.len() {
                let h = head(&now[at as usize..]).ok_or("head")?;
                // the rule of C11 with the defaults and the identity check
                let want = if flag != b'P' && rule(p, if flag == b'B' { 1024 } else { 4096 }) { flag } else { b'P' };
                if h.comp != want { return Err(format!("output record {} has compression {}, not {}", i, h.comp as char, want as char)); }
            }
        }
        if r.read(&t).map_err(|e| format!("end: {}", e))?.is_some() { return Err("more records than requested".into()); }
    }
    Ok(!recs.is_empty())
}

/// Records asked for that can't be read are never passed over silently: the
/// file is missing or cut within one of them.
fn unreadable(c: &mut Case, recs: &[(u64, Plain)], two: bool, from: usize, count: usize, end: u64,
    args: Vec<String>, mut files: Vec<String>) -> Outcome
{
    let last = recs.len().min(from.saturating_add(count));
    if from < last && !c.rng.chance(1, 4) {
        let k = from + c.rng.below((last - from) as u64) as usize;
        let (a, z) = (recs[k].0, recs.get(k + 1).map(|r| r.0).unwrap_or(end));
        let cut = a + 1 + c.rng.below(z - a - 1);
        fs::OpenOptions::new().write(true).open(c.dir.join("in.barc")).and_then(|f| f.set_len(cut))
            .map_err(|e| format!("setup: cut: {}", e))?;
        c.note(format!("record {} at {:#x} cut at {:#x}", k, a, cut));
    } else {
        if count == 0 { return Ok(false); }
        let i = if two { c.rng.below(2) as usize } else { 0 };
        files[i] = "absent.barc".into();
    }
    let sub = *c.rng.pick(&["cat", "cp"]);
    if sub == "cp" { files.push("out.barc".into()); }
    c.note(format!("barc {} {:?} {:?}", sub, args, files));
    let o = command(c, sub, &args, &files)?;
    if o.status.success() { return Err(format!("barc {} reports success without the records it can't read", sub)); }
    Ok(true)
}

/// A count holds for all of the input, or is refused for several files.
fn counted(c: &mut Case, all: usize, files: Vec<String>) -> Outcome {
    let n = c.rng.below(4) as usize;
    let args = vec!["--count".to_string(), n.to_string()];
    c.note(format!("barc cat {:?} {:?}", args, files));
    let o = command(c, "cat", &args, &files)?;
    if o.status.success() {
        let got = o.stdout.windows(12).filter(|w| w == b"====== file ").count();
        if got > n { return Err(format!("{} records printed, count is {}", got, n)); }
    }
    Ok(all > n)
}

fn rule(p: &Plain, min: u64) -> bool {
    let hl = |h: &[(String, Vec<u8>)]| h.iter().map(|(k, v)| (k.len() + v.len() + 4) as u64).sum::<u64>();
    let ok = |h: &[(String, Vec<u8>)]| h.iter().find(|x| x.0 == "content-type")
        .map_or(false, |x| x.1.starts_with(b"text/") || x.1.starts_with(b"application/json"));
    let (mut have, mut need) = (0, min);
    let l = p.res_b.len() as u64;
    need += l / 2; // never marked identity here
    let l = p.req_b.len() as u64;
    if ok(&p.req_h) { have += l } else { need += l / 2 }
    have + hl(&p.res_h) + hl(&p.req_h) + hl(&p.meta) >= need
}

fn command(c: &Case, sub: &str, args: &[String], files: &[String]) -> Result<Output, String> {
    // With `cp`, options with values directly before the file names are the
    // known finding "cp-option-order".
    let (a, b) = if sub == "cp" { (files, args) } else { (args, files) };
    Command::new(c.barc).arg(sub).args(a).args(b).current_dir(c.dir)
        .env_remove("RUST_LOG").output().map_err(|e| format!("setup: run {:?}: {}", c.barc, e))
}

fn run(c: &Case, sub: &str, args: &[String], files: &[String]) -> Result<Vec<u8>, String> {
    let o = command(c, sub, args, files)?;
    if !o.status.success() {
        return Err(format!("barc {} failed ({}): {}", sub, o.status, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(o.stdout)
}
