//! C01, C02, C04 and helpers on images.

use std::fs::File;
use std::io::{self, Read, Write};
use std::sync::Arc;

use body_image::{BodyError, BodyImage, BodySink, ExplodedImage, Tunables, Tuner};
use bytes::{Bytes, BytesMut};
use olio::fs::rc::ReadSlice;

use crate::fault::{self, Drain, Source};
use crate::{Case, Outcome, Rng};

pub fn show(b: &[u8]) -> String {
    let n = b.len().min(24);
    format!("{} bytes {:02x?}{}", b.len(), &b[..n], if n < b.len() { ".." } else { "" })
}

pub fn diff(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want { return Ok(()); }
    let at = got.iter().zip(want).position(|(a, b)| a != b)
        .unwrap_or_else(|| got.len().min(want.len()));
    Err(format!("{}: got {} bytes, want {} bytes, first difference at {} ({:?} / {:?})",
                what, got.len(), want.len(), at, got.get(at), want.get(at)))
}

pub fn bytes_of(img: &BodyImage) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut r = img.reader();
    r.read_to_end(&mut v).map_err(|e| format!("read image: {}", e))?;
    Ok(v)
}

pub fn tunables(c: &mut Case, max_ram: u64, max: u64) -> Tunables {
    let br = 1 + c.rng.size(9000);
    let bf = 1 + c.rng.size(70000);
    c.note(format!("tunables: max_body_ram {} max_body {} buffer_size_ram {} buffer_size_fs {}",
                   max_ram, max, br, bf));
    Tuner::new().set_max_body_ram(max_ram).set_max_body(max)
        .set_buffer_size_ram(br).set_buffer_size_fs(bf)
        .set_temp_dir(c.dir).finish()
}

fn check_sink(s: &BodySink, want: &[u8]) -> Result<(), String> {
    if s.len() != want.len() as u64 {
        return Err(format!("sink length {} but {} bytes were appended", s.len(), want.len()));
    }
    if s.is_empty() != want.is_empty() {
        return Err(format!("sink is_empty() {} with {} bytes", s.is_empty(), want.len()));
    }
    Ok(())
}

pub fn c01(c: &mut Case) -> Outcome {
    let mut want: Vec<u8> = vec![];
    let mut s = match c.rng.below(6) {
        0 => { c.note("BodySink::empty"); BodySink::empty() }
        1 => { let n = c.rng.size(20000) as u64; c.note(format!("with_ram({})", n)); BodySink::with_ram(n) }
        2 => { let n = c.rng.size(50); c.note(format!("with_ram_buffers({})", n)); BodySink::with_ram_buffers(n) }
        3 => { c.note("default"); BodySink::default() }
        _ => { c.note("with_fs"); BodySink::with_fs(c.dir).map_err(|e| format!("with_fs: {}", e))? }
    };
    check_sink(&s, &want)?;
    let n = 1 + c.rng.below(12);
    for _ in 0..n {
        let big = if c.rng.chance(1, 12) { 200_000 } else { 700 };
        match c.rng.below(10) {
            0..=2 => {
                let b = c.rng.blob(big);
                c.note(format!("push {}", show(&b)));
                s.push(Bytes::from(b.clone())).map_err(|e| format!("push: {}", e))?;
                want.extend(&b);
            }
            3 => {
                let b = c.rng.blob(big);
                c.note(format!("push Vec {}", show(&b)));
                s.push(b.clone()).map_err(|e| format!("push: {}", e))?;
                want.extend(&b);
            }
            4 => {
                let b = c.rng.blob(big);
                c.note(format!("push BytesMut {}", show(&b)));
                s.push(BytesMut::from(&b[..])).map_err(|e| format!("push: {}", e))?;
                want.extend(&b);
            }
            5..=6 => {
                let b = c.rng.blob(big);
                c.note(format!("write_all {}", show(&b)));
                s.write_all(&b).map_err(|e| format!("write_all: {}", e))?;
                want.extend(&b);
            }
            7 => {
                let bad = c.rng.below(5);
                if bad == 0 {
                    c.note("write_back to a missing directory");
                    let ram = s.is_ram();
                    let r = s.write_back(c.dir.join("missing")).map(|_| ());
                    if ram {
                        if r.is_ok() { return Err("write_back to a missing directory succeeded".into()); }
                        want.clear();
                        if !s.is_ram() { return Err("not in RAM after a failed write_back".into()); }
                    }
                } else if bad == 1 && s.is_ram() && want.len() > 1 {
                    let lim = c.rng.below(want.len() as u64);
                    c.note(format!("write_back with file size limit {}", lim));
                    fault::limit_file_size(Some(lim));
                    let r = s.write_back(c.dir).map(|_| ());
                    fault::limit_file_size(None);
                    if r.is_ok() { return Err("write_back past the file size limit succeeded".into()); }
                    want.clear();
                    if !s.is_ram() { return Err("not in RAM after a failed write_back".into()); }
                } else {
                    c.note("write_back");
                    s.write_back(c.dir).map_err(|e| format!("write_back: {}", e))?;
                    if s.is_ram() { return Err("still in RAM after write_back".into()); }
                }
            }
            8 => {
                let b = c.rng.blob(300);
                c.note(format!("save {}", show(&b)));
                #[allow(deprecated)]
                s.save(b.clone()).map_err(|e| format!("save: {}", e))?;
                want.extend(&b);
            }
            _ => {
                let b = c.rng.blob(40);
                let k = c.rng.below(30);
                c.note(format!("{} times write_all {}", k, show(&b)));
                for _ in 0..k {
                    s.write_all(&b).map_err(|e| format!("write_all: {}", e))?;
                    want.extend(&b);
                }
            }
        }
        check_sink(&s, &want)?;
    }
    let ram = s.is_ram();
    c.note("prepare");
    let img = s.prepare().map_err(|e| format!("prepare: {}", e))?;
    if img.len() != want.len() as u64 {
        return Err(format!("prepared length {}, {} bytes appended", img.len(), want.len()));
    }
    if want.is_empty() && !img.is_ram() { return Err("empty body prepared to a file image".into()); }
    if !want.is_empty() && img.is_ram() != ram { return Err("prepare changed the storage".into()); }
    diff("prepared image", &bytes_of(&img)?, &want)?;
    Ok(!want.is_empty())
}

pub fn kind_of(e: &BodyError) -> Option<io::ErrorKind> {
    match e { BodyError::Io(e) => Some(e.kind()), _ => None }
}

pub fn c02(c: &mut Case) -> Outcome {
    let big = *c.rng.pick(&[400u64, 9000, 40_000, 300_000]);
    // a few bodies and buffers beyond a megabyte
    let wide = c.rng.chance(1, 60);
    let data = if wide { let n = c.rng.range(1 << 20, 4 << 20); c.rng.bytes(n as usize) } else { c.rng.blob(big) };
    let mut src = Source::new(&mut c.rng, data.clone());
    if data.len() > 50_000 && src.chunk < 64 { src.chunk = 4000; }
    if wide { src.chunk = *c.rng.pick(&[100_000, 1 << 20, 3 << 20]); }
    if c.rng.chance(1, 3) {
        let at = c.rng.below(data.len() as u64 + 1) as usize;
        let kind = *c.rng.pick(&[io::ErrorKind::Other, io::ErrorKind::UnexpectedEof,
            io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe,
            io::ErrorKind::ConnectionReset]);
        src.fail_at = Some((at, kind));
    }
    let l = data.len() as u64;
    let max_ram = match c.rng.below(4) { 0 => 0, 1 => c.rng.below(l + 2), 2 => l, _ => 192 * 1024 };
    let max = max_ram.max(match c.rng.below(3) { 0 => l, 1 => l + c.rng.below(100), _ => 1 << 30 });
    let est = match c.rng.below(5) { 0 => 0, 1 => l, 2 => c.rng.below(2 * l + 2),
                                     3 => max_ram + 1, _ => c.rng.below(1 << 20) };
    c.note(format!("source {} chunk {} interrupts {}/8 fail {:?}; estimate {}",
                   show(&data), src.chunk, src.interrupts, src.fail_at, est));
    let mut t = tunables(c, max_ram, max);
    if wide {
        c.note("buffers of 2 MiB");
        t = Tuner::new().set_max_body_ram(max_ram).set_max_body(max).set_buffer_size_ram(2 << 20)
            .set_buffer_size_fs(2 << 20).set_temp_dir(c.dir).finish();
    }
    let r = BodyImage::read_from(&mut src, est, &t);
    match r {
        Ok(img) => {
            if src.failed { return Err(format!("source error {:?} was swallowed, image of {} bytes",
                                               src.fail_at, img.len())); }
            if src.fail_at.is_some() && !src.ended {
                return Err(format!("image of {} bytes without reading to the end", img.len()));
            }
            if img.len() != l { return Err(format!("image length {}, source delivered {}", img.len(), l)); }
            diff("image", &bytes_of(&img)?, &data)?;
        }
        Err(e) => {
            match src.fail_at {
                Some((_, k)) if src.failed => if kind_of(&e) != Some(k) {
                    return Err(format!("source error {:?} returned as {}", k, e));
                },
                _ => return Err(format!("failed without a source error: {}", e)),
            }
        }
    }
    Ok(l > 0)
}

/// An image over `data` in a random storage state.
pub fn image(c: &mut Case, data: &[u8]) -> Result<BodyImage, String> {
    let st = |e: io::Error| format!("setup: {}", e);
    let sb = |e: BodyError| format!("setup: {}", e);
    Ok(match c.rng.below(8) {
        0 => { c.note("image: from_slice"); BodyImage::from_slice(data.to_vec()) }
        1 | 2 => {
            c.note("image: RAM scattered");
            let mut s = BodySink::with_ram(data.len() as u64);
            let mut d = data;
            while !d.is_empty() {
                let n = 1 + c.rng.below(d.len() as u64) as usize;
                s.push(Bytes::copy_from_slice(&d[..n])).map_err(st)?;
                d = &d[n..];
            }
            s.prepare().map_err(sb)?
        }
        3 => {
            c.note("image: file sink");
            let mut s = BodySink::with_fs(c.dir).map_err(sb)?;
            s.write_all(data).map_err(st)?;
            s.prepare().map_err(sb)?
        }
        4 => {
            c.note("image: file sink, mapped");
            let mut s = BodySink::with_fs(c.dir).map_err(sb)?;
            s.write_all(data).map_err(st)?;
            let mut i = s.prepare().map_err(sb)?;
            i.mem_map().map_err(|e| format!("mem_map: {}", e))?;
            i
        }
        5 => {
            let extra = c.rng.size(200);
            c.note(format!("image: from_file with {} further bytes in the file", extra));
            let mut f = tempfile::tempfile_in(c.dir).map_err(st)?;
            f.write_all(data).map_err(st)?;
            let x = c.rng.bytes(extra);
            f.write_all(&x).map_err(st)?;
            from_file(f, data.len() as u64)
        }
        k => {
            let before = c.rng.size(6000);
            let after = c.rng.size(200);
            let mut f = tempfile::tempfile_in(c.dir).map_err(st)?;
            let x = c.rng.bytes(before);
            f.write_all(&x).map_err(st)?;
            f.write_all(data).map_err(st)?;
            let x = c.rng.bytes(after);
            f.write_all(&x).map_err(st)?;
            let mut rs = ReadSlice::new(Arc::new(f), before as u64, (before + data.len()) as u64);
            let skip = if c.rng.chance(1, 3) { c.rng.below(data.len() as u64 + 1) as usize } else { 0 };
            let mut junk = vec![0u8; skip];
            rs.read_exact(&mut junk).map_err(st)?;
            c.note(format!("image: read slice {}..+{} with {} after, already read {}",
                           before, data.len(), after, skip));
            let mut i = from_read_slice(rs);
            if k == 7 && !data.is_empty() {
                c.note("image: mapped");
                i.mem_map().map_err(|e| format!("mem_map: {}", e))?;
            }
            i
        }
    })
}

pub fn from_file(f: File, len: u64) -> BodyImage { unsafe { BodyImage::from_file(f, len) } }
pub fn from_read_slice(rs: ReadSlice) -> BodyImage { unsafe { BodyImage::from_read_slice(rs) } }

pub fn read_all(mut r: impl Read, chunk: usize) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    let mut b = vec![0u8; chunk];
    loop {
        match r.read(&mut b) {
            Ok(0) => return Ok(v),
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
            Err(e) => return Err(e),
        }
    }
}

fn same(c: &mut Case, img: &BodyImage, want: &[u8]) -> Result<(), String> {
    if img.len() != want.len() as u64 {
        return Err(format!("length {}, content {} bytes", img.len(), want.len()));
    }
    if img.is_empty() != want.is_empty() { return Err("is_empty() disagrees with the length".into()); }
    let ch = *c.rng.pick(&[1usize, 13, 4096, 100_000]);
    let ch = if want.len() > 20_000 { ch.max(64) } else { ch };
    let mut r = img.reader();
    let got = read_all(&mut r, ch).map_err(|e| format!("reader: {}", e))?;
    diff("reader", &got, want)?;
    let mut d = Drain::new(&mut c.rng);
    if d.chunk < 1000 && want.len() > 20_000 { d.chunk = 1000; }
    let n = img.write_to(&mut d).map_err(|e| format!("write_to: {}", e))?;
    if n != want.len() as u64 { return Err(format!("write_to reported {}, content {} bytes", n, want.len())); }
    diff("write_to", &d.got, want)?;
    if !want.is_empty() && c.rng.chance(1, 4) {
        let mut d = Drain::new(&mut c.rng);
        if d.chunk < 1000 && want.len() > 20_000 { d.chunk = 1000; }
        d.fail_at = Some(c.rng.below(want.len() as u64) as usize);
        if img.write_to(&mut d).is_ok() { return Err("write_to ignored a write error".into()); }
        if !want.starts_with(&d.got) { return Err("write_to wrote other bytes before the error".into()); }
    }
    Ok(())
}

pub fn exploded(img: BodyImage) -> Result<Vec<u8>, String> {
    Ok(match img.explode() {
        ExplodedImage::Ram(v) => v.iter().flat_map(|b| b.to_vec()).collect(),
        ExplodedImage::FsRead(rs) => read_all(rs, 5000).map_err(|e| format!("exploded read: {}", e))?,
        ExplodedImage::MemMap(m) => m.to_vec(),
    })
}

pub fn c04(c: &mut Case) -> Outcome {
    let big = *c.rng.pick(&[300u64, 9000, 80_000]);
    let data = c.rng.blob(big);
    c.note(format!("content {}", show(&data)));
    let mut imgs = vec![image(c, &data)?];
    same(c, &imgs[0], &data)?;
    for _ in 0..c.rng.below(5) {
        let i = c.rng.below(imgs.len() as u64) as usize;
        let ram = imgs[i].is_ram();
        match c.rng.below(4) {
            0 => { c.note("gather"); imgs[i].gather(); }
            1 => {
                c.note("mem_map");
                imgs[i].mem_map().map_err(|e| format!("mem_map: {}", e))?;
                if !ram && !imgs[i].is_mem_map() { return Err("mem_map did not map".into()); }
            }
            2 => { c.note("clone"); let k = imgs[i].clone(); imgs.push(k); }
            _ => { c.note("partial read");
                let mut r = imgs[i].reader();
                let mut b = vec![0u8; c.rng.size(100)];
                let n = match r.read(&mut b) {
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => 0,
                    r => r.map_err(|e| format!("reader: {}", e))?,
                };
                if !data.starts_with(&b[..n]) { return Err("reader: other bytes".into()); }
            }
        }
        if imgs[i].is_ram() != ram { return Err("storage changed".into()); }
        let im = imgs[i].clone();
        same(c, &imgs[i], &data)?;
        drop(im);
    }
    for im in imgs {
        same(c, &im, &data)?;
        if c.rng.chance(1, 5) {
            let d = fault::failing(&mut c.rng);
            c.note(format!("reads fail after {:?}", d.reads));
            fault::disturb(Some(d));
            let got = read_all(im.reader(), 500);
            let mut drain = Drain::new(&mut c.rng);
            drain.chunk = drain.chunk.max(1000);
            let n = im.write_to(&mut drain);
            fault::disturb(None);
            if let Ok(got) = got { diff("reader of a failing file", &got, &data)?; }
            if !data.starts_with(&drain.got) { return Err("write_to wrote other bytes from a failing file".into()); }
            if let Ok(n) = n {
                diff("write_to of a failing file", &drain.got, &data)?;
                if n != data.len() as u64 { return Err(format!("write_to reported {}", n)); }
            }
        }
        diff("explode", &exploded(im)?, &data)?;
    }
    Ok(!data.is_empty())
}

/// Limits on `read_from` (part of C03).
pub fn read_limits(c: &mut Case) -> Outcome {
    let l = match c.rng.below(3) { 0 => c.rng.below(30), 1 => c.rng.below(2000), _ => c.rng.below(150_000) };
    let data = c.rng.bytes(l as usize);
    let mut src = Source::new(&mut c.rng, data.clone());
    if l > 20_000 && src.chunk < 64 { src.chunk = 4000; }
    let near = |r: &mut Rng, l: u64| (l + r.below(5)).saturating_sub(r.below(5));
    let max = match c.rng.below(4) { 0 => near(&mut c.rng, l), 1 => l, 2 => c.rng.below(l + 1), _ => 1 << 30 };
    let max_ram = match c.rng.below(5) { 0 => 0, 1 => near(&mut c.rng, l), 2 => l, 3 => max, _ => 192 * 1024 }.min(max);
    let t = tunables(c, max_ram, max);
    let est = match c.rng.below(4) { 0 => 0, 1 => l, 2 => c.rng.below(2 * l + 2), _ => max_ram + 1 };
    c.note(format!("source {} chunk {} interrupts {}/8; estimate {}", show(&data), src.chunk, src.interrupts, est));
    let r = BodyImage::read_from(&mut src, est, &t);
    let buf = t.buffer_size_ram().max(t.buffer_size_fs()) as u64;
    if src.pos as u64 > max + buf {
        return Err(format!("source drained by {} with maximum {} and buffers of at most {}", src.pos, max, buf));
    }
    match r {
        Ok(img) => {
            if img.len() > max { return Err(format!("body of {} with maximum {}", img.len(), max)); }
            if img.is_ram() && img.len() > max_ram {
                return Err(format!("body of {} in RAM with RAM maximum {}", img.len(), max_ram));
            }
            let n = bytes_of(&img)?.len() as u64;
            if n > max { return Err(format!("body content of {} with maximum {}", n, max)); }
        }
        Err(BodyError::BodyTooLong(n)) => {
            if l <= max { return Err(format!("{} bytes within maximum {} rejected as too long ({})", l, max, n)); }
        }
        Err(e) => return Err(format!("unexpected error {}", e)),
    }
    Ok(true)
}
