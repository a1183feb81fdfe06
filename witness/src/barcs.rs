//! C05 - C11 and the decompression part of C03.

use std::cell::RefCell;
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};

use barc::{
    hname_meta_res_decoded, BarcError, BarcFile, BarcReader, BrotliCompressStrategy,
    CompressStrategy, Compression, EncodeWrapper, GzipCompressStrategy, MetaRecorded,
    NoCompressStrategy, Record, RecordType,
};
use body_image::{BodyError, BodyImage, Recorded, RequestRecorded, Tunables, Tuner};
use http::header::{HeaderMap, HeaderName, HeaderValue};

use crate::body::{bytes_of, diff, image, show};
use crate::{fault, Case, Outcome};

pub const HEAD: usize = 54;

/// What was written, kept apart from the library's own types.
#[derive(Clone)]
pub struct Plain {
    pub meta: Vec<(String, Vec<u8>)>,
    pub req_h: Vec<(String, Vec<u8>)>,
    pub res_h: Vec<(String, Vec<u8>)>,
    pub req_b: Vec<u8>,
    pub res_b: Vec<u8>,
}

pub fn entries(m: &HeaderMap) -> Vec<(String, Vec<u8>)> {
    m.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect()
}

fn value(c: &mut Case) -> Vec<u8> {
    let n = c.rng.size(120);
    let hi = c.rng.chance(1, 6);
    let mut v: Vec<u8> = (0..n).map(|_| {
        if hi && c.rng.chance(1, 4) { 0x80 + c.rng.below(0x80) as u8 } else { 0x20 + c.rng.below(0x5f) as u8 }
    }).collect();
    // white space around values is not part of them
    while v.last().map_or(false, |b| *b == b' ' || *b == b'\t') { v.pop(); }
    while v.first().map_or(false, |b| *b == b' ' || *b == b'\t') { v.remove(0); }
    v
}

pub fn headers(c: &mut Case, many: bool) -> HeaderMap {
    let mut m = HeaderMap::new();
    // of several thousand, or with values of many kilobytes, now and then
    let huge = many && c.rng.chance(1, 4);
    let long = !many && c.rng.chance(1, 16);
    let n = if huge { c.rng.range(300, 6000) } else if many { 100 + c.rng.below(200) } else { match c.rng.below(4) { 0 => 0, 1 => 1, _ => c.rng.below(12) } };
    for _ in 0..n {
        let name = match c.rng.below(4) {
            0 => "content-length".to_string(),
            1 => (*c.rng.pick(&["set-cookie", "x-a", "etag", "vary"])).to_string(),
            _ => format!("x-{}", c.rng.below(if huge { 8000 } else if many { 400 } else { 9 })),
        };
        let v = if huge { vec![b'a' + c.rng.below(26) as u8] }
                else if long { (0..c.rng.below(60_000)).map(|i| b'a' + (i % 23) as u8).collect() }
                else { value(c) };
        m.append(HeaderName::from_bytes(name.as_bytes()).unwrap(), HeaderValue::from_bytes(&v).unwrap());
    }
    m
}

pub fn record(c: &mut Case, big: u64) -> Result<(Record, Plain), String> {
    let which = if c.rng.chance(1, 12) { c.rng.below(3) } else { 9 };
    let (meta, mut req_headers, mut res_headers) =
        (headers(c, which == 0), headers(c, which == 1), headers(c, which == 2));
    for h in [&mut req_headers, &mut res_headers] {
        if c.rng.chance(1, 2) {
            let t = *c.rng.pick(&["text/html", "application/json", "image/png", "text/plain; charset=utf-8"]);
            h.insert(http::header::CONTENT_TYPE, HeaderValue::from_static(t));
        }
    }
    let (req_b, res_b) = (c.rng.blob(big), c.rng.blob(big));
    c.note(format!("record: {}/{}/{} headers, request body {}, response body {}", meta.len(),
                   req_headers.len(), res_headers.len(), show(&req_b), show(&res_b)));
    let p = Plain {
        meta: entries(&meta), req_h: entries(&req_headers), res_h: entries(&res_headers), req_b, res_b,
    };
    let (req_body, res_body) = (image(c, &p.req_b)?, image(c, &p.res_b)?);
    Ok((Record { rec_type: RecordType::Dialog, meta, req_headers, req_body, res_headers, res_body }, p))
}

pub fn same_record(r: &Record, p: &Plain) -> Result<(), String> {
    if r.rec_type != RecordType::Dialog { return Err(format!("record type {:?}", r.rec_type)); }
    for (n, got, want) in [("meta", &r.meta, &p.meta), ("request headers", &r.req_headers, &p.req_h),
                           ("response headers", &r.res_headers, &p.res_h)] {
        let got = entries(got);
        if &got != want {
            let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(want.len()));
            return Err(format!("{}: {} entries read, {} written, first difference at {}: {:?} / {:?}",
                               n, got.len(), want.len(), at, got.get(at), want.get(at)));
        }
    }
    for (n, b, want) in [("request body", &r.req_body, &p.req_b), ("response body", &r.res_body, &p.res_b)] {
        if b.len() != want.len() as u64 { return Err(format!("{}: len() {} of {} bytes", n, b.len(), want.len())); }
        diff(n, &bytes_of(b)?, want)?;
    }
    Ok(())
}

/// The bytes of a header block or body, as the format has them.
pub fn block(h: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (k, x) in h { v.extend(k.as_bytes()); v.extend(b": "); v.extend(x); v.extend(b"\r\n"); }
    if !v.is_empty() { v.extend(b"\r\n"); }
    v
}

fn body_block(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if !v.is_empty() { v.extend(b"\r\n"); }
    v
}

pub struct Head { pub len: u64, pub ty: u8, pub comp: u8, pub meta: u64, pub req_h: u64, pub req_b: u64, pub res_h: u64 }

/// Independent reading of a head: fixed columns.
pub fn head(b: &[u8]) -> Option<Head> {
    if b.len() < HEAD || &b[..6] != b"BARC2 " { return None; }
    let hex = |a: usize, z: usize| -> Option<u64> {
        let mut n = 0;
        for x in &b[a..z] {
            n = n * 16 + match x { b'0'..=b'9' => x - b'0', b'a'..=b'f' => x - b'a' + 10, _ => return None } as u64;
        }
        Some(n)
    };
    if !b"DR".contains(&b[19]) || !b"PZB".contains(&b[20]) { return None; }
    Some(Head { len: hex(6, 18)?, ty: b[19], comp: b[20], meta: hex(22, 27)?, req_h: hex(28, 33)?,
                req_b: hex(34, 44)?, res_h: hex(45, 50)? })
}

fn head_bytes(h: &Head) -> Vec<u8> {
    format!("BARC2 {:012x} {}{} {:05x} {:05x} {:010x} {:05x}\r\n\r\n", h.len, h.ty as char, h.comp as char,
            h.meta, h.req_h, h.req_b, h.res_h).into_bytes()
}

fn reader(p: &Path, at: u64) -> Result<BarcReader, String> {
    let mut r = BarcFile::new(p).reader().map_err(|e| format!("reader: {}", e))?;
    r.seek(at).map_err(|e| format!("seek: {}", e))?;
    Ok(r)
}

fn read_tune(c: &mut Case, max: u64) -> Tunables {
    let ram = match c.rng.below(4) { 0 => 0, 1 => c.rng.size(400) as u64, 2 => c.rng.size(5000) as u64, _ => max };
    let ram = ram.min(max);
    crate::body::tunables(c, ram, max)
}

const MAX: u64 = 8 << 20;

fn read_at(c: &mut Case, p: &Path, at: u64) -> Result<Record, String> {
    let t = read_tune(c, MAX);
    match reader(p, at)?.read(&t) {
        Ok(Some(r)) => Ok(r),
        Ok(None) => Err(format!("no record at offset {} where one was appended", at)),
        Err(e) => Err(format!("reading the record at {}: {}", at, e)),
    }
}

fn strategy(c: &mut Case, plain: bool) -> (Box<dyn CompressStrategy>, u8) {
    let min = match c.rng.below(3) { 0 => 0, 1 => c.rng.size(600) as u64, _ => c.rng.size(9000) as u64 };
    let idy = c.rng.chance(1, 3);
    let dflt = c.rng.chance(1, 5);
    match c.rng.below(if plain { 3 } else { 2 }) {
        0 => {
            let lev = c.rng.below(10) as u32;
            c.note(format!("strategy: gzip level {} min {} identity {} default {}", lev, min, idy, dflt));
            let s = GzipCompressStrategy::default();
            (Box::new(if dflt { s } else { s.set_min_len(min).set_compression_level(lev).set_check_identity(idy) }), b'Z')
        }
        1 => {
            let lev = c.rng.below(8) as u32;
            c.note(format!("strategy: brotli level {} min {} identity {} default {}", lev, min, idy, dflt));
            let s = BrotliCompressStrategy::default();
            (Box::new(if dflt { s } else { s.set_min_len(min).set_compression_level(lev).set_check_identity(idy) }), b'B')
        }
        _ => { c.note("strategy: none"); (Box::new(NoCompressStrategy::default()), b'P') }
    }
}

fn decoded(comp: u8, b: &[u8]) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    match comp {
        b'P' => v.extend(b),
        b'Z' => { flate2::read::GzDecoder::new(b).read_to_end(&mut v).map_err(|e| format!("gunzip: {}", e))?; }
        _ => { brotli::Decompressor::new(b, 4096).read_to_end(&mut v).map_err(|e| format!("brotli: {}", e))?; }
    }
    Ok(v)
}

/// The archive bytes of one record, judged without the library.
fn raw_record(file: &[u8], at: u64, p: &Plain, allowed: &[u8]) -> Result<u64, String> {
    let b = &file[at as usize..];
    let h = head(b).ok_or_else(|| format!("no well formed head at {}: {}", at, show(&b[..b.len().min(HEAD)])))?;
    if h.ty != b'D' { return Err(format!("record type flag {} at {}", h.ty as char, at)); }
    if !allowed.contains(&h.comp) { return Err(format!("compression flag {} at {}", h.comp as char, at)); }
    diff("head", &b[..HEAD], &head_bytes(&h))?;
    let blocks = [block(&p.meta), block(&p.req_h), body_block(&p.req_b), block(&p.res_h), body_block(&p.res_b)];
    for (n, got, want) in [("meta", h.meta, &blocks[0]), ("req_h", h.req_h, &blocks[1]), ("req_b", h.req_b, &blocks[2]),
                           ("res_h", h.res_h, &blocks[3])] {
        // inside a compressed payload blocks go without the extra line end
        let plain = want.len() as u64;
        let bare = plain.saturating_sub(2);
        let want = if h.comp == b'P' { plain } else { bare };
        if got != want { return Err(format!("head field {} is {}, block is {} bytes", n, got, want)); }
    }
    let end = HEAD + h.len as usize;
    if b.len() < end { return Err(format!("head length {} but only {} bytes follow", h.len, b.len() - HEAD)); }
    let mut want = vec![];
    for x in &blocks { want.extend(if h.comp == b'P' { &x[..] } else { &x[..x.len().saturating_sub(2)] }); }
    diff("payload", &decoded(h.comp, &b[HEAD..end])?, &want)?;
    Ok(at + end as u64)
}

// -- C05 -----------------------------------------------------------------

pub fn c05(c: &mut Case) -> Outcome {
    let p = c.dir.join("a.barc");
    let small = Tuner::new().set_temp_dir(c.dir).finish();
    match c.rng.below(4) {
        0 => {
            let (rec, plain) = record(c, 3000)?;
            let w = BarcFile::new(&p);
            let at = w.writer().and_then(|mut w| w.write(&rec, &NoCompressStrategy::default()))
                .map_err(|e| format!("write: {}", e))?;
            let b = fs::read(&p).map_err(|e| e.to_string())?;
            raw_record(&b, at, &plain, b"P")?;
        }
        1 => {
            // declared values observed through what is then read
            let lens = [c.rng.size(400), c.rng.size(400), c.rng.size(70_000), c.rng.size(400), c.rng.size(70_000)];
            let mk = |n: usize| -> Vec<u8> {
                if n == 0 { return vec![]; }
                let n = n.max(8);
                let mut v = b"x: ".to_vec();
                v.resize(n - 4, b'v');
                v.extend(b"\r\n\r\n");
                v
            };
            let bb = |c: &mut Case, n: usize| body_block(&c.rng.bytes(n));
            let blocks = [mk(lens[0]), mk(lens[1]), bb(c, lens[2]), mk(lens[3]), bb(c, lens[4])];
            let h = Head { len: blocks.iter().map(|b| b.len() as u64).sum(), ty: b'D', comp: b'P', meta: blocks[0].len() as u64,
                           req_h: blocks[1].len() as u64, req_b: blocks[2].len() as u64, res_h: blocks[3].len() as u64 };
            let mut f = head_bytes(&h);
            c.note(format!("head {:?} with fitting blocks", String::from_utf8_lossy(&f)));
            for b in &blocks { f.extend(b); }
            fs::write(&p, &f).map_err(|e| e.to_string())?;
            let r = match reader(&p, 0)?.read(&small) {
                Ok(Some(r)) => r,
                Ok(None) => return Err("a complete record was not returned".into()),
                Err(e) => return Err(format!("a well formed record was rejected: {}", e)),
            };
            for (n, hm, b) in [("meta", &r.meta, &blocks[0]), ("request headers", &r.req_headers, &blocks[1]),
                               ("response headers", &r.res_headers, &blocks[3])] {
                diff(n, &block(&entries(hm)), b)?;
            }
            diff("request body", &body_block(&bytes_of(&r.req_body)?), &blocks[2])?;
            diff("response body", &body_block(&bytes_of(&r.res_body)?), &blocks[4])?;
        }
        2 => {
            // cut short
            let h = Head { len: 0, ty: *c.rng.pick(b"DR"), comp: *c.rng.pick(b"PZB"), meta: 0, req_h: 0, req_b: 0, res_h: 0 };
            let n = c.rng.below(HEAD as u64) as usize;
            let b = head_bytes(&h);
            c.note(format!("first {} bytes of a head", n));
            fs::write(&p, &b[..n]).map_err(|e| e.to_string())?;
            match reader(&p, 0)?.read(&small) {
                Ok(None) if n == 0 => (),
                Err(BarcError::ReadIncompleteRecHead(m)) if n > 0 && m == n => (),
                Ok(r) => return Err(format!("{} bytes of a head gave {}", n, if r.is_some() { "a record" } else { "the end" })),
                Err(e) => return Err(format!("{} bytes of a head gave {}", n, e)),
            }
        }
        _ => {
            let h = Head { len: c.rng.size(70_000) as u64, ty: *c.rng.pick(b"DR"), comp: b'P', meta: c.rng.below(2) * 20, req_h: 0,
                           req_b: 0, res_h: 0 };
            let mut b = head_bytes(&h);
            let digits: Vec<usize> = (6..18).chain(22..27).chain(28..33).chain(34..44).chain(45..50).collect();
            let (at, x) = match c.rng.below(4) {
                0 => (c.rng.below(6) as usize, c.rng.next() as u8),
                1 => (19 + c.rng.below(2) as usize, c.rng.next() as u8),
                2 => (*c.rng.pick(&digits), *c.rng.pick(b"ABCDEFGgz+- _/:@`x\0\xff")),
                _ => (*c.rng.pick(&digits), c.rng.next() as u8),
            };
            b[at] = x;
            c.note(format!("head {:?}: byte {} set to {:#04x}", String::from_utf8_lossy(&b), at, x));
            let bad = head(&b).is_none();
            b.resize(HEAD + 200_000, b'x');
            fs::write(&p, &b).map_err(|e| e.to_string())?;
            match reader(&p, 0)?.read(&small) {
                Ok(r) if bad => return Err(format!("a malformed head was taken for {}",
                                                   if r.is_some() { "a record" } else { "a reserved head" })),
                _ => (),
            }
            if !bad { return Ok(false); }
        }
    }
    Ok(true)
}

// -- C06, C07 ------------------------------------------------------------

fn round(c: &mut Case, compressed: bool) -> Outcome {
    let p = c.dir.join("a.barc");
    let pre = if c.rng.chance(1, 3) { c.rng.blob(200) } else { vec![] };
    if !pre.is_empty() { fs::write(&p, &pre).map_err(|e| e.to_string())?; c.note(format!("earlier content: {} bytes", pre.len())); }
    let f = BarcFile::new(&p);
    let mut w = f.writer().map_err(|e| format!("writer: {}", e))?;
    let n = 1 + c.rng.below(3);
    let big = if c.rng.chance(1, 6) { 300_000 } else { 4000 };
    let mut done: Vec<(u64, Plain, Vec<u8>)> = vec![];
    for _ in 0..n {
        let (rec, plain) = record(c, big)?;
        let (s, flag): (Box<dyn CompressStrategy>, u8) =
            if compressed { strategy(c, false) } else { (Box::new(NoCompressStrategy::default()), b'P') };
        let at = w.write(&rec, s.as_ref()).map_err(|e| format!("write: {}", e))?;
        let allowed = if flag == b'P' { vec![b'P'] } else { vec![b'P', flag] };
        done.push((at, plain, allowed));
    }
    let file = fs::read(&p).map_err(|e| e.to_string())?;
    let mut next = pre.len() as u64;
    for (at, plain, allowed) in &done {
        if *at != next { return Err(format!("append returned offset {}, record starts at {}", at, next)); }
        next = raw_record(&file, *at, plain, allowed)?;
    }
    if next != file.len() as u64 { return Err(format!("{} bytes in the archive, records end at {}", file.len(), next)); }
    for (at, plain, _) in &done {
        for _ in 0..2 {
            let r = read_at(c, &p, *at)?;
            same_record(&r, plain)?;
        }
    }
    // and one after the other
    let t = read_tune(c, MAX);
    let mut r = reader(&p, pre.len() as u64)?;
    for (i, (_, plain, _)) in done.iter().enumerate() {
        let rec = r.read(&t).map_err(|e| format!("record {}: {}", i, e))?.ok_or_else(|| format!("record {} missing", i))?;
        same_record(&rec, plain)?;
    }
    Ok(true)
}

pub fn c06(c: &mut Case) -> Outcome { round(c, false) }
pub fn c07(c: &mut Case) -> Outcome { round(c, true) }

// -- C08 -----------------------------------------------------------------

/// A record whose accessors look at the archive while it is being written.
struct Watched<'a> { rec: &'a Record, path: PathBuf, before: &'a [u8], seen: RefCell<Option<String>> }

impl<'a> Watched<'a> {
    fn look(&self) {
        if let Err(e) = midway(&self.path, self.before, None) {
            self.seen.borrow_mut().get_or_insert(format!("during the append: {}", e));
        }
    }
}

/// Earlier bytes unchanged; what starts after them absent, incomplete,
/// reserved, or (with `done`) complete.
fn midway(path: &Path, before: &[u8], done: Option<&Plain>) -> Result<bool, String> {
    let now = fs::read(path).map_err(|e| e.to_string())?;
    if now.len() < before.len() { return Err(format!("archive shrank from {} to {}", before.len(), now.len())); }
    diff("earlier bytes", &now[..before.len()], before)?;
    let rest = &now[before.len()..];
    if rest.len() < HEAD { return Ok(false); }
    match head(rest) {
        Some(h) if h.ty == b'R' => Ok(false),
        Some(h) => {
            let end = HEAD as u64 + h.len;
            if (rest.len() as u64) < end {
                return Err(format!("head announces {} bytes, {} are there", h.len, rest.len() - HEAD));
            }
            match done {
                Some(p) => { raw_record(&now, before.len() as u64, p, b"PZB").map_err(|e| format!("partly written record seen as complete: {}", e))?; Ok(true) }
                None => Err("a record still being written has a final head".into()),
            }
        }
        None => Err(format!("neither head nor reserved head: {}", show(&rest[..HEAD]))),
    }
}

impl<'a> RequestRecorded for Watched<'a> {
    fn req_headers(&self) -> &HeaderMap { self.look(); self.rec.req_headers() }
    fn req_body(&self) -> &BodyImage { self.look(); self.rec.req_body() }
}
impl<'a> Recorded for Watched<'a> {
    fn res_headers(&self) -> &HeaderMap { self.look(); self.rec.res_headers() }
    fn res_body(&self) -> &BodyImage { self.look(); self.rec.res_body() }
}
impl<'a> MetaRecorded for Watched<'a> {
    fn rec_type(&self) -> RecordType { self.look(); self.rec.rec_type() }
    fn meta(&self) -> &HeaderMap { self.look(); self.rec.meta() }
}

struct Broken;
impl CompressStrategy for Broken {
    fn wrap_encoder<'a>(&self, _: &dyn MetaRecorded, _: &'a File) -> Result<EncodeWrapper<'a>, BarcError> {
        Err(BarcError::UnknownCompression(0))
    }
}

pub fn c08(c: &mut Case) -> Outcome {
    let p = c.dir.join("a.barc");
    let mut whole: Vec<(u64, Plain)> = vec![];
    if c.rng.chance(1, 4) {
        // an archive left behind by another process, maybe by a dead one
        for _ in 0..c.rng.below(3) {
            let (rec, plain) = record(c, 500)?;
            let (s, _) = strategy(c, true);
            let at = BarcFile::new(&p).writer().and_then(|mut w| w.write(&rec, s.as_ref())).map_err(|e| format!("write: {}", e))?;
            whole.push((at, plain));
        }
        if c.rng.chance(1, 2) {
            let mut rest = head_bytes(&Head { len: 0, ty: b'R', comp: b'P', meta: 0, req_h: 0, req_b: 0, res_h: 0 });
            rest.extend(b"some: payload\r\n");
            rest.truncate(c.rng.below(rest.len() as u64 + 1) as usize);
            c.note(format!("archive ends in {} bytes of an unfinished record", rest.len()));
            OpenOptions::new().create(true).append(true).open(&p).and_then(|mut f| f.write_all(&rest)).map_err(|e| e.to_string())?;
        }
    }
    let found = fs::read(&p).unwrap_or_default();
    let f = BarcFile::new(&p);
    let mut w = f.writer().map_err(|e| format!("writer: {}", e))?;
    if fs::read(&p).map_err(|e| e.to_string())? != found { return Err("opening the writer changed the archive".into()); }
    let n = 1 + c.rng.below(4);
    for _ in 0..n {
        let before = fs::read(&p).map_err(|e| e.to_string())?;
        if c.rng.chance(1, 3) {
            drop(w);
            w = f.writer().map_err(|e| format!("writer: {}", e))?;
        }
        let big = if c.rng.chance(1, 5) { 60_000 } else { 3000 };
        let (mut rec, mut plain) = record(c, big)?;
        if c.rng.chance(1, 6) {
            let s = b"text/html".to_vec();
            rec.res_headers.insert("content-type", HeaderValue::from_bytes(&s).unwrap());
            plain.res_h = entries(&rec.res_headers);
        }
        let broken_body = c.rng.chance(1, 10);
        let mut cut_file = None;
        if broken_body && plain.res_b.len() > 1 {
            // response body file cut under a mapped or file image
            let mut tf = tempfile::tempfile_in(c.dir).map_err(|e| e.to_string())?;
            tf.write_all(&plain.res_b).map_err(|e| e.to_string())?;
            cut_file = Some(tf.try_clone().map_err(|e| e.to_string())?);
            rec.res_body = crate::body::from_file(tf, plain.res_b.len() as u64);
        }
        if let Some(f) = cut_file {
            let l = c.rng.below(plain.res_b.len() as u64);
            f.set_len(l).map_err(|e| e.to_string())?;
            c.note(format!("response body file cut to {}", l));
            plain.res_b.truncate(l as usize);
        }
        let fault_kind = c.rng.below(5);
        let (s, _) = strategy(c, true);
        let broken = Broken;
        let s: &dyn CompressStrategy = if fault_kind == 4 && c.rng.chance(1, 2) { c.note("failing strategy"); &broken } else { s.as_ref() };
        if fault_kind < 3 {
            let l = before.len() as u64 + match c.rng.below(4) {
                0 => c.rng.below(HEAD as u64 + 2), 1 => HEAD as u64 + c.rng.below(200), 2 => HEAD as u64 + c.rng.below(4000), _ => c.rng.below(big * 2) };
            c.note(format!("file size limited to {} ({} more)", l, l - before.len() as u64));
            fault::limit_file_size(Some(l.max(1)));
        }
        let watched = Watched { rec: &rec, path: p.clone(), before: &before, seen: RefCell::new(None) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.write(&watched, s)));
        fault::limit_file_size(None);
        // a body that turned out shorter than its image says
        let died = r.is_err();
        let r = r.unwrap_or(Err(BarcError::UnknownCompression(0)));
        if let Some(e) = watched.seen.borrow_mut().take() { return Err(e); }
        let complete = midway(&p, &before, Some(&plain))?;
        match r {
            Ok(at) => {
                if at != before.len() as u64 { return Err(format!("append returned {} at archive length {}", at, before.len())); }
                if !complete { return Err("append succeeded but no complete record is there".into()); }
                if broken_body { c.note("(went through)"); }
                whole.push((at, plain));
            }
            Err(e) => c.note(format!("append failed: {}", e)),
        }
        if died && !broken_body { return Err("the append panicked".into()); }
        for (at, plain) in &whole {
            let r = read_at(c, &p, *at)?;
            same_record(&r, plain)?;
        }
        // nothing invented by reading on from the start
        let t = read_tune(c, MAX);
        let mut r = reader(&p, 0)?;
        let mut i = 0;
        loop {
            let at = r.offset();
            match r.read(&t) {
                Ok(Some(rec)) => {
                    match whole.get(i) {
                        Some((o, p)) if *o == at => same_record(&rec, p)?,
                        _ => return Err(format!("a record was read at {} where none was completed", at)),
                    }
                    i += 1;
                }
                Ok(None) | Err(_) => break,
            }
        }
        if died { break; }
    }
    Ok(true)
}

// -- C09 -----------------------------------------------------------------

pub fn c09(c: &mut Case) -> Outcome {
    let p = c.dir.join("a.barc");
    let f = BarcFile::new(&p);
    let mut w = f.writer().map_err(|e| format!("writer: {}", e))?;
    let mut recs: Vec<(u64, Plain)> = vec![];
    let mut r = f.reader().map_err(|e| format!("reader: {}", e))?;
    let mut at = 0usize; // the record the reader is positioned at
    let steps = 2 + c.rng.below(8);
    let offset_of = |recs: &Vec<(u64, Plain)>, i: usize, end: u64| recs.get(i).map(|x| x.0).unwrap_or(end);
    for _ in 0..steps {
        let end = fs::metadata(&p).map_err(|e| e.to_string())?.len();
        match c.rng.below(8) {
            0 | 1 => {
                let (rec, plain) = { let big = if c.rng.chance(1, 6) { 60_000 } else { 1000 }; record(c, big) }?;
                let (s, _) = strategy(c, true);
                let o = w.write(&rec, s.as_ref()).map_err(|e| format!("write: {}", e))?;
                if o != end { return Err(format!("record appended at {} of {}", o, end)); }
                recs.push((o, plain));
            }
            2 if !recs.is_empty() => {
                let i = c.rng.below(recs.len() as u64 + 1) as usize;
                let o = offset_of(&recs, i, end);
                c.note(format!("seek to record {} at {}", i, o));
                r.seek(o).map_err(|e| format!("seek: {}", e))?;
                if r.offset() != o { return Err(format!("offset() {} after seek to {}", r.offset(), o)); }
                at = i;
            }
            3 => {
                // a record still being written: reserved head, maybe payload
                c.note("reserved head at the end, read, then completed");
                let (rec, plain) = record(c, 1000)?;
                let tmp = c.dir.join("b.barc");
                let _ = fs::remove_file(&tmp);
                let (s, _) = strategy(c, true);
                BarcFile::new(&tmp).writer().and_then(|mut w| w.write(&rec, s.as_ref())).map_err(|e| format!("write: {}", e))?;
                let done = fs::read(&tmp).map_err(|e| e.to_string())?;
                let mut part = head_bytes(&Head { len: 0, ty: b'R', comp: b'P', meta: 0, req_h: 0, req_b: 0, res_h: 0 });
                if c.rng.chance(1, 4) {
                    // reserved by a writer that knows the lengths already
                    part = done[..HEAD].to_vec();
                    part[19] = b'R';
                }
                let upto = c.rng.range(HEAD as u64, done.len() as u64) as usize;
                part.extend(&done[HEAD..upto]);
                let mut af = OpenOptions::new().write(true).open(&p).map_err(|e| e.to_string())?;
                af.seek(SeekFrom::End(0)).and_then(|_| af.write_all(&part)).map_err(|e| e.to_string())?;
                r.seek(end).map_err(|e| format!("seek: {}", e))?;
                let t = read_tune(c, MAX);
                for _ in 0..2 {
                    match r.read(&t) {
                        Ok(None) => (),
                        Ok(Some(_)) => return Err("a record still being written was returned".into()),
                        Err(e) => return Err(format!("a record still being written gave: {}", e)),
                    }
                    if r.offset() != end { return Err(format!("offset() {} after a reserved head at {}", r.offset(), end)); }
                }
                af.seek(SeekFrom::Start(end)).and_then(|_| af.write_all(&done)).map_err(|e| e.to_string())?;
                recs.push((end, plain));
                at = recs.len() - 1;
            }
            _ => {
                let t = read_tune(c, MAX);
                let o = offset_of(&recs, at, end);
                if r.offset() != o { return Err(format!("reader at {} where record {} starts at {}", r.offset(), at, o)); }
                c.note(format!("read record {}", at));
                match r.read(&t).map_err(|e| format!("read: {}", e))? {
                    Some(rec) => {
                        let (_, plain) = recs.get(at).ok_or_else(|| "a record past the end".to_string())?;
                        same_record(&rec, plain)?;
                        at += 1;
                        let o = offset_of(&recs, at, end);
                        if r.offset() != o { return Err(format!("reader at {} after a record, next starts at {}", r.offset(), o)); }
                    }
                    None => {
                        if at < recs.len() { return Err(format!("end reported at record {} of {}", at, recs.len())); }
                        if r.offset() != o { return Err(format!("reader at {} after the end at {}", r.offset(), o)); }
                    }
                }
            }
        }
    }
    // a full pass
    let t = read_tune(c, MAX);
    let mut r = f.reader().map_err(|e| format!("reader: {}", e))?;
    for (i, (o, plain)) in recs.iter().enumerate() {
        if r.offset() != *o { return Err(format!("record {} at {}, reader at {}", i, o, r.offset())); }
        let rec = r.read(&t).map_err(|e| format!("read: {}", e))?.ok_or_else(|| format!("end at record {} of {}", i, recs.len()))?;
        same_record(&rec, plain)?;
    }
    let end = fs::metadata(&p).map_err(|e| e.to_string())?.len();
    for _ in 0..2 {
        if r.read(&t).map_err(|e| format!("read at end: {}", e))?.is_some() { return Err("a record past the end".into()); }
        if r.offset() != end { return Err(format!("reader at {} after the end at {}", r.offset(), end)); }
    }
    Ok(!recs.is_empty())
}

// -- C10 -----------------------------------------------------------------

/// Header entries of a block in the strict form the writer uses.
fn strict_block(b: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    if b.is_empty() { return Some(vec![]); }
    let mut v = vec![];
    let s = b.strip_suffix(b"\r\n")?;
    let mut rest = s;
    while !rest.is_empty() {
        let e = rest.windows(2).position(|w| w == b"\r\n")?;
        let line = &rest[..e];
        rest = &rest[e + 2..];
        let k = line.windows(2).position(|w| w == b": ")?;
        let (name, val) = (&line[..k], &line[k + 2..]);
        if name.is_empty() || !name.iter().all(|x| x.is_ascii_lowercase() || x.is_ascii_digit() || *x == b'-') { return None; }
        if val.iter().any(|x| *x < 0x20 || *x == 0x7f) { return None; }
        if val.first() == Some(&b' ') || val.last() == Some(&b' ') { return None; }
        v.push((String::from_utf8(name.to_vec()).ok()?, val.to_vec()));
    }
    Some(v)
}

fn ordered(mut v: Vec<(String, Vec<u8>)>) -> Vec<(String, Vec<u8>)> { v.sort(); v }

/// A returned record against what its head declares.
fn declared(file: &[u8], at: u64, r: &Record, next: u64) -> Result<(), String> {
    let b = file.get(at as usize..).ok_or("record past the end of the file")?;
    let h = head(b).ok_or("record with a malformed head")?;
    if h.ty == b'R' { return Err("record with a reserved head".into()); }
    if (b.len() - HEAD) as u64 >= h.len { } else { return Err(format!("length {} declared, {} bytes in the file, yet a record", h.len, b.len() - HEAD)); }
    let pay = &b[HEAD..HEAD + h.len as usize];
    if next != at + HEAD as u64 + h.len { return Err(format!("reader at {} after the record at {} of length {}", next, at, h.len)); }
    let data = match decoded(h.comp, pay) { Ok(d) => d, Err(e) => return Err(format!("record from an undecodable payload ({})", e)) };
    let sizes = [h.meta, h.req_h, h.req_b, h.res_h];
    if sizes.iter().sum::<u64>() > data.len() as u64 {
        return Err(format!("blocks of {} declared within {} bytes, yet a record", sizes.iter().sum::<u64>(), data.len()));
    }
    let mut parts = vec![];
    let mut o = 0;
    for s in sizes { parts.push(&data[o..o + s as usize]); o += s as usize; }
    parts.push(&data[o..]);
    let plain = h.comp == b'P';
    for (n, m, b) in [("meta", &r.meta, parts[0]), ("request headers", &r.req_headers, parts[1]), ("response headers", &r.res_headers, parts[3])] {
        let full = if plain || b.is_empty() { b.to_vec() } else { [b, b"\r\n"].concat() };
        if let Some(want) = strict_block(&full) {
            if ordered(entries(m)) != ordered(want.clone()) {
                return Err(format!("{}: {:?} from block {:?}", n, entries(m), want));
            }
        }
    }
    for (n, i, b) in [("request body", &r.req_body, parts[2]), ("response body", &r.res_body, parts[4])] {
        let want = if plain { &b[..b.len().saturating_sub(2)] } else { b };
        if i.len() != want.len() as u64 { return Err(format!("{}: {} bytes from a block of {}", n, i.len(), b.len())); }
        diff(n, &bytes_of(i)?, want)?;
    }
    Ok(())
}

pub fn c10(c: &mut Case) -> Outcome {
    let p = c.dir.join("a.barc");
    let f = BarcFile::new(&p);
    let mut starts = vec![];
    {
        let mut w = f.writer().map_err(|e| format!("writer: {}", e))?;
        for _ in 0..1 + c.rng.below(3) {
            let (rec, _) = { let big = if c.rng.chance(1, 8) { 30_000 } else { 400 }; record(c, big) }?;
            let (s, _) = strategy(c, true);
            starts.push(w.write(&rec, s.as_ref()).map_err(|e| format!("write: {}", e))? as usize);
        }
    }
    let mut b = fs::read(&p).map_err(|e| e.to_string())?;
    let start = *c.rng.pick(&starts);
    for _ in 0..1 + c.rng.below(3) {
        match c.rng.below(8) {
            0 => { let n = c.rng.below(b.len() as u64 + 1) as usize; c.note(format!("cut to {} of {}", n, b.len())); b.truncate(n); }
            1 => if !b.is_empty() {
                let i = c.rng.below(b.len() as u64) as usize;
                b[i] = c.rng.next() as u8; c.note(format!("byte {} set to {:#04x}", i, b[i]));
            },
            2 => {
                let i = c.rng.below(b.len() as u64 + 1) as usize;
                let x = c.rng.blob(100); c.note(format!("{} inserted at {}", show(&x), i));
                b.splice(i..i, x);
            }
            3 => { let n = c.rng.size(300); b = c.rng.bytes(n); c.note("arbitrary content"); }
            k => {
                if b.len() < start + HEAD { continue; }
                let mut h = match head(&b[start..]) { Some(h) => h, None => continue };
                let room = (b.len() - start - HEAD) as u64;
                let val = |c: &mut Case, old: u64, max: u64| -> u64 {
                    match c.rng.below(7) {
                        0 => max, 1 => 0, 2 => old.saturating_sub(1 + c.rng.below(4)), 3 => (old + 1 + c.rng.below(4)).min(max),
                        4 => c.rng.below(6), 5 => room.min(max), _ => c.rng.below(max + 1) }
                };
                match c.rng.below(7) {
                    0 => h.len = val(c, h.len, (1 << 48) - 1),
                    1 => h.meta = val(c, h.meta, 0xfffff),
                    2 => h.req_h = val(c, h.req_h, 0xfffff),
                    3 => h.req_b = val(c, h.req_b, (1 << 40) - 1),
                    4 => h.res_h = val(c, h.res_h, 0xfffff),
                    5 => h.comp = *c.rng.pick(b"PZBx"),
                    _ => { h.meta = c.rng.below(30); h.req_h = c.rng.below(30); h.req_b = c.rng.below(30); h.res_h = c.rng.below(30); if k == 7 { h.len = c.rng.below(100); } }
                }
                let hb = head_bytes(&h);
                c.note(format!("head at {}: {:?}", start, String::from_utf8_lossy(&hb[..50])));
                if hb.len() != HEAD { return Ok(false); }
                b.splice(start..start + HEAD, hb);
            }
        }
    }
    fs::write(&p, &b).map_err(|e| e.to_string())?;
    let max = *c.rng.pick(&[MAX, 100_000]);
    let t = read_tune(c, max);
    for s in [0, start] {
        let mut r = reader(&p, s as u64)?;
        for _ in 0..8 {
            let at = r.offset();
            match r.read(&t) {
                Ok(Some(rec)) => declared(&b, at, &rec, r.offset())?,
                Ok(None) => {
                    if r.offset() != at { return Err("moved on reporting the end".into()); }
                    let rest = b.len().saturating_sub(at as usize);
                    if rest > 0 && rest < HEAD { return Err("an incomplete head was reported as the end".into()); }
                    if rest >= HEAD && head(&b[at as usize..]).map_or(true, |h| h.ty != b'R') { return Err("end reported with a record there".into()); }
                    break;
                }
                Err(_) => break,
            }
        }
    }
    Ok(true)
}

// -- C11 -----------------------------------------------------------------

pub fn c11(c: &mut Case) -> Outcome {
    const TYPES: &[(&str, bool)] = &[
        ("text/html", true), ("text/plain; charset=utf-8", true), ("Text/CSS", true), ("application/json", true),
        ("application/javascript", true), ("application/xml", true), ("application/xhtml+xml", true), ("application/rss+xml", true),
        ("application/atom+xml", true), ("application/html", true), ("image/svg+xml", true), ("font/ttf", true), ("font/otf", true),
        ("image/png", false), ("application/octet-stream", false), ("video/mp4", false), ("audio/ogg", false), ("application/pdf", false),
        ("font/woff2", false), ("image/jpeg", false), ("application/zip", false), ("not a type", false), ("/", false), ("", false),
        ("text/html; charset=binary", true), ("text/x-unknown; a=b; c=\"d\"", true), ("application/json;q=0", true),
        ("application/x-font-ttf", true), ("application/x-font-truetype", true), ("application/x-font-opentype", true), ("font/opentype", true),
        ("application/wasm", false), ("application/x-javascript", false), ("image/svgz", false), ("image/bmp", false), ("font/woff", false),
        ("application/octet-stream; type=text/html", false), ("multipart/mixed; boundary=text/html", false), ("video/json", false),
    ];
    fn hlen(h: &HeaderMap) -> u64 { h.iter().map(|(k, v)| (k.as_str().len() + v.as_bytes().len() + 4) as u64).sum() }
    let (mut meta, mut req_headers, mut res_headers) = (headers(c, false), headers(c, false), headers(c, false));
    let ct = |c: &mut Case, h: &mut HeaderMap| -> bool {
        if c.rng.chance(1, 6) { return false; }
        let (t, ok) = *c.rng.pick(TYPES);
        h.insert(http::header::CONTENT_TYPE, HeaderValue::from_static(t));
        ok
    };
    let (req_ok, res_ok) = (ct(c, &mut req_headers), ct(c, &mut res_headers));
    let idy = match c.rng.below(6) {
        0 => { meta.insert(hname_meta_res_decoded(), HeaderValue::from_static("identity")); true }
        1 => { meta.insert(hname_meta_res_decoded(), HeaderValue::from_static("gzip, identity")); true }
        2 => { meta.insert(hname_meta_res_decoded(), HeaderValue::from_static("gzip")); false }
        3 => { meta.insert(hname_meta_res_decoded(), HeaderValue::from_static("chunked, identity")); true }
        _ => { meta.remove(hname_meta_res_decoded()); false }
    };
    let (req_b, res_b) = (c.rng.blob(5000), c.rng.blob(5000));
    let check = c.rng.chance(1, 2);
    // what the rule says
    let mut need = 0u64;
    let mut have = 0u64;
    if !res_b.is_empty() { if res_ok && (!check || idy) { have += res_b.len() as u64 } else { need += res_b.len() as u64 / 2 } }
    if !req_b.is_empty() { if req_ok { have += req_b.len() as u64 } else { need += req_b.len() as u64 / 2 } }
    let steps = [have, have + hlen(&res_headers), have + hlen(&res_headers) + hlen(&req_headers),
                 have + hlen(&res_headers) + hlen(&req_headers) + hlen(&meta)];
    // minimum around the interesting values
    let min = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.below(6000),
        _ => { let s = *c.rng.pick(&steps); (s + c.rng.below(4)).saturating_sub(need + 2) }
    };
    let want = steps[3] >= min + need;
    c.note(format!("minimum {} check identity {}: bodies {} + {} bytes (compressible {} {}, identity {}), headers {} {} {}",
                   min, check, res_b.len(), req_b.len(), res_ok, req_ok, idy, hlen(&res_headers), hlen(&req_headers), hlen(&meta)));
    let (req_body, res_body) = (image(c, &req_b)?, image(c, &res_b)?);
    let rec = Record { rec_type: RecordType::Dialog, meta, req_headers, req_body, res_headers, res_body };
    let gz = GzipCompressStrategy::default().set_min_len(min).set_check_identity(check);
    let br = BrotliCompressStrategy::default().set_min_len(min).set_check_identity(check).set_compression_level(2);
    let no = NoCompressStrategy::default();
    for (n, s, on, flag) in [("gzip", &gz as &dyn CompressStrategy, Compression::Gzip, b'Z'), ("brotli", &br, Compression::Brotli, b'B'),
                             ("none", &no, Compression::Plain, b'P')] {
        let want_mode = if want { on } else { Compression::Plain };
        let want_flag = if want { flag } else { b'P' };
        if n != "none" && s.is_compressible(&rec) != want { return Err(format!("{}: is_compressible() {}", n, !want)); }
        let f = tempfile::tempfile_in(c.dir).map_err(|e| e.to_string())?;
        let mode = s.wrap_encoder(&rec, &f).map_err(|e| format!("wrap_encoder: {}", e))?.mode();
        if mode != want_mode { return Err(format!("{}: mode {:?}, the rule says {:?}", n, mode, want_mode)); }
        // and what was applied
        let f = tempfile::tempfile_in(c.dir).map_err(|e| e.to_string())?;
        let mut e = s.wrap_encoder(&rec, &f).map_err(|e| format!("wrap_encoder: {}", e))?;
        let text = b"some text some text some text some text";
        e.write_all(text).map_err(|e| e.to_string())?;
        e.finish().map_err(|e| e.to_string())?;
        let (mut f, mut out) = (f, vec![]);
        f.seek(SeekFrom::Start(0)).and_then(|_| f.read_to_end(&mut out)).map_err(|e| e.to_string())?;
        diff(&format!("{}: output of mode {:?} decoded", n, mode), &decoded(want_flag, &out)?, text)?;
        if want_flag != b'P' && out.starts_with(text) { return Err(format!("{}: plain output under mode {:?}", n, mode)); }
    }
    // defaults of the two strategies
    Ok(true)
}

// -- C03 -----------------------------------------------------------------

pub fn decode_limits(c: &mut Case) -> Outcome {
    let p = c.dir.join("a.barc");
    let (rec, plain) = record(c, 60_000)?;
    let gz = GzipCompressStrategy::default().set_min_len(0).set_compression_level(1);
    let br = BrotliCompressStrategy::default().set_min_len(0).set_compression_level(1);
    let s: &dyn CompressStrategy = if c.rng.chance(1, 2) { c.note("gzip"); &gz } else { c.note("brotli"); &br };
    let at = BarcFile::new(&p).writer().and_then(|mut w| w.write(&rec, s)).map_err(|e| format!("write: {}", e))?;
    let file = fs::read(&p).map_err(|e| e.to_string())?;
    if head(&file[at as usize..]).map_or(true, |h| h.comp == b'P') { return Ok(false); }
    let (a, b) = (plain.req_b.len() as u64, plain.res_b.len() as u64);
    let near = *c.rng.pick(&[a, b, a.max(b), a.max(b) + 10]);
    let max = (near + c.rng.below(4)).saturating_sub(2);
    let ram = match c.rng.below(4) { 0 => 0, 1 => max, 2 => (max + 1).saturating_sub(c.rng.below(3)).min(max), _ => c.rng.below(max + 1) };
    let t = crate::body::tunables(c, ram, max);
    match reader(&p, at)?.read(&t) {
        Ok(Some(r)) => {
            for (n, i, want) in [("request body", &r.req_body, &plain.req_b), ("response body", &r.res_body, &plain.res_b)] {
                if i.len() > max { return Err(format!("{} of {} with maximum {}", n, i.len(), max)); }
                if want.len() as u64 > max { return Err(format!("{} of {} accepted with maximum {}", n, want.len(), max)); }
                if i.is_ram() && i.len() > ram { return Err(format!("{} of {} in RAM with RAM maximum {}", n, i.len(), ram)); }
            }
            same_record(&r, &plain)?;
        }
        Ok(None) => return Err("no record".into()),
        Err(BarcError::Body(BodyError::BodyTooLong(_))) => {
            if a <= max && b <= max { return Err(format!("bodies of {} and {} rejected with maximum {}", a, b, max)); }
        }
        Err(e) => return Err(format!("unexpected error {}", e)),
    }
    Ok(true)
}
