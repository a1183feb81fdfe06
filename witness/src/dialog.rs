//! C12.

use std::convert::TryFrom;

use barc::{
    hname_meta_method, hname_meta_res_decoded, hname_meta_res_status, hname_meta_res_version,
    hname_meta_url, BarcFile, DialogConvertError, MetaRecorded, NoCompressStrategy, Record,
};
use body_image::{Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded, Tunables};
use http::header::HeaderValue;

use crate::barcs::{entries, headers};
use crate::body::{bytes_of, diff, image, show};
use crate::{Case, Outcome};

const VERSIONS: [http::Version; 5] = [http::Version::HTTP_09, http::Version::HTTP_10, http::Version::HTTP_11,
                                      http::Version::HTTP_2, http::Version::HTTP_3];
const ENCODINGS: [Encoding; 6] = [Encoding::Chunked, Encoding::Deflate, Encoding::Gzip, Encoding::Brotli,
                                  Encoding::Compress, Encoding::Identity];

fn text(c: &mut Case, from: &[u8], max: u64) -> String {
    let n = c.rng.below(max + 1);
    (0..n).map(|_| *c.rng.pick(from) as char).collect()
}

/// A method name, possibly one of a single or of many letters.
pub fn token(c: &mut Case) -> String {
    let s = text(c, b"ABCXYZabcxyz0189!#$%&'*+-.^_|~", 24);
    if http::Method::from_bytes(s.as_bytes()).is_err() { "m".into() } else { s }
}

/// An absolute, origin, authority or asterisk form request target.
pub fn url(c: &mut Case) -> String {
    let path = |c: &mut Case| {
        let mut s = format!("/{}", text(c, b"abz019-._~!$&'()*+,;=:@/", 12));
        if c.rng.chance(1, 4) { s.push_str("%20%c3%A9"); }
        if c.rng.chance(1, 2) { s.push('?'); s.push_str(&text(c, b"abz019-._~!$&'()*+,;=:@/?", 12)); }
        s
    };
    let authority = |c: &mut Case| {
        let user = *c.rng.pick(&["", "", "u@", "u:p@"]);
        let host = *c.rng.pick(&["a.org", "Example.COM", "127.0.0.1", "[::1]", "h"]);
        let port = *c.rng.pick(&["", "", ":80", ":443", ":8080", ":65535"]);
        format!("{}{}{}", user, host, port)
    };
    let s = match c.rng.below(8) {
        0 => "*".into(),
        1 => authority(c),
        2 | 3 => path(c),
        4 => format!("{}://{}", c.rng.pick(&["http", "https"]), authority(c)),
        5 => format!("{}://{}?{}", c.rng.pick(&["http", "https"]), authority(c), text(c, b"ab=&1", 8)),
        _ => { let sc = *c.rng.pick(&["http", "https", "HTTP", "ftp", "coap+ws"]); format!("{}://{}{}", sc, authority(c), path(c)) }
    };
    // only texts that are a request target, and are so again in their text form
    match s.parse::<http::Uri>() {
        Ok(u) if u.to_string().parse::<http::Uri>().map_or(false, |v| v == u) => s,
        _ => "http://a.org/".into(),
    }
}

pub fn c12(c: &mut Case) -> Outcome {
    let url = url(c);
    let url = url.as_str();
    let method = if c.rng.chance(1, 4) { token(c) } else {
        c.rng.pick(&["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "CONNECT", "PATCH", "TRACE", "PURGE", "x-y!"]).to_string()
    };
    let method = method.as_str();
    let version = *c.rng.pick(&VERSIONS);
    let status = if c.rng.chance(1, 4) { c.rng.range(100, 999) as u16 } else {
        *c.rng.pick(&[100u16, 200, 204, 206, 301, 304, 404, 418, 500, 503, 599, 299, 777, 999])
    };
    let n = c.rng.below(8);
    let decoded: Vec<Encoding> = (0..n).map(|_| *c.rng.pick(&ENCODINGS)).collect();
    let (req_h, res_h) = (headers(c, false), headers(c, false));
    let (req_b, res_b) = (c.rng.blob(3000), c.rng.blob(3000));
    c.note(format!("{} {} {:?} {} decoded {:?}, {}/{} headers, bodies {} / {}", method, url, version, status, decoded,
                   req_h.len(), res_h.len(), show(&req_b), show(&res_b)));
    let d = Dialog::new(
        Prolog {
            method: http::Method::from_bytes(method.as_bytes()).unwrap(),
            url: url.parse().map_err(|_| "setup: url".to_string())?,
            req_headers: req_h.clone(),
            req_body: image(c, &req_b)?,
        },
        Epilog {
            version,
            status: http::StatusCode::from_u16(status).unwrap(),
            res_decoded: decoded.clone(),
            res_headers: res_h.clone(),
            res_body: image(c, &res_b)?,
        },
    );
    let mut rec = Record::try_from(d).map_err(|e| format!("dialog rejected: {}", e))?;
    if c.rng.chance(1, 4) {
        c.note("through an archive");
        let f = BarcFile::new(c.dir.join("a.barc"));
        f.writer().and_then(|mut w| w.write(&rec, &NoCompressStrategy::default())).map_err(|e| format!("write: {}", e))?;
        rec = f.reader().and_then(|mut r| r.read(&Tunables::new())).map_err(|e| format!("read: {}", e))?
            .ok_or("no record")?;
    }
    if c.rng.chance(1, 2) {
        return malformed(c, rec, (method, url, version, status, &decoded));
    }
    let d = Dialog::try_from(rec).map_err(|e| format!("record rejected: {}", e))?;
    let want_url: http::Uri = url.parse().unwrap();
    if d.method().as_str() != method { return Err(format!("method {}", d.method())); }
    if d.url() != &want_url || d.url().to_string() != want_url.to_string() { return Err(format!("URL {}", d.url())); }
    if d.res_version() != version { return Err(format!("version {:?}", d.res_version())); }
    if d.res_status().as_u16() != status { return Err(format!("status {}", d.res_status())); }
    if d.res_decoded() != &decoded { return Err(format!("decoded list {:?}", d.res_decoded())); }
    if entries(d.req_headers()) != entries(&req_h) { return Err(format!("request headers {:?}", d.req_headers())); }
    if entries(d.res_headers()) != entries(&res_h) { return Err(format!("response headers {:?}", d.res_headers())); }
    diff("request body", &bytes_of(d.req_body())?, &req_b)?;
    diff("response body", &bytes_of(d.res_body())?, &res_b)?;
    Ok(true)
}

fn malformed(c: &mut Case, mut rec: Record, was: (&str, &str, http::Version, u16, &[Encoding])) -> Outcome {
    let hv = |b: &[u8]| HeaderValue::from_bytes(b).unwrap();
    let k = c.rng.below(9);
    let bad: Vec<u8> = match k {
        0..=3 => vec![],
        4 => c.rng.pick(&[&b"not a url"[..], b"", b"http://a b/", b"http://"]).to_vec(),
        5 => c.rng.pick(&[&b"G ET"[..], b"", b"a/b", b"\xe9"]).to_vec(),
        6 => c.rng.pick(&[&b"HTTP/1.2"[..], b"HTTP/2", b"http/1.1", b"", b"HTTP/1.10", b"HTTP/1.1x", b"1.1", b"HTTP/3", b"HTTP/0.8"]).to_vec(),
        7 => c.rng.pick(&[&b"20"[..], b"", b"abc", b"2x0", b" 200", b"099", b"-20", b"2"]).to_vec(),
        _ => c.rng.pick(&[&b"gzip, foo"[..], b"gzip,,br", b"", b"GZIP?", b"br;q=1", b"\xe9", b"gzip br", b","]).to_vec(),
    };
    let name = match k { 0 | 4 => hname_meta_url(), 1 | 5 => hname_meta_method(), 2 | 6 => hname_meta_res_version(),
                         3 | 7 => hname_meta_res_status(), _ => hname_meta_res_decoded() };
    if k < 4 { rec.meta.remove(&name); c.note(format!("{} removed", name)); }
    else { rec.meta.insert(&name, hv(&bad)); c.note(format!("{} set to {:?}", name, String::from_utf8_lossy(&bad))); }
    let _ = rec.meta();
    use DialogConvertError::*;
    match (k, Dialog::try_from(rec)) {
        (0, Err(NoMetaUrl)) | (1, Err(NoMetaMethod)) | (2, Err(NoMetaResVersion)) | (3, Err(NoMetaResStatus)) => (),
        (4, Err(InvalidUrl(_))) | (5, Err(InvalidMethod(_))) | (8, Err(InvalidResDecoded(_))) => (),
        (6, Err(InvalidVersion(v))) if v == bad => (),
        (7, Err(MalformedMetaResStatus)) | (7, Err(InvalidStatusCode(_))) => (),
        (_, Err(e)) => return Err(format!("rejected for the wrong item: {:?}", e)),
        (_, Ok(d)) => return Err(format!("converted to {} {} {:?} {} {:?}, original {:?}", d.method(), d.url(), d.res_version(), d.res_status(),
                                         d.res_decoded(), was)),
    }
    Ok(true)
}
