//! the ipfs client of banyan-utils, against a service of our own on the loopback device
use crate::engine::*;
use crate::model::*;
use crate::{check, check_eq, fail};
use banyan::store::{BlockWriter, BranchCache, ReadOnlyStore};
use banyan::{Forest, StreamBuilder, Transaction};
use banyan_utils::ipfs::{block_get, block_put, pubsub_pub, pubsub_sub, Base64Blob, IpfsStore};
use cid::Cid;
use futures::StreamExt;
use multihash::{Code, MultihashDigest};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub static PROPS: &[Prop] = &[Prop {
    id: "C29",
    rule: "the client talks to a scripted http service on localhost:5001 (of its own network namespace where the sandbox allows it) that stores blocks, answers with content-length, chunked (random chunk sizes) or close-delimited bodies, with error statuses and realistic error bodies, cuts replies short, or drops connections. 1/3: put/get histories against a model, 1/6: trees over the store with faults, 1/2: publish and subscribe with random topics, payloads, and chunks that split and merge events. Non-trivial: at least one reply that is not a plain success, or at least 3 events of which one is split or merged",
    run: c29,
    quick: 1600,
    thorough: 40000,
    threads: 8,
    regress: &[
        Regress { name: "error-body-as-block", f: r_error_body },
        Regress { name: "publish-refused", f: r_publish_refused },
        Regress { name: "split-event", f: r_split_event },
        Regress { name: "merged-events", f: r_merged_events },
        Regress { name: "subscribe-refused", f: r_subscribe_refused },
    ],
    assumptions: &["the service is an ipfs node: what it stores and reports with success is right"],
    level: "exploration",
}];

// ------------------------------------------------------------------------------------- service

#[derive(Clone, Debug)]
pub enum Frame {
    Length,
    Chunked(Vec<usize>),
    Close,
}

#[derive(Clone, Debug)]
pub enum Mode {
    Ok(Frame),
    /// status and body
    Status(u16, Vec<u8>, Frame),
    /// complete header, but not all of the body (in 1/1000)
    Cut(Frame, u64),
    /// nothing at all
    Drop,
}

impl Mode {
    fn ok(&self) -> bool {
        matches!(self, Mode::Ok(_))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    method: String,
    pub path: String,
    pub args: Vec<(String, Vec<u8>)>,
    file: Option<Vec<u8>>,
}

#[derive(Default)]
pub struct Svc {
    pub blocks: BTreeMap<String, Vec<u8>>,
    pub script: VecDeque<Mode>,
    pub seen: Vec<Seen>,
    /// body of the reply to a subscription
    pub feed: Vec<u8>,
    base58: bool,
    broken: Vec<String>,
}

pub type Shared = Arc<Mutex<Svc>>;

fn unescape(x: &str) -> Option<Vec<u8>> {
    let b = x.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
                out.push(u8::from_str_radix(h, 16).ok()?);
                i += 3;
            }
            b'+' => {
                out.push(b' ');
                i += 1;
            }
            c => {
                out.push(c);
                i += 1;
            }
        }
    }
    Some(out)
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

fn read_request(c: &mut TcpStream) -> Result<Seen, String> {
    let mut buf = vec![];
    let mut tmp = [0u8; 65536];
    let mut more = |buf: &mut Vec<u8>| -> Result<(), String> {
        match c.read(&mut tmp) {
            Ok(0) => Err("end of request".into()),
            Ok(n) => {
                buf.extend_from_slice(&tmp[..n]);
                Ok(())
            }
            Err(e) => Err(e.to_string()),
        }
    };
    let head = loop {
        if let Some(i) = find(&buf, b"\r\n\r\n") {
            break i;
        }
        more(&mut buf)?;
    };
    let text = String::from_utf8(buf[..head].to_vec()).map_err(|e| e.to_string())?;
    let mut body = buf[head + 4..].to_vec();
    let mut lines = text.split("\r\n");
    let mut first = lines.next().unwrap_or("").split(' ');
    let method = first.next().unwrap_or("").to_string();
    let target = first.next().unwrap_or("").to_string();
    let mut headers = BTreeMap::new();
    for l in lines {
        if let Some((k, v)) = l.split_once(':') {
            headers.insert(k.trim().to_lowercase(), v.trim().to_string());
        }
    }
    if let Some(n) = headers.get("content-length") {
        let n: usize = n.parse().map_err(|_| "content-length".to_string())?;
        while body.len() < n {
            more(&mut body)?;
        }
        body.truncate(n);
    } else if headers.get("transfer-encoding").map(|x| x.as_str()) == Some("chunked") {
        let mut out = vec![];
        loop {
            let i = loop {
                if let Some(i) = find(&body, b"\r\n") {
                    break i;
                }
                more(&mut body)?;
            };
            let n = usize::from_str_radix(std::str::from_utf8(&body[..i]).unwrap_or("x").trim(), 16).map_err(|_| "chunk")?;
            while body.len() < i + 2 + n + 2 {
                more(&mut body)?;
            }
            out.extend_from_slice(&body[i + 2..i + 2 + n]);
            body.drain(..i + 2 + n + 2);
            if n == 0 {
                break;
            }
        }
        body = out;
    } else {
        body.clear();
    }
    let (path, query) = target.split_once('?').unwrap_or((&target, ""));
    let mut args = vec![];
    for kv in query.split('&').filter(|x| !x.is_empty()) {
        let (k, v) = kv.split_once('=').unwrap_or((kv, ""));
        args.push((k.to_string(), unescape(v).ok_or("bad escape")?));
    }
    let mut file = None;
    if let Some(ct) = headers.get("content-type") {
        if let Some(b) = ct.split("boundary=").nth(1) {
            let b = b.trim_matches('"');
            let open = format!("--{}\r\n", b);
            let close = format!("\r\n--{}--", b);
            if !body.starts_with(open.as_bytes()) {
                return Err("multipart".into());
            }
            let i = find(&body, b"\r\n\r\n").ok_or("multipart header")? + 4;
            let j = body.windows(close.len()).rposition(|w| w == close.as_bytes()).ok_or("multipart end")?;
            if find(&body[i..j], open.as_bytes()).is_some() {
                return Err("more than one part".into());
            }
            file = Some(body[i..j].to_vec());
        }
    }
    Ok(Seen { method, path: path.to_string(), args, file })
}

fn codec_of(name: &str) -> Option<u64> {
    Some(match name {
        "cbor" => 0x71,
        "protobuf" => 0x70,
        "raw" => 0x55,
        _ => return None,
    })
}

fn cid_text(c: &Cid, base58: bool) -> String {
    if base58 {
        c.to_string_of_base(multibase_b58()).unwrap_or_else(|_| c.to_string())
    } else {
        c.to_string()
    }
}

fn multibase_b58() -> cid::multibase::Base {
    cid::multibase::Base::Base58Btc
}

/// body and whether that is an answer with success
fn answer(svc: &mut Svc, r: &Seen) -> Result<Vec<u8>, String> {
    let arg = |k: &str| r.args.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>();
    if r.method != "POST" {
        return Err("405 - Method Not Allowed".into());
    }
    match r.path.as_str() {
        "/api/v0/block/get" => {
            let a = arg("arg");
            if a.len() != 1 {
                return Err("argument \"cid\" is required".into());
            }
            let cid = Cid::try_from(String::from_utf8_lossy(&a[0]).as_ref()).map_err(|e| e.to_string())?;
            svc.blocks.get(&cid.to_string()).cloned().ok_or_else(|| "block was not found locally (offline)".into())
        }
        "/api/v0/block/put" => {
            let f = arg("format");
            let data = r.file.clone().ok_or("no file")?;
            let codec = f
                .first()
                .and_then(|f| codec_of(&String::from_utf8_lossy(f)))
                .ok_or_else(|| "unrecognized format".to_string())?;
            let cid = Cid::new_v1(codec, Code::Sha2_256.digest(&data));
            let text = cid_text(&cid, svc.base58);
            let n = data.len();
            svc.blocks.insert(cid.to_string(), data);
            Ok(format!("{{\"Key\":\"{}\",\"Size\":{}}}\n", text, n).into_bytes())
        }
        "/api/v0/pubsub/pub" => {
            if arg("arg").len() != 2 {
                return Err("argument \"data\" is required".into());
            }
            Ok(vec![])
        }
        "/api/v0/pubsub/sub" => {
            if arg("arg").len() != 1 {
                return Err("argument \"topic\" is required".into());
            }
            Ok(svc.feed.clone())
        }
        _ => Err("404 page not found".into()),
    }
}

fn send(c: &mut TcpStream, status: u16, body: &[u8], frame: &Frame, cut: Option<u64>) {
    let mut out = format!("HTTP/1.1 {} {}\r\nServer: go-ipfs/0.11.0\r\n", status, if status == 200 { "OK" } else { "Error" });
    out += match frame {
        Frame::Length => format!("Content-Length: {}\r\n", body.len()),
        Frame::Chunked(_) => "Transfer-Encoding: chunked\r\n".to_string(),
        Frame::Close => "Connection: close\r\n".to_string(),
    }
    .as_str();
    out += "Content-Type: application/json\r\n\r\n";
    let upto = match cut {
        Some(k) => (body.len() as u64 * k / 1000) as usize,
        None => body.len(),
    };
    let _ = c.set_nodelay(true);
    if c.write_all(out.as_bytes()).is_err() {
        return;
    }
    if let Frame::Chunked(sizes) = frame {
        let mut pos = 0;
        let mut i = 0;
        while pos < upto {
            let n = if sizes.is_empty() { upto } else { sizes[i % sizes.len()].max(1) };
            i += 1;
            let end = (pos + n).min(upto);
            let mut chunk = format!("{:x}\r\n", end - pos).into_bytes();
            chunk.extend_from_slice(&body[pos..end]);
            chunk.extend_from_slice(b"\r\n");
            if c.write_all(&chunk).is_err() {
                return;
            }
            pos = end;
        }
        if cut.is_none() {
            let _ = c.write_all(b"0\r\n\r\n");
        }
    } else {
        let _ = c.write_all(&body[..upto]);
    }
    let _ = c.flush();
    let _ = c.shutdown(std::net::Shutdown::Write);
    // until the client is done, so that nothing that is on its way is lost by a reset
    let _ = c.set_read_timeout(Some(Duration::from_secs(10)));
    let mut tmp = [0u8; 256];
    while matches!(c.read(&mut tmp), Ok(n) if n > 0) {}
}

fn error_body(msg: &str) -> Vec<u8> {
    format!("{{\"Message\":{},\"Code\":0,\"Type\":\"error\"}}\n", serde_json::to_string(msg).unwrap()).into_bytes()
}

fn serve(mut c: TcpStream, svc: &Shared) {
    let _ = c.set_read_timeout(Some(Duration::from_secs(60)));
    let req = match read_request(&mut c) {
        Ok(r) => r,
        Err(e) => {
            if e != "end of request" {
                svc.lock().unwrap().broken.push(e);
            }
            return;
        }
    };
    let (mode, res) = {
        let mut s = svc.lock().unwrap();
        s.seen.push(req.clone());
        let mode = s.script.pop_front().unwrap_or(Mode::Ok(Frame::Length));
        let res = if matches!(mode, Mode::Status(..) | Mode::Drop) { Ok(vec![]) } else { answer(&mut s, &req) };
        (mode, res)
    };
    match (mode, res) {
        (Mode::Drop, _) => {}
        (Mode::Status(st, body, f), _) => send(&mut c, st, &body, &f, None),
        (Mode::Ok(f), Ok(body)) => send(&mut c, 200, &body, &f, None),
        (Mode::Cut(f, k), Ok(body)) => send(&mut c, 200, &body, &f, Some(k)),
        (Mode::Ok(f), Err(e)) | (Mode::Cut(f, _), Err(e)) => send(&mut c, 500, &error_body(&e), &f, None),
    }
}

struct Net {
    svc: Shared,
    rt: tokio::runtime::Runtime,
}

thread_local!(static NET: RefCell<Option<Net>> = const { RefCell::new(None) });
/// where there is just one network for all threads
static ONE: Mutex<()> = Mutex::new(());

/// a loopback device of its own for this thread and the threads it starts
fn own_network() -> bool {
    unsafe {
        if libc::unshare(libc::CLONE_NEWNET) != 0 {
            return false;
        }
        let fd = libc::socket(libc::AF_INET, libc::SOCK_DGRAM, 0);
        // struct ifreq
        #[repr(C, align(8))]
        struct Req {
            name: [u8; 16],
            flags: u16,
            rest: [u8; 22],
        }
        let mut req = Req { name: [0; 16], flags: 0, rest: [0; 22] };
        req.name[..2].copy_from_slice(b"lo");
        let mut ok = fd >= 0 && libc::ioctl(fd, libc::SIOCGIFFLAGS as _, &mut req) == 0;
        let up = (libc::IFF_UP | libc::IFF_RUNNING) as u16;
        if ok && req.flags & up != up {
            req.flags |= up;
            ok = libc::ioctl(fd, libc::SIOCSIFFLAGS as _, &mut req) == 0;
        }
        libc::close(fd);
        ok
    }
}

/// must be called while there is just one thread
pub fn prepare() {
    for v in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    if std::env::var_os("VERIF_SHARED_NET").is_none() {
        unsafe { libc::unshare(libc::CLONE_NEWUSER) };
    }
}

fn listen() -> Result<Vec<TcpListener>, String> {
    // another check may have it right now
    let t0 = Instant::now();
    let v4 = loop {
        match TcpListener::bind("127.0.0.1:5001") {
            Ok(l) => break l,
            Err(e) if t0.elapsed() > Duration::from_secs(400) => return Err(e.to_string()),
            Err(_) => std::thread::sleep(Duration::from_millis(200)),
        }
    };
    let mut out = vec![v4];
    out.extend(TcpListener::bind("[::1]:5001").ok());
    Ok(out)
}

fn start() -> Net {
    let svc: Shared = Default::default();
    for l in listen().unwrap_or_else(|e| {
        eprintln!("ERROR: can not listen at localhost:5001: {}", e);
        std::process::exit(2)
    }) {
        let svc = svc.clone();
        std::thread::Builder::new()
            .name("ipfs".into())
            .spawn(move || {
                for c in l.incoming().flatten() {
                    let svc = svc.clone();
                    // clients keep connections open
                    let _ = std::thread::Builder::new().name("ipfs-conn".into()).spawn(move || serve(c, &svc));
                }
            })
            .expect("thread");
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
    Net { svc, rt }
}

static SHARED: Mutex<Option<Shared>> = Mutex::new(None);

pub fn with_net<T>(f: impl FnOnce(&Shared, &tokio::runtime::Runtime) -> T) -> T {
    let mut one = None;
    NET.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            let shared = std::env::var_os("VERIF_SHARED_NET").is_some() || !own_network();
            *n = Some(if shared {
                let mut g = SHARED.lock().unwrap_or_else(|e| e.into_inner());
                match &*g {
                    Some(svc) => Net {
                        svc: svc.clone(),
                        rt: tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"),
                    },
                    None => {
                        let net = start();
                        *g = Some(net.svc.clone());
                        net
                    }
                }
            } else {
                start()
            });
        }
        if SHARED.lock().unwrap_or_else(|e| e.into_inner()).is_some() {
            one = Some(ONE.lock().unwrap_or_else(|e| e.into_inner()));
        }
        let n = n.as_ref().expect("net");
        *n.svc.lock().unwrap_or_else(|e| e.into_inner()) = Default::default();
        let r = f(&n.svc, &n.rt);
        drop(one.take());
        r
    })
}

// ----------------------------------------------------------------------------------- generators

fn gen_sizes(s: &mut Src) -> Vec<usize> {
    let n = s.usize(0, 6);
    (0..n)
        .map(|_| match s.weighted(&[2, 3, 2, 1]) {
            0 => s.usize(1, 4),
            1 => s.usize(5, 200),
            2 => s.usize(200, 5000),
            _ => s.usize(5000, 60000),
        })
        .collect()
}

pub fn gen_frame(s: &mut Src) -> Frame {
    match s.weighted(&[3, 4, 1]) {
        0 => Frame::Length,
        1 => Frame::Chunked(gen_sizes(s)),
        _ => Frame::Close,
    }
}

fn gen_bad(s: &mut Src, decoy: &[u8]) -> Mode {
    match s.weighted(&[4, 2, 1]) {
        0 => {
            let st = *s.pick(&[500u16, 404, 403, 400, 502, 503, 429, 501]);
            let body = match s.below(5) {
                0 => error_body("block was not found locally (offline): ipld: could not find"),
                1 => b"404 page not found\n".to_vec(),
                2 => vec![],
                3 => error_body("experimental pubsub feature not enabled. Run daemon with --enable-pubsub-experiment to use."),
                // e.g. a proxy that answers with an error, and with something like a proper body
                _ => decoy.to_vec(),
            };
            Mode::Status(st, body, gen_frame(s))
        }
        1 => {
            let f = if s.bool() { Frame::Chunked(gen_sizes(s)) } else { Frame::Length };
            Mode::Cut(f, s.below(1000))
        }
        _ => Mode::Drop,
    }
}

fn gen_mode(s: &mut Src, decoy: &[u8]) -> Mode {
    if s.chance(1, 3) {
        gen_bad(s, decoy)
    } else {
        Mode::Ok(gen_frame(s))
    }
}

fn gen_data(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[3, 3, 1, 1]) {
        0 => {
            let n = s.usize(0, 40);
            s.blob(n)
        }
        1 => {
            let n = s.usize(0, 3000);
            s.blob(n)
        }
        2 => {
            let n = s.usize(3000, 100_000);
            s.blob(n)
        }
        // what means something to http, multipart, or json
        _ => {
            let n = s.usize(1, 6);
            let mut out = vec![];
            for _ in 0..n {
                let xs: &[&[u8]] = &[
                    b"\r\n", b"--", b"\r\n\r\n", b"0\r\n\r\n", b"\0", b"%00", b"+", b" ", b"&arg=", b"?", b"#", b"{}", b"\"", b"\xff", b"\n", b"a", b"/", b"..",
                ];
                out.extend_from_slice(xs[s.below(xs.len() as u64) as usize]);
            }
            out
        }
    }
}

fn gen_topic(s: &mut Src) -> String {
    let n = s.usize(1, 8);
    (0..n)
        .map(|_| *s.pick(&["a", "b", "/", " ", "+", "%", "&", "=", "?", "#", "ü", "€", "🦀", "%20", "..", ":", "\n", "\\", "\""]))
        .collect()
}

/// Err if the server could not make sense of a request
fn sane(svc: &Shared) -> R {
    let s = svc.lock().unwrap();
    check!(s.broken.is_empty(), "request", "request the service does not understand: {:?}", s.broken);
    for r in &s.seen {
        check!(r.method == "POST", "request", "ipfs only answers post requests: {:?}", r);
    }
    Ok(())
}

fn link_of(data: &[u8]) -> Link {
    Link::try_from(Cid::new_v1(0x71, Code::Sha2_256.digest(data))).expect("link")
}

// ---------------------------------------------------------------------------------------- cases

fn c29(s: &mut Src, obs: &mut Obs) -> R {
    with_net(|svc, rt| match s.weighted(&[4, 6, 2]) {
        0 => store_case(s, obs, svc, rt),
        1 => pubsub_case(s, obs, svc, rt),
        _ => tree_case(s, obs, svc, rt),
    })
}

fn store_case(s: &mut Src, obs: &mut Obs, svc: &Shared, rt: &tokio::runtime::Runtime) -> R {
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut cids: Vec<Cid> = vec![];
    svc.lock().unwrap().base58 = s.chance(1, 4);
    let in_rt = s.chance(1, 4);
    let mut store = IpfsStore;
    let n = s.usize(1, 5);
    for i in 0..n {
        let run_get = |l: &Link| if in_rt { rt.block_on(async { IpfsStore.get(l) }) } else { IpfsStore.get(l) };
        let before = svc.lock().unwrap().seen.len();
        match s.weighted(&[3, 4, 1, 2, 2]) {
            0 => {
                let data = gen_data(s);
                let l = link_of(&data);
                let decoy = format!("{{\"Key\":\"{}\",\"Size\":3}}", Cid::from(l));
                let mode = gen_mode(s, decoy.as_bytes());
                obs.note(|| format!("{}: put {} bytes, {:?}", i, data.len(), mode));
                svc.lock().unwrap().script = VecDeque::from(vec![mode.clone()]);
                let d = data.clone();
                let res = if in_rt { rt.block_on(async { store.put(d) }) } else { store.put(d) };
                let mut g = svc.lock().unwrap();
                check_eq!(g.seen.len(), before + 1, "put", "requests of a put");
                match res {
                    Ok(got) => {
                        check!(mode.ok(), "put", "put succeeds although the service answers {:?}", mode);
                        check_eq!(got, l, "put", "link of the block");
                        check!(g.blocks.get(&Cid::from(got).to_string()) == Some(&data), "put", "the service does not have the data");
                    }
                    Err(e) => check!(!mode.ok(), "put", "put of {} bytes: {}", data.len(), e),
                }
                // what is stored does not depend on what comes back
                if !matches!(mode, Mode::Status(..) | Mode::Drop) {
                    check!(g.blocks.get(&Cid::from(l).to_string()) == Some(&data), "put", "block was not stored as it is");
                    model.insert(Cid::from(l).to_string(), data);
                    cids.push(l.into());
                }
                let r = g.seen[before].clone();
                check!(
                    r.args.iter().any(|x| x.0 == "format" && x.1 == b"cbor"),
                    "put",
                    "blocks are dag-cbor: {:?}",
                    r.args
                );
                g.script.clear();
                obs.nontrivial |= !mode.ok();
                obs.label("put");
            }
            1 => {
                let known: Vec<&Cid> = cids.iter().filter(|c| c.codec() == 0x71).collect();
                if known.is_empty() {
                    continue;
                }
                let c = *s.pick(&known);
                let l = Link::try_from(*c).must("link")?;
                let mode = gen_mode(s, b"\xa1\x61a\x01");
                obs.note(|| format!("{}: get {}, {:?}", i, c, mode));
                svc.lock().unwrap().script = VecDeque::from(vec![mode.clone()]);
                check_get(&mode, run_get(&l), model.get(&c.to_string()).expect("known"))?;
                obs.nontrivial |= !mode.ok();
                obs.label("get");
            }
            2 => {
                let l = Link::new(&s.key32());
                obs.note(|| format!("{}: get unknown {}", i, l));
                let mode = Mode::Ok(gen_frame(s));
                svc.lock().unwrap().script = VecDeque::from(vec![mode]);
                if let Ok(x) = run_get(&l) {
                    fail!("get", "the service does not have {}, but get returns {}", l, hex(&x));
                }
                obs.nontrivial = true;
                obs.label("get of unknown link");
            }
            3 => {
                let data = gen_data(s);
                let codec = *s.pick(&[0x55u64, 0x70, 0x71, 0x72, 0x00, 0x0129, 0x51]);
                let pin = s.bool();
                let known = [0x55, 0x70, 0x71].contains(&codec);
                let cid = Cid::new_v1(codec, Code::Sha2_256.digest(&data));
                let mode = gen_mode(s, format!("{{\"Key\":\"{}\"}}", cid).as_bytes());
                obs.note(|| format!("{}: block_put {} bytes, codec {}, pin {}, {:?}", i, data.len(), codec, pin, mode));
                svc.lock().unwrap().script = VecDeque::from(vec![mode.clone()]);
                let res = block_put(&data, codec, pin);
                let mut g = svc.lock().unwrap();
                g.script.clear();
                if !known {
                    check!(res.is_err(), "codec", "block_put with codec {:x} succeeds", codec);
                    check_eq!(g.seen.len(), before, "codec", "requests for an unsupported codec");
                    continue;
                }
                check_eq!(g.seen.len(), before + 1, "block_put", "requests of a block_put");
                let r = g.seen[before].clone();
                check!(
                    r.args.iter().any(|x| x.0 == "pin" && x.1 == pin.to_string().as_bytes()),
                    "block_put",
                    "pin is {}: {:?}",
                    pin,
                    r.args
                );
                match res {
                    Ok(got) => {
                        check!(mode.ok(), "block_put", "block_put succeeds although the service answers {:?}", mode);
                        check_eq!(got, cid, "block_put", "cid");
                    }
                    Err(e) => check!(!mode.ok(), "block_put", "block_put: {}", e),
                }
                if !matches!(mode, Mode::Status(..) | Mode::Drop) {
                    check!(g.blocks.get(&cid.to_string()) == Some(&data), "block_put", "not stored as it is");
                    model.insert(cid.to_string(), data);
                    cids.push(cid);
                }
                obs.label("block_put");
            }
            _ => {
                if cids.is_empty() {
                    continue;
                }
                let c = *s.pick(&cids);
                let mode = gen_mode(s, b"nothing");
                obs.note(|| format!("{}: block_get {}, {:?}", i, c, mode));
                svc.lock().unwrap().script = VecDeque::from(vec![mode.clone()]);
                check_get(&mode, block_get(&c), model.get(&c.to_string()).expect("known"))?;
                obs.nontrivial |= !mode.ok();
                obs.label("block_get");
            }
        }
        sane(svc)?;
    }
    Ok(())
}

fn check_get(mode: &Mode, got: anyhow::Result<Box<[u8]>>, want: &[u8]) -> R {
    match got {
        Ok(x) if mode.ok() => {
            check!(&x[..] == want, "get", "{} bytes instead of {}", x.len(), want.len());
            Ok(())
        }
        // nothing is missing
        Ok(x) if matches!(mode, Mode::Cut(Frame::Length, _)) && want.is_empty() && x.is_empty() => Ok(()),
        Ok(x) => fail!("get", "service answers {:?}, and get returns {} as block", mode, hex(&x[..x.len().min(80)])),
        Err(e) => {
            check!(!mode.ok(), "get", "get: {}", e);
            Ok(())
        }
    }
}

pub fn event(s: &mut Src, topic: &str, data: &[u8]) -> String {
    let b64 = |x: &[u8]| serde_json::to_string(&Base64(x)).unwrap();
    let from = s.blob(34);
    let seq = s.blob(8);
    let mut fields = vec![
        format!("\"from\":{}", b64(&from)),
        format!("\"data\":{}", b64(data)),
        format!("\"seqno\":{}", b64(&seq)),
        format!("\"topicIDs\":[{}]", serde_json::to_string(topic).unwrap()),
    ];
    if s.chance(1, 4) {
        fields.reverse();
    }
    if s.chance(1, 8) {
        fields.push("\"signature\":\"x}{\\\"\"".into());
    }
    format!("{{{}}}", fields.join(","))
}

/// independent base64
struct Base64<'a>(&'a [u8]);
impl<'a> serde::Serialize for Base64<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&b64(self.0))
    }
}
fn b64(x: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in x.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

/// what a subscriber gets: payloads up to the first error, whether there is an error
fn subscribe(rt: &tokio::runtime::Runtime, topic: &str) -> R<(Vec<Vec<u8>>, bool)> {
    let stream = {
        let _g = rt.enter();
        match pubsub_sub(topic) {
            Ok(s) => s,
            Err(_) => return Ok((vec![], true)),
        }
    };
    let mut stream = Box::pin(stream);
    let mut out = vec![];
    let mut err = false;
    rt.block_on(async {
        while let Some(x) = stream.next().await {
            match x {
                Ok(d) => out.push(d.to_vec()),
                Err(_) => {
                    err = true;
                    break;
                }
            }
        }
    });
    Ok((out, err))
}

fn pubsub_case(s: &mut Src, obs: &mut Obs, svc: &Shared, rt: &tokio::runtime::Runtime) -> R {
    let topic = gen_topic(s);
    if s.chance(1, 4) {
        let data = match s.below(3) {
            0 => gen_data(s),
            _ => {
                let n = s.usize(0, 60);
                s.blob(n)
            }
        };
        let data = data[..data.len().min(20000)].to_vec();
        let mode = gen_mode(s, b"");
        obs.note(|| format!("publish {} bytes to {:?}, {:?}", data.len(), topic, mode));
        obs.label("publish");
        svc.lock().unwrap().script = VecDeque::from(vec![mode.clone()]);
        let res = rt.block_on(pubsub_pub(&topic, &data));
        sane(svc)?;
        let g = svc.lock().unwrap();
        check_eq!(g.seen.len(), 1, "publish", "requests of a publish");
        check!(g.seen[0].path == "/api/v0/pubsub/pub", "publish", "path {}", g.seen[0].path);
        let want = vec![("arg".to_string(), topic.clone().into_bytes()), ("arg".to_string(), data.clone())];
        check!(g.seen[0].args == want, "publish", "the service got {:?}", g.seen[0].args);
        match (&mode, res) {
            (Mode::Ok(_), r) => r.must("publish")?,
            // the body is empty, so that there is nothing to cut
            (Mode::Cut(Frame::Length, _), _) => {}
            (_, r) => {
                check!(r.is_err(), "publish", "the service answers {:?}, publish reports success", mode);
                obs.nontrivial = true;
            }
        }
        let blob = Base64Blob(data.clone());
        let text = serde_json::to_string(&blob).must("Base64Blob")?;
        check_eq!(text, format!("\"{}\"", b64(&data)), "base64", "text of a blob");
        check_eq!(serde_json::from_str::<Base64Blob>(&text).must("Base64Blob")?, blob, "base64", "blob from its text");
        return Ok(());
    }
    let n = s.usize(0, 6);
    let mut feed = vec![];
    let mut want = vec![];
    let mut ends = vec![];
    let bad_at = if s.chance(1, 6) { Some(s.usize(0, n)) } else { None };
    let bad = |s: &mut Src, feed: &mut Vec<u8>| {
        let xs: &[&str] = &[
            "]",
            "{\"from\":\"\",\"seqno\":\"\",\"topicIDs\":[]}\n",
            "{\"from\":\"\",\"data\":\"?\",\"seqno\":\"\",\"topicIDs\":[]}\n",
            "{\"from\":\"\",\"data\":7,\"seqno\":\"\",\"topicIDs\":[]}\n",
            "{\"Message\":\"x\",\"Code\":0,\"Type\":\"error\"}\n",
            "404 page not found\n",
        ];
        feed.extend_from_slice(s.pick(xs).as_bytes());
    };
    for i in 0..n {
        if bad_at == Some(i) {
            bad(s, &mut feed);
        }
        let data = match s.weighted(&[4, 1, 1]) {
            0 => {
                let n = s.usize(0, 100);
                s.blob(n)
            }
            1 => {
                let n = s.usize(100, 30000);
                s.blob(n)
            }
            _ => gen_data(s),
        };
        feed.extend_from_slice(event(s, &topic, &data).as_bytes());
        ends.push(feed.len());
        if bad_at.map(|b| i < b).unwrap_or(true) {
            want.push(data);
        }
        match s.weighted(&[6, 1, 1]) {
            0 => feed.push(b'\n'),
            1 => {}
            _ => feed.extend_from_slice(b" \r\n\n"),
        }
    }
    if bad_at == Some(n) {
        bad(s, &mut feed);
    }
    let mut cut = false;
    let mode = match s.weighted(&[8, 1, 2, 1]) {
        0 => Mode::Ok(match s.weighted(&[6, 1, 1]) {
            0 => Frame::Chunked(gen_sizes(s)),
            1 => Frame::Close,
            _ => Frame::Length,
        }),
        1 => gen_bad(s, &feed),
        2 => {
            cut = true;
            Mode::Cut(Frame::Chunked(gen_sizes(s)), s.below(1000))
        }
        // one event per chunk, as a real node does it
        _ => {
            let mut p = 0;
            let mut sizes: Vec<usize> = ends
                .iter()
                .map(|e| {
                    let n = e - p;
                    p = *e;
                    n
                })
                .collect();
            sizes.push(feed.len().max(1));
            Mode::Ok(Frame::Chunked(sizes))
        }
    };
    obs.note(|| {
        format!(
            "subscribe to {:?}, {} events of {} bytes in {} bytes, malformed event {:?}, {:?}",
            topic,
            n,
            want.iter().map(|x| x.len().to_string()).collect::<Vec<_>>().join("/"),
            feed.len(),
            bad_at,
            mode
        )
    });
    obs.label("subscribe");
    {
        let mut g = svc.lock().unwrap();
        g.feed = feed.clone();
        g.script = VecDeque::from(vec![mode.clone()]);
    }
    let (got, err) = subscribe(rt, &topic)?;
    sane(svc)?;
    {
        let g = svc.lock().unwrap();
        check_eq!(g.seen.len(), 1, "subscribe", "requests of a subscription");
        check!(g.seen[0].path == "/api/v0/pubsub/sub", "subscribe", "path {}", g.seen[0].path);
        check!(g.seen[0].args == vec![("arg".to_string(), topic.clone().into_bytes())], "subscribe", "the service got {:?}", g.seen[0].args);
    }
    check!(got.len() <= want.len(), "events", "{} events, {} were published", got.len(), want.len());
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        check!(a == b, "events", "event {} is {} instead of {}", i, hex(&a[..a.len().min(60)]), hex(&b[..b.len().min(60)]));
    }
    match &mode {
        Mode::Ok(_) => {
            check_eq!(got.len(), want.len(), "events", "number of events (error: {})", err);
            check_eq!(err, bad_at.is_some(), "malformed", "malformed event leads to an error");
            obs.nontrivial |= n >= 3 || bad_at.is_some();
            obs.label_if(n >= 3, "3 or more events");
        }
        Mode::Cut(Frame::Chunked(_), k) if cut => {
            let upto = (feed.len() as u64 * k / 1000) as usize;
            let full = ends.iter().take(want.len()).filter(|e| **e <= upto).count();
            check!(got.len() >= full, "events", "{} events, but {} arrived before the connection broke", got.len(), full);
            check!(err, "cut", "broken connection looks like the end of the subscription");
            obs.nontrivial = true;
        }
        Mode::Cut(..) => {}
        _ => {
            check!(got.is_empty(), "status", "events out of the answer {:?}", mode);
            check!(err, "status", "subscription was refused with {:?}, which looks like its end", mode);
            obs.nontrivial = true;
        }
    }
    Ok(())
}

fn tree_case(s: &mut Src, obs: &mut Obs, svc: &Shared, rt: &tokio::runtime::Runtime) -> R {
    let (cfg, prof) = gen_config(s);
    let secrets = gen_secrets(s);
    let cache = if s.bool() { 0 } else { 1 << 20 };
    let mk = || Transaction::<HT, _, _>::new(Forest::new(IpfsStore, BranchCache::new(cache)), IpfsStore);
    let mut t = mk();
    let mut b: Bld = StreamBuilder::new(cfg.clone(), secrets.clone());
    let mut model: Vec<ModelItem> = vec![];
    let mut clock = 0;
    obs.label("tree");
    for i in 0..s.usize(1, 3) {
        let n = s.usize(1, 8);
        let items = gen_items(s, n, &mut clock, &cfg, &prof);
        let fault = s.chance(1, 3);
        if fault {
            let mut script: VecDeque<Mode> = (0..s.usize(0, 4)).map(|_| Mode::Ok(gen_frame(s))).collect();
            script.push_back(gen_bad(s, b"{\"Key\":\"bafyreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy\"}"));
            obs.note(|| format!("{}: extend {} with {:?}", i, n, script));
            svc.lock().unwrap().script = script;
        } else {
            obs.note(|| format!("{}: extend {}", i, n));
        }
        let snap = b.snapshot();
        let res = if s.bool() {
            rt.block_on(async { t.extend(&mut b, items.clone()) })
        } else {
            t.extend(&mut b, items.clone())
        };
        let hit = svc.lock().unwrap().script.is_empty();
        svc.lock().unwrap().script.clear();
        match res {
            Ok(()) => {
                check!(!fault || !hit, "extend", "extend succeeds although a request failed");
                model.extend(items.into_iter().map(Some));
            }
            Err(e) => {
                check!(fault && hit, "extend", "extend: {}", e);
                check_eq!(b.snapshot().link(), snap.link(), "extend", "link after a failed extend");
                obs.nontrivial = true;
            }
        }
    }
    sane(svc)?;
    let want: Vec<(u64, HKey, Val)> = triples(&model, &Qx::All);
    let cold = mk();
    if let Some(l) = b.link() {
        let tree: Tr = cold.load_tree(secrets, l).must("load_tree")?;
        if s.bool() {
            let mut script: VecDeque<Mode> = (0..s.usize(0, 5)).map(|_| Mode::Ok(gen_frame(s))).collect();
            let bad = s.chance(1, 2);
            if bad {
                script.push_back(gen_bad(s, b"\x00"));
            }
            obs.note(|| format!("read with {:?}", script));
            svc.lock().unwrap().script = script;
            let got: Vec<_> = cold.iter_from(&tree).collect();
            let hit = svc.lock().unwrap().script.is_empty();
            svc.lock().unwrap().script.clear();
            let ok: Vec<(u64, HKey, Val)> = got.iter().take_while(|x| x.is_ok()).map(|x| x.as_ref().unwrap().clone()).collect();
            check!(ok.len() <= want.len(), "read", "more elements than there are");
            cmp_triples("read", &ok, &want[..ok.len()])?;
            check!(ok.len() == want.len() || (bad && hit && got.len() > ok.len()), "read", "elements are missing without an error");
            obs.nontrivial |= bad && hit;
        }
        let got = cold.iter_from(&tree).collect::<anyhow::Result<Vec<_>>>().must("iter_from")?;
        cmp_triples("iter_from", &got, &want)?;
    } else {
        check!(want.is_empty(), "read", "no tree");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- regressions

fn r_error_body() -> R {
    with_net(|svc, _| {
        let l = link_of(b"abc");
        svc.lock().unwrap().blocks.clear();
        check!(IpfsStore.get(&l).is_err(), "get", "body of an error as block");
        Ok(())
    })
}

fn r_publish_refused() -> R {
    with_net(|svc, rt| {
        svc.lock().unwrap().script =
            VecDeque::from(vec![Mode::Status(500, error_body("experimental pubsub feature not enabled"), Frame::Length)]);
        check!(rt.block_on(pubsub_pub("a", b"b")).is_err(), "publish", "refused, but publish reports success");
        Ok(())
    })
}

fn feed_of(datas: &[&[u8]]) -> Vec<u8> {
    let mut src = Src::replay(vec![]);
    let mut out = vec![];
    for d in datas {
        out.extend_from_slice(event(&mut src, "a", d).as_bytes());
        out.push(b'\n');
    }
    out
}

fn r_feed(datas: &[&[u8]], sizes: Vec<usize>) -> R {
    with_net(|svc, rt| {
        {
            let mut g = svc.lock().unwrap();
            g.feed = feed_of(datas);
            g.script = VecDeque::from(vec![Mode::Ok(Frame::Chunked(sizes))]);
        }
        let (got, err) = subscribe(rt, "a")?;
        check!(!err, "events", "error");
        check_eq!(got, datas.iter().map(|x| x.to_vec()).collect::<Vec<_>>(), "events", "events");
        Ok(())
    })
}

fn r_split_event() -> R {
    r_feed(&[b"abc"], vec![10])
}

fn r_merged_events() -> R {
    r_feed(&[b"abc", b"def"], vec![])
}

fn r_subscribe_refused() -> R {
    with_net(|svc, rt| {
        svc.lock().unwrap().script =
            VecDeque::from(vec![Mode::Status(500, error_body("experimental pubsub feature not enabled"), Frame::Length)]);
        let (got, err) = subscribe(rt, "a")?;
        check!(got.is_empty() && err, "status", "refused subscription");
        Ok(())
    })
}
