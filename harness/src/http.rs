//! A small HTTP client, and the real server binary as a child process.
use crate::core::*;
use crate::proto::*;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn prctl(option: i32, arg2: u64, arg3: u64, arg4: u64, arg5: u64) -> i32;
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
}
/// The child can have this many files open at a time.
fn limit_files(c: &mut Command, n: u64) {
    unsafe {
        c.pre_exec(move || {
            setrlimit(7, &[n, n]);
            Ok(())
        });
    }
}
/// The child dies with the thread that started it.
pub fn die_with_parent(c: &mut Command) {
    unsafe {
        c.pre_exec(|| {
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
}

pub fn self_dir() -> std::path::PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().to_path_buf()
}

pub struct Server {
    pub child: Child,
    pub port: u16,
    /// how long a client waits
    pub patience: Duration,
    pub read_path: String,
    pub write_path: String,
}

pub struct Opts<'a> {
    pub storage: &'a str,
    pub indexer: &'a str,
    pub chunk_size: u64,
    pub workers: Option<usize>,
    pub read_path: Option<&'a str>,
    pub write_path: Option<&'a str>,
    pub extra: Vec<String>,
    pub env: Vec<(String, String)>,
    /// how many files it can have open
    pub files: Option<u64>,
}
impl<'a> Default for Opts<'a> {
    fn default() -> Self {
        Opts { storage: "sled", indexer: "sled", chunk_size: 86_400, workers: None, read_path: None, write_path: None, extra: vec![], env: vec![], files: None }
    }
}

/// A port outside of the range that clients get theirs from: a server that takes one of those may find a client there, and
/// a client that asks for one of those before anybody listens may be connected to itself.
pub fn free_port() -> u16 {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let low = std::fs::read_to_string("/proc/sys/net/ipv4/ip_local_port_range").ok();
    let low = low.and_then(|s| s.split_whitespace().next().and_then(|w| w.parse::<u64>().ok())).unwrap_or(32_768);
    if low > 11_000 {
        let (first, n) = (10_000, low - 10_000);
        let from = (std::process::id() as u64).wrapping_mul(7919);
        for _ in 0..n {
            let port = (first + (from + NEXT.fetch_add(1, Ordering::SeqCst)) % n) as u16;
            if TcpListener::bind(("127.0.0.1", port)).is_ok() {
                return port;
            }
        }
    }
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
/// The ports that a process listens on.
pub fn ports_of(pid: u32) -> Vec<u16> {
    let mut inodes = vec![];
    for e in std::fs::read_dir(format!("/proc/{}/fd", pid)).into_iter().flatten().flatten() {
        if let Ok(t) = std::fs::read_link(e.path()) {
            if let Some(n) = t.to_string_lossy().strip_prefix("socket:[") {
                inodes.push(n.trim_end_matches(']').to_string());
            }
        }
    }
    let mut out = vec![];
    for f in ["tcp", "tcp6"] {
        for l in std::fs::read_to_string(format!("/proc/{}/net/{}", pid, f)).unwrap_or_default().lines().skip(1) {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() > 9 && w[3] == "0A" && inodes.iter().any(|i| i == w[9]) {
                if let Some(p) = w[1].rsplit(':').next().and_then(|p| u16::from_str_radix(p, 16).ok()) {
                    out.push(p)
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

impl Server {
    pub fn start(dir: &Path, o: &Opts) -> Result<Server, String> {
        let mut last = String::new();
        for _ in 0..4 {
            let port = free_port();
            let mut c = Command::new(self_dir().join("monolith-server"));
            c.arg("--port").arg(port.to_string());
            c.arg("--chunk_size").arg(o.chunk_size.to_string());
            c.arg("--file_dir").arg(dir);
            c.arg("--storage").arg(o.storage).arg("--indexer").arg(o.indexer);
            if let Some(w) = o.workers {
                c.arg("--worker_num").arg(w.to_string());
            }
            if let Some(p) = o.read_path {
                c.arg("--read_path").arg(p);
            }
            if let Some(p) = o.write_path {
                c.arg("--write_path").arg(p);
            }
            c.args(&o.extra);
            c.envs(o.env.iter().cloned());
            let log = std::fs::File::create(dir.with_extension("server-log")).map_err(|e| e.to_string())?;
            c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(log);
            die_with_parent(&mut c);
            if let Some(n) = o.files {
                limit_files(&mut c, n)
            }
            let mut child = c.spawn().map_err(|e| e.to_string())?;
            let t0 = Instant::now();
            loop {
                if let Ok(Some(s)) = child.try_wait() {
                    last = format!("the server ended at its start: {:?} {}", s, std::fs::read_to_string(dir.with_extension("server-log")).unwrap_or_default());
                    break;
                }
                if ports_of(child.id()).contains(&port) {
                    return Ok(Server {
                        child,
                        port,
                        patience: Duration::from_secs(60),
                        read_path: o.read_path.unwrap_or("/read").into(),
                        write_path: o.write_path.unwrap_or("/write").into(),
                    });
                }
                if t0.elapsed() > Duration::from_secs(40) {
                    let _ = child.kill();
                    let _ = child.wait();
                    last = "the server does not listen".into();
                    break;
                }
                sleep_ms(10);
            }
            if !last.contains("ddress") {
                break; // not a port taken by somebody else
            }
        }
        Err(last)
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    pub fn connect(&self) -> Result<TcpStream, String> {
        let s = TcpStream::connect(("127.0.0.1", self.port)).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(self.patience)).unwrap();
        s.set_write_timeout(Some(self.patience)).unwrap();
        let _ = s.set_nodelay(true);
        Ok(s)
    }
    pub fn post(&self, path: &str, body: &[u8]) -> Result<(u16, Vec<u8>), String> {
        self.request("POST", path, body)
    }
    pub fn request(&self, method: &str, path: &str, body: &[u8]) -> Result<(u16, Vec<u8>), String> {
        let mut s = self.connect()?;
        let head = format!(
            "{} {} HTTP/1.1\r\nHost: localhost\r\nContent-Encoding: snappy\r\nContent-Type: application/x-protobuf\r\nContent-Length: {}\r\nConnection: close\r\n\r\n",
            method,
            path,
            body.len()
        );
        let mut all = head.into_bytes();
        all.extend_from_slice(body);
        s.write_all(&all).map_err(|e| format!("send: {}", e))?;
        read_response(&mut s)
    }
    pub fn write(&self, v: &[WireSeries]) -> Result<u16, String> {
        self.post(&self.write_path, &snappy(&write_request(v))).map(|x| x.0)
    }
    pub fn read(&self, v: &[WireQuery]) -> Result<(u16, Vec<Vec<WireSeries>>), String> {
        let (code, body) = self.post(&self.read_path, &snappy(&read_request(v)))?;
        parse_answer(code, &body)
    }
}
/// A connection that serves several requests, one after another.
pub struct Conn {
    s: TcpStream,
    pub used: u64,
}
impl Conn {
    pub fn open(srv: &Server) -> Result<Conn, String> {
        Ok(Conn { s: srv.connect()?, used: 0 })
    }
    pub fn post(&mut self, path: &str, body: &[u8], chunked: bool) -> Result<(u16, Vec<u8>), String> {
        self.used += 1;
        let mut all = format!("POST {} HTTP/1.1\r\nHost: localhost\r\nContent-Encoding: snappy\r\nContent-Type: application/x-protobuf\r\n", path).into_bytes();
        if chunked {
            all.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in body.chunks(1 + body.len() / 3) {
                all.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                all.extend_from_slice(c);
                all.extend_from_slice(b"\r\n");
            }
            all.extend_from_slice(b"0\r\n\r\n");
        } else {
            all.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            all.extend_from_slice(body);
        }
        self.s.write_all(&all).map_err(|e| format!("send: {}", e))?;
        read_response(&mut self.s)
    }
    pub fn write(&mut self, srv: &Server, v: &[WireSeries], chunked: bool) -> Result<u16, String> {
        self.post(&srv.write_path, &snappy(&write_request(v)), chunked).map(|x| x.0)
    }
    pub fn read(&mut self, srv: &Server, v: &[WireQuery], chunked: bool) -> Result<(u16, Vec<Vec<WireSeries>>), String> {
        let (code, body) = self.post(&srv.read_path, &snappy(&read_request(v)), chunked)?;
        parse_answer(code, &body)
    }
}
pub fn parse_answer(code: u16, body: &[u8]) -> Result<(u16, Vec<Vec<WireSeries>>), String> {
    if code != 200 {
        return Ok((code, vec![]));
    }
    let b = unsnappy(body).map_err(|e| format!("response is not snappy: {}", e))?;
    Ok((code, parse_read_response(&b).map_err(|e| format!("response is not a read response: {}", e))?))
}

impl Drop for Server {
    fn drop(&mut self) {
        self.kill()
    }
}

/// Connections that were answered only once another connection had come and gone.
pub static LEFT_WAITING: AtomicU64 = AtomicU64::new(0);

/// Wait for the first byte of an answer.
///
/// The HTTP library may leave a connection in its queue until another one ends (see DESIGN.md).  A connection that is opened and
/// closed, without a request, makes it go on; the database is not involved.
fn await_answer(s: &TcpStream) {
    let limit = s.read_timeout().ok().flatten().unwrap_or(Duration::from_secs(60));
    let part = Duration::from_secs(2);
    if limit <= part {
        return;
    }
    let t0 = Instant::now();
    let there = |d: Duration| {
        let _ = s.set_read_timeout(Some(d));
        !matches!(s.peek(&mut [0]), Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut)
    };
    let mut wait = part;
    while !there(wait) && t0.elapsed() < limit {
        // each takes one out of the queue, and there may be others before ours
        if let Ok(a) = s.peer_addr() {
            let _ = TcpStream::connect_timeout(&a, part);
        }
        wait = Duration::from_millis(100);
        if there(wait) {
            LEFT_WAITING.fetch_add(1, Ordering::SeqCst);
            break;
        }
    }
    let _ = s.set_read_timeout(Some(limit));
}

pub fn read_response(s: &mut TcpStream) -> Result<(u16, Vec<u8>), String> {
    await_answer(s);
    let mut buf = vec![];
    let mut tmp = [0u8; 65536];
    let head_end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        let n = s.read(&mut tmp).map_err(|e| format!("receive: {}", e))?;
        if n == 0 {
            return Err(format!("connection closed after {} bytes", buf.len()));
        }
        buf.extend_from_slice(&tmp[..n]);
    };
    let head = String::from_utf8_lossy(&buf[..head_end]).to_string();
    let code: u16 = head.split_whitespace().nth(1).and_then(|x| x.parse().ok()).ok_or("no status code")?;
    let hdr = |k: &str| {
        head.lines().skip(1).find_map(|l| {
            let (a, b) = l.split_once(':')?;
            if a.trim().eq_ignore_ascii_case(k) {
                Some(b.trim().to_string())
            } else {
                None
            }
        })
    };
    let mut body = buf[head_end + 4..].to_vec();
    if code == 100 {
        return Err("unexpected 100".into());
    }
    let chunked = hdr("transfer-encoding").map(|v| v.to_lowercase().contains("chunked")).unwrap_or(false);
    let want: Option<usize> = hdr("content-length").and_then(|v| v.parse().ok());
    loop {
        if chunked {
            if let Some(b) = dechunk(&body)? {
                return Ok((code, b));
            }
        } else if let Some(w) = want {
            if body.len() >= w {
                body.truncate(w);
                return Ok((code, body));
            }
        }
        let n = s.read(&mut tmp).map_err(|e| format!("receive: {}", e))?;
        if n == 0 {
            if chunked || want.is_some() {
                return Err("response cut short".into());
            }
            return Ok((code, body));
        }
        body.extend_from_slice(&tmp[..n]);
    }
}
fn dechunk(b: &[u8]) -> Result<Option<Vec<u8>>, String> {
    let mut at = 0;
    let mut out = vec![];
    loop {
        let e = match b[at..].windows(2).position(|w| w == b"\r\n") {
            Some(e) => at + e,
            None => return Ok(None),
        };
        let n = usize::from_str_radix(std::str::from_utf8(&b[at..e]).map_err(|_| "chunk size")?.trim(), 16).map_err(|_| "chunk size")?;
        at = e + 2;
        if n == 0 {
            return Ok(Some(out));
        }
        if b.len() < at + n + 2 {
            return Ok(None);
        }
        out.extend_from_slice(&b[at..at + n]);
        at += n + 2;
    }
}
