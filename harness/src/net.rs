//! Raw HTTP client and scriptable fake server over std::net, independent of the library.
use crate::rng::Rng;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Msg {
    /// Start line split in three.
    pub start: (String, String, String),
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub raw_head: Vec<u8>,
}
impl Msg {
    pub fn status(&self) -> u16 {
        self.start.1.parse().unwrap_or(0)
    }
    pub fn header(&self, name: &str) -> Option<&[u8]> {
        self.headers
            .iter()
            .find(|h| h.0.eq_ignore_ascii_case(name))
            .map(|h| &h.1[..])
    }
    pub fn header_str(&self, name: &str) -> Option<String> {
        self.header(name)
            .map(|v| String::from_utf8_lossy(v).into_owned())
    }
}
#[derive(Debug)]
pub enum Recv {
    Msg(Msg),
    /// Connection ended; the bytes received since the last message.
    Closed(Vec<u8>),
    Timeout(Vec<u8>),
    Malformed(String, Vec<u8>),
}
impl Recv {
    pub fn describe(&self) -> String {
        match self {
            Recv::Msg(m) => format!("message {} {}", m.start.0, m.start.1),
            Recv::Closed(b) => format!("closed after {} stray bytes", b.len()),
            Recv::Timeout(b) => format!("nothing (timeout) after {} bytes", b.len()),
            Recv::Malformed(e, b) => format!(
                "malformed message ({}): {:?}",
                e,
                String::from_utf8_lossy(&b[..b.len().min(200)])
            ),
        }
    }
}

fn is_tchar(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)
}

/// Strict head parser. Returns None while incomplete.
pub fn parse_head(buf: &[u8]) -> Option<Result<(Msg, usize), String>> {
    let end = buf.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = &buf[..end];
    let mut lines: Vec<&[u8]> = Vec::new();
    let mut rest = head;
    loop {
        match rest.windows(2).position(|w| w == b"\r\n") {
            Some(p) => {
                lines.push(&rest[..p]);
                rest = &rest[p + 2..];
            }
            None => {
                lines.push(rest);
                break;
            }
        }
    }
    let start = lines[0];
    if start.iter().any(|b| *b < 0x20 || *b == 0x7f) {
        return Some(Err("control character in start line".into()));
    }
    let start = match std::str::from_utf8(start) {
        Ok(s) => s,
        Err(_) => return Some(Err("non-UTF-8 start line".into())),
    };
    let mut it = start.splitn(3, ' ');
    let s0 = it.next().unwrap_or("").to_owned();
    let s1 = match it.next() {
        Some(s) => s.to_owned(),
        None => return Some(Err("short start line".into())),
    };
    let s2 = it.next().unwrap_or("").to_owned();
    let mut headers = Vec::new();
    for l in &lines[1..] {
        let c = match l.iter().position(|b| *b == b':') {
            Some(c) => c,
            None => return Some(Err(format!("header line without colon: {:?}", String::from_utf8_lossy(l)))),
        };
        let name = &l[..c];
        if name.is_empty() || !name.iter().all(|b| is_tchar(*b)) {
            return Some(Err(format!("bad header name {:?}", String::from_utf8_lossy(name))));
        }
        let mut v = &l[c + 1..];
        while let Some((f, r)) = v.split_first() {
            if *f == b' ' || *f == b'\t' {
                v = r;
            } else {
                break;
            }
        }
        while let Some((f, r)) = v.split_last() {
            if *f == b' ' || *f == b'\t' {
                v = r;
            } else {
                break;
            }
        }
        if v.iter().any(|b| (*b < 0x20 && *b != b'\t') || *b == 0x7f) {
            return Some(Err(format!("control character in header {:?}", String::from_utf8_lossy(name))));
        }
        headers.push((String::from_utf8_lossy(name).into_owned(), v.to_vec()));
    }
    Some(Ok((
        Msg {
            start: (s0, s1, s2),
            headers,
            body: Vec::new(),
            raw_head: buf[..end + 4].to_vec(),
        },
        end + 4,
    )))
}

/// Content length by the strict rule: exactly one header, decimal digits.
pub fn strict_len(m: &Msg) -> Result<usize, String> {
    let v: Vec<_> = m
        .headers
        .iter()
        .filter(|h| h.0.eq_ignore_ascii_case("content-length"))
        .collect();
    if v.len() != 1 {
        return Err(format!("{} content-length headers", v.len()));
    }
    if m.header("transfer-encoding").is_some() {
        return Err("transfer-encoding together with content-length".into());
    }
    let s = String::from_utf8_lossy(&v[0].1).into_owned();
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("bad content-length {:?}", s));
    }
    s.parse().map_err(|_| format!("bad content-length {:?}", s))
}
pub fn check_status_line(m: &Msg) -> Result<(), String> {
    if m.start.0 != "HTTP/1.1" && m.start.0 != "HTTP/1.0" {
        return Err(format!("bad version {:?}", m.start.0));
    }
    if m.start.1.len() != 3 || !m.start.1.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("bad status code {:?}", m.start.1));
    }
    Ok(())
}

pub struct Conn {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    pub timeout: Duration,
}
impl Conn {
    pub fn connect(addr: SocketAddr) -> std::io::Result<Conn> {
        let mut last = None;
        for _ in 0..5 {
            match TcpStream::connect_timeout(&addr, Duration::from_secs(10)) {
                Ok(s) => return Ok(Conn::from(s)),
                Err(e) => {
                    last = Some(e);
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        }
        Err(last.unwrap())
    }
    pub fn from(s: TcpStream) -> Conn {
        let _ = s.set_nodelay(true);
        let _ = s.set_write_timeout(Some(Duration::from_secs(20)));
        Conn {
            s,
            buf: Vec::new(),
            timeout: Duration::from_secs(15),
        }
    }
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.s.write_all(b).is_ok()
    }
    /// Sends in random fragments, with tiny pauses so that they arrive separately.
    pub fn send_fragmented(&mut self, b: &[u8], rng: &mut Rng, max_frags: usize) -> bool {
        let mut cuts: Vec<usize> = (0..rng.range(0, max_frags)).map(|_| rng.below(b.len() + 1)).collect();
        cuts.push(b.len());
        cuts.sort();
        let mut at = 0;
        for c in cuts {
            if c > at {
                if !self.send(&b[at..c]) {
                    return false;
                }
                at = c;
                if rng.chance(1, 2) {
                    std::thread::sleep(Duration::from_micros(rng.below(1500) as u64));
                }
            }
        }
        true
    }
    pub fn fin(&mut self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
    /// Closes with RST (SO_LINGER 0).
    pub fn reset(self) {
        rst(&self.s);
    }
    fn fill(&mut self, deadline: Instant) -> Option<usize> {
        let mut tmp = [0u8; 65536];
        let now = Instant::now();
        if now >= deadline {
            return None;
        }
        let _ = self
            .s
            .set_read_timeout(Some((deadline - now).max(Duration::from_millis(1))));
        match self.s.read(&mut tmp) {
            Ok(0) => Some(0),
            Ok(n) => {
                self.buf.extend_from_slice(&tmp[..n]);
                Some(n)
            }
            Err(e)
                if e.kind() == std::io::ErrorKind::WouldBlock
                    || e.kind() == std::io::ErrorKind::TimedOut =>
            {
                None
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Some(usize::MAX),
            Err(_) => Some(0),
        }
    }
    /// Reads one response by the strict rules; `head`: response to HEAD (no body).
    pub fn response(&mut self, head: bool) -> Recv {
        let deadline = Instant::now() + self.timeout;
        loop {
            if let Some(r) = parse_head(&self.buf) {
                match r {
                    Err(e) => return Recv::Malformed(e, std::mem::take(&mut self.buf)),
                    Ok((mut m, off)) => {
                        if let Err(e) = check_status_line(&m) {
                            return Recv::Malformed(e, std::mem::take(&mut self.buf));
                        }
                        let len = match strict_len(&m) {
                            Ok(n) => n,
                            Err(e) => return Recv::Malformed(e, std::mem::take(&mut self.buf)),
                        };
                        let len = if head { 0 } else { len };
                        while self.buf.len() < off + len {
                            match self.fill(deadline) {
                                None => return Recv::Timeout(self.buf.clone()),
                                Some(0) => return Recv::Closed(std::mem::take(&mut self.buf)),
                                Some(_) => {}
                            }
                        }
                        m.body = self.buf[off..off + len].to_vec();
                        self.buf.drain(..off + len);
                        return Recv::Msg(m);
                    }
                }
            }
            match self.fill(deadline) {
                None => return Recv::Timeout(self.buf.clone()),
                Some(0) => return Recv::Closed(std::mem::take(&mut self.buf)),
                Some(_) => {}
            }
        }
    }
    /// Reads one request (fake-server side). Requests without content-length have no body.
    pub fn request(&mut self) -> Recv {
        let deadline = Instant::now() + self.timeout;
        loop {
            if let Some(r) = parse_head(&self.buf) {
                match r {
                    Err(e) => return Recv::Malformed(e, std::mem::take(&mut self.buf)),
                    Ok((mut m, off)) => {
                        let len = match strict_len(&m) {
                            Ok(n) => n,
                            Err(e) => return Recv::Malformed(e, std::mem::take(&mut self.buf)),
                        };
                        while self.buf.len() < off + len {
                            match self.fill(deadline) {
                                None => return Recv::Timeout(self.buf.clone()),
                                Some(0) => return Recv::Closed(std::mem::take(&mut self.buf)),
                                Some(_) => {}
                            }
                        }
                        m.body = self.buf[off..off + len].to_vec();
                        self.buf.drain(..off + len);
                        return Recv::Msg(m);
                    }
                }
            }
            match self.fill(deadline) {
                None => return Recv::Timeout(self.buf.clone()),
                Some(0) => return Recv::Closed(std::mem::take(&mut self.buf)),
                Some(_) => {}
            }
        }
    }
    /// Everything until EOF/reset (bounded by the timeout). Returns (bytes, saw_end).
    pub fn drain(&mut self, wait: Duration) -> (Vec<u8>, bool) {
        let deadline = Instant::now() + wait;
        loop {
            match self.fill(deadline) {
                None => return (std::mem::take(&mut self.buf), false),
                Some(0) => return (std::mem::take(&mut self.buf), true),
                Some(_) => {}
            }
        }
    }
    /// Bytes that are available right now beyond what has been consumed, without waiting.
    pub fn peek_now(&mut self) -> usize {
        let _ = self.s.set_nonblocking(true);
        let mut tmp = [0u8; 4096];
        while let Ok(n) = self.s.read(&mut tmp) {
            if n == 0 {
                break;
            }
            self.buf.extend_from_slice(&tmp[..n]);
        }
        let _ = self.s.set_nonblocking(false);
        self.buf.len()
    }
}
pub fn rst(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let l = libc::linger {
        l_onoff: 1,
        l_linger: 0,
    };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as libc::socklen_t,
        );
    }
    let _ = s.shutdown(Shutdown::Both);
}

/// A scriptable server: every accepted connection is handed, with its index, to the script on a
/// thread of its own.
pub struct Fake {
    pub addr: SocketAddr,
    pub accepted: Arc<AtomicUsize>,
    stop: Arc<AtomicBool>,
}
impl Fake {
    pub fn start<F>(script: F) -> Fake
    where
        F: Fn(usize, Conn) + Send + Sync + 'static,
    {
        Fake::start_at(crate::rt::free_addr(), script)
    }
    pub fn start_at<F>(mut addr: SocketAddr, script: F) -> Fake
    where
        F: Fn(usize, Conn) + Send + Sync + 'static,
    {
        let ip = match addr.ip() {
            std::net::IpAddr::V4(ip) => ip.octets(),
            _ => crate::rt::loopback(0, 1),
        };
        let mut listener = TcpListener::bind(addr);
        for _ in 0..50 {
            if listener.is_ok() {
                break;
            }
            addr = crate::rt::free_addr_on(ip);
            listener = TcpListener::bind(addr);
        }
        let listener = match listener {
            Ok(l) => l,
            Err(e) => {
                eprintln!("fake server: {}", e);
                std::process::exit(2);
            }
        };
        Fake::with_listener(listener, script)
    }
    pub fn with_listener<F>(listener: TcpListener, script: F) -> Fake
    where
        F: Fn(usize, Conn) + Send + Sync + 'static,
    {
        let addr = listener.local_addr().unwrap();
        let accepted = Arc::new(AtomicUsize::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let (a, st) = (accepted.clone(), stop.clone());
        let script = Arc::new(script);
        crate::rt::thread(move || {
            let _ = listener.set_nonblocking(false);
            loop {
                match listener.accept() {
                    Ok((s, _)) => {
                        if st.load(Ordering::SeqCst) {
                            return;
                        }
                        let i = a.fetch_add(1, Ordering::SeqCst);
                        let sc = script.clone();
                        crate::rt::thread(move || sc(i, Conn::from(s)));
                    }
                    Err(_) => return,
                }
            }
        });
        Fake {
            addr,
            accepted,
            stop,
        }
    }
    pub fn accepted(&self) -> usize {
        self.accepted.load(Ordering::SeqCst)
    }
}
impl Drop for Fake {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect_timeout(&self.addr, Duration::from_millis(200));
    }
}

pub fn http_response(status: u16, headers: &[(&str, &str)], body: &[u8]) -> Vec<u8> {
    let mut v = format!("HTTP/1.1 {} X\r\n", status).into_bytes();
    for (k, val) in headers {
        v.extend_from_slice(format!("{}: {}\r\n", k, val).as_bytes());
    }
    v.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
    v.extend_from_slice(body);
    v
}
pub fn http_request(method: &str, target: &str, headers: &[(&str, &str)], body: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {} HTTP/1.1\r\n", method, target).into_bytes();
    for (k, val) in headers {
        v.extend_from_slice(format!("{}: {}\r\n", k, val).as_bytes());
    }
    v.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
    v.extend_from_slice(body);
    v
}

/// `body` in chunked framing: any number of chunks, spellings of the sizes, extensions, trailers.
pub fn chunked(body: &[u8], r: &mut crate::rng::Rng) -> Vec<u8> {
    let mut v = Vec::new();
    let mut rest = body;
    while !rest.is_empty() {
        let k = match r.below(6) {
            0 => 1,
            1 => rest.len().min(r.range(1, 20)),
            2 => rest.len().min(r.range(1, 5000)),
            _ => r.range(1, rest.len()),
        };
        // many tiny chunks of a long body would take long
        let k = if rest.len() > 3000 { k.max(rest.len() / 9) } else { k };
        let size = match r.below(4) {
            0 => format!("{:X}", k),
            1 => format!("{:04x}", k),
            _ => format!("{:x}", k),
        };
        let ext = *r.pick(&["", "", "", "", ";a", ";name=value", ";q=\"x\""]);
        v.extend_from_slice(format!("{}{}\r\n", size, ext).as_bytes());
        v.extend_from_slice(&rest[..k]);
        v.extend_from_slice(b"\r\n");
        rest = &rest[k..];
    }
    v.extend_from_slice(r.pick(&["0\r\n\r\n", "0\r\n\r\n", "0\r\n\r\n", "000\r\n\r\n", "0;last\r\n\r\n", "0\r\nX-Trailer: 1\r\n\r\n", "0\r\nX-A: 1\r\nX-B: 2\r\n\r\n"]).as_bytes());
    v
}
/// A request or response with a chunked body; also the length of its head.
pub fn chunked_message(start: &str, headers: &[(&str, &str)], body: &[u8], r: &mut crate::rng::Rng) -> (Vec<u8>, usize) {
    let mut v = format!("{}\r\n", start).into_bytes();
    for (k, val) in headers {
        v.extend_from_slice(format!("{}: {}\r\n", k, val).as_bytes());
    }
    v.extend_from_slice(r.pick(&["Transfer-Encoding: chunked\r\n\r\n", "Transfer-Encoding: chunked\r\n\r\n", "transfer-encoding: Chunked\r\n\r\n"]).as_bytes());
    let head = v.len();
    v.extend_from_slice(&chunked(body, r));
    (v, head)
}

/// Simple shared event log.
#[derive(Clone)]
pub struct Log<T>(Arc<Mutex<Vec<T>>>);
impl<T: Clone> Default for Log<T> {
    fn default() -> Self {
        Log(Arc::new(Mutex::new(Vec::new())))
    }
}
impl<T: Clone> Log<T> {
    pub fn push(&self, t: T) {
        self.0.lock().unwrap().push(t);
    }
    pub fn snapshot(&self) -> Vec<T> {
        self.0.lock().unwrap().clone()
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    pub fn clear(&self) {
        self.0.lock().unwrap().clear();
    }
}
