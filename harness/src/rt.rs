//! Executors, watchdogs, panic monitor.
use fibers::{Executor, Spawn, ThreadPoolExecutor};
use futures::{Async, Future, Poll};
use std::cell::Cell;
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Handle = fibers::executor::ThreadPoolExecutorHandle;

thread_local!(static HARNESS: Cell<bool> = Cell::new(false));
static PANICS: Mutex<Vec<(bool, String)>> = Mutex::new(Vec::new());

/// Installs the panic monitor: every panic is recorded with its thread class and location.
pub fn install_panic_monitor() {
    mark_harness();
    std::panic::set_hook(Box::new(|info| {
        let harness = HARNESS.try_with(|h| h.get()).unwrap_or(false);
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if msg == "Poller is down" {
            // fibers' own way of noticing that its executor is being shut down
            return;
        }
        let text = format!("{} at {}", msg, loc);
        if harness {
            eprintln!("harness panic: {}", text);
        }
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push((harness, text));
    }));
}
pub fn mark_harness() {
    HARNESS.with(|h| h.set(true));
}
/// Panics on threads that run the library (fiber schedulers).
pub fn library_panics() -> Vec<String> {
    PANICS
        .lock()
        .unwrap()
        .iter()
        .filter(|p| !p.0)
        .map(|p| p.1.clone())
        .collect()
}
pub fn harness_panics() -> usize {
    PANICS.lock().unwrap().iter().filter(|p| p.0).count()
}
pub fn thread<F: FnOnce() + Send + 'static>(f: F) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        mark_harness();
        f()
    })
}

/// Outcome of driving a future under a watchdog.
#[derive(Debug)]
pub enum Out<T, E> {
    Ok(T),
    Err(E),
    /// No result within the watchdog time.
    Stalled,
    /// The future vanished without a result (the executor or its thread died).
    Vanished,
}
impl<T, E: std::fmt::Display> Out<T, E> {
    pub fn describe(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => format!("error({})", e.to_string().lines().next().unwrap_or("")),
            Out::Stalled => "stalled".into(),
            Out::Vanished => "vanished".into(),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

pub struct Exec {
    pub handle: Handle,
    stop: Arc<AtomicBool>,
    dead: Arc<AtomicBool>,
    th: Option<std::thread::JoinHandle<()>>,
    aux: std::sync::Mutex<Vec<Exec>>,
}
impl Exec {
    /// Starts a pool, on this executor or now and then on one of its own.
    pub fn spawn_pool(&self, pool: htrpc::pool::RpcClientPool) {
        static N: AtomicUsize = AtomicUsize::new(0);
        let pool = nag(pool);
        if N.fetch_add(1, Ordering::Relaxed) % 4 == 3 {
            let own = Exec::new(1);
            own.handle.spawn(pool);
            self.aux.lock().unwrap().push(own);
        } else {
            self.handle.spawn(pool);
        }
    }
    pub fn new(threads: usize) -> Exec {
        // mio caches a symbol lookup without synchronisation: have it done before executors start
        // side by side.
        static WARM: std::sync::Once = std::sync::Once::new();
        WARM.call_once(|| drop(fibers::InPlaceExecutor::new()));
        let (tx, rx) = mpsc::channel();
        let stop = Arc::new(AtomicBool::new(false));
        let dead = Arc::new(AtomicBool::new(false));
        let (s, d) = (stop.clone(), dead.clone());
        let th = std::thread::spawn(move || {
            let mut ex = match ThreadPoolExecutor::with_thread_count(threads) {
                Ok(ex) => ex,
                Err(e) => {
                    eprintln!("cannot start executor: {}", e);
                    std::process::exit(2);
                }
            };
            tx.send(ex.handle()).unwrap();
            while !s.load(Ordering::SeqCst) {
                if let Err(_e) = ex.run_once() {
                    d.store(true, Ordering::SeqCst);
                    break;
                }
            }
            // Idle scheduler threads block for ever after the executor is gone (and keep sockets
            // open); keep them awake so that they notice the end.
            for _ in 0..threads * 2 {
                ex.handle().spawn(Spinner);
            }
            for _ in 0..threads * 2 + 6 {
                if ex.run_once().is_err() {
                    break;
                }
            }
        });
        Exec {
            handle: rx.recv().expect("executor handle"),
            stop,
            dead,
            th: Some(th),
            aux: Default::default(),
        }
    }
    pub fn is_dead(&self) -> bool {
        self.dead.load(Ordering::SeqCst)
    }
    /// Starts a future; the result is delivered over the returned channel.
    pub fn start<F>(&self, f: F) -> Pending<F::Item, F::Error>
    where
        F: Future + Send + 'static,
        F::Item: Send + 'static,
        F::Error: Send + 'static,
    {
        let (tx, rx) = mpsc::channel();
        let tx2 = tx.clone();
        drop(tx);
        self.handle.spawn(nag(f).then(move |r| {
            let _ = tx2.send(r);
            Ok(())
        }));
        Pending { rx }
    }
    pub fn run<F>(&self, f: F, watchdog: Duration) -> Out<F::Item, F::Error>
    where
        F: Future + Send + 'static,
        F::Item: Send + 'static,
        F::Error: Send + 'static,
    {
        self.start(f).wait(watchdog)
    }
    /// Starts a future that can be dropped from outside (an abandoned call).
    pub fn start_abortable<F>(&self, f: F) -> (Pending<F::Item, F::Error>, Abort)
    where
        F: Future + Send + 'static,
        F::Item: Send + 'static,
        F::Error: Send + 'static,
    {
        let flag = Arc::new(AtomicBool::new(false));
        let dropped = Arc::new(AtomicBool::new(false));
        let (monitor_tx, monitor_rx) = fibers::sync::oneshot::channel::<()>();
        let (tx, rx) = mpsc::channel();
        self.handle.spawn(AbortableFut {
            inner: Some(nag(f)),
            abort: monitor_rx,
            tx: Some(tx),
            dropped: dropped.clone(),
        });
        (
            Pending { rx },
            Abort {
                tx: Some(monitor_tx),
                dropped,
                _flag: flag,
            },
        )
    }
    pub fn shutdown(mut self) {
        self.stop_now();
    }
    fn stop_now(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(t) = self.th.take() {
            let _ = t.join();
        }
    }
}
impl Drop for Exec {
    fn drop(&mut self) {
        self.stop_now();
    }
}

/// Polls its future more often than necessary, as happens to a future that shares its fiber with
/// others (`join_all`, `select`): again at once, and after short whiles.
struct Nag<F> {
    inner: F,
    ticks: usize,
    tick: fibers::time::timer::Timeout,
}
impl<F: Future> Future for Nag<F> {
    type Item = F::Item;
    type Error = F::Error;
    fn poll(&mut self) -> Poll<F::Item, F::Error> {
        for _ in 0..2 {
            if let Async::Ready(v) = self.inner.poll()? {
                return Ok(Async::Ready(v));
            }
        }
        while self.ticks > 0 {
            match self.tick.poll() {
                Ok(Async::NotReady) => break,
                _ => {
                    self.ticks -= 1;
                    self.tick = fibers::time::timer::timeout(Duration::from_millis(1 << (8 - self.ticks.min(8))));
                    if let Async::Ready(v) = self.inner.poll()? {
                        return Ok(Async::Ready(v));
                    }
                }
            }
        }
        Ok(Async::NotReady)
    }
}
/// Every other future is nagged.
pub fn nag<F>(f: F) -> Box<dyn Future<Item = F::Item, Error = F::Error> + Send>
where
    F: Future + Send + 'static,
{
    static N: AtomicUsize = AtomicUsize::new(0);
    if N.fetch_add(1, Ordering::Relaxed) % 2 == 0 {
        Box::new(Nag { inner: f, ticks: 8, tick: fibers::time::timer::timeout(Duration::from_millis(1)) })
    } else {
        Box::new(f)
    }
}

/// A spawner that nags every other fiber.
struct NagSpawn(Handle);
impl Spawn for NagSpawn {
    fn spawn_boxed(&self, fiber: Box<dyn Future<Item = (), Error = ()> + Send>) {
        self.0.spawn_boxed(nag(fiber));
    }
}

struct Spinner;
impl Future for Spinner {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        // A fiber that does not park stays runnable.
        Ok(Async::NotReady)
    }
}

struct AbortableFut<F: Future> {
    inner: Option<F>,
    abort: fibers::sync::oneshot::Receiver<()>,
    tx: Option<mpsc::Sender<Result<F::Item, F::Error>>>,
    dropped: Arc<AtomicBool>,
}
impl<F: Future> Future for AbortableFut<F> {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        if let Ok(Async::Ready(())) = self.abort.poll() {
            self.inner = None;
            self.tx = None;
            self.dropped.store(true, Ordering::SeqCst);
            return Ok(Async::Ready(()));
        }
        let r = match self.inner.as_mut() {
            None => return Ok(Async::Ready(())),
            Some(f) => f.poll(),
        };
        match r {
            Ok(Async::NotReady) => Ok(Async::NotReady),
            Ok(Async::Ready(v)) => {
                self.inner = None;
                if let Some(tx) = self.tx.take() {
                    let _ = tx.send(Ok(v));
                }
                Ok(Async::Ready(()))
            }
            Err(e) => {
                self.inner = None;
                if let Some(tx) = self.tx.take() {
                    let _ = tx.send(Err(e));
                }
                Ok(Async::Ready(()))
            }
        }
    }
}
pub struct Abort {
    tx: Option<fibers::sync::oneshot::Sender<()>>,
    pub dropped: Arc<AtomicBool>,
    _flag: Arc<AtomicBool>,
}
impl Abort {
    /// Drops the call; returns whether it was dropped before finishing (waits a little).
    pub fn abort(&mut self) {
        if let Some(tx) = self.tx.take() {
            let _ = tx.send(());
        }
    }
}

pub struct Pending<T, E> {
    rx: mpsc::Receiver<Result<T, E>>,
}
impl<T, E> Pending<T, E> {
    pub fn wait(&self, watchdog: Duration) -> Out<T, E> {
        match self.rx.recv_timeout(watchdog) {
            Ok(Ok(v)) => Out::Ok(v),
            Ok(Err(e)) => Out::Err(e),
            Err(mpsc::RecvTimeoutError::Timeout) => Out::Stalled,
            Err(mpsc::RecvTimeoutError::Disconnected) => Out::Vanished,
        }
    }
    pub fn try_get(&self) -> Option<Out<T, E>> {
        match self.rx.try_recv() {
            Ok(Ok(v)) => Some(Out::Ok(v)),
            Ok(Err(e)) => Some(Out::Err(e)),
            Err(mpsc::TryRecvError::Empty) => None,
            Err(mpsc::TryRecvError::Disconnected) => Some(Out::Vanished),
        }
    }
}

/// Default watchdog for a single operation. Its firing alone is never a verdict: see `confirm`.
pub const WATCHDOG: Duration = Duration::from_secs(15);

static NEXT_PORT: AtomicUsize = AtomicUsize::new(0);

/// A loopback IP of this process's own network (another check may run beside this one).
pub fn loopback(net: usize, host: u8) -> [u8; 4] {
    static NET: std::sync::OnceLock<(u8, usize)> = std::sync::OnceLock::new();
    let (a, b) = *NET.get_or_init(|| {
        use std::io::Read;
        let mut x = [0u8; 2];
        let _ = std::fs::File::open("/dev/urandom").and_then(|mut f| f.read_exact(&mut x));
        let a = 1 + x[0] % 254;
        match std::net::TcpListener::bind((std::net::Ipv4Addr::new(127, a, x[1], 1), 0)) {
            Ok(_) => (a, x[1] as usize),
            Err(_) => (0, 0),
        }
    });
    [127, a, ((b + net) % 256) as u8, host]
}

/// A loopback address with a port below the ephemeral range that is currently free.
///
/// No address is given out twice: once the ports have been used up, the next loopback network
/// follows (a pool may still hold connections to an address whose listener is long gone).
pub fn free_addr() -> SocketAddr {
    let lap = NEXT_PORT.load(Ordering::SeqCst) / 20000;
    free_addr_on(loopback(lap, 1))
}
pub fn free_addr_on(ip: [u8; 4]) -> SocketAddr {
    let pid = std::process::id() as usize;
    for _ in 0..20000 {
        let n = NEXT_PORT.fetch_add(1, Ordering::SeqCst);
        let port = 10000 + ((pid.wrapping_mul(7919) + n) % 20000) as u16;
        let addr = SocketAddr::from((ip, port));
        if let Ok(l) = std::net::TcpListener::bind(addr) {
            drop(l);
            return addr;
        }
    }
    eprintln!("no free port");
    std::process::exit(2);
}

/// Now and then an IPv6 address, where there is any (each at most once).
fn server_addr() -> SocketAddr {
    let addr = free_addr();
    let n = NEXT_PORT.load(Ordering::SeqCst);
    if n % 5 == 0 && n < 20000 {
        let v6 = SocketAddr::from((std::net::Ipv6Addr::LOCALHOST, addr.port()));
        if std::net::TcpListener::bind(v6).is_ok() {
            return v6;
        }
    }
    addr
}

pub struct Server {
    pub addr: SocketAddr,
    pub ended: Arc<AtomicBool>,
    pub exec: Exec,
}
impl Server {
    /// Starts an htrpc server on an executor of its own.
    pub fn start<F>(threads: usize, mut setup: F) -> Server
    where
        F: FnMut(&mut htrpc::RpcServerBuilder),
    {
        for _ in 0..20 {
            let exec = Exec::new(threads);
            let addr = server_addr();
            let mut b = htrpc::RpcServerBuilder::new(addr);
            if FORMAT_LOGS.load(Ordering::Relaxed) {
                b.set_logger(slog::Logger::root(FormattingDrain, slog::o!()));
            }
            setup(&mut b);
            let ended = Arc::new(AtomicBool::new(false));
            let e2 = ended.clone();
            let server = nag(b.start(NagSpawn(exec.handle.clone())));
            // The server may live on another executor than the connections it accepts.
            let apart = NEXT_PORT.load(Ordering::SeqCst) % 7 == 3;
            let own = if apart { Some(Exec::new(1)) } else { None };
            own.as_ref().unwrap_or(&exec).handle.spawn(server.then(move |r| {
                e2.store(true, Ordering::SeqCst);
                if let Err(e) = r {
                    eprintln!("server future ended: {}", e.to_string().lines().next().unwrap_or(""));
                }
                Ok(())
            }));
            exec.aux.lock().unwrap().extend(own);
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_secs(10) {
                if ended.load(Ordering::SeqCst) {
                    break;
                }
                if TcpStream::connect(addr).is_ok() {
                    // Was it this server that accepted, or had another process taken the port?
                    if addr.is_ipv6() {
                        std::thread::sleep(Duration::from_millis(20));
                    }
                    if ended.load(Ordering::SeqCst) {
                        break;
                    }
                    return Server { addr, ended, exec };
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        eprintln!("cannot start server");
        std::process::exit(2);
    }
    pub fn healthy(&self) -> bool {
        !self.ended.load(Ordering::SeqCst) && !self.exec.is_dead()
    }
}

/// Whether servers get a logger that formats every record (the default logger formats nothing, so
/// that a panic or wrong access in a log statement would go unnoticed).
pub static FORMAT_LOGS: AtomicBool = AtomicBool::new(true);

/// Formats every record into a thread-local buffer: no locks, so it orders nothing.
struct FormattingDrain;
impl slog::Drain for FormattingDrain {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, record: &slog::Record, values: &slog::OwnedKVList) -> Result<(), slog::Never> {
        use slog::KV;
        use std::fmt::Write;
        struct Ser<'a>(&'a mut String);
        impl<'a> slog::Serializer for Ser<'a> {
            fn emit_arguments(&mut self, key: slog::Key, val: &std::fmt::Arguments) -> slog::Result {
                let _ = write!(self.0, " {}={}", key, val);
                Ok(())
            }
        }
        thread_local!(static BUF: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
        BUF.with(|b| {
            if let Ok(mut b) = b.try_borrow_mut() {
                b.clear();
                let _ = write!(b, "{} {}", record.level(), record.msg());
                let _ = values.serialize(record, &mut Ser(&mut b));
                let _ = record.kv().serialize(record, &mut Ser(&mut b));
            }
        });
        Ok(())
    }
}
