//! A running htrpc server with dynamic procedures, plus batch calling.
use crate::ctx::Ctx;
use crate::dynp::*;
use crate::rt::*;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::Arc;

pub struct Lab {
    pub server: Server,
    pub board: Arc<Board>,
}
impl Lab {
    pub fn start(threads: usize, slots: &[usize]) -> Lab {
        let board = Arc::new(Board::default());
        let b2 = board.clone();
        let slots = slots.to_vec();
        let server = Server::start(threads, move |b| {
            for n in &slots {
                if !register(b, *n, &b2) {
                    eprintln!("registration of slot {} refused: {:?}", n, slot(*n).ep);
                }
            }
        });
        Lab { server, board }
    }
    pub fn addr(&self) -> SocketAddr {
        self.server.addr
    }
    /// Removes and returns the events of one call.
    pub fn take_events(&self, id: u64) -> Vec<Event> {
        let mut g = self.board.events.lock().unwrap();
        let (a, b) = std::mem::take(&mut *g)
            .into_iter()
            .partition(|e| event_id(&slot(e.slot), &e.req) == Some(id));
        *g = b;
        a
    }
    /// Events by call id.
    pub fn events_by_id(&self) -> HashMap<Option<u64>, Vec<Event>> {
        let mut m: HashMap<_, Vec<Event>> = HashMap::new();
        for e in self.board.take() {
            m.entry(event_id(&slot(e.slot), &e.req)).or_default().push(e);
        }
        m
    }
}

pub type CallOut = Out<RespVal, htrpc::Error>;

/// Starts all calls at once and waits for all of them.
pub fn batch(cli: &Exec, addr: SocketAddr, calls: &[(usize, ReqVal)]) -> Vec<CallOut> {
    let pend: Vec<_> = calls
        .iter()
        .map(|(n, r)| cli.start(call(addr, *n, r.clone())))
        .collect();
    pend.iter().map(|p| p.wait(WATCHDOG)).collect()
}

/// Body that starts with the call id.
pub fn id_body(id: u64, rest: &[u8]) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    v.extend_from_slice(rest);
    v
}

/// Reports panics of library threads and dead servers: used by every check.
pub fn watch(ctx: &Ctx, lab: &Lab, what: &str) {
    if !lab.server.healthy() {
        ctx.violate("server-ended", format!("the server ended during {}", what));
    }
    report_panics(ctx, what);
}
pub fn report_panics(ctx: &Ctx, what: &str) {
    for p in library_panics() {
        // Panics of handler code of the harness itself are not the library's.
        if p.contains("htmon") || p.contains("src/dynp.rs") || p.contains("harness") {
            ctx.inconclusive(format!("panic in harness code: {}", p));
        } else {
            let loc = p.rsplit(" at ").next().unwrap_or("").to_owned();
            ctx.violate("panic", format!("library thread panicked during {}: {} ({})", what, p, loc));
        }
    }
}
