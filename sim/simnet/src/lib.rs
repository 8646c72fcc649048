//! Simulated network: byte streams between simulated nodes.
//!
//! A stream keeps what TCP promises (order, no loss, no duplication while the connection lives)
//! and nothing more: chunk sizes, latency, stalls, refusal and the moment it breaks are decided
//! by the simulator.
use bytes::Bytes;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::Sleep;

const WINDOW: usize = 256 * 1024;

#[derive(Clone, Copy, Debug)]
pub struct Link {
    /// one-way base latency
    pub base_ms: u64,
    /// further latencies drawn per chunk are up to this
    pub jitter_ms: u64,
}
impl Default for Link {
    fn default() -> Self {
        Link { base_ms: 0, jitter_ms: 0 }
    }
}

#[derive(Default)]
struct Dir {
    queue: VecDeque<(u64, Bytes)>,
    bytes: usize,
    last: u64,
    fin: Option<u64>,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    /// the reading side is gone
    reader_gone: bool,
}

struct Conn {
    /// nodes of the two ends; dir[i] carries bytes written by end i
    node: [u32; 2],
    dir: [Dir; 2],
    reset: Option<io::ErrorKind>,
}
impl Conn {
    fn wake_all(&mut self) -> Vec<Waker> {
        let mut v = vec![];
        for d in self.dir.iter_mut() {
            v.extend(d.rwaker.take());
            v.extend(d.wwaker.take());
        }
        v
    }
}

struct Listener {
    node: u32,
    backlog: VecDeque<SimStream>,
    waker: Option<Waker>,
    id: u64,
}

#[derive(Default)]
struct Net {
    listeners: BTreeMap<SocketAddr, Listener>,
    conns: Vec<std::sync::Weak<Mutex<Conn>>>,
    links: BTreeMap<(u32, u32), Link>,
    partitions: BTreeMap<(u32, u32), u64>,
    refuse_until: BTreeMap<SocketAddr, u64>,
    next_id: u64,
    connects: u64,
    accepted: u64,
    chunks: u64,
}

thread_local! {
    static NET: RefCell<Net> = RefCell::new(Net::default());
}

fn key(a: u32, b: u32) -> (u32, u32) {
    (a.min(b), a.max(b))
}
fn ms(n: u64) -> u64 {
    n * 1_000_000
}

pub fn reset_world() {
    let old = NET.with(|n| std::mem::take(&mut *n.borrow_mut()));
    drop(old);
}
pub fn set_link(a: u32, b: u32, l: Link) {
    NET.with(|n| n.borrow_mut().links.insert(key(a, b), l));
}
/// No byte passes between the two nodes until `until` (virtual time).
pub fn partition(a: u32, b: u32, until: Duration) {
    NET.with(|n| {
        let mut n = n.borrow_mut();
        let e = n.partitions.entry(key(a, b)).or_insert(0);
        *e = (*e).max(until.as_nanos() as u64);
    });
}
pub fn refuse(addr: SocketAddr, until: Duration) {
    NET.with(|n| n.borrow_mut().refuse_until.insert(addr, until.as_nanos() as u64));
}
fn partitioned_until(a: u32, b: u32) -> u64 {
    NET.with(|n| n.borrow().partitions.get(&key(a, b)).copied().unwrap_or(0))
}
fn link(a: u32, b: u32) -> Link {
    NET.with(|n| n.borrow().links.get(&key(a, b)).copied().unwrap_or_default())
}
fn live_conns() -> Vec<Arc<Mutex<Conn>>> {
    NET.with(|n| {
        let mut n = n.borrow_mut();
        n.conns.retain(|c| c.strong_count() > 0);
        n.conns.iter().filter_map(|c| c.upgrade()).collect()
    })
}
/// Breaks every connection between the two nodes; returns how many there were.
pub fn reset_links(a: u32, b: u32) -> usize {
    let mut count = 0;
    for c in live_conns() {
        let ws = {
            let mut c = c.lock().unwrap();
            if key(c.node[0], c.node[1]) != key(a, b) || c.reset.is_some() {
                continue;
            }
            count += 1;
            c.reset = Some(io::ErrorKind::ConnectionReset);
            c.wake_all()
        };
        ws.into_iter().for_each(|w| w.wake());
    }
    count
}
/// The process of the node is gone: its listeners close and its connections break, either at once
/// or after what it had already written was delivered.
pub fn node_crashed(n: u32, abrupt: bool) {
    NET.with(|net| net.borrow_mut().listeners.retain(|_, l| l.node != n));
    for c in live_conns() {
        let ws = {
            let mut c = c.lock().unwrap();
            if c.node[0] != n && c.node[1] != n {
                continue;
            }
            let me = if c.node[0] == n { 0 } else { 1 };
            if abrupt {
                c.reset = Some(io::ErrorKind::ConnectionReset);
            } else {
                let at = c.dir[me].last.max(simcore::now_ns());
                c.dir[me].fin.get_or_insert(at);
                c.dir[1 - me].reader_gone = true;
            }
            c.wake_all()
        };
        ws.into_iter().for_each(|w| w.wake());
    }
}
pub fn stats() -> (u64, u64, u64) {
    NET.with(|n| {
        let n = n.borrow();
        (n.connects, n.accepted, n.chunks)
    })
}
pub fn is_listening(addr: &SocketAddr) -> bool {
    NET.with(|n| n.borrow().listeners.contains_key(addr))
}

fn latency(l: Link) -> u64 {
    if l.jitter_ms == 0 {
        return ms(l.base_ms);
    }
    let p = simcore::strategy().net;
    let k = simcore::choose_p("netlat", 16, p) as u64;
    ms(l.base_ms + l.jitter_ms * k / 15)
}

pub struct SimStream {
    conn: Arc<Mutex<Conn>>,
    side: usize,
    sleep: Option<Pin<Box<Sleep>>>,
    pub peer: SocketAddr,
    pub local: SocketAddr,
}
impl std::fmt::Debug for SimStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimStream({})", self.side)
    }
}

pub async fn connect(host: &str, port: u16) -> io::Result<SimStream> {
    let ip = if host == "localhost" { "127.0.0.1" } else { host };
    let addr: SocketAddr = format!("{}:{}", ip, port)
        .parse()
        .map_err(|_| io::Error::new(io::ErrorKind::Other, "failed to lookup address information"))?;
    let me = simcore::current_node();
    let owner = NET.with(|n| {
        let mut n = n.borrow_mut();
        n.connects += 1;
        n.listeners.get(&addr).map(|l| l.node)
    });
    let other = owner.unwrap_or(u32::MAX);
    let l = link(me, other);
    // the SYN is retransmitted through a partition for about two minutes
    let started = simcore::now_ns();
    loop {
        let until = partitioned_until(me, other);
        let now = simcore::now_ns();
        if until <= now {
            break;
        }
        if now >= started + ms(127_000) {
            simcore::fault("connect-timeout");
            return Err(io::ErrorKind::TimedOut.into());
        }
        tokio::time::sleep(Duration::from_nanos((until - now).min(ms(1000)))).await;
    }
    let lat = latency(l);
    if lat > 0 {
        tokio::time::sleep(Duration::from_nanos(2 * lat)).await;
    } else {
        tokio::task::yield_now().await;
    }
    let refuse = NET.with(|n| n.borrow().refuse_until.get(&addr).copied().unwrap_or(0));
    if refuse > simcore::now_ns() {
        simcore::fault("connect-refused");
        return Err(io::ErrorKind::ConnectionRefused.into());
    }
    NET.with(|n| {
        let mut n = n.borrow_mut();
        n.next_id += 1;
        let id = n.next_id;
        let Some(lst) = n.listeners.get_mut(&addr) else {
            return Err(io::ErrorKind::ConnectionRefused.into());
        };
        let conn = Arc::new(Mutex::new(Conn { node: [me, lst.node], dir: Default::default(), reset: None }));
        let local = SocketAddr::new(addr.ip(), 40000 + (id % 20000) as u16);
        lst.backlog.push_back(SimStream { conn: conn.clone(), side: 1, sleep: None, peer: local, local: addr });
        let w = lst.waker.take();
        n.accepted += 1;
        n.conns.push(Arc::downgrade(&conn));
        if let Some(w) = w {
            w.wake();
        }
        Ok(SimStream { conn, side: 0, sleep: None, peer: addr, local })
    })
}

pub struct SimListener {
    addr: SocketAddr,
    id: u64,
}
pub fn bind(addr: SocketAddr) -> io::Result<SimListener> {
    NET.with(|n| {
        let mut n = n.borrow_mut();
        if n.listeners.contains_key(&addr) {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        n.next_id += 1;
        let id = n.next_id;
        n.listeners.insert(
            addr,
            Listener { node: simcore::current_node(), backlog: VecDeque::new(), waker: None, id },
        );
        Ok(SimListener { addr, id })
    })
}
impl SimListener {
    pub fn poll_accept(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<SimStream>> {
        NET.with(|n| {
            let mut n = n.borrow_mut();
            match n.listeners.get_mut(&self.addr) {
                Some(l) if l.id == self.id => match l.backlog.pop_front() {
                    Some(s) => Poll::Ready(Ok(s)),
                    None => {
                        l.waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                },
                _ => Poll::Pending,
            }
        })
    }
}
impl Drop for SimListener {
    fn drop(&mut self) {
        let old = NET
            .try_with(|n| {
                let mut n = n.borrow_mut();
                if n.listeners.get(&self.addr).map(|l| l.id) == Some(self.id) {
                    n.listeners.remove(&self.addr)
                } else {
                    None
                }
            })
            .ok();
        drop(old);
    }
}

impl AsyncRead for SimStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let this = &mut *self;
        loop {
            let now = simcore::now_ns();
            let mut c = this.conn.lock().unwrap();
            if let Some(k) = c.reset {
                return Poll::Ready(Err(k.into()));
            }
            let blocked = partitioned_until(c.node[0], c.node[1]);
            let d = &mut c.dir[1 - this.side];
            let due = match d.queue.front() {
                Some((at, _)) => (*at).max(if blocked > now { blocked } else { 0 }),
                None => match d.fin {
                    Some(at) => at.max(if blocked > now { blocked } else { 0 }),
                    None => {
                        d.rwaker = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                },
            };
            if due <= now {
                let Some((at, chunk)) = d.queue.pop_front() else {
                    return Poll::Ready(Ok(())); // end of stream
                };
                let mut n = chunk.len().min(buf.remaining());
                if n > 1 {
                    let p = simcore::strategy().net;
                    match simcore::choose_p("netrd", 8, p) {
                        0..=4 => {}
                        5 => n = 1,
                        6 => n /= 2,
                        _ => n = n.min(9),
                    }
                }
                buf.put_slice(&chunk[..n]);
                d.bytes -= n;
                if n < chunk.len() {
                    d.queue.push_front((at, chunk.slice(n..)));
                }
                let w = d.wwaker.take();
                drop(c);
                if let Some(w) = w {
                    w.wake();
                }
                return Poll::Ready(Ok(()));
            }
            d.rwaker = Some(cx.waker().clone());
            drop(c);
            let dur = Duration::from_nanos(due - now);
            let mut s = Box::pin(tokio::time::sleep(dur));
            match s.as_mut().poll(cx) {
                Poll::Pending => {
                    this.sleep = Some(s);
                    return Poll::Pending;
                }
                Poll::Ready(()) => continue,
            }
        }
    }
}

impl AsyncWrite for SimStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let mut c = self.conn.lock().unwrap();
        if let Some(k) = c.reset {
            return Poll::Ready(Err(k.into()));
        }
        let me = c.node[self.side];
        if simcore::node_dead(me) {
            return Poll::Pending;
        }
        let l = link(c.node[0], c.node[1]);
        let d = &mut c.dir[self.side];
        if d.reader_gone || d.fin.is_some() {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let room = WINDOW.saturating_sub(d.bytes);
        if room == 0 {
            d.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = room.min(data.len());
        if n > 16 {
            let p = simcore::strategy().net;
            match simcore::choose_p("netwr", 8, p) {
                0..=5 => {}
                6 => n /= 2,
                _ => n = 16,
            }
        }
        let at = (simcore::now_ns() + latency(l)).max(d.last);
        d.last = at;
        d.bytes += n;
        d.queue.push_back((at, Bytes::copy_from_slice(&data[..n])));
        let w = d.rwaker.take();
        drop(c);
        NET.with(|n| n.borrow_mut().chunks += 1);
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let w = {
            let mut c = self.conn.lock().unwrap();
            let l = link(c.node[0], c.node[1]);
            let d = &mut c.dir[self.side];
            let at = d.last.max(simcore::now_ns() + ms(l.base_ms));
            d.fin.get_or_insert(at);
            d.rwaker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}

impl Drop for SimStream {
    fn drop(&mut self) {
        if !simcore::active() {
            return;
        }
        let ws = {
            let mut c = self.conn.lock().unwrap();
            if simcore::node_dead(c.node[self.side]) {
                return; // the crash itself decided how the connection ends
            }
            let l = link(c.node[0], c.node[1]);
            let me = self.side;
            let at = c.dir[me].last.max(simcore::now_ns() + ms(l.base_ms));
            c.dir[me].fin.get_or_insert(at);
            c.dir[1 - me].reader_gone = true;
            c.wake_all()
        };
        ws.into_iter().for_each(|w| w.wake());
    }
}
