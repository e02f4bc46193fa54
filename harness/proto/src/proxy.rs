//! A TCP relay that ends the connection after a number of bytes.
use crate::net::*;
use std::net::SocketAddr;
use std::sync::Arc;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::Notify;
use tokio::task::JoinHandle;

#[derive(Clone, Copy, Debug)]
pub struct Cut {
    /// Bytes let through towards the server, and towards the client.
    pub up: usize,
    pub down: usize,
    /// End by a reset rather than an orderly close.
    pub reset: bool,
    /// Bytes written at a time.
    pub chunk: usize,
}
pub const WHOLE: Cut = Cut { up: usize::MAX, down: usize::MAX, reset: false, chunk: usize::MAX };

#[derive(Clone, Default, Debug)]
pub struct Passed {
    pub up: usize,
    pub down: usize,
    /// Requests (streams) whose end was let through.
    pub ended: usize,
    /// Where the frames sent by the client end.
    pub frames: Vec<usize>,
}

/// Finds the ends of HTTP/2 frames in what a client sends.
#[derive(Default)]
struct Frames {
    seen: usize,
    head: Vec<u8>,
    /// Bytes of the present frame's payload still to come.
    left: usize,
    last: bool,
    inside: bool,
}
impl Frames {
    fn feed(&mut self, b: &[u8], p: &mut Passed) {
        for x in b {
            self.seen += 1;
            if self.seen <= 24 {
                if self.seen == 24 {
                    p.frames.push(24);
                }
                continue;
            }
            if !self.inside {
                self.head.push(*x);
                if self.head.len() == 9 {
                    let h = &self.head;
                    self.left = (h[0] as usize) << 16 | (h[1] as usize) << 8 | h[2] as usize;
                    // Data or headers, the last of their stream.
                    self.last = (h[3] == 0 || h[3] == 1) && h[4] & 1 == 1;
                    self.inside = true;
                    self.head.clear();
                }
            } else {
                self.left -= 1;
            }
            if self.inside && self.left == 0 {
                self.inside = false;
                p.frames.push(self.seen);
                if self.last {
                    p.ended += 1;
                }
            }
        }
    }
}

pub struct Proxy {
    pub addr: SocketAddr,
    task: JoinHandle<Passed>,
    kill: Arc<Notify>,
}

impl Proxy {
    pub fn new(to: SocketAddr, cut: Cut) -> Result<Proxy, String> {
        wait(async move {
            let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
            let addr = l.local_addr().map_err(|e| e.to_string())?;
            let kill = Arc::new(Notify::new());
            Ok::<_, String>(Proxy { addr, task: tokio::spawn(relay(l, to, cut, kill.clone())), kill })
        })?
    }
    /// Ends the connection now.
    pub fn kill(&self) {
        self.kill.notify_one();
    }
    /// What went through; to be asked once the connection is over.
    pub fn passed(self) -> Result<Passed, String> {
        wait(self.task)?.map_err(|e| e.to_string())
    }
}

async fn relay(l: TcpListener, to: SocketAddr, cut: Cut, kill: Arc<Notify>) -> Passed {
    let mut p = Passed::default();
    let Ok((mut c, _)) = l.accept().await else { return p };
    drop(l);
    let Ok(mut s) = TcpStream::connect(to).await else { return p };
    let _ = (c.set_nodelay(true), s.set_nodelay(true));
    let mut f = Frames::default();
    let (mut cb, mut sb) = (vec![0u8; 65536], vec![0u8; 65536]);
    while p.up < cut.up && p.down < cut.down {
        tokio::select! {
            _ = kill.notified() => break,
            r = c.read(&mut cb) => match r {
                Ok(n) if n > 0 => {
                    let n = n.min(cut.up - p.up);
                    for b in cb[..n].chunks(cut.chunk) {
                        if s.write_all(b).await.is_err() {
                            return p;
                        }
                        if cut.chunk < 100 {
                            tokio::task::yield_now().await;
                        }
                    }
                    f.feed(&cb[..n], &mut p);
                    p.up += n;
                }
                _ => break,
            },
            r = s.read(&mut sb) => match r {
                Ok(n) if n > 0 => {
                    let n = n.min(cut.down - p.down);
                    for b in sb[..n].chunks(cut.chunk) {
                        if c.write_all(b).await.is_err() {
                            return p;
                        }
                    }
                    p.down += n;
                }
                _ => break,
            },
        }
    }
    if cut.reset {
        for x in [&c, &s] {
            #[allow(deprecated)]
            let _ = x.set_linger(Some(std::time::Duration::ZERO));
        }
    }
    p
}
