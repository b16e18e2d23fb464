//! A scripted raw peer: writes bytes or frames, collects what the endpoint writes.
use std::cell::Cell;
use std::rc::Rc;

use ntex_io::testing::IoTest;

use crate::refcodec::Val;
use crate::sut::{sleep_ms, yields};
use crate::wire::{self, Enc, Item, WF};

pub struct Raw {
    pub io: Option<IoTest>,
    pub buf: Vec<u8>,
    pub items: Vec<Item>,
    pub enc: Enc,
    pub frag: u8,
    pub act: Rc<Cell<u64>>,
    /// what the endpoint wrote cannot be read
    pub err: Option<String>,
    pub trace: Vec<String>,
    pub bytes_in: usize,
    pub sent: usize,
}

impl Raw {
    pub fn pair(enc: u64, frag: u8, act: &Rc<Cell<u64>>) -> (Raw, IoTest) {
        let (client, server) = IoTest::create();
        client.remote_buffer_cap(1 << 30);
        let r = Raw {
            io: Some(client),
            buf: vec![],
            items: vec![],
            enc: Enc::new(enc),
            frag,
            act: act.clone(),
            err: None,
            trace: vec![],
            bytes_in: 0,
            sent: 0,
        };
        (r, server)
    }

    pub fn t(&mut self, s: impl Into<String>) {
        if self.trace.len() < 400 {
            self.trace.push(s.into());
        }
    }

    pub fn log(&self) -> String {
        let l: Vec<String> = self.trace.iter().map(|s| s.chars().take(240).collect()).collect();
        l.join("\n")
    }

    pub async fn bytes(&mut self, b: &[u8]) {
        let Some(io) = &self.io else { return };
        self.sent += b.len();
        if self.frag == 0 {
            io.write(b);
        } else {
            for (i, c) in b.chunks(self.frag as usize).enumerate() {
                io.write(c);
                if i < 60 {
                    yields(1).await;
                }
            }
        }
    }

    pub async fn frame(&mut self, ftype: u8, ch: u16, v: &Val, payload: &[u8]) {
        let b = self.enc.frame(ftype, ch, v, payload);
        if let Ok(f) = wire::parse_frame(&b) {
            self.t(format!("peer> {}", f.brief()));
        } else {
            self.t(format!("peer> {} bytes", b.len()));
        }
        self.bytes(&b).await;
    }

    pub async fn amqp(&mut self, ch: u16, v: &Val) {
        self.frame(0, ch, v, &[]).await;
    }

    pub fn pump(&mut self) {
        if let Some(io) = &self.io {
            let b = io.read_any();
            self.bytes_in += b.len();
            self.buf.extend_from_slice(&b);
            if io.remote_buffer(|b| !b.is_empty()) {
                io.write([]);
            }
        }
        let mut pos = 0;
        while self.err.is_none() {
            match wire::next_item(&self.buf, &mut pos) {
                Ok(None) => break,
                Ok(Some(i)) => {
                    let s = match &i {
                        Item::Header(h) => format!("sut>  header {:?}", &h[4..]),
                        Item::Frame(f) => format!("sut>  {}{}", if f.ftype == 1 { "sasl " } else { "" }, f.brief()),
                    };
                    self.t(s);
                    self.items.push(i);
                }
                Err(e) => {
                    self.t(format!("unreadable: {e}"));
                    self.err = Some(e);
                }
            }
        }
        self.buf.drain(..pos);
    }

    /// lets everything that can run now run
    pub async fn settle(&mut self) {
        let mut idle = 0;
        let mut rounds = 0;
        let mut last = (0, 0, 0);
        while idle < 24 && rounds < 4000 {
            yields(1).await;
            self.pump();
            let now = (self.act.get(), self.bytes_in, self.items.len());
            if now == last {
                idle += 1;
            } else {
                idle = 0;
                last = now;
            }
            rounds += 1;
        }
    }

    /// waits for a condition; gives up after the endpoint had ample time
    pub async fn until(&mut self, f: impl Fn(&Raw) -> bool) -> bool {
        for _ in 0..60 {
            yields(1).await;
            self.pump();
            if f(self) {
                return true;
            }
        }
        for k in 0..14 {
            self.settle().await;
            if f(self) {
                return true;
            }
            sleep_ms(if k < 4 { 3 } else { 25 }).await;
        }
        self.settle().await;
        f(self)
    }

    pub fn frames(&self) -> impl Iterator<Item = &WF> {
        self.items.iter().filter_map(|i| match i {
            Item::Frame(f) => Some(f),
            Item::Header(_) => None,
        })
    }
    pub fn count(&self, code: u64) -> usize {
        self.frames().filter(|f| f.ftype == 0 && f.code == code).count()
    }
    pub fn nth(&self, i: usize) -> Option<&Item> {
        self.items.get(i)
    }
    pub fn cut(&mut self) {
        self.t("stream cut");
        self.io = None;
    }
}
