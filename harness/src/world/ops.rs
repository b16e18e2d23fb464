//! Interpretation of the operations of a history.
use super::*;
use ntex_amqp::codec::{Encode, Message};
use ntex_bytes::BytesMut;

const HANDLES: [u32; 8] = [0, 1, 2, 3, 7, 500, 70_000, u32::MAX];

impl World<'_> {
    fn free_peer_ch(&self, want: u8) -> Option<u16> {
        let max = self.h.cfg.sut_chan;
        let mut c: Vec<u16> = vec![0, 1, 2, 3, 4, 5, 6, 7];
        c.push(max);
        c.push(max.saturating_sub(1));
        c.retain(|x| *x <= max);
        c.sort_unstable();
        c.dedup();
        let used = |ch: u16| {
            self.sess
                .iter()
                .enumerate()
                .any(|(i, m)| m.peer_ch == Some(ch) && m.peer_begin && !self.sess_gone(i))
        };
        let l: Vec<u16> = c.into_iter().filter(|x| !used(*x)).collect();
        if l.is_empty() { None } else { Some(l[want as usize % l.len()]) }
    }

    fn sess_win(&self, w: u8) -> u32 {
        if w == 0 { self.h.cfg.win } else { WINS[(w as usize - 1) % WINS.len()] }
    }

    /// sessions for which the endpoint may hold a channel
    fn sut_used(&self) -> usize {
        (0..self.sess.len())
            .filter(|i| {
                let m = &self.sess[*i];
                !self.sess_gone(*i) && (m.peer_begin || m.open_task.is_some())
            })
            .count()
    }

    fn free_handle(&self, s: usize, want: u8) -> u32 {
        let used = |h: u32| {
            (0..self.links.len()).any(|i| {
                let l = &self.links[i];
                l.sess == s && l.peer_handle == Some(h) && l.peer_att && !self.link_gone(i)
            })
        };
        (0..64u32)
            .map(|k| {
                let x = want as u32 + k;
                if k < 8 { HANDLES[(x % 8) as usize] } else { 100 + x }
            })
            .find(|h| !used(*h))
            .unwrap_or(4242)
    }

    async fn answer_begin(&mut self, s: usize, ch: u8, win: u8) {
        let Some(pch) = self.free_peer_ch(ch) else { return };
        let w = self.sess_win(win);
        let first = self.h.cfg.base_id;
        let sch = self.sess[s].sut_ch;
        let out_first = self.sess[s].out_first;
        let m = &mut self.sess[s];
        m.peer_begin = true;
        m.peer_ch = Some(pch);
        m.in_first = first;
        m.next_in_delivery = first;
        m.win = vec![(out_first, w)];
        self.send(pch, wire::begin(sch, first, w, 5000), &[]).await;
    }

    async fn answer_attach(&mut self, i: usize, handle: u8, refuse: bool, limit: u8) {
        let s = self.links[i].sess;
        let h = self.free_handle(s, handle);
        let base_dc = self.h.cfg.base_dc;
        let limit = if limit == 0 { self.links[i].alimit } else { limit };
        let lim = LIMITS[limit as usize % LIMITS.len()];
        let l = &mut self.links[i];
        l.peer_att = true;
        l.peer_handle = Some(h);
        l.p_dc = base_dc;
        let name = l.name.clone();
        let sut_sender = l.sut_sender;
        let (src, tgt) = if refuse {
            (None, None)
        } else {
            (Some(wire::source(Some("src"))), Some(wire::target(Some("tgt"))))
        };
        if sut_sender {
            l.slimit = lim;
        }
        let idc = (!sut_sender).then_some(base_dc);
        let v = wire::attach(&name, h, sut_sender, src, tgt, idc, if sut_sender { lim } else { None });
        let ch = self.sess[s].peer_ch.unwrap();
        self.send(ch, v, &[]).await;
        if refuse {
            let l = &mut self.links[i];
            l.peer_refused = true;
            l.peer_det = true;
            l.peer_err = true;
            let e = wire::error("amqp:not-found", Some("no"));
            self.send(ch, wire::detach(h, true, Some(e)), &[]).await;
        }
    }

    async fn peer_flow(&mut self, i: usize, credit: u32, stale: u8, echo: bool, win: u8) {
        let s = self.links[i].sess;
        let nii = self.nii(s);
        let back = (stale as u32).min(self.sess[s].out_frames);
        let nii = nii.wrapping_sub(back);
        let w = self.sess_win(win);
        let noi = self.noi(s);
        let l = &mut self.links[i];
        let h = l.peer_handle.unwrap();
        let link;
        if l.sut_sender {
            let back = (stale as u32).min(l.count);
            let dc = l.idc.wrapping_add(l.count - back);
            l.lim.push((dc, credit));
            if credit > back {
                l.ever_credit = true;
            }
            link = (h, Some(dc), Some(credit));
        } else {
            link = (h, Some(l.p_dc), Some(0));
        }
        self.sess[s].win.push((nii, w));
        self.st("flows in");
        if echo {
            self.sess[s].echo_req += 1;
        }
        let ch = self.sess[s].peer_ch.unwrap();
        self.send(ch, wire::flow(Some(nii), w, noi, 5000, Some(link), echo), &[]).await;
    }

    async fn flush_link(&mut self, i: usize, n: usize) {
        for _ in 0..n {
            let Some(x) = self.links[i].outq.front().cloned() else { return };
            if !self.link_live(i) {
                return;
            }
            self.links[i].outq.pop_front();
            let s = self.links[i].sess;
            let ch = self.sess[s].peer_ch.unwrap();
            let mut x = x;
            // ids are given when a delivery starts
            if self.links[i].cur_in.is_none() {
                let id = self.sess[s].next_in_delivery;
                self.sess[s].next_in_delivery = id.wrapping_add(1);
                self.links[i].started += 1;
                self.links[i].cur_size = 0;
                let mut bad = false;
                if self.links[i].started > self.links[i].granted {
                    bad = true;
                    if self.links[i].must_detach.is_none() {
                        self.links[i].must_detach = Some("amqp:link:transfer-limit-exceeded");
                    }
                }
                x.id = Some(id);
                self.links[i].cur_in = Some(RDel {
                    id,
                    tag: x.tag.clone().unwrap_or_default(),
                    fmt: x.fmt,
                    settled: false,
                    body: vec![],
                    bad,
                });
            } else if x.id.is_some() {
                x.id = Some(self.links[i].cur_in.as_ref().unwrap().id);
            }
            let limit = self.links[i].rlimit;
            let l = &mut self.links[i];
            let d = l.cur_in.as_mut().unwrap();
            if x.settled == Some(true) {
                d.settled = true;
            }
            if !x.aborted {
                d.body.extend_from_slice(&x.payload);
            }
            if limit != 0 && d.body.len() as u64 > limit {
                d.bad = true;
                if l.must_detach.is_none() {
                    l.must_detach = Some("amqp:link:message-size-exceeded");
                }
            }
            if !x.more || x.aborted {
                let d = l.cur_in.take().unwrap();
                l.p_dc = l.p_dc.wrapping_add(1);
                if x.aborted {
                    l.aborted += 1;
                    *self.stat.entry("aborted").or_default() += 1;
                } else {
                    l.finished += 1;
                    *self.stat.entry("deliveries in").or_default() += 1;
                    if !d.bad && l.must_detach.is_none() && !l.close_called {
                        l.good_in += 1;
                    }
                    if !d.bad && l.must_detach.is_none() {
                        l.ready_in.push_back(d);
                    }
                }
            }
            self.sess[s].in_frames += 1;
            self.st("payloads");
            self.send(ch, wire::transfer(&x), &x.payload.clone()).await;
        }
    }

    /// what a conforming peer does by itself
    pub(super) async fn answers(&mut self) {
        for _ in 0..8 {
            let mut any = false;
            if self.sut_close && !self.peer_close && !self.cut {
                self.peer_close = true;
                self.send(0, wire::close(None), &[]).await;
                any = true;
            }
            for s in 0..self.sess.len() {
                if self.peer_close || self.cut {
                    break;
                }
                let m = &self.sess[s];
                if m.by_sut && m.sut_begin && !m.peer_begin {
                    self.answer_begin(s, s as u8, 0).await;
                    any = true;
                }
                let m = &self.sess[s];
                if m.sut_end && m.peer_begin && !m.peer_end {
                    self.sess[s].peer_end = true;
                    let ch = self.sess[s].peer_ch.unwrap();
                    self.send(ch, wire::end(None), &[]).await;
                    any = true;
                }
            }
            for i in 0..self.links.len() {
                let s = self.links[i].sess;
                if self.peer_close || self.cut || !self.sess[s].peer_begin || self.sess[s].peer_end || self.sess[s].sut_end {
                    continue;
                }
                let l = &self.links[i];
                if l.by_sut && l.sut_att && !l.peer_att {
                    self.answer_attach(i, i as u8, false, 0).await;
                    any = true;
                }
                let l = &self.links[i];
                if l.sut_det && l.peer_att && !l.peer_det {
                    let h = l.peer_handle.unwrap();
                    self.links[i].peer_det = true;
                    let ch = self.sess[s].peer_ch.unwrap();
                    self.send(ch, wire::detach(h, true, None), &[]).await;
                    any = true;
                }
                if self.h.cfg.prime > 0 && self.link_live(i) && !self.links[i].primed {
                    if self.links[i].sut_sender {
                        self.links[i].primed = true;
                        self.peer_flow(i, self.h.cfg.prime, 0, false, 0).await;
                        any = true;
                    } else if self.link_api(i) {
                        self.links[i].primed = true;
                        self.grant(i, self.h.cfg.prime);
                    }
                }
            }
            if !any {
                break;
            }
        }
    }

    fn grant(&mut self, i: usize, n: u32) {
        let l = &mut self.links[i];
        let Some(r) = l.robj.clone() else { return };
        // more credit now could make good what was sent beyond it
        if l.must_detach.is_some() {
            return;
        }
        l.granted += n as u64;
        l.exp_grants.push_back(n);
        self.t(format!("app: l{i} set_link_credit({n})"));
        r.set_link_credit(n);
    }

    pub(super) async fn op(&mut self, op: &Op) {
        self.pump();
        self.op_inner(op).await;
        self.pump();
        if self.h.cfg.auto {
            self.answers().await;
        }
    }

    async fn op_inner(&mut self, op: &Op) {
        match op.clone() {
            Op::PBegin { ch, win } => {
                if !self.conn_live() {
                    return;
                }
                let limit = self.h.cfg.peer_chan.min(self.h.cfg.sut_chan) as usize;
                if self.sut_used() + 1 >= limit {
                    self.quiesce().await;
                    if !self.conn_live() || self.sut_used() > limit {
                        return;
                    }
                }
                let Some(pch) = self.free_peer_ch(ch) else { return };
                let w = self.sess_win(win);
                let first = self.h.cfg.base_id;
                self.sess.push(MSess {
                    peer_ch: Some(pch),
                    peer_begin: true,
                    in_first: first,
                    next_in_delivery: first,
                    win: vec![(0, w)],
                    ..Default::default()
                });
                self.st("sessions");
                self.send(pch, wire::begin(None, first, w, 5000), &[]).await;
            }
            Op::PAnswerBegin { i, ch, win } => {
                if !self.conn_live() {
                    return;
                }
                if let Some(s) = self.pick_sess(i, |s| {
                    let m = &self.sess[s];
                    m.by_sut && m.sut_begin && !m.peer_begin
                }) {
                    self.answer_begin(s, ch, win).await;
                }
            }
            Op::PAttach { s, name, sut_sender, handle, addr, verdict, limit } => {
                let Some(s) = self.pick_sess(s, |s| self.sess_live(s)) else { return };
                let name = NAMES[name as usize % NAMES.len()];
                if !self.name_free(name) {
                    return;
                }
                let h = self.free_handle(s, handle);
                let code = match verdict % 16 {
                    10 | 11 => 1,
                    12 | 13 => 2,
                    14 if self.h.cfg.server && !sut_sender => 3,
                    15 if self.h.cfg.server && !sut_sender => 4,
                    _ => 0,
                };
                self.sh.borrow_mut().verdicts.insert(name.to_string(), (code, None));
                let lim = LIMITS[limit as usize % LIMITS.len()];
                let reused = self.names_seen.insert(name.to_string(), s).is_some();
                if reused {
                    self.st("name reused");
                }
                self.sess[s].links_ever += 1;
                self.links.push(MLink {
                    sess: s,
                    name: name.to_string(),
                    sut_sender,
                    peer_att: true,
                    peer_handle: Some(h),
                    refused: code == 1 || code == 3,
                    held: code == 2 || code == 4,
                    slimit: if sut_sender { lim } else { None },
                    rlimit: self.h.cfg.rlimit.map_or(262_144, u64::from),
                    p_dc: self.h.cfg.base_dc,
                    lim: vec![(0, 0)],
                    ..Default::default()
                });
                self.st("links");
                // addresses are shared between links on purpose
                let a = ["a0", "n1", "a2", "n0"][addr as usize % 4];
                let (src, tgt) = (Some(wire::source(Some(a))), Some(wire::target(Some(a))));
                let idc = (!sut_sender).then_some(self.h.cfg.base_dc);
                let v = wire::attach(name, h, sut_sender, src, tgt, idc, if sut_sender { lim } else { None });
                let ch = self.sess[s].peer_ch.unwrap();
                self.send(ch, v, &[]).await;
            }
            Op::PAnswerAttach { i, handle, refuse, limit } => {
                if let Some(l) = self.pick_link(i, |i| {
                    let l = &self.links[i];
                    l.by_sut && l.sut_att && !l.peer_att && self.sess_live(l.sess)
                }) {
                    self.answer_attach(l, handle, refuse, limit).await;
                }
            }
            Op::PFlow { l, credit, stale, echo, win, nodc: _ } => {
                if let Some(i) = self.pick_link(l, |i| self.link_live(i)) {
                    let c = CREDITS[credit as usize % CREDITS.len()];
                    let stale = if stale < 200 { 0 } else { stale - 199 };
                    self.peer_flow(i, c, stale, echo, win).await;
                }
            }
            Op::PSessFlow { s, win, omit, echo } => {
                let Some(s) = self.pick_sess(s, |s| self.sess_live(s)) else { return };
                let w = self.sess_win(win);
                let nii = self.nii(s);
                let m = &mut self.sess[s];
                let g = if omit { (m.out_first, w) } else { (nii, w) };
                m.win.push(g);
                if echo {
                    m.echo_req += 1;
                }
                self.st("flows in");
                let m = &mut self.sess[s];
                let ch = m.peer_ch.unwrap();
                let noi = self.noi(s);
                self.send(ch, wire::flow((!omit).then_some(nii), w, noi, 5000, None, echo), &[]).await;
            }
            Op::PXfer { l, size, parts, settled, tag, fmt, burst, abort, over } => {
                let Some(i) = self.pick_link(l, |i| {
                    let m = &self.links[i];
                    self.link_live(i) && !m.sut_sender && !m.held && m.must_detach.is_none() && m.robj.is_some()
                }) else {
                    return;
                };
                let n = self.links[i].outq.len();
                self.flush_link(i, n).await;
                let count = if over { 70 } else { burst as usize % 6 + 1 };
                let mut budget = if over { 1 } else { 0 };
                for k in 0..count {
                    let l = &self.links[i];
                    if !self.link_live(i) || l.must_detach.is_some() {
                        break;
                    }
                    if l.started >= l.granted_wire {
                        // beyond what the peer knows it may send
                        if budget == 0 || l.started < l.granted || l.close_called {
                            break;
                        }
                        budget -= 1;
                        self.st("over credit");
                    }
                    let seq = self.in_seq;
                    self.in_seq += 1;
                    let mut size = if over { size as usize % 64 } else { size as usize };
                    let limit = self.links[i].rlimit as usize;
                    if abort && limit != 0 && size > limit {
                        size = limit;
                    }
                    let b = body(i, seq, size);
                    let max = (self.h.cfg.sut_frame as usize).saturating_sub(120).max(64);
                    let mut nparts = (parts as usize & 0x0f) + 1;
                    nparts = nparts.max(size.div_ceil(max));
                    let chunk = size.div_ceil(nparts).max(1);
                    let mut chunks: Vec<Vec<u8>> = b.chunks(chunk).map(<[u8]>::to_vec).collect();
                    // empty frames are frames too
                    while chunks.len() < nparts {
                        chunks.push(vec![]);
                    }
                    let tagv: Vec<u8> = match tag % 4 {
                        0 => vec![],
                        1 => vec![seq as u8],
                        2 => (seq as u32).to_be_bytes().to_vec(),
                        _ => (0..32).map(|x| x as u8 ^ seq as u8).collect(),
                    };
                    let last = chunks.len() - 1;
                    for (j, c) in chunks.into_iter().enumerate() {
                        let repeat = j == 0 || (parts & 0x40 != 0 && j % 2 == 1);
                        let l = &self.links[i];
                        let x = Xfer {
                            handle: l.peer_handle.unwrap(),
                            id: repeat.then_some(0),
                            tag: if j == 0 || repeat { Some(tagv.clone()) } else { None },
                            fmt: if fmt && j == 0 { Some(seq as u32 % 5) } else { None },
                            settled: match settled % 4 {
                                1 => (j == 0).then_some(true),
                                2 => (j == last).then_some(true),
                                3 => Some(false),
                                _ => None,
                            },
                            more: j != last,
                            aborted: abort && j == last,
                            payload: if abort && j == last { vec![] } else { c },
                            ..Default::default()
                        };
                        self.links[i].outq.push_back(x);
                    }
                    let n = self.links[i].outq.len();
                    let hold = parts & 0x80 != 0 && k + 1 == count;
                    self.flush_link(i, if hold { 1 } else { n }).await;
                }
            }
            Op::PMore { l, n } => {
                if let Some(i) = self.pick_link(l, |i| !self.links[i].outq.is_empty() && self.link_live(i)) {
                    self.flush_link(i, n as usize % 4 + 1).await;
                }
            }
            Op::PDisp { s, lo, n, kind, settled, unknown } => {
                let has = |s: usize| self.sends.iter().any(|x| x.wire_id.is_some() && self.links[x.link].sess == s);
                let Some(s) = self.pick_sess(s, |s| self.sess_live(s) && has(s)) else { return };
                let mut ids: Vec<u32> = self
                    .sends
                    .iter()
                    .filter(|x| self.links[x.link].sess == s)
                    .filter_map(|x| x.wire_id)
                    .collect();
                ids.sort_unstable();
                ids.dedup();
                // most recent first: small numbers reach the latest deliveries
                let k = ids.len() - 1 - (lo as usize % ids.len());
                let hi = (k + n as usize % 8).min(ids.len() - 1);
                let (mut first, mut last) = (ids[k], ids[hi]);
                if unknown {
                    match n % 3 {
                        0 => first = ids[0].wrapping_sub(3 + n as u32),
                        1 => {
                            first = 0x7000_0000;
                            last = 0x7000_0002;
                        }
                        _ => {
                            first = last.wrapping_sub(last.wrapping_sub(ids[0])).wrapping_sub(1);
                        }
                    }
                    self.st("disp unknown");
                }
                let idx = self.sess[s].disps.len();
                let state = pstate(kind, idx);
                if state.is_none() && !settled && kind & 8 == 0 {
                    return;
                }
                self.sess[s].disps.push(PDisp { first, last, settled, state: state.clone() });
                self.st("dispositions");
                let ch = self.sess[s].peer_ch.unwrap();
                let l = if first == last && n & 0x80 == 0 { None } else { Some(last) };
                self.send(ch, wire::disposition(true, first, l, settled, state), &[]).await;
            }
            Op::PSettle { d, n, state } => {
                let Some(r) = self.pick(self.rheld.len(), d, |d| {
                    let r = &self.rheld[d];
                    self.sess_live(r.sess) && !r.settled
                }) else {
                    return;
                };
                let s = self.rheld[r].sess;
                let first = self.rheld[r].id;
                let span = n as u32 % 3;
                let top = self.sess[s].next_in_delivery.wrapping_sub(1);
                let last = first.wrapping_add(span.min(top.wrapping_sub(first)));
                for k in 0..=last.wrapping_sub(first) {
                    self.sess[s].in_settled.insert(first.wrapping_add(k));
                }
                for e in &mut self.sess[s].exp_disp {
                    if e.id.wrapping_sub(first) <= last.wrapping_sub(first) {
                        e.optional = true;
                    }
                }
                self.st("peer settles");
                let ch = self.sess[s].peer_ch.unwrap();
                let st = state.then(wire::accepted);
                self.send(ch, wire::disposition(false, first, (last != first).then_some(last), true, st), &[]).await;
            }
            Op::PDetach { l, err, open } => {
                let Some(i) = self.pick_link(l, |i| {
                    let m = &self.links[i];
                    self.sess_live(m.sess) && m.peer_att && !m.peer_det && (m.sut_att != open || !open)
                        && (open || m.sut_att)
                }) else {
                    return;
                };
                let m = &mut self.links[i];
                m.peer_det = true;
                m.peer_err = err;
                m.outq.clear();
                m.cur_in = None;
                let h = m.peer_handle.unwrap();
                let s = m.sess;
                for e in &mut self.sess[s].exp_disp {
                    if self.rheld[e.rd].link == i {
                        e.optional = true;
                    }
                }
                self.st("peer detach");
                let ch = self.sess[s].peer_ch.unwrap();
                let e = err.then(|| wire::error("amqp:link:detach-forced", Some("bye")));
                self.send(ch, wire::detach(h, true, e), &[]).await;
            }
            Op::PEnd { s, err } => {
                let Some(s) = self.pick_sess(s, |s| self.sess_live(s)) else { return };
                self.sess[s].peer_end = true;
                self.sess[s].peer_err = err;
                self.st("peer end");
                let ch = self.sess[s].peer_ch.unwrap();
                let e = err.then(|| wire::error("amqp:session:errant-link", None));
                self.send(ch, wire::end(e), &[]).await;
            }
            Op::PClose { err } => {
                if self.cut || self.peer_close {
                    return;
                }
                self.peer_close = true;
                self.st("peer close");
                let e = err.then(|| wire::error("amqp:connection:forced", Some("shutdown")));
                self.send(0, wire::close(e), &[]).await;
            }
            Op::PEmpty { ch } => {
                if self.conn_live() {
                    let mut e = wire::empty();
                    e[7] = ch;
                    self.write(&e).await;
                }
            }
            Op::PAnswer { i } => {
                // one pending answer
                let live = |s: usize| !self.peer_close && !self.cut && self.sess[s].peer_begin && !self.sess[s].peer_end;
                let mut c: Vec<(bool, usize)> = vec![];
                for s in 0..self.sess.len() {
                    if live(s) && self.sess[s].sut_end {
                        c.push((true, s));
                    }
                }
                for l in 0..self.links.len() {
                    let m = &self.links[l];
                    if live(m.sess) && !self.sess[m.sess].sut_end && m.sut_det && m.peer_att && !m.peer_det {
                        c.push((false, l));
                    }
                }
                if c.is_empty() {
                    if self.sut_close && !self.peer_close && !self.cut {
                        self.peer_close = true;
                        self.send(0, wire::close(None), &[]).await;
                    }
                    return;
                }
                let (is_s, x) = c[i as usize % c.len()];
                if is_s {
                    self.sess[x].peer_end = true;
                    let ch = self.sess[x].peer_ch.unwrap();
                    self.send(ch, wire::end(None), &[]).await;
                } else {
                    self.links[x].peer_det = true;
                    let ch = self.sess[self.links[x].sess].peer_ch.unwrap();
                    let h = self.links[x].peer_handle.unwrap();
                    self.send(ch, wire::detach(h, true, None), &[]).await;
                }
            }

            // ------------------------------------------------ application
            Op::SOpen => {
                let Some(sink) = self.sink.clone() else { return };
                let limit = self.h.cfg.peer_chan.min(self.h.cfg.sut_chan) as usize;
                if self.conn_live() && self.sut_used() >= limit {
                    return;
                }
                let s = self.sess.len();
                self.t(format!("app: s{s} open_session"));
                let act = self.act.clone();
                let task = Task::start(async move { sink.open_session().attach().await }, &act).await;
                self.sess.push(MSess { by_sut: true, open_task: Some(task), ..Default::default() });
                self.st("sessions");
            }
            Op::SEnd { s } => {
                let Some(s) = self.pick_sess(s, |s| {
                    let m = &self.sess[s];
                    m.obj.is_some() && m.end_task.is_none()
                }) else {
                    return;
                };
                self.t(format!("app: s{s} end"));
                let live = self.sess_live(s);
                let m = &mut self.sess[s];
                m.end_called = true;
                m.end_live = live;
                for e in &mut m.exp_disp {
                    e.optional = true;
                }
                let o = m.obj.clone().unwrap();
                let act = self.act.clone();
                let t = Task::start(async move { o.end().await }, &act).await;
                self.sess[s].end_task = Some(t);
                self.st("local end");
            }
            Op::SAttach { s, name, sender, limit, addr } => {
                let Some(s) = self.pick_sess(s, |s| self.sess[s].obj.is_some()) else { return };
                let name = NAMES[name as usize % NAMES.len()];
                if !self.name_free(name) {
                    return;
                }
                let o = self.sess[s].obj.clone().unwrap();
                let a = ["a0", "n1", "a2", "n0"][addr as usize % 4];
                let lim = LIMITS[limit as usize % LIMITS.len()];
                let i = self.links.len();
                self.t(format!("app: l{i} attach {name} sender:{sender} on s{s} limit {lim:?}"));
                let act = self.act.clone();
                let mut m = MLink {
                    sess: s,
                    name: name.to_string(),
                    sut_sender: sender,
                    by_sut: true,
                    rlimit: 262_144,
                    alimit: if sender { limit } else { 0 },
                    lim: vec![(0, 0)],
                    ..Default::default()
                };
                if self.names_seen.insert(name.to_string(), s).is_some() {
                    self.st("name reused");
                }
                if self.sess_live(s) && !self.sess[s].end_called {
                    self.sess[s].links_ever += 1;
                    self.st("links");
                } else {
                    self.st("attach late");
                }
                if sender {
                    let b = o.build_sender_link(name, a);
                    m.satt = Some(Task::start(b.attach(), &act).await);
                } else {
                    let mut b = o.build_receiver_link(name, a);
                    if let Some(x) = lim {
                        b = b.max_message_size(x);
                        m.rlimit = x;
                    }
                    m.ratt = Some(Task::start(b.attach(), &act).await);
                }
                self.links.push(m);
            }
            Op::SSend { l, size, settled, tag, fmt, msg } => {
                let Some(i) = self.pick_link(l, |i| self.links[i].sobj.is_some()) else { return };
                let o = self.links[i].sobj.clone().unwrap();
                let n = self.sends.len();
                if self.links[i].held || self.links[i].refused {
                    // the application has no business with it yet
                    return;
                }
                let b = body(i, n, size as usize);
                let (tb, bytes, mut want_fmt) = if msg {
                    let mut m = Message::with_body(Bytes::from(b));
                    // format 0 unless it is told otherwise
                    let mut f = Some(0);
                    if fmt {
                        m.set_format(7);
                        f = Some(7);
                    }
                    let mut buf = BytesMut::with_capacity(m.encoded_size());
                    m.encode(&mut buf);
                    (TransferBody::Message(m), buf.to_vec(), f)
                } else {
                    (TransferBody::Data(Bytes::from(b.clone())), b, None)
                };
                let mut tr = o.transfer(tb);
                let tagv: Option<Vec<u8>> = match tag % 4 {
                    0 | 1 => None,
                    2 => Some((n as u32).to_be_bytes().to_vec()),
                    _ => Some((0..32).map(|x| x as u8 ^ n as u8).collect()),
                };
                if let Some(t) = &tagv {
                    tr = tr.tag(Bytes::from(t.clone()));
                }
                if settled {
                    tr = tr.settled();
                }
                if fmt && tag & 0x10 != 0 {
                    tr = tr.format(n as u32);
                    want_fmt = Some(n as u32);
                }
                let too_large = self.links[i].slimit.is_some_and(|x| x != 0 && bytes.len() as u64 > x);
                let act = self.act.clone();
                let task = Task::start(tr.send(), &act).await;
                self.t(format!(
                    "app: send{n} on l{i} {} bytes settled:{settled} tag:{:?} msg:{msg} -> {}",
                    bytes.len(),
                    tagv.as_ref().map(Vec::len),
                    match &*task.slot.borrow() {
                        None => "pending".into(),
                        Some(Ok(d)) => format!("ok {}", d.id()),
                        Some(Err(e)) => format!("{e:?}"),
                    }
                ));
                let expect = self.link_live(i) && !self.links[i].close_called && !self.sess[self.links[i].sess].end_called;
                if too_large && expect {
                    let r = match &*task.slot.borrow() {
                        Some(Err(PE::BodyTooLarge)) => None,
                        Some(Ok(_)) => Some("accepted".to_string()),
                        Some(Err(e)) => Some(format!("{e:?}")),
                        None => Some("pending".into()),
                    };
                    if let Some(r) = r {
                        self.v(&["E09"], format!(
                            "message of {} bytes over l{i} with limit {:?}: {r}", bytes.len(), self.links[i].slimit
                        ));
                    }
                    self.st("too large");
                }
                self.st("sends");
                self.st("payloads");
                if !expect {
                    self.st("send late");
                }
                let gone = self.link_gone_known(i);
                self.sends.push(MSend {
                    link: i,
                    body: bytes,
                    settled,
                    tag: tagv,
                    fmt: want_fmt,
                    too_large,
                    task,
                    wire_id: None,
                    wire_tag: vec![],
                    wire_done: false,
                    reported: false,
                    after_gone: gone,
                    ok: false,
                    lib_id: None,
                });
                self.links[i].sends.push_back(n);
            }
            Op::SCancel { i } => {
                if let Some(n) = self.pick(self.sends.len(), i, |n| {
                    let x = &self.sends[n];
                    !x.reported && !x.task.done() && !x.task.cancelled
                }) {
                    self.t(format!("app: cancel send{n}"));
                    self.sends[n].task.cancel();
                    self.st("cancelled");
                }
            }
            Op::SReady { l } => {
                if let Some(i) = self.pick_link(l, |i| self.links[i].sobj.is_some() && self.links[i].ready_tasks.len() < 4) {
                    let o = self.links[i].sobj.clone().unwrap();
                    let act = self.act.clone();
                    let t = Task::start(async move { o.ready().await }, &act).await;
                    self.t(format!("app: l{i} ready() -> {:?}", t.slot.borrow()));
                    self.links[i].ready_tasks.push(t);
                }
            }
            Op::SWait { d } => {
                let Some(d) = self.pick(self.sdels.len(), d, |d| {
                    let x = &self.sdels[d];
                    x.del.is_some() && x.wait.is_none() && x.waited < 6
                }) else {
                    return;
                };
                let del = self.sdels[d].del.clone().unwrap();
                let act = self.act.clone();
                let t = Task::start(async move { del.wait().await }, &act).await;
                self.t(format!("app: wait delivery {} -> {:?}", self.sdels[d].id, t.slot.borrow()));
                let x = &self.sdels[d];
                let from = self.sess[x.sess].disps_q;
                self.sdels[d].wait = Some(WaitRec { task: t, from });
                self.sdels[d].waited += 1;
                self.st("waits");
            }
            Op::SDropDel { d } => {
                let Some(d) = self.pick(self.sdels.len(), d, |d| {
                    let x = &self.sdels[d];
                    x.del.is_some() && x.wait.is_none()
                }) else {
                    return;
                };
                self.t(format!("app: drop delivery {}", self.sdels[d].id));
                self.sdels[d].dropped = true;
                self.sdels[d].del = None;
            }
            Op::SSettleDel { d } => {
                let Some(d) = self.pick(self.sdels.len(), d, |d| {
                    let x = &self.sdels[d];
                    x.wait.is_none() && !x.presettled && x.del.as_ref().is_some_and(|r| Rc::strong_count(r) == 1)
                }) else {
                    return;
                };
                self.t(format!("app: settle sent delivery {}", self.sdels[d].id));
                let x = &mut self.sdels[d];
                x.settled_by_sut = true;
                Rc::get_mut(x.del.as_mut().unwrap()).unwrap().settle(lib_state(0, 0));
            }
            Op::SCredit { l, n } => {
                let Some(i) = self.pick_link(l, |i| self.link_api(i) && !self.links[i].sut_sender) else { return };
                let n = [1u32, 1, 2, 3, 5, 0, 20, 100][n as usize % 8];
                self.grant(i, n);
                self.st("grants");
            }
            Op::SRecv { l, wait } => {
                let Some(i) = self.pick_link(l, |i| {
                    let m = &self.links[i];
                    m.robj.is_some() && m.recv_task.is_none()
                }) else {
                    return;
                };
                let o = self.links[i].robj.clone().unwrap();
                if wait {
                    let act = self.act.clone();
                    let t = Task::start(async move { o.recv().await }, &act).await;
                    self.t(format!("app: l{i} recv() -> done:{}", t.done()));
                    self.links[i].recv_task = Some(t);
                } else {
                    let r = o.get_delivery();
                    match r {
                        Some((d, t)) => self.got(i, d, t),
                        None => {
                            let l = &self.links[i];
                            if l.sure > 0 && !l.lossy {
                                let m = format!("get_delivery() on l{i} returns nothing, {} deliveries are complete", l.ready_in.len());
                                self.v(&["E07"], m);
                            }
                        }
                    }
                }
                self.pump();
            }
            Op::SSettle { d, kind } | Op::SUpdate { d, kind } => {
                let upd = matches!(op, Op::SUpdate { .. });
                let Some(r) = self.pick(self.rheld.len(), d, |d| self.rheld[d].del.is_some()) else { return };
                let st = lib_state(kind, r);
                let s = self.rheld[r].sess;
                let l = self.rheld[r].link;
                let id = self.rheld[r].id;
                self.t(format!("app: {} delivery {id} of l{l}", if upd { "update" } else { "settle" }));
                self.expect_disp(s, l, r, !upd, state_val(&st));
                let d = self.rheld[r].del.as_mut().unwrap();
                if upd {
                    d.update_state(st);
                } else {
                    d.settle(st);
                    self.rheld[r].settled = true;
                }
                self.st("settles");
            }
            Op::SDropRcv { d } => {
                let Some(r) = self.pick(self.rheld.len(), d, |d| self.rheld[d].del.is_some()) else { return };
                let (s, l, id) = (self.rheld[r].sess, self.rheld[r].link, self.rheld[r].id);
                self.t(format!("app: drop delivery {id} of l{l}"));
                self.expect_disp(s, l, r, true, None);
                self.rheld[r].settled = true;
                self.rheld[r].del = None;
            }
            Op::SCloseLink { l, err, detach } => {
                let Some(i) = self.pick_link(l, |i| {
                    let m = &self.links[i];
                    (m.sobj.is_some() || m.robj.is_some()) && !m.held && !m.refused && m.close_task.is_none()
                }) else {
                    return;
                };
                // a handle names the link only as long as the link is open
                let m = &self.links[i];
                let closed = m.sobj.as_ref().is_some_and(|o| o.is_closed()) || m.robj.as_ref().is_some_and(|o| o.is_closed());
                let detach = detach && !closed;
                self.t(format!("app: l{i} close err:{err} detach:{detach}"));
                let s = self.links[i].sess;
                let sess = self.sess[s].obj.clone();
                let e = p::Error::build()
                    .condition(p::ErrorCondition::AmqpError(p::AmqpError::ResourceLocked))
                    .finish();
                let live = self.link_live(i);
                let m = &mut self.links[i];
                m.close_called = true;
                m.close_live = live;
                m.lossy = true;
                m.close_err = err.then(|| "amqp:resource-locked".to_string());
                type F = LocalFut<Result<(), PE>>;
                let fut: F = match (m.sobj.clone(), m.robj.clone(), detach, sess) {
                    (Some(o), _, true, Some(se)) => {
                        Box::pin(async move { se.detach_sender_link(o.id(), err.then_some(e)).await })
                    }
                    (_, Some(o), true, Some(se)) => {
                        Box::pin(async move { se.detach_receiver_link(o.handle(), err.then_some(e)).await })
                    }
                    (Some(o), ..) if err => Box::pin(async move { o.close_with_error(e).await }),
                    (Some(o), ..) => Box::pin(async move { o.close().await }),
                    (_, Some(o), ..) if err => Box::pin(async move { o.close_with_error(e).await }),
                    (_, Some(o), ..) => Box::pin(async move { o.close().await }),
                    _ => return,
                };
                for e in &mut self.sess[s].exp_disp {
                    if self.rheld[e.rd].link == i {
                        e.optional = true;
                    }
                }
                let act = self.act.clone();
                let t = Task::start(fut, &act).await;
                self.links[i].close_task = Some(t);
                self.st("local detach");
            }
            Op::SClose { err } => {
                let Some(sink) = self.sink.clone() else { return };
                if self.close_called {
                    return;
                }
                self.t(format!("app: close err:{err}"));
                self.close_called = true;
                for s in &mut self.sess {
                    for e in &mut s.exp_disp {
                        e.optional = true;
                    }
                }
                if err {
                    self.close_err = Some("amqp:resource-locked".into());
                    let e = p::Error::build()
                        .condition(p::ErrorCondition::AmqpError(p::AmqpError::ResourceLocked))
                        .finish();
                    let _ = sink.close_with_error(e).await;
                } else {
                    let _ = sink.close().await;
                }
                self.st("local close");
            }
            Op::Release { i, ok } => {
                let n = self.sh.borrow().holds.len();
                if n == 0 {
                    return;
                }
                // decisions about links of one name come in order
                let (name, tx) = {
                    let mut sh = self.sh.borrow_mut();
                    let name = sh.holds[i as usize % n].0.clone();
                    let k = sh.holds.iter().position(|h| h.0 == name).unwrap();
                    sh.holds.remove(k)
                };
                self.t(format!("app: service answers {name}: {ok}"));
                if let Some(l) = self.links.iter_mut().find(|l| l.name == name && l.held) {
                    l.held = false;
                    l.refused = !ok;
                }
                let _ = tx.send(ok);
            }
            Op::Cut { kind } => self.cut(kind),
        }
    }

    pub(super) fn cut(&mut self, kind: u8) {
        if self.cut {
            return;
        }
        self.pump();
        self.cut = true;
        self.t(format!("stream cut {kind}"));
        self.st("cut");
        if let Some(io) = &self.io {
            match kind % 3 {
                0 => {
                    let mut f = Box::pin(io.close());
                    let w = std::task::Waker::noop();
                    let mut cx = std::task::Context::from_waker(w);
                    let _ = f.as_mut().poll(&mut cx);
                }
                1 => io.read_error(std::io::Error::other("reset")),
                _ => {}
            }
        }
        if kind % 3 == 2 {
            self.io = None;
        }
    }

    /// the application settles (or drops) a received delivery
    fn expect_disp(&mut self, s: usize, l: usize, r: usize, settled: bool, state: Option<Val>) {
        let rh = &self.rheld[r];
        if rh.settled || rh.presettled {
            return;
        }
        let m = &self.links[l];
        let id = rh.id;
        let by_peer = self.sess[s].in_settled_q.contains(&id);
        if by_peer {
            self.st("settled by peer");
            return;
        }
        let optional = self.sess[s].in_settled.contains(&id)
            || !self.link_live(l)
            || m.close_called
            || m.must_detach.is_some()
            || self.sess[s].end_called
            || !self.conn_live();
        self.sess[s].exp_disp.push_back(ExpDisp { id, settled, state, optional, rd: r });
    }

    /// the application obtained a delivery
    pub(super) fn got(&mut self, i: usize, d: Delivery, t: p::Transfer) {
        let s = self.links[i].sess;
        let data: Vec<u8> = match t.body() {
            Some(TransferBody::Data(b)) => b.to_vec(),
            Some(TransferBody::Message(_)) => {
                self.v(&["E07"], "received body is a message".into());
                vec![]
            }
            None => vec![],
        };
        self.t(format!("app: l{i} got delivery {} of {} bytes", d.id(), data.len()));
        self.st("received");
        loop {
            let Some(e) = self.links[i].ready_in.pop_front() else {
                let m = format!("l{i} hands over delivery {} of {} bytes that was not sent", d.id(), data.len());
                self.v(&["E07", "E11"], m);
                return;
            };
            if self.links[i].lossy && e.id != d.id() {
                continue;
            }
            let mut diff = vec![];
            if e.id != d.id() || t.delivery_id() != Some(e.id) {
                diff.push(format!("id {} ({:?})", d.id(), t.delivery_id()));
            }
            if e.tag != d.tag()[..] || t.delivery_tag().map(|b| &b[..]) != Some(&e.tag[..]) {
                diff.push(format!("tag {:02x?}", d.tag()));
            }
            if e.fmt != t.message_format() {
                diff.push(format!("format {:?}", t.message_format()));
            }
            if e.settled != t.settled().unwrap_or(false) {
                diff.push(format!("settled {:?}", t.settled()));
            }
            if e.body != data {
                diff.push(format!("{} bytes", data.len()));
            }
            if !diff.is_empty() {
                let m = format!(
                    "l{i} hands over {diff:?}, the peer sent id {} tag {:02x?} format {:?} settled {} of {} bytes",
                    e.id, e.tag, e.fmt, e.settled, e.body.len()
                );
                self.v(&["E07"], m);
            }
            let id = d.id();
            self.links[i].sure = self.links[i].sure.saturating_sub(1);
            self.rheld.push(RHeld { link: i, sess: s, id, del: Some(d), presettled: e.settled, settled: false });
            return;
        }
    }
}
