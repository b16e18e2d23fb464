//! Results of the endpoint's operations, quiescence and what must be true then.
use super::*;

type Stuck = Vec<(Vec<&'static str>, String)>;

impl World<'_> {
    /// dispositions of the peer covering a delivery
    fn covering(&self, d: usize) -> Vec<usize> {
        let x = &self.sdels[d];
        self.sess[x.sess]
            .disps
            .iter()
            .enumerate()
            .filter(|(_, p)| x.id.wrapping_sub(p.first) <= p.last.wrapping_sub(p.first))
            .map(|(i, _)| i)
            .collect()
    }

    /// the endpoint certainly knows that the peer settled the delivery
    pub(super) fn peer_settled_q(&self, d: usize) -> bool {
        let s = &self.sess[self.sdels[d].sess];
        self.covering(d).iter().any(|i| *i < s.disps_q && s.disps[*i].settled)
    }

    /// the link is in use and nobody has started to take it down
    fn link_firm(&self, i: usize) -> bool {
        let m = &self.links[i];
        self.link_live(i) && !m.close_called && !self.sess[m.sess].end_called && m.must_detach.is_none()
    }

    pub(super) fn collect(&mut self) {
        for s in 0..self.sess.len() {
            let m = &self.sess[s];
            if let Some(t) = &m.open_task {
                if m.obj.is_none() && !m.open_failed && t.done() {
                    let r = t.slot.borrow_mut().take().unwrap();
                    match r {
                        Ok(o) => {
                            *t.slot.borrow_mut() = Some(Err(PE::Disconnected));
                            let (l, r) = (o.local_channel_id(), o.remote_channel_id());
                            let m = &mut self.sess[s];
                            m.obj = Some(o);
                            if m.sut_begin && m.peer_begin && (Some(l) != m.sut_ch || Some(r) != m.peer_ch) {
                                let x = format!("session s{s} reports channels {l}/{r}, not {:?}/{:?}", m.sut_ch, m.peer_ch);
                                self.v(&["E12"], x);
                            }
                            if !self.sess[s].peer_begin {
                                self.v(&["E12"], format!("session s{s} opens before the peer's begin"));
                            }
                        }
                        Err(e) => {
                            *t.slot.borrow_mut() = Some(Err(e.clone()));
                            self.sess[s].open_failed = true;
                            if self.conn_live() {
                                self.v(&["E12", "E18"], format!("open_session s{s} fails: {e:?}"));
                            }
                        }
                    }
                }
            } else if m.obj.is_none() && m.sut_begin && self.sess_live(s) {
                let o = self.sink.as_ref().and_then(|k| k.get_session_by_local_id(m.sut_ch.unwrap()));
                if o.as_ref().is_some_and(|o| Some(o.remote_channel_id()) != m.peer_ch) {
                    self.v(&["E12"], format!("session s{s} is mapped to another channel"));
                }
                self.sess[s].obj = o;
            }
        }
        for i in 0..self.links.len() {
            let l = &mut self.links[i];
            let mut err = None;
            if let Some(t) = &l.satt {
                let r = t.slot.borrow_mut().take();
                if let Some(r) = r {
                    l.satt = None;
                    match r {
                        Ok(o) => l.sobj = Some(o),
                        Err(e) => err = Some(e),
                    }
                }
            }
            if let Some(t) = &l.ratt {
                let r = t.slot.borrow_mut().take();
                if let Some(r) = r {
                    l.ratt = None;
                    match r {
                        Ok(o) => l.robj = Some(o),
                        Err(e) => err = Some(e),
                    }
                }
            }
            if let Some(e) = err {
                self.t(format!("l{i} attach failed: {e:?}"));
                let l = &self.links[i];
                let s = l.sess;
                if self.sess_live(s) && !self.sess[s].end_called && !l.peer_det && !l.peer_refused {
                    self.v(&["E11"], format!("attach of l{i} fails: {e:?}"));
                }
                self.links[i].att_failed = true;
            }
            // tasks
            let mut k = 0;
            while k < self.links[i].ready_tasks.len() {
                let r = *self.links[i].ready_tasks[k].slot.borrow();
                let Some(r) = r else {
                    k += 1;
                    continue;
                };
                self.links[i].ready_tasks.remove(k);
                let firm = self.link_firm(i);
                if r && !self.links[i].ever_credit {
                    self.v(&["E01"], format!("ready() of l{i} reports true, the peer never gave credit"));
                }
                if !r && firm {
                    self.v(&["E01", "E06"], format!("ready() of l{i} reports false, the link is open"));
                }
            }
            let r = match &self.links[i].recv_task {
                Some(t) => t.slot.borrow_mut().take(),
                None => None,
            };
            if let Some(r) = r {
                self.links[i].recv_task = None;
                match r {
                    Some(Ok((d, t))) => self.got(i, d, t),
                    r => {
                        self.t(format!("app: l{i} recv() -> {}", if r.is_none() { "end" } else { "error" }));
                        let l = &self.links[i];
                        let firm = self.link_live(i) && !l.close_called && !self.sess[l.sess].end_called && l.must_detach.is_none();
                        if firm {
                            self.v(&["E07", "E06"], format!("recv() on l{i} ends although the link is open"));
                        } else if l.sure > 0 && !l.lossy && self.sess_live(l.sess) {
                            let m = format!("recv() on l{i} ends, {} complete deliveries were not handed over", l.ready_in.len());
                            self.v(&["E07"], m);
                        }
                    }
                }
            }
        }
        for n in 0..self.sends.len() {
            if self.sends[n].reported || self.sends[n].task.cancelled || !self.sends[n].task.done() {
                continue;
            }
            self.sends[n].reported = true;
            let i = self.sends[n].link;
            let r = self.sends[n].task.slot.borrow_mut().take().unwrap();
            match r {
                Ok(d) => {
                    *self.sends[n].task.slot.borrow_mut() = None;
                    self.sends[n].ok = true;
                    let id = d.id();
                    let tag = d.tag().to_vec();
                    if self.sends[n].tag.as_ref().is_some_and(|t| *t != tag) {
                        self.v(&["E02"], format!("delivery of send{n} has tag {tag:02x?}"));
                    }
                    self.sends[n].lib_id = Some((id, tag));
                    if self.sends[n].after_gone {
                        self.v(&["E06"], format!("send{n} on l{i} succeeds although the link is gone"));
                    }
                    let sess = self.links[i].sess;
                    self.sdels.push(SDel {
                        link: i,
                        sess,
                        id,
                        presettled: self.sends[n].settled,
                        del: Some(Rc::new(d)),
                        wait: None,
                        waited: 0,
                        dropped: false,
                        settled_by_sut: false,
                        consumed: 0,
                    });
                }
                Err(e) => {
                    let firm = self.link_firm(i);
                    self.t(format!("send{n} failed: {e:?}"));
                    *self.sends[n].task.slot.borrow_mut() = Some(Err(e.clone()));
                    if firm && !self.sends[n].too_large && !matches!(e, PE::BodyTooLarge) {
                        self.v(&["E02", "E01"], format!("send{n} on l{i} fails although the link is open: {e:?}"));
                    }
                    if !self.sends[n].too_large && matches!(e, PE::BodyTooLarge) {
                        let m = format!(
                            "send{n} of {} bytes refused, limit of l{i} is {:?}",
                            self.sends[n].body.len(),
                            self.links[i].slimit
                        );
                        self.v(&["E09"], m);
                    }
                }
            }
        }
        for n in 0..self.sends.len() {
            let x = &self.sends[n];
            if let (Some((id, tag)), Some(w)) = (&x.lib_id, x.wire_id) {
                let (id, tag) = (*id, tag.clone());
                if id != w || tag != x.wire_tag {
                    let m = format!("send{n} reports delivery {id} tag {tag:02x?}, on the wire it is {w} tag {:02x?}", x.wire_tag);
                    self.v(&["E05", "E02"], m);
                }
                self.sends[n].lib_id = None;
            }
        }
        for d in 0..self.sdels.len() {
            let r = match &self.sdels[d].wait {
                Some(w) => w.task.slot.borrow_mut().take(),
                None => None,
            };
            if let Some(r) = r {
                let from = self.sdels[d].wait.take().unwrap().from;
                self.check_wait(d, from, r);
            }
        }
    }

    fn check_wait(&mut self, d: usize, from: usize, r: Result<Option<DeliveryState>, PE>) {
        let (id, link, s, consumed) =
            (self.sdels[d].id, self.sdels[d].link, self.sdels[d].sess, self.sdels[d].consumed);
        self.t(format!("wait for delivery {id} -> {r:?}").chars().take(160).collect());
        let cov = self.covering(d);
        let x = &self.sdels[d];
        let disps = &self.sess[s].disps;
        match r {
            Err(e) => {
                let firm = self.link_live(link) && !self.links[link].close_called && !self.sess[s].end_called;
                if firm {
                    self.v(&["E05"], format!("wait for delivery {id} of l{link} fails: {e:?}"));
                }
            }
            Ok(None) => {
                let settled = cov.iter().any(|i| disps[*i].settled);
                let state = cov.iter().any(|i| *i >= consumed && *i < from && disps[*i].state.is_some());
                if !(x.presettled || x.settled_by_sut || settled && !state) {
                    let m = format!(
                        "wait for delivery {id} of l{link} returns no state; dispositions {:?}",
                        cov.iter().map(|i| (*i, disps[*i].settled, disps[*i].state.is_some())).collect::<Vec<_>>()
                    );
                    self.v(&["E05"], m);
                }
            }
            Ok(Some(st)) => {
                let v = state_val(&st);
                let low = cov.iter().rev().find(|i| **i < from && disps[**i].state.is_some()).copied().unwrap_or(0);
                let first_settled = cov.iter().find(|i| disps[**i].settled).copied().unwrap_or(usize::MAX);
                let low = low.min(first_settled).max(consumed);
                let hit = cov.iter().rev().find(|i| **i >= low && disps[**i].state == v).copied();
                match hit {
                    Some(k) => {
                        self.st("outcomes");
                        if matches!(st, DeliveryState::Modified(..)) {
                            self.sdels[d].consumed = k + 1;
                        }
                    }
                    None => {
                        let other = disps.iter().position(|p| p.state == v);
                        let m = format!("wait for delivery {id} of l{link} returns {v:?}, which disposition {other:?} carries; covering: {cov:?}");
                        self.v(&["E05"], m);
                    }
                }
            }
        }
    }

    pub(super) async fn quiesce(&mut self) {
        self.settle_down().await;
        let mut stuck = self.stuck();
        if !stuck.is_empty() {
            // give it time before saying that nothing happens any more
            for k in 0..12 {
                sleep_ms(if k < 4 { 3 } else { 20 }).await;
                self.settle_down().await;
                stuck = self.stuck();
                if stuck.is_empty() {
                    break;
                }
            }
        }
        for (p, m) in stuck {
            if self.told.insert(m.clone()) {
                self.v(&p, m);
            }
        }
        self.at_rest();
    }

    async fn settle_down(&mut self) {
        let mut idle = 0;
        let mut rounds = 0;
        let mut last = (0, 0, 0);
        while idle < 24 && rounds < 4000 {
            yields(1).await;
            self.pump();
            if self.h.cfg.auto {
                self.answers().await;
            }
            let now = (self.act.get(), self.trace.len(), self.buf.len());
            if now == last {
                idle += 1;
            } else {
                idle = 0;
                last = now;
            }
            rounds += 1;
        }
        if rounds >= 4000 && self.told.insert("spin".into()) {
            self.v(&["E15"], "endpoint does not come to rest".into());
        }
    }

    /// quiescent: what was sent has been processed
    fn at_rest(&mut self) {
        for s in 0..self.sess.len() {
            let m = &mut self.sess[s];
            if m.sut_begin && m.win.len() > 1 {
                m.win.drain(..m.win.len() - 1);
            }
            m.in_frames_q = m.in_frames;
            m.disps_q = m.disps.len();
            m.in_settled_q = m.in_settled.clone();
        }
        for i in 0..self.links.len() {
            let s = self.links[i].sess;
            let at = self.links[i].idc.wrapping_add(self.links[i].count);
            let win = self.sess_window(s);
            let live = self.link_live(i);
            let l = &mut self.links[i];
            // a flow that came before the endpoint knew the link is as good as any other
            if l.lim.len() > 1 {
                l.lim.drain(..l.lim.len() - 1);
            }
            l.finished_q = l.finished;
            l.sure = l.ready_in.len();
            let waiting = self
                .sends
                .iter()
                .filter(|x| x.link == i && !x.task.cancelled && !x.reported)
                .count();
            if live && l.sut_sender && waiting > 0 && win == 0 {
                l.win_blocked = true;
            }
            if !live {
                continue;
            }
            let avail = left(*l.lim.last().unwrap(), at);
            if let Some(o) = &l.sobj
                && !l.close_called
                && !self.sess[s].end_called
            {
                let c = o.credit();
                let ok = if waiting == 0 { c == avail } else { c <= avail && c >= avail.saturating_sub(waiting as u32) };
                if !ok {
                    let many = self.sess[s].links_ever > 1;
                    let m = format!("l{i} reports credit {c}, the peer left {avail} ({waiting} sends wait)");
                    self.v(if many { &["E01", "E11"] } else { &["E01"] }, m);
                }
            }
        }
    }

    fn sess_window(&self, s: usize) -> u32 {
        let m = &self.sess[s];
        m.win.last().map_or(0, |g| left(*g, self.nii(s)))
    }

    /// everything that should have happened by now and has not
    fn stuck(&self) -> Stuck {
        let mut o: Stuck = vec![];
        let mut put = |p: &[&'static str], m: String| o.push((p.to_vec(), m));
        let done = self.ep.done.borrow().is_some();
        if self.peer_close && !self.sut_close && !self.cut {
            put(&["E13"], "the peer's close is not answered".into());
        }
        if self.close_called && !self.sut_close && !self.cut && !self.peer_close {
            put(&["E13"], "close puts no frame on the wire".into());
        }
        if (self.peer_close || self.cut) && !done {
            put(&["E06", "E13", "E15", "E19"], "connection is over, its task does not complete".into());
        }
        // operations may count on the connection being over
        let over = self.cut || self.peer_close || done;
        for s in 0..self.sess.len() {
            let m = &self.sess[s];
            let up = self.conn_live();
            let ended = over || m.sut_begin && m.sut_end && m.peer_end;
            if up && m.peer_begin && !m.by_sut && !m.sut_begin {
                put(&["E12"], format!("begin of s{s} is not answered"));
            }
            if up && m.by_sut && !m.sut_begin && !m.open_failed {
                put(&["E12"], format!("open_session s{s} puts no begin on the wire"));
            }
            if up && m.sut_begin && m.peer_end && !m.sut_end {
                put(&["E12"], format!("end of s{s} is not answered"));
            }
            if up && m.end_live && !m.sut_end {
                put(&["E12"], format!("end() of s{s} puts no end on the wire"));
            }
            if m.by_sut && m.obj.is_none() && !m.open_failed && (up && m.sut_begin && m.peer_begin || over) {
                put(&["E06", "E12"], format!("open_session s{s} does not complete"));
            }
            if let Some(t) = &m.end_task {
                if ended && !t.done() {
                    put(&["E06", "E12"], format!("end() of s{s} does not complete"));
                }
            }
            if self.sess_live(s) && !m.end_called && m.echo_ans < m.echo_req {
                put(&["E20"], format!("echo requests on s{s}: {}, answers {}", m.echo_req, m.echo_ans));
            }
            if self.sess_live(s)
                && !m.end_called
                && let Some(e) = m.exp_disp.iter().find(|e| !e.optional)
            {
                put(&["E10"], format!("disposition {e:?} is not sent"));
            }
        }
        for i in 0..self.links.len() {
            let l = &self.links[i];
            let s = l.sess;
            let up = self.sess_live(s) && !self.sess[s].end_called;
            let ended = over
                || self.sess[s].sut_end && self.sess[s].peer_end
                // a detach that comes after end() may be discarded until the end is answered
                || l.sut_det && l.peer_det && !self.sess[s].end_called;
            if up && l.peer_att && !l.by_sut && !l.sut_att && !l.held {
                put(&["E11"], format!("attach of l{i} is not answered"));
            }
            if up && l.by_sut && !l.sut_att && !l.att_failed && !l.peer_att {
                put(&["E11"], format!("attach of l{i} is not sent"));
            }
            if up && l.refused && l.sut_att && !l.sut_det {
                put(&["E11"], format!("l{i} was refused, it is not detached"));
            }
            if up && l.peer_det && l.sut_att && !l.sut_det {
                put(&["E11"], format!("detach of l{i} is not answered"));
            }
            if up && l.close_live && !l.sut_det {
                put(&["E11"], format!("closing l{i} puts no detach on the wire"));
            }
            if up
                && !l.peer_det
                && !l.sut_det
                && let Some(c) = l.must_detach
            {
                put(if c.contains("size") { &["E09"] } else { &["E08"] }, format!("l{i} should be detached with {c}"));
            }
            if (l.satt.is_some() || l.ratt.is_some()) && (ended || up && (l.peer_att || l.peer_det)) {
                put(&["E06", "E11"], format!("attach of l{i} does not complete"));
            }
            if let Some(t) = &l.close_task
                && ended
                && !t.done()
            {
                put(&["E06", "E11"], format!("close() of l{i} does not complete"));
            }
            let firm = self.link_firm(i);
            if firm && !l.exp_grants.is_empty() {
                put(&["E08"], format!("l{i}: credit {:?} is not granted on the wire", l.exp_grants));
            }
            if ended && !l.ready_tasks.is_empty() {
                put(&["E06"], format!("ready() of l{i} does not complete"));
            }
            if ended && l.recv_task.is_some() {
                put(&["E06"], format!("recv() of l{i} does not complete"));
            }
            if firm && !l.ready_in.is_empty() && l.recv_task.is_some() {
                put(&["E07"], format!("recv() of l{i} does not complete, {} deliveries wait", l.ready_in.len()));
            }
            if firm && !l.lossy && let Some(r) = &l.robj {
                if l.recv_task.is_none() && r.has_deliveries() == l.ready_in.is_empty() {
                    put(&["E07"], format!("has_deliveries() of l{i} is {}, {} wait", r.has_deliveries(), l.ready_in.len()));
                }
                if self.h.cfg.server && l.published != l.good_in {
                    put(&["E07"], format!("l{i}: service was called {} times for {} deliveries", l.published, l.good_in));
                }
            }
            // sending
            if !l.sut_sender {
                continue;
            }
            let at = l.idc.wrapping_add(l.count);
            let avail = left(*l.lim.last().unwrap(), at);
            let win = self.sess_window(s);
            let pending: Vec<usize> = (0..self.sends.len())
                .filter(|n| {
                    let x = &self.sends[*n];
                    x.link == i && !x.task.cancelled && !x.reported
                })
                .collect();
            if firm {
                if let Some(n) = pending.first()
                    && avail > 0
                    && win > 0
                {
                    put(
                        if l.win_blocked { &["E01", "E03"] } else { &["E01"] },
                        format!("send{n} on l{i} waits, credit {avail} and window {win} are available"),
                    );
                }
                if avail > 0 && pending.is_empty() && !l.ready_tasks.is_empty() {
                    put(&["E01"], format!("ready() of l{i} waits, credit is {avail}"));
                }
            }
            if ended && let Some(n) = pending.first() {
                put(&["E06"], format!("send{n} on l{i} does not complete"));
            }
        }
        for (n, x) in self.sends.iter().enumerate() {
            if x.ok && !x.wire_done && !self.cut && !self.dead {
                put(&["E02"], format!("send{n} succeeded, its delivery is not on the wire"));
            }
            if x.wire_done && !x.ok && !x.task.cancelled {
                let m = match &*x.task.slot.borrow() {
                    Some(Err(e)) => format!("send{n} reports {e:?}, its delivery was sent"),
                    _ => format!("send{n} does not complete, its delivery was sent"),
                };
                put(&["E02"], m);
            }
        }
        for (d, x) in self.sdels.iter().enumerate() {
            if x.wait.is_none() {
                continue;
            }
            let l = &self.links[x.link];
            let s = &self.sess[x.sess];
            let ended = over || s.sut_end && s.peer_end || l.sut_det && l.peer_det;
            let cov = self.covering(d);
            let out = cov.iter().any(|i| s.disps[*i].settled || *i >= x.consumed && s.disps[*i].state.is_some());
            if ended {
                put(&["E06"], format!("wait for delivery {} of l{} does not complete", x.id, x.link));
            } else if self.sess_live(x.sess) && (out || x.presettled) {
                put(&["E05"], format!("wait for delivery {} of l{} does not complete, dispositions {cov:?}", x.id, x.link));
            }
        }
        o
    }

    pub(super) async fn finish(&mut self) {
        if self.viol.len() > 8 {
            return;
        }
        loop {
            if self.sh.borrow().holds.is_empty() {
                break;
            }
            self.op(&Op::Release { i: 0, ok: true }).await;
        }
        self.settle_down().await;
        self.answers().await;
        self.settle_down().await;
        self.answers().await;
        self.quiesce().await;
        match self.h.fin {
            1 => self.cut(0),
            2 => self.op(&Op::PClose { err: true }).await,
            3 => self.op(&Op::SClose { err: false }).await,
            4 => {
                for _ in 0..self.sess.len() {
                    self.op(&Op::SEnd { s: 0 }).await;
                }
            }
            5 => {
                for _ in 0..self.links.len() {
                    self.op(&Op::SCloseLink { l: 0, err: false, detach: false }).await;
                }
            }
            6 => {
                for _ in 0..self.links.len() {
                    self.op(&Op::PDetach { l: 0, err: true, open: false }).await;
                }
            }
            7 => {
                for _ in 0..self.sess.len() {
                    self.op(&Op::PEnd { s: 0, err: false }).await;
                }
            }
            8 => self.cut(2),
            9 => self.cut(1),
            _ => {}
        }
        self.settle_down().await;
        for _ in 0..3 {
            self.answers().await;
            self.settle_down().await;
        }
        self.quiesce().await;
        if self.viol.is_empty() {
            // nothing may outlive the connection
            self.cut(0);
            self.quiesce().await;
        }
    }
}
