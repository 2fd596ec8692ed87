//! Histories: what a node can be exposed to, recorded with what it means.
use crate::sym::*;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;

pub const ALL: u8 = 0xf0; // bitmap of four validators
pub const MOST: u8 = 0x70; // all but this node
pub const HALF: u8 = 0xc0;

/// Four validators of equal weight, this node is number 0.  Base height and
/// round are symbolic; `turn` says who leads the base round.
pub struct D {
    pub l: Vec<Node>,
    pub h: u64,
    pub r: u64,
    /// height and round modulo 4
    hm: u64,
    rm: u64,
    /// who leads height 4a + i, round 4b + j
    turns: [[usize; 4]; 4],
    /// height of the application
    pub cur: u64,
    /// certificates that exist: type, height, round, block
    pub certs: Vec<(u8, u64, u64, u8)>,
}

/// Number of validator that leads round `r` of height `h` (turns are concrete).
impl D {
    pub fn new(turns: &[u64], rounds_from: u64) -> D {
        let k = if turns.len() == 1 { 0 } else { choose(turns.len() as u64, "turn") };
        let turn = turns[k as usize] as usize;
        // with height 4a + hm that validator leads round 4b (or one of the three after)
        let l = list(4);
        let mut hm = 0;
        while leader_index(400 + hm, 400, &l) != turn {
            hm += 1;
        }
        if k > 0 || (turns.len() == 1 && hm > 0 && flip("later round")) {
            hm = 0;
        }
        let h = 4 * (1 + below(32, "h")) + hm;
        let base = 4 * (rounds_from + below(31, "r"));
        let mut d = D::start(h, base, hm, 0);
        // the round in which that validator leads
        for j in (0..4u64).rev() {
            if d.turns[hm as usize][j as usize] == turn {
                d.r = base + j;
                d.rm = j;
            }
        }
        d
    }
    /// base height modulo 4
    pub fn hm(&self) -> u64 {
        self.hm
    }
    fn start(h: u64, r: u64, hm: u64, rm: u64) -> D {
        reset(0);
        let l = list(4);
        w().commit_list = l.clone();
        w().own_block = 2;
        let mut turns = [[0; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                turns[i][j] = leader_index(400 + i as u64, 400 + j as u64, &l);
            }
        }
        D { l, h, r, hm, rm, turns, cur: h, certs: Vec::new() }
    }
    /// Concrete base height and round.
    pub fn at(h: u64, r: u64) -> D {
        D::start(h, r, h % 4, r % 4)
    }
    /// leader of round base + off
    pub fn leader(&self, off: u64) -> usize {
        self.turns[self.hm as usize][((self.rm + off) % 4) as usize]
    }
    /// Whether this node leads a round of any height (symbolically).
    pub fn leads(&self, h: u64, r: u64) -> bool {
        let mut x = false;
        for i in 0..4usize {
            for j in 0..4usize {
                if self.turns[i][j] == 0 {
                    x |= (h & 3 == i as u64) & (r & 3 == j as u64);
                }
            }
        }
        x
    }
    /// At most one block (or no block) gets a certificate of a type in a round.
    pub fn cert(&mut self, t: u8, h: u64, r: u64, b: u8) {
        for (t2, h2, r2, b2) in self.certs.iter() {
            if *t2 == t && *b2 != b {
                assume((*h2 != h) | (*r2 != r));
            }
        }
        self.certs.push((t, h, r, b));
    }
    /// Starts from a log record.
    pub fn boot(&mut self, step: u8, lock: Option<(u64, u8)>) {
        let rec = match lock {
            None => wal_record(self.h, self.r, step, None, &init_from()),
            Some((lr, b)) => {
                self.cert(1, self.h, lr, b);
                let q = qc(&self.l, 1, self.h, lr, &hash(b), ALL);
                wal_record(self.h, self.r, step, Some((lr, &q, b)), &init_from())
            }
        };
        w().wal = Some(rec.clone());
        w().log.push(Ev::Wal(rec));
        w().log.push(Ev::Restart);
        start(self.h, 3000, self.l.clone(), None);
        settle();
    }
    /// A new node in the same state (nothing is known, no lock).
    pub fn boot_again(&mut self) {
        reset(0);
        w().own_block = 2;
        w().commit_list = self.l.clone();
        self.boot(PROPOSE, None);
    }
    fn after(&mut self) {
        settle();
        self.revive();
    }
    /// Restarts the node if it crashed.
    pub fn revive(&mut self) {
        while w().crashed {
            restart(self.app_height(), self.l.clone());
            settle();
        }
    }
    fn app_height(&self) -> u64 {
        let mut x = self.cur;
        for e in w().log.iter() {
            if let Ev::CommitOk(h) = e {
                x = *h + 1;
            }
        }
        x
    }

    // ------------------------------------------------------------- events

    pub fn send_proposal(&mut self, off: u64, b: u8, content: u8, lock: Option<u64>) {
        let (h, r) = (self.h, self.r + off);
        let p = self.leader(off);
        let polc = lock.map(|lr| {
            self.cert(1, h, lr, b);
            PoLC { lock_round: lr, lock_votes: qc(&self.l, 1, h, lr, &hash(b), ALL) }
        });
        w().log.push(Ev::InProp { h, r, b, content, valid: true, polc: lock });
        send(OverlordMsg::SignedProposal(proposal(h, r, &hash(b), content, polc, p)));
    }
    pub fn proposal(&mut self, off: u64, b: u8, lock: Option<u64>) {
        if self.leader(off) == 0 {
            return;
        }
        self.send_proposal(off, b, b, lock);
        self.after();
    }
    pub fn send_qc(&mut self, t: u8, r: u64, b: u8) {
        let h = self.h;
        self.cert(t, h, r, b);
        w().log.push(Ev::InQc { t, h, r, b, valid: true });
        send(OverlordMsg::AggregatedVote(qc(&self.l, t, h, r, &hash(b), MOST)));
    }
    pub fn qc(&mut self, t: u8, r: u64, b: u8) {
        self.send_qc(t, r, b);
        self.after();
    }
    pub fn send_choke(&mut self, r: u64, from: usize) {
        w().log.push(Ev::InChoke { h: self.h, r, from, valid: true });
        send(OverlordMsg::SignedChoke(choke(self.h, r, init_from(), from)));
    }
    pub fn choke(&mut self, r: u64, from: usize) {
        self.send_choke(r, from);
        self.after();
    }
    /// A choke of round `r + 1` that brings the aggregated choke of round `r`.
    pub fn choke_agg(&mut self, r: u64, from: usize) {
        let voters: Vec<Address> = (1..4).map(addr).collect();
        let sig = sign_as(choke_bytes(self.h, r), voters.clone(), true);
        let agg = AggregatedChoke { height: self.h, round: r, signature: sig, voters };
        w().log.push(Ev::InAgg { h: self.h, r, valid: true });
        send(OverlordMsg::SignedChoke(choke(self.h, r + 1, UpdateFrom::ChokeQC(agg), from)));
        self.after();
    }
    /// The aggregated choke of the base round.
    pub fn send_choke_agg(&mut self) {
        let r = self.r;
        let voters: Vec<Address> = (1..4).map(addr).collect();
        let sig = sign_as(choke_bytes(self.h, r), voters.clone(), true);
        let agg = AggregatedChoke { height: self.h, round: r, signature: sig, voters };
        w().log.push(Ev::InAgg { h: self.h, r, valid: true });
        send(OverlordMsg::SignedChoke(choke(self.h, r + 1, UpdateFrom::ChokeQC(agg), 1)));
    }
    /// A choke of round `r + 1` that brings a certificate of round `r`.
    pub fn choke_qc(&mut self, t: u8, r: u64, b: u8, from: usize) {
        let h = self.h;
        self.cert(t, h, r, b);
        let q = qc(&self.l, t, h, r, &hash(b), MOST);
        let f = if t == 1 { UpdateFrom::PrevoteQC(q) } else { UpdateFrom::PrecommitQC(q) };
        w().log.push(Ev::InQc { t, h, r, b, valid: true });
        send(OverlordMsg::SignedChoke(choke(h, r + 1, f, from)));
        self.after();
    }
    pub fn vote(&mut self, t: u8, off: u64, b: u8, from: usize) {
        send(OverlordMsg::SignedVote(vote(t, self.h, self.r + off, &hash(b), from)));
        self.after();
    }
    /// The three other validators vote for `b`.
    pub fn votes(&mut self, t: u8, off: u64, b: u8) {
        let (h, r) = (self.h, self.r + off);
        self.cert(t, h, r, b);
        w().log.push(Ev::InQc { t, h, r, b, valid: true });
        for i in 1..4 {
            send(OverlordMsg::SignedVote(vote(t, h, r, &hash(b), i)));
        }
        self.after();
    }
    /// Some timer that was started expires.
    pub fn timer(&mut self) {
        let mut p = pending_sleeps();
        // the pause after a commit ends the commit, it is no timer of a round
        if p.len() > 4 {
            p = p.split_off(p.len() - 4);
        }
        if p.is_empty() {
            return;
        }
        let i = if p.len() == 1 { 0 } else { choose(p.len() as u64, "timer") as usize };
        fire(p[i]);
        self.revive();
    }
    /// The latest timer expires.
    pub fn last_timer(&mut self) {
        let p = pending_sleeps();
        if let Some(i) = p.last() {
            fire(*i);
            self.revive();
        }
    }
    pub fn check_done(&mut self, ok: bool) {
        let o = open_checks();
        if o.is_empty() {
            return;
        }
        let i = if o.len() == 1 { 0 } else { choose(o.len() as u64, "which check") as usize };
        finish_check(o[i], ok);
        self.after();
    }
    pub fn status(&mut self, h: u64) {
        w().log.push(Ev::InStatus { h, member: true });
        self.cur = h;
        send(status(h, &self.l));
        self.after();
    }
    /// Messages are for height base + k from now on (round 0).
    pub fn enter(&mut self, k: u64) {
        self.h += k;
        self.hm = (self.hm + k) % 4;
        self.r = 0;
        self.rm = 0;
    }
    /// Messages are for round base + k from now on.
    pub fn later(&mut self, k: u64) {
        self.r += k;
        self.rm = (self.rm + k) % 4;
    }
    /// A status for height base + k; messages are for that height from now on.
    pub fn own_height(&mut self, k: u64) {
        let h = self.h + k;
        self.status(h);
        self.enter(k);
    }
    /// Messages are for height base - k again (any round).
    pub fn old(&mut self, k: u64) {
        self.h -= k;
        self.hm = (self.hm + 4 - k) % 4;
        self.r = 4;
        self.rm = 0;
    }
    pub fn crash_now(&mut self) {
        restart(self.app_height(), self.l.clone());
        self.after();
    }

    /// Common openings, each leaving the node in another state of the round.
    ///  0 fresh round, nothing known       1 proposal of block 1, check open
    ///  2 proposal checked                 3 locked on block 1 in this round
    ///  4 locked in an earlier round       5 no proposal, prevoted nothing
    ///  6 nothing locked, braking          7 locked on block 1, braking
    ///  8 next round after a nil precommit certificate
    ///  9 next round, locked
    pub fn open(&mut self, k: u64) {
        match k {
            0 => self.boot(PROPOSE, None),
            1 => {
                self.boot(PROPOSE, None);
                self.proposal(0, 1, None);
            }
            2 => {
                self.boot(PROPOSE, None);
                self.proposal(0, 1, None);
                self.check_done(true);
            }
            3 => {
                self.boot(PROPOSE, None);
                self.proposal(0, 1, None);
                self.check_done(true);
                let r = self.r;
                self.qc(1, r, 1);
            }
            4 => {
                let lr = self.earlier();
                self.boot(PROPOSE, Some((lr, 1)));
            }
            5 => {
                self.boot(PROPOSE, None);
                self.last_timer();
            }
            6 => {
                self.boot(PRECOMMIT, None);
                self.last_timer();
            }
            7 => {
                let lr = self.earlier();
                self.boot(PREVOTE, Some((lr, 1)));
                self.last_timer();
                self.last_timer();
            }
            8 => {
                self.boot(PREVOTE, None);
                let r = self.r;
                self.qc(2, r, 0);
            }
            _ => {
                let lr = self.earlier();
                self.boot(PRECOMMIT, Some((lr, 1)));
                let r = self.r;
                self.qc(2, r, 0);
            }
        }
    }
    /// Some round before the base round.
    pub fn earlier(&self) -> u64 {
        let lr = below(128, "lock");
        assume(lr < self.r);
        lr
    }
}

/// What was seen, for comparison with the native run.
pub fn summary() {
    for e in w().log.iter() {
        match e {
            Ev::Wal(b) => {
                let x = parse_record(b);
                note("wal.h", x.h);
                note("wal.r", x.r);
                note("wal.step", x.step as u64 + if x.lock.is_some() { 10 } else { 0 });
            }
            Ev::WalFail => note("walfail", 0),
            Ev::Bcast(m) => match m {
                OverlordMsg::SignedProposal(p) => note("proposal", p.proposal.round),
                OverlordMsg::AggregatedVote(q) => note("qc", q.round),
                OverlordMsg::SignedChoke(c) => note("choke", c.choke.round),
                _ => note("other", 0),
            },
            Ev::Xmit(_, m) => {
                if let OverlordMsg::SignedVote(v) = m {
                    note("vote", v.get_round());
                }
            }
            Ev::CheckReq { h, .. } => note("check", *h),
            Ev::GetBlock(h, _) => note("block", *h),
            Ev::Commit(h, _) => note("commit", *h),
            Ev::CommitOk(_) => note("committed", 0),
            Ev::Restart => note("restart", 0),
            _ => {}
        }
    }
}
pub fn _unused(_: Bytes) {}
