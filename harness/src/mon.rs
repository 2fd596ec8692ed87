//! Monitors: judge a whole recorded history.
//! Written without short circuits over symbolic values, so that one path of
//! the node stays one path of the monitor.
use crate::drive::*;
use crate::sym::*;
use crate::world::*;
use overlord::types::*;

pub fn block_of(h: &Hash) -> u8 {
    if h.is_empty() {
        0
    } else {
        h[0] - 0xb0
    }
}
pub fn tnum(t: &VoteType) -> u8 {
    if *t == VoteType::Prevote {
        1
    } else {
        2
    }
}
/// Something this node signed and let out.
#[derive(Clone, Copy)]
pub struct Out {
    pub at: usize,
    pub h: u64,
    pub r: u64,
    /// 0 proposal, 1 prevote, 2 precommit, 3 choke
    pub step: u8,
    pub b: u8,
    pub own_qc: bool,
}
/// A prevote certificate the node has seen.
#[derive(Clone, Copy)]
pub struct Cert {
    pub at: usize,
    pub t: u8,
    pub h: u64,
    pub r: u64,
    pub b: u8,
}
pub struct Lock {
    pub at: usize,
    pub h: u64,
    pub r: u64,
    pub b: u8,
    pub content: u8,
}
pub struct Facts {
    pub outs: Vec<Out>,
    pub certs: Vec<Cert>,
    pub recs: Vec<(usize, Rec)>,
}

pub fn facts(d: &D) -> Facts {
    let mut f = Facts { outs: Vec::new(), certs: Vec::new(), recs: Vec::new() };
    let mut first = true;
    for (at, e) in w().log.iter().enumerate() {
        match e {
            Ev::Xmit(_, OverlordMsg::SignedVote(v)) => f.outs.push(Out {
                at,
                h: v.get_height(),
                r: v.get_round(),
                step: tnum(&v.vote.vote_type),
                b: block_of(&v.vote.block_hash),
                own_qc: false,
            }),
            Ev::Bcast(OverlordMsg::SignedProposal(p)) => f.outs.push(Out {
                at,
                h: p.proposal.height,
                r: p.proposal.round,
                step: 0,
                b: block_of(&p.proposal.block_hash),
                own_qc: false,
            }),
            Ev::Bcast(OverlordMsg::SignedChoke(c)) => {
                f.outs.push(Out { at, h: c.choke.height, r: c.choke.round, step: 3, b: 0, own_qc: false })
            }
            Ev::Bcast(OverlordMsg::AggregatedVote(q)) => {
                let t = tnum(&q.vote_type);
                let b = block_of(&q.block_hash);
                f.certs.push(Cert { at, t, h: q.height, r: q.round, b });
                if marked(&d.l, &q.signature.address_bitmap).contains(&addr(0)) {
                    f.outs.push(Out { at, h: q.height, r: q.round, step: t, b, own_qc: true });
                }
            }
            Ev::InQc { t, h, r, b, valid } => {
                if *valid {
                    f.certs.push(Cert { at, t: *t, h: *h, r: *r, b: *b });
                }
            }
            Ev::InProp { h, b, polc, valid, .. } => {
                if let Some(lr) = polc {
                    if *valid {
                        f.certs.push(Cert { at, t: 1, h: *h, r: *lr, b: *b });
                    }
                }
            }
            Ev::Wal(x) => {
                let rec = parse_record(x);
                if first {
                    // the record the node starts from
                    if let Some((lr, q, _)) = &rec.lock {
                        f.certs.push(Cert { at, t: tnum(&q.vote_type), h: rec.h, r: *lr, b: block_of(&q.block_hash) });
                    }
                }
                f.recs.push((at, rec));
            }
            _ => {}
        }
        if let Ev::Wal(_) = e {
            first = false;
        }
    }
    f
}

/// C03
pub fn votes_consistent(d: &D) {
    let f = facts(d);
    let mut ok = true;
    for i in 0..f.outs.len() {
        for j in 0..i {
            let (x, y) = (&f.outs[i], &f.outs[j]);
            if (x.step == 1 || x.step == 2) && x.step == y.step && x.b != y.b {
                ok &= (x.h != y.h) | (x.r != y.r);
            }
        }
    }
    check(ok, "C03: two votes of a height, round and type differ");
}

/// C04: prevotes while locked.
pub fn lock_respected(d: &D) {
    let f = facts(d);
    let mut ok = true;
    for o in f.outs.iter().filter(|o| o.step == 1) {
        // own precommits that show a lock
        for p in f.outs.iter().filter(|p| p.step == 2 && p.b != 0 && p.at < o.at && p.b != o.b) {
            let mut excused = (p.h != o.h) | (o.r <= p.r);
            for c in f.certs.iter().filter(|c| c.t == 1 && c.at < o.at && c.b != p.b) {
                excused |= (c.h == o.h) & (c.r >= p.r);
            }
            ok &= excused;
        }
        // locks that were logged
        for (at, rec) in f.recs.iter().filter(|(at, rec)| *at < o.at && rec.step != COMMIT) {
            if let Some((lr, q, _)) = &rec.lock {
                let b = block_of(&q.block_hash);
                if b != o.b {
                    let mut excused = (rec.h != o.h) | (o.r <= *lr);
                    for c in f.certs.iter().filter(|c| c.t == 1 && c.at < o.at && c.b != b) {
                        excused |= (c.h == o.h) & (c.r > *lr);
                    }
                    let _ = at;
                    ok &= excused;
                }
            }
        }
    }
    check(ok, "C04: a locked node prevotes for its lock");
}

/// C05
pub fn precommit_justified(d: &D) {
    let f = facts(d);
    let mut cert_ok = true;
    let mut check_ok = true;
    for o in f.outs.iter().filter(|o| o.step == 2 && o.b != 0) {
        let mut c_ok = false;
        for c in f.certs.iter().filter(|c| c.t == 1 && c.b == o.b && (c.at < o.at)) {
            c_ok |= (c.h == o.h) & (c.r <= o.r);
        }
        cert_ok &= c_ok;
        let mut k_ok = false;
        for (at, e) in w().log.iter().enumerate() {
            if at >= o.at {
                break;
            }
            match e {
                Ev::Done { h, hash, ok, .. } => {
                    if *ok && block_of(hash) == o.b {
                        k_ok |= *h == o.h;
                    }
                }
                _ => {}
            }
        }
        // a lock in the record the node started from stands for an earlier check
        if let Some((_, rec)) = f.recs.first() {
            if let Some((_, q, _)) = &rec.lock {
                if block_of(&q.block_hash) == o.b {
                    k_ok |= rec.h == o.h;
                }
            }
        }
        check_ok &= k_ok;
    }
    check(cert_ok, "C05: a precommit for a block has a prevote certificate");
    check(check_ok, "C05: a precommit for a block follows a passed check of it");
}

/// C06
pub fn commits_right(d: &D) {
    let f = facts(d);
    let mut proof_ok = true;
    let mut cur_ok = true;
    let mut content_ok = true;
    let mut once = true;
    let mut cert_ok = true;
    let n = d.l.len();
    let log = &w().log;
    for (at, e) in log.iter().enumerate() {
        if let Ev::Commit(h, c) = e {
            let v = marked(&d.l, &c.proof.signature.address_bitmap);
            proof_ok &= v.len() * 3 > n * 2;
            proof_ok &= verifies(&c.proof.signature.signature, &vote_bytes(2, c.proof.height, c.proof.round, &c.proof.block_hash), &v);
            proof_ok &= (c.height == *h) & (c.proof.height == *h);
            proof_ok &= !c.proof.block_hash.is_empty();
            let b = block_of(&c.proof.block_hash);
            let mut have = false;
            for k in f.certs.iter().filter(|k| k.t == 2 && k.b == b && k.at < at) {
                have |= (k.h == *h) & (k.r == c.proof.round);
            }
            cert_ok &= have;
            let mut con = false;
            let mut restarted = false;
            for (j, e2) in log.iter().enumerate().rev() {
                if j >= at {
                    continue;
                }
                match e2 {
                    Ev::Done { h: h2, hash, blk, ok } => {
                        if *ok && block_of(hash) == b && *blk == c.content {
                            con |= h2 == h;
                        }
                    }
                    Ev::Restart => restarted = true,
                    Ev::CommitOk(h2) => {
                        // the same block again after a restart
                        let mut same = false;
                        if restarted {
                            if let Some(Ev::Commit(_, c2)) = log.get(j - 1) {
                                same = c2.content == c.content && c2.proof.block_hash == c.proof.block_hash;
                            }
                        }
                        if !same {
                            once &= *h > *h2;
                        } else {
                            once &= *h >= *h2;
                        }
                    }
                    Ev::InStatus { h: h2, .. } => {
                        if !restarted {
                            cur_ok &= *h >= *h2;
                        }
                    }
                    _ => {}
                }
            }
            if let Some((_, rec)) = f.recs.first() {
                if let Some((_, q, k)) = &rec.lock {
                    if block_of(&q.block_hash) == b && *k == c.content.0 {
                        con |= rec.h == *h;
                    }
                }
            }
            content_ok &= con;
        }
    }
    check(proof_ok, "C06: the proof of a commit is a valid precommit certificate");
    check(cert_ok, "C06: the proof of a commit is for the round it states");
    check(cur_ok, "C06: a commit is for the current height");
    check(content_ok, "C06: the committed content is the one that was checked");
    check(once, "C06: a height is committed once");
}

/// C07
pub fn logged_first(d: &D) {
    let f = facts(d);
    let mut step_ok = true;
    let mut lock_ok = true;
    let mut commit_ok = true;
    let mut keeps = true;
    let mut resume = true;
    let log = &w().log;
    let mut last: Option<Rec> = None; // latest attempt, if it succeeded
    let mut stored: Option<(u64, u64, u8)> = None;
    let mut restart_from: Option<(u64, u64, u8)> = None;
    for (at, e) in log.iter().enumerate() {
        match e {
            Ev::Wal(x) => {
                let rec = parse_record(x);
                stored = Some((rec.h, rec.r, rec.step));
                last = Some(rec);
            }
            Ev::WalFail => last = None,
            Ev::Restart => restart_from = stored,
            Ev::Commit(h, c) => match &last {
                Some(rec) => {
                    let mut good = (rec.h == *h) & (rec.step == COMMIT);
                    match &rec.lock {
                        Some((_, q, k)) => good &= q.block_hash == c.proof.block_hash && *k == c.content.0,
                        None => good = false,
                    }
                    commit_ok &= good;
                }
                None => {
                    // a restart in the commit step hands over what it stored
                    commit_ok = false;
                }
            },
            _ => {}
        }
        for o in f.outs.iter().filter(|o| o.at == at && o.step != 0) {
            if let Some((rh, rr, rs)) = restart_from {
                let s = if o.step == 3 { BRAKE } else { o.step };
                if rs != COMMIT {
                    resume &= (o.h > rh) | ((o.h == rh) & ((o.r > rr) | ((o.r == rr) & (s >= rs))));
                } else {
                    resume &= o.h > rh;
                }
            }
            if o.own_qc {
                // the leader's own vote: some record of that step came before
                let mut any = false;
                for (j, rec) in f.recs.iter() {
                    if *j < at {
                        any |= (rec.h == o.h) & (rec.r == o.r) & (rec.step == o.step);
                    }
                }
                step_ok &= any;
                continue;
            }
            match &last {
                None => step_ok = false,
                Some(rec) => {
                    let want = if o.step == 3 { BRAKE } else { o.step };
                    step_ok &= (rec.h == o.h) & (rec.r == o.r) & (rec.step == want);
                    if o.step == 2 && o.b != 0 {
                        match &rec.lock {
                            Some((lr, q, k)) => {
                                lock_ok &= block_of(&q.block_hash) == o.b;
                                lock_ok &= (q.height == o.h) & (q.round == *lr) & (*lr <= o.r);
                                lock_ok &= q.vote_type == VoteType::Prevote;
                                let v = marked(&d.l, &q.signature.address_bitmap);
                                lock_ok &= v.len() * 3 > d.l.len() * 2;
                                lock_ok &= verifies(&q.signature.signature, &vote_bytes(1, q.height, q.round, &q.block_hash), &v);
                                let mut same = *k == o.b;
                                for e2 in log.iter() {
                                    if let Ev::Done { hash, blk, ok, .. } = e2 {
                                        same |= *ok && block_of(hash) == o.b && blk.0 == *k;
                                    }
                                }
                                lock_ok &= same;
                            }
                            None => lock_ok = false,
                        }
                    }
                }
            }
        }
    }
    // a lock stays in the log until something newer replaces it
    for (i, (_, a)) in f.recs.iter().enumerate() {
        if a.step == COMMIT {
            continue;
        }
        if let Some((lr, q, _)) = &a.lock {
            let b = block_of(&q.block_hash);
            for (at2, c) in f.recs.iter().skip(i + 1) {
                if c.step == COMMIT {
                    continue;
                }
                let mut good = a.h != c.h;
                if let Some((lr2, q2, _)) = &c.lock {
                    let b2 = block_of(&q2.block_hash);
                    good |= *lr2 > *lr;
                    if b2 == b {
                        good |= *lr2 == *lr;
                    }
                }
                for k in f.certs.iter().filter(|k| k.t == 1 && k.b != b && k.at < *at2) {
                    good |= (k.h == a.h) & (k.r > *lr);
                }
                keeps &= good;
            }
        }
    }
    // and a precommit for a block leaves its lock in every later record
    for o in f.outs.iter().filter(|o| o.step == 2 && o.b != 0) {
        for (at2, c) in f.recs.iter() {
            if *at2 < o.at || c.step == COMMIT {
                continue;
            }
            let mut good = c.h != o.h;
            if let Some((lr2, q2, _)) = &c.lock {
                if block_of(&q2.block_hash) == o.b {
                    good = true;
                }
                good |= *lr2 > o.r;
            }
            for k in f.certs.iter().filter(|k| k.t == 1 && k.b != o.b && k.at < *at2) {
                good |= (k.h == o.h) & (k.r >= o.r);
            }
            keeps &= good;
        }
    }
    check(step_ok, "C07: what leaves the node is in the log");
    check(lock_ok, "C07: the record of a precommit holds its lock");
    check(commit_ok, "C07: a commit is in the log");
    check(keeps, "C07: the log keeps the lock");
    check(resume, "C07: a restart resumes where the log stands");
}

/// C08: own proposals, and what is checked and voted.
pub fn proposals_right(d: &D) {
    let f = facts(d);
    let log = &w().log;
    let mut lead_ok = true;
    let mut lock_ok = true;
    let mut src_ok = true;
    let mut react = true;
    let mut one = true;
    let mut seen: Vec<(u64, u64, u8, u8)> = Vec::new(); // valid or own proposals: h, r, b, content
    let mut got: Vec<(u64, u8)> = Vec::new();
    let mut last: Option<Rec> = None;
    // checks since the last restart
    let mut acted: Vec<(u64, u8, u8)> = Vec::new();
    let mut own: Vec<(u64, u64, u8)> = Vec::new();
    let mut once = true;
    for e in log.iter() {
        match e {
            Ev::Wal(x) => last = Some(parse_record(x)),
            Ev::Restart => {
                acted.clear();
                own.clear();
            }
            Ev::GetBlock(h, k) => got.push((*h, *k)),
            Ev::InProp { h, r, b, content, valid, .. } => {
                if *valid {
                    seen.push((*h, *r, *b, *content));
                }
            }
            Ev::Bcast(OverlordMsg::SignedProposal(p)) => {
                let q = &p.proposal;
                let b = block_of(&q.block_hash);
                let led = d.leads(q.height, q.round);
                lead_ok &= led;
                lead_ok &= q.proposer == addr(0);
                match &last {
                    None => lead_ok = false,
                    Some(rec) => {
                        lead_ok &= (rec.h == q.height) & (rec.r == q.round) & (rec.step == PROPOSE);
                        match (&rec.lock, &q.lock) {
                            (None, None) => {
                                let mut g = false;
                                for (h, blk) in got.iter() {
                                    if *blk == q.content.0 && *blk == b {
                                        g |= *h == q.height;
                                    }
                                }
                                src_ok &= g;
                            }
                            (Some((lr, lq, k)), Some(polc)) => {
                                lock_ok &= *k == q.content.0 && lq.block_hash == q.block_hash;
                                let v = &polc.lock_votes;
                                lock_ok &= v.vote_type == VoteType::Prevote && v.block_hash == q.block_hash;
                                lock_ok &= (*lr == polc.lock_round) & (v.round == *lr) & (v.height == q.height) & (*lr < q.round);
                                let who = marked(&d.l, &v.signature.address_bitmap);
                                lock_ok &= who.len() * 3 > d.l.len() * 2;
                                lock_ok &= verifies(&v.signature.signature, &vote_bytes(1, v.height, v.round, &v.block_hash), &who);
                            }
                            _ => lock_ok = false,
                        }
                    }
                }
                lead_ok &= verifies(&p.signature, &bytes::Bytes::from(rlp::encode(q).to_vec()), &[addr(0)]);
                for (h2, r2, b2) in own.iter() {
                    if *b2 != b {
                        once &= (*h2 != q.height) | (*r2 != q.round);
                    }
                }
                own.push((q.height, q.round, b));
                seen.push((q.height, q.round, b, q.content.0));
            }
            Ev::CheckReq { h, hash, blk, .. } => {
                let b = block_of(hash);
                let mut s = false;
                for (h2, _, b2, c2) in seen.iter() {
                    if *b2 == b && *c2 == blk.0 {
                        s |= h2 == h;
                    }
                }
                react &= s;
                for (h2, b2, c2) in acted.iter() {
                    if *b2 == b && *c2 == blk.0 {
                        continue;
                    }
                    // two different proposals acted on: of different rounds
                    let mut apart = *h2 != *h;
                    for (xh, xr, xb, xc) in seen.iter() {
                        if *xb != b || *xc != blk.0 {
                            continue;
                        }
                        for (yh, yr, yb, yc) in seen.iter() {
                            if *yb != *b2 || *yc != *c2 {
                                continue;
                            }
                            apart |= (*xh == *h) & (*yh == *h) & (*xr != *yr);
                        }
                    }
                    one &= apart;
                }
                acted.push((*h, b, blk.0));
            }
            _ => {}
        }
    }
    for o in f.outs.iter().filter(|o| o.step == 1 && o.b != 0) {
        let mut s = false;
        for (h2, _, b2, _) in seen.iter() {
            if *b2 == o.b {
                s |= *h2 == o.h;
            }
        }
        // or the lock of the record it started from
        if let Some((_, rec)) = f.recs.first() {
            if let Some((_, q, _)) = &rec.lock {
                s |= block_of(&q.block_hash) == o.b;
            }
        }
        react &= s;
    }
    check(lead_ok, "C08: only the leader proposes, for its height and round");
    check(lock_ok, "C08: a locked leader proposes its lock with the proof");
    check(src_ok, "C08: an unlocked leader proposes the block of the application");
    check(react, "C08: only proposals of the leader are checked and voted for");
    check(once, "C08: a leader makes one proposal for a height and round");
    check(one, "C08: one proposal of a height and round is acted on");
}

/// C13: what is signed never goes back.
pub fn never_back(d: &D) {
    let f = facts(d);
    let mut ok = true;
    let mut now_ok = true;
    let mut prev: Option<Out> = None;
    for o in f.outs.iter().filter(|o| !o.own_qc) {
        if let Some(p) = prev {
            ok &= (o.h > p.h) | ((o.h == p.h) & ((o.r > p.r) | ((o.r == p.r) & (o.step >= p.step))));
        }
        prev = Some(*o);
        // for the height and round it is in
        let mut last: Option<(u64, u64)> = None;
        for (j, rec) in f.recs.iter() {
            if *j < o.at {
                last = Some((rec.h, rec.r));
            }
        }
        if let Some((h, r)) = last {
            now_ok &= (o.h == h) & (o.r == r);
        }
    }
    let mut up = true;
    for i in 1..f.recs.len() {
        let (a, b) = (&f.recs[i - 1].1, &f.recs[i].1);
        up &= (b.h > a.h) | ((b.h == a.h) & (b.r >= a.r));
    }
    // a prevote for a block: proposed for this round, or locked
    let mut cause = true;
    for o in f.outs.iter().filter(|o| o.step == 1 && o.b != 0) {
        let mut s = false;
        for (at, e) in w().log.iter().enumerate() {
            if at >= o.at {
                break;
            }
            match e {
                Ev::InProp { h, r, b, valid, .. } => {
                    if *valid && *b == o.b {
                        s |= (*h == o.h) & (*r == o.r);
                    }
                }
                Ev::Bcast(OverlordMsg::SignedProposal(p)) => {
                    if block_of(&p.proposal.block_hash) == o.b {
                        s |= (p.proposal.height == o.h) & (p.proposal.round == o.r);
                    }
                }
                _ => {}
            }
        }
        for c in f.certs.iter().filter(|c| c.t == 1 && c.b == o.b && c.at < o.at) {
            s |= (c.h == o.h) & (c.r <= o.r);
        }
        cause &= s;
    }
    check(cause, "C13: a proposal of another round causes no vote");
    check(ok, "C13: signed messages never go back");
    check(now_ok, "C13: signed messages are for the present");
    check(up, "C13: height and round never go back");
}

/// C15: every change of round has its evidence.
pub fn rounds_justified(d: &D) {
    let f = facts(d);
    let mut ok = true;
    for i in 1..f.recs.len() {
        let (at, b) = (&f.recs[i].0, &f.recs[i].1);
        let a = &f.recs[i - 1].1;
        let mut good = (a.h != b.h) | (b.r <= a.r);
        for c in f.certs.iter().filter(|c| c.at < *at) {
            if c.t == 1 || c.b == 0 {
                good |= (c.h == b.h) & (c.r + 1 == b.r);
            }
        }
        let mut who = [false; 4];
        for (j, e) in w().log.iter().enumerate() {
            if j >= *at {
                break;
            }
            match e {
                Ev::InChoke { h, r, from, valid } => {
                    if *valid && *from < 4 {
                        who[*from] |= (*h == b.h) & (*r + 1 == b.r);
                    }
                }
                Ev::Bcast(OverlordMsg::SignedChoke(c)) => {
                    who[0] |= (c.choke.height == b.h) & (c.choke.round + 1 == b.r);
                }
                Ev::InAgg { h, r, valid } => {
                    if *valid {
                        good |= (*h == b.h) & (*r + 1 == b.r);
                    }
                }
                _ => {}
            }
        }
        let mut n = 0u8;
        for x in who.iter() {
            n += *x as u8;
        }
        good |= n >= 3;
        ok &= good;
    }
    check(ok, "C15: a change of round has its evidence");
}

/// Whether this is what brings a node of height `h` to round `r`.
fn leads_to(d: &D, from: &UpdateFrom, h: u64, r: u64) -> bool {
    match from {
        UpdateFrom::ChokeQC(a) => {
            let mut v = a.voters.clone();
            v.sort();
            v.dedup();
            let members = v.iter().filter(|x| d.l.iter().any(|n| n.address == **x)).count();
            (a.height == h)
                & (a.round + 1 == r)
                & (v.len() == a.voters.len() && members == v.len() && v.len() * 3 > d.l.len() * 2)
                & verifies(&a.signature, &choke_bytes(h, a.round), &a.voters)
        }
        UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => {
            let t = if let UpdateFrom::PrevoteQC(_) = from { 1 } else { 2 };
            let v = marked(&d.l, &q.signature.address_bitmap);
            (tnum(&q.vote_type) == t && (t == 1 || q.block_hash.is_empty()))
                & (q.height == h)
                & (q.round + 1 == r)
                & (v.len() * 3 > d.l.len() * 2)
                & verifies(&q.signature.signature, &vote_bytes(t, h, q.round, &q.block_hash), &v)
        }
    }
}

/// C22: a choke brings the evidence of its round.  The record a node starts
/// from has none; it does not count before the node has moved.
pub fn chokes_right(d: &D) {
    let f = facts(d);
    let mut sig_ok = true;
    let mut from_ok = true;
    let mut log_ok = true;
    let (h0, r0) = match f.recs.first() {
        Some((_, x)) => (x.h, x.r),
        None => (0, 0),
    };
    let given = |from: &UpdateFrom| match from {
        UpdateFrom::PrecommitQC(q) => q.signature.signature.is_empty(),
        _ => false,
    };
    for e in w().log.iter() {
        match e {
            Ev::Bcast(OverlordMsg::SignedChoke(c)) => {
                let (h, r) = (c.choke.height, c.choke.round);
                sig_ok &= c.address == addr(0) && verifies(&c.signature, &choke_bytes(h, r), &[addr(0)]);
                let mut good = r == 0;
                if given(&c.choke.from) {
                    good |= (h == h0) & (r == r0);
                } else {
                    good |= leads_to(d, &c.choke.from, h, r);
                }
                from_ok &= good;
            }
            Ev::Wal(x) => {
                let rec = parse_record(x);
                let from: UpdateFrom = rlp::Rlp::new(x.as_ref()).val_at(4).unwrap();
                let mut good = rec.r == 0;
                if given(&from) {
                    good |= (rec.h == h0) & (rec.r == r0);
                } else {
                    good |= leads_to(d, &from, rec.h, rec.r);
                }
                log_ok &= good;
            }
            _ => {}
        }
    }
    check(sig_ok, "C22: a choke is signed by its node");
    check(from_ok, "C22: a choke carries the evidence of its round");
    check(log_ok, "C22: the log keeps the evidence of the round");
}

pub fn all(d: &D) {
    votes_consistent(d);
    lock_respected(d);
    precommit_justified(d);
    commits_right(d);
    logged_first(d);
    proposals_right(d);
    never_back(d);
    rounds_justified(d);
    chokes_right(d);
}
