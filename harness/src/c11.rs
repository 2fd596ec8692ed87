//! C11: RLP coding.
use crate::sym::*;
use crate::world::Blk;
use bytes::Bytes;
use overlord::types::*;
use overlord::{DurationConfig, WalInfo};
use rlp::{Decodable, Encodable};

/// Which numbered field of the value is explored widely.
struct Gen {
    focus: u64,
    also: u64,
    at: u64,
    lens: bool,
}
impl Gen {
    fn wide(&mut self) -> bool {
        self.at += 1;
        (self.at - 1 == self.focus) | (self.at - 1 == self.also)
    }
    fn int(&mut self) -> u64 {
        if self.wide() { u64_("int") } else { 64 + below(64, "int") }
    }
    fn int32(&mut self) -> u32 {
        if self.wide() { u32_("int") } else { 64 + below(64, "int") as u32 }
    }
    fn bytes(&mut self) -> Bytes {
        let w = self.wide();
        let n = if w {
            [0usize, 1, 2, 3, 20, 32, 55, 56, 57, 96][choose(if self.lens { 10 } else { 4 }, "len") as usize]
        } else {
            1
        };
        let mut v = vec![0u8; n];
        for (i, x) in v.iter_mut().enumerate() {
            if !w {
                *x = 64 + below(64, "byte") as u8;
            } else if i < 3 {
                *x = u8_("byte");
            } else {
                *x = i as u8;
            }
        }
        Bytes::from(v)
    }
    fn content(&mut self) -> u8 {
        if self.wide() { u8_("content") } else { 64 + below(64, "content") as u8 }
    }
    fn qc(&mut self) -> AggregatedVote {
        AggregatedVote {
            signature: self.asig(),
            vote_type: if flip("type") { VoteType::Prevote } else { VoteType::Precommit },
            height: self.int(),
            round: self.int(),
            block_hash: self.bytes(),
            leader: self.bytes(),
        }
    }
    fn asig(&mut self) -> AggregatedSignature {
        AggregatedSignature { signature: self.bytes(), address_bitmap: self.bytes() }
    }
    fn achoke(&mut self) -> AggregatedChoke {
        let k = choose(3, "voters");
        AggregatedChoke { height: self.int(), round: self.int(), signature: self.bytes(), voters: (0..k).map(|_| self.bytes()).collect() }
    }
    fn from(&mut self) -> UpdateFrom {
        match choose(3, "from") {
            0 => UpdateFrom::PrevoteQC(self.qc()),
            1 => UpdateFrom::PrecommitQC(self.qc()),
            _ => UpdateFrom::ChokeQC(self.achoke()),
        }
    }
    fn lock(&mut self) -> Option<PoLC> {
        if flip("lock") {
            Some(PoLC { lock_round: self.int(), lock_votes: self.qc() })
        } else {
            None
        }
    }
    fn vote(&mut self) -> Vote {
        Vote {
            height: self.int(),
            round: self.int(),
            vote_type: if flip("type") { VoteType::Prevote } else { VoteType::Precommit },
            block_hash: self.bytes(),
        }
    }
    fn proposal(&mut self) -> Proposal<Blk> {
        Proposal {
            height: self.int(),
            round: self.int(),
            content: Blk(self.content()),
            block_hash: self.bytes(),
            lock: self.lock(),
            proposer: self.bytes(),
        }
    }
    fn proof(&mut self) -> Proof {
        Proof { height: self.int(), round: self.int(), block_hash: self.bytes(), signature: self.asig() }
    }
    fn choke(&mut self) -> Choke {
        Choke { height: self.int(), round: self.int(), from: self.from() }
    }
    fn node(&mut self) -> Node {
        Node { address: self.bytes(), propose_weight: self.int32(), vote_weight: self.int32() }
    }
    fn cfg(&mut self) -> DurationConfig {
        DurationConfig::new(self.int(), self.int(), self.int(), self.int())
    }
}
fn rt<T: Encodable + Decodable + PartialEq>(v: T) {
    let e = rlp::encode(&v).to_vec();
    match rlp::decode::<T>(&e) {
        Ok(x) => check(x == v, "C11: decoding an encoded value gives the value back"),
        Err(_) => check(false, "C11: an encoded value can be decoded"),
    }
}
pub const KINDS: u64 = 18;
/// One field (`pairs`: every two fields) of each kind takes arbitrary values.
pub fn roundtrip(pairs: bool) {
    let k = choose(KINDS, "kind");
    let maxf = [8u64, 2, 9, 4, 6, 14, 5, 7, 8, 9, 11, 4, 13, 3, 9, 1, 15, 19][k as usize];
    let focus = choose(maxf, "focus");
    let also = if pairs { choose(focus + 1, "also") } else { focus };
    let mut g = Gen { focus, also, at: 0, lens: !pairs };
    match k {
        0 => rt(g.qc()),
        1 => rt(g.asig()),
        2 => rt(g.lock_some()),
        3 => rt(g.vote()),
        4 => {
            let signature = g.bytes();
            rt(SignedVote { signature, vote: g.vote(), voter: g.bytes() })
        }
        5 => rt(g.proposal()),
        6 => rt(g.proof()),
        7 => {
            let height = g.int();
            rt(Commit::<Blk> { height, content: Blk(g.content()), proof: g.proof() })
        }
        8 => rt(g.achoke()),
        9 => rt(g.from()),
        10 => rt(g.choke()),
        11 => rt(g.cfg()),
        12 => {
            let signature = g.bytes();
            rt(SignedChoke { signature, choke: g.choke(), address: g.bytes() })
        }
        13 => rt(g.node()),
        14 => {
            // a present interval or configuration that is not all zero
            let i = g.int();
            let interval = if flip("interval") {
                assume(i != 0);
                Some(i)
            } else {
                None
            };
            let timer_config = if flip("config") {
                let c = g.cfg();
                assume(c != DurationConfig::default());
                Some(c)
            } else {
                None
            };
            let k = choose(3, "nodes");
            rt(Status { height: g.int(), interval, timer_config, authority_list: (0..k).map(|_| g.node()).collect() })
        }
        15 => {
            // an all-zero one reads back as absent
            let s = Status { height: g.int(), interval: Some(0), timer_config: Some(DurationConfig::default()), authority_list: vec![] };
            let t: Result<Status, _> = rlp::decode(&rlp::encode(&s));
            match t {
                Ok(t) => check((t.height == s.height) & t.interval.is_none() & t.timer_config.is_none(), "C11: an all-zero interval or configuration reads back as absent"),
                Err(_) => check(false, "C11: an encoded value can be decoded"),
            }
        }
        16 => {
            let signature = g.bytes();
            rt(SignedProposal { signature, proposal: g.proposal() })
        }
        _ => {
            // a log record, built in the documented layout
            let (h, r) = (g.int(), g.int());
            let step = choose(5, "step") as u8;
            let q = g.qc();
            let lr = g.int();
            let c = g.content();
            let with = flip("with lock");
            let from = g.from();
            let rec = crate::world::wal_record(h, r, step, if with { Some((lr, &q, c)) } else { None }, &from);
            match rlp::decode::<WalInfo<Blk>>(&rec) {
                Ok(x) => {
                    let mut ok = (x.height == h) & (x.round == r) & (x.from == from) & (u8::from(x.step.clone()) == step);
                    match &x.lock {
                        Some(l) => ok &= with & (l.lock_round == lr) & (l.lock_votes == q) & (l.content == Blk(c)),
                        None => ok &= !with,
                    }
                    check(ok, "C11: a log record reads back as written");
                    let e = rlp::encode(&x).to_vec();
                    check(e == rec.to_vec(), "C11: a log record has one encoding");
                }
                Err(_) => check(false, "C11: an encoded log record can be decoded"),
            }
        }
    }
    reach("end");
}
impl Gen {
    fn lock_some(&mut self) -> PoLC {
        PoLC { lock_round: self.int(), lock_votes: self.qc() }
    }
}
fn dec(k: u64, b: &[u8]) -> bool {
    match k {
        0 => rlp::decode::<AggregatedVote>(b).is_ok(),
        1 => rlp::decode::<AggregatedSignature>(b).is_ok(),
        2 => rlp::decode::<PoLC>(b).is_ok(),
        3 => rlp::decode::<Vote>(b).is_ok(),
        4 => rlp::decode::<SignedVote>(b).is_ok(),
        5 => rlp::decode::<Proposal<Blk>>(b).is_ok(),
        6 => rlp::decode::<Proof>(b).is_ok(),
        7 => rlp::decode::<Commit<Blk>>(b).is_ok(),
        8 => rlp::decode::<AggregatedChoke>(b).is_ok(),
        9 => rlp::decode::<UpdateFrom>(b).is_ok(),
        10 => rlp::decode::<Choke>(b).is_ok(),
        11 => rlp::decode::<DurationConfig>(b).is_ok(),
        12 => rlp::decode::<SignedChoke>(b).is_ok(),
        13 => rlp::decode::<Node>(b).is_ok(),
        14 | 15 => rlp::decode::<Status>(b).is_ok(),
        16 => rlp::decode::<SignedProposal<Blk>>(b).is_ok(),
        _ => rlp::decode::<WalInfo<Blk>>(b).is_ok(),
    }
}
/// Any byte string up to the bound.
pub fn arbitrary(max: u64) {
    let k = choose(KINDS, "kind");
    let n = choose(max + 1, "n");
    let b: Vec<u8> = (0..n).map(|_| u8_("byte")).collect();
    let ok = dec(k, &b);
    check(true, "C11: decoding arbitrary bytes returns");
    reach(if ok { "decoded" } else { "rejected" });
    reach("end");
}
/// An encoded value with `win` consecutive bytes replaced by arbitrary ones.
pub fn mutated(win: usize) {
    let k = choose(KINDS, "kind");
    let b = good(k);
    let at = choose(b.len() as u64, "at") as usize;
    let mut b = b;
    for i in at..(at + win).min(b.len()) {
        b[i] = u8_("byte");
    }
    let ok = dec(k, &b);
    check(true, "C11: decoding damaged bytes returns");
    reach(if ok { "decoded" } else { "rejected" });
    reach("end");
}
fn good(k: u64) -> Vec<u8> {
    let by = |x: u8| Bytes::from(vec![x, x ^ 1]);
    let sig = || AggregatedSignature { signature: by(1), address_bitmap: by(2) };
    let qc = || AggregatedVote { signature: sig(), vote_type: VoteType::Prevote, height: 300, round: 2, block_hash: by(3), leader: by(4) };
    let ch = || AggregatedChoke { height: 300, round: 3, signature: by(5), voters: vec![by(6), by(7)] };
    let vote = || Vote { height: 300, round: 1, vote_type: VoteType::Precommit, block_hash: by(3) };
    let lock = || PoLC { lock_round: 1, lock_votes: qc() };
    let prop = || Proposal { height: 300, round: 2, content: Blk(7), block_hash: by(3), lock: Some(lock()), proposer: by(8) };
    let proof = || Proof { height: 300, round: 1, block_hash: by(3), signature: sig() };
    let fr = || UpdateFrom::ChokeQC(ch());
    let choke = || Choke { height: 300, round: 1, from: fr() };
    let node = |x| Node { address: by(x), propose_weight: 1, vote_weight: 300 };
    match k {
        0 => rlp::encode(&qc()).to_vec(),
        1 => rlp::encode(&sig()).to_vec(),
        2 => rlp::encode(&lock()).to_vec(),
        3 => rlp::encode(&vote()).to_vec(),
        4 => rlp::encode(&SignedVote { signature: by(1), vote: vote(), voter: by(9) }).to_vec(),
        5 => rlp::encode(&prop()).to_vec(),
        6 => rlp::encode(&proof()).to_vec(),
        7 => rlp::encode(&Commit { height: 300, content: Blk(7), proof: proof() }).to_vec(),
        8 => rlp::encode(&ch()).to_vec(),
        9 => rlp::encode(&UpdateFrom::PrevoteQC(qc())).to_vec(),
        10 => rlp::encode(&choke()).to_vec(),
        11 => rlp::encode(&DurationConfig::new(24, 10, 300, 3)).to_vec(),
        12 => rlp::encode(&SignedChoke { signature: by(1), choke: choke(), address: by(9) }).to_vec(),
        13 => rlp::encode(&node(1)).to_vec(),
        14 => rlp::encode(&Status { height: 300, interval: Some(3000), timer_config: Some(DurationConfig::new(24, 10, 300, 3)), authority_list: vec![node(1), node(3)] }).to_vec(),
        15 => rlp::encode(&Status { height: 300, interval: None, timer_config: None, authority_list: vec![] }).to_vec(),
        16 => rlp::encode(&SignedProposal { signature: by(1), proposal: prop() }).to_vec(),
        _ => crate::world::wal_record(300, 2, 1, Some((1, &qc(), 7)), &fr()).to_vec(),
    }
}
