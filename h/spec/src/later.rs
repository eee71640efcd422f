//! The same situation late in the life of the chain: every epoch and slot of a state and of an
//! operation moved on by the same number of epochs, so that they lie around 2^32, with whatever
//! was signed rightly signed again. What the operation then does is for the reference to say.
use crate::{crypto::*, m::*, spec};
use mc::guard;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static ON: AtomicBool = AtomicBool::new(false);
/// Whether every step and query is also taken late.
pub fn set(on: bool) {
    ON.store(on, Relaxed);
}
pub fn on() -> bool {
    ON.load(Relaxed)
}

/// Epoch 4 of the original becomes 2^32.
const BY: u64 = (1 << 32) - 4;

struct Map {
    slots: u64,
    header: (Root, Root),
    proposer: (Option<usize>, Option<usize>),
    time: u64,
}
impl Map {
    fn epoch(&self, x: &mut u64) {
        if *x < 1 << 62 {
            *x += BY;
        }
    }
    fn slot(&self, x: &mut u64) {
        if *x < 1 << 62 {
            *x += self.slots;
        }
    }
    fn root(&self, x: &mut Root) {
        if *x == self.header.0 {
            *x = self.header.1;
        }
    }
    fn data(&self, d: &mut AttestationData) {
        self.slot(&mut d.slot);
        self.root(&mut d.beacon_block_root);
        self.point(&mut d.source);
        self.point(&mut d.target);
    }
    fn point(&self, p: &mut Checkpoint) {
        self.epoch(&mut p.epoch);
        self.root(&mut p.root);
    }
    fn block(&self, b: &mut Blk) {
        self.slot(&mut b.slot);
        self.root(&mut b.parent_root);
        if Some(b.proposer) == self.proposer.0 {
            b.proposer = self.proposer.1.unwrap_or(b.proposer);
        }
        b.pslash.iter_mut().for_each(|x| self.pslash(x));
        b.aslash.iter_mut().for_each(|x| self.aslash(x));
        b.atts.iter_mut().for_each(|x| self.data(&mut x.data));
        b.exits.iter_mut().for_each(|x| self.epoch(&mut x.message.epoch));
        b.consolidations.iter_mut().for_each(|x| self.epoch(&mut x.message.epoch));
        if b.payload.timestamp < 1 << 62 && b.payload.timestamp > 0 {
            b.payload.timestamp += self.time;
        }
    }
    fn pslash(&self, x: &mut ProposerSlashing) {
        self.slot(&mut x.signed_header_1.message.slot);
        self.slot(&mut x.signed_header_2.message.slot);
    }
    fn aslash(&self, x: &mut ASlash) {
        self.data(&mut x.a.data);
        self.data(&mut x.b.data);
    }
}

fn state(m: &M, c: &Context) -> (M, Map) {
    let mut n = m.clone();
    let mut map = Map {
        slots: BY * c.slots_per_epoch,
        header: Default::default(),
        proposer: (None, None),
        time: BY * c.slots_per_epoch * c.seconds_per_slot,
    };
    map.slot(&mut n.slot);
    map.slot(&mut n.header.slot);
    map.header = (htr(&m.header), htr(&n.header));
    n.block_roots.iter_mut().for_each(|r| map.root(r));
    map.epoch(&mut n.fork.epoch);
    for v in &mut n.validators {
        for x in [
            &mut v.activation_eligibility_epoch,
            &mut v.activation_epoch,
            &mut v.exit_epoch,
            &mut v.withdrawable_epoch,
        ] {
            map.epoch(x);
        }
    }
    for p in n.prev_att.iter_mut().chain(&mut n.cur_att) {
        map.data(&mut p.data);
    }
    for p in [&mut n.pj, &mut n.cj, &mut n.fin] {
        map.point(p);
    }
    if m.f == Electra {
        map.epoch(&mut n.earliest_exit);
        map.epoch(&mut n.earliest_cons);
    }
    for w in &mut n.pend_wd {
        map.epoch(&mut w.withdrawable_epoch);
    }
    let (k, s) = (n.mixes.len(), n.slashings.len());
    n.mixes.rotate_right((BY % k as u64) as usize);
    n.slashings.rotate_right((BY % s as u64) as usize);
    let r = n.block_roots.len();
    n.block_roots.rotate_right((map.slots % r as u64) as usize);
    n.state_roots.rotate_right((map.slots % r as u64) as usize);
    map.proposer = (m.proposer(c).ok(), guard(|| n.proposer(c).ok()).ok().flatten());
    (n, map)
}

fn op(o: &Op, map: &Map) -> Option<Op> {
    let mut o = o.clone();
    match &mut o {
        Op::Slots(s) => map.slot(s),
        Op::Header(b) | Op::Randao(b) | Op::Eth1(b) | Op::Operations(b) | Op::Payload(b) | Op::Withdrawals(b) => map.block(b),
        Op::Block(_) | Op::Transition(..) | Op::InSlot(..) | Op::Chain(..) => return None,
        Op::PSlash(x) => map.pslash(x),
        Op::ASlash(x) => map.aslash(x),
        Op::Att(x) => map.data(&mut x.data),
        Op::Exit(x) => map.epoch(&mut x.message.epoch),
        Op::Consolidate(x) => map.epoch(&mut x.message.epoch),
        _ => {}
    }
    Some(o)
}
/// Every signature of an operation that its context decides on.
fn signatures<'a>(o: &'a mut Op) -> Vec<&'a mut BlsSignature> {
    fn block<'a>(b: &'a mut Blk, v: &mut Vec<&'a mut BlsSignature>) {
        v.push(&mut b.randao);
        v.push(&mut b.agg.sig);
        for x in &mut b.pslash {
            v.push(&mut x.signed_header_1.signature);
            v.push(&mut x.signed_header_2.signature);
        }
        for x in &mut b.aslash {
            v.push(&mut x.a.sig);
            v.push(&mut x.b.sig);
        }
        v.extend(b.atts.iter_mut().map(|x| &mut x.sig));
        v.extend(b.exits.iter_mut().map(|x| &mut x.signature));
        v.extend(b.consolidations.iter_mut().map(|x| &mut x.signature));
    }
    let mut v = vec![];
    match o {
        Op::Header(b) | Op::Randao(b) | Op::Eth1(b) | Op::Operations(b) | Op::Payload(b) | Op::Withdrawals(b) => block(b, &mut v),
        Op::PSlash(x) => v.extend([&mut x.signed_header_1.signature, &mut x.signed_header_2.signature]),
        Op::ASlash(x) => v.extend([&mut x.a.sig, &mut x.b.sig]),
        Op::Att(x) => v.push(&mut x.sig),
        Op::Exit(x) => v.push(&mut x.signature),
        Op::Consolidate(x) => v.push(&mut x.signature),
        Op::Sync(x) => v.push(&mut x.sig),
        _ => {}
    }
    v
}

/// In the first epoch the finalized epoch is the current one, which it cannot be later on.
fn first(m: &M, c: &Context) -> bool {
    m.slot < c.slots_per_epoch
}

/// The state and operation late, given the signatures that held in the original.
pub fn step(m: &M, o: &Op, valid: Vec<BlsSignature>, c: &Context) -> Option<(M, Op)> {
    if first(m, c) {
        return None;
    }
    let (n, map) = state(m, c);
    let mut o = op(o, &map)?;
    if !valid.is_empty() {
        let made = forge(valid, || {
            let _ = guard(|| spec::apply(&n, &o, c));
        });
        for s in signatures(&mut o) {
            if let Some(x) = made.iter().find(|x| x.0 == *s) {
                *s = x.1.clone();
            }
        }
    }
    Some((n, o))
}
pub fn query(m: &M, q: &Q, c: &Context) -> Option<(M, Q)> {
    if first(m, c) {
        return None;
    }
    let (n, map) = state(m, c);
    let mut q = q.clone();
    match &mut q {
        Q::Committee(s, _) | Q::BlockRootAtSlot(s) | Q::Timestamp(s) => map.slot(s),
        Q::CommitteeCount(e) | Q::Seed(e, _) | Q::Active(e) | Q::BlockRoot(e) | Q::Mix(e) | Q::Participating(_, e) | Q::Domain(_, Some(e)) => map.epoch(e),
        Q::Attesting(a) => map.data(&mut a.data),
        Q::Flags(d, _) => map.data(d),
        Q::MergeBlock(_) | Q::ExecEnabled(_) | Q::HeaderOf(_) | Q::BlockSig(_) | Q::ValidIndexed(_) | Q::ValidGenesis => return None,
        _ => {}
    }
    Some((n, q))
}
