//! The reference model: the transition functions of the consensus specifications (phase 0 to deneb
//! as released, electra as of the v1.5.0 alpha the library follows), written over [`M`].
use crate::{cfg::version, crypto::*, m::*, real};

pub type R<T = ()> = Result<T, String>;
/// Defects of the library that known_findings.txt lists. They are off in the reference; where the
/// library disagrees with it, [`known`] tells whether exactly these defects explain the answer.
pub const DEFECTS: [(&str, &[F]); 6] = [
    ("exit age from eligibility", &[Altair, Bellatrix, Capella]),
    ("no proposer share of slashings", &[Capella, Deneb]),
    ("crash on block root at slot zero", &[Altair, Bellatrix, Capella, Deneb, Electra]),
    ("crash on sync committee of nobody", &[Bellatrix, Capella, Deneb, Electra]),
    ("crash on fewer deposits than processed", &[Altair, Bellatrix, Deneb]),
    ("crash on committee near 2^64", &[Altair, Bellatrix, Capella, Deneb, Electra]),
];
thread_local! {
    static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static HIT: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default();
}
fn defect(name: &str, f: F) -> bool {
    if !ON.with(|o| o.get()) {
        return false;
    }
    let known = DEFECTS.iter().find(|d| d.0 == name).unwrap().1.contains(&f);
    if known {
        HIT.with(|h| h.borrow_mut().insert(format!("{f:?} {name}")));
    }
    known
}
/// What the reference answers with the listed defects, and the names of those that took part.
pub fn known<T>(f: impl FnOnce() -> T) -> (Result<T, String>, Vec<String>) {
    ON.with(|o| o.set(true));
    HIT.with(|h| h.borrow_mut().clear());
    let r = mc::guard(f);
    ON.with(|o| o.set(false));
    (r, HIT.with(|h| h.borrow().iter().cloned().collect()))
}

fn req(b: bool, what: &str) -> R {
    if b {
        Ok(())
    } else {
        Err(what.to_string())
    }
}
pub fn isqrt(n: u64) -> u64 {
    let (mut lo, mut hi) = (0u64, 1u64 << 32);
    while lo + 1 < hi {
        let mid = (lo + hi) / 2;
        if mid * mid <= n {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo
}
pub const WEIGHTS: [u64; 3] = [14, 26, 14];
const SYNC_REWARD_WEIGHT: u64 = 2;
const PROPOSER_WEIGHT: u64 = 8;
const DENOM: u64 = 64;
const SOURCE: usize = 0;
const TARGET: usize = 1;
const HEAD: usize = 2;

pub fn shuffled_index(mut i: usize, n: usize, seed: &[u8; 32], rounds: u64) -> usize {
    for r in 0..rounds as u8 {
        let h = sha(&[seed, &[r]]);
        let pivot = (u64::from_le_bytes(h[..8].try_into().unwrap()) % n as u64) as usize;
        let flip = (pivot + n - i) % n;
        let pos = i.max(flip);
        let src = sha(&[seed, &[r], &((pos / 256) as u32).to_le_bytes()]);
        if src[(pos % 256) / 8] >> (pos % 8) & 1 == 1 {
            i = flip;
        }
    }
    i
}
pub fn active(v: &Validator, e: u64) -> bool {
    v.activation_epoch <= e && e < v.exit_epoch
}
pub fn slashable(v: &Validator, e: u64) -> bool {
    !v.slashed && v.activation_epoch <= e && e < v.withdrawable_epoch
}
fn prefix(v: &Validator) -> u8 {
    v.withdrawal_credentials.as_ref()[0]
}
fn address(v: &Validator) -> ExecutionAddress {
    ExecutionAddress::try_from(&v.withdrawal_credentials.as_ref()[12..]).unwrap()
}
fn execution_credential(v: &Validator) -> bool {
    prefix(v) == 1 || prefix(v) == 2
}
pub fn max_eb(v: &Validator, c: &Context) -> u64 {
    if prefix(v) == 2 {
        c.max_effective_balance_electra
    } else {
        c.min_activation_balance
    }
}
pub fn slashable_data(a: &AttestationData, b: &AttestationData) -> bool {
    (a != b && a.target.epoch == b.target.epoch)
        || (a.source.epoch < b.source.epoch && b.target.epoch < a.target.epoch)
}
pub fn activation_exit_epoch(e: u64, c: &Context) -> u64 {
    e + 1 + c.max_seed_lookahead
}

impl M {
    pub fn epoch(&self, c: &Context) -> u64 {
        self.slot / c.slots_per_epoch
    }
    pub fn prev_epoch(&self, c: &Context) -> u64 {
        self.epoch(c).saturating_sub(1)
    }
    fn n(&self) -> usize {
        self.validators.len()
    }
    pub fn active(&self, e: u64) -> Vec<usize> {
        (0..self.n()).filter(|i| active(&self.validators[*i], e)).collect()
    }
    pub fn mix(&self, e: u64) -> Bytes32 {
        self.mixes[(e % self.mixes.len() as u64) as usize].clone()
    }
    pub fn seed(&self, e: u64, d: u32, c: &Context) -> [u8; 32] {
        let mix = self.mix(e + c.epochs_per_historical_vector - c.min_seed_lookahead - 1);
        sha(&[&d.to_le_bytes(), &e.to_le_bytes(), mix.as_ref()])
    }
    pub fn total(&self, ix: &[usize], c: &Context) -> u64 {
        ix.iter()
            .map(|i| self.validators[*i].effective_balance)
            .sum::<u64>()
            .max(c.effective_balance_increment)
    }
    pub fn total_active(&self, c: &Context) -> u64 {
        self.total(&self.active(self.epoch(c)), c)
    }
    pub fn committee_count(&self, e: u64, c: &Context) -> u64 {
        (self.active(e).len() as u64 / c.slots_per_epoch / c.target_committee_size)
            .clamp(1, c.max_committees_per_slot)
    }
    pub fn committee(&self, slot: u64, index: usize, c: &Context) -> R<Vec<usize>> {
        let e = slot / c.slots_per_epoch;
        let per = self.committee_count(e, c) as usize;
        let ix = self.active(e);
        let seed = self.seed(e, BEACON_ATTESTER, c);
        let Some(k) = ((slot % c.slots_per_epoch) as usize * per).checked_add(index) else {
            if defect("crash on committee near 2^64", self.f) {
                panic!("known");
            }
            return Err("no such committee".into());
        };
        let count = per * c.slots_per_epoch as usize;
        let bound = |k: u128| (ix.len() as u128 * k / count as u128) as usize;
        let (a, b) = (bound(k as u128), bound(k as u128 + 1));
        req(b <= ix.len(), "no such committee")?;
        Ok((a..b)
            .map(|i| ix[shuffled_index(i, ix.len(), &seed, c.shuffle_round_count)])
            .collect())
    }
    pub fn sample(&self, ix: &[usize], seed: &[u8; 32], want: usize, c: &Context) -> R<Vec<usize>> {
        req(!ix.is_empty(), "nobody to sample")?;
        let mut out = vec![];
        let mut i = 0usize;
        while out.len() < want {
            let cand = ix[shuffled_index(i % ix.len(), ix.len(), seed, c.shuffle_round_count)];
            let byte = sha(&[seed, &(i as u64 / 32).to_le_bytes()])[i % 32] as u64;
            if self.validators[cand].effective_balance * 255 >= c.max_effective_balance * byte {
                out.push(cand);
            }
            i += 1;
        }
        Ok(out)
    }
    pub fn proposer(&self, c: &Context) -> R<usize> {
        let e = self.epoch(c);
        let seed = sha(&[&self.seed(e, BEACON_PROPOSER, c), &self.slot.to_le_bytes()]);
        Ok(self.sample(&self.active(e), &seed, 1, c)?[0])
    }
    pub fn next_sync_indices(&self, c: &Context) -> R<Vec<usize>> {
        let e = self.epoch(c) + 1;
        let seed = self.seed(e, SYNC_COMMITTEE, c);
        if self.active(e).is_empty() && defect("crash on sync committee of nobody", self.f) {
            panic!("known");
        }
        self.sample(&self.active(e), &seed, c.sync_committee_size, c)
    }
    pub fn next_sync_committee(&self, c: &Context) -> R<SyncC> {
        let keys: Vec<BlsPublicKey> = self
            .next_sync_indices(c)?
            .into_iter()
            .map(|i| self.validators[i].public_key.clone())
            .collect();
        let pts: Result<Vec<_>, _> =
            keys.iter().map(|k| blst::min_pk::PublicKey::from_bytes(k.as_ref())).collect();
        let pts = pts.map_err(|e| format!("{e:?}"))?;
        let pts: Vec<_> = pts.iter().collect();
        let agg = blst::min_pk::AggregatePublicKey::aggregate(&pts, true)
            .map_err(|e| format!("{e:?}"))?
            .to_public_key();
        Ok(SyncC { keys, agg: BlsPublicKey::try_from(&agg.to_bytes()[..]).unwrap() })
    }
    pub fn root_at(&self, slot: u64) -> R<Root> {
        let n = self.block_roots.len() as u64;
        if self.slot == 0 && defect("crash on block root at slot zero", self.f) {
            panic!("known");
        }
        req(slot < self.slot && self.slot - slot <= n, "block root out of range")?;
        Ok(self.block_roots[(slot % n) as usize])
    }
    pub fn root_of(&self, e: u64, c: &Context) -> R<Root> {
        self.root_at(e * c.slots_per_epoch)
    }
    pub fn domain(&self, kind: u32, e: Option<u64>, c: &Context) -> [u8; 32] {
        let e = e.unwrap_or(self.epoch(c));
        let v = if e < self.fork.epoch {
            self.fork.previous_version
        } else {
            self.fork.current_version
        };
        domain(kind, v, &self.genesis_validators_root)
    }
    pub fn churn_limit(&self, c: &Context) -> u64 {
        c.min_per_epoch_churn_limit
            .max(self.active(self.epoch(c)).len() as u64 / c.churn_limit_quotient)
    }
    pub fn balance_churn(&self, c: &Context) -> u64 {
        let x = c
            .min_per_epoch_churn_limit_electra
            .max(self.total_active(c) / c.churn_limit_quotient);
        x - x % c.effective_balance_increment
    }
    pub fn exit_churn(&self, c: &Context) -> u64 {
        c.max_per_epoch_activation_exit_churn_limit.min(self.balance_churn(c))
    }
    pub fn cons_churn(&self, c: &Context) -> u64 {
        self.balance_churn(c) - self.exit_churn(c)
    }
    pub fn inc(&mut self, i: usize, d: u64) {
        self.balances[i] += d;
    }
    pub fn dec(&mut self, i: usize, d: u64) {
        self.balances[i] = self.balances[i].saturating_sub(d);
    }
    pub fn finality_delay(&self, c: &Context) -> u64 {
        self.prev_epoch(c) - self.fin.epoch
    }
    pub fn leak(&self, c: &Context) -> bool {
        self.finality_delay(c) > c.min_epochs_to_inactivity_penalty
    }
    pub fn eligible(&self, c: &Context) -> Vec<usize> {
        let p = self.prev_epoch(c);
        (0..self.n())
            .filter(|i| {
                let v = &self.validators[*i];
                active(v, p) || (v.slashed && p + 1 < v.withdrawable_epoch)
            })
            .collect()
    }

    // Phase 0 attestations
    fn pending_of(&self, e: u64, c: &Context) -> &Vec<Pend> {
        if e == self.epoch(c) {
            &self.cur_att
        } else {
            &self.prev_att
        }
    }
    fn matching(&self, e: u64, what: usize, c: &Context) -> R<Vec<Pend>> {
        let mut out = vec![];
        for a in self.pending_of(e, c) {
            if what >= TARGET && a.data.target.root != self.root_of(e, c)? {
                continue;
            }
            if what >= HEAD && a.data.beacon_block_root != self.root_at(a.data.slot)? {
                continue;
            }
            out.push(a.clone());
        }
        Ok(out)
    }
    pub fn attesters(&self, data: &AttestationData, bits: &[bool], c: &Context) -> R<Vec<usize>> {
        let com = self.committee(data.slot, data.index, c)?;
        req(bits.len() == com.len(), "bits of the wrong length")?;
        let mut v: Vec<usize> =
            com.into_iter().zip(bits).filter(|(_, b)| **b).map(|(i, _)| i).collect();
        v.sort();
        Ok(v)
    }
    pub fn attesters_of(&self, a: &Att, c: &Context) -> R<Vec<usize>> {
        if self.f < Electra {
            return self.attesters(&a.data, &a.bits, c);
        }
        let mut out = vec![];
        let mut at = 0;
        for (ci, set) in a.cbits.iter().enumerate() {
            if !*set {
                continue;
            }
            for i in self.committee(a.data.slot, ci, c)? {
                req(at < a.bits.len(), "bits of the wrong length")?;
                if a.bits[at] {
                    out.push(i);
                }
                at += 1;
            }
        }
        out.sort();
        out.dedup();
        Ok(out)
    }
    fn unslashed(&self, atts: &[Pend], c: &Context) -> R<Vec<usize>> {
        let mut v = vec![];
        for a in atts {
            v.extend(self.attesters(&a.data, &a.bits, c)?);
        }
        v.sort();
        v.dedup();
        v.retain(|i| !self.validators[*i].slashed);
        Ok(v)
    }
    pub fn participating(&self, flag: usize, e: u64, c: &Context) -> Vec<usize> {
        let p = if e == self.epoch(c) { &self.cur_part } else { &self.prev_part };
        self.active(e)
            .into_iter()
            .filter(|i| p[*i] >> flag & 1 == 1 && !self.validators[*i].slashed)
            .collect()
    }

    // Rewards
    pub fn base_reward(&self, i: usize, c: &Context) -> u64 {
        let total = self.total_active(c);
        let eff = self.validators[i].effective_balance;
        if self.f == Phase0 {
            eff * c.base_reward_factor / isqrt(total) / 4
        } else {
            eff / c.effective_balance_increment * self.reward_per_increment(c)
        }
    }
    pub fn reward_per_increment(&self, c: &Context) -> u64 {
        c.effective_balance_increment * c.base_reward_factor / isqrt(self.total_active(c))
    }
    fn component(&self, atts: &[Pend], c: &Context) -> R<(Vec<u64>, Vec<u64>)> {
        let (mut r, mut p) = (vec![0; self.n()], vec![0; self.n()]);
        let total = self.total_active(c);
        let un = self.unslashed(atts, c)?;
        let bal = self.total(&un, c);
        for i in self.eligible(c) {
            let b = self.base_reward(i, c);
            if un.contains(&i) {
                if self.leak(c) {
                    r[i] += b;
                } else {
                    let inc = c.effective_balance_increment;
                    r[i] += b * (bal / inc) / (total / inc);
                }
            } else {
                p[i] += b;
            }
        }
        Ok((r, p))
    }
    pub fn phase0_deltas(&self, what: usize, c: &Context) -> R<(Vec<u64>, Vec<u64>)> {
        self.component(&self.matching(self.prev_epoch(c), what, c)?, c)
    }
    pub fn delay_deltas(&self, c: &Context) -> R<(Vec<u64>, Vec<u64>)> {
        let (mut r, p) = (vec![0; self.n()], vec![0; self.n()]);
        let atts = self.matching(self.prev_epoch(c), SOURCE, c)?;
        for i in self.unslashed(&atts, c)? {
            let mut best: Option<&Pend> = None;
            for a in &atts {
                if self.attesters(&a.data, &a.bits, c)?.contains(&i)
                    && best.map_or(true, |b| a.delay < b.delay)
                {
                    best = Some(a);
                }
            }
            let a = best.unwrap();
            let b = self.base_reward(i, c);
            let pr = b / c.proposer_reward_quotient;
            r[a.proposer] += pr;
            r[i] += (b - pr) / a.delay;
        }
        Ok((r, p))
    }
    pub fn inactivity_deltas(&self, c: &Context) -> R<(Vec<u64>, Vec<u64>)> {
        let (r, mut p) = (vec![0; self.n()], vec![0; self.n()]);
        let prev = self.prev_epoch(c);
        if self.f == Phase0 {
            if self.leak(c) {
                let un = self.unslashed(&self.matching(prev, TARGET, c)?, c)?;
                for i in self.eligible(c) {
                    let b = self.base_reward(i, c);
                    p[i] += 4 * b - b / c.proposer_reward_quotient;
                    if !un.contains(&i) {
                        p[i] += self.validators[i].effective_balance * self.finality_delay(c)
                            / c.inactivity_penalty_quotient;
                    }
                }
            }
        } else {
            let un = self.participating(TARGET, prev, c);
            let q = if self.f == Altair {
                c.inactivity_penalty_quotient_altair
            } else {
                c.inactivity_penalty_quotient_bellatrix
            };
            for i in self.eligible(c) {
                if !un.contains(&i) {
                    p[i] += self.validators[i].effective_balance * self.scores[i]
                        / (c.inactivity_score_bias * q);
                }
            }
        }
        Ok((r, p))
    }
    pub fn flag_deltas(&self, flag: usize, c: &Context) -> (Vec<u64>, Vec<u64>) {
        let (mut r, mut p) = (vec![0; self.n()], vec![0; self.n()]);
        let un = self.participating(flag, self.prev_epoch(c), c);
        let inc = c.effective_balance_increment;
        let part = self.total(&un, c) / inc;
        let act = self.total_active(c) / inc;
        for i in self.eligible(c) {
            let b = self.base_reward(i, c);
            if un.contains(&i) {
                if !self.leak(c) {
                    r[i] += b * WEIGHTS[flag] * part / (act * DENOM);
                }
            } else if flag != HEAD {
                p[i] += b * WEIGHTS[flag] / DENOM;
            }
        }
        (r, p)
    }
    pub fn attestation_deltas(&self, c: &Context) -> R<(Vec<u64>, Vec<u64>)> {
        let (mut r, mut p) = (vec![0; self.n()], vec![0; self.n()]);
        let parts = [
            self.phase0_deltas(SOURCE, c)?,
            self.phase0_deltas(TARGET, c)?,
            self.phase0_deltas(HEAD, c)?,
            self.delay_deltas(c)?,
            self.inactivity_deltas(c)?,
        ];
        for (x, y) in parts {
            for i in 0..self.n() {
                r[i] += x[i];
                p[i] += y[i];
            }
        }
        Ok((r, p))
    }

    // Epoch processing
    fn justification(&mut self, c: &Context) -> R {
        let cur = self.epoch(c);
        if cur <= 1 {
            return Ok(());
        }
        let prev = self.prev_epoch(c);
        let (bp, bc) = if self.f == Phase0 {
            (
                self.unslashed(&self.matching(prev, TARGET, c)?, c)?,
                self.unslashed(&self.matching(cur, TARGET, c)?, c)?,
            )
        } else {
            (self.participating(TARGET, prev, c), self.participating(TARGET, cur, c))
        };
        let total = self.total_active(c);
        let (bp, bc) = (self.total(&bp, c), self.total(&bc, c));
        let (old_pj, old_cj) = (self.pj.clone(), self.cj.clone());
        self.pj = self.cj.clone();
        self.jbits.insert(0, false);
        self.jbits.pop();
        if bp * 3 >= total * 2 {
            self.cj = Checkpoint { epoch: prev, root: self.root_of(prev, c)? };
            self.jbits[1] = true;
        }
        if bc * 3 >= total * 2 {
            self.cj = Checkpoint { epoch: cur, root: self.root_of(cur, c)? };
            self.jbits[0] = true;
        }
        let b = &self.jbits;
        if b[1] && b[2] && b[3] && old_pj.epoch + 3 == cur {
            self.fin = old_pj.clone();
        }
        if b[1] && b[2] && old_pj.epoch + 2 == cur {
            self.fin = old_pj;
        }
        if b[0] && b[1] && b[2] && old_cj.epoch + 2 == cur {
            self.fin = old_cj.clone();
        }
        if b[0] && b[1] && old_cj.epoch + 1 == cur {
            self.fin = old_cj;
        }
        Ok(())
    }
    fn inactivity_updates(&mut self, c: &Context) {
        if self.epoch(c) == 0 {
            return;
        }
        let un = self.participating(TARGET, self.prev_epoch(c), c);
        for i in self.eligible(c) {
            let s = &mut self.scores[i];
            if un.contains(&i) {
                *s -= 1.min(*s);
            } else {
                *s += c.inactivity_score_bias;
            }
            let leak = self.leak(c);
            let s = &mut self.scores[i];
            if !leak {
                *s -= c.inactivity_score_recovery_rate.min(*s);
            }
        }
    }
    fn rewards(&mut self, c: &Context) -> R {
        if self.epoch(c) == 0 {
            return Ok(());
        }
        let d = if self.f == Phase0 {
            vec![self.attestation_deltas(c)?]
        } else {
            let mut d: Vec<_> = (0..3).map(|f| self.flag_deltas(f, c)).collect();
            d.push(self.inactivity_deltas(c)?);
            d
        };
        for (r, p) in d {
            for i in 0..self.n() {
                self.inc(i, r[i]);
                self.dec(i, p[i]);
            }
        }
        Ok(())
    }
    fn registry(&mut self, c: &Context) -> R {
        let cur = self.epoch(c);
        for i in 0..self.n() {
            let v = &mut self.validators[i];
            let full = if self.f == Electra {
                v.effective_balance >= c.min_activation_balance
            } else {
                v.effective_balance == c.max_effective_balance
            };
            if v.activation_eligibility_epoch == FAR && full {
                v.activation_eligibility_epoch = cur + 1;
            }
            if active(v, cur) && v.effective_balance <= c.ejection_balance {
                self.initiate_exit(i, c)?;
            }
        }
        let mut q: Vec<usize> = (0..self.n())
            .filter(|i| {
                let v = &self.validators[*i];
                v.activation_eligibility_epoch <= self.fin.epoch && v.activation_epoch == FAR
            })
            .collect();
        if self.f < Electra {
            q.sort_by_key(|i| (self.validators[*i].activation_eligibility_epoch, *i));
            q.truncate(self.activation_churn(c) as usize);
        }
        for i in q {
            self.validators[i].activation_epoch = activation_exit_epoch(cur, c);
        }
        Ok(())
    }
    pub fn activation_churn(&self, c: &Context) -> u64 {
        if self.f >= Deneb {
            self.churn_limit(c).min(c.max_per_epoch_activation_churn_limit)
        } else {
            self.churn_limit(c)
        }
    }
    pub fn exit_epoch_and_churn(&mut self, bal: u64, c: &Context) -> R<u64> {
        let mut e = self.earliest_exit.max(activation_exit_epoch(self.epoch(c), c));
        let per = self.exit_churn(c);
        let mut left = if self.earliest_exit < e { per } else { self.exit_btc };
        if bal > left {
            let more = (bal - left - 1).checked_div(per).ok_or("no churn")? + 1;
            e += more;
            left += more * per;
        }
        self.exit_btc = left - bal;
        self.earliest_exit = e;
        Ok(e)
    }
    pub fn cons_epoch_and_churn(&mut self, bal: u64, c: &Context) -> R<u64> {
        let mut e = self.earliest_cons.max(activation_exit_epoch(self.epoch(c), c));
        let per = self.cons_churn(c);
        let mut left = if self.earliest_cons < e { per } else { self.cons_btc };
        if bal > left {
            let more = (bal - left - 1).checked_div(per).ok_or("no churn")? + 1;
            e += more;
            left += more * per;
        }
        self.cons_btc = left - bal;
        self.earliest_cons = e;
        Ok(e)
    }
    pub fn initiate_exit(&mut self, i: usize, c: &Context) -> R {
        if self.validators[i].exit_epoch != FAR {
            return Ok(());
        }
        let e = if self.f == Electra {
            self.exit_epoch_and_churn(self.validators[i].effective_balance, c)?
        } else {
            let exits: Vec<u64> =
                self.validators.iter().map(|v| v.exit_epoch).filter(|e| *e != FAR).collect();
            let e = exits
                .iter()
                .copied()
                .max()
                .unwrap_or(0)
                .max(activation_exit_epoch(self.epoch(c), c));
            let at = exits.iter().filter(|x| **x == e).count() as u64;
            e + (at >= self.churn_limit(c)) as u64
        };
        let v = &mut self.validators[i];
        v.exit_epoch = e;
        v.withdrawable_epoch = e + c.min_validator_withdrawability_delay;
        Ok(())
    }
    fn slashings(&mut self, c: &Context) {
        let e = self.epoch(c);
        let total = self.total_active(c);
        let mult = match self.f {
            Phase0 => c.proportional_slashing_multiplier,
            Altair => c.proportional_slashing_multiplier_altair,
            _ => c.proportional_slashing_multiplier_bellatrix,
        };
        let adj = (self.slashings.iter().sum::<u64>() * mult).min(total);
        for i in 0..self.n() {
            let v = &self.validators[i];
            if v.slashed && e + c.epochs_per_slashings_vector / 2 == v.withdrawable_epoch {
                let inc = c.effective_balance_increment;
                let p = v.effective_balance / inc * adj / total * inc;
                self.dec(i, p);
            }
        }
    }
    fn effective_balances(&mut self, c: &Context) {
        let inc = c.effective_balance_increment;
        let h = inc / c.hysteresis_quotient;
        let (down, up) =
            (h * c.hysteresis_downward_multiplier, h * c.hysteresis_upward_multiplier);
        for i in 0..self.n() {
            let b = self.balances[i];
            let cap = if self.f == Electra {
                max_eb(&self.validators[i], c)
            } else {
                c.max_effective_balance
            };
            let v = &mut self.validators[i];
            if b + down < v.effective_balance || v.effective_balance + up < b {
                v.effective_balance = (b - b % inc).min(cap);
            }
        }
    }
    fn pend_deposits(&mut self, c: &Context) {
        let avail = self.dep_btc + self.exit_churn(c);
        let mut done = 0;
        while let Some(d) = self.pend_dep.first().cloned() {
            if done + d.amount > avail {
                break;
            }
            self.inc(d.index, d.amount);
            done += d.amount;
            self.pend_dep.remove(0);
        }
        self.dep_btc = if self.pend_dep.is_empty() { 0 } else { avail - done };
    }
    fn pend_consolidations(&mut self, c: &Context) -> R {
        let mut n = 0;
        for p in self.pend_cons.clone() {
            let v = &self.validators[p.source_index];
            if !v.slashed {
                if v.withdrawable_epoch > self.epoch(c) {
                    break;
                }
                self.to_compounding(p.target_index, c)?;
                let b = self.active_balance(p.source_index, c);
                self.dec(p.source_index, b);
                self.inc(p.target_index, b);
            }
            n += 1;
        }
        self.pend_cons.drain(..n);
        Ok(())
    }
    pub fn active_balance(&self, i: usize, c: &Context) -> u64 {
        self.balances[i].min(max_eb(&self.validators[i], c))
    }
    pub fn to_compounding(&mut self, i: usize, c: &Context) -> R {
        req(i < self.n(), "no such validator")?;
        if prefix(&self.validators[i]) == 1 {
            let mut w = raw(&self.validators[i].withdrawal_credentials);
            w[0] = 2;
            self.validators[i].withdrawal_credentials = b32(w);
            self.queue_excess(i, c)?;
        }
        Ok(())
    }
    fn queue_excess(&mut self, i: usize, c: &Context) -> R {
        let b = self.balances[i];
        if b > c.min_activation_balance {
            self.balances[i] = c.min_activation_balance;
            self.push_dep(i, b - c.min_activation_balance, c)?;
        }
        Ok(())
    }
    fn push_dep(&mut self, index: usize, amount: u64, c: &Context) -> R {
        self.pend_dep.push(PendingBalanceDeposit { index, amount });
        Ok(())
    }
    fn hist(&mut self, c: &Context) -> R {
        let next = self.epoch(c) + 1;
        if next % (c.slots_per_historical_root / c.slots_per_epoch) == 0 {
            let (b, s) = (vector_root(&self.block_roots), vector_root(&self.state_roots));
            if self.f >= Capella {
                self.summaries.push(HistoricalSummary { block_summary_root: b, state_summary_root: s });
            } else {
                self.historical_roots.push(node(sha(&[b.as_ref(), s.as_ref()])));
            }
        }
        Ok(())
    }
    fn sync_update(&mut self, c: &Context) -> R {
        if (self.epoch(c) + 1) % c.epochs_per_sync_committee_period == 0 {
            let next = self.next_sync_committee(c)?;
            self.sync = std::mem::replace(&mut self.next_sync, next);
        }
        Ok(())
    }
    fn eth1_reset(&mut self, c: &Context) {
        if (self.epoch(c) + 1) % c.epochs_per_eth1_voting_period == 0 {
            self.votes.clear();
        }
    }
    fn slash_reset(&mut self, c: &Context) {
        let n = self.slashings.len() as u64;
        let e = self.epoch(c) + 1;
        self.slashings[(e % n) as usize] = 0;
    }
    fn randao_reset(&mut self, c: &Context) {
        let e = self.epoch(c);
        let n = self.mixes.len() as u64;
        self.mixes[((e + 1) % n) as usize] = self.mix(e);
    }
    pub fn process_epoch(&mut self, c: &Context) -> R {
        self.justification(c)?;
        if self.f > Phase0 {
            self.inactivity_updates(c);
        }
        self.rewards(c)?;
        self.registry(c)?;
        self.slashings(c);
        self.eth1_reset(c);
        if self.f == Electra {
            self.pend_deposits(c);
            self.pend_consolidations(c)?;
        }
        self.effective_balances(c);
        self.slash_reset(c);
        self.randao_reset(c);
        self.hist(c)?;
        if self.f == Phase0 {
            self.part_record();
        } else {
            self.part_flags();
            self.sync_update(c)?;
        }
        Ok(())
    }
    fn part_record(&mut self) {
        self.prev_att = std::mem::take(&mut self.cur_att);
    }
    fn part_flags(&mut self) {
        let n = self.n();
        self.prev_part = std::mem::replace(&mut self.cur_part, vec![0; n]);
    }

    // Slots
    pub fn process_slot(&mut self, c: &Context) {
        let s = real::state_root(self);
        let i = (self.slot % c.slots_per_historical_root) as usize;
        self.state_roots[i] = s;
        if self.header.state_root == Root::default() {
            self.header.state_root = s;
        }
        self.block_roots[i] = htr(&self.header);
    }
    pub fn process_slots(&mut self, to: u64, c: &Context) -> R {
        req(self.slot < to, "a past slot")?;
        while self.slot < to {
            self.process_slot(c);
            if (self.slot + 1) % c.slots_per_epoch == 0 {
                self.process_epoch(c)?;
            }
            self.slot += 1;
        }
        Ok(())
    }

    // Blocks
    pub fn check_block_sig(&self, b: &Blk, c: &Context) -> R {
        req(b.proposer < self.n(), "no such proposer")?;
        let d = self.domain(BEACON_PROPOSER, None, c);
        let r = signing_root(&real::block_root(self.f, b), &d);
        req(verify(&self.validators[b.proposer].public_key, &r, &b.sig), "block signature")
    }
    pub fn in_slot(&mut self, b: &Blk, validate: bool, c: &Context) -> R {
        if validate {
            self.check_block_sig(b, c)?;
        }
        self.process_block(b, c)?;
        if validate {
            req(b.state_root == real::state_root(self), "state root")?;
        }
        Ok(())
    }
    pub fn transition(&mut self, b: &Blk, validate: bool, c: &Context) -> R {
        self.process_slots(b.slot, c)?;
        self.in_slot(b, validate, c)
    }
    /// The same by hand: to each scheduled fork in turn, then the block under the rules of its own.
    pub fn chain(&mut self, f: F, b: &Blk, validate: bool, c: &Context) -> R {
        req(fork_at(b.slot / c.slots_per_epoch, c) == f, "the fork of the slot")?;
        req(self.f <= f, "an older fork")?;
        let mut upgraded = false;
        while self.f < f {
            let at = fork_epoch(FORKS[self.f as usize + 1], c) * c.slots_per_epoch;
            if self.slot != at {
                self.process_slots(at, c)?;
            }
            *self = self.upgrade(c)?;
            upgraded = true;
        }
        if upgraded && b.slot == self.slot {
            self.in_slot(b, validate, c)
        } else {
            self.transition(b, validate, c)
        }
    }
    pub fn process_block(&mut self, b: &Blk, c: &Context) -> R {
        self.block_header(b, c)?;
        if self.f >= Bellatrix && self.exec_enabled(b) {
            if self.f >= Capella {
                self.withdrawals(b, c)?;
            }
            self.payload(b, c)?;
        }
        self.randao(b, c)?;
        self.eth1(b, c);
        self.operations(b, c)?;
        if self.f >= Altair {
            self.sync_aggregate(&b.agg, c)?;
        }
        Ok(())
    }
    fn block_header(&mut self, b: &Blk, c: &Context) -> R {
        req(b.slot == self.slot, "block slot")?;
        req(b.slot > self.header.slot, "old block")?;
        req(b.proposer == self.proposer(c)?, "proposer index")?;
        req(b.parent_root == htr(&self.header), "parent root")?;
        self.header = BeaconBlockHeader {
            slot: b.slot,
            proposer_index: b.proposer,
            parent_root: b.parent_root,
            state_root: Root::default(),
            body_root: real::body_root(self.f, b),
        };
        req(!self.validators[b.proposer].slashed, "slashed proposer")
    }
    fn randao(&mut self, b: &Blk, c: &Context) -> R {
        let e = self.epoch(c);
        let p = self.proposer(c)?;
        let r = signing_root(&uint_root(e), &self.domain(RANDAO, None, c));
        req(verify(&self.validators[p].public_key, &r, &b.randao), "randao reveal")?;
        let (m, h) = (raw(&self.mix(e)), sha(&[b.randao.as_ref()]));
        let mut x = [0u8; 32];
        for i in 0..32 {
            x[i] = m[i] ^ h[i];
        }
        let n = self.mixes.len() as u64;
        self.mixes[(e % n) as usize] = b32(x);
        Ok(())
    }
    fn eth1(&mut self, b: &Blk, c: &Context) {
        self.votes.push(b.eth1.clone());
        let n = self.votes.iter().filter(|v| **v == b.eth1).count() as u64;
        if n * 2 > c.epochs_per_eth1_voting_period * c.slots_per_epoch {
            self.eth1_data = b.eth1.clone();
        }
    }
    fn operations(&mut self, b: &Blk, c: &Context) -> R {
        let mut limit = self.eth1_data.deposit_count;
        if self.f == Electra {
            limit = limit.min(self.receipts_start).max(self.deposit_index);
        }
        if limit < self.deposit_index && defect("crash on fewer deposits than processed", self.f) {
            panic!("known");
        }
        let left = limit.checked_sub(self.deposit_index).ok_or("deposit count")?;
        req(b.deposits.len() as u64 == left.min(c.max_deposits as u64), "number of deposits")?;
        for x in &b.pslash {
            self.proposer_slashing(x, c)?;
        }
        for x in &b.aslash {
            self.attester_slashing(x, c)?;
        }
        for x in &b.atts {
            self.attestation(x, c)?;
        }
        for x in &b.deposits {
            self.deposit(x, c)?;
        }
        for x in &b.exits {
            self.exit(x, c)?;
        }
        if self.f >= Capella {
            for x in &b.changes {
                self.change(x, c)?;
            }
        }
        if self.f == Electra {
            for x in &b.payload.requests {
                self.request(x, c)?;
            }
            for x in &b.payload.receipts {
                self.receipt(x, c)?;
            }
            for x in &b.consolidations {
                self.consolidate(x, c)?;
            }
        }
        Ok(())
    }
    pub fn slash(&mut self, i: usize, w: Option<usize>, c: &Context) -> R {
        let e = self.epoch(c);
        self.initiate_exit(i, c)?;
        let v = &mut self.validators[i];
        v.slashed = true;
        v.withdrawable_epoch = v.withdrawable_epoch.max(e + c.epochs_per_slashings_vector);
        let eff = v.effective_balance;
        let n = self.slashings.len() as u64;
        self.slashings[(e % n) as usize] += eff;
        let (q, wq) = match self.f {
            Phase0 => (c.min_slashing_penalty_quotient, c.whistleblower_reward_quotient),
            Altair => (c.min_slashing_penalty_quotient_altair, c.whistleblower_reward_quotient),
            Electra => {
                (c.min_slashing_penalty_quotient_electra, c.whistleblower_reward_quotient_electra)
            }
            _ => (c.min_slashing_penalty_quotient_bellatrix, c.whistleblower_reward_quotient),
        };
        self.dec(i, eff / q);
        let p = self.proposer(c)?;
        let reward = eff / wq;
        let pr = if self.f == Phase0 {
            reward / c.proposer_reward_quotient
        } else {
            reward * PROPOSER_WEIGHT / DENOM
        };
        let pr = if pr > 0 && defect("no proposer share of slashings", self.f) { 0 } else { pr };
        self.inc(p, pr);
        self.inc(w.unwrap_or(p), reward - pr);
        Ok(())
    }
    fn proposer_slashing(&mut self, x: &ProposerSlashing, c: &Context) -> R {
        let (a, b) = (&x.signed_header_1.message, &x.signed_header_2.message);
        req(a.slot == b.slot, "slots differ")?;
        req(a.proposer_index == b.proposer_index, "proposers differ")?;
        req(a != b, "same header")?;
        req(a.proposer_index < self.n(), "no such validator")?;
        let v = self.validators[a.proposer_index].clone();
        req(slashable(&v, self.epoch(c)), "not slashable")?;
        for h in [&x.signed_header_1, &x.signed_header_2] {
            let d = self.domain(BEACON_PROPOSER, Some(h.message.slot / c.slots_per_epoch), c);
            req(verify(&v.public_key, &signing_root(&htr(&h.message), &d), &h.signature), "signature")?;
        }
        self.slash(a.proposer_index, None, c)
    }
    pub fn valid_indexed(&self, a: &Idx, c: &Context) -> R {
        req(!a.indices.is_empty(), "nobody attests")?;
        req(a.indices.windows(2).all(|w| w[0] < w[1]), "not sorted")?;
        req(a.indices.iter().all(|i| *i < self.n()), "no such validator")?;
        let keys: Vec<_> =
            a.indices.iter().map(|i| self.validators[*i].public_key.clone()).collect();
        let d = self.domain(BEACON_ATTESTER, Some(a.data.target.epoch), c);
        req(verify_all(&keys, &signing_root(&htr(&a.data), &d), &a.sig), "signature")
    }
    fn attester_slashing(&mut self, x: &ASlash, c: &Context) -> R {
        req(slashable_data(&x.a.data, &x.b.data), "not slashable data")?;
        self.valid_indexed(&x.a, c)?;
        self.valid_indexed(&x.b, c)?;
        let mut any = false;
        for i in x.a.indices.clone() {
            if x.b.indices.contains(&i) && slashable(&self.validators[i], self.epoch(c)) {
                self.slash(i, None, c)?;
                any = true;
            }
        }
        req(any, "nobody slashed")
    }
    pub fn flags(&self, d: &AttestationData, delay: u64, c: &Context) -> R<Vec<usize>> {
        let j = if d.target.epoch == self.epoch(c) { &self.cj } else { &self.pj };
        req(d.source == *j, "source")?;
        let target = d.target.root == self.root_of(d.target.epoch, c)?;
        let head = target && d.beacon_block_root == self.root_at(d.slot)?;
        let mut v = vec![];
        if delay <= isqrt(c.slots_per_epoch) {
            v.push(SOURCE);
        }
        if target && (self.f >= Deneb || delay <= c.slots_per_epoch) {
            v.push(TARGET);
        }
        if head && delay == c.min_attestation_inclusion_delay {
            v.push(HEAD);
        }
        Ok(v)
    }
    fn attestation(&mut self, a: &Att, c: &Context) -> R {
        let d = &a.data;
        let (prev, cur) = (self.prev_epoch(c), self.epoch(c));
        req(d.target.epoch == prev || d.target.epoch == cur, "target epoch")?;
        req(d.target.epoch == d.slot / c.slots_per_epoch, "slot of another epoch")?;
        req(
            d.slot.checked_add(c.min_attestation_inclusion_delay).map_or(false, |s| s <= self.slot),
            "too early",
        )?;
        if self.f < Deneb {
            req(self.slot <= d.slot + c.slots_per_epoch, "too late")?;
        }
        let count = self.committee_count(d.target.epoch, c) as usize;
        if self.f < Electra {
            req(d.index < count, "no such committee")?;
            req(a.bits.len() == self.committee(d.slot, d.index, c)?.len(), "bits")?;
        } else {
            req(d.index == 0, "index")?;
            let mut n = 0;
            for (i, set) in a.cbits.iter().enumerate() {
                if *set {
                    req(i < count, "no such committee")?;
                    n += self.committee(d.slot, i, c)?.len();
                }
            }
            req(a.bits.len() == n, "bits")?;
        }
        let ix = self.attesters_of(a, c)?;
        if self.f == Phase0 {
            let p = Pend {
                bits: a.bits.clone(),
                data: d.clone(),
                delay: self.slot - d.slot,
                proposer: self.proposer(c)?,
            };
            if d.target.epoch == cur {
                req(d.source == self.cj, "source")?;
                self.cur_att.push(p);
            } else {
                req(d.source == self.pj, "source")?;
                self.prev_att.push(p);
            }
            return self.valid_indexed(
                &Idx { indices: ix, data: d.clone(), sig: a.sig.clone() },
                c,
            );
        }
        let flags = self.flags(d, self.slot - d.slot, c)?;
        self.valid_indexed(&Idx { indices: ix.clone(), data: d.clone(), sig: a.sig.clone() }, c)?;
        let mut num = 0;
        for i in ix {
            let b = self.base_reward(i, c);
            let p = if d.target.epoch == cur { &mut self.cur_part } else { &mut self.prev_part };
            for f in &flags {
                if p[i] >> f & 1 == 0 {
                    p[i] |= 1 << f;
                    num += b * WEIGHTS[*f];
                }
            }
        }
        let p = self.proposer(c)?;
        self.inc(p, num / ((DENOM - PROPOSER_WEIGHT) * DENOM / PROPOSER_WEIGHT));
        Ok(())
    }
    pub fn deposit(&mut self, x: &Deposit, c: &Context) -> R {
        let mut h = raw(&htr(&x.data));
        for (k, s) in x.proof.iter().enumerate() {
            let bit = self.deposit_index.checked_shr(k as u32).unwrap_or(0) & 1;
            h = if bit == 1 { sha(&[s.as_ref(), &h]) } else { sha(&[&h, s.as_ref()]) };
        }
        req(node(h) == self.eth1_data.deposit_root, "deposit proof")?;
        self.deposit_index += 1;
        let d = &x.data;
        self.apply_deposit(&d.public_key, &d.withdrawal_credentials, d.amount, &d.signature, c)
    }
    pub fn deposit_sig(
        k: &BlsPublicKey,
        w: &Bytes32,
        amount: u64,
        s: &BlsSignature,
        c: &Context,
    ) -> bool {
        let m = DepositMessage {
            public_key: k.clone(),
            withdrawal_credentials: w.clone(),
            amount,
        };
        let d = domain(DEPOSIT, c.genesis_fork_version, &Root::default());
        verify(k, &signing_root(&htr(&m), &d), s)
    }
    pub fn apply_deposit(
        &mut self,
        k: &BlsPublicKey,
        w: &Bytes32,
        amount: u64,
        s: &BlsSignature,
        c: &Context,
    ) -> R {
        let at = self.validators.iter().position(|v| v.public_key == *k);
        if let Some(i) = at {
            if self.f < Electra {
                self.inc(i, amount);
                return Ok(());
            }
            self.push_dep(i, amount, c)?;
            if w.as_ref()[0] == 2
                && prefix(&self.validators[i]) == 1
                && Self::deposit_sig(k, w, amount, s, c)
            {
                self.to_compounding(i, c)?;
            }
            return Ok(());
        }
        if !Self::deposit_sig(k, w, amount, s, c) {
            return Ok(());
        }
        let inc = c.effective_balance_increment;
        let electra = self.f == Electra;
        self.validators.push(Validator {
            public_key: k.clone(),
            withdrawal_credentials: w.clone(),
            effective_balance: if electra {
                0
            } else {
                (amount - amount % inc).min(c.max_effective_balance)
            },
            slashed: false,
            activation_eligibility_epoch: FAR,
            activation_epoch: FAR,
            exit_epoch: FAR,
            withdrawable_epoch: FAR,
        });
        self.balances.push(if electra { 0 } else { amount });
        if self.f > Phase0 {
            self.prev_part.push(0);
            self.cur_part.push(0);
            self.scores.push(0);
        }
        if electra {
            self.push_dep(self.n() - 1, amount, c)?;
        }
        Ok(())
    }
    pub fn pending_withdraw(&self, i: usize) -> u64 {
        self.pend_wd.iter().filter(|w| w.index == i).map(|w| w.amount).sum()
    }
    fn exit(&mut self, x: &SignedVoluntaryExit, c: &Context) -> R {
        let m = &x.message;
        let e = self.epoch(c);
        req(m.validator_index < self.n(), "no such validator")?;
        let v = self.validators[m.validator_index].clone();
        req(active(&v, e), "not active")?;
        req(v.exit_epoch == FAR, "already exiting")?;
        req(e >= m.epoch, "not valid yet")?;
        let since = if v.activation_eligibility_epoch != v.activation_epoch
            && defect("exit age from eligibility", self.f)
        {
            v.activation_eligibility_epoch
        } else {
            v.activation_epoch
        };
        req(e >= since + c.shard_committee_period, "too young")?;
        if self.f == Electra {
            req(self.pending_withdraw(m.validator_index) == 0, "pending withdrawals")?;
        }
        let d = if self.f >= Deneb {
            domain(VOLUNTARY_EXIT, c.capella_fork_version, &self.genesis_validators_root)
        } else {
            self.domain(VOLUNTARY_EXIT, Some(m.epoch), c)
        };
        req(verify(&v.public_key, &signing_root(&htr(m), &d), &x.signature), "signature")?;
        self.initiate_exit(m.validator_index, c)
    }
    fn change(&mut self, x: &SignedBlsToExecutionChange, c: &Context) -> R {
        let m = &x.message;
        req(m.validator_index < self.n(), "no such validator")?;
        let v = self.validators[m.validator_index].clone();
        req(prefix(&v) == 0, "not a BLS credential")?;
        let h = sha(&[m.from_bls_public_key.as_ref()]);
        req(v.withdrawal_credentials.as_ref()[1..] == h[1..], "another key")?;
        let d = domain(
            BLS_TO_EXECUTION_CHANGE,
            c.genesis_fork_version,
            &self.genesis_validators_root,
        );
        req(verify(&m.from_bls_public_key, &signing_root(&htr(m), &d), &x.signature), "signature")?;
        let mut w = [0u8; 32];
        w[0] = 1;
        w[12..].copy_from_slice(m.to_execution_address.as_ref());
        self.validators[m.validator_index].withdrawal_credentials = b32(w);
        Ok(())
    }
    fn sync_aggregate(&mut self, a: &Agg, c: &Context) -> R {
        let keys: Vec<_> = self
            .sync
            .keys
            .iter()
            .zip(&a.bits)
            .filter(|(_, b)| **b)
            .map(|(k, _)| k.clone())
            .collect();
        let slot = self.slot.max(1) - 1;
        let d = self.domain(SYNC_COMMITTEE, Some(slot / c.slots_per_epoch), c);
        let r = signing_root(&self.root_at(slot)?, &d);
        let ok = if keys.is_empty() { a.sig == infinity() } else { verify_all(&keys, &r, &a.sig) };
        req(ok, "sync signature")?;
        let inc = c.effective_balance_increment;
        let total = self.reward_per_increment(c) * (self.total_active(c) / inc);
        let max = total * SYNC_REWARD_WEIGHT / DENOM / c.slots_per_epoch;
        let part = max / c.sync_committee_size as u64;
        let pr = part * PROPOSER_WEIGHT / (DENOM - PROPOSER_WEIGHT);
        let p = self.proposer(c)?;
        for (k, b) in self.sync.keys.clone().iter().zip(&a.bits) {
            let i = self
                .validators
                .iter()
                .position(|v| v.public_key == *k)
                .ok_or("committee key unknown")?;
            if *b {
                self.inc(i, part);
                self.inc(p, pr);
            } else {
                self.dec(i, part);
            }
        }
        Ok(())
    }

    // Execution
    pub fn merge_complete(&self) -> bool {
        let mut d = Pay { logs_bloom: vec![0; crate::cfg::BLOOM], ..Pay::default() };
        d.extra_data = vec![];
        self.payload != d
    }
    pub fn payload_is_default(f: F, b: &Blk) -> bool {
        let mut p = b.payload.clone();
        if p.logs_bloom.iter().all(|x| *x == 0) {
            p.logs_bloom.clear();
        }
        p.transactions_root = Root::default();
        p.withdrawals_root = Root::default();
        p.receipts_list_root = Root::default();
        p.requests_list_root = Root::default();
        if f < Capella {
            p.withdrawals.clear();
        }
        if f < Deneb {
            p.blob_gas_used = 0;
            p.excess_blob_gas = 0;
        }
        if f < Electra {
            p.receipts.clear();
            p.requests.clear();
        }
        p == Pay::default()
    }
    pub fn merge_block(&self, b: &Blk) -> bool {
        !self.merge_complete() && !Self::payload_is_default(self.f, b)
    }
    pub fn exec_enabled(&self, b: &Blk) -> bool {
        self.merge_complete() || self.merge_block(b)
    }
    pub fn timestamp(&self, slot: u64, c: &Context) -> u64 {
        self.genesis_time + slot * c.seconds_per_slot
    }
    fn payload(&mut self, b: &Blk, c: &Context) -> R {
        let p = &b.payload;
        if self.f >= Capella || self.merge_complete() {
            req(p.parent_hash == self.payload.block_hash, "parent hash")?;
        }
        req(p.prev_randao == self.mix(self.epoch(c)), "prev randao")?;
        req(p.timestamp == self.timestamp(self.slot, c), "timestamp")?;
        if self.f >= Deneb {
            req(b.commitments.len() <= c.max_blobs_per_block, "blobs")?;
        }
        req(c.execution_engine, "execution engine")?;
        self.payload = header_of(self.f, p);
        Ok(())
    }
    fn fully(&self, i: usize, e: u64) -> bool {
        let v = &self.validators[i];
        (prefix(v) == 1 || (self.f == Electra && prefix(v) == 2))
            && v.withdrawable_epoch <= e
            && self.balances[i] > 0
    }
    fn partially(&self, i: usize, c: &Context) -> bool {
        let v = &self.validators[i];
        if self.f == Electra {
            let m = max_eb(v, c);
            execution_credential(v) && v.effective_balance == m && self.balances[i] > m
        } else {
            prefix(v) == 1
                && v.effective_balance == c.max_effective_balance
                && self.balances[i] > c.max_effective_balance
        }
    }
    pub fn expected(&self, c: &Context) -> (Vec<Withdrawal>, usize) {
        let e = self.epoch(c);
        let mut out: Vec<Withdrawal> = vec![];
        let mut index = self.nwi;
        let mut push = |out: &mut Vec<Withdrawal>, i: usize, amount: u64| {
            out.push(Withdrawal {
                index,
                validator_index: i,
                address: address(&self.validators[i]),
                amount,
            });
            index += 1;
        };
        if self.f == Electra {
            for w in &self.pend_wd {
                if w.withdrawable_epoch > e
                    || out.len() == c.max_pending_partials_per_withdrawals_sweep
                {
                    break;
                }
                let v = &self.validators[w.index];
                let b = self.balances[w.index];
                if v.exit_epoch == FAR
                    && v.effective_balance >= c.min_activation_balance
                    && b > c.min_activation_balance
                {
                    push(&mut out, w.index, w.amount.min(b - c.min_activation_balance));
                }
            }
        }
        let partials = out.len();
        let mut i = self.nwvi;
        for _ in 0..self.n().min(c.max_validators_per_withdrawals_sweep) {
            if self.fully(i, e) {
                push(&mut out, i, self.balances[i]);
            } else if self.partially(i, c) {
                let cap = if self.f == Electra {
                    max_eb(&self.validators[i], c)
                } else {
                    c.max_effective_balance
                };
                push(&mut out, i, self.balances[i] - cap);
            }
            if out.len() == c.max_withdrawals_per_payload {
                break;
            }
            i = (i + 1) % self.n();
        }
        (out, partials)
    }
    fn withdrawals(&mut self, b: &Blk, c: &Context) -> R {
        let (exp, partials) = self.expected(c);
        req(exp == b.payload.withdrawals, "withdrawals")?;
        for w in &exp {
            self.dec(w.validator_index, w.amount);
        }
        if self.f == Electra {
            self.pend_wd.drain(..partials);
        }
        if let Some(l) = exp.last() {
            self.nwi = l.index + 1;
        }
        self.nwvi = if exp.len() == c.max_withdrawals_per_payload {
            (exp.last().unwrap().validator_index + 1) % self.n()
        } else {
            (self.nwvi + c.max_validators_per_withdrawals_sweep) % self.n()
        };
        Ok(())
    }

    // Electra
    fn request(&mut self, x: &ExecutionLayerWithdrawalRequest, c: &Context) -> R {
        let full = x.amount == 0;
        if self.pend_wd.len() == c.pending_partial_withdrawals_limit && !full {
            return Ok(());
        }
        let Some(i) =
            self.validators.iter().position(|v| v.public_key == x.validator_public_key)
        else {
            return Ok(());
        };
        let v = self.validators[i].clone();
        let e = self.epoch(c);
        if !execution_credential(&v)
            || address(&v) != x.source_address
            || !active(&v, e)
            || v.exit_epoch != FAR
            || e < v.activation_epoch + c.shard_committee_period
        {
            return Ok(());
        }
        let pending = self.pending_withdraw(i);
        if full {
            if pending == 0 {
                self.initiate_exit(i, c)?;
            }
            return Ok(());
        }
        let min = c.min_activation_balance;
        if prefix(&v) == 2 && v.effective_balance >= min && self.balances[i] > min + pending {
            let amount = x.amount.min(self.balances[i] - min - pending);
            let e = self.exit_epoch_and_churn(amount, c)?;
            self.pend_wd.push(PendingPartialWithdrawal {
                index: i,
                amount,
                withdrawable_epoch: e + c.min_validator_withdrawability_delay,
            });
        }
        Ok(())
    }
    fn receipt(&mut self, x: &DepositReceipt, c: &Context) -> R {
        if self.receipts_start == u64::MAX {
            self.receipts_start = x.index;
        }
        self.apply_deposit(&x.public_key, &x.withdrawal_credentials, x.amount, &x.signature, c)
    }
    fn consolidate(&mut self, x: &SignedConsolidation, c: &Context) -> R {
        let m = &x.message;
        req(self.pend_cons.len() < c.pending_consolidations_limit, "queue full")?;
        req(self.cons_churn(c) > c.min_activation_balance, "no churn")?;
        req(m.source_index != m.target_index, "same validator")?;
        req(m.source_index < self.n() && m.target_index < self.n(), "no such validator")?;
        let (s, t) =
            (self.validators[m.source_index].clone(), self.validators[m.target_index].clone());
        let e = self.epoch(c);
        req(active(&s, e) && active(&t, e), "not active")?;
        req(s.exit_epoch == FAR && t.exit_epoch == FAR, "exiting")?;
        req(e >= m.epoch, "not valid yet")?;
        req(execution_credential(&s) && execution_credential(&t), "credentials")?;
        req(address(&s) == address(&t), "addresses differ")?;
        let d = domain(CONSOLIDATION, c.genesis_fork_version, &self.genesis_validators_root);
        let r = signing_root(&htr(m), &d);
        req(verify_all(&[s.public_key, t.public_key], &r, &x.signature), "signature")?;
        let e = self.cons_epoch_and_churn(s.effective_balance, c)?;
        let v = &mut self.validators[m.source_index];
        v.exit_epoch = e;
        v.withdrawable_epoch = e + c.min_validator_withdrawability_delay;
        self.pend_cons.push(PendingConsolidation {
            source_index: m.source_index,
            target_index: m.target_index,
        });
        Ok(())
    }

    /// The state of the next fork, as its upgrade function makes it.
    pub fn upgrade(&self, c: &Context) -> R<M> {
        let mut m = self.clone();
        let e = self.epoch(c);
        let next = FORKS[self.f as usize + 1];
        m.f = next;
        m.fork = Fork {
            previous_version: self.fork.current_version,
            current_version: version(c, next),
            epoch: e,
        };
        let n = self.n();
        match next {
            Altair => {
                m.prev_att.clear();
                m.cur_att.clear();
                m.prev_part = vec![0; n];
                m.cur_part = vec![0; n];
                m.scores = vec![0; n];
                for a in &self.prev_att {
                    let flags = m.flags(&a.data, a.delay, c)?;
                    for i in m.attesters(&a.data, &a.bits, c)? {
                        for f in &flags {
                            m.prev_part[i] |= 1 << f;
                        }
                    }
                }
                m.sync = m.next_sync_committee(c)?;
                m.next_sync = m.next_sync_committee(c)?;
            }
            Bellatrix => {
                m.payload = Pay { logs_bloom: vec![0; crate::cfg::BLOOM], ..Pay::default() };
            }
            Capella => {
                m.payload.withdrawals_root = Root::default();
                m.nwi = 0;
                m.nwvi = 0;
                m.summaries = vec![];
            }
            Deneb => {
                m.payload.blob_gas_used = 0;
                m.payload.excess_blob_gas = 0;
            }
            Electra => {
                m.receipts_start = u64::MAX;
                m.earliest_exit = self
                    .validators
                    .iter()
                    .map(|v| v.exit_epoch)
                    .filter(|x| *x != FAR)
                    .max()
                    .unwrap_or(e)
                    + 1;
                m.earliest_cons = activation_exit_epoch(e, c);
                m.exit_btc = m.exit_churn(c);
                m.cons_btc = m.cons_churn(c);
                let mut waiting: Vec<usize> =
                    (0..n).filter(|i| m.validators[*i].activation_epoch == FAR).collect();
                waiting.sort_by_key(|i| (m.validators[*i].activation_eligibility_epoch, *i));
                for i in waiting {
                    let b = std::mem::take(&mut m.balances[i]);
                    m.validators[i].effective_balance = 0;
                    m.validators[i].activation_eligibility_epoch = FAR;
                    m.push_dep(i, b, c)?;
                }
                for i in 0..n {
                    if prefix(&m.validators[i]) == 2 {
                        m.queue_excess(i, c)?;
                    }
                }
            }
            Phase0 => unreachable!(),
        }
        Ok(m)
    }
}

pub fn fork_epoch(f: F, c: &Context) -> u64 {
    match f {
        Phase0 => 0,
        Altair => c.altair_fork_epoch,
        Bellatrix => c.bellatrix_fork_epoch,
        Capella => c.capella_fork_epoch,
        Deneb => c.deneb_fork_epoch,
        Electra => c.electra_fork_epoch,
    }
}
/// The last fork scheduled at or before the epoch.
pub fn fork_at(e: u64, c: &Context) -> F {
    FORKS.into_iter().filter(|f| fork_epoch(*f, c) <= e).last().unwrap()
}

/// The header that stands for a payload.
pub fn header_of(f: F, p: &Pay) -> Pay {
    let mut h = p.clone();
    real::fill_roots(f, &mut h);
    h.transactions.clear();
    h.withdrawals.clear();
    h.receipts.clear();
    h.requests.clear();
    h.logs_bloom.resize(crate::cfg::BLOOM, 0);
    if f < Capella {
        h.withdrawals_root = Root::default();
    }
    if f < Deneb {
        h.blob_gas_used = 0;
        h.excess_blob_gas = 0;
    }
    if f < Electra {
        h.receipts_list_root = Root::default();
        h.requests_list_root = Root::default();
    }
    h
}

pub fn apply(m: &M, op: &Op, c: &Context) -> R<M> {
    let mut s = m.clone();
    match op {
        Op::Slots(n) => s.process_slots(*n, c)?,
        Op::Slot => s.process_slot(c),
        Op::Epoch => s.process_epoch(c)?,
        Op::Justification => s.justification(c)?,
        Op::Inactivity => s.inactivity_updates(c),
        Op::Rewards => s.rewards(c)?,
        Op::Registry => s.registry(c)?,
        Op::Slashings => s.slashings(c),
        Op::Eth1Reset => s.eth1_reset(c),
        Op::EffBal => s.effective_balances(c),
        Op::SlashReset => s.slash_reset(c),
        Op::RandaoReset => s.randao_reset(c),
        Op::HistRoots | Op::HistSummaries => s.hist(c)?,
        Op::PartRecord => s.part_record(),
        Op::PartFlags => s.part_flags(),
        Op::SyncUpdate => s.sync_update(c)?,
        Op::PendDeposits => s.pend_deposits(c),
        Op::PendConsolidations => s.pend_consolidations(c)?,
        Op::Header(b) => s.block_header(b, c)?,
        Op::Randao(b) => s.randao(b, c)?,
        Op::Eth1(b) => s.eth1(b, c),
        Op::Operations(b) => s.operations(b, c)?,
        Op::Block(b) => s.process_block(b, c)?,
        Op::Transition(b, v) => s.transition(b, *v, c)?,
        Op::InSlot(b, v) => s.in_slot(b, *v, c)?,
        Op::PSlash(x) => s.proposer_slashing(x, c)?,
        Op::ASlash(x) => s.attester_slashing(x, c)?,
        Op::Att(x) => s.attestation(x, c)?,
        Op::Deposit(x) => s.deposit(x, c)?,
        Op::Exit(x) => s.exit(x, c)?,
        Op::Sync(x) => s.sync_aggregate(x, c)?,
        Op::Payload(b) => s.payload(b, c)?,
        Op::Withdrawals(b) => s.withdrawals(b, c)?,
        Op::Change(x) => s.change(x, c)?,
        Op::Request(x) => s.request(x, c)?,
        Op::Receipt(x) => s.receipt(x, c)?,
        Op::Consolidate(x) => s.consolidate(x, c)?,
        Op::InitiateExit(i) => s.initiate_exit(*i, c)?,
        Op::Slash(i, w) => s.slash(*i, *w, c)?,
        Op::ToCompounding(i) => s.to_compounding(*i, c)?,
        Op::Upgrade => s = s.upgrade(c)?,
        Op::Chain(f, b, v) => s.chain(*f, b, *v, c)?,
    }
    Ok(s)
}

pub fn ask(m: &M, q: &Q, c: &Context) -> R<String> {
    use std::fmt::Debug;
    fn s<T: Debug>(x: T) -> R<String> {
        Ok(format!("{x:?}"))
    }
    match q {
        Q::Proposer => s(m.proposer(c)?),
        Q::Committee(a, i) => s(m.committee(*a, *i, c)?),
        Q::CommitteeCount(e) => s(m.committee_count(*e, c)),
        Q::Seed(e, d) => s(b32(m.seed(*e, *d, c))),
        Q::Active(e) => s(m.active(*e)),
        Q::ChurnLimit => s(m.churn_limit(c)),
        Q::ActivationChurn => s(m.activation_churn(c)),
        Q::NextSync => s(m.next_sync_committee(c)?),
        Q::NextSyncIndices => s(m.next_sync_indices(c)?),
        Q::BlockRoot(e) => s(m.root_of(*e, c)?),
        Q::BlockRootAtSlot(x) => s(m.root_at(*x)?),
        Q::Mix(e) => s(m.mix(*e)),
        Q::TotalActive => s(m.total_active(c)),
        Q::Attesting(a) => s(m.attesters_of(a, c)?),
        Q::Flags(d, n) => s(m.flags(d, *n, c)?),
        Q::BaseReward(i) => s(m.base_reward(*i, c)),
        Q::FinalityDelay => s(m.finality_delay(c)),
        Q::Leak => s(m.leak(c)),
        Q::FlagDeltas(f) => s(m.flag_deltas(*f, c)),
        Q::Participating(f, e) => {
            if *e != m.epoch(c) && *e != m.prev_epoch(c) {
                return Err("neither the previous nor the current epoch".into());
            }
            s(m.participating(*f, *e, c))
        }
        Q::InactivityDeltas => s(m.inactivity_deltas(c)?),
        Q::SourceDeltas => s(m.phase0_deltas(SOURCE, c)?),
        Q::TargetDeltas => s(m.phase0_deltas(TARGET, c)?),
        Q::HeadDeltas => s(m.phase0_deltas(HEAD, c)?),
        Q::DelayDeltas => s(m.delay_deltas(c)?),
        Q::AttDeltas => s(m.attestation_deltas(c)?),
        Q::Expected => {
            if m.f == Electra {
                s(m.expected(c))
            } else {
                s(m.expected(c).0)
            }
        }
        Q::Domain(d, e) => s(m.domain(*d, *e, c)),
        Q::MergeComplete => s(m.merge_complete()),
        Q::MergeBlock(b) => s(m.merge_block(b)),
        Q::ExecEnabled(b) => s(m.exec_enabled(b)),
        Q::HeaderOf(b) => s(header_of(m.f, &b.payload)),
        Q::Timestamp(x) => s(m.timestamp(*x, c)),
        Q::ValidIndexed(a) => s(m.valid_indexed(a, c)?),
        Q::BalanceChurn => s(m.balance_churn(c)),
        Q::ExitChurn => s(m.exit_churn(c)),
        Q::ConsChurn => s(m.cons_churn(c)),
        Q::ActiveBalance(i) => s(m.active_balance(*i, c)),
        Q::PendingWithdraw(i) => s(m.pending_withdraw(*i)),
        Q::BlockSig(b) => s(m.check_block_sig(b, c)?),
        Q::ValidGenesis => s(m.genesis_time >= c.min_genesis_time
            && m.active(0).len() >= c.min_genesis_active_validator_count),
    }
}
