//! Blob sidecars and the commitment scheme.
use crate::{cfg::*, crypto::*, m::*, real};
use ethereum_consensus::{
    crypto::kzg as lib,
    crypto::KzgProof,
    deneb::{self, blob_sidecar::verify_blob_sidecar_inclusion_proof, BlobSidecar},

};
use mc::Run;

fn commitment(n: u8) -> KzgCommitment {
    let mut b = [n; 48];
    b[0] = 0x80 | n;
    KzgCommitment::try_from(&b[..]).unwrap()
}
fn hash2(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    sha(&[a, b])
}
/// All levels of the tree over `leaves`, padded to 2^depth.
fn levels(leaves: &[[u8; 32]], depth: usize) -> Vec<Vec<[u8; 32]>> {
    let mut zero = [0u8; 32];
    let mut out = vec![leaves.to_vec()];
    for _ in 0..depth {
        let mut l = out.last().unwrap().clone();
        if l.len() % 2 == 1 {
            l.push(zero);
            *out.last_mut().unwrap() = l.clone();
        }
        let next = if l.is_empty() { vec![hash2(&zero, &zero)] } else { l.chunks(2).map(|p| hash2(&p[0], &p[1])).collect() };
        if l.is_empty() {
            *out.last_mut().unwrap() = vec![zero, zero];
        }
        zero = hash2(&zero, &zero);
        out.push(next);
    }
    out
}
fn branch(levels: &[Vec<[u8; 32]>], mut i: usize) -> Vec<[u8; 32]> {
    let mut zero = [0u8; 32];
    let mut out = vec![];
    for l in &levels[..levels.len() - 1] {
        out.push(l.get(i ^ 1).copied().unwrap_or(zero));
        zero = hash2(&zero, &zero);
        i /= 2;
    }
    out
}
fn leaf(c: &KzgCommitment) -> [u8; 32] {
    let mut a = [0u8; 32];
    let mut b = [0u8; 32];
    a.copy_from_slice(&c[..32]);
    b[..16].copy_from_slice(&c[32..]);
    hash2(&a, &b)
}
/// The branch from commitment `i` to the root of a body with these field roots, and that root.
fn prove(commitments: &[KzgCommitment], depth: usize, fields: &[[u8; 32]], at: usize, i: usize) -> (Vec<[u8; 32]>, [u8; 32]) {
    let leaves: Vec<[u8; 32]> = commitments.iter().map(leaf).collect();
    let list = levels(&leaves, depth);
    let mut b = branch(&list, i);
    let mut len = [0u8; 32];
    len[..8].copy_from_slice(&(commitments.len() as u64).to_le_bytes());
    b.push(len);
    let root = hash2(&list[depth][0], &len);
    let mut f = fields.to_vec();
    f[at] = root;
    let body = levels(&f, 4);
    b.extend(branch(&body, at));
    (b, body[4][0])
}

type Sidecar<const D: usize> = BlobSidecar<32, D>;

/// The commitments field of `body` and its other field roots.
macro_rules! fields {
    ($b:expr; $($f:ident),*) => { vec![$(raw(&$b.$f.hash_tree_root().unwrap())),*] };
}

fn inclusion<B, const D: usize>(
    run: &Run,
    what: &str,
    limit: usize,
    lists: &[usize],
    make: impl Fn(&[KzgCommitment], u8) -> (Vec<[u8; 32]>, [u8; 32]),
    thorough: bool,
) where
    B: ssz_rs::prelude::SimpleSerialize,
{
    let depth = limit.next_power_of_two().trailing_zeros() as usize;
    let check = |name: String, s: &Sidecar<D>, want: bool| {
        run.transition();
        let got = mc::guard(|| verify_blob_sidecar_inclusion_proof::<D, 32, B>(s).is_ok());
        run.eq(|| format!("{what}: {name}"), &Ok(want), &got);
    };
    for &n in lists {
        for content in 0..2u8 {
            let cs: Vec<KzgCommitment> = (0..n).map(|i| commitment((1 + (i % 60) as u8) ^ (64 * content))).collect();
            let (fields, root) = make(&cs, content);
            let mine = prove(&cs, depth, &fields, 11, 0).1;
            if !run.eq(|| format!("{what}: root of a body with {n} commitments"), &mine, &root) {
                return;
            }
            for i in 0..n.max(1) {
                if n > 20 && !(i < 3 || i + 3 > n || i.is_power_of_two()) {
                    continue;
                }
                run.state();
                let (b, root) = prove(&cs, depth, &fields, 11, i);
                let mut s = Sidecar::<D> { index: i as _, ..Default::default() };
                s.kzg_commitment = cs.get(i).cloned().unwrap_or_default();
                s.signed_block_header.message.body_root = node(root);
                let nodes: Vec<Root> = b.iter().map(|x| node(*x)).collect();
                if nodes.len() != D {
                    run.fail(format!("{what}: depth"), || format!("a branch of {} nodes, a sidecar with room for {D}", nodes.len()));
                    return;
                }
                s.kzg_commitment_inclusion_proof = Vector::try_from(nodes).unwrap();
                let at = format!("commitment {i} of {n}");
                check(at.clone(), &s, i < n);
                // any other index
                let others: Vec<usize> = if limit <= 16 { (0..limit * 2 + 2).collect() } else { vec![0, 1, 2, i ^ 1, i + limit, i + 2 * limit, n, limit - 1, limit, 2 * limit] };
                for j in others.into_iter().chain([usize::MAX, usize::MAX - 1, 1 << 32, 1 << 63]) {
                    if j != i {
                        let mut t = s.clone();
                        t.index = j as _;
                        check(format!("{at} claimed at {j}"), &t, false);
                    }
                }
                // any other commitment
                for bit in 0..48 * 8 {
                    if bit % 8 == 0 || thorough {
                        let mut t = s.clone();
                        t.kzg_commitment[bit / 8] ^= 1 << (bit % 8);
                        check(format!("{at} with bit {bit} of the commitment flipped"), &t, false);
                    }
                }
                for (j, c) in cs.iter().enumerate() {
                    if *c != s.kzg_commitment {
                        let mut t = s.clone();
                        t.kzg_commitment = c.clone();
                        check(format!("{at} with commitment {j} in its place"), &t, false);
                    }
                }
                // any other branch or root
                for d in 0..D {
                    for byte in [0, 31] {
                        let mut x = raw(&s.kzg_commitment_inclusion_proof[d]);
                        x[byte] ^= 1;
                        let mut t = s.clone();
                        t.kzg_commitment_inclusion_proof[d] = node(x);
                        check(format!("{at} with level {d} of the branch changed"), &t, false);
                    }
                    if d + 1 < D && s.kzg_commitment_inclusion_proof[d] != s.kzg_commitment_inclusion_proof[d + 1] {
                        let mut t = s.clone();
                        let x = t.kzg_commitment_inclusion_proof[d];
                        t.kzg_commitment_inclusion_proof[d] = t.kzg_commitment_inclusion_proof[d + 1];
                        t.kzg_commitment_inclusion_proof[d + 1] = x;
                        check(format!("{at} with levels {d} and {} of the branch swapped", d + 1), &t, false);
                    }
                }
                for which in 0..4 {
                    let mut t = s.clone();
                    let h = &mut t.signed_block_header.message;
                    let r = node(root);
                    let other = match which {
                        0 => root_of(&[9; 32]),
                        1 => Root::default(),
                        2 => {
                            let mut x = root;
                            x[31] ^= 1;
                            node(x)
                        }
                        _ => {
                            h.state_root = r;
                            h.parent_root = r;
                            Root::default()
                        }
                    };
                    h.body_root = other;
                    check(format!("{at} with another body root ({which})"), &t, false);
                }
                // what is not covered by the branch does not matter to it
                let mut t = s.clone();
                t.blob[0] = 7;
                t.kzg_proof[0] = 7;
                t.signed_block_header.message.slot = 9;
                t.signed_block_header.message.proposer_index = 3;
                t.signed_block_header.signature = sign(1, &[0; 32]);
                check(format!("{at} with another blob, proof, slot and signature"), &t, i < n);
            }
        }
    }
}
fn root_of(b: &[u8; 32]) -> Root {
    node(*b)
}

macro_rules! deneb_fields {
    ($b:ident $(, $more:ident)*) => {
        fields!($b; randao_reveal, eth1_data, graffiti, proposer_slashings, attester_slashings, attestations, deposits,
            voluntary_exits, sync_aggregate, execution_payload, bls_to_execution_changes, blob_kzg_commitments $(, $more)*)
    };
}
macro_rules! deneb_body {
    ($t:ty $(, $more:ident)*) => {
        |cs: &[KzgCommitment], content: u8| {
            let mut b = <$t>::default();
            b.blob_kzg_commitments = real::seq(cs);
            if content > 0 {
                b.graffiti = b32([content; 32]);
                b.execution_payload.block_number = 5;
                b.randao_reveal = sign(1, &[1; 32]);
            }
            (deneb_fields!(b $(, $more)*), raw(&b.hash_tree_root().unwrap()))
        }
    };
}

const N: usize = 131072;
fn blob(edit: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
    let mut b = vec![0u8; N];
    edit(&mut b);
    b
}
const ORDER: &str = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
fn order(sub: u8) -> Vec<u8> {
    let mut b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&ORDER[2 * i..2 * i + 2], 16).unwrap()).collect();
    if sub > 0 {
        assert!(sub == 1);
        b[31] = 0;
    }
    b
}

pub fn c31(run: &Run) {
    run.assume("the commitment scheme is the stand-in for c-kzg, which has its encodings and algebra: what is decided is that the library hands it the right blobs, commitments, proofs and points and passes on its answer");
    run.part("inclusion");
    run.bound("bodies of deneb and electra with 0 to 3 commitments of a small preset, and up to 16 and 4096 of the shipped ones; every index, every commitment, and every single change of index, commitment, branch and root");
    type SmallDeneb = real::deneb_::Body;
    type SmallElectra = real::electra_::Body;
    inclusion::<SmallDeneb, 7>(run, "deneb", BLOBS, &[0, 1, 2, 3], deneb_body!(SmallDeneb), true);
    inclusion::<SmallElectra, 7>(run, "electra", BLOBS, &[0, 1, 2, 3], deneb_body!(SmallElectra, consolidations), true);
    const DMIN: usize = deneb::minimal::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH;
    const DMAIN: usize = deneb::mainnet::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH;
    inclusion::<deneb::minimal::BeaconBlockBody, DMIN>(run, "minimal", 16, run.pick(&[1, 16], &[0, 1, 2, 6, 9, 15, 16]), deneb_body!(deneb::minimal::BeaconBlockBody), run.thorough);
    inclusion::<deneb::mainnet::BeaconBlockBody, DMAIN>(run, "mainnet", 4096, run.pick(&[1, 6], &[0, 1, 2, 6, 33, 4095, 4096]), deneb_body!(deneb::mainnet::BeaconBlockBody), run.thorough);

    run.part("versioned hashes");
    for n in 0..64 {
        for bit in 0..384 {
            let mut c = commitment(n);
            c[bit / 8] ^= 1 << (bit % 8);
            run.state();
            run.transition();
            let mut want = sha(&[c.as_ref()]);
            want[0] = 1;
            run.eq(|| format!("versioned hash of {c:?}"), &want, &raw(&deneb::kzg_commitment_to_versioned_hash(&c)));
        }
    }

    run.part("commitments and proofs");
    let ctx = ctx();
    let settings = &ctx.kzg_settings;
    let blobs: Vec<(&str, Vec<u8>)> = vec![
        ("zero", blob(|_| {})),
        ("one in the first element", blob(|b| b[31] = 1)),
        ("one in the last element", blob(|b| b[N - 1] = 1)),
        ("constant", blob(|b| b.chunks_mut(32).for_each(|c| c[31] = 5))),
        ("largest elements", blob(|b| b.chunks_mut(32).for_each(|c| c.copy_from_slice(&order(1))))),
        ("mixed", blob(|b| b.iter_mut().enumerate().for_each(|(i, x)| if i % 32 > 0 { *x = (i * 7 + i / 32) as u8 }))),
    ];
    let bad: Vec<(&str, Vec<u8>)> = vec![
        ("first element not canonical", blob(|b| b[..32].copy_from_slice(&order(0)))),
        ("last element not canonical", blob(|b| b[N - 32..].copy_from_slice(&[255; 32]))),
        ("empty", vec![]),
        ("short", vec![0; N - 1]),
        ("long", vec![0; N + 1]),
        ("one element", vec![0; 32]),
    ];
    let cs: Vec<KzgCommitment> = blobs.iter().map(|(_, b)| lib::blob_to_kzg_commitment(b, settings).unwrap()).collect();
    let ps: Vec<KzgProof> = blobs.iter().zip(&cs).map(|((_, b), c)| lib::compute_blob_kzg_proof(b, c, settings).unwrap()).collect();
    // the scheme itself, without the library
    for (i, (name, b)) in blobs.iter().enumerate() {
        run.state();
        run.transitions(2);
        let raw = c_kzg::Blob::from_bytes(b).unwrap();
        let s = c_kzg::ethereum_kzg_settings_arc(0);
        let c = s.blob_to_kzg_commitment(&raw).unwrap().to_bytes();
        run.eq(|| format!("commitment to {name}"), &c.as_slice().to_vec(), &cs[i].to_vec());
        let p = s.compute_blob_kzg_proof(&raw, &c).unwrap().to_bytes();
        run.eq(|| format!("proof of {name}"), &p.as_slice().to_vec(), &ps[i].to_vec());
    }
    for (name, b) in &bad {
        run.state();
        run.transitions(4);
        let no: Result<bool, String> = Ok(false);
        run.eq(|| format!("committing to {name}"), &no, &mc::guard(|| lib::blob_to_kzg_commitment(b, settings).is_ok()));
        run.eq(|| format!("proving {name}"), &no, &mc::guard(|| lib::compute_blob_kzg_proof(b, &cs[0], settings).is_ok()));
        run.eq(|| format!("evaluating {name}"), &no, &mc::guard(|| lib::compute_kzg_proof(b, &Bytes32::default(), settings).is_ok()));
        run.eq(|| format!("verifying {name}"), &no, &mc::guard(|| lib::verify_blob_kzg_proof(b, &cs[0], &ps[0], settings).is_ok()));
    }
    let mut extra_c = cs.clone();
    let mut extra_p = ps.clone();
    for x in [vec![0u8; 48], { let mut v = cs[1].to_vec(); v[47] ^= 1; v }, vec![255; 48]] {
        extra_c.push(KzgCommitment::try_from(&x[..]).unwrap());
        extra_p.push(KzgProof::try_from(&x[..]).unwrap());
    }
    // a pairing check over the trapdoor group: what verifies is decided by the values alone
    let truth = |i: usize, j: usize, k: usize| i < blobs.len() && cs.get(j) == Some(&cs[i]) && ps.get(k) == Some(&ps[i]);
    let many = extra_c.len();
    let idx: Vec<(usize, usize, usize)> = (0..blobs.len())
        .flat_map(|i| (0..many).flat_map(move |j| (0..many).map(move |k| (i, j, k))))
        .collect();
    mc::parallel(&idx, |&(i, j, k)| {
        run.state();
        run.transition();
        let got = mc::guard(|| lib::verify_blob_kzg_proof(&blobs[i].1, &extra_c[j], &extra_p[k], settings).is_ok());
        run.eq(|| format!("blob {i} against commitment {j} and proof {k}"), &Ok(truth(i, j, k)), &got);
    });
    run.part("batches");
    let good: Vec<(usize, usize, usize)> = (0..3).flat_map(|i| [(i + 1, i + 1, i + 1)]).collect();
    let mut items = good.clone();
    items.extend([(1, 2, 1), (1, 1, 2), (2, 1, 1), (3, 6, 3)]);
    let mut batches: Vec<Vec<(usize, usize, usize)>> = vec![];
    for n in 0..=run.pick(2, 3) {
        for t in mc::tuples(n, items.len()) {
            batches.push(t.iter().map(|x| items[*x]).collect());
        }
    }
    // the right three, with the parts of two of them exchanged
    for t in mc::tuples(3, 3) {
        batches.push(vec![(1, t[0] + 1, 1), (2, t[1] + 1, 2), (3, t[2] + 1, 3)]);
        batches.push(vec![(1, 1, t[0] + 1), (2, 2, t[1] + 1), (3, 3, t[2] + 1)]);
        batches.push(vec![(t[0] + 1, 1, 1), (t[1] + 1, 2, 2), (t[2] + 1, 3, 3)]);
    }
    mc::parallel(&batches, |t| {
        run.state();
        run.transition();
        let b: Vec<&Vec<u8>> = t.iter().map(|x| &blobs[x.0].1).collect();
        let c: Vec<_> = t.iter().map(|x| extra_c[x.1].clone()).collect();
        let p: Vec<_> = t.iter().map(|x| extra_p[x.2].clone()).collect();
        let want = t.iter().all(|x| truth(x.0, x.1, x.2));
        let got = mc::guard(|| lib::verify_blob_kzg_proof_batch(&b, &c, &p, settings).is_ok());
        run.eq(|| format!("batch {t:?}"), &Ok(want), &got);
    });
    for (x, y, z) in (0..4).flat_map(|x| (0..4).flat_map(move |y| (0..4).map(move |z| (x, y, z)))) {
        run.state();
        run.transition();
        let b: Vec<&Vec<u8>> = blobs[..x].iter().map(|b| &b.1).collect();
        let got = mc::guard(|| lib::verify_blob_kzg_proof_batch(&b, &cs[..y], &ps[..z], settings).is_ok());
        run.eq(|| format!("batch of {x} blobs, {y} commitments and {z} proofs"), &Ok(x == y && y == z), &got);
    }
    for (i, (name, b)) in bad.iter().enumerate() {
        run.transition();
        let list: Vec<&Vec<u8>> = if i % 2 == 0 { vec![&blobs[0].1, b] } else { vec![b, &blobs[0].1] };
        let got = mc::guard(|| lib::verify_blob_kzg_proof_batch(&list, &[cs[0].clone(), cs[0].clone()], &[ps[0].clone(), ps[0].clone()], settings).is_ok());
        run.eq(|| format!("batch with a blob that is {name}"), &Ok(false), &got);
    }
    run.part("evaluations");
    let mut points: Vec<Bytes32> = [0u8, 1, 2, 5].iter().map(|n| { let mut b = [0; 32]; b[31] = *n; b32(b) }).collect();
    points.push(Bytes32::try_from(&order(1)[..]).unwrap());
    let bad_points = [Bytes32::try_from(&order(0)[..]).unwrap(), b32([255; 32])];
    let mut evals = vec![];
    for (i, (name, b)) in blobs.iter().enumerate() {
        for z in &points {
            run.state();
            run.transition();
            let s = c_kzg::ethereum_kzg_settings_arc(0);
            let (p, y) = s.compute_kzg_proof(&c_kzg::Blob::from_bytes(b).unwrap(), &c_kzg::Bytes32::from_bytes(z.as_ref()).unwrap()).unwrap();
            let want = (p.to_bytes().as_slice().to_vec(), y.as_slice().to_vec());
            let got = mc::guard(|| lib::compute_kzg_proof(b, z, settings).map(|r| (r.proof.to_vec(), r.evaluation.to_vec())).unwrap());
            run.eq(|| format!("evaluating {name} at {z:?}"), &Ok(want.clone()), &got);
            if i == 3 {
                let mut five = [0; 32];
                five[31] = 5;
                run.eq(|| "a constant blob evaluates to its constant".into(), &want.1, &five.to_vec());
            }
            evals.push((i, z.clone(), Bytes32::try_from(&want.1[..]).unwrap(), KzgProof::try_from(&want.0[..]).unwrap()));
        }
        for z in &bad_points {
            run.transition();
            run.eq(|| format!("evaluating {name} at a point that is not canonical"), &Ok(false), &mc::guard(|| lib::compute_kzg_proof(b, z, settings).is_ok()));
        }
    }
    // a check takes its four parts from up to two evaluations
    for a in &evals {
        for b in &evals {
            for pick in 0..16 {
                let of = |n: usize| if pick >> n & 1 == 0 { a } else { b };
                let (i, z, y, p) = (of(0).0, &of(1).1, &of(2).2, &of(3).3);
                run.transition();
                let want = evals.iter().any(|e| cs[e.0] == cs[i] && e.1 == *z && e.2 == *y && e.3 == *p);
                let got = mc::guard(|| lib::verify_kzg_proof(&cs[i], z, y, p, settings).is_ok());
                run.eq(|| format!("blob {i} at {z:?} claimed to be {y:?}"), &Ok(want), &got);
            }
        }
        for z in &bad_points {
            run.transitions(2);
            run.eq(|| "a point that is not canonical".into(), &Ok(false), &mc::guard(|| lib::verify_kzg_proof(&cs[a.0], z, &a.2, &a.3, settings).is_ok()));
            run.eq(|| "a value that is not canonical".into(), &Ok(false), &mc::guard(|| lib::verify_kzg_proof(&cs[a.0], &a.1, z, &a.3, settings).is_ok()));
        }
    }
}
