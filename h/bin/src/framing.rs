//! C40: blobs of data.
use crate::ec;
use ec_bin::blobs::{
    bundler, decode, encode,
    framing::{payload_from_sized, sized_header, Mode},
};
use ethereum_consensus::deneb::mainnet::{Blob, BYTES_PER_BLOB};
use mc::{guard, Run};

/// Bytes of data one blob holds: 254 bits in each of its 4096 field elements.
const CAPACITY: usize = 4096 * 254 / 8;
/// The order of the scalar field, big-endian.
const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd,
    0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];

fn framed(data: &[u8]) -> Vec<u8> {
    let mut v = vec![0];
    v.extend((data.len() as u32).to_be_bytes());
    v.extend(data);
    v
}

/// The reference packing: the bits of the stream, 254 to an element, high bit first.
fn pack(stream: &[u8]) -> Vec<Vec<u8>> {
    let n = stream.len().div_ceil(CAPACITY).max(1);
    let mut out = vec![vec![0u8; BYTES_PER_BLOB]; n];
    let bit = |i: usize| stream.get(i / 8).map_or(0, |b| b >> (7 - i % 8) & 1);
    for e in 0..(stream.len() * 8).div_ceil(254) {
        let el = &mut out[e / 4096][e % 4096 * 32..][..32];
        for j in 0..254 {
            el[(j + 2) / 8] |= bit(e * 254 + j) << (7 - (j + 2) % 8);
        }
    }
    out
}

fn unpack(blobs: &[Vec<u8>]) -> Vec<u8> {
    let mut out = vec![0u8; blobs.len() * CAPACITY];
    let mut at = 0;
    for b in blobs {
        for el in b.chunks(32) {
            for j in 2..256 {
                out[at / 8] |= (el[j / 8] >> (7 - j % 8) & 1) << (7 - at % 8);
                at += 1;
            }
        }
    }
    out
}

fn raw(blobs: &[Blob]) -> Vec<Vec<u8>> {
    blobs.iter().map(|b| b.as_ref().to_vec()).collect()
}

fn document(blobs: &[Vec<u8>]) -> Vec<u8> {
    let hex: Vec<String> = blobs.iter().map(|b| format!("\"0x{}\"", hex::encode(b))).collect();
    format!("[{}]", hex.join(",")).into_bytes()
}

/// What decoding gives: the bytes, an error, or a crash.
#[derive(Clone, PartialEq, Eq)]
enum Got {
    Data(Vec<u8>),
    Error,
    Crash(String),
}
fn got<T>(r: Result<Result<T, impl Sized>, String>, f: impl FnOnce(T) -> Vec<u8>) -> Got {
    match r {
        Ok(Ok(v)) => Got::Data(f(v)),
        Ok(Err(_)) => Got::Error,
        Err(e) => Got::Crash(e),
    }
}
impl std::fmt::Debug for Got {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Got::Data(d) if d.len() <= 40 => write!(f, "{} bytes {}", d.len(), hex::encode(d)),
            Got::Data(d) => {
                let end = d.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1);
                write!(f, "{} bytes {}.. (last byte set: {})", d.len(), hex::encode(&d[..40]), end)
            }
            Got::Error => write!(f, "an error"),
            Got::Crash(e) => write!(f, "a crash: {e}"),
        }
    }
}

fn patterns(len: usize) -> Vec<(&'static str, Vec<u8>)> {
    let mut last = vec![0; len];
    if let Some(b) = last.last_mut() {
        *b = 1;
    }
    let mut v = vec![
        ("ones", vec![0xff; len]),
        ("count", (0..len).map(|i| (i * 37 + i / 251 + len) as u8).collect()),
        ("last", last),
    ];
    if len <= 600 {
        v.push(("zeros", vec![0; len]));
        let mut first = vec![0; len];
        if let Some(b) = first.first_mut() {
            *b = 0x80;
        }
        v.push(("first", first));
    }
    v
}

fn check_data(run: &Run, label: &str, data: &[u8]) {
    run.state();
    let len = data.len();
    let key = || format!("{label} of {len}");
    let want = Got::Data(data.to_vec());
    match guard(|| encode::from_reader(data, Mode::Sized)) {
        Ok(Ok(blobs)) => {
            run.transition();
            let blobs = raw(&blobs);
            let canonical = blobs.iter().flat_map(|b| b.chunks(32)).all(|e| e < &R[..]);
            run.eq(|| format!("canonical {}", key()), &true, &canonical);
            let right = blobs == pack(&framed(data));
            run.eq(|| format!("packed {}", key()), &true, &right);
            if label != "zeros" {
                let mut out = vec![];
                let r = guard(|| decode::to_writer_from_json(&document(&blobs)[..], &mut out, Mode::Sized));
                run.transition();
                run.eq(|| format!("unpacked {}", key()), &want, &got(r, |_| out));
            }
        }
        Ok(Err(e)) => run.fail(format!("pack {}", key()), || format!("refused: {e}")),
        Err(e) => run.fail(format!("pack {}", key()), || format!("crashed: {e}")),
    }
    // without a frame: the data, then nothing but zeros
    match guard(|| encode::from_reader(data, Mode::Raw)) {
        Ok(Ok(blobs)) => {
            run.transition();
            let right = raw(&blobs) == pack(data);
            run.eq(|| format!("packed raw {}", key()), &true, &right);
            if let Some(u) = guard(|| decode::unpack_from_blobs(&blobs)).ok().and_then(|r| r.ok()) {
                run.transition();
                let ok = u.len() >= len && u[..len] == *data && u[len..].iter().all(|b| *b == 0);
                run.eq(|| format!("unpacked raw {}", key()), &true, &ok);
            } else {
                run.fail(format!("unpacked raw {}", key()), || "refused or crashed".into());
            }
        }
        Ok(Err(e)) => run.fail(format!("pack raw {}", key()), || format!("refused: {e}")),
        Err(e) => run.fail(format!("pack raw {}", key()), || format!("crashed: {e}")),
    }
}

pub fn c40(run: &Run) {
    run.bound("blobs of the mainnet preset (4096 elements of 32 bytes); field elements carry 254 bits each");
    run.assume("the format of a frame (version 0, four bytes of size, big-endian, then the data) is the one the source documents; a reader never fails");
    // every length
    let mut lengths: Vec<usize> = (0..=run.pick(400, 1300)).collect();
    let w = run.pick(8isize, 40);
    for k in 1..=run.pick(2usize, 7) {
        for at in [k * CAPACITY, k * CAPACITY - 5, k * BYTES_PER_BLOB, k * BYTES_PER_BLOB - 5, k * CAPACITY - 132] {
            lengths.extend((-w..=w).map(|d| (at as isize + d) as usize));
        }
    }
    lengths.sort_unstable();
    lengths.dedup();
    run.bound(format!("all lengths to {}, and all within {w} of each boundary of up to {} blobs, of {} in all; bytes all ones, all zeros, counting, and zeros but for the first or the last", run.pick(400, 1300), run.pick(2, 7), lengths.len()));
    run.sample(|| format!("lengths {:?}", &lengths[lengths.len() - 20..]));
    mc::parallel(&lengths, |&len| {
        for (label, data) in patterns(len) {
            if len > 600 && label == "ones" && !run.thorough && len % 4 != 0 {
                continue
            }
            check_data(run, label, &data);
        }
    });
    run.part("lengths");
    // every bit of a short message, on its own and with all others set
    let bits: Vec<(usize, usize)> =
        run.pick(vec![1usize, 27, 31, 33], vec![1, 2, 27, 31, 32, 33, 64, 127]).into_iter().flat_map(|len| (0..len * 8).map(move |b| (len, b))).collect();
    mc::parallel(&bits, |&(len, bit)| {
        let mut d = vec![0u8; len];
        d[bit / 8] |= 0x80 >> (bit % 8);
        check_data(run, &format!("bit {bit}"), &d);
        d.iter_mut().for_each(|b| *b = !*b);
        check_data(run, &format!("all but bit {bit}"), &d);
    });
    run.part("bits");
    headers(run);
    blobs(run);
    process(run);
}

fn headers(run: &Run) {
    // the size a header gives
    for size in [0u64, 1, 255, 256, 65535, 65536, 1 << 24, u32::MAX as u64 - 1, u32::MAX as u64] {
        run.state();
        run.transition();
        let mut want = vec![0];
        want.extend((size as u32).to_be_bytes());
        let g = got(guard(|| sized_header(size as usize)), |h| h.to_vec());
        run.eq(|| format!("header of {size}"), &Got::Data(want), &g);
    }
    for size in [1u64 << 32, (1 << 32) + 1, 1 << 33, u64::MAX >> 1, u64::MAX] {
        run.state();
        run.transition();
        let g = got(guard(|| sized_header(size as usize)), |h| h.to_vec());
        run.eq(|| format!("header of {size}"), &Got::Error, &g);
    }
    // every version, every size of short streams
    for len in 0usize..=24 {
        let sizes: Vec<u32> = (0..=len as u32 + 8)
            .chain([255, 256, 65536, 1 << 24, 1 << 31, u32::MAX - 5, u32::MAX - 4, u32::MAX - 1, u32::MAX])
            .collect();
        for size in sizes {
            for version in 0..=255u8 {
                if version > 2 && size != 3 && size != u32::MAX && version != 255 {
                    continue
                }
                run.state();
                run.transition();
                let mut s = vec![version];
                s.extend(size.to_be_bytes());
                s.extend((0..24).map(|i| 0xa0 + i as u8));
                s.truncate(len);
                let want = if len < 5 || version != 0 || size as usize > len - 5 {
                    Got::Error
                } else {
                    Got::Data(s[5..5 + size as usize].to_vec())
                };
                let g = got(guard(|| payload_from_sized(&s)), |p| p.to_vec());
                run.eq(|| format!("stream of {len} version {version} size {size}"), &want, &g);
            }
        }
    }
    run.part("headers");
    // the same in blobs: what the elements cannot hold is no data
    let fill: Vec<u8> = (0..CAPACITY).map(|i| i as u8 | 1).collect();
    for n in [1usize, 2] {
        let end = n * CAPACITY;
        let mut sizes: Vec<usize> = vec![0, 1, CAPACITY - 5, CAPACITY, BYTES_PER_BLOB, u32::MAX as usize];
        for at in [end - 5, end, n * BYTES_PER_BLOB - 5, n * BYTES_PER_BLOB] {
            sizes.extend(at - 7..=at + 7);
        }
        sizes.sort_unstable();
        sizes.dedup();
        mc::parallel(&sizes, |&size| {
            for version in [0u8, 1, 255] {
                run.state();
                run.transition();
                let mut s = vec![version];
                s.extend((size as u32).to_be_bytes());
                for _ in 0..n {
                    s.extend(&fill);
                }
                s.truncate(end);
                let want = if version != 0 || size > end - 5 {
                    Got::Error
                } else {
                    Got::Data(s[5..5 + size].to_vec())
                };
                let mut out = vec![];
                let doc = document(&pack(&s));
                let r = guard(|| decode::to_writer_from_json(&doc[..], &mut out, Mode::Sized));
                if r.is_err() || matches!(r, Ok(Err(_))) {
                    run.eq(|| format!("{n} blobs version {version} size {size}: written"), &0, &out.len());
                }
                run.eq(|| format!("{n} blobs version {version} size {size}"), &want, &got(r, |_| out));
            }
        });
    }
    // no blobs at all, and documents that hold no blobs
    let full = document(&pack(&framed(b"abc")));
    let mut docs: Vec<(String, Vec<u8>)> = vec![("no blobs".into(), b"[]".to_vec())];
    for (what, d) in [("nothing", &b""[..]), ("an object", b"{}"), ("a string", b"\"0x00\""), ("a number", b"[1]"), ("a null", b"[null]")] {
        docs.push((what.into(), d.to_vec()));
    }
    for cut in [1, 2, 3, full.len() / 2, full.len() - 1] {
        docs.push((format!("a document cut by {cut}"), full[..full.len() - cut].to_vec()));
    }
    for (what, len) in [("a short blob", BYTES_PER_BLOB - 1), ("a long blob", BYTES_PER_BLOB + 1), ("an empty blob", 0)] {
        docs.push((what.into(), document(&[vec![0; len]])));
    }
    for (what, d) in docs {
        run.state();
        run.transition();
        let mut out = vec![];
        let r = guard(|| decode::to_writer_from_json(&d[..], &mut out, Mode::Sized));
        run.eq(|| format!("decoding {what}"), &Got::Error, &got(r, |_| out));
    }
    run.part("malformed documents");
}

/// Blobs that were packed elsewhere: what their elements hold comes back.
fn blobs(run: &Run) {
    for n in 1..=run.pick(2usize, 6) {
        for (label, at) in (0..n).flat_map(|b| [0usize, 1, 31, 4095 * 32, 4095 * 32 + 31].map(|p| ((b, p), b * BYTES_PER_BLOB + p))) {
            for bit in 0..8 {
                if at % 32 == 0 && bit < 2 {
                    continue
                }
                run.state();
                run.transition();
                let mut all = vec![0u8; n * BYTES_PER_BLOB];
                all[at] = 0x80 >> bit;
                let bl: Vec<Vec<u8>> = all.chunks(BYTES_PER_BLOB).map(|c| c.to_vec()).collect();
                let want = unpack(&bl);
                let real: Vec<Blob> = bl.iter().map(|b| Blob::try_from(&b[..]).unwrap()).collect();
                let g = got(guard(|| decode::unpack_from_blobs(&real)), |d| d);
                let ok = matches!(&g, Got::Data(d) if d.len() >= want.len() && d[..want.len()] == want[..] && d[want.len()..].iter().all(|b| *b == 0));
                run.eq(|| format!("bit {bit} of {label:?} in {n} blobs"), &true, &ok);
            }
        }
    }
    run.part("element bits");
}

/// The program itself.
fn process(run: &Run) {
    let lens = run.pick(vec![0usize, 1, 300, CAPACITY - 5, CAPACITY - 4], vec![0, 1, 31, 300, CAPACITY - 6, CAPACITY - 5, CAPACITY - 4, CAPACITY, CAPACITY + 1, BYTES_PER_BLOB, 2 * CAPACITY - 4]);
    mc::parallel(&lens, |&len| {
        let data: Vec<u8> = (0..len).map(|i| (i * 7 + 3) as u8).collect();
        for mode in ["sized", "raw"] {
            run.state();
            run.transitions(2);
            run.trace();
            let framing = if mode == "raw" { data.clone() } else { framed(&data) };
            match ec(&["blobs", "encode", mode], &data) {
                Ok(doc) => {
                    let v: Vec<String> = serde_json::from_slice(&doc).unwrap_or_default();
                    let bl: Vec<Vec<u8>> = v.iter().map(|s| hex::decode(s.trim_start_matches("0x")).unwrap_or_default()).collect();
                    run.eq(|| format!("ec blobs encode {mode} {len}"), &true, &(bl == pack(&framing)));
                    match ec(&["blobs", "decode", mode], &doc) {
                        Ok(d) => {
                            let ok = if mode == "raw" { d.len() >= len && d[..len] == data[..] && d[len..].iter().all(|b| *b == 0) } else { d == data };
                            run.eq(|| format!("ec blobs decode {mode} {len}"), &true, &ok);
                        }
                        Err(e) => run.fail(format!("ec blobs decode {mode} {len}"), || e),
                    }
                }
                Err(e) => run.fail(format!("ec blobs encode {mode} {len}"), || e),
            }
        }
    });
    // the default framing is the sized one
    let doc = ec(&["blobs", "encode"], b"xyz").unwrap_or_default();
    run.eq(|| "ec blobs encode, default".into(), &Ok(b"xyz".to_vec()), &ec(&["blobs", "decode"], &doc));
    // a header beyond the data is an error of the program, not a crash
    for size in [CAPACITY - 4, BYTES_PER_BLOB - 5, BYTES_PER_BLOB - 1, BYTES_PER_BLOB] {
        run.state();
        run.transition();
        let mut s = vec![0];
        s.extend((size as u32).to_be_bytes());
        let r = ec(&["blobs", "decode"], &document(&pack(&s)));
        let clean = matches!(&r, Err(e) if !e.starts_with("CRASH"));
        run.eq(|| format!("ec blobs decode of size {size}"), &true, &clean);
    }
    run.part("the program");
    // bundles: a commitment and a proof for each blob, in order
    for n in 0..=run.pick(2usize, 4) {
        run.state();
        run.trace();
        let bl: Vec<Vec<u8>> = (0..n).map(|i| pack(&framed(&[i as u8 + 1; 40])).remove(0)).collect();
        match guard(|| bundler::from_reader(&document(&bl)[..])) {
            Ok(Ok(b)) => {
                run.transition();
                run.eq(|| format!("bundle of {n}: blobs"), &true, &(raw(&b.blobs) == bl));
                let settings = ethereum_consensus::crypto::kzg::kzg_settings_with_precompute_arc(ethereum_consensus::crypto::PRECOMPUTE);
                let want: Vec<_> = b.blobs.iter().map(|x| bundler::commit_and_prove_blob(x, &settings).unwrap()).collect();
                let real: Vec<_> = b.commitments.iter().cloned().zip(b.proofs.iter().cloned()).collect();
                run.eq(|| format!("bundle of {n}: number of proofs"), &n, &b.proofs.len());
                run.eq(|| format!("bundle of {n}"), &true, &(want == real));
            }
            Ok(Err(e)) => run.fail(format!("bundle of {n}"), || e.to_string()),
            Err(e) => run.fail(format!("bundle of {n}"), || format!("crashed: {e}")),
        }
    }
    run.part("bundles");
}
