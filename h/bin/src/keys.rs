//! C38 and C39: derived keys and their keystores.
use crate::ec;
use ec_bin::validator::{
    keys::{self, KeyPair},
    keystores,
};
use mc::{guard, Run};
use serde_json::Value;
use sha2::{Digest, Sha256, Sha512};
use std::{
    collections::{BTreeMap, HashSet},
    sync::{atomic::Ordering::SeqCst, Arc, Mutex},
};

// ---- EIP-2333, EIP-2334

const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd,
    0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
type Sk = [u8; 32];

/// The big-endian number modulo the order, by shifting in one bit at a time.
fn mod_r(b: &[u8]) -> Sk {
    let mut acc = [0u8; 33];
    for byte in b {
        for i in (0..8).rev() {
            let mut carry = byte >> i & 1;
            for x in acc.iter_mut().rev() {
                let c = *x >> 7;
                *x = *x << 1 | carry;
                carry = c;
            }
            let ge = acc[0] > 0 || acc[1..] >= R[..];
            if ge {
                let mut borrow = 0i16;
                for k in (0..33).rev() {
                    let r = if k == 0 { 0 } else { R[k - 1] as i16 };
                    let d = acc[k] as i16 - r - borrow;
                    borrow = (d < 0) as i16;
                    acc[k] = d.rem_euclid(256) as u8;
                }
            }
        }
    }
    acc[1..].try_into().unwrap()
}

fn expand(prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t = vec![];
    let mut i = 1u8;
    while out.len() < len {
        t = hkdf::hmac::<Sha256>(prk, &[&t, info, &[i]]);
        out.extend(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(len);
    out
}
fn hkdf_mod_r(ikm: &[u8]) -> Sk {
    let mut salt = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    loop {
        salt = Sha256::digest(&salt).to_vec();
        let prk = hkdf::hmac::<Sha256>(&salt, &[ikm, &[0]]);
        let sk = mod_r(&expand(&prk, &[0, 48], 48));
        if sk != [0; 32] {
            return sk
        }
    }
}
fn lamport(ikm: &[u8], salt: &[u8], out: &mut Sha256) {
    let prk = hkdf::hmac::<Sha256>(salt, &[ikm]);
    for c in expand(&prk, &[], 255 * 32).chunks(32) {
        out.update(Sha256::digest(c));
    }
}
fn child(parent: &Sk, index: u32) -> Sk {
    let mut h = Sha256::new();
    lamport(parent, &index.to_be_bytes(), &mut h);
    let not: Vec<u8> = parent.iter().map(|b| !b).collect();
    lamport(&not, &index.to_be_bytes(), &mut h);
    hkdf_mod_r(&h.finalize())
}
fn path(seed: &[u8], p: &[u32]) -> Sk {
    p.iter().fold(hkdf_mod_r(seed), |k, i| child(&k, *i))
}
/// (signing, withdrawal)
fn validator(seed: &[u8], i: u32) -> (Sk, Sk) {
    let w = path(seed, &[12381, 3600, i, 0]);
    (child(&w, 0), w)
}
fn public(sk: &Sk) -> Vec<u8> {
    blst::min_pk::SecretKey::from_bytes(sk).unwrap().sk_to_pk().to_bytes().to_vec()
}
fn decimal(s: &str) -> Sk {
    let mut v = [0u8; 32];
    for d in s.bytes() {
        let mut carry = (d - b'0') as u32;
        for x in v.iter_mut().rev() {
            let t = *x as u32 * 10 + carry;
            *x = t as u8;
            carry = t >> 8;
        }
    }
    v
}

/// The published vectors: seed, master key, index, child key.
const VECTORS: [(&str, &str, u32, &str); 1] = [(
    "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04",
    "6083874454709270928345386274498605044986640685124978867557563392430687146096",
    0,
    "20397789859736650942317412262472558107875392172444076792671091975210932703118",
)];

fn seeds() -> Vec<[u8; 64]> {
    let mut v = vec![[0u8; 64], [0xff; 64]];
    v.push(hex::decode(VECTORS[0].0).unwrap().try_into().unwrap());
    v.push(std::array::from_fn(|i| i as u8));
    v
}

#[derive(Debug, Clone, PartialEq, Eq)]
struct Pair {
    path: String,
    private: String,
    public: String,
}
fn pair(k: KeyPair) -> Pair {
    let public = hex::encode(k.public_key.as_ref());
    Pair { path: k.path, private: hex::encode(k.private_key.to_bytes()), public }
}

pub fn c38(run: &Run) {
    run.assume("the order in which rayon runs the derivations is its own: every range is derived on pools of 1 to 8 threads, and with the indices in one range, one at a time and in overlapping ranges");
    run.assume("the public key of a secret key is that of the stand-in curve, whose group and encodings are those of BLS12-381 in all but the discrete logarithm");
    for (seed, master, index, key) in VECTORS {
        let m = hkdf_mod_r(&hex::decode(seed).unwrap());
        assert_eq!(m, decimal(master), "the reference follows the published vector");
        assert_eq!(child(&m, index), decimal(key), "the reference follows the published vector");
    }
    let width = run.pick(4u32, 8);
    let bases: Vec<u32> = vec![0, 254, 65534, (1 << 31) - 2, u32::MAX - width - 1];
    let seeds = seeds();
    run.bound(format!("{} seeds; all ranges within {} indices from each of {bases:?}, the last index a range can name among them", seeds.len(), width + 1));
    let mut want: BTreeMap<(usize, u32), (Pair, Pair)> = BTreeMap::new();
    let cases: Vec<(usize, u32)> = (0..seeds.len()).flat_map(|s| bases.iter().flat_map(move |b| (*b..=*b + width).map(move |i| (s, i)))).collect();
    let found = Mutex::new(vec![]);
    mc::parallel(&cases, |&(s, i)| {
        let (signing, withdrawal) = validator(&seeds[s], i);
        let p = |k: &Sk, path: String| Pair { path, private: hex::encode(k), public: hex::encode(public(k)) };
        let v = (p(&signing, format!("m/12381/3600/{i}/0/0")), p(&withdrawal, format!("m/12381/3600/{i}/0")));
        found.lock().unwrap().push(((s, i), v));
    });
    want.extend(found.into_inner().unwrap());
    let all: HashSet<&String> = want.values().flat_map(|(a, b)| [&a.private, &b.private]).collect();
    run.eq(|| "all reference keys differ".into(), &(want.len() * 2), &all.len());
    let mut distinct = HashSet::new();
    let mut named = HashSet::new();
    for threads in 1..=8usize {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for (s, seed) in seeds.iter().enumerate() {
            if !run.thorough && threads > 2 && s != (threads - 1) % seeds.len() {
                continue
            }
            for b in &bases {
                for start in *b..=*b + width + 1 {
                    for end in start..=*b + width + 1 {
                        if !run.thorough && threads > 1 && end - start < 2 {
                            continue
                        }
                        run.state();
                        run.transition();
                        let key = || format!("seed {s} range {start}..{end} on {threads}");
                        match guard(|| pool.install(|| keys::generate(seed, start, end))) {
                            Ok((a, b)) => {
                                let a: Vec<Pair> = a.into_iter().map(pair).collect();
                                let b: Vec<Pair> = b.into_iter().map(pair).collect();
                                for k in a.iter().chain(&b) {
                                    distinct.insert(k.private.clone());
                                    named.insert((s, k.path.clone()));
                                }
                                let (wa, wb): (Vec<_>, Vec<_>) = (start..end).map(|i| want[&(s, i)].clone()).unzip();
                                run.eq(|| format!("signing keys: {}", key()), &wa, &a);
                                run.eq(|| format!("withdrawal keys: {}", key()), &wb, &b);
                            }
                            Err(e) => run.fail(key(), || format!("crashed: {e}")),
                        }
                    }
                }
            }
        }
    }
    run.eq(|| "different paths and seeds give different keys".into(), &named.len(), &distinct.len());
    run.sample(|| format!("{:?}", want[&(2, 0)].0));
    run.part("ranges");
    // the program: from the phrase to the keys it writes keystores for
    let phrase = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
    let seed = seed_of(phrase);
    for (start, end) in run.pick(vec![(0u32, 2u32)], vec![(0, 0), (0, 1), (0, 3), (7, 9), (u32::MAX - 1, u32::MAX)]) {
        run.state();
        run.trace();
        run.transition();
        let out = ec(&["validator", "generate-lighthouse-keystores", phrase, &start.to_string(), &end.to_string()], b"");
        let got: Result<Vec<(String, String)>, String> = out.and_then(|o| {
            let v: Vec<Value> = serde_json::from_slice(&o).map_err(|e| e.to_string())?;
            v.iter().map(|k| open(k).map(|o| (o.path, hex::encode(o.secret)))).collect()
        });
        let want: Vec<(String, String)> = (start..end).map(|i| (format!("m/12381/3600/{i}/0/0"), hex::encode(validator(&seed, i).0))).collect();
        run.eq(|| format!("ec keystores {start} {end}"), &Ok(want), &got);
    }
    run.part("the program");
}

/// BIP-39: the seed of a phrase without passphrase.
fn seed_of(phrase: &str) -> Vec<u8> {
    let mut u = hkdf::hmac::<Sha512>(phrase.as_bytes(), &[b"mnemonic", &[0, 0, 0, 1]]);
    let mut t = u.clone();
    for _ in 1..2048 {
        u = hkdf::hmac::<Sha512>(phrase.as_bytes(), &[&u]);
        t.iter_mut().zip(&u).for_each(|(a, b)| *a ^= b);
    }
    t
}

// ---- EIP-2335

struct Opened {
    path: String,
    public: String,
    secret: Vec<u8>,
    salt: Vec<u8>,
    iv: Vec<u8>,
    uuid: String,
    password: String,
    keystore: Value,
}

fn bytes(v: &Value, len: Option<usize>) -> Result<Vec<u8>, String> {
    let s = v.as_str().ok_or(format!("{v} is no text"))?;
    let b = hex::decode(s).map_err(|e| format!("{s}: {e}"))?;
    match len {
        Some(l) if l != b.len() => Err(format!("{s} is not of {l} bytes")),
        _ => Ok(b),
    }
}

/// A decryption by the text of EIP-2335, which also reads the document strictly.
fn decrypt(k: &Value, password: &str) -> Result<Vec<u8>, String> {
    let c = &k["crypto"];
    let names = |v: &Value, want: &[&str]| {
        let mut have: Vec<String> = v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
        have.sort();
        let mut want: Vec<String> = want.iter().map(|s| s.to_string()).collect();
        want.sort();
        (have == want).then_some(()).ok_or(format!("fields {have:?}"))
    };
    names(c, &["checksum", "cipher", "kdf"])?;
    for m in ["checksum", "cipher", "kdf"] {
        names(&c[m], &["function", "message", "params"])?;
    }
    let f = (c["kdf"]["function"].as_str(), c["checksum"]["function"].as_str(), c["cipher"]["function"].as_str());
    if f != (Some("scrypt"), Some("sha256"), Some("aes-128-ctr")) {
        return Err(format!("functions {f:?}"))
    }
    let p = &c["kdf"]["params"];
    names(p, &["dklen", "n", "p", "r", "salt"])?;
    names(&c["cipher"]["params"], &["iv"])?;
    names(&c["checksum"]["params"], &[])?;
    if c["kdf"]["message"] != "" {
        return Err(format!("message of the kdf: {}", c["kdf"]["message"]))
    }
    let num = |n: &str| p[n].as_u64().ok_or(format!("{n} is {}", p[n]));
    let n = num("n")?;
    if num("dklen")? != 32 || !n.is_power_of_two() || n < 2 {
        return Err(format!("parameters {p}"))
    }
    let salt = bytes(&p["salt"], None)?;
    let params = scrypt::Params::new(n.trailing_zeros() as u8, num("r")? as u32, num("p")? as u32, 32).map_err(|_| format!("parameters {p}"))?;
    let mut dk = [0u8; 32];
    scrypt::scrypt(password.as_bytes(), &salt, &params, &mut dk).map_err(|_| "scrypt".to_string())?;
    let message = bytes(&c["cipher"]["message"], Some(32))?;
    let checksum = bytes(&c["checksum"]["message"], Some(32))?;
    if Sha256::new().chain_update(&dk[16..]).chain_update(&message).finalize()[..] != checksum[..] {
        return Err("checksum".into())
    }
    // counter mode: the counter is the whole block
    let iv = bytes(&c["cipher"]["params"]["iv"], Some(16))?;
    let aes = aes::Aes128::new_from_key(dk[..16].try_into().unwrap());
    let start = u128::from_be_bytes(iv.try_into().unwrap());
    let mut out = vec![];
    for (i, b) in message.chunks(16).enumerate() {
        let s = aes.encrypt(&start.wrapping_add(i as u128).to_be_bytes());
        out.extend(b.iter().zip(s).map(|(a, b)| a ^ b));
    }
    Ok(out)
}

/// The document the program writes for one key: a keystore, as text, and its password.
fn open(doc: &Value) -> Result<Opened, String> {
    let text = doc["voting_keystore"].as_str().ok_or("voting_keystore is no text")?;
    let password = doc["voting_keystore_password"].as_str().ok_or("voting_keystore_password is no text")?.to_string();
    let k: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    for (name, v) in k.as_object().ok_or("no object")? {
        let ok = match name.as_str() {
            "crypto" => v.is_object(),
            "path" | "uuid" | "pubkey" | "description" | "name" => v.is_string(),
            "version" => v.as_u64() == Some(4),
            _ => false,
        };
        if !ok {
            return Err(format!("{name}: {v}"))
        }
    }
    let field = |n: &str| k[n].as_str().map(|s| s.to_string()).ok_or(format!("no {n}"));
    if k["version"] != 4 {
        return Err("no version".into())
    }
    let uuid = field("uuid")?;
    let form: Vec<usize> = uuid.split('-').map(|p| if p.bytes().all(|c| c.is_ascii_hexdigit()) { p.len() } else { 0 }).collect();
    if form != [8, 4, 4, 4, 12] || &uuid[14..15] != "4" {
        return Err(format!("uuid {uuid}"))
    }
    let secret = decrypt(&k, &password)?;
    Ok(Opened {
        path: field("path")?,
        public: field("pubkey")?,
        secret,
        salt: bytes(&k["crypto"]["kdf"]["params"]["salt"], None)?,
        iv: bytes(&k["crypto"]["cipher"]["params"]["iv"], None)?,
        uuid,
        password,
        keystore: k,
    })
}

fn key_pair(sk: &Sk, path: &str) -> KeyPair {
    let private_key = ethereum_consensus::crypto::SecretKey::try_from(&sk[..]).unwrap();
    let public_key = private_key.public_key();
    KeyPair { private_key, public_key, path: path.to_string() }
}

fn secrets() -> Vec<Sk> {
    let mut last = R;
    last[31] = 0;
    let mut one = [0; 32];
    one[31] = 1;
    let mut low = [0; 32];
    low[0] = 0x10;
    let eip = hex::decode("000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f").unwrap().try_into().unwrap();
    vec![one, eip, low, last, hkdf_mod_r(b"another key"), hkdf_mod_r(b"yet another key")]
}

fn source(f: impl Fn(&mut [u8]) + Send + Sync + 'static) {
    *scrypt::control::RANDOM.lock().unwrap() = Some(Arc::new(f));
}

pub fn c39(run: &Run) {
    run.assume("scrypt, AES, SHA-256 and HKDF are the stand-ins, checked against published vectors; the cost of scrypt is lowered where a case says so, by the parameters the library calls recommended");
    run.assume("passphrases are those the program generates: its interface takes none");
    let v: Value = serde_json::json!({"crypto": {
        "kdf": {"function": "scrypt", "params": {"dklen": 32, "n": 262144, "p": 1, "r": 8, "salt": "d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb8fa3"}, "message": ""},
        "checksum": {"function": "sha256", "params": {}, "message": "d2217fe5f3e9a1e34581ef8a78f7c9928e436d36dacc5e846690a5581e8ea484"},
        "cipher": {"function": "aes-128-ctr", "params": {"iv": "264daa3f303d7259501c93d997d84fe6"}, "message": "06ae90d55fe0a6e9c5c3bc5b170827b2e5cce3929ed3f116c2811e6366dfe20f"}}});
    assert_eq!(decrypt(&v, "testpassword\u{1f511}").map(hex::encode), Ok(hex::encode(secrets()[1])), "the reference opens the published keystore");
    let keys = secrets();
    let run_one = |threads: usize, picks: &[usize], label: &str| -> Vec<Opened> {
        run.state();
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let pairs: Vec<KeyPair> = picks.iter().enumerate().map(|(i, k)| key_pair(&keys[*k], &format!("m/12381/3600/{i}/0/0"))).collect();
        let want: Vec<(String, String, String)> =
            picks.iter().enumerate().map(|(i, k)| (format!("m/12381/3600/{i}/0/0"), hex::encode(public(&keys[*k])), hex::encode(keys[*k]))).collect();
        let docs = match guard(|| pool.install(|| serde_json::to_value(keystores::generate(pairs)))) {
            Ok(Ok(Value::Array(d))) => d,
            r => {
                run.fail(format!("keystores {label} {picks:?}"), || format!("no list of keystores: {:?}", r.map(|_| ())));
                return vec![]
            }
        };
        run.transition();
        run.trace();
        let opened: Vec<Result<Opened, String>> = docs.iter().map(open).collect();
        let got: Vec<Result<(String, String, String), String>> =
            opened.iter().map(|o| o.as_ref().map(|o| (o.path.clone(), o.public.clone(), hex::encode(&o.secret))).map_err(|e| e.clone())).collect();
        run.eq(|| format!("keystores {label} {picks:?}"), &want.into_iter().map(Ok).collect(), &got);
        opened.into_iter().flatten().collect()
    };
    // as generated, at full cost
    let full = run_one(8, &(0..keys.len()).collect::<Vec<_>>(), "at full cost");
    for o in &full {
        let n = o.keystore["crypto"]["kdf"]["params"]["n"].as_u64().unwrap_or(0);
        run.eq(|| "the cost of the key derivation is that recommended".into(), &true, &(n >= 1 << 17));
    }
    run.part("at full cost");
    scrypt::control::LOG_N.store(2, SeqCst);
    // every list of keys, in every order, over pools of each size
    let longest = run.pick(3usize, 4);
    run.bound(format!("all lists of up to {longest} of {} keys (the least, the greatest and that of the published vector among them), on pools of 1 to 4 threads", keys.len()));
    let (mut salts, mut ivs, mut ids, mut passwords, mut count) = (HashSet::new(), HashSet::new(), HashSet::new(), HashSet::new(), 0usize);
    let mut sample = vec![];
    for n in 0..=longest {
        for picks in mc::tuples(n, keys.len()) {
            for threads in 1..=run.pick(2usize, 4) {
                for o in run_one(threads, &picks, "of") {
                    count += 1;
                    salts.insert(o.salt.clone());
                    ivs.insert(o.iv.clone());
                    ids.insert(o.uuid.clone());
                    passwords.insert(o.password.clone());
                    if sample.len() < run.pick(12, 40) {
                        sample.push(o);
                    }
                }
            }
        }
    }
    for (what, n) in [("salts", salts.len()), ("initialisation vectors", ivs.len()), ("identifiers", ids.len()), ("passphrases", passwords.len())] {
        run.eq(|| format!("no two share {what}"), &count, &n);
    }
    run.part("lists of keys");
    // every other passphrase, and every change of what is stored
    mc::parallel(&sample, |o| {
        let mut others: Vec<String> = vec![String::new(), format!("{} ", o.password), o.password.to_uppercase() + "x", o.password.chars().rev().collect::<String>() + "0"];
        for i in 0..o.password.len() {
            let mut cut = o.password.clone();
            cut.remove(i);
            others.push(cut);
            for c in run.pick("0f", "0123456789abcdefg").chars() {
                let mut p: Vec<char> = o.password.chars().collect();
                if p[i] != c {
                    p[i] = c;
                    others.push(p.iter().collect());
                }
            }
        }
        for p in others {
            if p == o.password {
                continue
            }
            run.state();
            run.transition();
            run.eq(|| format!("passphrase {p} for {}", o.password), &Err("checksum".to_string()), &decrypt(&o.keystore, &p).map(hex::encode));
        }
        for (at, len) in [("/crypto/kdf/params/salt", o.salt.len()), ("/crypto/checksum/message", 32), ("/crypto/cipher/message", 32)] {
            for bit in 0..len * 8 {
                run.state();
                run.transition();
                let mut k = o.keystore.clone();
                let v = k.pointer_mut(at).unwrap();
                let mut b = bytes(v, None).unwrap();
                b[bit / 8] ^= 1 << (bit % 8);
                *v = hex::encode(b).into();
                run.eq(|| format!("bit {bit} of {at}"), &Err("checksum".to_string()), &decrypt(&k, &o.password).map(hex::encode));
            }
        }
    });
    run.part("other passphrases and documents");
    // whatever the source of randomness gives
    let ends: Vec<[u8; 16]> = {
        let mut v = vec![[0u8; 16], [0xff; 16]];
        for n in [1usize, 4, 8, 12, 15] {
            let mut b = [0u8; 16];
            b[16 - n..].fill(0xff);
            v.push(b);
            b[15] = 0xfe;
            v.push(b);
        }
        v
    };
    run.bound(format!("random bytes: every 16 bytes drawn are one of {} patterns whose counter overflows its last 1, 4, 8, 12, 15 or 16 bytes at once or after a block", ends.len()));
    for e in &ends {
        let e = *e;
        source(move |b| b.iter_mut().enumerate().for_each(|(i, x)| *x = e[i % 16]));
        for k in 0..keys.len() {
            run_one(1, &[k], &format!("with random bytes {}", hex::encode(e)));
        }
    }
    run.part("patterns of random bytes");
    *scrypt::control::RANDOM.lock().unwrap() = None;
}
