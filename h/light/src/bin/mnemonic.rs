//! C07: mnemonics and seeds.
use h_light::mnemonic as real;
use mc::{guard, Run};
use sha2::{Digest, Sha256, Sha512};
use std::collections::HashMap;

fn main() {
    mc::main(&[("C07", mnemonics)])
}

// --- the reference: BIP-39 written out

fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 64] {
    let mut k = [0u8; 128];
    if key.len() > 128 {
        k[..64].copy_from_slice(&Sha512::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let pad = |x: u8| k.iter().map(|b| b ^ x).collect::<Vec<u8>>();
    let mut inner = Sha512::new();
    inner.update(pad(0x36));
    for p in parts {
        inner.update(p);
    }
    let mut outer = Sha512::new();
    outer.update(pad(0x5c));
    outer.update(inner.finalize());
    outer.finalize().into()
}

fn model_seed(phrase: &str, passphrase: &str) -> [u8; 64] {
    let salt = format!("mnemonic{passphrase}");
    let mut u = hmac(phrase.as_bytes(), &[salt.as_bytes(), &[0, 0, 0, 1]]);
    let mut out = u;
    for _ in 1..2048 {
        u = hmac(phrase.as_bytes(), &[&u]);
        for (o, x) in out.iter_mut().zip(u) {
            *o ^= x;
        }
    }
    out
}

struct Words {
    list: Vec<&'static str>,
    index: HashMap<&'static str, usize>,
}

impl Words {
    fn bits(&self, words: &[&str]) -> Option<Vec<bool>> {
        let mut bits = vec![];
        for w in words {
            let i = *self.index.get(w)?;
            bits.extend((0..11).rev().map(|b| i >> b & 1 == 1));
        }
        Some(bits)
    }
    fn valid(&self, words: &[&str]) -> bool {
        if !matches!(words.len(), 12 | 15 | 18 | 21 | 24) {
            return false;
        }
        let Some(bits) = self.bits(words) else { return false };
        let check = bits.len() / 33;
        let (entropy, sum) = bits.split_at(bits.len() - check);
        let bytes: Vec<u8> =
            entropy.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
        let h = Sha256::digest(&bytes);
        sum.iter().enumerate().all(|(i, b)| (h[i / 8] >> (7 - i % 8) & 1 == 1) == *b)
    }
    fn phrase(&self, entropy: &[u8]) -> String {
        let h = Sha256::digest(entropy);
        let mut bits: Vec<bool> =
            entropy.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
        for i in 0..entropy.len() / 4 {
            bits.push(h[i / 8] >> (7 - i % 8) & 1 == 1);
        }
        bits.chunks(11)
            .map(|c| self.list[c.iter().fold(0, |a, b| a << 1 | *b as usize)])
            .collect::<Vec<_>>()
            .join(" ")
    }
}

fn recover(phrase: &str) -> Result<Option<String>, String> {
    guard(|| real::recover_from_phrase(phrase).ok().map(|m| m.to_string()))
}

fn check_phrase(run: &Run, w: &Words, words: &[&str]) {
    run.state();
    let phrase = words.join(" ");
    let want = w.valid(words).then(|| phrase.clone());
    run.eq(|| format!("phrase {phrase:?}"), &Ok(want), &recover(&phrase));
}

fn mnemonics(run: &Run) {
    // The word list is bip39's own; its digest is the published one's first and last entries.
    let list: Vec<&'static str> = bip39::Language::English.word_list().to_vec();
    assert!(list.len() == 2048 && list[0] == "abandon" && list[2047] == "zoo");
    let index = list.iter().enumerate().map(|(i, w)| (*w, i)).collect();
    let w = Words { list, index };
    run.assume("phrases are in the English word list, and passphrases in normalised form (normalisation is the bip39 crate's)");

    let mut bases = vec![];
    for (n, fill) in [(16, 0u8), (20, 0xff), (24, 0x5a), (28, 0x80), (32, 0x00), (32, 0xff), (32, 0x37)] {
        let e: Vec<u8> = (0..n).map(|i| if fill == 0x37 { (i * 41 + 3) as u8 } else { fill }).collect();
        bases.push(w.phrase(&e));
    }
    run.bound("7 base phrases of 12, 15, 18, 21 and 24 words: every word replaced by every word of the list at the first, a middle and the last place; every swap of two words; every length up to 26; misspelt words");
    for base in &bases {
        let words: Vec<&str> = base.split(' ').collect();
        check_phrase(run, &w, &words);
        let places = run.pick(vec![0, words.len() / 2, words.len() - 1], (0..words.len()).collect());
        for place in places {
            for word in &w.list {
                let mut v = words.clone();
                v[place] = word;
                check_phrase(run, &w, &v);
            }
        }
        for i in 0..words.len() {
            for j in 0..i {
                let mut v = words.clone();
                v.swap(i, j);
                check_phrase(run, &w, &v);
            }
            for bad in ["", "abandonn", "Abandon", "abando", "zzz", "été"] {
                let mut v = words.clone();
                v[i] = bad;
                if bad.is_empty() {
                    v.remove(i);
                }
                check_phrase(run, &w, &v);
            }
        }
        for n in 0..=26 {
            let v: Vec<&str> = words.iter().cycle().take(n).copied().collect();
            check_phrase(run, &w, &v);
        }
        run.trace();
    }
    run.part("phrases");

    let chars = ['a', 'B', ' ', '0'];
    let mut passphrases: Vec<String> = vec![];
    for n in 0..=run.pick(2, 3) {
        for t in mc::tuples(n, chars.len()) {
            passphrases.push(t.iter().map(|i| chars[*i]).collect());
        }
    }
    passphrases.extend(["TREZOR".to_string(), "\u{e9}".into(), "mnemonic".into(), "x".repeat(200)]);
    run.bound(format!("the seeds of {} phrases under no passphrase and {} passphrases", bases.len(), passphrases.len()));
    let published = "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04";
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    // Vector of the BIP itself: the reference derivation is the published one.
    assert_eq!(hex(&model_seed(&bases[0], "TREZOR")), published);
    let cases: Vec<(String, Option<String>)> = bases
        .iter()
        .flat_map(|b| {
            std::iter::once((b.clone(), None)).chain(passphrases.iter().map(|p| (b.clone(), Some(p.clone()))))
        })
        .collect();
    mc::parallel(&cases, |(base, pass)| {
        run.state();
        // NFKD of the one accented passphrase.
        let p = pass.clone().unwrap_or_default().replace('\u{e9}', "e\u{301}");
        let want = model_seed(base, &p);
        let got = guard(|| real::to_seed(real::recover_from_phrase(base).unwrap(), pass.as_deref()));
        run.eq(|| format!("seed of {base:?} with {pass:?}"), &Ok(want), &got);
        run.trace();
    });
    run.part("seeds");

    run.bound("64 generated mnemonics, each recovered; every byte of the entropy varies");
    let mut seen = vec![];
    for i in 0..64 {
        run.state();
        let got = guard(|| real::generate_random_from_system_entropy().map(|m| (m.to_string(), m.to_entropy())).ok());
        let Ok(Some((phrase, entropy))) = got else {
            run.fail(format!("generate {i}"), || format!("{got:?}"));
            continue;
        };
        run.eq(|| format!("generated mnemonic {i}: words"), &24, &phrase.split(' ').count());
        run.eq(|| format!("generated mnemonic {i}: entropy bytes"), &32, &entropy.len());
        run.eq(|| format!("generated mnemonic {i}: valid"), &true, &w.valid(&phrase.split(' ').collect::<Vec<_>>()));
        run.eq(|| format!("generated mnemonic {i}: recovers"), &Ok(Some(phrase.clone())), &recover(&phrase));
        run.eq(|| format!("generated mnemonic {i}: fresh"), &false, &seen.contains(&entropy));
        seen.push(entropy);
        run.trace();
    }
    for b in 0..32 {
        for bit in 0..8 {
            let ones = seen.iter().filter(|e| e.get(b).is_some_and(|x| x >> bit & 1 == 1)).count();
            run.eq(|| format!("entropy bit {bit} of byte {b} varies"), &true, &(ones > 0 && ones < seen.len()));
        }
    }
    run.part("generation");
}
