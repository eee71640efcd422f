//! C05 and C06: signature domain types and fork names.
use h_light::{domains::DomainType, Fork};
use mc::{guard, Run};

fn main() {
    mc::main(&[("C05", domains), ("C06", forks)])
}

fn domains(run: &Run) {
    use DomainType::*;
    // The values of the consensus specification (and, for the builder, of the builder one).
    let table: &[(&str, DomainType, [u8; 4])] = &[
        ("beacon proposer", BeaconProposer, [0x00, 0, 0, 0]),
        ("beacon attester", BeaconAttester, [0x01, 0, 0, 0]),
        ("randao", Randao, [0x02, 0, 0, 0]),
        ("deposit", Deposit, [0x03, 0, 0, 0]),
        ("voluntary exit", VoluntaryExit, [0x04, 0, 0, 0]),
        ("selection proof", SelectionProof, [0x05, 0, 0, 0]),
        ("aggregate and proof", AggregateAndProof, [0x06, 0, 0, 0]),
        ("sync committee", SyncCommittee, [0x07, 0, 0, 0]),
        ("sync committee selection proof", SyncCommitteeSelectionProof, [0x08, 0, 0, 0]),
        ("contribution and proof", ContributionAndProof, [0x09, 0, 0, 0]),
        ("credential change", BlsToExecutionChange, [0x0a, 0, 0, 0]),
        ("consolidation", Consolidation, [0x0b, 0, 0, 0]),
        ("application mask", ApplicationMask, [0, 0, 0, 1]),
        ("application builder", ApplicationBuilder, [0, 0, 0, 1]),
    ];
    run.bound("every kind of signed message and every ordered pair of kinds");
    for (name, domain, want) in table {
        run.state();
        run.eq(|| format!("domain of {name}"), &Ok(*want), &guard(|| domain.as_bytes()));
        // The result depends on the kind alone.
        let copy = *domain;
        run.eq(|| format!("domain of {name}, again"), &Ok(*want), &guard(|| copy.as_bytes()));
        run.trace();
    }
    let consensus = &table[..12];
    for (i, (n1, d1, _)) in consensus.iter().enumerate() {
        for (j, (n2, d2, _)) in table.iter().enumerate() {
            run.eq(|| format!("domains of {n1} and {n2} equal"), &Ok(i == j), &guard(|| d1.as_bytes() == d2.as_bytes()));
        }
    }
    run.part("domain types");
}

fn forks(run: &Run) {
    use Fork::*;
    let table = [
        ("phase0", Phase0),
        ("altair", Altair),
        ("bellatrix", Bellatrix),
        ("capella", Capella),
        ("deneb", Deneb),
        ("electra", Electra),
    ];
    run.bound("every fork; every deletion, insertion, substitution (over a-z, A-Z, 0-9, space and underscore), case change and truncation of every fork's name; every other form of document");
    let name_of = |f: Fork| match f {
        Phase0 => "phase0",
        Altair => "altair",
        Bellatrix => "bellatrix",
        Capella => "capella",
        Deneb => "deneb",
        Electra => "electra",
    };
    let read = |json: &str| -> Vec<(&'static str, Result<Option<&'static str>, String>)> {
        vec![
            ("text", guard(|| serde_json::from_str::<Fork>(json).ok().map(name_of))),
            ("reader", guard(|| serde_json::from_reader::<_, Fork>(json.as_bytes()).ok().map(name_of))),
            (
                "tree",
                guard(|| {
                    let v: serde_json::Value = serde_json::from_str(json).ok()?;
                    serde_json::from_value::<Fork>(v).ok().map(name_of)
                }),
            ),
        ]
    };
    let mut tried = std::collections::HashSet::new();
    for (name, fork) in table {
        run.state();
        run.eq(|| format!("display {name}"), &Ok(name.to_string()), &guard(|| fork.to_string()));
        let json = format!("\"{name}\"");
        run.eq(|| format!("serialize {name}"), &Ok(json.clone()), &guard(|| serde_json::to_string(&fork).unwrap()));
        for (how, got) in read(&json) {
            run.eq(|| format!("deserialize {name} from {how}"), &Ok(Some(name)), &got);
        }
        run.trace();
        let chars: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain([' ', '_']).collect();
        let n: Vec<char> = name.chars().collect();
        let mut texts = vec![name.to_uppercase(), String::new(), format!("{}{}", name[..1].to_uppercase(), &name[1..])];
        for i in 0..=n.len() {
            for c in &chars {
                let mut t = n.clone();
                t.insert(i, *c);
                texts.push(t.iter().collect());
                if i < n.len() {
                    t.remove(i + 1);
                    texts.push(t.iter().collect());
                }
            }
            texts.push(n[..i].iter().collect());
            if i < n.len() {
                let mut t = n.clone();
                t.remove(i);
                texts.push(t.iter().collect());
            }
        }
        for text in texts {
            if !tried.insert(text.clone()) {
                continue;
            }
            run.state();
            let want = table.iter().find(|t| t.0 == text).map(|t| t.0);
            for (how, got) in read(&format!("\"{text}\"")) {
                run.eq(|| format!("name {text:?} from {how}"), &Ok(want), &got);
            }
        }
    }
    for json in ["0", "5", "null", "[]", "{}", "[\"phase0\"]", "true", ""] {
        run.state();
        for (how, got) in read(json) {
            run.eq(|| format!("document {json} from {how}"), &Ok(None), &got);
        }
    }
    run.part("fork names");
}
