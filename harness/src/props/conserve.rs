//! C01: token conservation and solvency over random histories.
use crate::ensure;
use crate::machine::{self, *};
use crate::pbt::*;
use crate::world::*;
use fixed::types::I80F48;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "random histories of 3..43 instructions (34 kinds, 4 accounts, 5 tokens with 2 banks each, 2 perp markets, 1 spot market) from randomised bank/perp parameters and holdings; after every instruction vaults minus all claims is compared with its value before. Non-trivial: at least 4 instructions of the history succeeded",
        assumptions: &["the spot DEX and SPL token are stand-ins (harness/src/dex.rs, sim.rs)", "the sum over positions uses I80F48 arithmetic; drift below 0.01 native units per instruction is attributed to rounding"],
        suites: vec![Suite { name: "history", quick: 12_000, thorough: 600_000, f: history }],
    }
}

/// vault minus everything owed, exactly: must stay (almost) constant
pub fn slack(s: &Snap, t: usize) -> I80F48 {
    let mut x = num(s.v(t, 0)) + num(s.v(t, 1));
    for a in 0..s.accs.len() {
        x -= s.posx(a, t);
    }
    for n in 0..2 {
        let b = s.b(t, n);
        x -= b.collected_fees_native - num(b.fees_withdrawn) + b.dust;
    }
    if t == 0 {
        for p in &s.perps {
            x -= p.fees_settled - num(p.fees_withdrawn);
        }
    }
    x
}

fn history(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut ok = 0;
    let r = machine::run(src, case, &ALL, 40, |_m, b, st, a, case| {
        if st.ok {
            ok += 1;
            case.label(st.k.name());
        }
        for t in 0..5 {
            let (x, y) = (slack(b, t), slack(a, t));
            let d = f(y - x);
            ensure!(d.abs() < 0.01, "token {t}: vaults minus claims {x} -> {y} after {}", st.what);
            case.label(if d.abs() < 1e-6 { "d6" } else if d.abs() < 1e-3 {"d3"} else if d.abs() < 0.01 {"d2"} else {"dbig"});
            if d.abs() > 1e-3 { case.label(st.k.name_err()); }
            // both banks of a token share their indexes; totals match the positions
            let (p, q) = (a.b(t, 0), a.b(t, 1));
            ensure!(p.deposit_index == q.deposit_index && p.borrow_index == q.borrow_index,
                "token {t}: banks disagree on indexes after {}", st.what);
            let (mut dep, mut bor) = (0.0, 0.0);
            for i in 0..a.accs.len() {
                if let Ok(pos) = a.accs[i].token_position(t as u16) {
                    let v = f(pos.indexed_position);
                    if v > 0.0 { dep += v } else { bor -= v }
                }
            }
            let (bd, bb) = (f(p.indexed_deposits) + f(q.indexed_deposits), f(p.indexed_borrows) + f(q.indexed_borrows));
            ensure!(close(dep, bd, 1e-12, 1e-3) && close(bor, bb, 1e-12, 1e-3),
                "token {t}: bank totals {bd}/{bb} but positions sum to {dep}/{bor} after {}", st.what);
        }
        Ok(())
    });
    if ok > 3 {
        case.nontrivial();
    }
    r
}
