use nifty_asset_types::extensions::ExtensionType;
use nifty_asset_types::podded::pod::Nullable;
use nifty_asset_types::state::*;
use runner::Case;

/// Small conversions, exhaustively.
pub fn case(c: &mut Case) {
    for v in 0..=if cfg!(miri) { 15 } else { 255u8 } {
        let t = ExtensionType::try_from(v as u32);
        c.check(t.is_ok() == (v <= 11) && t.map_or(true, |t| u32::from(t) == v as u32 && t as u8 == v), "P20 P11", || format!("extension type {v} does not survive conversion"));
        let s = c.run("standard", "P20 P07", || Standard::from(v));
        c.check(s.is_ok() == (v < 4) && s.map_or(true, |s| u8::from(s) == v), "P20 P07", || format!("standard {v} does not survive conversion"));
        let s = c.run("state", "P20 P03", || State::from(v));
        c.check(s.is_ok() == (v < 2) && s.map_or(true, |s| u8::from(s) == v), "P20 P03", || format!("state {v} does not survive conversion"));
        let s = c.run("discriminator", "P20 P18", || Discriminator::from(v));
        c.check(s.is_ok() == (v < 2) && s.map_or(true, |s| u8::from(s) == v), "P20 P18", || format!("discriminator {v} does not survive conversion"));
        let s = c.run("role", "P20 P04", || DelegateRole::from(v));
        c.check(s.is_ok() == (v < 4) && s.map_or(true, |s| u8::from(s) == v), "P20 P04", || format!("role {v} does not survive conversion"));
        c.label("P20", || format!("conversions of {v}"));
    }
    for v in [12u32, 255, 256, 257, 267, 1 << 16, u32::MAX] {
        c.check(ExtensionType::try_from(v).is_err(), "P20 P11", || format!("extension type {v} is taken for a known one"));
    }
    let all = [DelegateRole::None, DelegateRole::Transfer, DelegateRole::Lock, DelegateRole::Burn];
    c.check(all.map(|r| r.mask()) == [0, 1, 2, 4], "P20 P04", || "role masks differ".into());
    c.check(Delegate::ALL_ROLES_MASK == 7, "P20 P04", || "mask of all roles differs".into());
    for m in 0..8u8 {
        let mut e: Vec<DelegateRole> = (1..4).filter(|i| m >> (i - 1) & 1 == 1).map(|i| all[i as usize]).collect();
        if e.is_empty() {
            e.push(DelegateRole::None);
        }
        let g = Delegate::decode_roles(m);
        c.check(g == e, "P20 P04 P22", || format!("roles {m:03b} decode as {g:?}"));
        for r in all {
            let d = Delegate { roles: m, ..Default::default() };
            let (mut on, mut off) = (d, d);
            on.enable(r);
            off.disable(r);
            c.check(d.is_active(r) == (m & r.mask() != 0) && on.roles == m | r.mask() && off.roles == m & !r.mask(), "P20 P04", || format!("role {r:?} of {m:03b} is handled wrongly"));
            c.check(d.has_active_roles() == (m > 0) && d.is_none(), "P20 P04", || format!("delegate {m:03b} is summarised wrongly"));
        }
    }
    let ok = ExtensionType::try_from(256u32 + 3).is_err();
    c.check(ok, "P20 P11", || "extension type is truncated".into());
}
