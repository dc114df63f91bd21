//! Well-known addresses.
use crate::svm::Key;
use solana_program::pubkey::Pubkey;
use std::str::FromStr;
use std::sync::OnceLock;

fn k(s: &str) -> Key {
    Pubkey::from_str(s).unwrap().to_bytes()
}
macro_rules! id {
    ($n:ident, $s:literal) => {
        pub fn $n() -> Key {
            static C: OnceLock<Key> = OnceLock::new();
            *C.get_or_init(|| k($s))
        }
    };
}
id!(asset, "AssetGtQBTSgm5s91d1RAQod5JmaZiJDxqsgtqrZud73");
id!(bridge, "BridgezKrNugsZwTcyAMYba643Z93RzC2yN1Y24LwAkm");
id!(proxy, "Proxy11111111111111111111111111111111111111");
id!(token_metadata, "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
id!(token, "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
id!(token22, "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
id!(ata, "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
id!(auth_rules, "auth9SigNpDKz4sJJ1DfCTuZrZNSAgh9sFD3rboVmgg");
id!(sysvar_ix, "Sysvar1nstructions1111111111111111111111111");

thread_local! {
    static CACHE: std::cell::RefCell<std::collections::HashMap<(Vec<u8>, Key), (Key, u8)>> = Default::default();
}
pub fn pda(seeds: &[&[u8]], program: &Key) -> (Key, u8) {
    let mut k = vec![];
    for s in seeds {
        k.push(s.len() as u8);
        k.extend(*s);
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 2000 {
            c.clear();
        }
        *c.entry((k, *program)).or_insert_with(|| {
            let (p, b) = Pubkey::find_program_address(seeds, &Pubkey::from(*program));
            (p.to_bytes(), b)
        })
    })
}
