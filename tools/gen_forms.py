#!/usr/bin/env python3
"""Writes harness/clientmon/src/forms.rs: every way the generated client code offers to express
each instruction, from a table of accounts and arguments written by hand from the program's
documentation (not read from the clients)."""
import os
# name, accounts (o = optional, S = signature up to the caller), arguments
ASSET = [
 ("Close", "Op::Close", ["buffer", "recipient"], []),
 ("Burn", "Op::Burn", ["asset", "signer", "o:recipient", "o:group"], []),
 ("Create", "Op::Create { name, standard, mutable, exts }", ["asset", "S:authority", "owner", "o:group", "o:group_authority", "o:payer", "o:system_program"],
  [("name", "name.clone()", ""), ("standard", "standard_of(*standard)", "*standard == 0"), ("mutable", "*mutable", "*mutable"),
   ("extensions", "exts.as_ref().map(|v| v.iter().map(ext_of).collect())", "OPT")]),
 ("Approve", "Op::Approve(d)", ["asset", "owner", "delegate"], [("delegate_input", "del_of(d)", "")]),
 ("Allocate", "Op::Allocate(e)", ["asset", "o:payer", "o:system_program"], [("extension", "ext_of(e)", "")]),
 ("Lock", "Op::Lock", ["asset", "signer"], []),
 ("Revoke", "Op::Revoke(d)", ["asset", "signer"], [("delegate_input", "del_of(d)", "")]),
 ("Transfer", "Op::Transfer", ["asset", "signer", "recipient", "o:group"], []),
 ("Unlock", "Op::Unlock", ["asset", "signer"], []),
 ("Unverify", "Op::Unverify", ["asset", "creator"], []),
 ("Update", "Op::Update { name, mutable, ext }", ["asset", "authority", "o:buffer", "o:group", "o:payer", "o:system_program"],
  [("name", "name.clone()", "OPT"), ("mutable", "*mutable", "OPT"), ("extension", "ext.as_ref().map(ext_of)", "OPT")]),
 ("Verify", "Op::Verify", ["asset", "creator"], []),
 ("Write", "Op::Write { overwrite, bytes }", ["asset", "payer", "system_program"], [("overwrite", "*overwrite", ""), ("bytes", "bytes.clone()", "")]),
 ("Group", "Op::Group", ["asset", "group", "authority"], []),
 ("Ungroup", "Op::Ungroup", ["asset", "group", "authority"], []),
 ("Handover", "Op::Handover", ["asset", "authority", "new_authority"], []),
 ("Remove", "Op::Remove(t)", ["asset", "authority", "o:group", "recipient"], [("extension_type", "type_of(*t)", "")]),
 ("Resize", "Op::Trim | Op::Extend(_)", ["asset", "authority", "S:payer", "o:system_program"], [("strategy", "strategy_of(op)", "")]),
]
BRIDGE = [
 ("Bridge", "BOp::Bridge", ["asset", "vault", "owner", "token", "mint", "metadata", "master_edition", "o:token_record", "vault_token", "o:vault_token_record", "payer",
   "nifty_asset_program", "token_metadata_program", "system_program", "sysvar_instructions", "spl_token_program", "spl_ata_program",
   "o:authorization_rules_program", "o:authorization_rules", "o:group_asset"], []),
 ("Create", "BOp::Create(c)", ["asset", "vault", "mint", "metadata", "S:update_authority", "o:collection", "payer", "system_program", "nifty_asset_program"],
  [("is_collection", "*c", "")]),
]
ASSET_DEF = {("Write", "system_program"): "SYS"}
BRIDGE_DEF = {("Bridge", "token_metadata_program"): "TM", ("Bridge", "system_program"): "SYS", ("Bridge", "sysvar_instructions"): "SYSVAR", ("Bridge", "spl_token_program"): "TOKEN",
  ("Bridge", "spl_ata_program"): "ATA", ("Create", "system_program"): "SYS", ("Create", "nifty_asset_program"): "ASSET", ("Bridge", "nifty_asset_program"): "ASSET"}

def gen(table, optype, defaults):
    o = []
    w = o.append
    w(f"        pub fn build<'a>(op: &{optype}, i: &In<'_, 'a>, form: u8, style: u8) -> Result<Option<Instruction>, ProgramError> {{")
    w("            let metas: Vec<AccountMeta> = i.rem.iter().map(|r| AccountMeta { pubkey: r.0, is_signer: r.2, is_writable: r.1 }).collect();")
    w("            match op {")
    for name, pat, accs, args in table:
        w(f"                {pat} => {{")
        def acc(j, a, kind):
            base = f"i.{kind}[{j}]"
            if a.startswith("o:"):
                return f"{a[2:]}: {base}"
            if a.startswith("S:"):
                return f"{a[2:]}: ({base}.unwrap(), i.s[{j}])"
            return f"{a}: {base}.unwrap()"
        argst = f"ci::{name}InstructionArgs {{ {', '.join(f'{n}: {e}' for n, e, _ in args)} }}" if args else ""
        key_fields = ", ".join(acc(j, a, "k") for j, a in enumerate(accs))
        info_fields = ", ".join(acc(j, a, "info") for j, a in enumerate(accs))
        w("                    match form {")
        w(f"                        0 => {{ let x = ci::{name} {{ {key_fields} }};")
        w(f"                            Ok(Some(if style & 1 == 0 && metas.is_empty() {{ x.instruction({argst}) }} else {{ x.instruction_with_remaining_accounts({argst + ', ' if args else ''}&metas) }})) }}")
        def setters(kind):
            s = []
            for rnd in (0, 1):
                blk = []
                for j, a in enumerate(accs):
                    n = a.split(":")[-1]
                    base = f"i.{kind}[{j}]"
                    other = "JUNK" if kind == "k" else "i.program"
                    dflt = defaults.get((name, n))
                    if a.startswith("o:"):
                        blk.append(f"b.{n}({base});" if rnd else f"b.{n}(Some({other}));")
                    elif a.startswith("S:"):
                        blk.append(f"b.{n}({base}.unwrap(), i.s[{j}]);" if rnd else f"b.{n}({other}, !i.s[{j}]);")
                    elif rnd and dflt and kind == "k":
                        blk.append(f"if style & 2 == 0 || style & 1 != 0 || i.k[{j}].unwrap() != {dflt} {{ b.{n}({base}.unwrap()); }}")
                    else:
                        blk.append(f"b.{n}({base}.unwrap());" if rnd else f"b.{n}({other});")
                if rnd:
                    for n, e, d in args:
                        if d == "OPT":
                            blk.append(f"if let Some(v) = {e} {{ b.{n}(v); }}")
                        elif d:
                            blk.append(f"if !({d}) || style & 2 == 0 {{ b.{n}({e}); }}")
                        else:
                            blk.append(f"b.{n}({e});")
                    s.append(" ".join(blk))
                else:
                    s.append("if style & 1 != 0 { " + " ".join(blk) + " }")
            return " ".join(s)
        w(f"                        1 => {{ let mut b = ci::{name}Builder::new(); {setters('k')}")
        w("                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }")
        w("                            let _ = b.instruction();")
        w("                            Ok(Some(b.instruction())) }")
        w(f"                        2 => {{ let x = ci::{name}Cpi::new(i.program, ci::{name}CpiAccounts {{ {info_fields} }}{', ' + argst if args else ''});")
        w("                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }")
        w("                            Ok(None) }")
        w(f"                        _ => {{ let mut b = ci::{name}CpiBuilder::new(i.program); {setters('info')}")
        w("                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }")
        w("                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }")
        w("                            Ok(None) }")
        w("                    }")
        w("                }")
    w("            }")
    w("        }")
    return "\n".join(o)

HEAD = '''//! Written by tools/gen_forms.py.
use crate::client::*;
use monitor::model::{DelIn, ExtIn, Op};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;

macro_rules! forms {
    ($m:ident, $ci:path, $ct:path) => {
    pub mod $m {
        use super::*;
        use $ci as ci;
        use $ct as ct;
        pub fn standard_of(s: u8) -> ct::Standard {
            match s { 0 => ct::Standard::NonFungible, 1 => ct::Standard::Managed, 2 => ct::Standard::Soulbound, _ => ct::Standard::Proxied }
        }
        pub fn type_of(t: u8) -> ct::ExtensionType {
            match t { 0 => ct::ExtensionType::None, 1 => ct::ExtensionType::Attributes, 2 => ct::ExtensionType::Blob, 3 => ct::ExtensionType::Creators, 4 => ct::ExtensionType::Links,
                5 => ct::ExtensionType::Metadata, 6 => ct::ExtensionType::Grouping, 7 => ct::ExtensionType::Royalties, 8 => ct::ExtensionType::Manager, 9 => ct::ExtensionType::Proxy,
                10 => ct::ExtensionType::Properties, _ => ct::ExtensionType::Bucket }
        }
        pub fn role_of(r: u8) -> ct::DelegateRole {
            match r { 0 => ct::DelegateRole::None, 1 => ct::DelegateRole::Transfer, 2 => ct::DelegateRole::Lock, _ => ct::DelegateRole::Burn }
        }
        pub fn ext_of(e: &ExtIn) -> ct::ExtensionInput {
            ct::ExtensionInput { extension_type: type_of(e.ty), length: e.len, data: e.data.clone() }
        }
        pub fn del_of(d: &DelIn) -> ct::DelegateInput {
            match d { DelIn::All => ct::DelegateInput::All, DelIn::Some(r) => ct::DelegateInput::Some { roles: r.iter().map(|r| role_of(*r)).collect() } }
        }
        pub fn strategy_of(op: &Op) -> ct::Strategy {
            match op { Op::Extend(v) => ct::Strategy::Extend { value: *v }, _ => ct::Strategy::Trim }
        }
'''
out = HEAD + gen(ASSET, "Op", ASSET_DEF) + '''
    }
    };
}
forms!(client, nifty_asset::instructions, nifty_asset::types);
forms!(interface, nifty_asset_interface::instructions, nifty_asset_interface::types);

pub mod bridge {
        use super::*;
        use nifty_bridge::instructions as ci;
''' + gen(BRIDGE, "BOp", BRIDGE_DEF) + "\n}\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "clientmon", "src", "forms.rs"), "w").write(out)
