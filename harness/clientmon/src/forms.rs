//! Written by tools/gen_forms.py.
use crate::client::*;
use monitor::model::{DelIn, ExtIn, Op};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;

macro_rules! forms {
    ($m:ident, $ci:path, $ct:path) => {
    pub mod $m {
        use super::*;
        use $ci as ci;
        use $ct as ct;
        pub fn standard_of(s: u8) -> ct::Standard {
            match s { 0 => ct::Standard::NonFungible, 1 => ct::Standard::Managed, 2 => ct::Standard::Soulbound, _ => ct::Standard::Proxied }
        }
        pub fn type_of(t: u8) -> ct::ExtensionType {
            match t { 0 => ct::ExtensionType::None, 1 => ct::ExtensionType::Attributes, 2 => ct::ExtensionType::Blob, 3 => ct::ExtensionType::Creators, 4 => ct::ExtensionType::Links,
                5 => ct::ExtensionType::Metadata, 6 => ct::ExtensionType::Grouping, 7 => ct::ExtensionType::Royalties, 8 => ct::ExtensionType::Manager, 9 => ct::ExtensionType::Proxy,
                10 => ct::ExtensionType::Properties, _ => ct::ExtensionType::Bucket }
        }
        pub fn role_of(r: u8) -> ct::DelegateRole {
            match r { 0 => ct::DelegateRole::None, 1 => ct::DelegateRole::Transfer, 2 => ct::DelegateRole::Lock, _ => ct::DelegateRole::Burn }
        }
        pub fn ext_of(e: &ExtIn) -> ct::ExtensionInput {
            ct::ExtensionInput { extension_type: type_of(e.ty), length: e.len, data: e.data.clone() }
        }
        pub fn del_of(d: &DelIn) -> ct::DelegateInput {
            match d { DelIn::All => ct::DelegateInput::All, DelIn::Some(r) => ct::DelegateInput::Some { roles: r.iter().map(|r| role_of(*r)).collect() } }
        }
        pub fn strategy_of(op: &Op) -> ct::Strategy {
            match op { Op::Extend(v) => ct::Strategy::Extend { value: *v }, _ => ct::Strategy::Trim }
        }
        pub fn build<'a>(op: &Op, i: &In<'_, 'a>, form: u8, style: u8) -> Result<Option<Instruction>, ProgramError> {
            let metas: Vec<AccountMeta> = i.rem.iter().map(|r| AccountMeta { pubkey: r.0, is_signer: r.2, is_writable: r.1 }).collect();
            match op {
                Op::Close => {
                    match form {
                        0 => { let x = ci::Close { buffer: i.k[0].unwrap(), recipient: i.k[1].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::CloseBuilder::new(); if style & 1 != 0 { b.buffer(JUNK); b.recipient(JUNK); } b.buffer(i.k[0].unwrap()); b.recipient(i.k[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::CloseCpi::new(i.program, ci::CloseCpiAccounts { buffer: i.info[0].unwrap(), recipient: i.info[1].unwrap() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::CloseCpiBuilder::new(i.program); if style & 1 != 0 { b.buffer(i.program); b.recipient(i.program); } b.buffer(i.info[0].unwrap()); b.recipient(i.info[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Burn => {
                    match form {
                        0 => { let x = ci::Burn { asset: i.k[0].unwrap(), signer: i.k[1].unwrap(), recipient: i.k[2], group: i.k[3] };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::BurnBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.signer(JUNK); b.recipient(Some(JUNK)); b.group(Some(JUNK)); } b.asset(i.k[0].unwrap()); b.signer(i.k[1].unwrap()); b.recipient(i.k[2]); b.group(i.k[3]);
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::BurnCpi::new(i.program, ci::BurnCpiAccounts { asset: i.info[0].unwrap(), signer: i.info[1].unwrap(), recipient: i.info[2], group: i.info[3] });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::BurnCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.signer(i.program); b.recipient(Some(i.program)); b.group(Some(i.program)); } b.asset(i.info[0].unwrap()); b.signer(i.info[1].unwrap()); b.recipient(i.info[2]); b.group(i.info[3]);
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Create { name, standard, mutable, exts } => {
                    match form {
                        0 => { let x = ci::Create { asset: i.k[0].unwrap(), authority: (i.k[1].unwrap(), i.s[1]), owner: i.k[2].unwrap(), group: i.k[3], group_authority: i.k[4], payer: i.k[5], system_program: i.k[6] };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::CreateInstructionArgs { name: name.clone(), standard: standard_of(*standard), mutable: *mutable, extensions: exts.as_ref().map(|v| v.iter().map(ext_of).collect()) }) } else { x.instruction_with_remaining_accounts(ci::CreateInstructionArgs { name: name.clone(), standard: standard_of(*standard), mutable: *mutable, extensions: exts.as_ref().map(|v| v.iter().map(ext_of).collect()) }, &metas) })) }
                        1 => { let mut b = ci::CreateBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.authority(JUNK, !i.s[1]); b.owner(JUNK); b.group(Some(JUNK)); b.group_authority(Some(JUNK)); b.payer(Some(JUNK)); b.system_program(Some(JUNK)); } b.asset(i.k[0].unwrap()); b.authority(i.k[1].unwrap(), i.s[1]); b.owner(i.k[2].unwrap()); b.group(i.k[3]); b.group_authority(i.k[4]); b.payer(i.k[5]); b.system_program(i.k[6]); b.name(name.clone()); if !(*standard == 0) || style & 2 == 0 { b.standard(standard_of(*standard)); } if !(*mutable) || style & 2 == 0 { b.mutable(*mutable); } if let Some(v) = exts.as_ref().map(|v| v.iter().map(ext_of).collect()) { b.extensions(v); }
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::CreateCpi::new(i.program, ci::CreateCpiAccounts { asset: i.info[0].unwrap(), authority: (i.info[1].unwrap(), i.s[1]), owner: i.info[2].unwrap(), group: i.info[3], group_authority: i.info[4], payer: i.info[5], system_program: i.info[6] }, ci::CreateInstructionArgs { name: name.clone(), standard: standard_of(*standard), mutable: *mutable, extensions: exts.as_ref().map(|v| v.iter().map(ext_of).collect()) });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::CreateCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.authority(i.program, !i.s[1]); b.owner(i.program); b.group(Some(i.program)); b.group_authority(Some(i.program)); b.payer(Some(i.program)); b.system_program(Some(i.program)); } b.asset(i.info[0].unwrap()); b.authority(i.info[1].unwrap(), i.s[1]); b.owner(i.info[2].unwrap()); b.group(i.info[3]); b.group_authority(i.info[4]); b.payer(i.info[5]); b.system_program(i.info[6]); b.name(name.clone()); if !(*standard == 0) || style & 2 == 0 { b.standard(standard_of(*standard)); } if !(*mutable) || style & 2 == 0 { b.mutable(*mutable); } if let Some(v) = exts.as_ref().map(|v| v.iter().map(ext_of).collect()) { b.extensions(v); }
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Approve(d) => {
                    match form {
                        0 => { let x = ci::Approve { asset: i.k[0].unwrap(), owner: i.k[1].unwrap(), delegate: i.k[2].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::ApproveInstructionArgs { delegate_input: del_of(d) }) } else { x.instruction_with_remaining_accounts(ci::ApproveInstructionArgs { delegate_input: del_of(d) }, &metas) })) }
                        1 => { let mut b = ci::ApproveBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.owner(JUNK); b.delegate(JUNK); } b.asset(i.k[0].unwrap()); b.owner(i.k[1].unwrap()); b.delegate(i.k[2].unwrap()); b.delegate_input(del_of(d));
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::ApproveCpi::new(i.program, ci::ApproveCpiAccounts { asset: i.info[0].unwrap(), owner: i.info[1].unwrap(), delegate: i.info[2].unwrap() }, ci::ApproveInstructionArgs { delegate_input: del_of(d) });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::ApproveCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.owner(i.program); b.delegate(i.program); } b.asset(i.info[0].unwrap()); b.owner(i.info[1].unwrap()); b.delegate(i.info[2].unwrap()); b.delegate_input(del_of(d));
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Allocate(e) => {
                    match form {
                        0 => { let x = ci::Allocate { asset: i.k[0].unwrap(), payer: i.k[1], system_program: i.k[2] };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::AllocateInstructionArgs { extension: ext_of(e) }) } else { x.instruction_with_remaining_accounts(ci::AllocateInstructionArgs { extension: ext_of(e) }, &metas) })) }
                        1 => { let mut b = ci::AllocateBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.payer(Some(JUNK)); b.system_program(Some(JUNK)); } b.asset(i.k[0].unwrap()); b.payer(i.k[1]); b.system_program(i.k[2]); b.extension(ext_of(e));
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::AllocateCpi::new(i.program, ci::AllocateCpiAccounts { asset: i.info[0].unwrap(), payer: i.info[1], system_program: i.info[2] }, ci::AllocateInstructionArgs { extension: ext_of(e) });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::AllocateCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.payer(Some(i.program)); b.system_program(Some(i.program)); } b.asset(i.info[0].unwrap()); b.payer(i.info[1]); b.system_program(i.info[2]); b.extension(ext_of(e));
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Lock => {
                    match form {
                        0 => { let x = ci::Lock { asset: i.k[0].unwrap(), signer: i.k[1].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::LockBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.signer(JUNK); } b.asset(i.k[0].unwrap()); b.signer(i.k[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::LockCpi::new(i.program, ci::LockCpiAccounts { asset: i.info[0].unwrap(), signer: i.info[1].unwrap() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::LockCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.signer(i.program); } b.asset(i.info[0].unwrap()); b.signer(i.info[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Revoke(d) => {
                    match form {
                        0 => { let x = ci::Revoke { asset: i.k[0].unwrap(), signer: i.k[1].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::RevokeInstructionArgs { delegate_input: del_of(d) }) } else { x.instruction_with_remaining_accounts(ci::RevokeInstructionArgs { delegate_input: del_of(d) }, &metas) })) }
                        1 => { let mut b = ci::RevokeBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.signer(JUNK); } b.asset(i.k[0].unwrap()); b.signer(i.k[1].unwrap()); b.delegate_input(del_of(d));
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::RevokeCpi::new(i.program, ci::RevokeCpiAccounts { asset: i.info[0].unwrap(), signer: i.info[1].unwrap() }, ci::RevokeInstructionArgs { delegate_input: del_of(d) });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::RevokeCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.signer(i.program); } b.asset(i.info[0].unwrap()); b.signer(i.info[1].unwrap()); b.delegate_input(del_of(d));
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Transfer => {
                    match form {
                        0 => { let x = ci::Transfer { asset: i.k[0].unwrap(), signer: i.k[1].unwrap(), recipient: i.k[2].unwrap(), group: i.k[3] };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::TransferBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.signer(JUNK); b.recipient(JUNK); b.group(Some(JUNK)); } b.asset(i.k[0].unwrap()); b.signer(i.k[1].unwrap()); b.recipient(i.k[2].unwrap()); b.group(i.k[3]);
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::TransferCpi::new(i.program, ci::TransferCpiAccounts { asset: i.info[0].unwrap(), signer: i.info[1].unwrap(), recipient: i.info[2].unwrap(), group: i.info[3] });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::TransferCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.signer(i.program); b.recipient(i.program); b.group(Some(i.program)); } b.asset(i.info[0].unwrap()); b.signer(i.info[1].unwrap()); b.recipient(i.info[2].unwrap()); b.group(i.info[3]);
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Unlock => {
                    match form {
                        0 => { let x = ci::Unlock { asset: i.k[0].unwrap(), signer: i.k[1].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::UnlockBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.signer(JUNK); } b.asset(i.k[0].unwrap()); b.signer(i.k[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::UnlockCpi::new(i.program, ci::UnlockCpiAccounts { asset: i.info[0].unwrap(), signer: i.info[1].unwrap() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::UnlockCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.signer(i.program); } b.asset(i.info[0].unwrap()); b.signer(i.info[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Unverify => {
                    match form {
                        0 => { let x = ci::Unverify { asset: i.k[0].unwrap(), creator: i.k[1].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::UnverifyBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.creator(JUNK); } b.asset(i.k[0].unwrap()); b.creator(i.k[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::UnverifyCpi::new(i.program, ci::UnverifyCpiAccounts { asset: i.info[0].unwrap(), creator: i.info[1].unwrap() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::UnverifyCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.creator(i.program); } b.asset(i.info[0].unwrap()); b.creator(i.info[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Update { name, mutable, ext } => {
                    match form {
                        0 => { let x = ci::Update { asset: i.k[0].unwrap(), authority: i.k[1].unwrap(), buffer: i.k[2], group: i.k[3], payer: i.k[4], system_program: i.k[5] };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::UpdateInstructionArgs { name: name.clone(), mutable: *mutable, extension: ext.as_ref().map(ext_of) }) } else { x.instruction_with_remaining_accounts(ci::UpdateInstructionArgs { name: name.clone(), mutable: *mutable, extension: ext.as_ref().map(ext_of) }, &metas) })) }
                        1 => { let mut b = ci::UpdateBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.authority(JUNK); b.buffer(Some(JUNK)); b.group(Some(JUNK)); b.payer(Some(JUNK)); b.system_program(Some(JUNK)); } b.asset(i.k[0].unwrap()); b.authority(i.k[1].unwrap()); b.buffer(i.k[2]); b.group(i.k[3]); b.payer(i.k[4]); b.system_program(i.k[5]); if let Some(v) = name.clone() { b.name(v); } if let Some(v) = *mutable { b.mutable(v); } if let Some(v) = ext.as_ref().map(ext_of) { b.extension(v); }
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::UpdateCpi::new(i.program, ci::UpdateCpiAccounts { asset: i.info[0].unwrap(), authority: i.info[1].unwrap(), buffer: i.info[2], group: i.info[3], payer: i.info[4], system_program: i.info[5] }, ci::UpdateInstructionArgs { name: name.clone(), mutable: *mutable, extension: ext.as_ref().map(ext_of) });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::UpdateCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.authority(i.program); b.buffer(Some(i.program)); b.group(Some(i.program)); b.payer(Some(i.program)); b.system_program(Some(i.program)); } b.asset(i.info[0].unwrap()); b.authority(i.info[1].unwrap()); b.buffer(i.info[2]); b.group(i.info[3]); b.payer(i.info[4]); b.system_program(i.info[5]); if let Some(v) = name.clone() { b.name(v); } if let Some(v) = *mutable { b.mutable(v); } if let Some(v) = ext.as_ref().map(ext_of) { b.extension(v); }
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Verify => {
                    match form {
                        0 => { let x = ci::Verify { asset: i.k[0].unwrap(), creator: i.k[1].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::VerifyBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.creator(JUNK); } b.asset(i.k[0].unwrap()); b.creator(i.k[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::VerifyCpi::new(i.program, ci::VerifyCpiAccounts { asset: i.info[0].unwrap(), creator: i.info[1].unwrap() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::VerifyCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.creator(i.program); } b.asset(i.info[0].unwrap()); b.creator(i.info[1].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Write { overwrite, bytes } => {
                    match form {
                        0 => { let x = ci::Write { asset: i.k[0].unwrap(), payer: i.k[1].unwrap(), system_program: i.k[2].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() }) } else { x.instruction_with_remaining_accounts(ci::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() }, &metas) })) }
                        1 => { let mut b = ci::WriteBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.payer(JUNK); b.system_program(JUNK); } b.asset(i.k[0].unwrap()); b.payer(i.k[1].unwrap()); if style & 2 == 0 || style & 1 != 0 || i.k[2].unwrap() != SYS { b.system_program(i.k[2].unwrap()); } b.overwrite(*overwrite); b.bytes(bytes.clone());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::WriteCpi::new(i.program, ci::WriteCpiAccounts { asset: i.info[0].unwrap(), payer: i.info[1].unwrap(), system_program: i.info[2].unwrap() }, ci::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::WriteCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.payer(i.program); b.system_program(i.program); } b.asset(i.info[0].unwrap()); b.payer(i.info[1].unwrap()); b.system_program(i.info[2].unwrap()); b.overwrite(*overwrite); b.bytes(bytes.clone());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Group => {
                    match form {
                        0 => { let x = ci::Group { asset: i.k[0].unwrap(), group: i.k[1].unwrap(), authority: i.k[2].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::GroupBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.group(JUNK); b.authority(JUNK); } b.asset(i.k[0].unwrap()); b.group(i.k[1].unwrap()); b.authority(i.k[2].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::GroupCpi::new(i.program, ci::GroupCpiAccounts { asset: i.info[0].unwrap(), group: i.info[1].unwrap(), authority: i.info[2].unwrap() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::GroupCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.group(i.program); b.authority(i.program); } b.asset(i.info[0].unwrap()); b.group(i.info[1].unwrap()); b.authority(i.info[2].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Ungroup => {
                    match form {
                        0 => { let x = ci::Ungroup { asset: i.k[0].unwrap(), group: i.k[1].unwrap(), authority: i.k[2].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::UngroupBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.group(JUNK); b.authority(JUNK); } b.asset(i.k[0].unwrap()); b.group(i.k[1].unwrap()); b.authority(i.k[2].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::UngroupCpi::new(i.program, ci::UngroupCpiAccounts { asset: i.info[0].unwrap(), group: i.info[1].unwrap(), authority: i.info[2].unwrap() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::UngroupCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.group(i.program); b.authority(i.program); } b.asset(i.info[0].unwrap()); b.group(i.info[1].unwrap()); b.authority(i.info[2].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Handover => {
                    match form {
                        0 => { let x = ci::Handover { asset: i.k[0].unwrap(), authority: i.k[1].unwrap(), new_authority: i.k[2].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::HandoverBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.authority(JUNK); b.new_authority(JUNK); } b.asset(i.k[0].unwrap()); b.authority(i.k[1].unwrap()); b.new_authority(i.k[2].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::HandoverCpi::new(i.program, ci::HandoverCpiAccounts { asset: i.info[0].unwrap(), authority: i.info[1].unwrap(), new_authority: i.info[2].unwrap() });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::HandoverCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.authority(i.program); b.new_authority(i.program); } b.asset(i.info[0].unwrap()); b.authority(i.info[1].unwrap()); b.new_authority(i.info[2].unwrap());
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Remove(t) => {
                    match form {
                        0 => { let x = ci::Remove { asset: i.k[0].unwrap(), authority: i.k[1].unwrap(), group: i.k[2], recipient: i.k[3].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::RemoveInstructionArgs { extension_type: type_of(*t) }) } else { x.instruction_with_remaining_accounts(ci::RemoveInstructionArgs { extension_type: type_of(*t) }, &metas) })) }
                        1 => { let mut b = ci::RemoveBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.authority(JUNK); b.group(Some(JUNK)); b.recipient(JUNK); } b.asset(i.k[0].unwrap()); b.authority(i.k[1].unwrap()); b.group(i.k[2]); b.recipient(i.k[3].unwrap()); b.extension_type(type_of(*t));
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::RemoveCpi::new(i.program, ci::RemoveCpiAccounts { asset: i.info[0].unwrap(), authority: i.info[1].unwrap(), group: i.info[2], recipient: i.info[3].unwrap() }, ci::RemoveInstructionArgs { extension_type: type_of(*t) });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::RemoveCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.authority(i.program); b.group(Some(i.program)); b.recipient(i.program); } b.asset(i.info[0].unwrap()); b.authority(i.info[1].unwrap()); b.group(i.info[2]); b.recipient(i.info[3].unwrap()); b.extension_type(type_of(*t));
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                Op::Trim | Op::Extend(_) => {
                    match form {
                        0 => { let x = ci::Resize { asset: i.k[0].unwrap(), authority: i.k[1].unwrap(), payer: (i.k[2].unwrap(), i.s[2]), system_program: i.k[3] };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::ResizeInstructionArgs { strategy: strategy_of(op) }) } else { x.instruction_with_remaining_accounts(ci::ResizeInstructionArgs { strategy: strategy_of(op) }, &metas) })) }
                        1 => { let mut b = ci::ResizeBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.authority(JUNK); b.payer(JUNK, !i.s[2]); b.system_program(Some(JUNK)); } b.asset(i.k[0].unwrap()); b.authority(i.k[1].unwrap()); b.payer(i.k[2].unwrap(), i.s[2]); b.system_program(i.k[3]); b.strategy(strategy_of(op));
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::ResizeCpi::new(i.program, ci::ResizeCpiAccounts { asset: i.info[0].unwrap(), authority: i.info[1].unwrap(), payer: (i.info[2].unwrap(), i.s[2]), system_program: i.info[3] }, ci::ResizeInstructionArgs { strategy: strategy_of(op) });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::ResizeCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.authority(i.program); b.payer(i.program, !i.s[2]); b.system_program(Some(i.program)); } b.asset(i.info[0].unwrap()); b.authority(i.info[1].unwrap()); b.payer(i.info[2].unwrap(), i.s[2]); b.system_program(i.info[3]); b.strategy(strategy_of(op));
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
            }
        }
    }
    };
}
forms!(client, nifty_asset::instructions, nifty_asset::types);
forms!(interface, nifty_asset_interface::instructions, nifty_asset_interface::types);

pub mod bridge {
        use super::*;
        use nifty_bridge::instructions as ci;
        pub fn build<'a>(op: &BOp, i: &In<'_, 'a>, form: u8, style: u8) -> Result<Option<Instruction>, ProgramError> {
            let metas: Vec<AccountMeta> = i.rem.iter().map(|r| AccountMeta { pubkey: r.0, is_signer: r.2, is_writable: r.1 }).collect();
            match op {
                BOp::Bridge => {
                    match form {
                        0 => { let x = ci::Bridge { asset: i.k[0].unwrap(), vault: i.k[1].unwrap(), owner: i.k[2].unwrap(), token: i.k[3].unwrap(), mint: i.k[4].unwrap(), metadata: i.k[5].unwrap(), master_edition: i.k[6].unwrap(), token_record: i.k[7], vault_token: i.k[8].unwrap(), vault_token_record: i.k[9], payer: i.k[10].unwrap(), nifty_asset_program: i.k[11].unwrap(), token_metadata_program: i.k[12].unwrap(), system_program: i.k[13].unwrap(), sysvar_instructions: i.k[14].unwrap(), spl_token_program: i.k[15].unwrap(), spl_ata_program: i.k[16].unwrap(), authorization_rules_program: i.k[17], authorization_rules: i.k[18], group_asset: i.k[19] };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(&metas) })) }
                        1 => { let mut b = ci::BridgeBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.vault(JUNK); b.owner(JUNK); b.token(JUNK); b.mint(JUNK); b.metadata(JUNK); b.master_edition(JUNK); b.token_record(Some(JUNK)); b.vault_token(JUNK); b.vault_token_record(Some(JUNK)); b.payer(JUNK); b.nifty_asset_program(JUNK); b.token_metadata_program(JUNK); b.system_program(JUNK); b.sysvar_instructions(JUNK); b.spl_token_program(JUNK); b.spl_ata_program(JUNK); b.authorization_rules_program(Some(JUNK)); b.authorization_rules(Some(JUNK)); b.group_asset(Some(JUNK)); } b.asset(i.k[0].unwrap()); b.vault(i.k[1].unwrap()); b.owner(i.k[2].unwrap()); b.token(i.k[3].unwrap()); b.mint(i.k[4].unwrap()); b.metadata(i.k[5].unwrap()); b.master_edition(i.k[6].unwrap()); b.token_record(i.k[7]); b.vault_token(i.k[8].unwrap()); b.vault_token_record(i.k[9]); b.payer(i.k[10].unwrap()); if style & 2 == 0 || style & 1 != 0 || i.k[11].unwrap() != ASSET { b.nifty_asset_program(i.k[11].unwrap()); } if style & 2 == 0 || style & 1 != 0 || i.k[12].unwrap() != TM { b.token_metadata_program(i.k[12].unwrap()); } if style & 2 == 0 || style & 1 != 0 || i.k[13].unwrap() != SYS { b.system_program(i.k[13].unwrap()); } if style & 2 == 0 || style & 1 != 0 || i.k[14].unwrap() != SYSVAR { b.sysvar_instructions(i.k[14].unwrap()); } if style & 2 == 0 || style & 1 != 0 || i.k[15].unwrap() != TOKEN { b.spl_token_program(i.k[15].unwrap()); } if style & 2 == 0 || style & 1 != 0 || i.k[16].unwrap() != ATA { b.spl_ata_program(i.k[16].unwrap()); } b.authorization_rules_program(i.k[17]); b.authorization_rules(i.k[18]); b.group_asset(i.k[19]);
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::BridgeCpi::new(i.program, ci::BridgeCpiAccounts { asset: i.info[0].unwrap(), vault: i.info[1].unwrap(), owner: i.info[2].unwrap(), token: i.info[3].unwrap(), mint: i.info[4].unwrap(), metadata: i.info[5].unwrap(), master_edition: i.info[6].unwrap(), token_record: i.info[7], vault_token: i.info[8].unwrap(), vault_token_record: i.info[9], payer: i.info[10].unwrap(), nifty_asset_program: i.info[11].unwrap(), token_metadata_program: i.info[12].unwrap(), system_program: i.info[13].unwrap(), sysvar_instructions: i.info[14].unwrap(), spl_token_program: i.info[15].unwrap(), spl_ata_program: i.info[16].unwrap(), authorization_rules_program: i.info[17], authorization_rules: i.info[18], group_asset: i.info[19] });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::BridgeCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.vault(i.program); b.owner(i.program); b.token(i.program); b.mint(i.program); b.metadata(i.program); b.master_edition(i.program); b.token_record(Some(i.program)); b.vault_token(i.program); b.vault_token_record(Some(i.program)); b.payer(i.program); b.nifty_asset_program(i.program); b.token_metadata_program(i.program); b.system_program(i.program); b.sysvar_instructions(i.program); b.spl_token_program(i.program); b.spl_ata_program(i.program); b.authorization_rules_program(Some(i.program)); b.authorization_rules(Some(i.program)); b.group_asset(Some(i.program)); } b.asset(i.info[0].unwrap()); b.vault(i.info[1].unwrap()); b.owner(i.info[2].unwrap()); b.token(i.info[3].unwrap()); b.mint(i.info[4].unwrap()); b.metadata(i.info[5].unwrap()); b.master_edition(i.info[6].unwrap()); b.token_record(i.info[7]); b.vault_token(i.info[8].unwrap()); b.vault_token_record(i.info[9]); b.payer(i.info[10].unwrap()); b.nifty_asset_program(i.info[11].unwrap()); b.token_metadata_program(i.info[12].unwrap()); b.system_program(i.info[13].unwrap()); b.sysvar_instructions(i.info[14].unwrap()); b.spl_token_program(i.info[15].unwrap()); b.spl_ata_program(i.info[16].unwrap()); b.authorization_rules_program(i.info[17]); b.authorization_rules(i.info[18]); b.group_asset(i.info[19]);
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
                BOp::Create(c) => {
                    match form {
                        0 => { let x = ci::Create { asset: i.k[0].unwrap(), vault: i.k[1].unwrap(), mint: i.k[2].unwrap(), metadata: i.k[3].unwrap(), update_authority: (i.k[4].unwrap(), i.s[4]), collection: i.k[5], payer: i.k[6].unwrap(), system_program: i.k[7].unwrap(), nifty_asset_program: i.k[8].unwrap() };
                            Ok(Some(if style & 1 == 0 && metas.is_empty() { x.instruction(ci::CreateInstructionArgs { is_collection: *c }) } else { x.instruction_with_remaining_accounts(ci::CreateInstructionArgs { is_collection: *c }, &metas) })) }
                        1 => { let mut b = ci::CreateBuilder::new(); if style & 1 != 0 { b.asset(JUNK); b.vault(JUNK); b.mint(JUNK); b.metadata(JUNK); b.update_authority(JUNK, !i.s[4]); b.collection(Some(JUNK)); b.payer(JUNK); b.system_program(JUNK); b.nifty_asset_program(JUNK); } b.asset(i.k[0].unwrap()); b.vault(i.k[1].unwrap()); b.mint(i.k[2].unwrap()); b.metadata(i.k[3].unwrap()); b.update_authority(i.k[4].unwrap(), i.s[4]); b.collection(i.k[5]); b.payer(i.k[6].unwrap()); if style & 2 == 0 || style & 1 != 0 || i.k[7].unwrap() != SYS { b.system_program(i.k[7].unwrap()); } if style & 2 == 0 || style & 1 != 0 || i.k[8].unwrap() != ASSET { b.nifty_asset_program(i.k[8].unwrap()); } b.is_collection(*c);
                            if style & 4 == 0 { b.add_remaining_accounts(&metas); } else { for m in &metas { b.add_remaining_account(m.clone()); } }
                            let _ = b.instruction();
                            Ok(Some(b.instruction())) }
                        2 => { let x = ci::CreateCpi::new(i.program, ci::CreateCpiAccounts { asset: i.info[0].unwrap(), vault: i.info[1].unwrap(), mint: i.info[2].unwrap(), metadata: i.info[3].unwrap(), update_authority: (i.info[4].unwrap(), i.s[4]), collection: i.info[5], payer: i.info[6].unwrap(), system_program: i.info[7].unwrap(), nifty_asset_program: i.info[8].unwrap() }, ci::CreateInstructionArgs { is_collection: *c });
                            match (i.rem_info.is_empty(), i.seeds.is_empty()) { (true, true) => x.invoke()?, (false, true) => x.invoke_with_remaining_accounts(&i.rem_info)?, (true, false) => x.invoke_signed(i.seeds)?, _ => x.invoke_signed_with_remaining_accounts(i.seeds, &i.rem_info)? }
                            Ok(None) }
                        _ => { let mut b = ci::CreateCpiBuilder::new(i.program); if style & 1 != 0 { b.asset(i.program); b.vault(i.program); b.mint(i.program); b.metadata(i.program); b.update_authority(i.program, !i.s[4]); b.collection(Some(i.program)); b.payer(i.program); b.system_program(i.program); b.nifty_asset_program(i.program); } b.asset(i.info[0].unwrap()); b.vault(i.info[1].unwrap()); b.mint(i.info[2].unwrap()); b.metadata(i.info[3].unwrap()); b.update_authority(i.info[4].unwrap(), i.s[4]); b.collection(i.info[5]); b.payer(i.info[6].unwrap()); b.system_program(i.info[7].unwrap()); b.nifty_asset_program(i.info[8].unwrap()); b.is_collection(*c);
                            if style & 4 == 0 { b.add_remaining_accounts(&i.rem_info); } else { for r in &i.rem_info { b.add_remaining_account(r.0, r.1, r.2); } }
                            if i.seeds.is_empty() { b.invoke()?; } else { b.invoke_signed(i.seeds)?; }
                            Ok(None) }
                    }
                }
            }
        }
}
