//! Glue compiled into every program-under-test shared object: it installs syscall stubs that
//! forward to the monitor's runtime through a C table, and runs the program's real entrypoint.

use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction,
    program_stubs::SyscallStubs, pubkey::Pubkey,
};
use std::cell::RefCell;
use std::sync::OnceLock;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct MetaC {
    pub key: [u8; 32],
    pub signer: u8,
    pub writable: u8,
}

#[repr(C)]
pub struct CpiReq {
    pub program: [u8; 32],
    pub metas: *const MetaC,
    pub n_metas: usize,
    pub data: *const u8,
    pub data_len: usize,
    /// keys of the account infos handed over
    pub infos: *const [u8; 32],
    pub n_infos: usize,
    /// addresses derived from the signer seeds
    pub pdas: *const [u8; 32],
    pub n_pdas: usize,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct HostTable {
    pub program_id: [u8; 32],
    pub log: extern "C" fn(*const u8, usize),
    pub cpi: extern "C" fn(*const CpiReq) -> u64,
    pub stack_height: extern "C" fn() -> u64,
    pub unix_ts: extern "C" fn() -> i64,
    pub mem_check: extern "C" fn(*const u8, usize) -> u32,
}

#[repr(C)]
pub struct RunResult {
    /// 0 = success, 1 = program error, 2 = panic, 3 = aborted by a failed inner call
    pub status: u32,
    pub code: u64,
    pub msg_len: usize,
    pub msg: [u8; 256],
}

static HOST: OnceLock<HostTable> = OnceLock::new();

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

struct CpiAbort;

fn host() -> &'static HostTable {
    HOST.get().expect("host table")
}

struct Stubs;

impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        (host().log)(message.as_ptr(), message.len());
    }
    fn sol_log_data(&self, _fields: &[&[u8]]) {}
    fn sol_get_stack_height(&self) -> u64 {
        (host().stack_height)()
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe {
            *(var_addr as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default();
        }
        0
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let ts = (host().unix_ts)();
        unsafe {
            *(var_addr as *mut solana_program::clock::Clock) = solana_program::clock::Clock {
                slot: ts as u64,
                epoch_start_timestamp: 0,
                epoch: 0,
                leader_schedule_epoch: 0,
                unix_timestamp: ts,
            };
        }
        0
    }
    unsafe fn sol_memcpy(&self, dst: *mut u8, src: *const u8, n: usize) {
        if (host().mem_check)(src, n) != 0 || (host().mem_check)(dst, n) != 0 {
            panic!("memcpy outside of the account memory");
        }
        let (d, s) = (dst as usize, src as usize);
        if n > 0 && !(d + n <= s || s + n <= d) {
            panic!("memcpy of overlapping regions");
        }
        std::ptr::copy(src, dst, n);
    }
    unsafe fn sol_memmove(&self, dst: *mut u8, src: *const u8, n: usize) {
        if (host().mem_check)(src, n) != 0 || (host().mem_check)(dst, n) != 0 {
            panic!("memmove outside of the account memory");
        }
        std::ptr::copy(src, dst, n);
    }
    unsafe fn sol_memset(&self, s: *mut u8, c: u8, n: usize) {
        if (host().mem_check)(s, n) != 0 {
            panic!("memset outside of the account memory");
        }
        std::ptr::write_bytes(s, c, n);
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let metas: Vec<MetaC> = instruction
            .accounts
            .iter()
            .map(|m| MetaC {
                key: m.pubkey.to_bytes(),
                signer: m.is_signer as u8,
                writable: m.is_writable as u8,
            })
            .collect();
        let infos: Vec<[u8; 32]> = account_infos.iter().map(|a| a.key.to_bytes()).collect();
        do_cpi(
            instruction.program_id.to_bytes(),
            &metas,
            &instruction.data,
            &infos,
            signers_seeds,
        );
        // refresh the caller's view of the data length, as the runtime does
        for info in account_infos {
            unsafe {
                let cell = info.data.as_ptr();
                let ptr = (*cell).as_mut_ptr();
                let len = *(ptr.sub(8) as *const u64) as usize;
                *cell = std::slice::from_raw_parts_mut(ptr, len);
            }
        }
        Ok(())
    }
}

fn do_cpi(program: [u8; 32], metas: &[MetaC], data: &[u8], infos: &[[u8; 32]], seeds: &[&[&[u8]]]) {
    let me = Pubkey::from(host().program_id);
    let mut pdas = Vec::new();
    for s in seeds {
        match Pubkey::create_program_address(s, &me) {
            Ok(k) => pdas.push(k.to_bytes()),
            Err(_) => std::panic::resume_unwind(Box::new(CpiAbort)),
        }
    }
    let req = CpiReq {
        program,
        metas: metas.as_ptr(),
        n_metas: metas.len(),
        data: data.as_ptr(),
        data_len: data.len(),
        infos: infos.as_ptr(),
        n_infos: infos.len(),
        pdas: pdas.as_ptr(),
        n_pdas: pdas.len(),
    };
    if (host().cpi)(&req) != 0 {
        // a failed inner instruction aborts the caller, it never returns to it
        std::panic::resume_unwind(Box::new(CpiAbort));
    }
}

#[repr(C)]
struct CAccountMeta {
    pubkey: *const [u8; 32],
    is_writable: bool,
    is_signer: bool,
}
#[repr(C)]
struct CAccountInfo {
    key: *const [u8; 32],
    lamports: *const u64,
    data_len: u64,
    data: *const u8,
    owner: *const [u8; 32],
    rent_epoch: u64,
    is_signer: bool,
    is_writable: bool,
    executable: bool,
}
#[repr(C)]
struct CInstruction {
    program_id: *const [u8; 32],
    accounts: *const CAccountMeta,
    accounts_len: u64,
    data: *const u8,
    data_len: u64,
}

/// # Safety
/// called with the C structures of the runtime ABI
pub unsafe fn invoke_c(ix: *const u8, infos: *const u8, n: u64, seeds: *const u8, n_seeds: u64) {
    let ix = &*(ix as *const CInstruction);
    let metas: Vec<MetaC> = std::slice::from_raw_parts(ix.accounts, ix.accounts_len as usize)
        .iter()
        .map(|m| MetaC {
            key: *m.pubkey,
            signer: m.is_signer as u8,
            writable: m.is_writable as u8,
        })
        .collect();
    let infos: Vec<[u8; 32]> = std::slice::from_raw_parts(infos as *const CAccountInfo, n as usize)
        .iter()
        .map(|i| *i.key)
        .collect();
    let data = std::slice::from_raw_parts(ix.data, ix.data_len as usize);
    let seeds: &[&[&[u8]]] = if n_seeds == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(seeds as *const &[&[u8]], n_seeds as usize)
    };
    do_cpi(*ix.program_id, &metas, data, &infos, seeds);
}

/// # Safety
/// `table` points to a valid table
pub unsafe fn init(table: *const HostTable) {
    if HOST.set(*table).is_err() {
        return;
    }
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));
}

/// # Safety
/// `input` is a runtime-serialised buffer
pub unsafe fn run(f: unsafe extern "C-unwind" fn(*mut u8) -> u64, input: *mut u8, out: *mut RunResult) {
    let r = std::panic::catch_unwind(|| f(input));
    let out = &mut *out;
    out.msg_len = 0;
    out.code = 0;
    match r {
        Ok(0) => out.status = 0,
        Ok(c) => {
            out.status = 1;
            out.code = c;
        }
        Err(e) => {
            if e.is::<CpiAbort>() {
                out.status = 3;
            } else {
                out.status = 2;
                PANIC.with(|p| {
                    let p = p.borrow();
                    let n = p.len().min(256);
                    out.msg[..n].copy_from_slice(&p.as_bytes()[..n]);
                    out.msg_len = n;
                });
            }
        }
    }
}

#[macro_export]
macro_rules! shim {
    ($krate:ident) => {
        extern crate $krate as _program;
        extern "C-unwind" {
            fn entrypoint(input: *mut u8) -> u64;
        }
        #[no_mangle]
        pub unsafe extern "C" fn verif_init(table: *const $crate::HostTable) {
            $crate::init(table)
        }
        #[no_mangle]
        pub unsafe extern "C" fn verif_run(input: *mut u8, out: *mut $crate::RunResult) {
            $crate::run(entrypoint, input, out)
        }
        #[no_mangle]
        pub unsafe extern "C-unwind" fn verif_sol_invoke_signed_c(
            ix: *const u8,
            infos: *const u8,
            n: u64,
            seeds: *const u8,
            n_seeds: u64,
        ) -> u64 {
            $crate::invoke_c(ix, infos, n, seeds, n_seeds);
            0
        }
    };
}
