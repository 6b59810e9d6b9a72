//! A small in-process Solana runtime: executes transactions of native builds of the on-chain
//! programs against an in-memory account store, with transaction atomicity, CPI, PDA signing,
//! privilege checks and the account-modification rules of the runtime.
use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use solana_program::{system_program, sysvar};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Once;

#[derive(Clone, Debug, PartialEq)]
pub struct Acc {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}
impl Default for Acc {
    fn default() -> Self {
        Acc {
            lamports: 0,
            data: vec![],
            owner: system_program::id(),
            executable: false,
        }
    }
}

pub type ProgramFn = fn(&Pubkey, &'static [AccountInfo<'static>], &[u8]) -> ProgramResult;

#[derive(Clone, Copy)]
pub enum Program {
    System,
    Alt,
    Sbf(ProgramFn),
}

#[derive(Clone, Debug, PartialEq)]
pub enum TxErr {
    /// program error code as u64 (Custom(n) => n)
    Custom(u32),
    Program(u64),
    Panic(String),
    /// a rule of the runtime was violated
    Runtime(String),
}

#[derive(Clone, Debug)]
pub struct TxFail {
    pub ix: usize,
    pub err: TxErr,
    pub logs: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct TxMeta {
    pub logs: Vec<String>,
    pub data: Vec<Vec<u8>>,
}

#[derive(Clone)]
pub struct Sim {
    pub accounts: BTreeMap<Pubkey, Rc<Acc>>,
    pub clock: Clock,
    pub programs: Rc<HashMap<Pubkey, Program>>,
    pub payer: Pubkey,
    pub key_counter: u64,
    pub keep_logs: bool,
}

struct Frame {
    program: Pubkey,
    privs: HashMap<Pubkey, (bool, bool)>,
}

struct Ctx {
    base: BTreeMap<Pubkey, Rc<Acc>>,
    work: HashMap<Pubkey, Acc>,
    stack: Vec<Frame>,
    logs: Vec<String>,
    data: Vec<Vec<u8>>,
    clock: Clock,
    rent: Rent,
    programs: Rc<HashMap<Pubkey, Program>>,
    return_data: Option<(Pubkey, Vec<u8>)>,
    runtime_err: Option<String>,
    keep_logs: bool,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
    static CATCHING: Cell<bool> = Cell::new(false);
}

fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no transaction running")))
}
fn ctx_opt<R>(f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
    CTX.with(|c| match c.try_borrow_mut() {
        Ok(mut c) => c.as_mut().map(f),
        Err(_) => None,
    })
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        ctx_opt(|c| {
            if c.keep_logs {
                c.logs.push(format!("Program log: {message}"))
            }
        });
    }
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, fields: &[&[u8]]) {
        ctx_opt(|c| {
            for f in fields {
                c.data.push(f.to_vec());
            }
            if c.keep_logs {
                let s = fields
                    .iter()
                    .map(|v| base64::encode(v))
                    .collect::<Vec<_>>()
                    .join(" ");
                c.logs.push(format!("Program data: {s}"));
            }
        });
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let r = ctx_opt(|c| unsafe { *(var_addr as *mut Clock) = c.clock.clone() });
        if r.is_some() {
            0
        } else {
            1
        }
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        ctx(|c| c.return_data.clone())
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        ctx(|c| {
            let p = c.stack.last().unwrap().program;
            c.return_data = Some((p, data.to_vec()))
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        ctx_opt(|c| c.stack.len() as u64).unwrap_or(0)
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        account_infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        cpi(instruction, account_infos, signers_seeds)
    }
}

pub fn init() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if CATCHING.with(|c| c.get()) {
                PANIC_MSG.with(|m| *m.borrow_mut() = Some(info.to_string()));
            } else {
                prev(info)
            }
        }));
    });
}

/// Runs `f`, turning a panic into Err(message) without printing it.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    init();
    let before = CATCHING.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(before));
    r.map_err(|_| {
        PANIC_MSG
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

fn err_code(e: ProgramError) -> TxErr {
    match e {
        ProgramError::Custom(n) => TxErr::Custom(n),
        e => TxErr::Program(e.into()),
    }
}

impl Ctx {
    fn get(&self, k: &Pubkey) -> Acc {
        if let Some(a) = self.work.get(k) {
            a.clone()
        } else if let Some(a) = self.base.get(k) {
            (**a).clone()
        } else {
            Acc::default()
        }
    }
}

/// Input buffer in the loader's layout, so that realloc() and assign() work on AccountInfos.
struct Input {
    buf: Vec<u64>,
    /// unique keys with the offset of their lamports field
    keys: Vec<(Pubkey, usize)>,
}

fn serialize(accs: &[(Pubkey, Acc, bool, bool)], order: &[usize]) -> Input {
    let mut size = 8;
    for (_, a, _, _) in accs {
        size += 8 + 32 + 32 + 8 + 8 + a.data.len() + MAX_PERMITTED_DATA_INCREASE + 16 + 8;
    }
    size += order.len() * 8 + 64;
    let mut buf = vec![0u64; size / 8 + 2];
    let base = buf.as_mut_ptr() as *mut u8;
    let mut off = 0usize;
    let mut keys = vec![];
    let mut seen: HashMap<usize, usize> = HashMap::new();
    unsafe {
        *(base.add(off) as *mut u64) = order.len() as u64;
        off += 8;
        for (pos, &i) in order.iter().enumerate() {
            if let Some(&p) = seen.get(&i) {
                *base.add(off) = p as u8;
                off += 8;
                continue;
            }
            seen.insert(i, pos);
            let (k, a, signer, writable) = &accs[i];
            *base.add(off) = 0xff;
            *base.add(off + 1) = *signer as u8;
            *base.add(off + 2) = *writable as u8;
            *base.add(off + 3) = a.executable as u8;
            off += 8;
            std::ptr::copy_nonoverlapping(k.as_ref().as_ptr(), base.add(off), 32);
            off += 32;
            std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), base.add(off), 32);
            off += 32;
            keys.push((*k, off));
            *(base.add(off) as *mut u64) = a.lamports;
            off += 8;
            *(base.add(off) as *mut u64) = a.data.len() as u64;
            off += 8;
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), base.add(off), a.data.len());
            off += a.data.len() + MAX_PERMITTED_DATA_INCREASE;
            off += (off as *const u8).align_offset(8);
            *(base.add(off) as *mut u64) = u64::MAX;
            off += 8;
        }
        // no instruction data: it is passed separately
        *(base.add(off) as *mut u64) = 0;
    }
    Input { buf, keys }
}

/// Checks the account-modification rules for program `prog` changing `pre` into the given state.
fn check_change(
    prog: &Pubkey,
    key: &Pubkey,
    pre: &Acc,
    writable: bool,
    lamports: u64,
    owner: &Pubkey,
    data: &[u8],
) -> Result<(), String> {
    let data_changed = pre.data.len() != data.len() || pre.data != data;
    if data_changed {
        if !writable {
            return Err(format!("{prog} changed data of read-only {key}"));
        }
        if pre.owner != *prog {
            return Err(format!("{prog} changed data of {key} it does not own"));
        }
        if pre.executable {
            return Err(format!("{prog} changed executable {key}"));
        }
    }
    if lamports != pre.lamports {
        if !writable {
            return Err(format!("{prog} changed lamports of read-only {key}"));
        }
        if lamports < pre.lamports && pre.owner != *prog {
            return Err(format!("{prog} spent lamports of {key} it does not own"));
        }
    }
    if *owner != pre.owner {
        if !writable || pre.owner != *prog {
            return Err(format!("{prog} changed owner of {key}"));
        }
        if data.iter().any(|b| *b != 0) {
            return Err(format!("{prog} changed owner of {key} with data"));
        }
    }
    Ok(())
}

/// Executes one instruction. `metas` carries already-checked privileges.
fn exec(program_id: &Pubkey, metas: &[AccountMeta], data: &[u8]) -> Result<(), TxErr> {
    // dedup
    let mut idx: HashMap<Pubkey, usize> = HashMap::new();
    let mut uniq: Vec<(Pubkey, bool, bool)> = vec![];
    let mut order = vec![];
    for m in metas {
        let i = *idx.entry(m.pubkey).or_insert_with(|| {
            uniq.push((m.pubkey, false, false));
            uniq.len() - 1
        });
        uniq[i].1 |= m.is_signer;
        uniq[i].2 |= m.is_writable;
        order.push(i);
    }
    let program = ctx(|c| -> Result<Program, TxErr> {
        if c.stack.len() >= 5 {
            return Err(TxErr::Runtime("call depth".into()));
        }
        if c.stack.iter().rev().skip(1).any(|f| f.program == *program_id)
            && c.stack.last().map(|f| f.program) != Some(*program_id)
        {
            return Err(TxErr::Runtime("reentrancy not allowed".into()));
        }
        c.programs
            .get(program_id)
            .copied()
            .ok_or_else(|| TxErr::Runtime(format!("unknown program {program_id}")))
    })?;
    ctx(|c| {
        if c.keep_logs {
            let d = c.stack.len() + 1;
            c.logs.push(format!("Program {program_id} invoke [{d}]"));
        }
        c.stack.push(Frame {
            program: *program_id,
            privs: uniq.iter().map(|u| (u.0, (u.1, u.2))).collect(),
        })
    });
    let r = match program {
        Program::System => exec_system(metas, data),
        Program::Alt => exec_alt(metas, data),
        Program::Sbf(f) => exec_sbf(program_id, f, &uniq, &order, data),
    };
    ctx(|c| {
        c.stack.pop();
    });
    r
}

fn exec_sbf(
    program_id: &Pubkey,
    f: ProgramFn,
    uniq: &[(Pubkey, bool, bool)],
    order: &[usize],
    data: &[u8],
) -> Result<(), TxErr> {
    let accs: Vec<(Pubkey, Acc, bool, bool)> = ctx(|c| {
        uniq.iter()
            .map(|(k, s, w)| (*k, c.get(k), *s, *w))
            .collect()
    });
    let lamports_before: u128 = accs.iter().map(|a| a.1.lamports as u128).sum();
    let mut input = serialize(&accs, order);
    drop(accs);
    let res = {
        let (_, infos, _) =
            unsafe { solana_program::entrypoint::deserialize(input.buf.as_mut_ptr() as *mut u8) };
        let infos: Vec<AccountInfo<'static>> = unsafe { std::mem::transmute(infos) };
        let slice: &'static [AccountInfo<'static>] =
            unsafe { std::mem::transmute(infos.as_slice()) };
        let r = catch(|| f(program_id, slice, data));
        drop(infos);
        r
    };
    if let Some(e) = ctx(|c| c.runtime_err.take()) {
        return Err(TxErr::Runtime(e));
    }
    match res {
        Err(p) => return Err(TxErr::Panic(p)),
        Ok(Err(e)) => return Err(err_code(e)),
        Ok(Ok(())) => {}
    }
    // read back
    let base = input.buf.as_ptr() as *const u8;
    let mut lamports_after = 0u128;
    for (i, (k, off)) in input.keys.iter().enumerate() {
        let _ = i;
        let writable = uniq.iter().find(|u| u.0 == *k).unwrap().2;
        let (owner, lamports, d) = unsafe {
            let owner = Pubkey::new_from_array(*(base.add(off - 32) as *const [u8; 32]));
            let lamports = *(base.add(*off) as *const u64);
            let len = *(base.add(off + 8) as *const u64) as usize;
            let d = std::slice::from_raw_parts(base.add(off + 16), len);
            (owner, lamports, d)
        };
        lamports_after += lamports as u128;
        ctx(|c| -> Result<(), TxErr> {
            let pre = c.get(k);
            check_change(program_id, k, &pre, writable, lamports, &owner, d)
                .map_err(TxErr::Runtime)?;
            if pre.lamports != lamports || pre.owner != owner || pre.data != d {
                c.work.insert(
                    *k,
                    Acc {
                        lamports,
                        owner,
                        data: d.to_vec(),
                        executable: pre.executable,
                    },
                );
            }
            Ok(())
        })?;
    }
    if lamports_before != lamports_after {
        return Err(TxErr::Runtime("instruction changed total lamports".into()));
    }
    Ok(())
}

fn cpi(
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> ProgramResult {
    let fail = |s: String| -> ProgramResult {
        ctx(|c| {
            if c.runtime_err.is_none() {
                c.runtime_err = Some(s)
            }
        });
        Err(ProgramError::InvalidArgument)
    };
    let (caller, privs) = ctx(|c| {
        let f = c.stack.last().unwrap();
        (f.program, f.privs.clone())
    });
    let mut pda_signers = vec![];
    for s in signers_seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(p) => pda_signers.push(p),
            Err(_) => return fail("invalid signer seeds".into()),
        }
    }
    for m in &instruction.accounts {
        let (s, w) = match privs.get(&m.pubkey) {
            Some(p) => *p,
            None => return fail(format!("cpi account {} not in caller", m.pubkey)),
        };
        if m.is_writable && !w {
            return fail(format!("cpi writable privilege escalation {}", m.pubkey));
        }
        if m.is_signer && !s && !pda_signers.contains(&m.pubkey) {
            return fail(format!("cpi signer privilege escalation {}", m.pubkey));
        }
    }
    if !privs.contains_key(&instruction.program_id) {
        return fail(format!("cpi program {} not in caller", instruction.program_id));
    }
    // sync caller memory -> ctx
    for m in &instruction.accounts {
        let ai = match account_infos.iter().find(|a| *a.key == m.pubkey) {
            Some(ai) => ai,
            // programs need not be passed along
            None if ctx(|c| c.get(&m.pubkey).executable) => continue,
            None => return fail(format!("cpi missing account info {}", m.pubkey)),
        };
        let r = ctx(|c| -> Result<(), String> {
            let pre = c.get(&m.pubkey);
            // the runtime reads program memory regardless of RefCell borrows
            let d: &[u8] = unsafe { &*ai.data.as_ptr() };
            let lamports = unsafe { **ai.lamports.as_ptr() };
            let w = privs[&m.pubkey].1;
            check_change(&caller, &m.pubkey, &pre, w, lamports, ai.owner, d)?;
            if pre.lamports != lamports || pre.owner != *ai.owner || pre.data != *d {
                c.work.insert(
                    m.pubkey,
                    Acc {
                        lamports,
                        owner: *ai.owner,
                        data: d.to_vec(),
                        executable: pre.executable,
                    },
                );
            }
            Ok(())
        });
        if let Err(e) = r {
            return fail(e);
        }
    }
    let r = exec(
        &instruction.program_id,
        &instruction.accounts,
        &instruction.data,
    );
    match r {
        Ok(()) => {}
        // In the real runtime a failing CPI aborts the whole transaction. Programs here always
        // propagate the error, which has the same effect.
        Err(TxErr::Custom(n)) => return Err(ProgramError::Custom(n)),
        Err(TxErr::Program(n)) => return Err(ProgramError::from(n)),
        Err(TxErr::Panic(s)) => return fail(format!("cpi panic: {s}")),
        Err(TxErr::Runtime(s)) => return fail(s),
    }
    // sync ctx -> caller memory
    for m in &instruction.accounts {
        for ai in account_infos.iter().filter(|a| *a.key == m.pubkey) {
            if !privs[&m.pubkey].1 {
                continue;
            }
            let post = ctx(|c| c.get(&m.pubkey));
            unsafe { **ai.lamports.as_ptr() = post.lamports };
            let len = unsafe { (*ai.data.as_ptr()).len() };
            if len != post.data.len() {
                if ai.realloc(post.data.len(), false).is_err() {
                    return fail("cpi realloc too large".into());
                }
            }
            let d: &mut [u8] = unsafe { &mut *ai.data.as_ptr() };
            if *d != *post.data {
                d.copy_from_slice(&post.data);
            }
            if *ai.owner != post.owner {
                ai.assign(&post.owner);
            }
        }
    }
    Ok(())
}

fn exec_system(metas: &[AccountMeta], data: &[u8]) -> Result<(), TxErr> {
    let e = |s: &str| TxErr::Runtime(format!("system: {s}"));
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| e("bad ix"))?;
    let key = |i: usize| metas.get(i).map(|m| m.pubkey).ok_or_else(|| e("accounts"));
    let signer = |k: &Pubkey| metas.iter().any(|m| m.pubkey == *k && m.is_signer);
    let writable = |k: &Pubkey| metas.iter().any(|m| m.pubkey == *k && m.is_writable);
    let transfer = |from: &Pubkey, to: &Pubkey, lamports: u64| -> Result<(), TxErr> {
        if !signer(from) || !writable(from) || !writable(to) {
            return Err(e("transfer privileges"));
        }
        ctx(|c| {
            let mut f = c.get(from);
            if f.owner != system_program::id() || !f.data.is_empty() {
                return Err(e("transfer from non-system account"));
            }
            if f.lamports < lamports {
                return Err(TxErr::Custom(1));
            }
            f.lamports -= lamports;
            c.work.insert(*from, f);
            let mut t = c.get(to);
            t.lamports += lamports;
            c.work.insert(*to, t);
            Ok(())
        })
    };
    let allocate = |k: &Pubkey, space: u64| -> Result<(), TxErr> {
        if !signer(k) || !writable(k) {
            return Err(e("allocate privileges"));
        }
        ctx(|c| {
            let mut a = c.get(k);
            if !a.data.is_empty() || a.owner != system_program::id() {
                return Err(TxErr::Custom(0));
            }
            a.data = vec![0; space as usize];
            c.work.insert(*k, a);
            Ok(())
        })
    };
    let assign = |k: &Pubkey, owner: &Pubkey| -> Result<(), TxErr> {
        if !signer(k) || !writable(k) {
            return Err(e("assign privileges"));
        }
        ctx(|c| {
            let mut a = c.get(k);
            if a.owner != system_program::id() {
                return Err(e("assign"));
            }
            a.owner = *owner;
            c.work.insert(*k, a);
            Ok(())
        })
    };
    match ix {
        SystemInstruction::CreateAccount {
            lamports,
            space,
            owner,
        } => {
            let (from, to) = (key(0)?, key(1)?);
            if ctx(|c| c.get(&to).lamports > 0) {
                return Err(TxErr::Custom(0));
            }
            allocate(&to, space)?;
            assign(&to, &owner)?;
            transfer(&from, &to, lamports)
        }
        SystemInstruction::Transfer { lamports } => transfer(&key(0)?, &key(1)?, lamports),
        SystemInstruction::Allocate { space } => allocate(&key(0)?, space),
        SystemInstruction::Assign { owner } => assign(&key(0)?, &owner),
        _ => Err(e("unsupported")),
    }
}

/// Minimal address lookup table program: create and extend.
fn exec_alt(metas: &[AccountMeta], data: &[u8]) -> Result<(), TxErr> {
    let e = |s: &str| TxErr::Runtime(format!("alt: {s}"));
    let tag = u32::from_le_bytes(data.get(..4).ok_or_else(|| e("data"))?.try_into().unwrap());
    let table = metas.get(0).ok_or_else(|| e("accounts"))?;
    let authority = metas.get(1).ok_or_else(|| e("accounts"))?;
    const META: usize = 56;
    match tag {
        0 => ctx(|c| {
            let mut a = Acc {
                lamports: 1_000_000,
                data: vec![0; META],
                owner: solana_address_lookup_table_program::id(),
                executable: false,
            };
            a.data[0] = 1;
            a.data[4..12].copy_from_slice(&u64::MAX.to_le_bytes());
            a.data[21] = 1;
            a.data[22..54].copy_from_slice(authority.pubkey.as_ref());
            let payer = metas.get(2).ok_or_else(|| e("accounts"))?.pubkey;
            let mut p = c.get(&payer);
            p.lamports -= 1_000_000;
            c.work.insert(payer, p);
            c.work.insert(table.pubkey, a);
            Ok(())
        }),
        2 => {
            if !authority.is_signer || !table.is_writable {
                return Err(e("privileges"));
            }
            ctx(|c| {
                let mut a = c.get(&table.pubkey);
                if a.owner != solana_address_lookup_table_program::id()
                    || a.data[22..54] != *authority.pubkey.as_ref()
                {
                    return Err(e("authority"));
                }
                let n = u64::from_le_bytes(data[4..12].try_into().unwrap()) as usize;
                if data.len() < 12 + n * 32 {
                    return Err(e("data"));
                }
                a.data.extend_from_slice(&data[12..12 + n * 32]);
                c.work.insert(table.pubkey, a);
                Ok(())
            })
        }
        _ => Err(e("unsupported")),
    }
}

impl Sim {
    pub fn new() -> Self {
        init();
        let mut programs: HashMap<Pubkey, Program> = HashMap::new();
        programs.insert(system_program::id(), Program::System);
        programs.insert(solana_address_lookup_table_program::id(), Program::Alt);
        programs.insert(
            spl_token::id(),
            Program::Sbf(|p, a, d| spl_token::processor::Processor::process(p, a, d)),
        );
        programs.insert(
            spl_associated_token_account::id(),
            Program::Sbf(|p, a, d| {
                spl_associated_token_account::processor::process_instruction(p, a, d)
            }),
        );
        programs.insert(
            mango_v4::id(),
            Program::Sbf(|p, a, d| mango_v4::entry(p, a, d)),
        );
        let mut s = Sim {
            accounts: BTreeMap::new(),
            clock: Clock {
                slot: 100,
                epoch_start_timestamp: 0,
                epoch: 0,
                leader_schedule_epoch: 0,
                unix_timestamp: 1_600_000_000,
            },
            programs: Rc::new(HashMap::new()),
            payer: Pubkey::default(),
            key_counter: 0,
            keep_logs: false,
        };
        for k in programs.keys() {
            s.set_program_account(*k);
        }
        s.programs = Rc::new(programs);
        s.set_program_account(sysvar::instructions::id());
        s.set_program_account(sysvar::rent::id());
        s.set_program_account(sysvar::clock::id());
        for k in [
            sysvar::instructions::id(),
            sysvar::rent::id(),
            sysvar::clock::id(),
        ] {
            let data = if k == sysvar::rent::id() {
                bincode::serialize(&Rent::default()).unwrap()
            } else {
                vec![]
            };
            s.accounts.insert(
                k,
                Rc::new(Acc {
                    lamports: 1,
                    data,
                    owner: sysvar::id(),
                    executable: false,
                }),
            );
        }
        let payer = s.new_key();
        s.payer = payer;
        s.accounts.insert(
            payer,
            Rc::new(Acc {
                lamports: 1 << 60,
                ..Acc::default()
            }),
        );
        s
    }

    fn set_program_account(&mut self, k: Pubkey) {
        self.accounts.insert(
            k,
            Rc::new(Acc {
                lamports: 1,
                data: vec![],
                owner: solana_program::bpf_loader::id(),
                executable: true,
            }),
        );
    }

    pub fn add_program(&mut self, k: Pubkey, f: ProgramFn) {
        self.set_program_account(k);
        let mut p = (*self.programs).clone();
        p.insert(k, Program::Sbf(f));
        self.programs = Rc::new(p);
    }

    /// Deterministic fresh address.
    pub fn new_key(&mut self) -> Pubkey {
        self.key_counter += 1;
        Pubkey::new_from_array(
            solana_program::hash::hashv(&[b"key", &self.key_counter.to_le_bytes()]).to_bytes(),
        )
    }

    pub fn get(&self, k: &Pubkey) -> Option<&Acc> {
        self.accounts.get(k).map(|a| &**a)
    }

    pub fn set(&mut self, k: Pubkey, a: Acc) {
        if a.lamports == 0 {
            self.accounts.remove(&k);
        } else {
            self.accounts.insert(k, Rc::new(a));
        }
    }

    /// Executes a transaction atomically. `signers` are the keys that signed.
    pub fn process(
        &mut self,
        ixs: &[Instruction],
        signers: &[Pubkey],
    ) -> Result<TxMeta, TxFail> {
        init();
        let mut c = Ctx {
            base: std::mem::take(&mut self.accounts),
            work: HashMap::new(),
            stack: vec![],
            logs: vec![],
            data: vec![],
            clock: self.clock.clone(),
            rent: Rent::default(),
            programs: self.programs.clone(),
            return_data: None,
            runtime_err: None,
            keep_logs: self.keep_logs,
        };
        let _ = &c.rent;
        let ixs_sysvar = sysvar::instructions::id();
        let needs_ixs = ixs
            .iter()
            .any(|i| i.accounts.iter().any(|m| m.pubkey == ixs_sysvar));
        let mut sysvar_data = vec![];
        if needs_ixs {
            let borrowed: Vec<_> = ixs
                .iter()
                .map(|i| sysvar::instructions::BorrowedInstruction {
                    program_id: &i.program_id,
                    accounts: i
                        .accounts
                        .iter()
                        .map(|m| sysvar::instructions::BorrowedAccountMeta {
                            pubkey: &m.pubkey,
                            is_signer: m.is_signer,
                            is_writable: m.is_writable,
                        })
                        .collect(),
                    data: &i.data,
                })
                .collect();
            sysvar_data = sysvar::instructions::construct_instructions_data(&borrowed);
        }
        // Privileges are transaction-wide per account on Solana.
        let mut w: HashMap<Pubkey, bool> = HashMap::new();
        for i in ixs {
            for m in &i.accounts {
                *w.entry(m.pubkey).or_default() |= m.is_writable;
            }
        }
        w.insert(ixs_sysvar, false);
        let tx_signers: std::collections::HashSet<Pubkey> = ixs
            .iter()
            .flat_map(|i| i.accounts.iter())
            .filter(|m| m.is_signer)
            .map(|m| m.pubkey)
            .collect();
        if needs_ixs {
            c.work.insert(
                ixs_sysvar,
                Acc {
                    lamports: 1,
                    data: sysvar_data,
                    owner: sysvar::id(),
                    executable: false,
                },
            );
        }
        CTX.with(|x| *x.borrow_mut() = Some(c));
        let mut result = Ok(());
        for (n, ix) in ixs.iter().enumerate() {
            if needs_ixs {
                ctx(|c| {
                    sysvar::instructions::store_current_index(
                        &mut c.work.get_mut(&ixs_sysvar).unwrap().data,
                        n as u16,
                    )
                });
            }
            let mut missing = None;
            let metas: Vec<AccountMeta> = ix
                .accounts
                .iter()
                .map(|m| {
                    let signed = m.pubkey == self.payer || signers.contains(&m.pubkey);
                    if m.is_signer && !signed {
                        missing = Some(m.pubkey);
                    }
                    AccountMeta {
                        pubkey: m.pubkey,
                        is_signer: tx_signers.contains(&m.pubkey),
                        is_writable: w[&m.pubkey],
                    }
                })
                .collect();
            let r = if let Some(k) = missing {
                Err(TxErr::Runtime(format!("missing signature {k}")))
            } else {
                exec(&ix.program_id, &metas, &ix.data)
            };
            if let Err(e) = r {
                result = Err((n, e));
                break;
            }
        }
        let mut c = CTX.with(|x| x.borrow_mut().take().unwrap());
        self.accounts = std::mem::take(&mut c.base);
        match result {
            Ok(()) => {
                for (k, a) in c.work {
                    if k == ixs_sysvar {
                        continue;
                    }
                    if a.lamports == 0 {
                        self.accounts.remove(&k);
                    } else {
                        self.accounts.insert(k, Rc::new(a));
                    }
                }
                Ok(TxMeta {
                    logs: c.logs,
                    data: c.data,
                })
            }
            Err((ix, err)) => Err(TxFail {
                ix,
                err,
                logs: c.logs,
            }),
        }
    }
}
