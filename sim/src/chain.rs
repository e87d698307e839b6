//! A small deterministic Solana-like ledger: accounts, clock, transactions, cross-program
//! invocation with privilege checks, atomic rollback. The programs that run on it (phoenix-v1 and
//! spl-token) are the real ones; the system program, sysvars and the runtime rules are simulated.
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent, system_program,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const SPARE: usize = 10 * 1024;

#[derive(Clone, PartialEq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Rc<Vec<u8>>,
    pub executable: bool,
}
impl Acct {
    pub fn empty() -> Acct {
        Acct { lamports: 0, owner: system_program::id(), data: Rc::new(vec![]), executable: false }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

/// What the k-th system call of an instruction does when the fault plan says so.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AbortKind {
    /// the call reports an error to the program
    Error,
    /// the virtual machine stops the program there (compute budget, memory, stack)
    Kill,
}

#[derive(Clone, Debug, Default)]
pub struct IxOut {
    pub ok: bool,
    pub err: String,
    pub panicked: bool,
    /// a nested call or sysvar read failed but the program reported success
    pub swallowed: bool,
    pub fault_fired: bool,
    /// a runtime rule broken by the program (the real runtime would abort the transaction)
    pub rt_violation: Option<String>,
    pub logs: Vec<Vec<u8>>,
    pub ret: Option<Vec<u8>>,
    pub syscalls: u32,
    pub cpis: u32,
    /// a nested call of the program to itself was refused
    pub log_failed: bool,
}

struct Slot {
    key: Pubkey,
    writable: bool,
    off: usize, // offset of the dup byte
    // checkpoint of what the current program has seen last
    ck_lamports: u64,
    ck_owner: Pubkey,
    ck_data: Option<Rc<Vec<u8>>>, // None: data is the running program's own and writable
}
impl Slot {
    fn owner_off(&self) -> usize { self.off + 8 + 32 }
    fn lam_off(&self) -> usize { self.off + 8 + 64 }
    fn len_off(&self) -> usize { self.off + 8 + 72 }
    fn data_off(&self) -> usize { self.off + 8 + 80 }
}

#[derive(Default)]
struct Ctx {
    slot: u64,
    ts: i64,
    syscalls: u32,
    abort: Option<(u32, AbortKind)>,
    fault_fired: bool,
    call_failed: Option<String>,
    log_failed: bool,
    rt_violation: Option<String>,
    programs: Vec<Pubkey>,
    slots: Vec<Slot>,
    logs: Vec<Vec<u8>>,
    ret: Option<(Pubkey, Vec<u8>)>,
    cpis: u32,
    base: usize,
    execs: Vec<Pubkey>,
    // lamports and size of each account when the instruction began
    first: Vec<(u64, usize)>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static BUF: RefCell<Vec<u128>> = RefCell::new(Vec::new());
    static PDA: RefCell<HashMap<Vec<u8>, Option<Pubkey>>> = RefCell::new(HashMap::new());
}

pub fn phoenix_id() -> Pubkey { phoenix::id() }

/// create_program_address with a cache; `seeds` already contain the bump.
pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Option<Pubkey> {
    let mut k = Vec::with_capacity(128);
    k.extend_from_slice(program.as_ref());
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    PDA.with(|c| {
        if let Some(v) = c.borrow().get(&k) {
            return *v;
        }
        let v = Pubkey::create_program_address(seeds, program).ok();
        c.borrow_mut().insert(k, v);
        v
    })
}
/// find_program_address with the same cache
pub fn find_pda(seeds: &[&[u8]], program: &Pubkey) -> (Pubkey, u8) {
    for b in (0..=255u8).rev() {
        let bb = [b];
        let mut s: Vec<&[u8]> = seeds.to_vec();
        s.push(&bb);
        if let Some(p) = pda(&s, program) {
            return (p, b);
        }
    }
    panic!("no pda")
}

struct Stubs;
fn tick() -> Option<AbortKind> {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let n = c.syscalls;
        c.syscalls += 1;
        match c.abort {
            Some((k, kind)) if k == n => {
                c.fault_fired = true;
                Some(kind)
            }
            _ => None,
        }
    })
}
fn sys_fault() -> bool {
    match tick() {
        Some(AbortKind::Kill) => panic!("sim: killed"),
        Some(AbortKind::Error) => {
            CTX.with(|c| c.borrow_mut().call_failed = Some("injected".into()));
            true
        }
        None => false,
    }
}

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        if sys_fault() {
            return program_error_code();
        }
        let (slot, ts) = CTX.with(|c| {
            let c = c.borrow();
            (c.slot, c.ts)
        });
        unsafe {
            *(a as *mut Clock) = Clock {
                slot,
                epoch_start_timestamp: 0,
                epoch: slot / 432_000,
                leader_schedule_epoch: 0,
                unix_timestamp: ts,
            };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        if sys_fault() {
            return program_error_code();
        }
        unsafe { *(a as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| c.borrow().ret.clone())
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.programs.last().copied().unwrap_or_default();
            c.ret = Some((p, d.to_vec()));
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().programs.len() as u64)
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let r = if sys_fault() { Err(ProgramError::Custom(0xfa17)) } else { cpi(ix, infos, seeds) };
        if let Err(e) = &r {
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                if c.call_failed.is_none() {
                    c.log_failed = ix.program_id == phoenix_id();
                    c.call_failed = Some(format!("nested call failed: {e:?}"));
                }
            });
        }
        r
    }
}
fn program_error_code() -> u64 {
    0xfa17
}

unsafe fn rd<T: Copy>(base: usize, off: usize) -> T {
    std::ptr::read_unaligned((base + off) as *const T)
}
unsafe fn raw_data<'a>(base: usize, s: &Slot) -> &'a [u8] {
    let len: u64 = rd(base, s.len_off());
    std::slice::from_raw_parts((base + s.data_off()) as *const u8, len as usize)
}

/// Did the running program only do what the runtime lets it do since the last checkpoint?
fn verify(c: &mut Ctx, prog: &Pubkey, last: bool) -> Result<(), String> {
    let base = c.base;
    let mut sum: i128 = 0;
    for s in c.slots.iter() {
        let (lam, owner): (u64, Pubkey) = unsafe { (rd(base, s.lam_off()), rd(base, s.owner_off())) };
        sum += lam as i128 - s.ck_lamports as i128;
        if lam != s.ck_lamports && !s.writable {
            return Err(format!("lamports of read-only account {} changed", s.key));
        }
        if lam < s.ck_lamports && s.ck_owner != *prog {
            return Err(format!("lamports of account {} taken by a program that does not own it", s.key));
        }
        if owner != s.ck_owner {
            if !s.writable || s.ck_owner != *prog {
                return Err(format!("owner of account {} changed illegally", s.key));
            }
            if unsafe { raw_data(base, s) }.iter().any(|b| *b != 0) {
                return Err(format!("owner of account {} changed with data in it", s.key));
            }
        }
        if let Some(d) = &s.ck_data {
            let now = unsafe { raw_data(base, s) };
            if now != d.as_slice() && (!s.writable || s.ck_owner != *prog) {
                return Err(format!("data of account {} changed illegally", s.key));
            }
        }
    }
    if last {
        // an account a program owns must not be left below what rent exemption asks of its size
        let rent = Rent::default();
        for (i, s) in c.slots.iter().enumerate().filter(|(_, s)| s.writable) {
            let (lam, len, owner): (u64, u64, Pubkey) =
                unsafe { (rd(base, s.lam_off()), rd(base, s.len_off()), rd(base, s.owner_off())) };
            if owner != system_program::id() && lam > 0 && lam < rent.minimum_balance(len as usize) {
                let (l0, n0) = c.first[i];
                if l0 == 0 || l0 >= rent.minimum_balance(n0) || len as usize != n0 {
                    return Err(format!("account {} left below rent exemption", s.key));
                }
            }
        }
    }
    if sum != 0 {
        return Err(format!("instruction changed the sum of lamports by {sum}"));
    }
    Ok(())
}
fn checkpoint(c: &mut Ctx, prog: &Pubkey) {
    let base = c.base;
    for s in c.slots.iter_mut() {
        unsafe {
            s.ck_lamports = rd(base, s.lam_off());
            s.ck_owner = rd(base, s.owner_off());
            if s.writable && s.ck_owner == *prog {
                s.ck_data = None;
            } else {
                let now = raw_data(base, s);
                if s.ck_data.as_ref().map(|d| d.as_slice() != now).unwrap_or(true) {
                    s.ck_data = Some(Rc::new(now.to_vec()));
                }
            }
        }
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = CTX.with(|c| *c.borrow().programs.last().unwrap());
    let depth = CTX.with(|c| c.borrow().programs.len());
    if depth >= 5 {
        return Err(ProgramError::Custom(0xdeeb));
    }
    let mut signers = vec![];
    for s in seeds {
        match pda(s, &caller) {
            Some(p) => signers.push(p),
            None => return Err(ProgramError::InvalidSeeds),
        }
    }
    // the loader's limit on what a nested call may carry
    if ix.data.len() + 34 * ix.accounts.len() > 1280 {
        return Err(ProgramError::Custom(0xb16));
    }
    let callable = CTX.with(|c| {
        let c = c.borrow();
        c.execs.contains(&ix.program_id) && (!c.programs.contains(&ix.program_id) || caller == ix.program_id)
    });
    if !callable {
        return Err(ProgramError::Custom(0xca11));
    }
    let mut args: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let ai = infos.iter().find(|a| *a.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
        // the account must be one the caller itself was given, with at least these privileges
        let (known, w) = CTX.with(|c| {
            let c = c.borrow();
            match c.slots.iter().find(|s| s.key == m.pubkey) {
                Some(s) => (true, s.writable),
                None => (false, false),
            }
        });
        if !known {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        if m.is_writable && !(w && ai.is_writable) {
            return Err(ProgramError::Custom(0xe5c1));
        }
        if m.is_signer && !(ai.is_signer || signers.contains(&m.pubkey)) {
            return Err(ProgramError::Custom(0xe5c2));
        }
        let mut a = ai.clone();
        // privileges are the union over the metas of the nested instruction
        a.is_signer = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
        a.is_writable = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
        args.push(a);
    }
    // privilege checks see the caller's flags of the top-level transaction, not of what it passes on
    let bad = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.cpis += 1;
        c.ret = None;
        if depth == 1 && (caller == phoenix_id()) {
            if let Err(e) = verify(&mut c, &caller, false) {
                c.rt_violation = Some(e);
                return true;
            }
        }
        c.programs.push(ix.program_id);
        false
    });
    if bad {
        return Err(ProgramError::Custom(0xbad));
    }
    let r = if ix.program_id == system_program::id() {
        system_cpi(&args, &ix.data)
    } else if ix.program_id == spl_token::id() {
        spl_token::processor::Processor::process(&ix.program_id, &args, &ix.data)
    } else if ix.program_id == phoenix_id() {
        let r = phoenix::process_instruction(&ix.program_id, &args, &ix.data);
        if r.is_ok() && ix.data.first() == Some(&15) {
            CTX.with(|c| c.borrow_mut().logs.push(ix.data.clone()));
        }
        r
    } else {
        Ok(()) // some other program: does nothing
    };
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.programs.pop();
        if depth == 1 && caller == phoenix_id() && r.is_ok() && ix.program_id != phoenix_id() {
            checkpoint(&mut c, &caller);
        }
    });
    r
}

fn u32le(d: &[u8], o: usize) -> Option<u32> { d.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())) }
fn u64le(d: &[u8], o: usize) -> Option<u64> { d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) }
fn keyle(d: &[u8], o: usize) -> Option<Pubkey> { d.get(o..o + 32).map(|b| Pubkey::new_from_array(b.try_into().unwrap())) }

fn grow(a: &AccountInfo, n: u64) -> ProgramResult {
    a.realloc(n as usize, true)
}
/// The four system instructions a nested call may make.
fn system_cpi(a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let bad = ProgramError::InvalidInstructionData;
    let sysid = system_program::id();
    let need = |i: usize| a.get(i).ok_or(ProgramError::NotEnoughAccountKeys);
    let transfer = |from: &AccountInfo, to: &AccountInfo, l: u64| -> ProgramResult {
        if !from.is_signer { return Err(ProgramError::MissingRequiredSignature); }
        if !from.data_is_empty() || *from.owner != sysid { return Err(ProgramError::InvalidArgument); }
        if from.lamports() < l { return Err(ProgramError::Custom(1)); }
        if !from.is_writable || !to.is_writable { return Err(ProgramError::Custom(0xe5c3)); }
        **from.try_borrow_mut_lamports()? -= l;
        **to.try_borrow_mut_lamports()? += l;
        Ok(())
    };
    match u32le(d, 0).ok_or(bad.clone())? {
        0 => {
            let (l, sp, ow) = (u64le(d, 4).ok_or(bad.clone())?, u64le(d, 12).ok_or(bad.clone())?, keyle(d, 20).ok_or(bad)?);
            let (from, to) = (need(0)?, need(1)?);
            if !to.is_signer { return Err(ProgramError::MissingRequiredSignature); }
            if to.lamports() > 0 || !to.data_is_empty() || *to.owner != sysid { return Err(ProgramError::Custom(0)); }
            grow(to, sp)?;
            to.assign(&ow);
            transfer(from, to, l)
        }
        1 => {
            let ow = keyle(d, 4).ok_or(bad)?;
            let t = need(0)?;
            if *t.owner == ow { return Ok(()); }
            if !t.is_signer { return Err(ProgramError::MissingRequiredSignature); }
            if *t.owner != sysid || !t.is_writable { return Err(ProgramError::Custom(0xe5c4)); }
            t.assign(&ow);
            Ok(())
        }
        2 => transfer(need(0)?, need(1)?, u64le(d, 4).ok_or(bad)?),
        8 => {
            let sp = u64le(d, 4).ok_or(bad)?;
            let t = need(0)?;
            if !t.is_signer { return Err(ProgramError::MissingRequiredSignature); }
            if !t.data_is_empty() || *t.owner != sysid || !t.is_writable { return Err(ProgramError::Custom(0)); }
            grow(t, sp)
        }
        _ => Err(bad),
    }
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let show = std::env::var("SIM_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if show {
            eprintln!("{}", i);
        }
    }));
}

#[derive(Clone, Default)]
pub struct Chain {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub slot: u64,
    pub ts: i64,
    drained: bool,
}

impl Chain {
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or_else(Acct::empty)
    }
    /// An account without lamports stays visible to the rest of its transaction.
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        self.drained |= a.lamports == 0 && !a.executable;
        self.accts.insert(k, a);
    }
    /// The end of a transaction: the runtime purges what holds no lamports.
    pub fn settle(&mut self) {
        if self.drained {
            self.drained = false;
            self.accts.retain(|_, a| a.lamports > 0 || a.executable);
        }
    }
    /// Run one instruction. `tx_metas` are the metas of the whole transaction: privileges are the
    /// union over it. State is only written back when the instruction succeeds.
    pub fn exec_ix(&mut self, ix: &Ix, all: &[Ix], abort: Option<(u32, AbortKind)>) -> IxOut {
        let mut out = IxOut::default();
        let is_exec = self.accts.get(&ix.program).map(|a| a.executable).unwrap_or(false);
        if !is_exec {
            out.err = "program is not executable".into();
            return out;
        }
        if ix.program == system_program::id() {
            return self.native_system(ix);
        }
        // union of privileges
        let privs = |k: &Pubkey| -> (bool, bool) {
            let mut s = false;
            let mut w = false;
            for i in all.iter() {
                for m in i.metas.iter() {
                    if m.key == *k {
                        s |= m.signer;
                        w |= m.writable;
                    }
                }
            }
            (s, w)
        };
        // serialise
        let mut uniq: Vec<(Pubkey, usize)> = vec![]; // key -> index in metas
        let mut size = 8 + 8 + ix.data.len() + 64;
        let mut accs: Vec<Acct> = vec![];
        for (i, m) in ix.metas.iter().enumerate() {
            if !uniq.iter().any(|(k, _)| *k == m.key) {
                uniq.push((m.key, i));
                let a = self.get(&m.key);
                size += 88 + a.data.len() + SPARE + 32;
                accs.push(a);
            } else {
                size += 8;
            }
        }
        BUF.with(|b| {
            let mut buf = b.borrow_mut();
            if buf.len() * 16 < size + 64 {
                buf.resize(size / 16 + 64, 0);
            }
            let base = buf.as_mut_ptr() as *mut u8;
            let mut slots: Vec<Slot> = vec![];
            unsafe {
                let w64 = |o: usize, v: u64| std::ptr::write_unaligned(base.add(o) as *mut u64, v);
                w64(0, ix.metas.len() as u64);
                let mut off = 8usize;
                let mut next = 0usize;
                for (i, m) in ix.metas.iter().enumerate() {
                    let (_, first) = *uniq.iter().find(|(k, _)| *k == m.key).unwrap();
                    if first != i {
                        *base.add(off) = first as u8;
                        std::ptr::write_bytes(base.add(off + 1), 0, 7);
                        off += 8;
                        continue;
                    }
                    let a = &accs[next];
                    next += 1;
                    let (s, w) = privs(&m.key);
                    *base.add(off) = 0xff;
                    *base.add(off + 1) = s as u8;
                    *base.add(off + 2) = w as u8;
                    *base.add(off + 3) = a.executable as u8;
                    std::ptr::write_bytes(base.add(off + 4), 0, 4);
                    std::ptr::copy_nonoverlapping(m.key.as_ref().as_ptr(), base.add(off + 8), 32);
                    std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), base.add(off + 40), 32);
                    w64(off + 72, a.lamports);
                    w64(off + 80, a.data.len() as u64);
                    std::ptr::copy_nonoverlapping(a.data.as_ptr(), base.add(off + 88), a.data.len());
                    slots.push(Slot {
                        key: m.key,
                        writable: w,
                        off,
                        ck_lamports: a.lamports,
                        ck_owner: a.owner,
                        ck_data: if w && a.owner == ix.program { None } else { Some(a.data.clone()) },
                    });
                    off += 88 + a.data.len() + SPARE;
                    off += (off as *const u8).align_offset(8);
                    w64(off, 0);
                    off += 8;
                }
                w64(off, ix.data.len() as u64);
                off += 8;
                std::ptr::copy_nonoverlapping(ix.data.as_ptr(), base.add(off), ix.data.len());
                off += ix.data.len();
                std::ptr::copy_nonoverlapping(ix.program.as_ref().as_ptr(), base.add(off), 32);
            }
            let execs: Vec<Pubkey> = ix
                .metas
                .iter()
                .filter(|m| self.accts.get(&m.key).map(|a| a.executable).unwrap_or(false))
                .map(|m| m.key)
                .collect();
            CTX.with(|c| {
                *c.borrow_mut() = Ctx {
                    slot: self.slot,
                    ts: self.ts,
                    abort,
                    programs: vec![ix.program],
                    slots,
                    base: base as usize,
                    execs,
                    first: accs.iter().map(|a| (a.lamports, a.data.len())).collect(),
                    ..Ctx::default()
                }
            });
            let r = catch_unwind(AssertUnwindSafe(|| unsafe {
                let (pid, infos, data) = solana_program::entrypoint::deserialize(base);
                if *pid == phoenix_id() {
                    phoenix::process_instruction(pid, &infos, data)
                } else if *pid == spl_token::id() {
                    spl_token::processor::Processor::process(pid, &infos, data)
                } else {
                    Ok(())
                }
            }));
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                out.fault_fired = c.fault_fired;
                out.syscalls = c.syscalls;
                out.cpis = c.cpis;
                out.log_failed = c.log_failed && !c.fault_fired;
                match r {
                    Err(_) => {
                        out.panicked = true;
                        out.err = "panic".into();
                    }
                    Ok(Err(e)) => out.err = format!("{e:?}"),
                    Ok(Ok(())) => {
                        out.ok = true;
                        if c.rt_violation.is_none() && ix.program == phoenix_id() {
                            if let Err(e) = verify(&mut c, &ix.program, true) {
                                c.rt_violation = Some(e);
                            }
                        }
                        if c.call_failed.is_some() {
                            out.swallowed = true;
                            out.ok = false;
                            out.err = c.call_failed.clone().unwrap();
                        }
                        if let Some(v) = &c.rt_violation {
                            out.ok = false;
                            out.err = v.clone();
                        }
                    }
                }
                out.rt_violation = c.rt_violation.clone();
                if out.ok {
                    out.logs = std::mem::take(&mut c.logs);
                    out.ret = c.ret.take().filter(|(p, _)| *p == ix.program).map(|x| x.1);
                    let base = c.base;
                    let mut next = 0;
                    for s in c.slots.iter() {
                        let old = &accs[next];
                        next += 1;
                        if !s.writable {
                            continue;
                        }
                        unsafe {
                            let lamports: u64 = rd(base, s.lam_off());
                            let owner: Pubkey = rd(base, s.owner_off());
                            let d = raw_data(base, s);
                            let data =
                                if d == old.data.as_slice() { old.data.clone() } else { Rc::new(d.to_vec()) };
                            if lamports != old.lamports || owner != old.owner || !Rc::ptr_eq(&data, &old.data) {
                                self.put(s.key, Acct { lamports, owner, data, executable: old.executable });
                            }
                        }
                    }
                }
            });
        });
        out
    }

    /// Top-level system instructions: create account and transfer.
    fn native_system(&mut self, ix: &Ix) -> IxOut {
        let mut out = IxOut::default();
        let d = &ix.data;
        let r: Result<(), String> = (|| {
            let a = ix.metas.first().ok_or("accounts")?;
            let b = ix.metas.get(1).ok_or("accounts")?;
            let mut from = self.get(&a.key);
            let mut to = self.get(&b.key);
            if !a.signer || !a.writable || !b.writable || a.key == b.key {
                return Err("privilege".to_string());
            }
            if from.owner != system_program::id() || !from.data.is_empty() {
                return Err("from".to_string());
            }
            match u32le(d, 0).ok_or("data")? {
                0 => {
                    let (l, sp, ow) =
                        (u64le(d, 4).ok_or("data")?, u64le(d, 12).ok_or("data")?, keyle(d, 20).ok_or("data")?);
                    if !b.signer || to.lamports > 0 || from.lamports < l || sp > 10 << 20 {
                        return Err("create".to_string());
                    }
                    from.lamports -= l;
                    to = Acct { lamports: l, owner: ow, data: Rc::new(vec![0; sp as usize]), executable: false };
                }
                2 => {
                    let l = u64le(d, 4).ok_or("data")?;
                    if from.lamports < l {
                        return Err("lamports".to_string());
                    }
                    from.lamports -= l;
                    to.lamports += l;
                }
                _ => return Err("unsupported".into()),
            }
            self.put(a.key, from);
            self.put(b.key, to);
            Ok(())
        })();
        out.ok = r.is_ok();
        if let Err(e) = r {
            out.err = e;
        }
        out
    }
}
