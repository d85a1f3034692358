//! Executes instructions of the real program (linked as `prog`) on concrete accounts.
//! stdin:  framed requests; stdout: framed responses.  CPIs to the token program run
//! spl_token's own processor, CPIs to the system program are emulated, and the checks the
//! runtime makes (privileges of signers and writable accounts, ownership of changed data,
//! conservation of lamports) are made here as well.
use anchor_lang::solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::rc::Rc;

thread_local! {
    static SLOT: RefCell<u64> = RefCell::new(0);
    static PID: RefCell<Pubkey> = RefCell::new(Pubkey::default());
    static TOP: RefCell<Vec<(Pubkey, bool, bool)>> = RefCell::new(vec![]);
    static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]);
    static NLOG: RefCell<u32> = RefCell::new(0);
}

struct Stubs;

fn set_data(ai: &AccountInfo, n: usize) {
    let v: &'static mut [u8] = Box::leak(vec![0u8; n].into_boxed_slice());
    let mut r = ai.data.borrow_mut();
    // same trick as the runtime: the slice the program sees is replaced
    unsafe {
        let p = &mut *r as *mut &mut [u8];
        std::ptr::copy_nonoverlapping(&v as *const &'static mut [u8] as *const u8, p as *mut u8, std::mem::size_of::<&mut [u8]>());
    }
}

fn set_owner(ai: &AccountInfo, o: &Pubkey) {
    unsafe { std::ptr::write_volatile(ai.owner as *const Pubkey as *mut Pubkey, *o) }
}

fn u64at(d: &[u8], i: usize) -> Option<u64> {
    Some(u64::from_le_bytes(d.get(i..i + 8)?.try_into().ok()?))
}

fn system(ais: &[AccountInfo], d: &[u8]) -> Option<ProgramResult> {
    let tag = u32::from_le_bytes(d.get(0..4)?.try_into().ok()?);
    let sys = Pubkey::default();
    let err = Some(Err(ProgramError::Custom(77)));
    let pay = |from: &AccountInfo, to: &AccountInfo, l: u64| -> bool {
        if !from.is_signer || *from.owner != sys || from.lamports() < l || from.data_len() != 0 {
            return false;
        }
        if from.key == to.key {
            return true;
        }
        **from.lamports.borrow_mut() -= l;
        **to.lamports.borrow_mut() += l;
        true
    };
    match tag {
        0 => {
            let (l, sp) = (u64at(d, 4)?, u64at(d, 12)?);
            let o = Pubkey::new(d.get(20..52)?);
            let (f, t) = (ais.get(0)?, ais.get(1)?);
            if !t.is_signer || t.lamports() != 0 || t.data_len() != 0 || *t.owner != sys || !pay(f, t, l) {
                return err;
            }
            set_data(t, sp as usize);
            set_owner(t, &o);
        }
        1 => {
            let t = ais.get(0)?;
            if !t.is_signer || *t.owner != sys {
                return err;
            }
            set_owner(t, &Pubkey::new(d.get(4..36)?));
        }
        2 => {
            if !pay(ais.get(0)?, ais.get(1)?, u64at(d, 4)?) {
                return err;
            }
        }
        8 => {
            let t = ais.get(0)?;
            if !t.is_signer || *t.owner != sys || t.data_len() != 0 {
                return err;
            }
            set_data(t, u64at(d, 4)? as usize);
        }
        _ => return err,
    }
    Some(Ok(()))
}

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if std::env::var_os("NATIVE_LOG").is_some() {
            eprintln!("LOG {}", m);
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let pid = PID.with(|p| *p.borrow());
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &pid).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        let top: Vec<(Pubkey, bool, bool)> = TOP.with(|t| t.borrow().clone());
        let mut v = vec![];
        for m in &ix.accounts {
            let ai = infos.iter().find(|a| *a.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let sg = pdas.contains(&m.pubkey) || top.iter().any(|t| t.0 == m.pubkey && t.1);
            let wr = top.iter().any(|t| t.0 == m.pubkey && t.2);
            if (m.is_signer && !sg) || (m.is_writable && !wr) {
                return Err(ProgramError::Custom(0x9999));
            }
            let mut c = ai.clone();
            c.is_signer = m.is_signer;
            c.is_writable = m.is_writable;
            v.push(c);
        }
        if !top.iter().any(|t| t.0 == ix.program_id) {
            return Err(ProgramError::Custom(0x9998));
        }
        let before: Vec<(Vec<u8>, u64, Pubkey)> = v.iter().map(|a| (a.data.borrow().to_vec(), a.lamports(), *a.owner)).collect();
        let r = if ix.program_id == spl_token::ID {
            spl_token::processor::Processor::process(&spl_token::ID, &v, &ix.data)
        } else if ix.program_id == Pubkey::default() {
            system(&v, &ix.data).unwrap_or(Err(ProgramError::InvalidInstructionData))
        } else {
            Err(ProgramError::IncorrectProgramId)
        };
        r?;
        for (a, b) in v.iter().zip(before.iter()) {
            let changed = a.data.borrow().to_vec() != b.0;
            if changed && b.2 != ix.program_id {
                return Err(ProgramError::Custom(0x9997));
            }
            let w = v.iter().any(|x| x.key == a.key && x.is_writable);
            if (changed || a.lamports() != b.1) && !w {
                return Err(ProgramError::Custom(0x9996));
            }
            if a.lamports() < b.1 && b.2 != ix.program_id {
                return Err(ProgramError::Custom(0x9995));
            }
        }
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.extend_from_slice(ix.program_id.as_ref());
            l.extend_from_slice(&(ix.data.len() as u32).to_le_bytes());
            l.extend_from_slice(&ix.data);
            l.extend_from_slice(&(ix.accounts.len() as u32).to_le_bytes());
            for m in &ix.accounts {
                l.extend_from_slice(m.pubkey.as_ref());
            }
        });
        NLOG.with(|n| *n.borrow_mut() += 1);
        Ok(())
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let mut c = Clock::default();
        c.slot = SLOT.with(|s| *s.borrow());
        unsafe { *(p as *mut Clock) = c }
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() }
        0
    }
}

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn n(&mut self, k: usize) -> &'a [u8] {
        let r = &self.0[self.1..self.1 + k];
        self.1 += k;
        r
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.n(8).try_into().unwrap())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.n(4).try_into().unwrap())
    }
    fn key(&mut self) -> Pubkey {
        Pubkey::new(self.n(32))
    }
}

struct Acc {
    key: Pubkey,
    owner: Box<Pubkey>,
    flags: u8,
    lam: Box<u64>,
    data: Vec<u8>,
}

fn run(req: &[u8]) -> Vec<u8> {
    let mut r = Rd(req, 0);
    let kind = r.u32();
    if kind == 1 {
        // program derived address
        let pid = r.key();
        let k = r.u32();
        let mut seeds = vec![];
        for _ in 0..k {
            let n = r.u32() as usize;
            seeds.push(r.n(n));
        }
        let mut out = vec![];
        match Pubkey::try_find_program_address(&seeds, &pid) {
            Some((p, b)) => {
                out.extend_from_slice(p.as_ref());
                out.push(b);
            }
            None => out.extend_from_slice(&[0; 33]),
        }
        return out;
    }
    let pid = r.key();
    SLOT.with(|s| *s.borrow_mut() = r.u64());
    PID.with(|p| *p.borrow_mut() = pid);
    LOG.with(|l| l.borrow_mut().clear());
    NLOG.with(|l| *l.borrow_mut() = 0);
    let n = r.u32() as usize;
    let mut accs = vec![];
    for _ in 0..n {
        let key = r.key();
        let owner = Box::new(r.key());
        let flags = r.n(1)[0];
        let lam = Box::new(r.u64());
        let dl = r.u32() as usize;
        let data = r.n(dl).to_vec();
        accs.push(Acc { key, owner, flags, lam, data });
    }
    let np = r.u32() as usize;
    let idx: Vec<usize> = (0..np).map(|_| r.u32() as usize).collect();
    let dl = r.u32() as usize;
    let ixd = r.n(dl).to_vec();
    let sum0: u128 = accs.iter().map(|a| *a.lam as u128).sum();
    let pre: Vec<(Vec<u8>, u64, Pubkey)> = accs.iter().map(|a| (a.data.clone(), *a.lam, *a.owner)).collect();
    TOP.with(|t| *t.borrow_mut() = idx.iter().map(|&i| (accs[i].key, accs[i].flags & 1 != 0, accs[i].flags & 2 != 0)).collect());
    let mut cells: HashMap<usize, AccountInfo> = HashMap::new();
    {
        for (i, a) in accs.iter_mut().enumerate() {
            let key: &'static Pubkey = unsafe { &*(&a.key as *const Pubkey) };
            let owner: &'static Pubkey = unsafe { &*(&*a.owner as *const Pubkey) };
            let lam: &'static mut u64 = unsafe { &mut *(&mut *a.lam as *mut u64) };
            let data: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(a.data.as_mut_ptr(), a.data.len()) };
            cells.insert(i, AccountInfo {
                key,
                is_signer: a.flags & 1 != 0,
                is_writable: a.flags & 2 != 0,
                lamports: Rc::new(RefCell::new(lam)),
                data: Rc::new(RefCell::new(data)),
                owner,
                executable: a.flags & 4 != 0,
                rent_epoch: 0,
            });
        }
    }
    let infos: Vec<AccountInfo> = idx.iter().map(|i| cells[i].clone()).collect();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prog::entry(&pid, &infos, &ixd)));
    let mut status = 0u8;
    let mut msg = String::new();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => {
            status = 1;
            msg = format!("{:?}", e);
        }
        Err(_) => status = 2,
    }
    drop(infos);
    let mut out = vec![];
    let mut body = vec![];
    let mut sum1: u128 = 0;
    for i in 0..n {
        let c = &cells[&i];
        let d = match c.data.try_borrow() {
            Ok(d) => d.to_vec(),
            Err(_) => pre[i].0.clone(),
        };
        let l = match c.lamports.try_borrow() {
            Ok(l) => **l,
            Err(_) => pre[i].1,
        };
        sum1 += l as u128;
        let own = *accs[i].owner;
        if status == 0 {
            let w = accs[i].flags & 2 != 0;
            if !w && (d != pre[i].0 || l != pre[i].1 || own != pre[i].2) {
                status = 3;
                msg = format!("read-only account {} modified", i);
            }
        }
        body.extend_from_slice(own.as_ref());
        body.extend_from_slice(&l.to_le_bytes());
        if d == pre[i].0 {
            body.extend_from_slice(&u32::MAX.to_le_bytes());
        } else {
            body.extend_from_slice(&(d.len() as u32).to_le_bytes());
            body.extend_from_slice(&d);
        }
    }
    if status == 0 && sum0 != sum1 {
        status = 3;
        msg = "lamports not conserved".into();
    }
    out.push(status);
    let m = msg.as_bytes();
    out.extend_from_slice(&(m.len() as u32).to_le_bytes());
    out.extend_from_slice(m);
    out.extend_from_slice(&body);
    NLOG.with(|n| out.extend_from_slice(&n.borrow().to_le_bytes()));
    LOG.with(|l| out.extend_from_slice(&l.borrow()));
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let mut i = std::io::stdin();
    let mut o = std::io::stdout();
    loop {
        let mut l = [0u8; 4];
        if i.read_exact(&mut l).is_err() {
            return;
        }
        let n = u32::from_le_bytes(l) as usize;
        let mut b = vec![0u8; n];
        i.read_exact(&mut b).unwrap();
        let r = run(&b);
        o.write_all(&(r.len() as u32).to_le_bytes()).unwrap();
        o.write_all(&r).unwrap();
        o.flush().unwrap();
    }
}
