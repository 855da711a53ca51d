//! Minimal NEAR VM host: runs the real contract wasm on wasmer with an in-memory ledger.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use wasmer::{Function, ImportObject, Exports, Instance, Memory, Module, RuntimeError, Store, WasmerEnv, JIT, Cranelift, CraneliftOptLevel};

pub const STORAGE_AMOUNT_PER_BYTE: u128 = 10_000_000_000_000_000_000;
const EXTRA_BYTES_PER_RECORD: u64 = 40;

#[derive(Clone, Debug, PartialEq)]
pub enum PRes { Ok(Vec<u8>), Failed }

#[derive(Clone, Debug)]
pub enum Action {
    Call { method: String, args: Vec<u8>, deposit: u128, gas: u64 },
    Transfer(u128),
    Deploy(Vec<u8>),
    Other(&'static str),
}

#[derive(Clone, Debug)]
pub struct Prom { pub receiver: String, pub actions: Vec<Action>, pub deps: Vec<usize> }

#[derive(Clone, Debug)]
pub enum PNode { Rcpt(usize), And(Vec<usize>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ret { None, Value(Vec<u8>), Promise(usize) }

pub type Storage = BTreeMap<Vec<u8>, Vec<u8>>;

pub struct Code { pub module: Module, pub store: Store, pub len: usize }

pub fn compile(bytes: &[u8]) -> Result<Code, String> {
    let mut c = Cranelift::default();
    c.opt_level(CraneliftOptLevel::Speed);
    let store = Store::new(&JIT::new(c).engine());
    let module = Module::new(&store, bytes).map_err(|e| e.to_string())?;
    Ok(Code { module, store, len: bytes.len() })
}

static COMPILED: std::sync::Mutex<Option<std::collections::HashMap<u64, Option<std::sync::Arc<Code>>>>> = std::sync::Mutex::new(None);
/// Compiled code of these bytes (None = not a contract), kept for the whole run.
pub fn cached(bytes: &[u8]) -> Option<std::sync::Arc<Code>> {
    let k = crate::util::hash64(bytes);
    let hit = COMPILED.lock().unwrap().get_or_insert_with(Default::default).get(&k).cloned();
    match hit { Some(c) => c, None => { let c = compile(bytes).ok().map(std::sync::Arc::new); COMPILED.lock().unwrap().get_or_insert_with(Default::default).entry(k).or_insert(c).clone() } }
}

pub struct Ctx {
    pub current: String, pub signer: String, pub pred: String,
    pub input: Vec<u8>, pub deposit: u128, pub balance: u128,
    pub block: u64, pub ts: u64, pub epoch: u64, pub gas: u64,
    pub is_view: bool,
    pub base: Arc<Storage>, pub overlay: HashMap<Vec<u8>, Option<Vec<u8>>>,
    pub usage: u64,
    pub results: Vec<PRes>,
    // outputs
    pub proms: Vec<Prom>, pub nodes: Vec<PNode>, pub ret: Ret, pub logs: Vec<String>,
    pub fail: Option<String>,
    /// what a view depended on
    pub reads: Vec<Vec<u8>>, pub env_dep: bool,
    /// storage accesses and the bytes they carried
    pub work: (u64, u64),
    regs: HashMap<u64, Vec<u8>>,
    mem: Option<Memory>,
}

impl Ctx {
    pub fn new(current: &str, signer: &str, pred: &str, input: Vec<u8>, deposit: u128, balance: u128, base: Arc<Storage>, usage: u64) -> Self {
        Ctx { current: current.into(), signer: signer.into(), pred: pred.into(), input, deposit, balance, block: 1, ts: 1, epoch: 1, gas: 300_000_000_000_000,
            is_view: false, base, overlay: HashMap::new(), usage, results: vec![], proms: vec![], nodes: vec![], ret: Ret::None, logs: vec![], fail: None, reads: vec![], env_dep: false, work: (0, 0), regs: HashMap::new(), mem: None }
    }
    fn did(&mut self, bytes: usize) { self.work.0 += 1; self.work.1 += bytes as u64; }
    fn sget(&self, k: &[u8]) -> Option<&Vec<u8>> {
        match self.overlay.get(k) { Some(x) => x.as_ref(), None => self.base.get(k) }
    }
}

#[derive(Clone)]
struct Env { p: *mut *mut Ctx }
unsafe impl Send for Env {}
unsafe impl Sync for Env {}
impl WasmerEnv for Env { fn init_with_instance(&mut self, _: &Instance) -> Result<(), wasmer::HostEnvInitError> { Ok(()) } }

type R<T> = Result<T, RuntimeError>;

impl Env {
    #[allow(clippy::mut_from_ref)]
    fn c(&self) -> &mut Ctx { unsafe { &mut **self.p } }
    fn err<T>(&self, m: &str) -> R<T> { let c = self.c(); if c.fail.is_none() { c.fail = Some(m.to_string()); } Err(RuntimeError::new(m.to_string())) }
    fn rd(&self, ptr: u64, len: u64) -> R<Vec<u8>> {
        let c = self.c();
        if len == u64::MAX { return match c.regs.get(&ptr) { Some(v) => Ok(v.clone()), None => self.err("bad register") }; }
        let m = c.mem.as_ref().unwrap();
        let size = m.data_size();
        if ptr.checked_add(len).map_or(true, |e| e > size) { return self.err("mem oob"); }
        unsafe { Ok(std::slice::from_raw_parts(m.data_ptr().add(ptr as usize), len as usize).to_vec()) }
    }
    fn rds(&self, ptr: u64, len: u64) -> R<String> { Ok(String::from_utf8_lossy(&self.rd(ptr, len)?).to_string()) }
    fn wr(&self, ptr: u64, b: &[u8]) -> R<()> {
        let m = self.c().mem.as_ref().unwrap();
        if ptr.checked_add(b.len() as u64).map_or(true, |e| e > m.data_size()) { return self.err("mem oob"); }
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), m.data_ptr().add(ptr as usize), b.len()); }
        Ok(())
    }
    fn rd128(&self, ptr: u64) -> R<u128> { let v = self.rd(ptr, 16)?; let mut a = [0u8; 16]; a.copy_from_slice(&v); Ok(u128::from_le_bytes(a)) }
    fn noview(&self, n: &str) -> R<()> { if self.c().is_view { self.err(&format!("prohibited in view: {}", n)) } else { Ok(()) } }
    fn setreg(&self, r: u64, v: Vec<u8>) { self.c().regs.insert(r, v); }
    fn take(&self, amount: u128) -> R<()> {
        let c = self.c();
        if c.balance < amount { return self.err("balance exceeded"); }
        c.balance -= amount; Ok(())
    }
    fn deps(&self, n: u64) -> R<Vec<usize>> {
        match self.c().nodes.get(n as usize) { Some(PNode::Rcpt(i)) => Ok(vec![*i]), Some(PNode::And(v)) => Ok(v.clone()), None => self.err("bad promise") }
    }
    fn newp(&self, receiver: String, deps: Vec<usize>) -> u64 {
        let c = self.c();
        c.proms.push(Prom { receiver, actions: vec![], deps });
        c.nodes.push(PNode::Rcpt(c.proms.len() - 1));
        (c.nodes.len() - 1) as u64
    }
    fn push(&self, n: u64, a: Action) -> R<()> {
        let c = self.c();
        match c.nodes.get(n as usize) { Some(PNode::Rcpt(i)) => { let i = *i; c.proms[i].actions.push(a); Ok(()) } _ => self.err("bad promise idx") }
    }
}

// ---- host functions
fn read_register(e: &Env, r: u64, ptr: u64) -> R<()> { let v = match e.c().regs.get(&r) { Some(v) => v.clone(), None => return e.err("bad register") }; e.wr(ptr, &v) }
fn register_len(e: &Env, r: u64) -> R<u64> { Ok(e.c().regs.get(&r).map(|v| v.len() as u64).unwrap_or(u64::MAX)) }
fn write_register(e: &Env, r: u64, l: u64, p: u64) -> R<()> { let v = e.rd(p, l)?; e.setreg(r, v); Ok(()) }
fn current_account_id(e: &Env, r: u64) -> R<()> { e.setreg(r, e.c().current.clone().into_bytes()); Ok(()) }
fn signer_account_id(e: &Env, r: u64) -> R<()> { e.noview("signer")?; e.setreg(r, e.c().signer.clone().into_bytes()); Ok(()) }
fn signer_account_pk(e: &Env, r: u64) -> R<()> { e.noview("pk")?; e.setreg(r, vec![0; 33]); Ok(()) }
fn predecessor_account_id(e: &Env, r: u64) -> R<()> { e.noview("predecessor")?; e.setreg(r, e.c().pred.clone().into_bytes()); Ok(()) }
fn input(e: &Env, r: u64) -> R<()> { e.setreg(r, e.c().input.clone()); Ok(()) }
fn block_index(e: &Env) -> R<u64> { e.c().env_dep = true; Ok(e.c().block) }
fn block_timestamp(e: &Env) -> R<u64> { e.c().env_dep = true; Ok(e.c().ts) }
fn epoch_height(e: &Env) -> R<u64> { e.c().env_dep = true; Ok(e.c().epoch) }
fn storage_usage(e: &Env) -> R<u64> { e.c().env_dep = true; Ok(e.c().usage) }
fn account_balance(e: &Env, p: u64) -> R<()> { let b = e.c().balance; e.c().env_dep = true; e.wr(p, &b.to_le_bytes()) }
fn account_locked_balance(e: &Env, p: u64) -> R<()> { e.wr(p, &0u128.to_le_bytes()) }
fn attached_deposit(e: &Env, p: u64) -> R<()> { e.noview("deposit")?; let b = e.c().deposit; e.wr(p, &b.to_le_bytes()) }
fn prepaid_gas(e: &Env) -> R<u64> { e.noview("gas")?; Ok(e.c().gas) }
fn used_gas(e: &Env) -> R<u64> { e.noview("gas")?; Ok(1_000_000_000_000) }
fn random_seed(e: &Env, r: u64) -> R<()> { e.setreg(r, vec![7; 32]); Ok(()) }
fn sha256(e: &Env, l: u64, p: u64, r: u64) -> R<()> { use sha2::Digest; let v = e.rd(p, l)?; e.setreg(r, sha2::Sha256::digest(&v).to_vec()); Ok(()) }
fn keccak256(e: &Env, l: u64, p: u64, r: u64) -> R<()> { use sha3::Digest; let v = e.rd(p, l)?; e.setreg(r, sha3::Keccak256::digest(&v).to_vec()); Ok(()) }
fn keccak512(e: &Env, l: u64, p: u64, r: u64) -> R<()> { use sha3::Digest; let v = e.rd(p, l)?; e.setreg(r, sha3::Keccak512::digest(&v).to_vec()); Ok(()) }
fn value_return(e: &Env, l: u64, p: u64) -> R<()> { let v = e.rd(p, l)?; e.c().ret = Ret::Value(v); Ok(()) }
fn panic_(e: &Env) -> R<()> { e.err("panic") }
fn panic_utf8(e: &Env, l: u64, p: u64) -> R<()> { let m = e.rds(p, l)?; e.err(&m) }
fn log_utf8(e: &Env, l: u64, p: u64) -> R<()> { let m = e.rds(p, l)?; e.c().logs.push(m); Ok(()) }
fn log_utf16(_e: &Env, _l: u64, _p: u64) -> R<()> { Ok(()) }
fn promise_create(e: &Env, al: u64, ap: u64, ml: u64, mp: u64, gl: u64, gp: u64, amt: u64, gas: u64) -> R<u64> {
    let n = promise_batch_create(e, al, ap)?;
    promise_batch_action_function_call(e, n, ml, mp, gl, gp, amt, gas)?; Ok(n)
}
fn promise_then(e: &Env, pi: u64, al: u64, ap: u64, ml: u64, mp: u64, gl: u64, gp: u64, amt: u64, gas: u64) -> R<u64> {
    let n = promise_batch_then(e, pi, al, ap)?;
    promise_batch_action_function_call(e, n, ml, mp, gl, gp, amt, gas)?; Ok(n)
}
fn promise_and(e: &Env, ptr: u64, cnt: u64) -> R<u64> {
    e.noview("promise_and")?;
    let b = e.rd(ptr, cnt * 8)?;
    let mut all = vec![];
    for ch in b.chunks(8) { let mut a = [0u8; 8]; a.copy_from_slice(ch); all.extend(e.deps(u64::from_le_bytes(a))?); }
    let c = e.c(); c.nodes.push(PNode::And(all)); Ok((c.nodes.len() - 1) as u64)
}
fn promise_batch_create(e: &Env, l: u64, p: u64) -> R<u64> { e.noview("promise")?; let a = e.rds(p, l)?; Ok(e.newp(a, vec![])) }
fn promise_batch_then(e: &Env, pi: u64, l: u64, p: u64) -> R<u64> { e.noview("promise")?; let a = e.rds(p, l)?; let d = e.deps(pi)?; Ok(e.newp(a, d)) }
fn promise_batch_action_function_call(e: &Env, n: u64, ml: u64, mp: u64, al: u64, ap: u64, amt: u64, gas: u64) -> R<()> {
    e.noview("promise")?;
    let method = e.rds(mp, ml)?; let args = e.rd(ap, al)?; let deposit = e.rd128(amt)?;
    e.take(deposit)?; e.push(n, Action::Call { method, args, deposit, gas })
}
fn promise_batch_action_transfer(e: &Env, n: u64, amt: u64) -> R<()> { e.noview("promise")?; let d = e.rd128(amt)?; e.take(d)?; e.push(n, Action::Transfer(d)) }
fn promise_batch_action_create_account(e: &Env, n: u64) -> R<()> { e.push(n, Action::Other("create_account")) }
fn promise_batch_action_deploy_contract(e: &Env, n: u64, l: u64, p: u64) -> R<()> { let v = e.rd(p, l)?; e.push(n, Action::Deploy(v)) }
fn promise_batch_action_stake(e: &Env, n: u64, _a: u64, _l: u64, _p: u64) -> R<()> { e.push(n, Action::Other("stake")) }
fn add_key_full(e: &Env, n: u64, _l: u64, _p: u64, _x: u64) -> R<()> { e.push(n, Action::Other("add_key")) }
fn add_key_fc(e: &Env, n: u64, _a: u64, _b: u64, _c: u64, _d: u64, _e2: u64, _f: u64, _g: u64, _h: u64) -> R<()> { e.push(n, Action::Other("add_fc_key")) }
fn delete_key(e: &Env, n: u64, _l: u64, _p: u64) -> R<()> { e.push(n, Action::Other("delete_key")) }
fn delete_account(e: &Env, n: u64, _l: u64, _p: u64) -> R<()> { e.push(n, Action::Other("delete_account")) }
fn promise_results_count(e: &Env) -> R<u64> { e.noview("results")?; Ok(e.c().results.len() as u64) }
fn promise_result(e: &Env, i: u64, r: u64) -> R<u64> {
    e.noview("results")?;
    match e.c().results.get(i as usize).cloned() { None => e.err("bad result idx"), Some(PRes::Ok(v)) => { e.setreg(r, v); Ok(1) } Some(PRes::Failed) => Ok(2) }
}
fn promise_return(e: &Env, n: u64) -> R<()> { e.noview("promise_return")?; match e.c().nodes.get(n as usize) { Some(PNode::Rcpt(i)) => { e.c().ret = Ret::Promise(*i); Ok(()) } _ => e.err("return joint promise") } }
fn storage_write(e: &Env, kl: u64, kp: u64, vl: u64, vp: u64, r: u64) -> R<u64> {
    e.noview("storage_write")?;
    let k = e.rd(kp, kl)?; let v = e.rd(vp, vl)?;
    let c = e.c();
    let old = c.sget(&k).cloned();
    c.did(k.len() + v.len());
    c.usage += v.len() as u64;
    let res = match old {
        Some(o) => { c.usage -= o.len() as u64; e.setreg(r, o); 1 }
        None => { c.usage += EXTRA_BYTES_PER_RECORD + k.len() as u64; 0 }
    };
    c.overlay.insert(k, Some(v)); Ok(res)
}
fn storage_read(e: &Env, kl: u64, kp: u64, r: u64) -> R<u64> {
    let k = e.rd(kp, kl)?;
    let res = match e.c().sget(&k).cloned() { Some(v) => { e.c().did(k.len() + v.len()); e.setreg(r, v); Ok(1) } None => { e.c().did(k.len()); Ok(0) } };
    if e.c().is_view { e.c().reads.push(k); }
    res
}
fn storage_remove(e: &Env, kl: u64, kp: u64, r: u64) -> R<u64> {
    e.noview("storage_remove")?;
    let k = e.rd(kp, kl)?;
    let c = e.c();
    c.did(k.len());
    match c.sget(&k).cloned() {
        Some(v) => { c.usage -= v.len() as u64 + k.len() as u64 + EXTRA_BYTES_PER_RECORD; c.overlay.insert(k, None); e.setreg(r, v); Ok(1) }
        None => Ok(0),
    }
}
fn storage_has_key(e: &Env, kl: u64, kp: u64) -> R<u64> { let k = e.rd(kp, kl)?; e.c().did(k.len()); let x = e.c().sget(&k).is_some() as u64; if e.c().is_view { e.c().reads.push(k); } Ok(x) }
fn validator_stake(e: &Env, _l: u64, _p: u64, s: u64) -> R<()> { e.wr(s, &0u128.to_le_bytes()) }
fn validator_total_stake(e: &Env, s: u64) -> R<()> { e.wr(s, &0u128.to_le_bytes()) }

macro_rules! reg { ($ns:ident, $store:expr, $env:expr; $($name:literal => $f:expr),* $(,)?) => { $( $ns.insert($name, Function::new_native_with_env($store, $env.clone(), $f)); )* } }

fn imports(store: &Store, env: Env) -> ImportObject {
    let mut ns = Exports::new();
    reg!(ns, store, env;
        "read_register" => read_register, "register_len" => register_len, "write_register" => write_register,
        "current_account_id" => current_account_id, "signer_account_id" => signer_account_id, "signer_account_pk" => signer_account_pk,
        "predecessor_account_id" => predecessor_account_id, "input" => input, "block_index" => block_index, "block_timestamp" => block_timestamp,
        "epoch_height" => epoch_height, "storage_usage" => storage_usage, "account_balance" => account_balance, "account_locked_balance" => account_locked_balance,
        "attached_deposit" => attached_deposit, "prepaid_gas" => prepaid_gas, "used_gas" => used_gas, "random_seed" => random_seed,
        "sha256" => sha256, "keccak256" => keccak256, "keccak512" => keccak512, "value_return" => value_return, "panic" => panic_, "panic_utf8" => panic_utf8,
        "log_utf8" => log_utf8, "log_utf16" => log_utf16, "promise_create" => promise_create, "promise_then" => promise_then, "promise_and" => promise_and,
        "promise_batch_create" => promise_batch_create, "promise_batch_then" => promise_batch_then,
        "promise_batch_action_create_account" => promise_batch_action_create_account, "promise_batch_action_deploy_contract" => promise_batch_action_deploy_contract,
        "promise_batch_action_function_call" => promise_batch_action_function_call, "promise_batch_action_transfer" => promise_batch_action_transfer,
        "promise_batch_action_stake" => promise_batch_action_stake, "promise_batch_action_add_key_with_full_access" => add_key_full,
        "promise_batch_action_add_key_with_function_call" => add_key_fc, "promise_batch_action_delete_key" => delete_key,
        "promise_batch_action_delete_account" => delete_account, "promise_results_count" => promise_results_count, "promise_result" => promise_result,
        "promise_return" => promise_return, "storage_write" => storage_write, "storage_read" => storage_read, "storage_remove" => storage_remove,
        "storage_has_key" => storage_has_key, "validator_stake" => validator_stake, "validator_total_stake" => validator_total_stake,
    );
    let mut io = ImportObject::new();
    io.register("env", ns);
    io
}

struct Pooled { inst: Instance, cell: *mut *mut Ctx, image: Vec<u8>, lo: usize, uses: u32, traps: u32 }
impl Drop for Pooled { fn drop(&mut self) { unsafe { drop(Box::from_raw(self.cell)); } } }
thread_local! { static POOL: std::cell::RefCell<HashMap<usize, Pooled>> = std::cell::RefCell::new(HashMap::new()); }

fn fresh(code: &Code) -> Result<Pooled, String> {
    let cell: *mut *mut Ctx = Box::into_raw(Box::new(std::ptr::null_mut()));
    let io = imports(&code.store, Env { p: cell });
    let inst = Instance::new(&code.module, &io).map_err(|e| format!("instantiate: {}", e))?;
    let m = inst.exports.get_memory("memory").map_err(|e| e.to_string())?.clone();
    let all = unsafe { std::slice::from_raw_parts(m.data_ptr(), m.data_size() as usize) };
    // rustc lays out the shadow stack in the first MiB; everything above it (data, bss) is restored before each reuse.
    let first = all.iter().position(|b| *b != 0).unwrap_or(all.len());
    let lo = first.min(1 << 20).min(all.len());
    let image = all[lo..].to_vec();
    Ok(Pooled { inst, cell, image, lo, uses: 0, traps: 0 })
}

/// Runs `method`; on Err the state in ctx must be discarded by the caller.
/// Every call starts from the module's initial memory image, as on chain: instances that ended normally are reused with
/// their data section restored, instances that trapped are thrown away.
pub fn run(code: &Code, method: &str, ctx: &mut Ctx) -> Result<(), String> {
    let key = code as *const Code as usize;
    let p = POOL.with(|p| p.borrow_mut().remove(&key));
    let mut p = match p { Some(p) => p, None => fresh(code)? };
    unsafe { *p.cell = ctx as *mut Ctx; }
    let mem = p.inst.exports.get_memory("memory").unwrap().clone();
    let f = match p.inst.exports.get_native_function::<(), ()>(method) { Ok(f) => f, Err(_) => return Err(format!("MethodNotFound: {}", method)) };
    ctx.mem = Some(mem.clone());
    let r = f.call();
    ctx.mem = None;
    ctx.regs.clear();
    drop(f);
    p.uses += 1;
    let out = match r {
        Ok(()) => Ok(()),
        Err(e) => { p.traps += 1; Err(ctx.fail.take().unwrap_or_else(|| format!("trap: {}", e.message()))) }
    };
    // a trap leaves the stack pointer where it was: an instance survives only a few of them (1 MiB shadow stack)
    if mem.data_size() < (32 << 20) && p.uses < 5000 && p.traps < 6 {
        unsafe {
            std::ptr::copy_nonoverlapping(p.image.as_ptr(), mem.data_ptr().add(p.lo), p.image.len());
            *p.cell = std::ptr::null_mut();
        }
        POOL.with(|q| q.borrow_mut().insert(key, p));
    }
    out
}
