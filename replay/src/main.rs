// Runs one call of a real contract from a given ledger state, every other contract being a scripted stand-in.
// Input: a JSON array of cases on stdin; output: a JSON array of outcomes.
use serde_json::{json, Value};
use soroban_sdk::testutils::{Events as _, ContractFunctionSet, EnvTestConfig, Ledger as _, LedgerInfo};
use soroban_sdk::xdr::{self, Int128Parts, ScAddress, ScBytes, ScMap, ScMapEntry, ScString, ScSymbol, ScVal, ScVec, UInt128Parts};
use soroban_sdk::{Address, BytesN, Env, Symbol, TryFromVal, Val, Vec as SVec};
use std::cell::RefCell;
use std::collections::HashMap;
use std::collections::VecDeque;

#[derive(Default)]
struct Script {
    queue: HashMap<(String, String), VecDeque<Value>>,
    calls: Vec<Value>,
    unexpected: Vec<Value>,
}
thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
    static NAMES: RefCell<HashMap<[u8; 32], String>> = RefCell::new(HashMap::new());
    static IDS: RefCell<HashMap<String, [u8; 32]>> = RefCell::new(HashMap::new());
}

fn addr_id(name: &str) -> [u8; 32] {
    IDS.with(|i| *i.borrow().get(name).unwrap_or_else(|| panic!("unknown address {}", name)))
}
fn id_name(id: &[u8; 32]) -> String {
    NAMES.with(|n| n.borrow().get(id).cloned()).unwrap_or_else(|| id.iter().map(|b| format!("{:02x}", b)).collect())
}
fn i128_of(v: &Value) -> i128 {
    match v { Value::String(s) => s.parse().unwrap(), v => v.as_i64().map(|x| x as i128).unwrap() }
}
fn to_sc(v: &Value) -> ScVal {
    let a = v.as_array().unwrap();
    match a[0].as_str().unwrap() {
        "void" => ScVal::Void,
        "bool" => ScVal::Bool(a[1].as_bool().unwrap()),
        "u32" => ScVal::U32(i128_of(&a[1]) as u32),
        "i32" => ScVal::I32(i128_of(&a[1]) as i32),
        "u64" => ScVal::U64(i128_of(&a[1]) as u64),
        "i64" => ScVal::I64(i128_of(&a[1]) as i64),
        "i128" => { let x = i128_of(&a[1]); ScVal::I128(Int128Parts { hi: (x >> 64) as i64, lo: x as u64 }) }
        "u128" => { let x: u128 = a[1].as_str().unwrap().parse().unwrap(); ScVal::U128(UInt128Parts { hi: (x >> 64) as u64, lo: x as u64 }) }
        "addr" => ScVal::Address(ScAddress::Contract(xdr::Hash(addr_id(a[1].as_str().unwrap())))),
        "sym" => ScVal::Symbol(ScSymbol(a[1].as_str().unwrap().try_into().unwrap())),
        "str" => ScVal::String(ScString(a[1].as_str().unwrap().try_into().unwrap())),
        "bytes" => { let h = a[1].as_str().unwrap(); let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(); ScVal::Bytes(ScBytes(b.try_into().unwrap())) }
        "vec" => ScVal::Vec(Some(ScVec(a[1].as_array().unwrap().iter().map(to_sc).collect::<Vec<_>>().try_into().unwrap()))),
        "map" => ScVal::Map(Some(ScMap::sorted_from(a[1].as_array().unwrap().iter().map(|kv| ScMapEntry { key: to_sc(&kv[0]), val: to_sc(&kv[1]) }).collect::<Vec<_>>()).unwrap())),
        x => panic!("kind {}", x),
    }
}
fn from_sc(v: &ScVal) -> Value {
    match v {
        ScVal::Void => json!(["void"]),
        ScVal::Bool(b) => json!(["bool", b]),
        ScVal::U32(x) => json!(["u32", x.to_string()]),
        ScVal::I32(x) => json!(["i32", x.to_string()]),
        ScVal::U64(x) => json!(["u64", x.to_string()]),
        ScVal::I64(x) => json!(["i64", x.to_string()]),
        ScVal::I128(p) => json!(["i128", (((p.hi as i128) << 64) | p.lo as i128).to_string()]),
        ScVal::U128(p) => json!(["u128", (((p.hi as u128) << 64) | p.lo as u128).to_string()]),
        ScVal::Address(ScAddress::Contract(h)) => json!(["addr", id_name(&h.0)]),
        ScVal::Address(_) => json!(["addr", "account"]),
        ScVal::Symbol(s) => json!(["sym", s.to_string()]),
        ScVal::String(s) => json!(["str", s.to_string()]),
        ScVal::Bytes(b) => json!(["bytes", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()]),
        ScVal::Vec(Some(x)) => json!(["vec", x.iter().map(from_sc).collect::<Vec<_>>()]),
        ScVal::Map(Some(m)) => json!(["map", m.iter().map(|e| json!([from_sc(&e.key), from_sc(&e.val)])).collect::<Vec<_>>()]),
        ScVal::Error(e) => json!(["error", format!("{:?}", e)]),
        x => json!(["other", format!("{:?}", x)]),
    }
}
fn val_json(env: &Env, v: &Val) -> Value {
    match ScVal::try_from_val(env, v) { Ok(s) => from_sc(&s), Err(_) => json!(["unconvertible"]) }
}

fn sc_addr(env: &Env, a: &Address) -> ScAddress {
    match ScVal::try_from_val(env, &a.to_val()) { Ok(ScVal::Address(x)) => x, _ => panic!("address") }
}

struct Mock;
impl ContractFunctionSet for Mock {
    fn call(&self, func: &str, env: Env, args: &[Val]) -> Option<Val> {
        let me = env.current_contract_address();
        let ScAddress::Contract(h) = sc_addr(&env, &me) else { return None };
        let name = id_name(&h.0);
        let aj: Vec<Value> = args.iter().map(|a| val_json(&env, a)).collect();
        let r = SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            s.calls.push(json!({"addr": name, "fn": func, "args": aj}));
            match s.queue.get_mut(&(name.clone(), func.to_string())).and_then(|q| q.pop_front()) {
                Some(v) => Some(v),
                None => { s.unexpected.push(json!({"addr": name, "fn": func})); None }
            }
        });
        match r {
            Some(v) => {
                if v[0] == "panic" { panic!("scripted failure"); }
                Some(Val::try_from_val(&env, &to_sc(&v)).unwrap())
            }
            None => Some(Val::VOID.into()),
        }
    }
}

// stands in for a deployed contract: initialize(7 values) records its arguments under the keys 0 to 6 (see tools/standin.py)
const STANDIN: &str = "0061736d0100000001130260037e7e7e017e60077e7e7e7e7e7e7e017e020701016c015f000003020101070e010a696e697469616c697a6500010a60015e0042042000420110001a4284808080102001420110001a4284808080202002420110001a4284808080302003420110001a4284808080c0002004420110001a4284808080d0002005420110001a4284808080e0002006420110001a42020b001e11636f6e7472616374656e766d6574617630000000000000001400000000";

/// gives a name to a contract that the call deployed, and reports what it was initialised with
fn deployed(env: &Env, ret: &Value, count: &mut u32) {
    let Some(a) = ret.as_array() else { return };
    if a[0] != "addr" { return }
    let n = a[1].as_str().unwrap();
    if n.len() != 64 || !n.bytes().all(|b| b.is_ascii_hexdigit()) { return }
    let mut id = [0u8; 32];
    for i in 0..32 { id[i] = u8::from_str_radix(&n[2 * i..2 * i + 2], 16).unwrap(); }
    let name = format!("deployed{}", count);
    *count += 1;
    NAMES.with(|m| m.borrow_mut().insert(id, name.clone()));
    IDS.with(|m| m.borrow_mut().insert(name.clone(), id));
    let snap = env.to_snapshot();
    let mut args: Vec<Value> = vec![Value::Null; 7];
    for (_, (e, _)) in snap.ledger.ledger_entries.iter() {
        if let xdr::LedgerEntryData::ContractData(d) = &e.data {
            if d.contract != ScAddress::Contract(xdr::Hash(id)) { continue; }
            if let ScVal::U32(i) = d.key { args[i as usize] = from_sc(&d.val); }
        }
    }
    if args.iter().all(|a| !a.is_null()) { SCRIPT.with(|s| s.borrow_mut().calls.push(json!({"addr": name, "fn": "initialize", "args": args}))); }
}

fn run(case: &Value) -> Value {
    NAMES.with(|n| n.borrow_mut().clear());
    IDS.with(|n| n.borrow_mut().clear());
    let mut names = vec![];
    for a in case["addresses"].as_array().unwrap() {
        let n = a[0].as_str().unwrap().to_string();
        let ord = a[1].as_u64().unwrap() as u32;
        let mut id = [0u8; 32];
        id[0..4].copy_from_slice(&(ord + 1).to_be_bytes());
        for (i, b) in n.bytes().enumerate().take(24) { id[8 + i] = b; }
        NAMES.with(|m| m.borrow_mut().insert(id, n.clone()));
        IDS.with(|m| m.borrow_mut().insert(n.clone(), id));
        names.push(n);
    }
    let env = Env::new_with_config(EnvTestConfig { capture_snapshot_at_drop: false });
    env.budget().reset_unlimited();
    env.ledger().set(LedgerInfo {
        timestamp: i128_of(&case["timestamp"]) as u64,
        protocol_version: 20,
        sequence_number: i128_of(&case["sequence"]) as u32,
        network_id: [0; 32],
        base_reserve: 10,
        min_temp_entry_ttl: 16,
        min_persistent_entry_ttl: 17280 * 30,
        max_entry_ttl: 17280 * 365,
    });
    let address = |n: &str| -> Address { Address::try_from_val(&env, &ScVal::Address(ScAddress::Contract(xdr::Hash(addr_id(n))))).unwrap() };
    let target = case["contract"].as_str().unwrap();
    for n in &names { if n != target { env.register_contract(&address(n), Mock); } }
    let me = address(target);
    match case["crate"].as_str().unwrap() {
        "pool" => { env.register_contract(&me, pool::PoolContract {}); }
        "backstop" => { env.register_contract(&me, backstop::BackstopContract {}); }
        "emitter" => { env.register_contract(&me, emitter::EmitterContract {}); }
        "pool_factory" => {
            env.register_contract(&me, pool_factory::PoolFactoryContract {});
            let w: Vec<u8> = (0..STANDIN.len() / 2).map(|i| u8::from_str_radix(&STANDIN[2 * i..2 * i + 2], 16).unwrap()).collect();
            env.deployer().upload_contract_wasm(w.as_slice());
        }
        x => panic!("crate {}", x),
    }
    let val = |v: &Value| -> Val { Val::try_from_val(&env, &to_sc(v)).unwrap() };
    env.as_contract(&me, || {
        for e in case["storage"].as_array().unwrap() {
            let (k, v) = (val(&e[1]), val(&e[2]));
            match e[0].as_str().unwrap() {
                "instance" => env.storage().instance().set(&k, &v),
                "persistent" => env.storage().persistent().set(&k, &v),
                _ => { env.storage().temporary().set(&k, &v); env.storage().temporary().extend_ttl(&k, 3_000_000, 3_000_000); }
            }
        }
    });
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        *s = Script::default();
        for r in case["script"].as_array().unwrap() {
            s.queue.entry((r["addr"].as_str().unwrap().into(), r["fn"].as_str().unwrap().into())).or_default().push_back(r["ret"].clone());
        }
    });
    env.mock_all_auths_allowing_non_root_auth();
    let mut steps = vec![];
    let mut count = 0;
    for call in case["calls"].as_array().unwrap() {
        if let Some(t) = call.get("timestamp") { let mut l = env.ledger().get(); l.timestamp = i128_of(t) as u64; env.ledger().set(l); }
        if let Some(t) = call.get("sequence") { let mut l = env.ledger().get(); l.sequence_number = i128_of(t) as u32; env.ledger().set(l); }
        let mut args: SVec<Val> = SVec::new(&env);
        for a in call["args"].as_array().unwrap() { args.push_back(val(a)); }
        SCRIPT.with(|s| s.borrow_mut().calls.clear());
        let f = Symbol::new(&env, call["fn"].as_str().unwrap());
        let before = env.events().all().len();
        let r = env.try_invoke_contract::<Val, soroban_sdk::Error>(&me, &f, args);
        let published = env.events().all();
        if let Ok(Ok(v)) = &r { deployed(&env, &val_json(&env, v), &mut count); }
        let events: Vec<Value> = published.iter().skip(before as usize).filter(|(a, _, _)| *a == me)
            .map(|(_, t, d)| json!([["vec", t.iter().map(|x| val_json(&env, &x)).collect::<Vec<_>>()], val_json(&env, &d)])).collect();
        let (ok, ret) = match &r {
            Ok(Ok(v)) => (true, val_json(&env, v)),
            Ok(Err(_)) => (false, json!(["unconvertible"])),
            Err(Ok(e)) => (false, json!(["error", format!("{:?}", e)])),
            Err(Err(e)) => (false, json!(["abort", format!("{:?}", e)])),
        };
        let auths: Vec<Value> = env.auths().iter().map(|(a, _)| match sc_addr(&env, a) { ScAddress::Contract(h) => json!(id_name(&h.0)), _ => json!("account") }).collect();
        let calls = SCRIPT.with(|s| s.borrow().calls.clone());
        steps.push(json!({"ok": ok, "ret": ret, "calls": calls, "auths": auths, "events": events}));
    }
    // the ledger afterwards
    let snap = env.to_snapshot();
    let mut store = vec![];
    let mut ttl = vec![];
    let mut kept = vec![];
    let myid = xdr::Hash(addr_id(target));
    for (_, (e, until)) in snap.ledger.ledger_entries.iter() {
        if let xdr::LedgerEntryData::ContractData(d) = &e.data {
            if d.contract != ScAddress::Contract(myid.clone()) { continue; }
            match (&d.key, &d.val) {
                (ScVal::LedgerKeyContractInstance, ScVal::ContractInstance(i)) => {
                    kept.push(json!(["instance", until.unwrap_or(0).to_string()]));
                    if let Some(m) = &i.storage { for kv in m.iter() { store.push(json!(["instance", from_sc(&kv.key), from_sc(&kv.val)])); } }
                }
                (ScVal::LedgerKeyNonce(_), _) => {}
                (k, v) => {
                    let kind = match d.durability { xdr::ContractDataDurability::Temporary => "temporary", _ => "persistent" };
                    if kind == "temporary" { ttl.push(json!([from_sc(k), until.unwrap_or(0).to_string()])); } else { kept.push(json!([from_sc(k), until.unwrap_or(0).to_string()])); }
                    store.push(json!([kind, from_sc(k), from_sc(v)]));
                }
            }
        }
    }
    let unexpected = SCRIPT.with(|s| s.borrow().unexpected.clone());
    let _ = BytesN::from_array(&env, &[0; 32]);
    json!({"steps": steps, "storage": store, "ttl": ttl, "kept": kept, "unexpected": unexpected})
}

fn main() {
    std::panic::set_hook(Box::new(|i| { if std::env::var("REPLAY_VERBOSE").is_ok() { eprintln!("{}", i); } }));
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let cases: Value = serde_json::from_str(&s).unwrap();
    let out: Vec<Value> = cases.as_array().unwrap().iter().map(|c| {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c))) { Ok(v) => v, Err(e) => json!({"crash": e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()}) }
    }).collect();
    println!("{}", serde_json::to_string(&out).unwrap());
}
