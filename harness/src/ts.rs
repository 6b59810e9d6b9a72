//! Bridge to the TypeScript client: one node process per worker thread runs snippets of client
//! code (bundled from $REPO/ts/client/src by bin/ts.sh) over the accounts of a simulated world.
use crate::world::World;
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Node {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = RefCell::new(None);
}

fn start() -> Node {
    let js = concat!(env!("CARGO_MANIFEST_DIR"), "/../build/ts/server.js");
    let mut child = Command::new("node")
        .arg("--max-old-space-size=1500")
        .arg(js)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("node starts");
    let i = child.stdin.take().unwrap();
    let o = BufReader::new(child.stdout.take().unwrap());
    Node { child, i, o }
}

fn call(req: &Value) -> Value {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.get_or_insert_with(start);
        let mut line = serde_json::to_string(req).unwrap();
        line.push('\n');
        n.i.write_all(line.as_bytes()).expect("node accepts requests");
        n.i.flush().unwrap();
        let mut s = String::new();
        n.o.read_line(&mut s).expect("node answers");
        if s.is_empty() {
            panic!("harness: node died");
        }
        serde_json::from_str(&s).expect("node answers JSON")
    })
}

/// One request: snippets (bodies of `async function(C, a)`) run in order against a state.
#[derive(Default)]
pub struct Ts {
    state: Option<Value>,
    ops: Vec<Value>,
}

pub type Out = Vec<Result<Value, String>>;

impl Ts {
    pub fn pure() -> Self {
        Ts::default()
    }
    pub fn on(w: &World, accs: &[usize]) -> Self {
        Ts { state: Some(state(w, accs, &[], w.admin.pubkey())), ops: vec![] }
    }
    pub fn with(w: &World, accs: &[usize], extra: &[Pubkey], wallet: Pubkey) -> Self {
        Ts { state: Some(state(w, accs, extra, wallet)), ops: vec![] }
    }
    pub fn set(&mut self, k: &str, v: Value) {
        if let Some(s) = &mut self.state {
            s[k] = v;
        }
    }
    pub fn op(&mut self, code: &str, a: Value) -> usize {
        self.ops.push(json!({"f": code, "a": a}));
        self.ops.len() - 1
    }
    /// results in the order of the snippets; a failure to load the state is an Err
    pub fn run(self) -> Result<Out, String> {
        let r = call(&json!({"state": self.state, "ops": self.ops}));
        if let Some(e) = r.get("fatal") {
            return Err(format!("the client cannot load the state: {}", e.as_str().unwrap_or("?")));
        }
        Ok(r["r"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| match x.get("ok") {
                Some(v) => Ok(v.clone()),
                None => Err(x["err"].as_str().unwrap_or("?").to_string()),
            })
            .collect())
    }
}

/// the accounts that a request carries
pub fn state_keys(t: &Ts) -> Vec<String> {
    match &t.state {
        Some(s) => s["accounts"].as_array().unwrap().iter().map(|x| x[0].as_str().unwrap().to_string()).collect(),
        None => vec![],
    }
}

pub fn state(w: &World, accs: &[usize], extra: &[Pubkey], wallet: Pubkey) -> Value {
    let mut list = vec![];
    let mut st = w.s.state_accounts();
    // the client takes the first bank of a token that it is given
    let first: Vec<Pubkey> = w.tokens.iter().map(|t| t.bank).collect();
    st.sort_by_key(|(k, _)| first.iter().position(|f| f == k).unwrap_or(99));
    for (k, a) in st {
        if a.data.len() > 16_000 && !extra.contains(&k) {
            continue;
        }
        if a.executable || a.data.is_empty() && !extra.contains(&k) {
            continue;
        }
        list.push(json!([k.to_string(), a.owner.to_string(), base64::encode(&a.data), a.lamports]));
    }
    let c = w.s.clock();
    json!({
        "program": mango_v4::id().to_string(),
        "serumProgram": w.serum_program.to_string(),
        "group": w.group.to_string(),
        "wallet": wallet.to_string(),
        "now": c.unix_timestamp,
        "slot": c.slot,
        "accs": accs.iter().map(|a| w.accs[*a].key.to_string()).collect::<Vec<_>>(),
        "accounts": list,
    })
}

/// a number as the client reported it (BN, I80F48 raw, or JS number)
pub fn big(v: &Value) -> Option<i128> {
    match v {
        Value::String(s) => s.parse().ok(),
        Value::Number(n) => n.as_i64().map(|x| x as i128).or_else(|| {
            let f = n.as_f64()?;
            (f.fract() == 0.0 && f.abs() < 1e30).then_some(f as i128)
        }),
        _ => None,
    }
}
pub fn flt(v: &Value) -> Option<f64> {
    match v {
        Value::Number(n) => n.as_f64(),
        Value::String(s) => s.parse().ok(),
        _ => None,
    }
}
/// raw I80F48 bits as f64
pub fn fix(v: &Value) -> Option<f64> {
    big(v).map(|b| b as f64 / 2f64.powi(48))
}
