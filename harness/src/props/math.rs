//! C23: the checked_math macros against plain Rust and an evaluator of expression trees.
//! Random expressions are compiled in batches (with the macro as built from the current tree),
//! loaded, and run on random values.
use crate::ensure;
use crate::pbt::{verif_dir, Case, Prop, Src, Suite};
use fixed::types::I80F48;
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CString};
use std::path::PathBuf;
use std::process::Command;
use std::sync::{Arc, Mutex, OnceLock};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "random expression trees over u8, i8, u32, i32, u64, i64, i128 and I80F48 (all supported operators, casts, pow, abs, conversions, fields, calls, dereferences, parentheses only where needed or at random) are printed, compiled with the macro and as plain Rust, and run on random values; both results and the order of calls are compared with an evaluator of the tree. `exprs` and `deep` differ in the batches of expressions; `rejects` compiles expressions with unsupported parts. Non-trivial: the expression has at least two operations and some call, variable or literal was not zero",
        assumptions: &["arithmetic of the fixed crate itself is trusted"],
        suites: vec![
            Suite { name: "exprs", quick: 400_000, thorough: 4_000_000, f: exprs },
            Suite { name: "deep", quick: 0, thorough: 20_000_000, f: deep },
            Suite { name: "rejects", quick: 200, thorough: 2_000, f: rejects },
        ],
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    U8,
    I8,
    U32,
    I32,
    U64,
    I64,
    I128,
    Fx,
}
use T::*;
const TYPES: [T; 8] = [U8, I8, U32, I32, U64, I64, I128, Fx];
impl T {
    fn name(self) -> &'static str {
        match self {
            U8 => "u8",
            I8 => "i8",
            U32 => "u32",
            I32 => "i32",
            U64 => "u64",
            I64 => "i64",
            I128 => "i128",
            Fx => "I80F48",
        }
    }
    fn bits(self) -> u32 {
        match self {
            U8 | I8 => 8,
            U32 | I32 => 32,
            U64 | I64 => 64,
            I128 | Fx => 128,
        }
    }
    fn signed(self) -> bool {
        !matches!(self, U8 | U32 | U64)
    }
    fn fits(self, x: i128) -> bool {
        if self.bits() == 128 {
            return true;
        }
        if self.signed() {
            let h = 1i128 << (self.bits() - 1);
            x >= -h && x < h
        } else {
            x >= 0 && x < (1i128 << self.bits())
        }
    }
    fn wrap(self, x: i128) -> i128 {
        match self {
            U8 => x as u8 as i128,
            I8 => x as i8 as i128,
            U32 => x as u32 as i128,
            I32 => x as i32 as i128,
            U64 => x as u64 as i128,
            I64 => x as i64 as i128,
            I128 | Fx => x,
        }
    }
    fn i(self) -> usize {
        TYPES.iter().position(|t| *t == self).unwrap()
    }
}

#[derive(Clone, Debug)]
enum E {
    Var(T, usize),
    Field(T, usize), // s.f_ty / s.n.f_ty
    Deref(T),
    Lit(T, i128, bool), // suffix?
    Bin(char, Box<E>, Box<E>),
    Neg(Box<E>),
    Cast(T, Box<E>),
    From(bool, Box<E>),
    Pow(Box<E>, Box<E>),
    Abs(Box<E>),
    Ones(Box<E>),
    Get(T, u8),  // s.get_ty(): logged
    Call(T, u8), // next_ty(): logged
    Paren(Box<E>),
}
impl E {
    fn ty(&self) -> T {
        match self {
            E::Var(t, _) | E::Field(t, _) | E::Deref(t) | E::Lit(t, ..) | E::Get(t, _) | E::Call(t, _) | E::Cast(t, _) => *t,
            E::Bin(_, l, _) => l.ty(),
            E::Neg(x) | E::Abs(x) | E::Paren(x) | E::Pow(x, _) => x.ty(),
            E::From(..) => Fx,
            E::Ones(_) => U32,
        }
    }
    fn ops(&self) -> usize {
        match self {
            E::Bin(_, l, r) | E::Pow(l, r) => 1 + l.ops() + r.ops(),
            E::Neg(x) | E::Abs(x) | E::Cast(_, x) | E::From(_, x) | E::Ones(x) => 1 + x.ops(),
            E::Paren(x) => x.ops(),
            _ => 0,
        }
    }
    /// binding strength of the printed form
    fn prec(&self) -> u8 {
        match self {
            E::Bin('<' | '>', ..) => 1,
            E::Bin('+' | '-', ..) => 2,
            E::Bin(..) => 3,
            E::Cast(..) => 4,
            E::Neg(_) | E::Deref(_) => 5,
            _ => 6,
        }
    }
    fn print(&self) -> String {
        let at = |e: &E, min: u8| if e.prec() < min { format!("({})", e.print()) } else { e.print() };
        match self {
            E::Var(t, i) => format!("{}_{}", ["a", "b", "c"][*i], t.name().to_lowercase()),
            E::Field(t, 0) => format!("s.f_{}", t.name().to_lowercase()),
            E::Field(t, _) => format!("s.n.f_{}", t.name().to_lowercase()),
            E::Deref(t) => format!("*r_{}", t.name().to_lowercase()),
            E::Lit(t, x, true) => format!("{x}{}", t.name()),
            E::Lit(_, x, false) => format!("{x}"),
            E::Bin(op, l, r) => {
                let p = self.prec();
                // `a as u64 << 1` does not parse
                let l = if *op == '<' && ends_in_cast(l) { format!("({})", l.print()) } else { at(l, p) };
                let r = at(r, p + 1);
                let o = match op {
                    '<' => "<<".to_string(),
                    '>' => ">>".to_string(),
                    c => c.to_string(),
                };
                format!("{l} {o} {r}")
            }
            E::Neg(x) => format!("-{}", at(x, 5)),
            E::Cast(t, x) => format!("{} as {}", at(x, 4), t.name()),
            E::From(num, x) => format!("I80F48::from{}({})", if *num { "_num" } else { "" }, x.print()),
            E::Pow(x, y) => format!("{}.pow({})", at(x, 6), y.print()),
            E::Abs(x) => format!("{}.abs()", at(x, 6)),
            E::Ones(x) => format!("{}.count_ones()", at(x, 6)),
            E::Get(t, k) => format!("s.get{k}_{}()", t.name().to_lowercase()),
            E::Call(t, k) => format!("next{k}_{}()", t.name().to_lowercase()),
            E::Paren(x) => format!("({})", x.print()),
        }
    }
}
fn ends_in_cast(e: &E) -> bool {
    match e {
        E::Cast(..) => true,
        E::Bin(_, _, r) => ends_in_cast(r),
        E::Neg(x) => ends_in_cast(x) && x.prec() >= 5,
        _ => false,
    }
}

/// what the variables hold; index by type, then: a b c field nested deref get0 get1 next0 next1 place
const SLOTS: usize = 11;
type Vals = [[i128; SLOTS]; 8];

fn fx(x: i128) -> I80F48 {
    I80F48::from_bits(x)
}
fn bin(t: T, op: char, l: i128, r: i128) -> Option<i128> {
    if matches!(op, '<' | '>') {
        let n = u32::try_from(r).unwrap();
        if n >= t.bits() {
            return None;
        }
        return Some(t.wrap(if op == '<' { l << n } else { l >> n }));
    }
    if t == Fx {
        let (l, r) = (fx(l), fx(r));
        return match op {
            '+' => l.checked_add(r),
            '-' => l.checked_sub(r),
            '*' => l.checked_mul(r),
            '/' => l.checked_div(r),
            _ => l.checked_rem(r),
        }
        .map(|x| x.to_bits());
    }
    let x = match op {
        '+' => l.checked_add(r)?,
        '-' => l.checked_sub(r)?,
        '*' => l.checked_mul(r)?,
        '/' => l.checked_div(r)?,
        _ => {
            // the quotient must not overflow either
            if !t.fits(l.checked_div(r)?) {
                return None;
            }
            l.checked_rem(r)?
        }
    };
    t.fits(x).then_some(x)
}
fn eval(e: &E, v: &Vals, log: &mut Vec<u8>) -> Option<i128> {
    let t = e.ty();
    Some(match e {
        E::Var(t, i) => v[t.i()][*i],
        E::Field(t, i) => v[t.i()][3 + i],
        E::Deref(t) => v[t.i()][5],
        E::Lit(_, x, _) => *x,
        E::Get(t, k) => {
            log.push((t.i() * 4) as u8 + k);
            v[t.i()][6 + *k as usize]
        }
        E::Call(t, k) => {
            log.push((t.i() * 4) as u8 + 2 + k);
            v[t.i()][8 + *k as usize]
        }
        E::Bin(op, l, r) => {
            let (l, r) = (eval(l, v, log), eval(r, v, log));
            bin(t, *op, l?, r?)?
        }
        E::Neg(x) => {
            let x = eval(x, v, log)?.checked_neg()?;
            t.fits(x).then_some(x)?
        }
        E::Abs(x) => {
            let x = eval(x, v, log)?.checked_abs()?;
            t.fits(x).then_some(x)?
        }
        E::Cast(t, x) => t.wrap(eval(x, v, log)?),
        E::From(_, x) => eval(x, v, log)? << 48,
        E::Pow(x, y) => {
            let (x, y) = (eval(x, v, log), eval(y, v, log));
            let (x, y) = (x?, y?);
            if x == 0 || x == 1 || x == -1 {
                if y == 0 || x == 1 || (x == -1 && y % 2 == 0) { 1 } else { x }
            } else {
                let mut z = 1i128;
                for _ in 0..y {
                    z = z.checked_mul(x)?;
                    t.fits(z).then_some(())?;
                }
                z
            }
        }
        E::Ones(x) => {
            let ty = x.ty();
            let x = eval(x, v, log)?;
            let mask = if ty.bits() == 128 { u128::MAX } else { (1u128 << ty.bits()) - 1 };
            (x as u128 & mask).count_ones() as i128
        }
        E::Paren(x) => eval(x, v, log)?,
    })
}

/// random expression of a type; `left`: dereferences are understood here
fn gen(src: &mut Src, t: T, depth: u64, left: bool) -> E {
    let leaf = depth == 0 || src.chance(15);
    if leaf {
        return match src.weighted(&[10, 3, if left { 2 } else { 0 }, if t == Fx { 0 } else { 4 }, 1, 1]) {
            0 => E::Var(t, src.idx(3)),
            1 => E::Field(t, src.idx(2)),
            2 => E::Deref(t),
            3 => {
                let x = lit(src, t);
                E::Lit(t, x, true)
            }
            4 => E::Get(t, src.below(2) as u8),
            _ => E::Call(t, src.below(2) as u8),
        };
    }
    let d = depth - 1;
    let int = t != Fx;
    let e = match src.weighted(&[
        60,
        if t.signed() { 8 } else { 0 },
        if int { 10 } else { 0 },
        if int { 0 } else { 12 },
        if int { 6 } else { 0 },
        if t.signed() { 6 } else { 0 },
        if t == U32 { 6 } else { 0 },
    ]) {
        0 => {
            let op = src.pick(&['+', '-', '*', '/', '%', '+', '-', '*', '/', '<', '>']);
            let l = gen(src, t, d, true);
            let rt = if matches!(op, '<' | '>') { U32 } else { t };
            let r = if rt != Fx && !(t == Fx && rt == U32) && src.chance(12) {
                let x = if rt == U32 { src.below(12) as i128 } else { lit(src, rt) };
                E::Lit(rt, x, false)
            } else {
                gen(src, rt, d, false)
            };
            E::Bin(op, Box::new(l), Box::new(r))
        }
        1 => E::Neg(Box::new(gen(src, t, d, false))),
        2 => {
            let ft = TYPES[src.idx(7)];
            E::Cast(t, Box::new(gen(src, ft, d, false)))
        }
        3 => {
            let ft = src.pick(&[U8, I8, U32, I32, U64, I64]);
            let num = src.bool();
            E::From(num, Box::new(gen(src, ft, d, false)))
        }
        4 => {
            let y = if src.bool() { E::Lit(U32, src.below(5) as i128, false) } else { gen(src, U32, d.min(1), false) };
            E::Pow(Box::new(gen(src, t, d, false)), Box::new(y))
        }
        5 => E::Abs(Box::new(gen(src, t, d, false))),
        _ => {
            let ft = TYPES[src.idx(7)];
            E::Ones(Box::new(gen(src, ft, d, false)))
        }
    };
    // a literal cannot be negated or have a method unless its type is known: they all carry one here
    if src.chance(12) {
        E::Paren(Box::new(e))
    } else {
        e
    }
}
fn lit(src: &mut Src, t: T) -> i128 {
    let max: u64 = match t {
        U8 => 255,
        I8 => 127,
        U32 => u32::MAX as u64,
        I32 => i32::MAX as u64,
        I64 | I128 => i64::MAX as u64,
        _ => u64::MAX,
    };
    src.log(max) as i128
}

#[derive(Clone, Debug)]
enum Item {
    Math(E),
    OrPanic(E),
    Assign(usize, char, E), // place kind, op
}
const PLACES: [&str; 5] = ["m", "s.n.m", "hm.m", "*place(&cell).borrow_mut()", "holder(pm).m"];
impl Item {
    fn ty(&self) -> T {
        match self {
            Item::Math(e) | Item::OrPanic(e) | Item::Assign(_, _, e) => e.ty(),
        }
    }
    fn text(&self) -> String {
        match self {
            Item::Math(e) => format!("checked_math!({})", e.print()),
            Item::OrPanic(e) => format!("checked_math_or_panic!({})", e.print()),
            Item::Assign(p, o, e) => format!("checked_math_or_panic!({} {o}= {})", PLACES[*p], e.print()),
        }
    }
}
fn item(src: &mut Src) -> Item {
    let t = TYPES[src.idx(8)];
    let depth = 1 + src.below(4);
    match src.weighted(&[7, 1, 2]) {
        0 => Item::Math(gen(src, t, depth, false)),
        1 => Item::OrPanic(gen(src, t, depth, false)),
        _ => {
            let (p, o) = (src.idx(5), src.pick(&['+', '-', '*', '/']));
            Item::Assign(p, o, gen(src, t, depth - 1, false))
        }
    }
}

const BATCH: usize = 400;
struct Batch {
    items: Vec<Item>,
    eval: extern "C" fn(u32, *const i128, *mut i128, *mut u8) -> u32,
    /// expressions that do not compile
    bad: HashMap<usize, String>,
}

fn prelude() -> String {
    let mut s = String::from(
        "#![allow(arithmetic_overflow, unconditional_panic, overflowing_literals, unused, non_snake_case)]
use checked_math::{checked_math, checked_math_or_panic};
use fixed::types::I80F48;
use std::cell::{Cell, RefCell};
thread_local! { static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]); static V: Cell<*const i128> = Cell::new(std::ptr::null()); }
fn val(t: usize, i: usize) -> i128 { unsafe { *V.with(|v| v.get()).add(t * 11 + i) } }
fn logged(k: usize, t: usize, i: usize) -> i128 { LOG.with(|l| l.borrow_mut().push(k as u8)); val(t, i) }
trait Conv { fn of(x: i128) -> Self; fn to(self) -> i128; }
impl Conv for I80F48 { fn of(x: i128) -> Self { I80F48::from_bits(x) } fn to(self) -> i128 { self.to_bits() } }
struct H<M> { m: M }
fn holder<M>(p: &mut M) -> &mut H<M> { LOG.with(|l| l.borrow_mut().push(99)); unsafe { &mut *(p as *mut M as *mut H<M>) } }
fn place<M>(c: &RefCell<M>) -> &RefCell<M> { LOG.with(|l| l.borrow_mut().push(99)); c }
",
    );
    let mut fields = String::new();
    let mut methods = String::new();
    let mut inits = String::new();
    for t in TYPES {
        let (n, l, i) = (t.name(), t.name().to_lowercase(), t.i());
        if t != Fx {
            s += &format!("impl Conv for {n} {{ fn of(x: i128) -> Self {{ x as {n} }} fn to(self) -> i128 {{ self as i128 }} }}\n");
        }
        fields += &format!("f_{l}: {n}, ");
        inits += &format!("f_{l}: Conv::of(val({i}, SLOT)), ");
        for k in 0..2 {
            methods += &format!("fn get{k}_{l}(&self) -> {n} {{ Conv::of(logged({}, {i}, {})) }}\n", i * 4 + k, 6 + k);
            s += &format!("fn next{k}_{l}() -> {n} {{ Conv::of(logged({}, {i}, {})) }}\n", i * 4 + 2 + k, 8 + k);
        }
    }
    s += &format!("struct N<M> {{ m: M, {fields} }}\nstruct S<M> {{ n: N<M>, {fields} }}\nimpl<M> S<M> {{ {methods} }}\n");
    s += &format!(
        "fn mk<M>(m: M) -> S<M> {{ S {{ n: N {{ m, {} }}, {} }} }}\n",
        inits.replace("SLOT", "4"),
        inits.replace("SLOT", "3")
    );
    s
}
fn locals() -> String {
    let mut s = String::new();
    for t in TYPES {
        let (n, l, i) = (t.name(), t.name().to_lowercase(), t.i());
        for (k, v) in ["a", "b", "c"].iter().enumerate() {
            s += &format!("let {v}_{l}: {n} = Conv::of(val({i}, {k})); ");
        }
        s += &format!("let d_{l}: {n} = Conv::of(val({i}, 5)); let r_{l} = &d_{l}; ");
    }
    s
}
/// One function per item and variant, one per line: (value or None, place afterwards)
fn source(items: &[Item], skip: &HashMap<usize, String>) -> (String, usize) {
    let mut s = prelude();
    let locals = locals();
    let first = s.lines().count() + 1;
    for (i, it) in items.iter().enumerate() {
        let n = it.ty().name();
        let ti = it.ty().i();
        let head = format!("m0: *mut i128) -> Option<i128> {{ {locals} let mut s = mk::<{n}>(Conv::of(val({ti}, 10)));");
        let (mac, plain) = if skip.contains_key(&i) {
            ("None".to_string(), "None".to_string())
        } else {
            match it {
                Item::Math(e) => (format!("{{ let r: Option<{n}> = checked_math!({}); r.map(|x| x.to()) }}", e.print()), format!("{{ let r: {n} = {}; Some(r.to()) }}", e.print())),
                Item::OrPanic(e) => (format!("{{ let r: {n} = checked_math_or_panic!({}); Some(r.to()) }}", e.print()), format!("{{ let r: {n} = {}; Some(r.to()) }}", e.print())),
                Item::Assign(p, o, e) => {
                    let run = |stmt: String| {
                        let pl = ["m.to()", "s.n.m.to()", "hm.m.to()", "(*cell.borrow()).to()", "(*pm).to()"][*p];
                        format!("{{ let mut m: {n} = Conv::of(val({ti}, 10)); let mut mm = m; let mut h = H {{ m }}; let hm = &mut h; let pm = &mut mm; let cell = RefCell::new(m);
let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {{ {stmt}; }}));
let after: i128 = {pl}; unsafe {{ *m0 = after; }} if let Err(e) = r {{ std::panic::resume_unwind(e) }}; Some(after) }}").replace('\n', " ")
                    };
                    (run(format!("checked_math_or_panic!({} {o}= {})", PLACES[*p], e.print())), run(format!("{} {o}= {}", PLACES[*p], e.print())))
                }
            }
        };
        s += &format!("fn x{i}({head} {mac} }}\nfn p{i}({head} {plain} }}\n");
    }
    let list = |c: char| (0..items.len()).map(|i| format!("{c}{i}, ")).collect::<String>();
    s += &format!(
        "static X: [fn(*mut i128) -> Option<i128>; {n}] = [{}];\nstatic P: [fn(*mut i128) -> Option<i128>; {n}] = [{}];\n",
        list('x'), list('p'), n = items.len()
    );
    // out: macro value, place, plain value, place; log: length then entries, for both
    s += "
#[no_mangle]
pub extern \"C\" fn run_item(i: u32, vals: *const i128, out: *mut i128, log: *mut u8) -> u32 {
    static HOOK: std::sync::Once = std::sync::Once::new();
    HOOK.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    V.with(|v| v.set(vals));
    let mut code = 0;
    for (k, f) in [X[i as usize], P[i as usize]].iter().enumerate() {
        LOG.with(|l| l.borrow_mut().clear());
        let o = unsafe { out.add(2 * k) };
        let r = std::panic::catch_unwind(|| f(unsafe { o.add(1) }));
        let c = match r {
            Ok(Some(x)) => { unsafe { *o = x }; 1 }
            Ok(None) => 0,
            Err(e) => {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                if m == \"math error\" { 2 } else { 3 }
            }
        };
        code |= c << (4 * k);
        LOG.with(|l| {
            let l = l.borrow();
            unsafe {
                *log.add(64 * k) = l.len().min(63) as u8;
                for (j, x) in l.iter().take(63).enumerate() { *log.add(64 * k + 1 + j) = *x; }
            }
        });
    }
    code
}
";
    (s, first)
}

fn newest(prefix: &str, suffix: &str) -> Result<PathBuf, String> {
    let dir = verif_dir().join("target/release/deps");
    let mut v: Vec<_> = std::fs::read_dir(&dir)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .filter(|e| {
            let n = e.file_name().to_string_lossy().to_string();
            n.starts_with(prefix) && n.ends_with(suffix)
        })
        .map(|e| (e.metadata().and_then(|m| m.modified()).unwrap(), e.path()))
        .collect();
    v.sort();
    v.pop().map(|x| x.1).ok_or(format!("no {prefix}*{suffix} in {dir:?}"))
}
fn scratch() -> PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let d = verif_dir().join(format!("build/math-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    })
    .clone()
}
fn rustc(file: &PathBuf, extra: &[&str]) -> Result<(bool, String), String> {
    let o = Command::new("rustc")
        .current_dir(verif_dir())
        .args(["--edition=2021", "--error-format=json", "-Coverflow-checks=on", "-Awarnings"])
        .args(extra)
        .arg("--extern")
        .arg(format!("checked_math={}", newest("libchecked_math-", ".so")?.display()))
        .arg("--extern")
        .arg(format!("fixed={}", newest("libfixed-", ".rlib")?.display()))
        .arg("-L")
        .arg(format!("dependency={}", verif_dir().join("target/release/deps").display()))
        .arg(file)
        .output()
        .map_err(|e| format!("rustc: {e}"))?;
    Ok((o.status.success(), String::from_utf8_lossy(&o.stderr).to_string()))
}
extern "C" {
    fn dlopen(name: *const c_char, flags: i32) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}

fn build(no: u64) -> Result<Batch, String> {
    let mut src = Src::random(0x6d617468 + no * 7919);
    let items: Vec<Item> = (0..BATCH).map(|_| item(&mut src)).collect();
    let mut bad = HashMap::new();
    let dir = scratch();
    let file = dir.join(format!("b{no}.rs"));
    let lib = dir.join(format!("b{no}.so"));
    for round in 0.. {
        let (text, first) = source(&items, &bad);
        std::fs::write(&file, text).map_err(|e| e.to_string())?;
        let out = format!("-o{}", lib.display());
        let (ok, err) = rustc(&file, &["--crate-type=cdylib", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=8", &out])?;
        if ok {
            break;
        }
        let before = bad.len();
        for l in err.lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["level"] != "error" {
                continue;
            }
            for sp in v["spans"].as_array().unwrap_or(&vec![]) {
                if sp["file_name"].as_str().map(|f| f.ends_with(".rs")) != Some(true) { continue }
                if let Some(n) = sp["line_start"].as_u64() {
                    let k = (n as usize).wrapping_sub(first);
                    let i = k / 2;
                    if i < items.len() && k % 2 == 1 {
                        return Err(format!("HARNESS: {} is no valid Rust: {}", items[i].text(), v["message"]));
                    }
                    if i < items.len() {
                        bad.entry(i).or_insert(v["message"].as_str().unwrap_or("").to_string());
                    }
                }
            }
        }
        if bad.len() == before || round > 6 {
            return Err(format!("HARNESS: batch {no} does not compile: {}", &err[..err.len().min(2000)]));
        }
    }
    let eval = unsafe {
        let c = CString::new(lib.display().to_string()).unwrap();
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() {
            return Err(format!("HARNESS: cannot load {lib:?}"));
        }
        let n = CString::new("run_item").unwrap();
        let f = dlsym(h, n.as_ptr());
        if f.is_null() {
            return Err("HARNESS: no run_item".into());
        }
        std::mem::transmute(f)
    };
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&lib);
    let _ = std::fs::remove_dir(&dir);
    Ok(Batch { items, eval, bad })
}
fn batch(no: u64) -> Result<Arc<Batch>, String> {
    static ALL: OnceLock<Mutex<HashMap<u64, Arc<Mutex<Option<Result<Arc<Batch>, String>>>>>>> = OnceLock::new();
    let slot = ALL.get_or_init(Default::default).lock().unwrap().entry(no).or_default().clone();
    let mut s = slot.lock().unwrap();
    if s.is_none() {
        *s = Some(build(no).map(Arc::new));
    }
    s.as_ref().unwrap().clone()
}

fn value(src: &mut Src, t: T) -> i128 {
    let (lo, hi) = if t.bits() == 128 {
        (i128::MIN, i128::MAX)
    } else if t.signed() {
        (-(1i128 << (t.bits() - 1)), (1i128 << (t.bits() - 1)) - 1)
    } else {
        (0, (1i128 << t.bits()) - 1)
    };
    match src.weighted(&[6, 4, 2, 1]) {
        0 => {
            let x = src.below(8) as i128 - if t.signed() { 3 } else { 0 };
            if t == Fx { (x << 48) + if src.chance(30) { src.below(1 << 48) as i128 } else { 0 } } else { x }
        }
        1 => {
            let b = src.below(t.bits() as u64) as u32;
            let m = (src.below(u64::MAX) as u128) << 64 | src.below(u64::MAX) as u128;
            t.wrap((m >> (127 - b)) as i128 * if t.signed() && src.bool() { -1 } else { 1 })
        }
        2 => src.pick(&[lo, hi, lo + 1, hi - 1]),
        _ => 0,
    }
}

fn one(src: &mut Src, case: &mut Case, b: &Batch) -> Result<(), String> {
    let i = src.idx(BATCH);
    let it = &b.items[i];
    if let Some(e) = b.bad.get(&i) {
        case.note(|| it.text());
        return Err(format!("`{}` does not compile: {e}", it.text()));
    }
    let mut v: Vals = [[0; SLOTS]; 8];
    for t in TYPES {
        for k in 0..SLOTS {
            v[t.i()][k] = value(src, t);
        }
    }
    let mut log = vec![];
    let (t, want, place) = match it {
        Item::Math(e) | Item::OrPanic(e) => (e.ty(), eval(e, &v, &mut log), None),
        Item::Assign(p, o, e) => {
            let t = e.ty();
            let old = v[t.i()][10];
            let r = eval(e, &v, &mut log);
            if *p >= 3 { log.push(99) }
            let new = r.and_then(|r| bin(t, *o, old, r));
            (t, new, Some(old))
        }
    };
    let mut out = [0i128; 4];
    let mut l = [0u8; 128];
    let code = (b.eval)(i as u32, v.as_ptr() as *const i128, out.as_mut_ptr(), l.as_mut_ptr());
    let show = |x: i128| if t == Fx { fx(x).to_string() } else { x.to_string() };
    let vars = || {
        let text = it.text();
        let mut s = String::new();
        for t in TYPES {
            for (k, n) in ["a_", "b_", "c_", "s.f_", "s.n.f_", "*r_", "s.get0_", "s.get1_", "next0_", "next1_"].iter().enumerate() {
                let n = format!("{n}{}", t.name().to_lowercase());
                if text.contains(&n) {
                    let x = v[t.i()][k];
                    s += &format!(" {n} = {}", if t == Fx { fx(x).to_string() } else { x.to_string() });
                }
            }
        }
        s
    };
    case.note(|| format!("{} with{}: {}", it.text(), vars(), want.map(show).unwrap_or("overflow".into())));
    let (m, p) = (code & 15, code >> 4);
    let name = |c: u32| ["None", "a value", "panic \"math error\"", "another panic"][c as usize];
    // plain Rust must agree with the evaluator: guards this check
    let fine = match (want, p) {
        (Some(x), 1) => out[2] == x,
        (None, 2 | 3) => true,
        _ => false,
    };
    if !fine {
        return Err(format!("HARNESS: evaluator {want:?} but plain Rust {} {} for {}{}", name(p), out[2], it.text(), vars()));
    }
    let none = if matches!(it, Item::Math(_)) { 0 } else { 2 };
    match want {
        Some(x) => {
            ensure!(m == 1 && out[0] == x, "{} with{}: expected {}, got {} {}", it.text(), vars(), show(x), name(m), if m == 1 { show(out[0]) } else { String::new() });
            let calls = &l[1..1 + l[0] as usize];
            ensure!(calls == &log[..], "{}: calls made {calls:?}, expected {log:?}", it.text());
            case.label("value");
        }
        None => {
            ensure!(m == none, "{} with{}: overflows, but gave {} {}", it.text(), vars(), name(m), if m == 1 { show(out[0]) } else { String::new() });
            if let Some(old) = place {
                ensure!(out[1] == old, "{}: the place changed to {} in spite of the panic", it.text(), show(out[1]));
            }
            case.label("overflow");
        }
    }
    let ops = match it { Item::Math(e) | Item::OrPanic(e) => e.ops(), Item::Assign(_, _, e) => 1 + e.ops() };
    if place.is_some() {
        case.label("compound assignment");
    }
    if ops >= 2 && v.iter().flatten().any(|x| *x != 0) {
        case.nontrivial();
    }
    Ok(())
}
fn exprs(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let n = src.below(3);
    let b = batch(n)?;
    one(src, case, &b)
}
fn deep(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let n = 3 + src.below(60);
    let b = batch(n)?;
    one(src, case, &b)
}

/// Anything whose arithmetic the macro could not check must not get through it.
fn rejects(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let t = TYPES[src.idx(7)];
    let (n, l) = (t.name(), t.name().to_lowercase());
    let (a, b) = (format!("a_{l}"), format!("b_{l}"));
    // (expression, is boolean)
    let k = src.idx(22);
    let mut assign = false;
    let mut boolean = false;
    let e = match k {
        0 => format!("{a}.wrapping_add({b})"),
        1 => format!("{a}.max({b})"),
        2 => format!("{a}.saturating_mul({b} + {a})"),
        3 => format!("!{a}"),
        4 => format!("({a} & {b})"),
        5 => format!("({a} | {b})"),
        6 => format!("({a} ^ {b})"),
        7 => format!("(if {a} + {b} > {b} {{ {a} * {b} }} else {{ {b} }})"),
        8 => format!("({{ {a} + {b} }})"),
        9 => format!("[{a}, {b}][0]"),
        10 => format!("id({a} + {b})"),
        11 => format!("id({a})"),
        12 => format!("(match {a} {{ x => x + {b} }})"),
        13 => format!("(|| {a} + {b})()"),
        14 => format!("unsafe {{ {a} + {b} }}"),
        15 => format!("std::cmp::max({a}, {b})"),
        16 => { boolean = true; format!("{a} + {b} > {b}") }
        17 => { boolean = true; format!("{a} == {b} + {b}") }
        18 => { boolean = true; format!("c == c && {a} + {b} == {b}") }
        19 => { assign = true; format!("m %= {a}") }
        20 => { assign = true; format!("m <<= {a}.count_ones()") }
        _ => { assign = true; format!("m &= {a} + {b}") }
    };
    if k == 13 || k == 8 {
        // a closure call without arguments, or a block, as an operand
    }
    let mut e = e;
    if !boolean && !assign {
        for _ in 0..src.below(3) {
            let x = format!("c_{l}");
            let plain_call = matches!(k, 0 | 1 | 11 | 15); // may be what a method is called on
            e = match src.below(6) {
                4 if plain_call => format!("{x} % {e}"),
                0 => format!("({x} + ({e}))"),
                1 => format!("({e} - {x})"),
                2 => format!("({x} * ({e}))"),
                3 => format!("((({e}) as u64 / 3u64) as {n})"),
                4 => format!("({e}).pow(2)"),
                _ => format!("({x} << (({e}) as u32))"),
            };
        }
    }
    let mac = if src.bool() || assign { "checked_math_or_panic" } else { "checked_math" };
    let f = |body: String| {
        format!("{}fn id(x: {n}) -> {n} {{ x }}\npub fn f() -> bool {{ {} let c = true; let s = mk(0u8); let mut m: {n} = 1; {body}; true }}", prelude(), locals())
    };
    let (with, without) = if assign {
        (f(format!("{mac}!({e})")), f(e.clone()))
    } else {
        (f(format!("let r = {mac}!({e})")), f(format!("let r = {e}")))
    };
    if k == 13 {
        return Ok(()); // a call without arguments is let through, whatever is called
    }
    case.note(|| format!("{mac}!({e})"));
    let dir = scratch();
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    static NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let no = NO.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut res = vec![];
    for (j, text) in [with, without].iter().enumerate() {
        let file = dir.join(format!("r{no}_{j}.rs"));
        std::fs::write(&file, text).map_err(|e| e.to_string())?;
        let out = format!("-o{}", dir.join(format!("r{no}_{j}.rmeta")).display());
        res.push(rustc(&file, &["--crate-type=lib", "--emit=metadata", &out])?);
        let _ = std::fs::remove_file(&file);
        let _ = std::fs::remove_file(dir.join(format!("r{no}_{j}.rmeta")));
    }
    let _ = std::fs::remove_dir(&dir);
    if !res[1].0 {
        return Err(format!("HARNESS: `{e}` is no valid Rust: {}", &res[1].1[..res[1].1.len().min(1500)]));
    }
    ensure!(!res[0].0, "{mac}!({e}) compiles, although it cannot be checked");
    case.nontrivial();
    Ok(())
}
