"""The extracted text of a unit as a program: bodies the prelude leaves open are filled with their reference implementations
(contracts/prelude, between /*%is and %*/) or with the plain operation on f64, generators read a fixed stream, and the calls
of contracts/exec/<unit>.rs are made and printed. The replay crate makes the same calls on the real crate."""
import re

A, OPEN = "#[verifier::external_body]", "{ unimplemented!() }"
# functions assumed in a unit, and the unit whose text runs in their place
DEPS = {"cp": {"common_neighbors": "cn"}, "gpx": {"common_partitions": "cp"}, "dup": {"random_pair": "rnd"},
        "dispatch": {"random_range": "rnd", "sequential_constructive_crossover": "scx", "partially_mapped_crossover": "pmx", "order_crossover": "ox",
                     "cycle_crossover": "cx", "single_point_crossover": "spx", "generalized_partition_2_crossover": "gpx"},
        "mutation": {"random_pair": "rnd", "bounded_random_range": "rnd", "duplicate_mutation": "dup"}}
BODIES = [("pub fn vx_panic()", 'panic!("vx_panic")'), ("pub fn vx_rejects()", 'panic!("vx_rejects")'),
          ("pub fn vx_at(", "unsafe { core::ptr::read(&self.v[k]) }"), ("VxClone for T", "self.clone()"),
          ("fn vx_shuffle<R: Rng>(&mut self, rng: &mut R) {", "for i in (1..self.len()).rev() { let j = crate::pick(i + 1); self.swap(i, j); }"),
          ("fn vx_choose<R: Rng>(&self, rng: &mut R) -> (r: Option<&T>) {", "if self.len() == 0 { None } else { let j = crate::pick(self.len()); Some(&self[j]) }"),
          ("pub fn vx_try_into(self)", "if self.count == 0 { Err(()) } else { Ok(PopulatedStats { stats: self }) }"),
          ("fn from_iter(iter: It<F64>", "let z = F64 { v: 0.0 }; let mut s = Stats { count: 0, min: z, arg_min: 0, max: z, arg_max: 0, avg: z, sum_squared: z }; for x in iter.v { if s.count == 0 || x.v < s.min.v { s.min = x; s.arg_min = s.count } if s.count == 0 || s.max.v < x.v { s.max = x; s.arg_max = s.count } s.count += 1; } s"),
          ("pub fn vx_untracked_gen_range<D", "crate::below(d.vx_lo(), d.vx_hi())")]
SCRIPT = """
verus! { pub struct Script; impl Rng for Script {
    uninterp spec fn log(&self) -> Seq<Draw>;
    #[verifier::external_body] fn gen_range<D: VxDrawRange>(&mut self, d: D) -> usize { crate::below(d.vx_lo(), d.vx_hi()) }
    #[verifier::external_body] fn vx_gen_range_or_panic<D: VxDrawRange>(&mut self, d: D) -> usize { if d.vx_lo() >= d.vx_hi() { panic!("empty range") } crate::below(d.vx_lo(), d.vx_hi()) }
    #[verifier::external_body] fn vx_gen_unit(&mut self) -> FUnit { FUnit { v: crate::unit() } }
} }
"""
# loops take items out of It with ptr::read; nothing is freed, so nothing is freed twice
MAIN = """
struct VxNoFree;
unsafe impl std::alloc::GlobalAlloc for VxNoFree {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, _: *mut u8, _: std::alloc::Layout) {}
}
#[global_allocator]
static VX_NO_FREE: VxNoFree = VxNoFree;
fn main() {
    std::panic::set_hook(Box::new(|i| if i.to_string().contains("not implemented") { std::process::exit(3) }));
    let mut out = vec![];
    cases(&mut out);
    for l in out { println!("{l}"); }
}
"""

def reference(t):
    """bodies of operations with a reference implementation"""
    O = "{ unimplemented!() /*%is"
    while O in t:
        j = t.index(O); e = t.index("%*/ }", j); a = t.rindex(A, 0, j)
        t = t[:a] + t[a + len(A):j] + "{" + t[j + len(O):e] + "}" + t[e + 5:]
    t = t.replace(A + "\n#[verifier::reject_recursive_types(T)]\npub struct It<T> { v: Vec<T> }", "pub struct It<T> { v: Vec<T> }")
    return t.replace("uninterp spec fn view(&self) -> Seq<T>; }", "closed spec fn view(&self) -> Seq<T> { self.v@ } }", 1)

def put(t, pat, b):
    i = t.find(pat)
    while i >= 0:
        j = t.find(OPEN, i)
        if j < 0: return t
        t = t[:j] + "{ " + b + " }" + t[j + len(OPEN):]
        i = t.find(pat, j)
    return t

def floats(t):
    """F64 is f64"""
    t = t.replace("pub struct F64 { v: f64 }", "pub struct F64 { pub v: f64 }").replace("pub struct F32 { v: f32 }", "pub struct F32 { pub v: f32 }")
    ops = [(f"fn {n}(self, o: F64)", f"F64 {{ v: self.v {c} o.v }}") for n, c in (("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"))]
    ops += [("fn neg(self) -> F64", "F64 { v: -self.v }"), ("fn eq(&self, o: &F64)", "self.v == o.v"), ("fn partial_cmp(&self, o: &F64)", "self.v.partial_cmp(&o.v)")]
    ops += [(f"pub fn {n}(self) -> (r: F64)", f"F64 {{ v: self.v.{n}() }}") for n in "sqrt exp floor abs ceil round trunc fract ln log2 log10 exp2 signum recip exp_m1 cbrt tanh".split()]
    ops += [(f"pub fn {n}(self, o: F64)", f"F64 {{ v: self.v.{n}(o.v) }}") for n in "powf copysign".split()]
    ops += [("pub fn powi(", "F64 { v: self.v.powi(n) }"), ("pub fn mul_add(", "F64 { v: self.v.mul_add(a.v, b.v) }"), ("pub fn clamp(self, a: F64", "F64 { v: self.v.clamp(a.v, b.v) }"),
            ("pub fn to_bits(", "self.v.to_bits()"), ("pub fn total_cmp(", "self.v.total_cmp(&o.v)")]
    ops += [(f"pub fn {n}(self)", f"self.v.{n}()") for n in "is_sign_negative is_sign_positive is_finite is_nan is_infinite".split()]
    ops += [("fn vx_max(self, o: F64)", "F64 { v: self.v.max(o.v) }"), ("fn vx_min(self, o: F64)", "F64 { v: self.v.min(o.v) }"), ("fn vx_clamp(self, a: F64", "F64 { v: self.v.clamp(a.v, b.v) }"),
            ("pub fn vx_as_f64<", "F64 { v: x.vx_x() }"), ("impl VxAsUsize for F64", "self.v as usize"), ("fn vx_gen_f64(", "F64 { v: crate::unit() }"),
            ("impl VxFRangeContains for Range<F64>", "self.start.v <= x.v && x.v < self.end.v"), ("impl VxFRangeContains for RangeIncl<F64>", "self.start.v <= x.v && x.v <= self.end.v"),
            ("pub fn sum(self) -> (r: F64)", "let mut s = 0.0f64; for x in self.v { s += x.v; } F64 { v: s }")]
    ops += [(f"pub fn vx_f64_{n}()", f"F64 {{ v: f64::{n.upper()} }}") for n in "infinity neg_infinity nan epsilon max min min_positive".split()]
    for p, b in ops: t = put(t, p, b)
    t = t.replace("pub trait VxAsF64: Sized {", "pub trait VxAsF64: Sized { fn vx_x(self) -> f64;")
    t = re.sub(r"impl VxAsF64 for (\w+) \{", lambda m: m.group(0) + f" #[verifier::external_body] fn vx_x(self) -> f64 {{ {'self.v' if m.group(1) in ('F64', 'F32') else 'self'} as f64 }}", t)
    t = re.sub(r"(pub fn vx_lit_(\w+)\(\) -> \(r: F64\)[^\n]*)\{ unimplemented!\(\) \}", lambda m: m.group(1) + "{ F64 { v: " + m.group(2).replace("_", ".") + "f64 } }", t)
    t = t.replace("fn default() -> (r: Stats) ensures r.count == 0 " + OPEN, "fn default() -> (r: Stats) ensures r.count == 0 { let z = F64 { v: 0.0 }; Stats { count: 0, min: z, arg_min: 0, max: z, arg_max: 0, avg: z, sum_squared: z } }")
    if "pub struct F64" in t: t += "\npub fn fl(x: f64) -> F64 { F64 { v: x } }\npub fn un(x: F64) -> f64 { x.v }\n"
    return t

def text(u, load, model, rngtext, top=True):
    t = load(u)
    i = t.find("impl<R: Rng> VxSampleTake for R {")
    if i >= 0:  # this one draws from its own sampler
        i, e = t.index("{ unimplemented!() /*%is", i), t.index("%*/ }", i) + 5
        t = t[:i] + "{ let mut r = Vec::new(); for _ in 0..n { r.push(crate::uniform(d.lo, d.hi)); } It { v: r } }" + t[e:]
    t = reference(t)
    for p, b in BODIES:
        i = t.find(p)
        j = t.find(OPEN, i)
        if 0 <= i < j and not re.search(r"\n(pub )?fn ", t[i:j]):  # left open here
            t = t[:j] + "{ " + b + " }" + t[j + len(OPEN):]
    t = t.replace("pub fn deref(& self) -> (r: & [I])\n    ensures r@ == self.individuals@,\n" + OPEN, "pub fn deref(& self) -> (r: & [I])\n    ensures r@ == self.individuals@,\n{ &self.individuals }")
    rng = "pub trait VxDrawRange {" in t
    if rng:
        t = t.replace("pub trait VxDrawRange {", "pub trait VxDrawRange { fn vx_lo(&self) -> usize; fn vx_hi(&self) -> usize;")
        for n, e in (("Range", "self.end"), ("RangeIncl", "self.end + 1")):
            h = f"impl VxDrawRange for {n}<usize> {{"
            t = t.replace(h, h + f" fn vx_lo(&self) -> usize {{ self.start }} fn vx_hi(&self) -> usize {{ {e} }}")
    t = floats(t) + "\npub fn items<T>(v: Vec<T>) -> It<T> { It { v } }\n"
    mods = ""
    for name, dep in DEPS.get(u, {}).items():
        m = re.search(r"#\[verifier::external_body\]\n(?:pub )?fn " + name + r"\b[^\n(]*\(", t)
        if not m: continue
        names, depth, cur = [], 0, ""
        for c in t[m.end():t.index("\n", m.end())]:
            if c == ")" and depth == 0: break
            depth += (c in "<([") - (c in ">)]")
            if c == "," and depth == 0: names.append(cur); cur = ""
            else: cur += c
        if cur.strip(): names.append(cur)
        args = [f"&mut dep_{dep}::Script" if n.split(":")[0].strip() == "rng" else n.split(":")[0].replace("mut ", "").strip() for n in names]
        j = t.index(OPEN, m.end())
        t = t[:j] + "{ dep_%s::%s(%s) }" % (dep, name, ", ".join(args)) + t[j + len(OPEN):]
        if f"mod dep_{dep} " not in mods: mods += f"mod dep_{dep} {{\n{text(dep, load, model, rngtext, False)}}}\n"
    m = model
    if "spec fn is_perm" not in t: m += "\n" + next(l for l in rngtext.splitlines() if "spec fn is_perm" in l) + "\n"
    if "spec fn lawful_hash" not in t: a = m.index("/// the keys of a map"); m = m[:a] + m[m.index("/// s with the element"):]
    i = t.rindex("fn vx_vacuity_guard")
    t = (t[:i] + m + "\n" + t[i:]).replace("fn main() {}", "")
    if rng: t += SCRIPT
    if not top: t = re.sub(r"^#!\[.*\]\n", "", t, flags=re.M)
    return t + mods
