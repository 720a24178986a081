//! Compiler driver: compiles the harness crate (metadata only) and writes the
//! monomorphic MIR of everything reachable from its `roots` module as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER; nothing of the analysed crates is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jl(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

/// Crates whose bodies are never dumped: they are modelled by the analysis.
const OPAQUE: &[&str] = &[
    "rlp", "keccak_hash", "tiny_keccak", "parking_lot", "parking_lot_core", "lock_api", "log",
    "hex", "bytes", "ethereum_types", "primitive_types", "uint", "fixed_hash",
    "impl_rlp", "impl_serde", "impl_codec", "ethbloom", "crunchy",
];

/// Paths that are never followed.
const OPAQUE_PATHS: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::rt",
    "alloc::raw_vec", "alloc::alloc", "std::alloc", "core::alloc", "std::io", "core::unicode",
    "std::thread", "std::backtrace", "core::num::flt2dec", "core::num::dec2flt",
    "core::str::lossy", "std::sys", "core::slice::sort", "alloc::slice::stable_sort",
    "core::slice::memchr", "core::str::pattern", "core::escape",
];

const MODELS: &[(&str, &str)] = &[
    ("ethereum_types::H256::is_zero", "h256_is_zero"),
    ("std::iter::Iterator::all", "iter_all"),
    ("std::iter::Iterator::any", "iter_any"),
    ("std::iter::Iterator::find", "iter_find"),
    ("std::iter::Iterator::find_map", "iter_find_map"),
    ("std::iter::Iterator::position", "iter_position"),
    ("std::iter::Iterator::count", "iter_count"),
    ("std::iter::Iterator::last", "iter_last"),
    ("std::iter::Iterator::nth", "iter_nth"),
    ("std::iter::Iterator::fold", "iter_fold"),
    ("std::iter::Iterator::reduce", "iter_reduce"),
    ("std::iter::Iterator::for_each", "iter_for_each"),
    ("std::iter::Iterator::try_fold", "iter_try_fold"),
    ("std::iter::Iterator::try_for_each", "iter_try_for_each"),
    ("std::iter::Iterator::max", "iter_max"),
    ("std::iter::Iterator::min", "iter_min"),
    ("std::iter::Iterator::advance_by", "iter_advance_by"),
    ("std::iter::Iterator::rposition", "iter_rposition"),
    ("std::iter::DoubleEndedIterator::rfind", "iter_rfind"),
    ("<std::iter::Zip<A, B> as std::iter::Iterator>::next", "zip_next"),
    ("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "vec_from_iter"),
    ("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "vec_extend"),
    ("<std::string::String as std::iter::Extend<char>>::extend", "string_extend"),
    ("<std::string::String as std::iter::FromIterator<char>>::from_iter", "string_from_iter"),
    ("<std::vec::Vec<T, A> as std::clone::Clone>::clone", "vec_clone"),
    ("std::slice::<impl [T]>::to_vec", "slice_to_vec"),
    ("std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "slice_to_vec"),
    ("std::vec::from_elem", "vec_from_elem"),
    ("std::vec::Vec::<T, A>::resize", "vec_resize"),
    ("std::vec::Vec::<T, A>::retain", "vec_retain"),
    ("std::array::<impl std::clone::Clone for [T; N]>::clone", "array_clone"),
    ("std::array::from_fn", "array_from_fn"),
    ("std::array::<impl [T; N]>::map", "array_map"),
    ("std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq", "vec_eq"),
    ("core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "slice_eq"),
    ("std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq", "array_eq"),
    ("std::sync::Arc::<T, A>::make_mut", "arc_make_mut"),
    ("std::sync::Arc::<T, A>::unwrap_or_clone", "arc_unwrap_or_clone"),
    ("<std::boxed::Box<T, A> as std::clone::Clone>::clone", "box_clone"),
    ("<std::sync::Arc<T, A> as std::cmp::PartialEq>::eq", "arc_eq"),
    ("<std::sync::Arc<T, A> as std::cmp::PartialEq>::ne", "arc_ne"),
    ("std::sync::Arc::<T, A>::get_mut", "arc_get_mut"),
    ("std::sync::Arc::<T, A>::try_unwrap", "arc_try_unwrap"),
    ("std::sync::Arc::<T, A>::into_inner", "arc_into_inner"),
    ("std::iter::Iterator::max_by", "iter_max_by"),
    ("std::iter::Iterator::min_by", "iter_min_by"),
    ("std::iter::Iterator::max_by_key", "iter_max_by_key"),
    ("std::iter::Iterator::min_by_key", "iter_min_by_key"),
    ("std::iter::Iterator::partition", "iter_partition"),
    ("std::iter::Iterator::unzip", "iter_unzip"),
    ("std::iter::DoubleEndedIterator::nth_back", "iter_nth_back"),
    ("std::iter::Iterator::cmp", "iter_cmp"),
    ("std::iter::Iterator::eq", "iter_eq"),
    ("std::iter::Iterator::ne", "iter_ne"),
    ("core::slice::<impl [T]>::contains", "slice_contains"),
    ("core::slice::<impl [T]>::starts_with", "slice_starts_with"),
    ("core::slice::<impl [T]>::ends_with", "slice_ends_with"),
    ("std::slice::<impl [T]>::sort", "slice_sort"),
    ("std::slice::<impl [T]>::sort_by", "slice_sort_by"),
    ("std::slice::<impl [T]>::sort_by_key", "slice_sort_by_key"),
    ("std::slice::<impl [T]>::sort_by_cached_key", "slice_sort_by_key"),
    ("core::slice::<impl [T]>::sort_unstable", "slice_sort_unstable"),
    ("core::slice::<impl [T]>::sort_unstable_by", "slice_sort_unstable_by"),
    ("core::slice::<impl [T]>::sort_unstable_by_key", "slice_sort_unstable_by_key"),
    ("core::slice::<impl [T]>::binary_search", "slice_binary_search"),
    ("core::slice::<impl [T]>::binary_search_by", "slice_binary_search_by"),
    ("core::slice::<impl [T]>::binary_search_by_key", "slice_binary_search_by_key"),
    ("core::slice::<impl [T]>::partition_point", "slice_partition_point"),
    ("core::slice::<impl [T]>::rotate_left", "slice_rotate_left"),
    ("core::slice::<impl [T]>::rotate_right", "slice_rotate_right"),
    ("<[V] as std::slice::Concat<T>>::concat", "slice_concat"),
    ("std::str::<impl std::slice::Concat<str> for [S]>::concat", "slice_str_concat"),
    ("std::str::<impl std::slice::Join<&str> for [S]>::join", "slice_str_join"),
    ("std::slice::<impl [T]>::repeat", "slice_repeat"),
    ("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "vec_extend_ref"),
    ("std::vec::Vec::<T, A>::split_off", "vec_split_off"),
    ("std::vec::Vec::<T, A>::dedup", "vec_dedup"),
    ("std::vec::Vec::<T, A>::dedup_by", "vec_dedup_by"),
    ("std::vec::Vec::<T, A>::dedup_by_key", "vec_dedup_by_key"),
    ("std::vec::<impl std::convert::TryFrom<std::vec::Vec<T, A>> for [T; N]>::try_from", "array_try_from_vec"),
    ("std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::ne", "vec_ne"),
    ("core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne", "slice_ne"),
    ("std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::ne", "array_ne"),
];

struct D {
    tys: HashMap<Ty, usize>,
    ty_q: Vec<Ty>,
    ty_out: Vec<String>,
    inst: HashMap<String, usize>,
    queue: VecDeque<Instance>,
    out: Vec<String>,
    models: HashMap<String, FnDef>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

impl D {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_q.push(t);
        i
    }

    fn file(&mut self, f: String) -> usize {
        if let Some(i) = self.files.get(&f) {
            return *i;
        }
        let i = self.files.len();
        self.files.insert(f.clone(), i);
        self.file_list.push(f);
        i
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("[\"const\",{}]", n),
                    Err(_) => "[\"const\",null]".to_string(),
                }),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        jl(v)
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let TyKind::RigidTy(r) = t.kind() else {
            return format!("[\"other\",{}]", js(&format!("{:?}", t.kind())));
        };
        match r {
            RigidTy::Bool => "[\"bool\"]".into(),
            RigidTy::Char => "[\"char\"]".into(),
            RigidTy::Int(i) => format!("[\"int\",\"i\",{}]", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("[\"int\",\"u\",{}]", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("[\"float\",{}]", js(&format!("{:?}", f))),
            RigidTy::Str => "[\"str\"]".into(),
            RigidTy::Never => "[\"never\"]".into(),
            RigidTy::Array(e, n) => {
                format!("[\"array\",{},{}]", self.ty(e), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
            }
            RigidTy::Slice(e) => format!("[\"slice\",{}]", self.ty(e)),
            RigidTy::Pat(e, _) => format!("[\"pat\",{}]", self.ty(e)),
            RigidTy::RawPtr(e, m) => format!("[\"ptr\",{},{}]", self.ty(e), matches!(m, Mutability::Mut)),
            RigidTy::Ref(_, e, m) => format!("[\"ref\",{},{}]", self.ty(e), matches!(m, Mutability::Mut)),
            RigidTy::Tuple(v) => {
                let v = v.iter().map(|x| self.ty(*x).to_string()).collect();
                format!("[\"tuple\",{},{}]", jl(v), self.layout(t))
            }
            RigidTy::FnDef(d, a) => {
                let c = self.callee(d, &a);
                format!("[\"fndef\",{}]", c)
            }
            RigidTy::FnPtr(_) => "[\"fnptr\"]".into(),
            RigidTy::Closure(d, a) => {
                let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok();
                let _ = inst;
                let args = self.args(&a);
                format!("[\"closure\",{},{}]", js(&d.name()), args)
            }
            RigidTy::Adt(d, a) => {
                let name = d.name();
                let args = self.args(&a);
                let mut vs = vec![];
                for v in d.variants_iter() {
                    let disc = if matches!(d.kind(), AdtKind::Enum) { d.discriminant_for_variant(v.idx()).val } else { 0 };
                    let fs = v
                        .fields()
                        .iter()
                        .map(|f| {
                            let ft = f.ty_with_args(&a);
                            format!("[{},{}]", js(&f.name), self.ty(ft))
                        })
                        .collect();
                    vs.push(format!("[{},{},{}]", js(&v.name()), disc, jl(fs)));
                }
                let lay = self.layout(t);
                format!("[\"adt\",{},\"{}\",{},{},{}]", js(&name), d.kind(), args, jl(vs), lay)
            }
            RigidTy::Dynamic(..) => format!("[\"dyn\",{}]", js(&format!("{}", t))),
            o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
        }
    }

    /// Where the fields of each variant live, needed to decode constants.
    fn layout(&self, t: Ty) -> String {
        use rustc_public::abi::*;
        let Ok(l) = t.layout() else { return "null".into() };
        let l = l.shape();
        let offs = |v: &[rustc_public::target::MachineSize]| jl(v.iter().map(|s| s.bytes().to_string()).collect());
        let own = match &l.fields {
            FieldsShape::Arbitrary { offsets } => offs(offsets),
            _ => "[]".into(),
        };
        match &l.variants {
            VariantsShape::Single { index } => format!("[{},\"one\",{},{}]", l.size.bytes(), index.to_index(), own),
            VariantsShape::Multiple { tag, tag_encoding, variants, .. } => {
                let sz = match tag {
                    Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                        Primitive::Int { length, .. } => length.bits() / 8,
                        _ => 8,
                    },
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "null".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                let vs = jl(variants.iter().map(|v| offs(&v.offsets)).collect());
                format!("[{},\"many\",{},{},{},{}]", l.size.bytes(), own, sz, enc, vs)
            }
            _ => "null".into(),
        }
    }

    fn opaque(&self, i: &Instance) -> bool {
        let n = i.name();
        let k = i.def.krate().name;
        if OPAQUE.contains(&k.as_str()) {
            return true;
        }
        // the plumbing of serde is followed, what it does with the library's types is not
        if k.starts_with("serde")
            && (n.contains("::impls::<impl serde::Serialize for") || n.contains("::impls::<impl serde::Deserialize<"))
            && !n.contains("::impls::<impl serde::Serialize for (")
            && !n.contains("::impls::<impl serde::Deserialize<'_> for (")
            && !n.contains("::impls::<impl serde::Deserialize<'de> for (")
        {
            return true;
        }
        let n = n.trim_start_matches('<').trim_start_matches('&');
        OPAQUE_PATHS.iter().any(|p| n.starts_with(p) && n[p.len()..].starts_with("::"))
    }

    fn key(&mut self, i: Instance) -> usize {
        let m = format!("{}|{:?}", i.mangled_name(), i.kind);
        if let Some(k) = self.inst.get(&m) {
            return *k;
        }
        let k = self.inst.len();
        self.inst.insert(m, k);
        self.queue.push_back(i);
        k
    }

    /// {"n": def path, "a": generic args, "i": resolved instance or null, "m": model instance}
    fn callee(&mut self, d: FnDef, a: &GenericArgs) -> String {
        let name = d.name();
        let args = self.args(a);
        let mut s = format!("{{\"n\":{},\"a\":{}", js(&name), args);
        let res = Instance::resolve(d, a);
        if let Some(m) = self.model_for(&name, a, res.as_ref().ok()) {
            let _ = write!(s, ",\"m\":{}", self.key(m));
        }
        match res {
            Ok(i) => {
                let r = i.name();
                let _ = write!(s, ",\"r\":{}", js(&r));
                match i.kind {
                    InstanceKind::Intrinsic => {
                        let _ = write!(s, ",\"intr\":{}", js(&i.intrinsic_name().unwrap_or_default()));
                    }
                    InstanceKind::Virtual { .. } => {
                        s.push_str(",\"virt\":1");
                    }
                    _ => {}
                }
                let k = self.key(i);
                let _ = write!(s, ",\"i\":{}", k);
            }
            Err(_) => s.push_str(",\"unres\":1"),
        }
        s.push('}');
        s
    }

    /// Library functions that the analysis interprets through a model written
    /// in Rust (`harness::models`), see `MODELS`.
    fn model_for(&self, name: &str, a: &GenericArgs, res: Option<&Instance>) -> Option<Instance> {
        let strip = |g: &GenericArgs| GenericArgs(g.0.iter().filter(|g| !matches!(g, GenericArgKind::Lifetime(_))).cloned().collect());
        // Its next is defined by its try_fold, not the other way round.
        if res.map_or(false, |r| r.def.name().contains("GenericShunt")) {
            return None;
        }
        for (from, to) in MODELS {
            let targs = if *from == name {
                strip(a)
            } else if res.map_or(false, |r| r.def.name() == *from) {
                strip(&res.unwrap().args())
            } else {
                continue;
            };
            let f = self.models.get(*to).unwrap_or_else(|| panic!("missing model {to}"));
            let n = f.generics_of().params.len();
            if n != targs.0.len() {
                eprintln!("model arity mismatch for {}: {} vs {}", name, n, targs.0.len());
                return None;
            }
            return Instance::resolve(*f, &targs).ok();
        }
        None
    }

    fn alloc(&mut self, a: &Allocation, depth: usize) -> String {
        let bytes = jl(a.bytes.iter().map(|b| b.map(|x| x.to_string()).unwrap_or("null".into())).collect());
        let mut prov = vec![];
        for (off, p) in a.provenance.ptrs.iter() {
            let g: GlobalAlloc = p.0.into();
            let gs = match g {
                GlobalAlloc::Function(i) => {
                    let k = self.key(i);
                    format!("[\"fn\",{}]", k)
                }
                GlobalAlloc::Static(d) => format!("[\"static\",{},{}]", js(&d.name()), js(&format!("{}", d.ty()))),
                GlobalAlloc::Memory(m) if depth < 6 => format!("[\"mem\",{}]", self.alloc(&m, depth + 1)),
                _ => "[\"other\"]".into(),
            };
            prov.push(format!("[{},{}]", off, gs));
        }
        format!("{{\"b\":{},\"p\":{}}}", bytes, jl(prov))
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("[{},\"z\"]", ti),
            ConstantKind::Allocated(a) => {
                let tk = t.kind();
                let scalar = tk.is_integral() || tk.is_bool() || tk.is_char();
                if scalar && a.provenance.ptrs.is_empty() {
                    if tk.is_signed() {
                        if let Ok(v) = a.read_int() {
                            return format!("[{},\"i\",{}]", ti, v);
                        }
                    } else if let Ok(v) = a.read_uint() {
                        return format!("[{},\"i\",{}]", ti, v);
                    }
                }
                let s = self.alloc(a, 0);
                format!("[{},\"a\",{}]", ti, s)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let v = a.read_uint().map(|x| x.to_string());
                    match v {
                        Ok(v) => format!("[{},\"i\",{}]", ti, v),
                        Err(_) => format!("[{},\"u\",\"tyconst\"]", ti),
                    }
                }
                _ => format!("[{},\"u\",\"tyconst\"]", ti),
            },
            o => format!("[{},\"u\",{}]", ti, js(&format!("{:?}", o))),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local);
        }
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
                #[allow(unreachable_patterns)]
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, jl(v))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            #[allow(unreachable_patterns)]
            o => format!("[\"rc\",{}]", js(&format!("{:?}", o))),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", js(&ks), self.op(o), self.ty(*t))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
                };
                format!("[\"agg\",{},{}]", ks, jl(ops))
            }
            o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
        }
    }

    fn body(&mut self, i: &Instance, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(format!("[\"=\",{},{},{}]", self.place(p), self.rv(r), line)),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), line))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!("[\"cno\",{},{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count), line))
                    }
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = t.source_info.span.get_lines().start_line;
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"sw\",{},{},{},{}]", self.op(discr), jl(br), targets.otherwise(), line)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => format!("[\"unr\",{}]", line),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{},{}]", self.place(place), target, line),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fk = func.ty(b.locals()).unwrap().kind();
                    let fs = match fk.fn_def() {
                        Some((d, a)) => {
                            let a = a.clone();
                            format!("[\"d\",{}]", self.callee(d, &a))
                        }
                        None => format!("[\"p\",{}]", self.op(func)),
                    };
                    let asv: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    format!("[\"call\",{},{},{},{},{}]", fs, jl(asv), self.place(destination), target.map(|x| x.to_string()).unwrap_or("null".into()), line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(o, ..) => format!("overflow:{:?}", o),
                        o => {
                            let s = format!("{:?}", o);
                            s.split('(').next().unwrap().to_string()
                        }
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, js(&m), target, line)
                }
                o => format!("[\"other\",{}]", js(&format!("{:?}", o))),
            };
            blocks.push(format!("[{},{}]", jl(st), ts));
        }
        let _ = i;
        let lines = b.span.get_lines();
        let f = self.file(b.span.get_filename());
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    dbg.push(format!("[{},{}]", p.local, js(&v.name)));
                }
            }
        }
        format!(
            "\"file\":{},\"line\":{},\"end\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{},\"dbg\":{}",
            f,
            lines.start_line,
            lines.end_line,
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            jl(locals),
            jl(blocks),
            jl(dbg)
        )
    }

    fn drain_types(&mut self) {
        while self.ty_out.len() < self.ty_q.len() {
            let t = self.ty_q[self.ty_out.len()];
            let s = self.ty_json(t);
            let n = format!("{}", t);
            self.ty_out.push(format!("[{},{}]", js(&n), s));
        }
    }
}

fn generate() -> ControlFlow<()> {
    let Ok(out_path) = std::env::var("MIRDUMP_OUT") else { return ControlFlow::Continue(()) };
    let mut d = D {
        tys: HashMap::new(),
        ty_q: vec![],
        ty_out: vec![],
        inst: HashMap::new(),
        queue: VecDeque::new(),
        out: vec![],
        models: HashMap::new(),
        files: HashMap::new(),
        file_list: vec![],
    };
    let mut roots = vec![];
    for f in rustc_public::local_crate().fn_defs() {
        let n = f.name();
        if let Some(m) = n.split("models::").nth(1) {
            d.models.insert(m.to_string(), f);
        } else if n.contains("roots::") {
            roots.push((n, f));
        }
    }
    roots.sort_by(|a, b| a.0.cmp(&b.0));
    let mut rjs = vec![];
    for (n, f) in &roots {
        let i = Instance::resolve(*f, &GenericArgs(vec![])).expect("root is not monomorphic");
        let k = d.key(i);
        rjs.push(format!("[{},{}]", js(n.rsplit("::").next().unwrap()), k));
    }
    loop {
        d.drain_types();
        let Some(i) = d.queue.pop_front() else { break };
        let name = i.name();
        let op = d.opaque(&i);
        let krate = i.def.krate().name;
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
            _ => "llvm",
        };
        let clos = i.ty().kind().is_closure();
        let mut s = format!("{{\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"clos\":{}", js(&name), js(&i.def.name()), js(&krate), kind, clos);
        if !op && !matches!(i.kind, InstanceKind::Virtual { .. }) {
            if let Some(b) = i.body() {
                s.push(',');
                let bs = d.body(&i, &b);
                s.push_str(&bs);
            }
        } else {
            s.push_str(",\"opaque\":true");
        }
        s.push('}');
        d.out.push(s);
    }
    d.drain_types();
    // Every function of the analysed crates, reachable or not.
    let mut o = String::new();
    o.push_str("{\"roots\":");
    o.push_str(&jl(rjs));
    o.push_str(",\n\"files\":");
    o.push_str(&jl(d.file_list.iter().map(|f| js(f)).collect()));
    o.push_str(",\n\"types\":[\n");
    o.push_str(&d.ty_out.join(",\n"));
    o.push_str("],\n\"fns\":[\n");
    o.push_str(&d.out.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out_path, o).expect("write dump");
    let _ = (HashSet::<u8>::new(), ItemKind::Fn, None::<CrateItem>);
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // Wrapper invocation: argv[1] is the path of rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "vharness");
    if !is_target {
        unsafe { std::env::remove_var("MIRDUMP_OUT") };
    }
    let r = run!(&args, generate);
    std::process::exit(match r {
        Ok(_) => 0,
        Err(rustc_public::CompilerError::Skipped) => 0,
        Err(_) => 1,
    });
}
