// MIR dumper used by the static analyses in /verif.
//
// Runs as RUSTC_WORKSPACE_WRAPPER (argv[1] is the real rustc, ignored) under
// `cargo +nightly check`.  For every crate whose name is listed in XV_CRATES it
// writes $XV_OUT/<crate>.json with: MIR (phase "promoted": before drop
// elaboration and before the coroutine transform), resolved callees, evaluated
// constants, ADT definitions and layouts, trait impl tables.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => wstr(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn wstr(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adts_seen: HashSet<DefId>,
    adt_queue: Vec<DefId>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // Fully qualified, crate name included, independent of spans.
    let p = rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d))
    );
    p
}

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return J::I(*i as i128);
        }
        let i = self.types.len();
        self.types.push(J::N);
        self.tymap.insert(t, i);
        let j = self.ty_def(t);
        self.types[i] = j;
        J::I(i as i128)
    }
    fn targs(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = g.as_const() {
                v.push(J::O(vec![("const", s(format!("{}", c)))]));
            }
        }
        J::A(v)
    }
    fn ty_def(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let disp = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t))
        );
        let mut o: Vec<(&'static str, J)> = vec![("s", s(disp))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("bits", J::I(i.bit_width().unwrap_or(64) as i128)));
                o.push(("signed", J::B(false)));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(path(tcx, def.did()))));
                if def.is_box() {
                    o.push(("box", J::B(true)));
                }
                if self.adts_seen.insert(def.did()) {
                    self.adt_queue.push(def.did());
                }
                let a = self.targs(args);
                o.push(("a", a));
            }
            ty::Array(e, n) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push((
                    "n",
                    match n.try_to_target_usize(tcx) {
                        Some(n) => J::I(n as i128),
                        None => s(format!("{}", n)),
                    },
                ));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::RawPtr(e, _) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(path(tcx, *d))));
                let a = self.targs(args.skip_binder());
                o.push(("a", a));
                let ctor = matches!(tcx.def_kind(*d), DefKind::Ctor(..));
                if ctor {
                    let parent = tcx.parent(*d);
                    let (adt, vidx) = match tcx.def_kind(parent) {
                        DefKind::Variant => {
                            let adt = tcx.adt_def(tcx.parent(parent));
                            (adt, adt.variant_index_with_id(parent).as_usize())
                        }
                        _ => (tcx.adt_def(parent), 0),
                    };
                    if self.adts_seen.insert(adt.did()) {
                        self.adt_queue.push(adt.did());
                    }
                    o.push(("ctor", J::A(vec![s(path(tcx, adt.did())), J::I(vidx as i128)])));
                }
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(d) = preds.principal_def_id() {
                    o.push(("p", s(path(tcx, d))));
                }
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("p", s(path(tcx, *d))));
            }
            ty::Coroutine(d, _) => {
                o.push(("k", s("coroutine")));
                o.push(("p", s(path(tcx, *d))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("p", s(p.name.as_str())));
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        J::O(o)
    }

    fn adt(&mut self, did: DefId) {
        let tcx = self.tcx;
        let def = tcx.adt_def(did);
        let mut vs = vec![];
        // only describe ADTs in full when they are cheap or local
        let full = did.is_local()
            || def.variants().len() <= 64;
        if full {
            for (vi, v) in def.variants().iter_enumerated() {
                let disc = if def.is_enum() {
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        def.discriminant_for_variant(tcx, vi)
                    })) {
                        Ok(d) => {
                            // sign-extend
                            let size = rustc_abi::Size::from_bits(
                                match d.ty.kind() {
                                    ty::Int(i) => i.bit_width().unwrap_or(64),
                                    ty::Uint(i) => i.bit_width().unwrap_or(64),
                                    _ => 64,
                                },
                            );
                            J::S(if d.ty.is_signed() {
                                format!("{}", size.sign_extend(d.val))
                            } else {
                                format!("{}", d.val)
                            })
                        }
                        Err(_) => J::N,
                    }
                } else {
                    J::N
                };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let fty = if did.is_local() {
                        let env = TypingEnv::post_analysis(tcx, did);
                        tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(fty)).unwrap_or(fty)
                    } else {
                        fty
                    };
                    let t = if did.is_local() { self.ty(fty) } else { J::N };
                    fs.push(J::O(vec![
                        ("name", s(f.name.as_str())),
                        ("ty", t),
                        ("pub", J::B(f.vis.is_public())),
                    ]));
                }
                vs.push(J::O(vec![
                    ("name", s(v.name.as_str())),
                    ("discr", disc),
                    ("fields", J::A(fs)),
                ]));
            }
        }
        let mut o = vec![
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("variants", J::A(vs)),
            ("local", J::B(did.is_local())),
            ("repr_c", J::B(def.repr().c())),
            ("packed", J::B(def.repr().packed())),
        ];
        if did.is_local() && tcx.generics_of(did).own_counts().types == 0 && tcx.generics_of(did).own_counts().consts == 0 {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                let mut offs = vec![];
                if def.is_struct() {
                    for i in 0..l.fields.count() {
                        offs.push(J::I(l.fields.offset(i).bytes() as i128));
                    }
                }
                o.push(("size", J::I(l.size.bytes() as i128)));
                o.push(("offsets", J::A(offs)));
            }
        }
        self.adts.insert(path(tcx, did), J::O(o));
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => format!("{}", r.path(rustc_span::RemapPathScopeComponents::DIAGNOSTICS).display()),
            o => format!("{:?}", o),
        };
        s(format!("{}:{}", f, lo.line))
    }

    // ------------------------------------------------------------ constants
    fn scalar_int(&self, bits: u128, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("bool", J::B(bits != 0))]),
            ty::Char => J::O(vec![("char", J::I(bits as i128))]),
            ty::Int(i) => {
                let w = i.bit_width().unwrap_or(64) as u32;
                let sh = 128 - w;
                let v = ((bits << sh) as i128) >> sh;
                J::O(vec![("int", s(format!("{}", v)))])
            }
            _ => J::O(vec![("int", s(format!("{}", bits)))]),
        }
    }
    fn read_mem(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::O(vec![("opaque", s("depth"))]);
        }
        let alloc = match tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(a)) => a,
            Some(GlobalAlloc::Static(d)) => return J::O(vec![("static", s(path(tcx, d)))]),
            Some(GlobalAlloc::Function { instance }) => {
                return J::O(vec![("fnptr", s(path(tcx, instance.def_id())))])
            }
            _ => return J::O(vec![("opaque", s("alloc"))]),
        };
        let a = alloc.inner();
        let env = TypingEnv::fully_monomorphized();
        let lay = match tcx.layout_of(env.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return J::O(vec![("opaque", s("layout"))]),
        };
        let size = lay.size.bytes();
        let rd = |o: u64, n: u64| -> Option<u128> {
            if n > 16 {
                return None;
            }
            let r = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize);
            let mut v: u128 = 0;
            for (i, b) in r.iter().enumerate() {
                v |= (*b as u128) << (8 * i);
            }
            Some(v)
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match rd(off, size) {
                Some(v) => self.scalar_int(v, t),
                None => J::O(vec![("opaque", s("int"))]),
            },
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                self.read_seq(aid, off, *e, n, depth)
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, et) in ts.iter().enumerate() {
                    v.push(self.read_mem(aid, off + lay.fields.offset(i).bytes(), et, depth + 1));
                }
                J::O(vec![("agg", J::A(v)), ("variant", J::I(0))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args);
                    let ft = tcx.normalize_erasing_regions(env, ft);
                    v.push(self.read_mem(aid, off + lay.fields.offset(i).bytes(), ft, depth + 1));
                }
                J::O(vec![("agg", J::A(v)), ("variant", J::I(0))])
            }
            ty::Ref(_, e, _) => {
                let prov = a.provenance().ptrs();
                let p = prov.iter().find(|(o, _)| o.bytes() == off).map(|(_, p)| *p);
                let Some(p) = p else {
                    return J::O(vec![("opaque", s("noprov"))]);
                };
                let base = rd(off, 8).unwrap_or(0) as u64;
                match e.kind() {
                    ty::Str => {
                        let n = rd(off + 8, 8).unwrap_or(0) as u64;
                        self.read_str(p.alloc_id(), base, n)
                    }
                    ty::Slice(et) => {
                        let n = rd(off + 8, 8).unwrap_or(0) as u64;
                        let v = self.read_seq(p.alloc_id(), base, *et, n, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                    _ => {
                        let v = self.read_mem(p.alloc_id(), base, *e, depth + 1);
                        J::O(vec![("ref", v)])
                    }
                }
            }
            _ => J::O(vec![("opaque", s("kind"))]),
        }
    }
    fn read_seq(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, e: Ty<'tcx>, n: u64, depth: u32) -> J {
        let env = TypingEnv::fully_monomorphized();
        let es = match self.tcx.layout_of(env.as_query_input(e)) {
            Ok(l) => l.size.bytes(),
            Err(_) => return J::O(vec![("opaque", s("layout"))]),
        };
        if n > 4096 {
            return J::O(vec![("opaque", s("bigarray")), ("n", J::I(n as i128))]);
        }
        let mut v = vec![];
        for i in 0..n {
            v.push(self.read_mem(aid, off + i * es, e, depth + 1));
        }
        // compress constant fills
        J::O(vec![("arr", J::A(v))])
    }
    fn read_str(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, n: u64) -> J {
        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(aid) {
            let r = a
                .inner()
                .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
            return J::O(vec![("str", s(String::from_utf8_lossy(r).to_string()))]);
        }
        J::O(vec![("opaque", s("str"))])
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                    self.scalar_int(i.to_bits(i.size()), t)
                }
                ty::Adt(def, args) if def.is_struct() => {
                    // newtype scalar: find the single non-zst field
                    let fs: Vec<_> = def.non_enum_variant().fields.iter().collect();
                    if fs.len() == 1 {
                        let ft = fs[0].ty(tcx, args);
                        let ft = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ft);
                        let x = self.const_val(v, ft);
                        J::O(vec![("agg", J::A(vec![x])), ("variant", J::I(0))])
                    } else {
                        J::O(vec![("opaque", s("scalar struct"))])
                    }
                }
                _ => self.destructure(v, t),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, e, _) = t.kind() {
                    let x = self.read_mem(prov.alloc_id(), off.bytes(), *e, 0);
                    J::O(vec![("ref", x)])
                } else {
                    J::O(vec![("opaque", s("ptr"))])
                }
            }
            ConstValue::Slice { alloc_id, meta } => match t.kind() {
                ty::Ref(_, e, _) => match e.kind() {
                    ty::Str => self.read_str(alloc_id, 0, meta),
                    ty::Slice(et) => {
                        let x = self.read_seq(alloc_id, 0, *et, meta, 0);
                        J::O(vec![("ref", x)])
                    }
                    _ => J::O(vec![("opaque", s("slice"))]),
                },
                _ => J::O(vec![("opaque", s("slice"))]),
            },
            ConstValue::Indirect { alloc_id, offset } => match t.kind() {
                ty::Adt(def, _) if def.is_enum() => self.destructure(v, t),
                _ => self.read_mem(alloc_id, offset.bytes(), t, 0),
            },
        }
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) {
            return J::O(vec![("opaque", s("destructure"))]);
        }
        match tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.const_val(*fv, *ft));
                }
                J::O(vec![
                    ("agg", J::A(fs)),
                    ("variant", J::I(d.variant.map(|x| x.as_usize()).unwrap_or(0) as i128)),
                ])
            }
            None => J::O(vec![("opaque", s("destructure"))]),
        }
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        match c {
            Const::Unevaluated(u, _) if u.promoted.is_some() => {
                o.push(("promoted", J::I(u.promoted.unwrap().as_usize() as i128)));
                o.push(("of", s(path(tcx, u.def))));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("name", s(path(tcx, u.def))));
        }
        let c2 = tcx.erase_and_anonymize_regions(*c);
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c2.has_param() || c2.has_infer()
        };
        let v = if has_param {
            // may still be evaluable, e.g. associated const of a concrete impl
            match c2 {
                Const::Val(v, _) => Some(v),
                _ => None,
            }
        } else {
            c2.eval(tcx, env, rustc_span::DUMMY_SP).ok()
        };
        match v {
            Some(v) => {
                let x = self.const_val(v, tcx.erase_and_anonymize_regions(t));
                o.push(("v", x));
            }
            None => o.push(("v", J::O(vec![("opaque", s(format!("{}", c)))]))),
        }
        J::O(o)
    }

    // ------------------------------------------------------------ MIR
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::I(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::B(from_end),
                    J::I(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), J::I(v.as_usize() as i128)]),
                _ => s("?"),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, env)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.operand(o, env),
                match n.try_to_target_usize(self.tcx) {
                    Some(n) => J::I(n as i128),
                    None => {
                        // e.g. size_of::<T>() const blocks
                        let n2 = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(*n)).ok();
                        match n2.and_then(|n| n.try_to_target_usize(self.tcx)) {
                            Some(n) => J::I(n as i128),
                            None => s(format!("{}", n)),
                        }
                    }
                },
            ]),
            Rvalue::Ref(_, k, p) => {
                J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p), J::B(matches!(k, BorrowKind::Fake(_)))])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(p), J::B(false)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p), J::B(false)]),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(&body.local_decls, self.tcx);
                J::A(vec![
                    s("cast"),
                    s(match k {
                        CastKind::PointerCoercion(c, _) => format!("Coerce{:?}", c),
                        k => format!("{:?}", k),
                    }),
                    self.operand(o, env),
                    self.ty(*t),
                    self.ty(st),
                ])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", op)),
                    self.operand(&b.0, env),
                    self.operand(&b.1, env),
                    self.ty(t),
                ])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(o, env), self.ty(t)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                J::A(vec![s("discr"), self.place(p), self.ty(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        if self.adts_seen.insert(*d) {
                            self.adt_queue.push(*d);
                        }
                        J::A(vec![
                            s("adt"),
                            s(path(self.tcx, *d)),
                            J::I(v.as_usize() as i128),
                            self.targs(a),
                            match f {
                                Some(f) => J::I(f.as_usize() as i128),
                                None => J::N,
                            },
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(path(self.tcx, *d))]),
                    AggregateKind::Coroutine(d, _) => {
                        J::A(vec![s("coroutine"), s(path(self.tcx, *d))])
                    }
                    _ => J::A(vec![s("other")]),
                };
                let v = ops.iter().map(|o| self.operand(o, env)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(o, env)]),
        }
    }

    fn callee(&mut self, body: &Body<'tcx>, func: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = func.ty(&body.local_decls, tcx);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let args = tcx.erase_and_anonymize_regions(args);
            let mut o = vec![("p", s(path(tcx, *d))), ("a", self.targs(args))];
            if let Some(tr) = tcx.trait_of_assoc(*d) {
                o.push(("trait", s(path(tcx, tr))));
                o.push(("method", s(tcx.item_name(*d).as_str())));
                if let Some(st) = args.types().next() {
                    let x = self.ty(st);
                    o.push(("self", x));
                }
            }
            if matches!(tcx.def_kind(*d), DefKind::Ctor(..)) {
                let x = self.ty(t);
                o.push(("ctor_ty", x));
            } else if matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, env, *d, args) {
                    o.push(("r", s(path(tcx, i.def_id()))));
                    o.push(("local", J::B(i.def_id().is_local())));
                    o.push(("ra", self.targs(i.args)));
                    let ik = match i.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        ty::InstanceKind::Intrinsic(_) => "intrinsic",
                        _ => "shim",
                    };
                    o.push(("ik", s(ik)));
                }
                let sig = tcx.fn_sig(*d).skip_binder();
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
            }
            J::O(o)
        } else {
            J::O(vec![("op", self.operand(func, env)), ("fty", self.ty(t))])
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.as_str().to_string());
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut o = vec![("ty", t)];
            if let Some(n) = names.get(&l.as_usize()) {
                o.push(("name", s(n.clone())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut ss = vec![];
            for st in b.statements.iter() {
                match &st.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let pj = self.place(p);
                        let rj = self.rvalue(body, r, env);
                        let sp = self.span(st.source_info.span);
                        ss.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        ss.push(J::A(vec![s("setd"), pj, J::I(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(J::A(vec![s("intr"), s(format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let bb = |x: BasicBlock| J::I(x.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let mut vs = vec![];
                    for (v, t) in targets.iter() {
                        let vv = match dt.kind() {
                            ty::Int(i) => {
                                let w = i.bit_width().unwrap_or(64) as u32;
                                let sh = 128 - w;
                                format!("{}", ((v << sh) as i128) >> sh)
                            }
                            _ => format!("{}", v),
                        };
                        vs.push(J::A(vec![s(vv), bb(t)]));
                    }
                    let o = self.operand(discr, env);
                    let dt = self.ty(dt);
                    J::A(vec![s("switch"), o, J::A(vs), bb(targets.otherwise()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pj = self.place(place);
                    let pt = self.ty(pt);
                    J::A(vec![s("drop"), pj, bb(*target), pt])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(body, func, env);
                    let mut av = vec![];
                    let mut at = vec![];
                    for a in args.iter() {
                        av.push(self.operand(&a.node, env));
                        let t = a.node.ty(&body.local_decls, tcx);
                        at.push(self.ty(t));
                    }
                    let d = self.place(destination);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    J::A(vec![
                        s("call"),
                        c,
                        J::A(av),
                        d,
                        match target {
                            Some(t) => bb(*t),
                            None => J::N,
                        },
                        J::A(at),
                        dt,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond, env);
                    let (mk, mops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![self.operand(len, env), self.operand(index, env)])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{:?}", op), vec![self.operand(a, env), self.operand(b, env)])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".to_string(), vec![self.operand(a, env)]),
                        AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![self.operand(a, env)]),
                        AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![self.operand(a, env)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    J::A(vec![s("assert"), o, J::B(*expected), s(mk), J::A(mops), bb(*target)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let o = self.operand(value, env);
                    let p = self.place(resume_arg);
                    J::A(vec![s("yield"), o, bb(*resume), p])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::CoroutineDrop => J::A(vec![s("resume")]),
                TerminatorKind::TailCall { .. } => J::A(vec![s("other")]),
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(ss)),
                ("t", tj),
                ("sp", sp),
                ("cl", J::B(b.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("args", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, krate: &str, out: &str) {
    let mut d = D {
        tcx,
        types: vec![],
        tymap: HashMap::new(),
        adts: BTreeMap::new(),
        adts_seen: HashSet::new(),
        adt_queue: vec![],
    };
    // 1. clone every body before anything steals it
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let mut bodies = vec![];
    for o in owners.iter() {
        let kind = tcx.def_kind(o.to_def_id());
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let (b, p) = tcx.mir_promoted(*o);
        let b = b.borrow().clone();
        let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
        bodies.push((*o, kind, b, p));
    }
    // 2. serialise
    let mut fns = vec![];
    for (o, kind, b, p) in bodies.iter() {
        let did = o.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let bj = d.body(b, env);
        let pj: Vec<J> = p.iter().map(|x| d.body(x, env)).collect();
        let mut info = vec![
            ("kind", s(match kind {
                DefKind::Closure => {
                    if tcx.coroutine_kind(did).is_some() { "coroutine" } else { "closure" }
                }
                _ => "fn",
            })),
            ("span", d.span(tcx.def_span(did))),
            ("pub", J::B(if matches!(kind, DefKind::Closure) { false } else { tcx.visibility(did).is_public() })),
            ("body", bj),
            ("promoted", J::A(pj)),
        ];
        if matches!(kind, DefKind::AssocFn) {
            let parent = tcx.parent(did);
            info.push(("method", s(tcx.item_name(did).as_str())));
            match tcx.def_kind(parent) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    let x = d.ty(st);
                    info.push(("self", x));
                    if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        info.push(("trait", s(path(tcx, tr.def_id))));
                        let ta = d.targs(tr.args);
                        info.push(("trait_args", ta));
                    }
                    let derived = tcx.is_automatically_derived(parent);
                    info.push(("derived", J::B(derived)));
                }
                DefKind::Trait => info.push(("trait_default", s(path(tcx, parent)))),
                _ => {}
            }
        }
        if !matches!(kind, DefKind::Closure) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let t = d.ty(sig.output());
            info.push(("ret", t));
            let nm: Vec<J> = tcx
                .fn_arg_idents(did)
                .iter()
                .map(|i| match i {
                    Some(i) => s(i.name.as_str()),
                    None => J::N,
                })
                .collect();
            info.push(("argnames", J::A(nm)));
        } else {
            info.push(("parent", s(path(tcx, tcx.typeck_root_def_id(did)))));
            let ups: Vec<J> = tcx
                .closure_captures(*o)
                .iter()
                .map(|c| s(c.to_string(tcx)))
                .collect();
            info.push(("upvars", J::A(ups)));
        }
        fns.push((path(tcx, did), J::O(info)));
    }
    // local ADTs and impls
    let mut impls = vec![];
    for id in tcx.hir_free_items() {
        let did = id.owner_id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum => {
                if d.adts_seen.insert(did) {
                    d.adt_queue.push(did);
                }
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let x = d.ty(st);
                let mut o = vec![("self", x), ("sp", d.span(tcx.def_span(did)))];
                if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    let ta = d.targs(tr.args);
                    o.push(("trait_args", ta));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if matches!(it.kind, ty::AssocKind::Fn { .. }) {
                        ms.push((it.name().as_str().to_string(), s(path(tcx, it.def_id))));
                    }
                }
                o.push(("methods", J::M(ms)));
                impls.push(J::O(o));
            }
            _ => {}
        }
    }
    let mut i = 0;
    while i < d.adt_queue.len() {
        let a = d.adt_queue[i];
        i += 1;
        d.adt(a);
    }
    let mut consts = vec![];
    for id in tcx.hir_free_items() {
        let did = id.owner_id.to_def_id();
        if let DefKind::Const { .. } = tcx.def_kind(did) {
            if tcx.generics_of(did).count() == 0 {
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let tj = d.ty(t);
                    let vj = d.const_val(v, t);
                    consts.push((path(tcx, did), J::O(vec![("ty", tj), ("v", vj)])));
                }
            }
        }
    }
    let doc = J::O(vec![
        ("crate", s(krate)),
        ("fns", J::M(fns)),
        ("adts", J::M(d.adts.clone().into_iter().collect())),
        ("impls", J::A(impls)),
        ("consts", J::M(consts)),
        ("types", J::A(d.types.clone())),
    ]);
    let mut o = String::with_capacity(1 << 24);
    doc.write(&mut o);
    std::fs::write(out, o).expect("write dump");
}

struct Cb {
    out: Option<String>,
    krate: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Some(o) = &self.out {
            dump(tcx, &self.krate, o);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper mode: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let is_build = name == "build_script_build";
    let want: Vec<String> = std::env::var("XV_CRATES")
        .unwrap_or_default()
        .split(',')
        .map(|x| x.to_string())
        .collect();
    let mut out = None;
    let name = std::env::var("CARGO_PKG_NAME").unwrap_or(name);
    if !is_test && !is_build && want.iter().any(|w| *w == name) {
        if let Ok(dir) = std::env::var("XV_OUT") {
            let suffix = std::env::var("XV_SUFFIX").unwrap_or_default();
            out = Some(format!("{}/{}{}.json", dir, name, suffix));
        }
    }
    let mut cb = Cb { out, krate: name };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
