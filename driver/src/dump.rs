use std::collections::HashMap;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

use crate::json::J;
use crate::{arr, obj};

/// Non-local bodies worth dumping: small, safe, combinator-like functions.
const FOREIGN: &[&str] = &[
    "core::option::", "core::result::", "core::ops::control_flow::", "core::bool::",
    "core::ops::function::", "std::option::", "std::result::", "std::ops::",
    "core::iter::range", "core::cmp::", "std::cmp::", "core::convert", "std::convert", "core::tuple", "T as core::convert::", "core::ops::try_trait", "core::bool::",
];

struct Root<'tcx> {
    env: ty::TypingEnv<'tcx>,
    name: String,
}

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    defs: Vec<J>,
    def_ix: HashMap<DefId, usize>,
    adts: Vec<J>,
    adt_seen: HashMap<DefId, ()>,
    inst_ix: HashMap<(Instance<'tcx>, usize), usize>,
    insts: Vec<Option<J>>,
    work: Vec<(usize, Instance<'tcx>, usize)>,
    roots: Vec<Root<'tcx>>,
    // the root whose environment the current body is analysed in
    cur_root: usize,
    cur_args: Option<GenericArgsRef<'tcx>>,
    statics: HashMap<DefId, J>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        tys: vec![],
        ty_ix: HashMap::new(),
        defs: vec![],
        def_ix: HashMap::new(),
        adts: vec![],
        adt_seen: HashMap::new(),
        inst_ix: HashMap::new(),
        insts: vec![],
        work: vec![],
        roots: vec![],
        cur_root: 0,
        cur_args: None,
        statics: HashMap::new(),
    };
    let j = cx.run();
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).expect("write facts");
}

impl<'tcx> Cx<'tcx> {
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut root_ids = vec![];
        for ldid in tcx.hir_body_owners() {
            let d = ldid.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = ty::TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance { def: InstanceKind::Item(d), args };
            self.roots.push(Root { env, name: path(tcx, d) });
            let r = self.roots.len() - 1;
            let i = self.inst(inst, r);
            root_ids.push(J::from(i));
        }
        while let Some((ix, inst, root)) = self.work.pop() {
            let j = self.body(inst, root);
            self.insts[ix] = Some(j);
        }
        // impls of the crate
        let mut impls = vec![];
        for (trait_did, ids) in tcx.all_local_trait_impls(()).iter() {
            for id in ids {
                let d = id.to_def_id();
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let di = self.def(it.def_id);
                    items.push(obj! {"name": it.name().to_string(), "def": di});
                }
                let provided: Vec<J> = tcx
                    .provided_trait_methods(*trait_did)
                    .map(|m| J::from(m.name().to_string()))
                    .collect();
                let self_ty = self.ty(tr.self_ty());
                let targs: Vec<J> = tr.args.types().map(|t| J::from(self.ty(t))).collect();
                let derived = tcx.is_automatically_derived(d);
                impls.push(obj! {
                    "trait": path(tcx, *trait_did), "self": self_ty, "args": targs,
                    "items": items, "provided": provided, "derived": derived,
                    "span": self.span(tcx.def_span(d)),
                });
            }
        }
        // inherent items and visibility
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::Static { .. } | DefKind::Const | DefKind::AssocConst) {
                let di = self.def(d);
                let vis = tcx.visibility(d).is_public();
                items.push(obj! {"def": di, "kind": format!("{kind:?}"), "pub": vis, "span": self.span(tcx.def_span(d))});
            }
        }
        let statics: Vec<J> = self.statics.values().cloned().collect();
        let insts: Vec<J> = std::mem::take(&mut self.insts).into_iter().map(|x| x.unwrap_or(J::Null)).collect();
        let root_names: Vec<J> = self.roots.iter().map(|r| J::from(r.name.clone())).collect();
        obj! {
            "crate": tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string(),
            "types": std::mem::take(&mut self.tys),
            "defs": std::mem::take(&mut self.defs),
            "adts": std::mem::take(&mut self.adts),
            "insts": insts,
            "roots": root_ids,
            "root_names": root_names,
            "impls": impls,
            "items": items,
            "statics": statics,
        }
    }

    fn def(&mut self, d: DefId) -> usize {
        if let Some(i) = self.def_ix.get(&d) {
            return *i;
        }
        let i = self.defs.len();
        self.def_ix.insert(d, i);
        self.defs.push(J::Null);
        let tcx = self.tcx;
        let mut tr = J::Null;
        let mut self_ty = J::Null;
        let mut parent_path = J::Null;
        let name = tcx.opt_item_name(d).map(|s| s.to_string());
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Trait => tr = J::from(path(tcx, p)),
                DefKind::Impl { of_trait } => {
                    if of_trait {
                        let t = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        tr = J::from(path(tcx, t.def_id));
                    }
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    self_ty = J::from(self.ty(st));
                }
                _ => parent_path = J::from(path(tcx, p)),
            }
        }
        let j = obj! {
            "path": path(tcx, d),
            "crate": tcx.crate_name(d.krate).to_string(),
            "name": name,
            "trait": tr,
            "self": self_ty,
            "parent": parent_path,
            "kind": format!("{:?}", tcx.def_kind(d)),
            "local": d.is_local(),
        };
        self.defs[i] = j;
        i
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        arr![f, lo.line]
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.ty_ix.insert(t, i);
        self.tys.push(J::Null);
        let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        let j = match t.kind() {
            ty::Bool => obj! {"k": "bool", "s": s},
            ty::Char => obj! {"k": "char", "s": s},
            ty::Int(x) => obj! {"k": "int", "s": s, "bits": x.bit_width().unwrap_or(64)},
            ty::Uint(x) => obj! {"k": "uint", "s": s, "bits": x.bit_width().unwrap_or(64)},
            ty::Float(_) => obj! {"k": "float", "s": s},
            ty::Str => obj! {"k": "str", "s": s},
            ty::Never => obj! {"k": "never", "s": s},
            ty::Adt(def, args) => {
                self.adt(*def);
                let a: Vec<J> = args.types().map(|t| J::from(self.ty(t))).collect();
                // instantiated field types
                let d = self.def(def.did());
                let mut vs = vec![];
                for v in def.variants().iter() {
                    let fs: Vec<J> = if def.did().is_local() || def.is_enum() {
                        v.fields.iter().map(|f| {
                            let ft = f.ty(tcx, args);
                            let ft = ft.skip_norm_wip();
                            J::from(self.ty(ft))
                        }).collect()
                    } else { vec![] };
                    vs.push(J::Arr(fs));
                }
                obj! {"k": "adt", "s": s, "def": d, "path": path(tcx, def.did()), "args": a, "vf": vs}
            }
            ty::Ref(_, inner, m) => {
                let it = self.ty(*inner);
                obj! {"k": "ref", "s": s, "mut": m.is_mut(), "to": it}
            }
            ty::RawPtr(inner, m) => {
                let it = self.ty(*inner);
                obj! {"k": "ptr", "s": s, "mut": m.is_mut(), "to": it}
            }
            ty::Slice(inner) => {
                let it = self.ty(*inner);
                obj! {"k": "slice", "s": s, "to": it}
            }
            ty::Array(inner, n) => {
                let it = self.ty(*inner);
                let n = n.try_to_target_usize(tcx);
                obj! {"k": "array", "s": s, "to": it, "n": n}
            }
            ty::Tuple(ts) => {
                let a: Vec<J> = ts.iter().map(|t| J::from(self.ty(t))).collect();
                obj! {"k": "tuple", "s": s, "args": a}
            }
            ty::FnDef(d, args) => {
                let di = self.def(*d);
                let a: Vec<J> = args.no_bound_vars().expect("bv").types().map(|t| J::from(self.ty(t))).collect();
                obj! {"k": "fndef", "s": s, "def": di, "args": a}
            }
            ty::Closure(d, args) => {
                let di = self.def(*d);
                let up = args.as_closure().upvar_tys();
                let a: Vec<J> = up.iter().map(|t| J::from(self.ty(t))).collect();
                obj! {"k": "closure", "s": s, "def": di, "upvars": a}
            }
            ty::Param(p) => obj! {"k": "param", "s": s, "name": p.name.to_string()},
            ty::Dynamic(..) => obj! {"k": "dyn", "s": s},
            ty::Alias(..) => obj! {"k": "alias", "s": s},
            ty::FnPtr(..) => obj! {"k": "fnptr", "s": s},
            _ => obj! {"k": "other", "s": s},
        };
        self.tys[i] = j;
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adt_seen.insert(def.did(), ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let mut vs = vec![];
        let big = !def.did().is_local() && !def.is_enum();
        for (vi, v) in def.variants().iter_enumerated() {
            let fields: Vec<J> = if big { vec![] } else { v.fields.iter().map(|f| {
                obj! {"name": f.name.to_string(), "pub": f.vis.is_public()}
            }).collect() };
            let discr = if def.is_enum() {
                J::Str(def.discriminant_for_variant(tcx, vi).val.to_string())
            } else { J::Null };
            vs.push(obj! {"name": v.name.to_string(), "discr": discr, "fields": fields});
        }
        let d = self.def(def.did());
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let j = obj! {"path": path(tcx, def.did()), "def": d, "kind": kind, "box": def.is_box(),
                      "variants": vs, "local": def.did().is_local()};
        self.adts.push(j);
    }

    fn wants_body(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                if d.is_local() {
                    return matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) && tcx.is_mir_available(d);
                }
                let p = path(tcx, d);
                let q = p.trim_start_matches('<');
                FOREIGN.iter().any(|f| q.starts_with(f)) && tcx.is_mir_available(d)
                    && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        }
    }

    fn inst(&mut self, inst: Instance<'tcx>, root: usize) -> usize {
        let key_root = if inst.args.has_param() || inst.args.has_aliases() { root + 1 } else { 0 };
        if let Some(i) = self.inst_ix.get(&(inst, key_root)) {
            return *i;
        }
        let i = self.insts.len();
        self.insts.push(None);
        self.inst_ix.insert((inst, key_root), i);
        self.work.push((i, inst, root));
        i
    }

    fn body(&mut self, inst: Instance<'tcx>, root: usize) -> J {
        let tcx = self.tcx;
        let d = self.def(inst.def_id());
        let targs: Vec<J> = inst.args.types().map(|t| J::from(self.ty(t))).collect();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Intrinsic(..) => "intrinsic",
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(_) => "shim",
            _ => "other",
        };
        if !self.wants_body(inst) {
            return obj! {"def": d, "args": targs, "kind": kind};
        }
        let env = self.roots[root].env;
        let raw = tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => raw.clone(),
        };
        let saved = (self.cur_root, self.cur_args);
        self.cur_root = root;
        self.cur_args = Some(inst.args);
        let mut j = self.mir(&body);
        // promoteds
        let mut promoted = vec![];
        if let InstanceKind::Item(did) = inst.def {
            if did.is_local() || tcx.is_mir_available(did) {
                for p in tcx.promoted_mir(did).iter() {
                    let pb = match inst.try_instantiate_mir_and_normalize_erasing_regions(
                        tcx, env, ty::EarlyBinder::bind(tcx, p.clone())) {
                        Ok(b) => b,
                        Err(_) => p.clone(),
                    };
                    promoted.push(self.mir(&pb));
                }
            }
        }
        self.cur_root = saved.0;
        self.cur_args = saved.1;
        if let J::Obj(v) = &mut j {
            v.push(("def", J::from(d)));
            v.push(("args", J::from(targs)));
            v.push(("kind", J::from(kind)));
            v.push(("root", J::from(root)));
            v.push(("promoted", J::from(promoted)));
            v.push(("span", self.span(tcx.def_span(inst.def_id()))));
        }
        j
    }

    fn mir(&mut self, body: &mir::Body<'tcx>) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|l| J::from(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(arr![v.name.to_string(), self.place(p)]);
            }
        }
        let mut blocks = vec![];
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                if let Some(j) = self.stmt(s) {
                    st.push(j);
                }
            }
            let term = self.term(b.terminator());
            let _ = bi;
            blocks.push(obj! {"s": st, "t": term, "cleanup": b.is_cleanup});
        }
        obj! {"argc": body.arg_count, "locals": locals, "names": names, "blocks": blocks,
              "spread": body.spread_arg.map(|l| l.as_usize())}
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => J::from("*"),
                mir::ProjectionElem::Field(f, t) => { let t = self.ty(t); arr!["f", f.as_usize(), t] }
                mir::ProjectionElem::Index(l) => arr!["i", l.as_usize()],
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr!["ci", offset, min_length, from_end]
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => arr!["sub", from, to, from_end],
                mir::ProjectionElem::Downcast(_, v) => arr!["d", v.as_usize()],
                mir::ProjectionElem::OpaqueCast(_) => arr!["oc"],
                mir::ProjectionElem::UnwrapUnsafeBinder(_) => arr!["ub"],
                #[allow(unreachable_patterns)]
                _ => arr!["other"],
            });
        }
        arr![p.local.as_usize(), J::Arr(pr)]
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => arr!["c", self.place(p)],
            mir::Operand::Move(p) => arr!["m", self.place(p)],
            mir::Operand::Constant(c) => arr!["k", self.constant(&c.const_)],
            mir::Operand::RuntimeChecks(r) => arr!["rc", format!("{r:?}")],
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tyi = self.ty(t);
        let env = self.roots[self.cur_root].env;
        let v = match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().expect("bound vars in FnDef args");
                return obj! {"ty": tyi, "v": self.callee(*d, args)};
            }
            _ => {
                let val = match c {
                    mir::Const::Val(v, _) => Some(*v),
                    mir::Const::Unevaluated(u, _) => {
                        if let Some(p) = u.promoted {
                            return obj! {"ty": tyi, "v": obj!{"promoted": p.as_usize()}};
                        }
                        if u.args.has_param() { None } else { c.eval(tcx, env, rustc_span::DUMMY_SP).ok() }
                    }
                    mir::Const::Ty(..) => c.eval(tcx, env, rustc_span::DUMMY_SP).ok(),
                };
                match val {
                    Some(v) => self.constval(v, t, 0),
                    None => match c {
                        mir::Const::Unevaluated(u, _) => {
                            let d = self.def(u.def);
                            let a: Vec<J> = u.args.types().map(|t| J::from(self.ty(t))).collect();
                            obj! {"uneval": d, "args": a}
                        }
                        _ => obj! {"opaque": format!("{c:?}")},
                    },
                }
            }
        };
        obj! {"ty": tyi, "v": v}
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let env = self.roots[self.cur_root].env;
        let di = self.def(d);
        let a: Vec<J> = args.types().map(|t| J::from(self.ty(t))).collect();
        let args = tcx.erase_and_anonymize_regions(args);
        let res = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                Instance::try_resolve(tcx, env, d, args).ok().flatten()
            }
            DefKind::Ctor(..) => None,
            _ => None,
        };
        let (ix, fkind) = match res {
            Some(i) => {
                let k = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(..) => "intrinsic",
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                    InstanceKind::Shim(_) => "shim",
                    _ => "other",
                };
                (J::from(self.inst(i, self.cur_root)), k)
            }
            None => (J::Null, "unresolved"),
        };
        let mut ctor = J::Null;
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let p = tcx.parent(d);
            ctor = match of {
                rustc_hir::def::CtorOf::Struct => { let x = self.def(p); arr![x, 0usize] }
                rustc_hir::def::CtorOf::Variant => {
                    let adt = tcx.adt_def(tcx.parent(p));
                    let vi = adt.variant_index_with_ctor_id(d);
                    let x = self.def(adt.did());
                    arr![x, vi.as_usize()]
                }
            };
        }
        obj! {"fn": di, "args": a, "inst": ix, "rk": fkind, "ctor": ctor}
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return obj! {"opaque": "deep"};
        }
        let env = ty::TypingEnv::fully_monomorphized();
        if t.has_param() {
            // may still be a ZST or so
            return match v { ConstValue::ZeroSized => obj! {"zst": true}, _ => obj! {"opaque": "param"} };
        }
        match t.kind() {
            ty::Bool => {
                if let Some(b) = v.try_to_bits_for_ty(tcx, env, t) { return obj! {"bool": b != 0}; }
                self.mem_scalar(v, t).map(|b| obj! {"bool": b != 0}).unwrap_or(obj! {"opaque": "bool"})
            }
            ty::Char => {
                if let Some(b) = v.try_to_bits_for_ty(tcx, env, t) { return obj! {"char": b}; }
                self.mem_scalar(v, t).map(|b| obj! {"char": b}).unwrap_or(obj! {"opaque": "char"})
            }
            ty::Int(_) | ty::Uint(_) => {
                let bits = v.try_to_bits_for_ty(tcx, env, t).or_else(|| self.mem_scalar(v, t));
                match bits {
                    Some(b) => {
                        let size = tcx.layout_of(env.as_query_input(t)).unwrap().size;
                        if matches!(t.kind(), ty::Int(_)) {
                            let x = size.sign_extend(b);
                            obj! {"int": x}
                        } else {
                            obj! {"int": b}
                        }
                    }
                    None => obj! {"opaque": "int"},
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => self.const_ref(v, *inner, depth),
            ty::FnDef(d, args) => self.callee(*d, args.no_bound_vars().expect("bound vars")),
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ConstValue::ZeroSized = v {
                    if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) { return obj! {"zst": true}; }
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() || (!def.did().is_local() && def.is_struct() && !path(tcx, def.did()).starts_with("core::option")) {
                        // opaque std structs: still try, shallowly
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<J> = dc.fields.iter().map(|(fv, ft)| self.constval(*fv, *ft, depth + 1)).collect();
                        match t.kind() {
                            ty::Adt(..) => obj! {"adt": dc.variant.map(|v: VariantIdx| v.as_usize()).unwrap_or(0), "fields": fs},
                            ty::Tuple(..) => obj! {"tuple": fs},
                            _ => obj! {"arr": fs},
                        }
                    }
                    None => obj! {"opaque": "destructure"},
                }
            }
            _ => match v {
                ConstValue::ZeroSized => obj! {"zst": true},
                _ => obj! {"opaque": "kind"},
            },
        }
    }

    fn mem_scalar(&self, v: ConstValue, t: Ty<'tcx>) -> Option<u128> {
        let tcx = self.tcx;
        let env = ty::TypingEnv::fully_monomorphized();
        let ConstValue::Indirect { alloc_id, offset } = v else { return None };
        let size = tcx.layout_of(env.as_query_input(t)).ok()?.size;
        let alloc = match tcx.global_alloc(alloc_id) { GlobalAlloc::Memory(m) => m, _ => return None };
        let sc = alloc.inner().read_scalar(&tcx, AllocRange { start: offset, size }, false).ok()?;
        sc.try_to_scalar_int().ok().map(|s| s.to_bits(size))
    }

    fn const_ref(&mut self, v: ConstValue, inner: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::fully_monomorphized();
        let ptr_size = tcx.data_layout.pointer_size();
        // (alloc, offset, meta)
        let (alloc_id, off, meta) = match v {
            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, Some(meta)),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off.bytes(), None)
            }
            ConstValue::Scalar(_) => return obj! {"opaque": "intptr"},
            ConstValue::ZeroSized => return obj! {"opaque": "zstref"},
            ConstValue::Indirect { alloc_id, offset } => {
                let alloc = match tcx.global_alloc(alloc_id) { GlobalAlloc::Memory(m) => m, _ => return obj!{"opaque":"mem"} };
                let sc = match alloc.inner().read_scalar(&tcx, AllocRange { start: offset, size: ptr_size }, true) {
                    Ok(s) => s, Err(_) => return obj! {"opaque": "readptr"},
                };
                let (id, o) = match sc { Scalar::Ptr(p, _) => { let (prov, off) = p.into_raw_parts(); (prov.alloc_id(), off.bytes()) } _ => return obj! {"opaque": "intptr"} };
                let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                    let m = alloc.inner().read_scalar(&tcx, AllocRange { start: offset + ptr_size, size: ptr_size }, false);
                    match m { Ok(m) => m.try_to_scalar_int().ok().map(|s| s.to_target_usize(tcx)), Err(_) => None }
                } else { None };
                (id, o, meta)
            }
        };
        match tcx.global_alloc(alloc_id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                match inner.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0) as usize;
                        let o = off as usize;
                        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                        obj! {"str": String::from_utf8_lossy(bytes).to_string()}
                    }
                    ty::Slice(el) => {
                        let n = meta.unwrap_or(0);
                        if n > 4096 { return obj! {"opaque": "bigslice"}; }
                        let sz = match tcx.layout_of(env.as_query_input(*el)) { Ok(l) => l.size, Err(_) => return obj!{"opaque":"layout"} };
                        let mut out = vec![];
                        for i in 0..n {
                            let cv = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::from_bytes(off) + sz * i };
                            out.push(self.constval_ind(cv, *el, depth + 1));
                        }
                        obj! {"ref": obj!{"arr": out}}
                    }
                    ty::Dynamic(..) => obj! {"opaque": "dyn"},
                    _ => {
                        let cv = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::from_bytes(off) };
                        let j = self.constval_ind(cv, inner, depth + 1);
                        obj! {"ref": j}
                    }
                }
            }
            GlobalAlloc::Static(d) => {
                let di = self.def(d);
                if d.is_local() && !self.statics.contains_key(&d) {
                    self.statics.insert(d, J::Null);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let val = match tcx.eval_static_initializer(d) {
                        Ok(a) => {
                            let id = tcx.reserve_and_set_memory_alloc(a);
                            let cv = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO };
                            self.constval_ind(cv, t, 0)
                        }
                        Err(_) => obj! {"opaque": "static"},
                    };
                    let tyi = self.ty(t);
                    self.statics.insert(d, obj! {"def": di, "ty": tyi, "v": val});
                }
                obj! {"static": di}
            }
            GlobalAlloc::Function { .. } => obj! {"opaque": "fnptr"},
            _ => obj! {"opaque": "alloc"},
        }
    }

    fn constval_ind(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::fully_monomorphized();
        let zst = tcx.layout_of(env.as_query_input(t)).map(|l| l.is_zst()).unwrap_or(false);
        if zst { self.constval(ConstValue::ZeroSized, t, depth) } else { self.constval(v, t, depth) }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => arr!["use", self.operand(o)],
            Repeat(o, n) => arr!["repeat", self.operand(o), n.try_to_target_usize(self.tcx)],
            Ref(_, bk, p) => arr!["ref", matches!(bk, mir::BorrowKind::Mut { .. }), self.place(p)],
            RawPtr(k, p) => arr!["raw", format!("{k:?}"), self.place(p)],
            Reborrow(_, m, p) => arr!["reborrow", m.is_mut(), self.place(p)],
            ThreadLocalRef(_) => arr!["tls"],
            Cast(k, o, t) => arr!["cast", format!("{k:?}"), self.operand(o), self.ty(*t)],
            BinaryOp(op, b) => arr!["bin", format!("{op:?}"), self.operand(&b.0), self.operand(&b.1)],
            UnaryOp(op, o) => arr!["un", format!("{op:?}"), self.operand(o)],
            Discriminant(p) => arr!["discr", self.place(p)],
            Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(_) => arr!["array"],
                    mir::AggregateKind::Tuple => arr!["tuple"],
                    mir::AggregateKind::Adt(d, v, args, _, f) => {
                        let di = self.def(*d);
                        let ty = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(ty);
                        arr!["adt", di, v.as_usize(), f.map(|f: FieldIdx| f.as_usize()), t]
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let di = self.def(*d);
                        // the closure body as an instance in this environment
                        let args = self.tcx.erase_and_anonymize_regions(*args);
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        let ix = self.inst(inst, self.cur_root);
                        arr!["closure", di, ix]
                    }
                    mir::AggregateKind::RawPtr(..) => arr!["rawptr"],
                    _ => arr!["other"],
                };
                arr!["agg", kj, os]
            }
            CopyForDeref(p) => arr!["use", arr!["c", self.place(p)]],
            WrapUnsafeBinder(o, _) => arr!["use", self.operand(o)],
        }
    }

    fn stmt(&mut self, s: &mir::Statement<'tcx>) -> Option<J> {
        let sp = self.span(s.source_info.span);
        match &s.kind {
            mir::StatementKind::Assign(b) => {
                let r = self.rvalue(&b.1);
                Some(arr!["=", self.place(&b.0), r, sp])
            }
            mir::StatementKind::SetDiscriminant { place, variant_index } => {
                Some(arr!["sd", self.place(place), variant_index.as_usize(), sp])
            }
            mir::StatementKind::StorageDead(l) => Some(arr!["dead", l.as_usize()]),
            _ => None,
        }
    }

    fn term(&mut self, t: &mir::Terminator<'tcx>) -> J {
        use mir::TerminatorKind::*;
        let sp = self.span(t.source_info.span);
        match &t.kind {
            Goto { target, .. } => arr!["goto", target.as_usize()],
            SwitchInt { discr, targets } => {
                let ts: Vec<J> = targets.iter().map(|(v, b)| arr![v, b.as_usize()]).collect();
                arr!["switch", self.operand(discr), ts, targets.otherwise().as_usize(), sp]
            }
            Return => arr!["ret"],
            Unreachable => arr!["unreachable"],
            UnwindResume | UnwindTerminate(_) => arr!["unwind"],
            Drop { place, target, .. } => arr!["drop", self.place(place), target.as_usize(), sp],
            Call { func, args, destination, target, .. } => {
                let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                arr!["call", self.operand(func), a, self.place(destination), target.map(|t| t.as_usize()), sp]
            }
            Assert { cond, expected, msg, target, .. } => {
                let k = match &**msg {
                    mir::AssertKind::BoundsCheck { len, index } => arr!["bounds", self.operand(len), self.operand(index)],
                    mir::AssertKind::Overflow(op, a, b) => arr!["overflow", format!("{op:?}"), self.operand(a), self.operand(b)],
                    mir::AssertKind::OverflowNeg(a) => arr!["overflow_neg", self.operand(a)],
                    mir::AssertKind::DivisionByZero(a) => arr!["div0", self.operand(a)],
                    mir::AssertKind::RemainderByZero(a) => arr!["rem0", self.operand(a)],
                    _ => arr!["other"],
                };
                arr!["assert", self.operand(cond), *expected, k, target.as_usize(), sp]
            }
            FalseEdge { real_target, .. } => arr!["goto", real_target.as_usize()],
            FalseUnwind { real_target, .. } => arr!["goto", real_target.as_usize()],
            _ => arr!["other"],
        }
    }
}
